/* Switching between PEs: the library's per-process state is saved and restored
 * (vh_sroa_switch is generated from the library's own variables). */
#include <shmem.h>
#include <shmemx.h>
#include "oshmpi_impl.h"
#include "vh.h"
const size_t mm_pktsz = sizeof(OSHMPI_am_pkt_t);
static OSHMPI_am_pkt_t vh_pkt[MM_NMSG];
void vh_pkt_store(int slot, const void *p) { vh_pkt[slot] = *(const OSHMPI_am_pkt_t *) p; }
void vh_pkt_load(int slot, void *p) { *(OSHMPI_am_pkt_t *) p = vh_pkt[slot]; }
/* Ghost state of the message transport in descriptor mode. The target applies packets of one
 * sender in order (shown in M01), so the reply to a later request proves them applied. */
int vh_am_out[NPE], vh_am_pairs;
static int vh_am_tag[NPE], vh_am_wait[NPE];
void vh_am_sent(int dst, const void *b, int ispkt, int tag, int comm)
{
    int k;
    if (!ispkt || tag != OSHMPI_AM_PKT_TAG) return;
    OSHMPI_am_pkt_t p = *(const OSHMPI_am_pkt_t *) b;
    for (k = 0; k < NPE; k++) if (k == dst) switch (p.type) {
        case OSHMPI_AM_PKT_POST: case OSHMPI_AM_PKT_PUT: case OSHMPI_AM_PKT_IPUT: vh_am_out[k] |= mm_op_tag; vh_am_wait[k] = 0; break;
        case OSHMPI_AM_PKT_FLUSH: vh_am_tag[k] = p.flush.ptag; vh_am_wait[k] = 1; break;
        case OSHMPI_AM_PKT_FETCH: vh_am_tag[k] = p.fetch.ptag; vh_am_wait[k] = 1; break;
        case OSHMPI_AM_PKT_CSWAP: vh_am_tag[k] = p.cswap.ptag; vh_am_wait[k] = 1; break;
        case OSHMPI_AM_PKT_GET: vh_am_tag[k] = p.get.ptag; vh_am_wait[k] = 1; break;
        case OSHMPI_AM_PKT_IGET: vh_am_tag[k] = p.iget.ptag; vh_am_wait[k] = 1; break;
        default: break;
    }
}
void vh_am_recv(int src, int tag, int comm, long len)
{
    int k;
    for (k = 0; k < NPE; k++) if (k == src && vh_am_wait[k] && vh_am_tag[k] == tag) { vh_am_out[k] = 0; vh_am_wait[k] = 0; vh_am_pairs++; }
}
void vh_sroa_switch(int from, int to);
void vh_switch(int pe)
{
    if (pe == mm_me) return;
    vh_sroa_switch(mm_me, pe);
    mm_me = pe;
}
void vh_poll(int pe)
{
    int me = mm_me, i;
    vh_switch(pe);
    for (i = 0; i < MM_NMSG; i++) if (mm_msgs_to(pe)) OSHMPI_am_cb_progress();
    vh_switch(me);
}
void vh_init_one(void) { shmem_init(); }
void vh_init_all(void)
{
    int k;
    for (k = NPE - 1; k >= 0; k--) { vh_switch(k); shmem_init(); }
    vh_switch(0);
}
