/* Active-message replies. KIND 0: tags of requests and their replies after a history of any length;
 * KIND 1: requests of several kinds in a row, applied in order and completed by one flush. */
#include "common.h"
#include "multi.h"
#if KIND == 0
static int ptag_of(const struct mm_slog *l)
{
    const OSHMPI_am_pkt_t *p = (const OSHMPI_am_pkt_t *) l->pkt;
    switch (p->type) {
    case OSHMPI_AM_PKT_CSWAP: return p->cswap.ptag;
    case OSHMPI_AM_PKT_FETCH: return p->fetch.ptag;
    case OSHMPI_AM_PKT_PUT: return p->put.ptag;
    case OSHMPI_AM_PKT_GET: return p->get.ptag;
    case OSHMPI_AM_PKT_IPUT: return p->iput.ptag;
    case OSHMPI_AM_PKT_IGET: return p->iget.ptag;
    case OSHMPI_AM_PKT_FLUSH: return p->flush.ptag;
    default: return -1;
    }
}
static int ntag, tags[8];
static void check(int type)
{
    int k;
    VASSERT(mm_nslog == 2, "a request and its reply or data");
    int t = mm_slog[1].tag, dup = 0;
    VASSERT(!mm_slog[0].recv && mm_slog[0].peer == 1 && mm_slog[1].peer == 1, "request to and answer from the target PE");
    VASSERT(((const OSHMPI_am_pkt_t *) mm_slog[0].pkt)->type == (unsigned) type, "request of the operation's kind");
    VASSERT(ptag_of(&mm_slog[0]) == t, "the answer is awaited under the tag the request carries");
    VASSERT(t >= 0 && t <= mm_tag_ub, "the tag is in MPI's legal range");
    VASSERT(mm_slog[0].tag != t || mm_slog[0].comm != mm_slog[1].comm, "answers and data are not mistaken for requests");
    for (k = 0; k < ntag; k++) if (tags[k] == t) dup = 1;
    VASSERT(!dup, "operations in flight have different tags");
    tags[ntag++] = t;
    mm_nslog = 0;
}
void harness(void)
{
    int *x, v[4], k;
    vh_setenv(1, "OSHMPI_RMA_DBG_MODE", vh_dbg_am);
    mm_tag_ub = (int) VIN_RANGE("tag_ub", 32767, 0x7fffffff);
    start_one(0);
    mm_no_data = 1; mm_nslog = 0;
    k = (int) VIN("operations performed before");
    OSHMPIU_ATOMIC_CNT_STORE(OSHMPI_am.pkt_ptag_off, k);
    x = (int *) MM_HEAP(0) + 32;
#if PART == 0
    shmem_int_put(x, v, 1, 1); check(OSHMPI_AM_PKT_PUT);
    mm_op_tag = 1; shmem_quiet(); check(OSHMPI_AM_PKT_FLUSH);
    v[0] = shmem_int_atomic_fetch(x, 1); check(OSHMPI_AM_PKT_FETCH);
    v[0] = shmem_int_atomic_compare_swap(x, 1, 2, 1); check(OSHMPI_AM_PKT_CSWAP);
#else
    shmem_int_get(v, x, 1, 1); check(OSHMPI_AM_PKT_GET);
    shmem_int_iget(v, x, 2, 2, 2, 1); check(OSHMPI_AM_PKT_IGET);
    shmem_int_iput(x, v, 2, 2, 2, 1); check(OSHMPI_AM_PKT_IPUT);
    v[0] = shmem_int_atomic_fetch_add(x, 1, 1); check(OSHMPI_AM_PKT_FETCH);
#endif
    if (k < 0) VWITNESS("after a wrapped history");
    if (k > 0x7ffffff0 && mm_tag_ub == 0x7fffffff) VWITNESS("near the end of the tag space");
    VWITNESS("all requests answered");
}
#elif KIND == 2
/* both PEs talk to each other at once: PE 1's request and data are under way to PE 0 when PE 0 asks PE 1 */
void harness(void)
{
    int *x, l[4], m[4], r[4], i; unsigned a = (unsigned) VIN("value"), b = (unsigned) VIN("remote"), c = (unsigned) VIN("local");
    vh_setenv(1, "OSHMPI_RMA_DBG_MODE", vh_dbg_am);
    start_all();
    mm_run_peers = 1;
    x = (int *) MM_HEAP(0) + 16;
    int *mine = (int *) MM_HEAP(0) + 16, *theirs = (int *) MM_HEAP(1) + 16;
    for (i = 0; i < 4; i++) { mine[i] = (int) c; theirs[i] = (int) b; l[i] = (int) a; m[i] = r[i] = 0; }
    vh_switch(1);
    if (K0 == 0) shmem_int_put((int *) MM_HEAP(1) + 16, l, 1, 0);
    else shmem_int_iput((int *) MM_HEAP(1) + 16, l, 2, 2, 2, 0);
    vh_switch(0);
    switch (K1) {
    case 0: shmem_int_get(r, x, 1, 1); break;
    case 1: r[0] = shmem_int_atomic_fetch_add(x, 1, 1); break;
    case 2: r[0] = shmem_int_atomic_compare_swap(x, (int) b, (int) b + 1, 1); break;
    case 3: shmem_int_iget(r, x, 2, 2, 2, 1); VASSERT((unsigned) r[2] == b && r[1] == 0, "the answer is the one to this request"); break;
    }
    VASSERT((unsigned) r[0] == b, "the answer is the one to this request");
    VASSERT((unsigned) theirs[0] == (K1 == 1 || K1 == 2 ? b + 1 : b), "the request is applied once");
    vh_switch(1);
    shmem_quiet();
    vh_switch(0);
    VASSERT((unsigned) mine[0] == a && (unsigned) mine[1] == c && (unsigned) mine[2] == (K0 ? a : c), "the other PE's update arrives");
    VASSERT(!mm_msgs_to(0) && !mm_msgs_to(1), "no request or reply is left over");
    VWITNESS("both directions served");
}
#else
/* 0 set, 1 put, 2 strided put (2 elements), 3 fetch-add, 4 get, 5 nbi put */
static int loc[6][4], got; static unsigned mem[4]; static int *x;
static void step(int i, int kind)
{
    int a = (int) VIN("value"), b = (int) VIN("value");
    loc[i][0] = a; loc[i][1] = 0x5a5a5a5a; loc[i][2] = b;
    switch (kind) {
    case 0: shmem_int_atomic_set(x, a, 1); mem[0] = (unsigned) a; break;
    case 1: shmem_int_put(x, loc[i], 1, 1); mem[0] = (unsigned) a; break;
    case 2: shmem_int_iput(x, loc[i], 3, 2, 2, 1); mem[0] = (unsigned) a; mem[3] = (unsigned) b; break;
    case 3: got = shmem_int_atomic_fetch_add(x, a, 1); VASSERT((unsigned) got == mem[0], "a fetching operation sees all earlier requests of the same PE applied"); mem[0] += (unsigned) a; break;
    case 4: shmem_int_get(&loc[i][0], x, 1, 1); VASSERT((unsigned) loc[i][0] == mem[0], "a get sees all earlier requests of the same PE applied"); break;
    case 5: shmem_int_put_nbi(x, loc[i], 1, 1); mem[0] = (unsigned) a; break;
    case 6: shmem_int_atomic_add(x, a, 1); mem[0] += (unsigned) a; break;
    }
}
void harness(void)
{
    int i; int *y = (int *) MM_HEAP(1) + 16;
    vh_setenv(1, "OSHMPI_RMA_DBG_MODE", vh_dbg_am);
    start_all();
    mm_run_peers = 1;
    x = (int *) MM_HEAP(0) + 16;
    for (i = 0; i < 4; i++) { mem[i] = (unsigned) VIN("old"); y[i] = (int) mem[i]; }
    step(0, K0); step(1, K1);
#ifdef K2
    step(2, K2);
#endif
    shmem_quiet();
    for (i = 0; i < 4; i++) VASSERT((unsigned) y[i] == mem[i], "the flush reply implies that all earlier requests are applied, in order");
    VASSERT(!mm_msgs_to(0) && !mm_msgs_to(1), "no request or reply is left over");
    VWITNESS("all requests applied");
}
#endif
