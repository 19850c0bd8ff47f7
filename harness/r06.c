/* Address translation and accessibility.
 * KIND 0: accessibility of any address, any PE number. KIND 1: every byte of a region translates to the same
 * offset of the target's copy. KIND 2: dynamic window, the other PEs' regions lie anywhere. */
#include "common.h"
static char *sb, *ub; static char priv[64];
#define MM_WIN0 0x21000000
#if KIND == 2
static MPI_Aint delta[4]; static MPI_Aint at[4]; static int nd;
static void peer(int k, void *slot, long nb)
{
    MPI_Aint *s = slot;
    if (nb != sizeof(MPI_Aint)) return;
    if (nd < 4) { at[nd] = s[mm_me - k]; delta[nd] = (MPI_Aint) (VIN("distance") & 0xfffffffff0ull) - (MPI_Aint) 0x8000000000ll; *s = at[nd] + delta[nd]; nd++; }
}
#endif
/* bytes exposed to remote access at b, on this PE, and through which window */
static int wnd; static size_t exposed(const char *b)
{
    size_t len = 0; int i, k;
    for (i = 0; i < MM_NWIN; i++) if (len == 0 && mm_win[i].used) {
        if (mm_win[i].kind != 3) { if (mm_win[i].base[ME] == b) { len = (size_t) mm_win[i].size[ME]; wnd = i; } }
        else for (k = 0; k < 4; k++) if (k < mm_win[i].nattach && mm_win[i].abase[k] == b) { len = (size_t) mm_win[i].asize[k]; wnd = i; }
    }
    VASSERT(len > 0, "the object is exposed to remote access");
    return len;
}
static void query(const char *b, size_t off, int in)
{
    int pe = (int) VIN_RANGE("pe+2", 0, NPE + 3) - 2;
    int want = in && pe >= 0 && pe < NPE;
    VASSERT((shmem_addr_accessible(b + off, pe) != 0) == want, "an address is accessible exactly if it lies in a symmetric object and the PE exists");
}
void harness(void)
{
    size_t off; int w, i;
#if KIND == 2
    mm_allgather_peer = peer;
#endif
    start_one(ME);
    mm_no_data = 1;
    make_space(0, 64, 0); sb = shmemx_space_malloc(vh_space[0], 64);
    { shmemx_space_config_t c; memset(&c, 0, sizeof c); c.sheap_size = 64; c.memkind = SHMEMX_MEM_HOST; c.num_contexts = 0;
      shmemx_space_create(c, &vh_space[1]); ub = shmemx_space_malloc(vh_space[1], 64); }
#if KIND == 0
    switch ((int) VIN_RANGE("object", 0, 5)) {
    case 0: off = VIN_RANGE("offset", 0, MM_HEAPSZ - 1); query(MM_HEAP(ME), off, off < exposed(MM_HEAP(ME))); break;
    case 1: off = VIN_RANGE("offset", 0, MM_DATASZ - 1); query(MM_DATA(ME), off, off < exposed(MM_DATA(ME))); break;
    case 2: off = VIN_RANGE("offset", 0, 63); query(sb, off, 1); break;
    case 3: off = VIN_RANGE("offset", 0, 63); query(ub, off, 0); break;
    case 4: off = VIN_RANGE("offset", 0, 63); query(priv, off, 0); query(0, 0, 0); break;
    case 5: shmem_free(sb); shmemx_space_detach(vh_space[0]); off = VIN_RANGE("offset", 0, 63); query(sb, off, 0); query(MM_DATA(ME), off, 1); break;
    }
    VWITNESS("asked");
#else
    {
        char v[8] = "1234567"; char *b, got[8]; size_t len, n; int j, pe = (int) VIN_RANGE("pe", 0, NPE - 1), call = (int) VIN_RANGE("call", 0, 3), r = REGION; MPI_Aint want;
        b = r == 0 ? MM_HEAP(ME) : r == 1 ? MM_DATA(ME) : sb;
        len = exposed(b); w = wnd;
        if (r == 2) VASSERT(len >= 64, "the whole space is exposed"); 
        n = call == 0 || call == 1 ? 1 : 8;
        off = VIN("offset"); VASSUME(off <= len - n);
        mm_nlog = 0;
        switch (call) {
        case 0: shmem_putmem(b + off, v, 1, pe); break;
        case 1: shmem_getmem(got, b + off, 1, pe); break;
        case 2: shmem_put64(b + off, v, 1, pe); break;
        case 3: shmem_get64(got, b + off, 1, pe); break;
        }
        VASSERT(mm_nlog == 1, "one transfer");
        VASSERT(mm_log[0].pe == pe && mm_log[0].win - MM_WIN0 == w, "right PE and window");
#if KIND == 1
        want = (MPI_Aint) off;
#else
        want = (MPI_Aint) (b + off);
        if (pe != ME) { j = 0; for (i = 0; i < nd; i++) if (at[i] == (MPI_Aint) b) { want += delta[i]; j++; } VASSERT(j == 1, "one exchange of addresses per object"); }
#endif
        VASSERT(mm_log[0].disp == want, "the same offset of the target's copy");
        VWITNESS("translated");
    }
#endif
}
