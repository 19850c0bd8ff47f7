/* Strided put/get. OPK 0 iput, 1 iget. DESC: descriptor mode (any count and stride, no data). */
#include "common.h"
#include "region.h"
#ifndef OPK
#define OPK 0
#endif
#ifndef NMAX
#define NMAX 3
#endif
#ifndef SMAX
#define SMAX 3
#endif
#define LMAX ((NMAX - 1) * SMAX + 1)
void mm_type_layout(MPI_Datatype dt, int *nblk, long *blkbytes, long *stride);
void harness(void)
{
    start_one(0);
    rg_setup();
    mm_forbid_send = 1;
#ifdef DESC
    int buf[1];
    int pe = (int) VIN_RANGE("pe", 0, NPE - 1);
    size_t n = VIN_RANGE("nelems", 1, (uint64_t) 1 << 40);
    long ts = (long) VIN_RANGE("tstride", 1, (uint64_t) 1 << 40), ss = (long) VIN_RANGE("sstride", 1, (uint64_t) 1 << 40);
#ifdef KF_ONLY
    VASSUME(n > 0x7fffffff || ts > 0x7fffffff || ss > 0x7fffffff);
#else
    VASSUME(n <= 0x7fffffff && ts <= 0x7fffffff && ss <= 0x7fffffff);
#endif
    mm_no_data = 1;
#if OPK == 0
    shmem_int_iput((int *) rg_base, buf, ts, ss, n, pe);
    int kind = MM_PUT; long os = ss, rs = ts;
#else
    shmem_int_iget(buf, (int *) rg_base, ts, ss, n, pe);
    int kind = MM_GET; long os = ts, rs = ss;
#endif
    VASSERT(mm_nlog == 1, "one transfer is issued");
    struct mm_op *l = &mm_log[0];
    VASSERT(l->kind == kind && l->pe == pe && l->disp == 0, "the transfer goes to the addressed place");
    int k; long bb, st;
    mm_type_layout(l->odt, &k, &bb, &st);
    VASSERT((size_t) l->ocnt * k * (bb / 4) == n && (os == 1 ? l->ocnt == 1 || k == 1 : bb == 4 && l->ocnt == 1 && st == os * 4), "local layout has n elements at the given stride");
    mm_type_layout(l->tdt, &k, &bb, &st);
    VASSERT((size_t) l->tcnt * k * (bb / 4) == n && (rs == 1 ? l->tcnt == 1 || k == 1 : bb == 4 && l->tcnt == 1 && st == rs * 4), "remote layout has n elements at the given stride");
    if (n > 100000 && ts == 5 && ss == 5 && pe == 1) VWITNESS("large strided transfer");
#else
    int loc[LMAX + 1], oloc[LMAX + 1], i, j; int v[NMAX];
    int n = (int) VIN_RANGE("nelems", 0, NMAX), pe = (int) VIN_RANGE("pe", 0, NPE - 1);
    long ts = (long) VIN_RANGE("tstride", 1, SMAX), ss = (long) VIN_RANGE("sstride", 1, SMAX);
    long ls = OPK == 0 ? ss : ts, rs = OPK == 0 ? ts : ss;
    size_t off = 4 * VIN_RANGE("offset", 0, rg_len / 4 - 1);
    if (n > 0) VASSUME(off + 4 * ((n - 1) * rs + 1) <= rg_len);
    for (i = 0; i <= LMAX; i++) oloc[i] = loc[i] = (int) VIN("local");
    for (i = 0; i < NMAX; i++) { v[i] = (int) VIN("remote"); if (OPK == 1 && i < n) memcpy(rg_at(pe, off + i * rs * 4), &v[i], 4); }
    int wp = (int) VIN_RANGE("watch_pe", 0, NPE - 1);
    size_t wo = VIN_RANGE("watch_off", 0, rg_len - 1);
    char before = *rg_at(wp, wo);
#if OPK == 0
    if (rg_ctx == SHMEM_CTX_DEFAULT) shmem_int_iput((int *) (rg_base + off), loc, ts, ss, n, pe);
    else shmem_ctx_int_iput(rg_ctx, (int *) (rg_base + off), loc, ts, ss, n, pe);
    VASSERT(!mm_pending_any_local(), "source reusable when the strided put returns");
#else
    if (rg_ctx == SHMEM_CTX_DEFAULT) shmem_int_iget(loc, (int *) (rg_base + off), ts, ss, n, pe);
    else shmem_ctx_int_iget(rg_ctx, loc, (int *) (rg_base + off), ts, ss, n, pe);
    VASSERT(!mm_pending_any_local(), "data present when the strided get returns");
#endif
    char after = *rg_at(wp, wo);
    int exp = -1;
    for (i = 0; i < NMAX; i++) if (i < n && wp == pe && wo >= off + i * rs * 4 && wo < off + i * rs * 4 + 4) exp = i;
#if OPK == 0
    if (exp >= 0) { char *s = (char *) &loc[exp * ls] + (wo - off - exp * rs * 4); VASSERT(after == *s, "strided put delivers element i to position i*stride"); }
    else VASSERT(after == before, "strided put changes no other byte of the region");
    for (i = 0; i <= LMAX; i++) VASSERT(loc[i] == oloc[i], "strided put leaves the source unchanged");
#else
    VASSERT(after == before, "strided get changes no byte of the region");
    for (i = 0; i <= LMAX; i++) {
        int k = -1;
        for (j = 0; j < NMAX; j++) if (j < n && i == j * ls) k = j;
        if (k >= 0) VASSERT(loc[i] == v[k], "strided get fetches element i from position i*stride");
        else VASSERT(loc[i] == oloc[i], "strided get changes no other local element");
    }
#endif
    rg_quiet();
    VASSERT(!mm_pending_any_remote() && !mm_pending_any_local(), "operation complete after quiet");
    if (n == NMAX && pe == 1 && ts == SMAX && ss == SMAX - 1) VWITNESS("full-size strided transfer");
    if (n == NMAX && ts == SMAX && ss == SMAX) VWITNESS("equal strides");
    if (n == 0) VWITNESS("empty transfer");
#endif
}
