/* RMA through active messages, end to end: requester, target handlers and replies all run. */
#include "common.h"
#include "multi.h"
#ifndef OPK
#define OPK 0       /* 0 put 1 put_nbi 2 get 3 get_nbi 4 iput 5 iget */
#endif
#ifndef NMAX
#define NMAX 2
#endif
#define SMAX (OPK >= 4 ? 3 : 1)
#define LMAX ((NMAX - 1) * (OPK >= 4 ? 3 : 1) + 1)
#define ISPUT (OPK < 2 || OPK == 4)
void harness(void)
{
    int i, j, loc[LMAX + 1], oloc[LMAX + 1], v[NMAX];
    vh_setenv(1, "OSHMPI_RMA_DBG_MODE", vh_dbg_am);
    start_all();
    mp_setup();
    mm_run_peers = 1;
    int n = NMAX, pe = (int) VIN_RANGE("pe", 0, NPE - 1);
#ifdef PEFIX
    VASSUME(pe == PEFIX); pe = PEFIX;
#endif
    long ts = 1, ss = 1;
    if (OPK >= 4) { ts = (long) VIN_RANGE("tstride", 1, SMAX); ss = (long) VIN_RANGE("sstride", 1, SMAX); }
    long ls = OPK == 5 ? ts : ss, rs = OPK == 5 ? ss : ts;
    size_t off = 4 * VIN_RANGE("offset", 0, mp_len / 4 - 1);
    if (n > 0) VASSUME(off + 4 * ((n - 1) * rs + 1) <= mp_len);
    for (i = 0; i <= LMAX; i++) oloc[i] = loc[i] = (int) VIN("local");
    for (i = 0; i < NMAX; i++) { v[i] = (int) VIN("remote"); if (!ISPUT && i < n) memcpy(mp_base[pe] + off + i * rs * 4, &v[i], 4); }
    int wp = (int) VIN_RANGE("watch_pe", 0, NPE - 1);
    size_t wo = VIN_RANGE("watch_off", 0, mp_len - 1);
    char before = mp_base[wp][wo];
    int *sym = (int *) (mp_base[0] + off);
    switch (OPK) {
    case 0: shmem_int_put(sym, loc, n, pe); break;
    case 1: shmem_int_put_nbi(sym, loc, n, pe); break;
    case 2: shmem_int_get(loc, sym, n, pe); break;
    case 3: shmem_int_get_nbi(loc, sym, n, pe); break;
    case 4: shmem_int_iput(sym, loc, ts, ss, n, pe); break;
    case 5: shmem_int_iget(loc, sym, ts, ss, n, pe); break;
    }
    /* blocking calls are complete locally; the source of a blocking put may be reused at once */
    int src[LMAX + 1];
    for (i = 0; i <= LMAX; i++) src[i] = loc[i];
#if OPK == 0 || OPK == 4
    for (i = 0; i <= LMAX; i++) loc[i] = ~loc[i];
#endif
#if OPK == 2 || OPK == 5
    for (i = 0; i <= LMAX; i++) {
        int k = -1;
        for (j = 0; j < NMAX; j++) if (j < n && i == j * ls) k = j;
        if (k >= 0) VASSERT(loc[i] == v[k], "get has fetched element i when it returns");
    }
#endif
    shmem_quiet();
    char after = mp_base[wp][wo];
    int exp = -1;
    for (i = 0; i < NMAX; i++) if (i < n && wp == pe && wo >= off + i * rs * 4 && wo < off + i * rs * 4 + 4) exp = i;
    if (ISPUT) {
        if (exp >= 0) { char *s = (char *) &src[exp * ls] + (wo - off - exp * rs * 4); VASSERT(after == *s, "put has delivered element i to its place after quiet"); }
        else VASSERT(after == before, "put changes no other byte of the region");
        for (i = 0; i <= LMAX; i++) VASSERT(src[i] == oloc[i], "put leaves the source unchanged");
    } else {
        VASSERT(after == before, "get changes no byte of the region");
        for (i = 0; i <= LMAX; i++) {
            int k = -1;
            for (j = 0; j < NMAX; j++) if (j < n && i == j * ls) k = j;
            VASSERT(loc[i] == (k >= 0 ? v[k] : oloc[i]), "get fetches the addressed elements and nothing else");
        }
    }
    for (i = 0; i < NPE; i++) VASSERT(!mm_msgs_to(i), "no request is left unserved after quiet");
#ifndef PEFIX
    if (n == NMAX && pe == 0 && wp == 0) VWITNESS("full-size transfer to self");
#endif
#if !defined PEFIX || PEFIX != 0
    if (n == NMAX && pe == 1 && wp == 1 && ts == SMAX && ss == SMAX) VWITNESS("full-size transfer to another PE");
#else
    if (wp == 0) VWITNESS("transfer to self");
#endif
}
