/* Data of collectives: every member of the team or active set runs the call; collectives of the
 * MPI model are resolved by repeating the calls until all contributions are known. */
#include "common.h"
#ifndef OPK
#define OPK 0     /* 0 broadcast 1 collect 2 fcollect 3 alltoall 4 alltoalls 5 reduction */
#endif
#ifndef NMAX
#define NMAX 2
#endif
#ifndef TEAM      /* team collective: 0 world, 1 shared, 2 strided split */
#define ASET      /* active set collective */
#endif
#ifndef CNTS      /* elements of each PE */
#define CNTS 2, 2, 2
#endif
#ifndef DST
#define DST 1
#define SST 1
#endif
#ifndef INPLACE
#define INPLACE 0
#endif
#ifndef SS        /* the set: start, log stride (active set) or stride (split), size */
#define SS 0
#define SL 0
#define SN NPE
#endif
#ifdef ASET
#define STRIDE (1 << SL)
#else
#define STRIDE SL
#endif
#define NPASS (OPK == 1 ? 3 : 2)
#define NS (OPK == 3 ? NPE * NMAX : OPK == 4 ? NPE * NMAX * 2 : NMAX)
#define ND (OPK == 1 || OPK == 2 ? NPE * NMAX : NS)
static int ini_s[NPE][NS], ini_d[NPE][ND];
static size_t cnt[NPE]; static int root; static long dst_st = 1, src_st = 1; static int inplace;
static shmem_team_t team[NPE]; static int cseq[NPE];
static int wpe(int k) { return SS + k * STRIDE; }
static int *srcp(int pe) { return (int *) MM_HEAP(pe); }
static int *dstp(int pe) { return inplace ? srcp(pe) : (int *) MM_HEAP(pe) + NS; }
static void call(int pe)
{
    int *s = srcp(pe), *d = dstp(pe); size_t n = cnt[pe]; int rc = 0;
#ifdef ASET
    static long psync[64]; static int wrk[16];
    switch (OPK) {
    case 0: shmem_broadcast32(d, s, n, root, SS, SL, SN, psync); break;
    case 1: shmem_collect32(d, s, n, SS, SL, SN, psync); break;
    case 2: shmem_fcollect32(d, s, n, SS, SL, SN, psync); break;
    case 3: shmem_alltoall32(d, s, n, SS, SL, SN, psync); break;
    case 4: shmem_alltoalls32(d, s, dst_st, src_st, n, SS, SL, SN, psync); break;
    case 5: shmem_int_sum_to_all(d, s, n, SS, SL, SN, wrk, psync); break;
    }
#else
    shmem_team_t t = team[pe];
    switch (OPK) {
    case 0: rc = shmem_int_broadcast(t, d, s, n, root); break;
    case 1: rc = shmem_int_collect(t, d, s, n); break;
    case 2: rc = shmem_int_fcollect(t, d, s, n); break;
    case 3: rc = shmem_int_alltoall(t, d, s, n); break;
    case 4: rc = shmem_int_alltoalls(t, d, s, dst_st, src_st, n); break;
    case 5: rc = shmem_int_sum_reduce(t, d, s, n); break;
    }
    VASSERT(rc == 0, "team collective reports success");
#endif
}
static void passes(int np, int first, int stride, int n, void (*f)(int))
{
    int p, k;
    for (k = 0; k < NPE; k++) cseq[k] = mm_comm_get_seq(k);
    for (p = 0; p < np; p++) {
        mm_coll_pass = p; mm_coll_final = p == np - 1;
        for (k = 0; k < n; k++) {
            int pe = first + k * stride;
            vh_switch(pe);
            mm_coll_n[pe] = 0;
            f(pe);
            if (f != call && p < np - 1) mm_comm_set_seq(pe, cseq[pe]);
        }
    }
    mm_coll_pass = -1; mm_coll_final = 0;
}
#ifndef ASET
static void split(int pe)
{
    int rc = shmem_team_split_strided(SHMEM_TEAM_WORLD, SS, SL, SN, 0, 0, &team[pe]);
    VASSERT(rc == 0, "team is created");
}
#endif
void harness(void)
{
    int pe, i, k;
    start_all();
#ifndef ASET
    if (TEAM == 2) passes(2, 0, 1, NPE, split);
    else for (pe = 0; pe < NPE; pe++) team[pe] = TEAM ? SHMEM_TEAM_SHARED : SHMEM_TEAM_WORLD;
#endif
    root = (int) VIN_RANGE("root", 0, SN - 1);
    static const size_t cnts[3] = {CNTS};
    size_t n = cnts[0];
    for (pe = 0; pe < NPE; pe++) cnt[pe] = OPK == 1 ? cnts[pe] : n;
    if (OPK == 4) { dst_st = DST; src_st = SST; }
    inplace = INPLACE;
    for (pe = 0; pe < NPE; pe++) {
        for (i = 0; i < NS; i++) srcp(pe)[i] = ini_s[pe][i] = (int) VIN("src");
        for (i = 0; i < ND; i++) (srcp(pe) + NS)[i] = ini_d[pe][i] = (int) VIN("dst");
    }
    passes(NPASS, SS, STRIDE, SN, call);
    /* any one element of any PE's destination */
    int wp = (int) VIN_RANGE("watch_pe", 0, NPE - 1), we = (int) VIN_RANGE("watch_elem", 0, ND - 1), me = -1;
    for (k = 0; k < SN; k++) if (wpe(k) == wp) me = k;
    int exp = inplace ? (we < NS ? ini_s[wp][we] : 0) : ini_d[wp][we], hit = 0;
    if (me >= 0) switch (OPK) {
#ifdef ASET
    case 0: if (me != root && we < (int) n) { exp = ini_s[wpe(root)][we]; hit = 1; } break;
#else
    case 0: if (we < (int) n) { exp = ini_s[wpe(root)][we]; hit = 1; } break;
#endif
    case 1: case 2: {
        int at = 0, j;
        for (k = 0; k < SN; k++) for (j = 0; j < NMAX; j++) if (j < (int) cnt[wpe(k)]) { if (at == we) { exp = ini_s[wpe(k)][j]; hit = 1; } at++; }
        break; }
    case 3: case 4: {
        int j;
        for (k = 0; k < SN; k++) for (j = 0; j < NMAX; j++) if (j < (int) n && we == (k * (int) n + j) * dst_st) { exp = ini_s[wpe(k)][(me * (int) n + j) * src_st]; hit = 1; }
        break; }
    case 5: if (we < (int) n) { unsigned s = 0; for (k = 0; k < SN; k++) s += (unsigned) ini_s[wpe(k)][we]; exp = (int) s; hit = 1; } break;
    }
    if (hit) VASSERT(dstp(wp)[we] == exp, "destination holds the element the specification names");
    else if (!inplace || we < NS) VASSERT(dstp(wp)[we] == exp, "no other element of a destination changes");
    if (!inplace) for (i = 0; i < NS; i++) VASSERT(srcp(wp)[i] == ini_s[wp][i], "sources are unchanged");
#ifndef ZERO
    if (hit && me == SN - 1) VWITNESS("data delivered to the last member");
#endif
    if (me == -1 || SN == NPE) VWITNESS("end");
}
