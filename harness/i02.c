/* Finalize. KIND 0: any subset of library uses, then finalize: every MPI object is released, once.
 * KIND 1: unfinished operations, then finalize without a completing call: they arrive. */
#include "common.h"
#if KIND == 0
#ifdef KF_ONLY
#define USE(n) 0
#else
#define USE(n) VIN_BOOL(n)
#endif
static int nbar;
static void hook(int kind, MPI_Comm c) { if (kind == MMC_BARRIER) nbar++; }
void harness(void)
{
    int v[4] = { 1, 2, 3, 4 }, r = 0, mode = MODE;
    int *x, *y; long *ps;
    mm_no_data = 1;
    if (mode) vh_setenv(1, "OSHMPI_AMO_DBG_MODE", vh_dbg_direct);
    start_one(0);
    x = (int *) MM_HEAP(0) + 16; y = (int *) MM_DATA(0) + 4; ps = (long *) MM_DATA(0);
    if (USE("strided")) {
        int st = (int) VIN_RANGE("stride", 1, 3);
        shmem_int_iput(x, v, st, 1, 2, 1);
        if (VIN_BOOL("again")) shmem_int_iput(x, v, st, 1, 2, 1);
        if (VIN_BOOL("other layout")) shmem_double_iget((double *) v, (double *) x, 1, st, 2, 1);
    }
    if (USE("active set")) { shmem_barrier(0, 0, 1, ps); if (VIN_BOOL("second active set")) shmem_barrier(1 - 1, 0, NPE, ps); }
    if (VIN_BOOL("team")) {
        shmem_team_t t = SHMEM_TEAM_INVALID;
        shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, 1, (int) VIN_RANGE("members", 1, NPE), 0, 0, &t);
        if (t != SHMEM_TEAM_INVALID) {
            if (VIN_BOOL("team sync")) shmem_team_sync(t);
#ifndef KF_ONLY
            shmem_team_destroy(t);
#endif
        }
    }
#ifdef SPACE
    if (USE("space")) {
        void *p;
        make_space(0, 64, 1);
        p = shmemx_space_malloc(vh_space[0], 32);
        if (VIN_BOOL("put into space")) shmem_int_put_nbi(p, v, 1, 1);
        shmem_free(p);
        shmemx_space_detach(vh_space[0]);
        shmemx_space_destroy(vh_space[0]);
    }
#endif
    if (USE("put")) shmem_int_put_nbi(x, v, 2, 1);
    if (USE("atomic")) shmem_int_atomic_add(y, 3, 1);
    if (USE("set")) shmem_int_atomic_set(x, 3, 1);
    if (USE("get")) shmem_int_get_nbi(v, x, 1, 1);
    mm_coll_hook = hook; nbar = 0;
    shmem_finalize();
    VASSERT(mm_n_finalize == 1, "MPI is finalized");
    VASSERT(nbar >= 1, "all PEs have entered finalize");
    VASSERT(mm_live_win == 0, "no window is left");
    VASSERT(mm_live_comm == 0, "no communicator is left");
    VASSERT(mm_live_group == 0, "no group is left");
    VASSERT(mm_live_type == 0, "no datatype is left");
    VASSERT(mm_live_info == 0, "no info object is left");
    VASSERT(mm_live_req == 0, "no request is left");
    if (VIN_BOOL("finalize again")) { shmem_finalize(); VASSERT(mm_n_finalize == 1, "a second finalize does nothing"); }
    VWITNESS("finalized");
    (void) r; (void) y; (void) mode;
}
#else
void harness(void)
{
    int i, src[4]; unsigned mem[4]; int *x, *y;
    vh_setenv(1, "OSHMPI_RMA_DBG_MODE", vh_dbg_am);
    start_all();
    mm_run_peers = 1;
#if REG == 0
    x = (int *) MM_HEAP(0) + 16; y = (int *) MM_HEAP(1) + 16;
#else
    x = (int *) MM_DATA(0) + 4; y = (int *) MM_DATA(1) + 4;
#endif
    for (i = 0; i < 4; i++) { mem[i] = (unsigned) VIN("old"); y[i] = (int) mem[i]; src[i] = (int) VIN("value"); }
    switch (OP) {
    case 0: shmem_int_atomic_add(x, src[0], 1); mem[0] += (unsigned) src[0]; shmem_int_atomic_add(x, src[1], 1); mem[0] += (unsigned) src[1]; break;
    case 1: shmem_int_put_nbi(x, src, 2, 1); mem[0] = (unsigned) src[0]; mem[1] = (unsigned) src[1]; break;
    case 2: shmem_int_iput(x, src, 3, 2, 2, 1); mem[0] = (unsigned) src[0]; mem[3] = (unsigned) src[2]; break;
    case 3: shmem_int_put(x, src, 1, 1); mem[0] = (unsigned) src[0]; shmem_int32_atomic_xor((int32_t *) x, src[1], 1); mem[0] ^= (unsigned) src[1]; break;
    case 4: shmem_int_atomic_set(x, src[0], 1); mem[0] = (unsigned) src[0]; shmem_int_p(x + 1, src[1], 1); mem[1] = (unsigned) src[1]; break;
    }
    shmem_finalize();
    for (i = 0; i < 4; i++) VASSERT((unsigned) y[i] == mem[i], "the operations issued before finalize took effect at the target");
    VWITNESS("finalized");
}
#endif
