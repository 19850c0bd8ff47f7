/* Completion: a history of operations, then a completing call; nothing it covers may still be
 * outstanding. Transfers are not carried out (descriptor mode); MPI completion state is. */
#include "common.h"
#ifndef FIN
#define FIN 0       /* 0 quiet 1 fence 2 ctx quiet 3 ctx fence 4 barrier_all 5 barrier */
#endif
#ifndef K
#define K 2
#endif
#ifndef NOPS
#define NOPS 14
#endif
#ifndef RGS
#define RGS 4       /* heap, data, first space, second space, [explicit contexts of the spaces] */
#endif
#define TAG_DEF 1
#define TAG_CTX 2
#define TAG_CTX2 4
static int src[4] = {1, 2, 3, 4}, dst[4]; static char *base[4];
static void issue(void)
{
    int opk = (int) VIN_RANGE("op", 0, NOPS - 1), rg = (int) VIN_RANGE("region", 0, RGS - 1), pe = (int) VIN_RANGE("pe", 0, NPE - 1);
    int off = 4 * (int) VIN_RANGE("offset", 0, 2);
    shmem_ctx_t ctx = SHMEM_CTX_DEFAULT; int *d;
    mm_op_tag = TAG_DEF;
    if (rg == 0) d = (int *) (base[0] + off); else if (rg == 1) d = (int *) (base[1] + off); else if (rg == 2) d = (int *) (base[2] + off);
    else if (rg == 3) d = (int *) (base[3] + off);
    else if (rg == 4) { d = (int *) (base[2] + off); ctx = vh_ctx[0]; mm_op_tag = TAG_CTX; }
    else { d = (int *) (base[3] + off); ctx = vh_ctx[1]; mm_op_tag = TAG_CTX2; }
    switch (opk) {
    case 0: shmem_ctx_int_put(ctx, d, src, 1, pe); break;
    case 1: shmem_ctx_int_put_nbi(ctx, d, src, 1, pe); break;
    case 2: shmem_ctx_int_iput(ctx, d, src, 2, 1, 2, pe); break;
    case 3: shmem_ctx_int_p(ctx, d, 5, pe); break;
    case 4: shmem_ctx_int_get_nbi(ctx, dst, d, 1, pe); break;
    case 5: shmem_ctx_int_atomic_add(ctx, d, 5, pe); break;
    case 6: shmem_ctx_int_atomic_fetch_add(ctx, d, 5, pe); break;
    case 7: shmem_ctx_int_atomic_set(ctx, d, 5, pe); break;
    case 8: shmem_ctx_int_atomic_compare_swap(ctx, d, 5, 6, pe); break;
    case 9: shmem_ctx_int_atomic_inc(ctx, d, pe); break;
    case 10: shmem_ctx_int_atomic_swap(ctx, d, 5, pe); break;
    case 11: shmem_ctx_int_atomic_fetch(ctx, d, pe); break;
    case 12: shmem_ctx_int_iget(ctx, dst, d, 1, 2, 2, pe); break;
    case 13: shmem_ctx_int_get(ctx, dst, d, 1, pe); break;
    }
    mm_op_tag = 0;
}
static void check(int tag, int gets)
{
    int i, k;
    for (k = 0; k < NPE; k++) VASSERT(!(vh_am_out[k] & tag), "update sent by active message is complete");
    for (i = 0; i < MM_NWIN; i++) for (k = 0; k < NPE; k++) if (mm_win[i].used) {
        VASSERT(!(mm_win[i].pend_r[k] & tag), "update is complete at its target");
        if (gets) VASSERT(!(mm_win[i].pend_l[k] & tag), "nonblocking operation is complete locally");
    }
}
static int nbar, nset = NPE;
static void hook(int kind, MPI_Comm comm)
{
    if (kind != MMC_BARRIER) return;
    if (!nbar++) check(TAG_DEF, 1);
    VASSERT(mm_comm_size(comm) == nset, "barrier among the PEs of the set");
}
#if FIN == 6
static void at_release(void)
{
    mm_atomic_hook = 0;
    check(TAG_DEF, 1);
    VWITNESS("the lock is released");
    VSTOP();
}
#endif
void harness(void)
{
    int i, q0, live;
#ifdef ENV_AMO
    static char amo[] = ENV_AMO; vh_setenv(1, "OSHMPI_AMO_DBG_MODE", amo);
#endif
#ifdef ENV_RMA
    static char rma[] = ENV_RMA; vh_setenv(2, "OSHMPI_RMA_DBG_MODE", rma);
#endif
    start_one(0);
    base[0] = (char *) MM_HEAP(0); base[1] = (char *) MM_DATA(0);
#if RGS > 2
    make_space(0, 64, 1); make_space(1, 64, RGS > 5);
    for (i = 0; i < 2; i++) base[2 + i] = shmemx_space_malloc(vh_space[i], 64);
    { int rc = shmemx_space_create_ctx(vh_space[0], 0, &vh_ctx[0]); VASSERT(rc == 0, "space context available"); }
#if RGS > 5
    { int rc = shmemx_space_create_ctx(vh_space[1], 0, &vh_ctx[1]); VASSERT(rc == 0, "space context available"); }
#endif
#endif
#ifdef UNATT
    { shmemx_space_config_t c; memset(&c, 0, sizeof c); c.sheap_size = 64; c.memkind = SHMEMX_MEM_HOST; c.num_contexts = UNATT - 1;
      shmemx_space_t s; shmemx_space_create(c, &s);
      if (VIN_BOOL("detached")) { shmemx_space_attach(s);
#ifdef UNATT_OP
          void *p = shmemx_space_malloc(s, 64); shmem_int_put_nbi(p, src, 1, 1);
#endif
          shmemx_space_detach(s); } }
#endif
    mm_no_data = 1; mm_nolog = 1;
#if FIN == 4 || FIN == 5
    mm_coll_hook = hook;
#endif
    live = mm_live_req;
    for (i = 0; i < K; i++) {
        issue();
#ifdef MIDQ
        if (i < K - 1) { q0 = (int) VIN_RANGE("mid", 0, 3); if (q0 == 1) shmem_quiet(); else if (q0 == 2) shmem_ctx_quiet(vh_ctx[0]); else if (q0 == 3) shmem_fence(); }
#endif
    }
#if FIN == 0
    shmem_quiet(); check(TAG_DEF, 1);
#elif FIN == 1
    shmem_fence(); check(TAG_DEF, 0);
#elif FIN == 2
    shmem_ctx_quiet(vh_ctx[0]); check(TAG_CTX, 1);
#elif FIN == 3
    shmem_ctx_fence(vh_ctx[0]); check(TAG_CTX, 0);
#elif FIN == 4
    shmem_barrier_all(); VASSERT(nbar == 1, "one barrier is entered");
#elif FIN == 5
    { static long psync[SHMEM_BARRIER_SYNC_SIZE]; nset = (int) VIN_RANGE("set_size", 1, NPE); shmem_barrier(0, 0, nset, psync); VASSERT(nbar == 1, "one barrier is entered"); }
#elif FIN == 6
    mm_atomic_hook = at_release;
    shmem_clear_lock((long *) (base[0] + 16)); VASSERT(0, "clearing a lock releases it at the PE that keeps it");
#endif
    VASSERT(mm_live_req == live, "no request is left behind");
#if FIN != 6
#ifndef NOAM
    if (vh_am_pairs) VWITNESS("reply awaited");
#endif
    VWITNESS("end of the history");
#endif
}
