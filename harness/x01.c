/* Two threads of one PE. Thread 0 makes a call; at every lock operation, atomic step and allocator entry
 * thread 1 may run a whole call of its own (it cannot where it would have to wait for thread 0).
 * KIND 0: heap; 1: structures shared by calls A and B; 2: contexts; 3: locks balanced after every call. */
#include "common.h"
static int *x, *y, v[8]; static void *hb, *hb2, *sb, *sb2; static shmemx_space_t sp2, sp3; static long *ps; static int tid_in[2];
static void start(void)
{
    int got = -1;
    mm_no_data = 1;
    mm_me = 0;
    vh_setenv(0, "SHMEM_SYMMETRIC_SIZE", vh_heap_env);
    shmem_init_thread(SHMEM_THREAD_MULTIPLE, &got);
    VASSERT(got == SHMEM_THREAD_MULTIPLE, "the multiple level is granted");
    x = (int *) MM_HEAP(0) + 16; y = (int *) MM_DATA(0) + 4; ps = (long *) MM_DATA(0);
    mm_mspace_mode = 0;
}
static void mk(shmemx_space_t *s, int n, int attach)
{
    shmemx_space_config_t c;
    memset(&c, 0, sizeof c);
    c.sheap_size = 192; c.memkind = SHMEMX_MEM_HOST; c.num_contexts = n;
    shmemx_space_create(c, s);
    if (attach) shmemx_space_attach(*s);
}
static void op(int k, int t)
{
    int z = 1;
    switch (k) {
    /* heap */
    case 0: shmem_malloc(8); break;
    case 1: shmem_free(hb); break;
    case 2: shmem_calloc(1, 8); break;
    case 3: shmem_align(32, 8); break;
    case 4: shmem_realloc(hb2, 4); break;
    /* pool of a space */
    case 10: shmemx_space_malloc(vh_space[0], 8); break;
    case 11: shmemx_space_calloc(vh_space[0], 2, 4); break;
    case 12: shmemx_space_align(vh_space[0], 16, 8); break;
    case 13: shmem_free(sb); break;
    /* list of spaces */
    case 20: { shmemx_space_t s; mk(&s, 0, 0); } break;
    case 21: shmemx_space_destroy(sp2); break;
    case 22: shmem_free(sb2); break;
    case 23: shmem_int_p((int *) sb, 3, 1); break;
    case 24: shmem_quiet(); break;
    case 25: shmem_fence(); break;
    /* layouts */
    case 30: shmem_int_iput(x, v, 2, 1, 2, 1); break;
    case 31: shmem_int_iget(v, x, 1, 3, 2, 1); break;
    /* groups */
    case 40: shmem_barrier(0, 0, 1, ps); break;
    case 41: shmem_sync(0, 1, 1, ps); break;
    /* packet dispatch */
    case 50: shmem_sync_all(); break;
    case 51: { static int flag = 1; z = shmem_int_test(y, SHMEM_CMP_EQ, 77); (void) flag; } break;
    /* others, for balance */
    case 60: shmem_int_atomic_add(y, 3, 1); break;
    case 61: v[0] = shmem_int_atomic_fetch_add(y, 3, 0); break;
    case 62: { shmem_team_t tm = SHMEM_TEAM_INVALID; shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, 1, 1, 0, 0, &tm); if (tm != SHMEM_TEAM_INVALID) shmem_team_destroy(tm); } break;
    case 63: shmem_int_put_nbi((int *) sb, v, 2, 1); break;
    case 64: shmemx_space_detach(sp3); shmemx_space_destroy(sp3); break;
    }
    (void) z; (void) t;
}
#if KIND == 0
static void in_ms(void)
{
    VASSERT(!tid_in[0] || mm_thread == 0, "two threads are never inside the allocator at once");
    VASSERT(mm_held[mm_thread] > 0, "the allocator is entered under mutual exclusion");
    if (mm_thread == 0) { tid_in[0] = 1; mm_yield(); tid_in[0] = 0; }
}
#endif
#if KIND == 2
static shmem_ctx_t c1; static int r1 = 99;
static void second(void) { r1 = shmemx_space_create_ctx(vh_space[0], 0, &c1); }
#else
#ifndef B
#define B 0
#endif
static void second(void) { op(B, 1); }
#endif
void harness(void)
{
    int i;
    start();
#if KIND == 0
    hb = shmem_malloc(16); hb2 = shmem_malloc(8);
    mm_mspace_hook = in_ms;
    mm_other_thread = second;
    op(A, 0);
    VWITNESS("call made");
#elif KIND == 1
    mk(&vh_space[0], 1, 1); sb = shmemx_space_malloc(vh_space[0], 8);
    mk(&sp2, 0, 0); sb2 = shmemx_space_malloc(vh_space[0], 8);
    mm_excl = 1;
    if (A >= 50) { mm_no_data = 0; *y = 5; }
    mm_other_thread = second;
    op(A, 0);
    VWITNESS("call made");
    VASSERT(mm_held[0] == 0, "every lock is released when a call returns");
#elif KIND == 2
    shmem_ctx_t c0, c2; int r0, r2;
    mk(&vh_space[0], NCTX, 1);
    mm_other_thread = second;
    r0 = shmemx_space_create_ctx(vh_space[0], 0, &c0);
    mm_other_thread = 0;
    if (!mm_preempts) second();
    VASSERT((r0 == 0) + (r1 == 0) == (NCTX >= 2 ? 2 : NCTX), "as many contexts are handed out as there are");
    if (r0 == 0 && r1 == 0) VASSERT(c0 != c1, "two threads never get the same context");
    r2 = shmemx_space_create_ctx(vh_space[0], 0, &c2);
    VASSERT((r2 == 0) == (NCTX >= 3), "no context is handed out twice");
    if (r2 == 0) VASSERT(c2 != c0 && c2 != c1, "two threads never get the same context");
    VWITNESS("contexts made");
#else
    static const int seq[] = { 30, 31, 40, 41, 50, 51, 60, 61, 62, 63, 20, 23, 10, 11, 12, 13, 24, 25, 0, 2, 3, 4, 64, 21, 24 };
    mk(&vh_space[0], 1, 1); sb = shmemx_space_malloc(vh_space[0], 8);
    mk(&sp2, 0, 0); mk(&sp3, 0, 1); hb = shmem_malloc(16); hb2 = shmem_malloc(8);
    for (i = 0; i < (int) (sizeof seq / sizeof seq[0]); i++) {
        op(seq[i], 0);
        VASSERT(mm_held[0] == 0, "every lock is released when a call returns");
    }
    if (VIN_BOOL("finalize")) shmem_finalize();
    VWITNESS("calls made");
#endif
    (void) i;
}
