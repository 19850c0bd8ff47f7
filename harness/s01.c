/* Test and wait. MODE 0: test; 1: wait while the variable goes through three states; 2: wait for an
 * update that arrives as an active message; 3: the untyped and "changed" waits. */
#include "common.h"
#include "multi.h"
#define TYPES(X) X(short, short) X(int, int) X(long, long) X(long long, longlong) X(unsigned short, ushort) X(unsigned int, uint) X(unsigned long, ulong) \
  X(unsigned long long, ulonglong) X(int32_t, int32) X(int64_t, int64) X(uint32_t, uint32) X(uint64_t, uint64) X(size_t, size) X(ptrdiff_t, ptrdiff)
#define CAT3_(a, b, c) a##b##c
#define CAT3(a, b, c) CAT3_(a, b, c)
static char *var; static int cmp;
#define HOLDS(a, b) (cmp == SHMEM_CMP_EQ ? (a) == (b) : cmp == SHMEM_CMP_NE ? (a) != (b) : cmp == SHMEM_CMP_GT ? (a) > (b) : \
    cmp == SHMEM_CMP_GE ? (a) >= (b) : cmp == SHMEM_CMP_LT ? (a) < (b) : (a) <= (b))
static const int cmps[6] = { SHMEM_CMP_EQ, SHMEM_CMP_NE, SHMEM_CMP_GT, SHMEM_CMP_GE, SHMEM_CMP_LT, SHMEM_CMP_LE };
static int sym_cmp(void) { int i = (int) VIN_RANGE("cmp", 0, 5), k, c = 0; for (k = 0; k < 6; k++) if (i == k) c = cmps[k]; return c; }
static uint64_t state[3]; static int reads;
static void at_read(void) { mm_elem = reads == 0 ? state[0] : reads == 1 ? state[1] : state[2]; reads++; }
#define T_TEST(T, N) { T v = (T) VIN("value"); cmp = sym_cmp(); uint64_t s = VIN("state"); mm_elem = s; T c = (T) s; *(T *) var = c; \
    int r = shmem_##N##_test((T *) var, cmp, v); VASSERT((r != 0) == (HOLDS(c, v)), "test tells whether the comparison holds"); \
    VASSERT(mm_elem == s, "test does not change the variable"); }
#define WAIT(T, call) { T v = (T) VIN("value"); int i; for (i = 0; i < 3; i++) state[i] = VIN("state"); reads = 0; \
    T a0 = (T) state[0], a1 = (T) state[1], a2 = (T) state[2]; if (FIXCMP) cmp = SHMEM_CMP_NE; else cmp = sym_cmp(); VASSUME(HOLDS(a2, v)); \
    call; VASSERT(reads >= 1 && reads <= 3, "wait looks at the variable and returns once the comparison holds"); \
    T last = reads == 1 ? a0 : reads == 2 ? a1 : a2; VASSERT(HOLDS(last, v), "wait returns only in a state in which the comparison holds"); \
    VASSERT(reads < 2 || !(HOLDS(a0, v)), "wait returns at once if the comparison holds"); \
    VASSERT(reads < 3 || !(HOLDS(a1, v)), "wait returns at once when the comparison holds"); }
#define T_WAIT(T, N) WAIT(T, shmem_##N##_wait_until((T *) var, cmp, v))
#ifndef FIXCMP
#define FIXCMP 0
#endif
void harness(void)
{
#if MODE == 2
    T old, v, nv;
    start_all();
    var = (char *) MM_HEAP(0) + 8;
    old = (T) VIN("old"); nv = (T) VIN("new"); v = (T) VIN("value"); cmp = sym_cmp();
    *(T *) var = old;
    vh_switch(1);
    CAT3(shmem_, N, _atomic_set)((T *) ((char *) MM_HEAP(1) + 8), nv, 0);
    vh_switch(0);
    VASSUME((HOLDS(old, v)) || (HOLDS(nv, v)));
    CAT3(shmem_, N, _wait_until)((T *) var, cmp, v);
    T now = *(T *) var;
    VASSERT(HOLDS(now, v), "the comparison holds when wait returns");
    VWITNESS("update arrived");
#else
    start_one(0);
    mm_forbid_send = 1;
#if REGION == 0
    var = (char *) MM_HEAP(0) + 64;
#elif REGION == 1
    var = mm_win[win_of(MM_DATA(0))].base[0] + 8;
#else
    make_space(0, 64, 0);
    var = shmemx_space_malloc(vh_space[0], 16);
#endif
    mm_elem_at = var;
#if MODE == 0
    TYPES(T_TEST)
#elif MODE == 1
    mm_fop_hook = at_read;
    TYPES(T_WAIT)
#elif MODE == 3
    mm_fop_hook = at_read;
    WAIT(short, shmem_short_wait((short *) var, v))
    WAIT(int, shmem_int_wait((int *) var, v))
    WAIT(long, shmem_long_wait((long *) var, v))
    WAIT(long long, shmem_longlong_wait((long long *) var, v))
#endif
    VWITNESS("all types");
#endif
}
