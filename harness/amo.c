/* Atomic operations of one type, end to end. MODE 0: active messages (sent to and served by PE TGT);
 * MODE 1: MPI atomics on any PE. */
#include "common.h"
#include "multi.h"
#ifndef T
#define T int
#define N int
#endif
#ifndef CL       /* 2 extended only, 1 extended + standard, 0 all, 3 bitwise only; FP: floating */
#define CL 1
#endif
#ifndef MODE
#define MODE 0
#endif
#ifndef CTX
#define CTX 0
#endif
#ifndef TGT
#define TGT 0
#endif
#ifdef FP
#define EQ(a, b) (memcmp(&(a), &(b), sizeof(T)) == 0)
#else
#define EQ(a, b) ((a) == (b))
#endif
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
#define OP(o) CAT(shmem_, N, _##o)
#define COP(o) CAT(shmem_ctx_, N, _##o)
static shmem_ctx_t ctx = SHMEM_CTX_DEFAULT;
static char *base[NPE]; static int pe; static T *dst;
static T old, val, cnd; static unsigned char red[NPE][24]; 
static T sym(const char *n)
{
    T v;
#ifdef FP
    uint64_t u = VIN("fp"); memcpy(&v, &u, sizeof v); VASSUME(v == v);
#else
    (void) n; v = (T) VIN("value");
#endif
    return v;
}
static void begin(void)
{
    val = sym("value"); cnd = sym("cond"); old = sym("old");
#if MODE == 0
    *(T *) (base[pe] + 8) = old;
#else
    mm_elem_at = base[pe] + 8; mm_elem = 0; *(T *) &mm_elem = old;
#endif
}
static void end(int fetching, const T *got, T exp)
{
    T now = exp; int p;
    shmem_quiet();
    for (p = 0; p < NPE; p++) VASSERT(!mm_msgs_to(p), "no request is left unserved after quiet");
    mm_nmsg = 0;
#if MODE == 0
    now = *(T *) (base[pe] + 8);
#else
    now = *(T *) &mm_elem;
#endif
    VASSERT(EQ(now, exp), "the target holds the documented result");
    if (fetching) VASSERT(EQ(*got, old), "a fetching atomic returns the old value");
    int i, same = 1;
    for (p = 0; p < NPE; p++) for (i = 0; i < 24; i++)
        if (p != pe || i < 8 || i >= 8 + (int) sizeof(T)) if (base[p][i] != (char) red[p][i]) same = 0;
    VASSERT(same, "no other byte changes");
}
#define F1(f, call, exp) { T g; begin(); g = call; end(1, &g, (T) (exp)); }
#define FN(f, call, exp) { T g = (T) 0; begin(); call; end(1, &g, (T) (exp)); }
#define P1(call, exp) { begin(); call; end(0, 0, (T) (exp)); }
#define U (uint64_t)
#ifndef GRP      /* 1 plain, 2 context, 3 nonblocking, 4 deprecated names */
#define GRP 1
#endif
#if GRP == 1 || GRP == 0
#define G1(x) x
#else
#define G1(x)
#endif
#if GRP == 2 || GRP == 0
#define G2(x) x
#else
#define G2(x)
#endif
#if GRP == 3 || GRP == 0
#define G3(x) x
#else
#define G3(x)
#endif
#if GRP == 4 || GRP == 0
#define G4(x) x
#else
#define G4(x)
#endif
void harness(void)
{
    int p;
#if MODE == 0
    start_all();
    mm_run_peers = 1;
    pe = TGT;
#else
    vh_setenv(1, "OSHMPI_AMO_DBG_MODE", vh_dbg_direct);
    start_one(0);
    mm_forbid_send = 1;
    pe = TGT;
#endif
#if CTX
    mp_make_space(0, 64, 1);
    for (p = 0; p < NPE; p++) base[p] = mp_space_base[p][0];
    ctx = mp_ctx[0][0];
#elif defined DATA
    for (p = 0; p < NPE; p++) base[p] = MODE ? mm_win[win_of(MM_DATA(0))].base[p] : (char *) MM_DATA(p);
#else
    for (p = 0; p < NPE; p++) base[p] = (char *) MM_HEAP(p);
#endif
    dst = (T *) (base[0] + 8);
    { int i; for (p = 0; p < NPE; p++) for (i = 0; i < 24; i++) base[p][i] = (char) (red[p][i] = (unsigned char) (37 * i + p)); }
#if CL < 3
    G1(F1(1, OP(atomic_fetch)(dst, pe), old))
    G1(F1(1, OP(atomic_swap)(dst, val, pe), val))
    G1(P1(OP(atomic_set)(dst, val, pe), val))
    G2(F1(1, COP(atomic_fetch)(ctx, dst, pe), old))
    G2(F1(1, COP(atomic_swap)(ctx, dst, val, pe), val))
    G2(P1(COP(atomic_set)(ctx, dst, val, pe), val))
    G3(FN(1, OP(atomic_fetch_nbi)(&g, dst, pe), old))
    G3(FN(1, OP(atomic_swap_nbi)(&g, dst, val, pe), val))
    G3(FN(1, COP(atomic_fetch_nbi)(ctx, &g, dst, pe), old))
    G3(FN(1, COP(atomic_swap_nbi)(ctx, &g, dst, val, pe), val))
    G4(F1(1, OP(fetch)(dst, pe), old))
    G4(F1(1, OP(swap)(dst, val, pe), val))
    G4(P1(OP(set)(dst, val, pe), val))
#endif
#if CL == 1 || CL == 0 || CL == 4
    G1(F1(1, OP(atomic_compare_swap)(dst, cnd, val, pe), old == cnd ? val : old))
    G2(F1(1, COP(atomic_compare_swap)(ctx, dst, cnd, val, pe), old == cnd ? val : old))
    G3(FN(1, OP(atomic_compare_swap_nbi)(&g, dst, cnd, val, pe), old == cnd ? val : old))
    G3(FN(1, COP(atomic_compare_swap_nbi)(ctx, &g, dst, cnd, val, pe), old == cnd ? val : old))
    G1(F1(1, OP(atomic_fetch_inc)(dst, pe), U old + 1))
    G1(P1(OP(atomic_inc)(dst, pe), U old + 1))
    G1(F1(1, OP(atomic_fetch_add)(dst, val, pe), U old + U val))
    G1(P1(OP(atomic_add)(dst, val, pe), U old + U val))
    G2(F1(1, COP(atomic_fetch_inc)(ctx, dst, pe), U old + 1))
    G2(P1(COP(atomic_inc)(ctx, dst, pe), U old + 1))
    G2(F1(1, COP(atomic_fetch_add)(ctx, dst, val, pe), U old + U val))
    G2(P1(COP(atomic_add)(ctx, dst, val, pe), U old + U val))
    G3(FN(1, OP(atomic_fetch_inc_nbi)(&g, dst, pe), U old + 1))
    G3(FN(1, OP(atomic_fetch_add_nbi)(&g, dst, val, pe), U old + U val))
    G3(FN(1, COP(atomic_fetch_inc_nbi)(ctx, &g, dst, pe), U old + 1))
    G3(FN(1, COP(atomic_fetch_add_nbi)(ctx, &g, dst, val, pe), U old + U val))
    G4(F1(1, OP(cswap)(dst, cnd, val, pe), old == cnd ? val : old))
    G4(F1(1, OP(finc)(dst, pe), U old + 1))
    G4(P1(OP(inc)(dst, pe), U old + 1))
    G4(F1(1, OP(fadd)(dst, val, pe), U old + U val))
    G4(P1(OP(add)(dst, val, pe), U old + U val))
#endif
#if CL == 3 || CL == 0
    G1(F1(1, OP(atomic_fetch_and)(dst, val, pe), U old & U val))
    G1(F1(1, OP(atomic_fetch_or)(dst, val, pe), U old | U val))
    G1(F1(1, OP(atomic_fetch_xor)(dst, val, pe), U old ^ U val))
    G1(P1(OP(atomic_and)(dst, val, pe), U old & U val))
    G1(P1(OP(atomic_or)(dst, val, pe), U old | U val))
    G1(P1(OP(atomic_xor)(dst, val, pe), U old ^ U val))
    G2(F1(1, COP(atomic_fetch_and)(ctx, dst, val, pe), U old & U val))
    G2(F1(1, COP(atomic_fetch_or)(ctx, dst, val, pe), U old | U val))
    G2(F1(1, COP(atomic_fetch_xor)(ctx, dst, val, pe), U old ^ U val))
    G2(P1(COP(atomic_and)(ctx, dst, val, pe), U old & U val))
    G2(P1(COP(atomic_or)(ctx, dst, val, pe), U old | U val))
    G2(P1(COP(atomic_xor)(ctx, dst, val, pe), U old ^ U val))
    G3(FN(1, OP(atomic_fetch_and_nbi)(&g, dst, val, pe), U old & U val))
    G3(FN(1, OP(atomic_fetch_or_nbi)(&g, dst, val, pe), U old | U val))
    G3(FN(1, OP(atomic_fetch_xor_nbi)(&g, dst, val, pe), U old ^ U val))
    G3(FN(1, COP(atomic_fetch_and_nbi)(ctx, &g, dst, val, pe), U old & U val))
    G3(FN(1, COP(atomic_fetch_or_nbi)(ctx, &g, dst, val, pe), U old | U val))
    G3(FN(1, COP(atomic_fetch_xor_nbi)(ctx, &g, dst, val, pe), U old ^ U val))
#endif
    VWITNESS("all operations ran");
}
