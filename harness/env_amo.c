/* The declared set of atomic operations: mechanism chosen and hints given to MPI.
 * NSLOT comma-separated entries; FIXED: entry i is operation i or absent; VAL: a given value. */
#include "common.h"
static const char *const name[15] = { "cswap", "finc", "inc", "fadd", "add", "fetch", "set", "swap", "fand", "and", "for", "or", "fxor", "xor", "" };
enum { C_CSWAP, C_SUM, C_NOOP, C_REPL, C_AND, C_OR, C_XOR, NC };
static const int cls[15] = { C_CSWAP, C_SUM, C_SUM, C_SUM, C_SUM, C_NOOP, C_REPL, C_REPL, C_AND, C_AND, C_OR, C_OR, C_XOR, C_XOR, 0 };
static const char *const cname[NC] = { "cswap", "sum", "no_op", "replace", "band", "bor", "bxor" };
#ifdef VAL
static char str[] = VAL;
#else
static char str[NSLOT * 6 + 1];
#endif
static int ops[14];
static uint32_t expect(void) { uint32_t m = 0; int i; static const int bit[14] = { OSHMPI_AMO_CSWAP, OSHMPI_AMO_FINC, OSHMPI_AMO_INC, OSHMPI_AMO_FADD, OSHMPI_AMO_ADD, OSHMPI_AMO_FETCH, OSHMPI_AMO_SET, OSHMPI_AMO_SWAP, OSHMPI_AMO_FAND, OSHMPI_AMO_AND, OSHMPI_AMO_FOR, OSHMPI_AMO_OR, OSHMPI_AMO_FXOR, OSHMPI_AMO_XOR };
    for (i = 0; i < 14; i++) if (ops[i]) m |= 1u << bit[i]; return m; }
static void at_init(void)
{
#ifdef MASK
    OSHMPI_env.amo_ops = expect();
#else
    VASSERT(OSHMPI_env.amo_ops == expect(), "the declared operations are the ones listed");
#ifdef PARSE
    VWITNESS("list read");
    VSTOP();
#endif
#endif
}
static int has(const char *list, const char *w)      /* w is an element of the comma-separated list */
{
    int i, k, r = 0, start = 1;
    for (i = 0; i < 64; i++) {
        if (!list[i]) break;
        if (start) {
            for (k = 0; k < 16; k++) if (!w[k] || list[i + k] != w[k]) break;
            if (!w[k] && (list[i + k] == ',' || !list[i + k])) r = 1;
        }
        start = list[i] == ',';
    }
    return r;
}
void harness(void)
{
    int i, c, k, in[NC], n = 0, any = 0;
    for (i = 0; i < 14; i++) ops[i] = 0;
#ifdef VAL
    for (i = 0; i < 14; i++) ops[i] = ALLOPS >> i & 1;
    vh_setenv(1, "OSHMPI_AMO_OPS", str);
#else
#ifdef MASK
    for (i = 0; i < 14; i++) any |= ops[i] = VIN_BOOL("declared");
    VASSUME(any);
#else
    for (i = 0; i < NSLOT; i++) {
        int t = (int) VIN_RANGE("operation", 0, 14), e = 0;
        for (k = 0; k < 5; k++) { if (!name[t][k]) e = 1; str[6 * i + k] = e ? ',' : name[t][k]; }
        str[6 * i + 5] = i + 1 < NSLOT ? ',' : 0;
        for (k = 0; k < 14; k++) if (t == k) { ops[k] = 1; any = 1; }
    }
    VASSUME(any);
    vh_setenv(1, "OSHMPI_AMO_OPS", str);
#endif
#endif
    mm_init_hook = at_init;
    start_one(0);
    for (c = 0; c < NC; c++) in[c] = 0;
    for (i = 0; i < 14; i++) if (ops[i]) in[cls[i]] = 1;
    for (c = 0; c < NC; c++) if (c != C_NOOP) n += in[c];
    /* hints: waiting and testing always read the variable with a plain-read accumulate */
    for (c = 0; c < NC; c++) if (in[c] || c == C_NOOP) VASSERT(has(mm_info_which, cname[c]), "the hints allow every kind of operation that may be issued");
    VASSERT(mm_info_acc[0] == 0 || has(mm_info_acc, "same_op_no_op") || (has(mm_info_acc, "same_op") && 0), "the hints allow plain reads next to the operation");
    mm_no_data = 1;
    int *x = (int *) MM_HEAP(0), v;
    int nl = 0, dir[3];
    for (k = 0; k < 3; k++) dir[k] = -1;
    if (ops[2] || ops[6]) {
        nl = mm_nlog; if (ops[2]) shmem_int_atomic_inc(x, 1); else shmem_int_atomic_set(x, 3, 1);
        dir[0] = mm_nlog != nl;
    }
    if (ops[3] || ops[5]) {
        nl = mm_nlog; if (ops[3]) v = shmem_int_atomic_fetch_add(x, 1, 1); else v = shmem_int_atomic_fetch(x, 1);
        dir[1] = mm_nlog != nl;
    }
    if (ops[0]) {
        nl = mm_nlog; v = shmem_int_atomic_compare_swap(x, 1, 2, 1);
        dir[2] = mm_nlog != nl;
    }
    for (k = 0; k < 3; k++) if (dir[k] == 1) VASSERT(n <= 1, "MPI atomics are used only for one kind of operation besides plain reads");
    VASSERT(!((dir[0] == 1 || dir[1] == 1 || dir[2] == 1) && (dir[0] == 0 || dir[1] == 0 || dir[2] == 0)), "all declared operations use one mechanism");
#ifndef PARSE
    VWITNESS("decided");
#endif
}
