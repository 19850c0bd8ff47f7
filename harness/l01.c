/* Locks: every schedule of the PEs' atomics over small lock programs. PROG<k> is the program of PE k:
 * S set, T test, C clear (only if the PE holds the lock); lower case: the second lock. */
#include "common.h"
#define CALL(x, cond) { mm_rp_begin(en && (cond)); x; if (mm_rp_end()) { done = 1; } }
#define STR_(x) #x
#define STR(x) STR_(x)
#ifndef PROG2
#define PROG2
#endif
static const char *const prog[3] = { STR(PROG0), STR(PROG1), STR(PROG2) };
static long *lk[NPE][2];
static int pc[NPE], held[NPE][2], nreq;
static int has(int p, char c) { const char *s = prog[p]; int i, r = 0; for (i = 0; s[i]; i++) if (s[i] == c) r = 1; return r; }
static void step(int p, int en)
{
    char op = 0; int i, k, n = strlen(prog[p]), done = 0, rc;
    for (i = 0; i < n; i++) if (i == pc[p]) op = prog[p][i];
    vh_switch(p);
    for (k = 0; k < 2; k++) {
        if (has(p, "Ss"[k])) { CALL(shmem_set_lock(lk[p][k]), op == "Ss"[k]) if (done == 1) { held[p][k] = 1; done = 2; } }
        if (has(p, "Tt"[k])) { CALL(rc = shmem_test_lock(lk[p][k]), op == "Tt"[k]) if (done == 1) { VASSERT(rc == 0 || rc == 1, "test_lock returns 0 or 1"); if (!rc) held[p][k] = 1; done = 2; } }
        if (has(p, "Cc"[k])) {
            int cl = op == "Cc"[k], go = held[p][k] || (mm_rp[p].n > 0);
            if (cl && en) held[p][k] = 0;
            CALL(shmem_clear_lock(lk[p][k]), cl && go)
            if (cl && en && !go) done = 2;
        }
    }
    if (done) pc[p]++;
#if !defined(FAIR) || MM_RPW > 2
    for (k = 0; k < 2; k++) { int h = 0; for (i = 0; i < NPE; i++) h += held[i][k]; VASSERT(h <= 1, "at most one PE holds a lock"); }
#endif
}
void harness(void)
{
    int i, p;
    start_all();
    for (p = 0; p < NPE; p++) { lk[p][0] = (long *) MM_DATA(p); lk[p][1] = lk[p][0] + 1; mm_rp_mem[p] = (uint32_t *) lk[p][0]; for (i = 0; i < MM_RPW; i++) mm_rp_mem[p][i] = 0; }
    vh_switch(0);
    mm_rp_win = 0x21000000 + win_of(MM_DATA(0));
    for (i = 0; i < T; i++) {
        int s = (int) VIN_RANGE("pe", 0, NPE - 1);
        for (p = 0; p < NPE; p++) step(p, s == p);
    }
#ifdef FAIR
    for (i = 0; i < FAIR; i++) for (p = 0; p < NPE; p++) step(p, 1);
    for (p = 0; p < NPE; p++) VASSERT(pc[p] == (int) strlen(prog[p]), "every PE gets the lock and finishes");
    vh_switch(NPE - 1);
    if (MM_RPW == 2) for (i = 0; i < MM_RPW / 2; i++) { mm_rp_begin(1); VASSERT(shmem_test_lock(lk[NPE - 1][i]) == 0 && mm_rp_end(), "with no holder and no waiter the lock is free"); }
#endif
    VWITNESS("schedule");
}
