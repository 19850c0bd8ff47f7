/* Teams: membership, numbering, queries, rank translation. Every PE of the parent runs the split. */
#include "common.h"
#ifndef PARENT    /* 0 world, 1 shared, 2 all but PE 0, 3 every second PE */
#define PARENT 0
#endif
#ifndef KIND      /* 0 strided, 1 two-dimensional, 2 translation between two strided teams */
#define KIND 0
#endif
#define P0 (PARENT == 2 ? 1 : 0)
#define PS (PARENT == 3 ? 2 : 1)
#define PN (PARENT == 2 ? NPE - 1 : PARENT == 3 ? (NPE + 1) / 2 : NPE)
static shmem_team_t par[NPE], t1[NPE], t2[NPE];
static int rc[NPE], seq[NPE];
static int start, stride, size, xr, start2, stride2, size2;
static shmem_team_config_t cfg, cfgy;
static void passes(int np, int f, int l, int s, void (*fn)(int))
{
    int p, k;
    for (k = 0; k < NPE; k++) seq[k] = mm_comm_get_seq(k);
    for (p = 0; p < np; p++) {
        mm_coll_pass = p; mm_coll_final = p == np - 1;
        for (k = f; k < l; k += s) { vh_switch(k); mm_coll_n[k] = 0; if (p) mm_comm_set_seq(k, seq[k]); fn(k); }
    }
    mm_coll_pass = -1; mm_coll_final = 0;
}
static void mkpar(int pe)
{
    int r = shmem_team_split_strided(SHMEM_TEAM_WORLD, P0, PS, PN, 0, 0, &par[pe]);
    VASSERT(r == 0, "parent team is created");
}
static void strided(int pe)
{
    t1[pe] = SHMEM_TEAM_WORLD;
    rc[pe] = shmem_team_split_strided(par[pe], start, stride, size, &cfg, SHMEM_TEAM_NUM_CONTEXTS, &t1[pe]);
}
static void grid(int pe)
{
    t1[pe] = t2[pe] = SHMEM_TEAM_WORLD;
    rc[pe] = shmem_team_split_2d(par[pe], xr, &cfg, SHMEM_TEAM_NUM_CONTEXTS, &t1[pe], &cfgy, SHMEM_TEAM_NUM_CONTEXTS, &t2[pe]);
}
static void both(int pe)
{
    int a = shmem_team_split_strided(SHMEM_TEAM_WORLD, start, stride, size, 0, 0, &t1[pe]);
    int b = shmem_team_split_strided(SHMEM_TEAM_WORLD, start2, stride2, size2, 0, 0, &t2[pe]);
    VASSERT(a == 0 && b == 0, "teams are created");
}
static int w_of(int j) { return P0 + j * PS; }       /* world PE of parent rank j */
void harness(void)
{
    int k, j;
    start_all();
    for (k = 0; k < NPE; k++) par[k] = PARENT == 1 ? SHMEM_TEAM_SHARED : SHMEM_TEAM_WORLD;
#if PARENT >= 2
    passes(2, 0, NPE, 1, mkpar);
#endif
    int m = (int) VIN_RANGE("watched_pe", 0, PN - 1);
#if KIND == 0
    start = (int) VIN("start"); stride = (int) VIN("stride"); size = (int) VIN("size");
#ifdef KEEPVALID
    VASSUME(start >= 0 && start < PN && size >= 1 && size <= PN && stride >= 1 && stride <= PN);
#endif
    cfg.num_contexts = (int) VIN_RANGE("num_contexts", 0, 1000);
    passes(2, P0, P0 + (PN - 1) * PS + 1, PS, strided);
    long end = (long) start + (long) (size - 1) * stride;
    int valid = start >= 0 && start < PN && size >= 1 && (size == 1 || stride >= 1) && end < PN;
    int odd = size == 1 && stride < 1;      /* the specification leaves this open */
    for (k = 0; k < PN; k++) {
        if (k != m) continue;
        int pe = w_of(k); vh_switch(pe);
        if (!odd) VASSERT((rc[pe] == 0) == valid, "valid arguments succeed and invalid ones are reported");
        int idx = -1;
        for (j = 0; j < PN; j++) if (j < size && (long) start + (long) j * stride == k) idx = j;
        if (!valid) { if (!odd) VASSERT(t1[pe] == SHMEM_TEAM_INVALID, "no team is created from invalid arguments"); }
        else if (!odd) {
            VASSERT((t1[pe] != SHMEM_TEAM_INVALID) == (idx >= 0), "exactly the members get a team");
            if (idx >= 0 && t1[pe] != SHMEM_TEAM_INVALID) {
                VASSERT(shmem_team_my_pe(t1[pe]) == idx && shmem_team_n_pes(t1[pe]) == size, "members are numbered in stride order");
                for (j = 0; j < PN; j++) if (j < size) VASSERT(shmem_team_translate_pe(t1[pe], j, SHMEM_TEAM_WORLD) == w_of(start + j * stride), "team ranks name the selected PEs");
                shmem_team_config_t c; c.num_contexts = -1;
                VASSERT(shmem_team_get_config(t1[pe], SHMEM_TEAM_NUM_CONTEXTS, &c) == 0 && c.num_contexts == cfg.num_contexts, "configuration is kept");
            }
            if (idx == 1) VWITNESS("second member");
            if (idx < 0) VWITNESS("not a member");
        }
#ifndef KEEPVALID
        else VWITNESS("single member, odd stride");
        if (size == 2 && start == 0 && stride < 0) VWITNESS("negative stride");
#endif
    }
#elif KIND == 1
    xr = (int) VIN("xrange");
#ifdef KEEPVALID
    VASSUME(xr >= 1 && xr <= NPE + 1);
#endif
    cfg.num_contexts = (int) VIN_RANGE("nctx_x", 0, 1000); cfgy.num_contexts = (int) VIN_RANGE("nctx_y", 0, 1000);
    passes(3, P0, P0 + (PN - 1) * PS + 1, PS, grid);
    for (k = 0; k < PN; k++) {
        if (k != m) continue;
        int pe = w_of(k); vh_switch(pe);
        VASSERT((rc[pe] == 0) == (xr >= 1), "a positive range succeeds, any other is reported");
        if (xr < 1) { VASSERT(t1[pe] == SHMEM_TEAM_INVALID && t2[pe] == SHMEM_TEAM_INVALID, "no teams are created from invalid arguments");
#ifndef KEEPVALID
            VWITNESS("invalid range");
#endif
            continue; }
        int x = k % xr, y = k / xr, nx = 0, ny = 0;
        for (j = 0; j < PN; j++) { if (j / xr == y) nx++; if (j % xr == x) ny++; }
        VASSERT(t1[pe] != SHMEM_TEAM_INVALID && t2[pe] != SHMEM_TEAM_INVALID, "each member gets both teams");
        VASSERT(shmem_team_my_pe(t1[pe]) == x && shmem_team_n_pes(t1[pe]) == nx, "x team is the row, numbered along it");
        VASSERT(shmem_team_my_pe(t2[pe]) == y && shmem_team_n_pes(t2[pe]) == ny, "y team is the column, numbered along it");
        for (j = 0; j < PN; j++) {
            if (j < nx) VASSERT(shmem_team_translate_pe(t1[pe], j, SHMEM_TEAM_WORLD) == w_of(y * xr + j), "x team ranks name the row's PEs");
            if (j < ny) VASSERT(shmem_team_translate_pe(t2[pe], j, SHMEM_TEAM_WORLD) == w_of(x + j * xr), "y team ranks name the column's PEs");
        }
        shmem_team_config_t c; c.num_contexts = -1;
        VASSERT(shmem_team_get_config(t1[pe], SHMEM_TEAM_NUM_CONTEXTS, &c) == 0 && c.num_contexts == cfg.num_contexts, "x configuration is kept");
        VASSERT(shmem_team_get_config(t2[pe], SHMEM_TEAM_NUM_CONTEXTS, &c) == 0 && c.num_contexts == cfgy.num_contexts, "y configuration is kept");
        if (xr == 2 && ny == 2) VWITNESS("two rows");
    }
#else
    start = A0; stride = AS; size = AN; start2 = B0; stride2 = BS; size2 = BN;
    passes(3, 0, NPE, 1, both);
    for (k = 0; k < NPE; k++) {
        if (k != m) continue;
        vh_switch(k);
        int src = (int) VIN("src_rank"), st = (int) VIN_RANGE("src_team", 0, 3), dt = (int) VIN_RANGE("dest_team", 0, 3), w = -1, exp = -1;
        shmem_team_t a = st == 0 ? SHMEM_TEAM_WORLD : st == 1 ? SHMEM_TEAM_SHARED : st == 2 ? t1[k] : SHMEM_TEAM_INVALID;
        shmem_team_t b = dt == 0 ? SHMEM_TEAM_WORLD : dt == 1 ? SHMEM_TEAM_SHARED : dt == 2 ? t2[k] : SHMEM_TEAM_INVALID;
        if (st < 2 && src >= 0 && src < NPE) w = src;
        if (st == 2 && a != SHMEM_TEAM_INVALID && src >= 0 && src < size) w = start + src * stride;
        if (w >= 0) {
            if (dt < 2) exp = w;
            if (dt == 2 && b != SHMEM_TEAM_INVALID) for (j = 0; j < NPE; j++) if (j < size2 && start2 + j * stride2 == w) exp = j;
        }
        VASSERT(shmem_team_translate_pe(a, src, b) == exp, "translation names the same PE, or -1");
        VASSERT(shmem_team_my_pe(SHMEM_TEAM_WORLD) == k && shmem_team_n_pes(SHMEM_TEAM_WORLD) == NPE, "world team");
        VASSERT(shmem_team_my_pe(SHMEM_TEAM_SHARED) == k && shmem_team_n_pes(SHMEM_TEAM_SHARED) == NPE, "shared team on one node");
        VASSERT(shmem_team_my_pe(SHMEM_TEAM_INVALID) == -1 && shmem_team_n_pes(SHMEM_TEAM_INVALID) == -1, "invalid team");
        shmem_team_config_t c;
        VASSERT(shmem_team_get_config(SHMEM_TEAM_INVALID, SHMEM_TEAM_NUM_CONTEXTS, &c) != 0, "invalid team has no configuration");
        VASSERT(shmem_my_pe() == k && shmem_n_pes() == NPE, "rank and size");
        if (st == 2 && dt == 0 && exp >= 0) VWITNESS("from a split team");
        if (st == 0 && dt == 2 && exp >= 0) VWITNESS("to a split team");
#ifndef NOMISS
        if (w >= 0 && b != SHMEM_TEAM_INVALID && exp < 0) VWITNESS("no such member");
#endif
    }
#endif
}
