/* The shared team and team synchronisation for any placement of the PEs on nodes. */
#include "common.h"
#ifndef ME
#define ME 0
#endif
extern int mm_node_of[NPE];
static int calls, bad, want_shared;
static void hook(int kind, MPI_Comm comm)
{
    int k, j = 0;
    calls++;
    if (kind != MMC_BARRIER) bad = 1;
    for (k = 0; k < NPE; k++)
        if (!want_shared || mm_node_of[k] == mm_node_of[ME]) { if (mm_comm_size(comm) <= j || mm_comm_member(comm, j) != k) bad = 1; j++; }
    if (mm_comm_size(comm) != j) bad = 1;
}
void harness(void)
{
    int k, n = 0, r, mine = -1;
    for (k = 0; k < NPE; k++) mm_node_of[k] = (int) VIN_RANGE("node", 0, 2);
    start_one(ME);
    for (k = 0; k < NPE; k++) if (mm_node_of[k] == mm_node_of[ME]) { if (k == ME) mine = n; n++; }
#ifndef SYNC
    VASSERT(shmem_team_n_pes(SHMEM_TEAM_SHARED) == n && shmem_team_my_pe(SHMEM_TEAM_SHARED) == mine, "shared team has the PEs of this node");
    k = (int) VIN_RANGE("world_rank", 0, NPE - 1);
    r = shmem_team_translate_pe(SHMEM_TEAM_WORLD, k, SHMEM_TEAM_SHARED);
    VASSERT((r >= 0) == (mm_node_of[k] == mm_node_of[ME]), "exactly the PEs of this node are in the shared team");
    if (r >= 0) VASSERT(shmem_team_translate_pe(SHMEM_TEAM_SHARED, r, SHMEM_TEAM_WORLD) == k, "translation is a bijection");
    if (n == 2) VWITNESS("two PEs on this node");
#else
    mm_no_data = 1; mm_coll_hook = hook;
    int which = (int) VIN_RANGE("which", 0, 4);
    want_shared = which == 1; r = 0;
    switch (which) {
    case 0: r = shmem_team_sync(SHMEM_TEAM_WORLD); break;
    case 1: r = shmem_team_sync(SHMEM_TEAM_SHARED); break;
    case 2: shmem_sync_all(); break;
    case 3: shmem_barrier_all(); break;
    case 4: r = shmem_team_sync(SHMEM_TEAM_INVALID); break;
    }
    if (which == 4) VASSERT(r != 0 && calls == 0, "synchronising the invalid team is an error");
    else VASSERT(r == 0 && calls >= 1 && !bad, "exactly the members synchronise");
    if (which == 1 && n == 2) VWITNESS("two PEs on this node synchronise");
    if (which == 4) VWITNESS("invalid team");
#endif
}
