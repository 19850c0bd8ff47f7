/* Sequences of collectives over arbitrary active sets: each one communicates with exactly the
 * PEs of its own set, in set order. */
#include "common.h"
#ifndef ME
#define ME 0
#endif
#ifndef SEQ
#define SEQ 0, 1, 0
#endif
#ifndef MAXLS
#define MAXLS 2
#endif
static int cs, cl, cn, calls;
static void hook(int kind, MPI_Comm comm)
{
    int k;
    calls++;
    VASSERT(mm_comm_size(comm) == cn, "collective involves as many PEs as its active set has");
    for (k = 0; k < NPE; k++) if (k < cn)
        VASSERT(mm_comm_member(comm, k) == cs + (k << cl), "collective involves exactly the PEs of its active set, in order");
}
static int src[8], dst[16 * NPE], wrk[8]; static long psync[64];
static void call(int kind, int cs, int cl, int cn)
{
    switch (kind) {
    case 0: shmem_sync_aset(cs, cl, cn, psync); break;
    case 1: shmem_fcollect32(dst, src, 1, cs, cl, cn, psync); break;
    case 2: shmem_int_sum_to_all(dst, src, 1, cs, cl, cn, wrk, psync); break;
    case 3: shmem_broadcast64(dst, src, 1, 0, cs, cl, cn, psync); break;
    case 4: shmem_alltoall32(dst, src, 1, cs, cl, cn, psync); break;
    case 5: shmem_barrier(cs, cl, cn, psync); break;
    case 6: shmem_collect32(dst, src, 1, cs, cl, cn, psync); break;
    case 7: shmem_alltoalls32(dst, src, 2, 3, 1, cs, cl, cn, psync); break;
    }
}
static void one(int kind)
{
    int member = 0, k;
    cs = (int) VIN_RANGE("start", 0, NPE - 1); cl = (int) VIN_RANGE("logstride", 0, MAXLS); cn = (int) VIN_RANGE("size", 1, NPE);
    VASSUME(cs + ((cn - 1) << cl) < NPE);
    for (k = 0; k < NPE; k++) if (k < cn && cs + (k << cl) == ME) member = 1;
    VASSUME(member);
    calls = 0;
    call(kind, cs, cl, cn);
    VASSERT(calls > 0, "every PE of the set takes part");
}
void harness(void)
{
    int i;
    start_one(ME);
    mm_no_data = 1; mm_nolog = 1;
    mm_coll_hook = hook;
    static const int seq[] = {SEQ};
    for (i = 0; i < (int) (sizeof seq / sizeof *seq); i++) one(seq[i]);
    if (cn == 2 && cl == 1) VWITNESS("a two-PE set at the end");
    if (cn == NPE) VWITNESS("the whole world at the end");
}
