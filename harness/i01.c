/* Initialisation: any requested level, any level MPI grants, MPI already running or not, repeated calls. */
#include "common.h"
#ifndef ME
#define ME 1
#endif
#ifndef CONF
#define CONF MPI_THREAD_SERIALIZED      /* level the library was configured for */
#endif
static int lvl(const char *n)
{
    int l = (int) VIN_RANGE("level", 0, 3);
    (void) n;
    return l == 0 ? SHMEM_THREAD_SINGLE : l == 1 ? SHMEM_THREAD_FUNNELED : l == 2 ? SHMEM_THREAD_SERIALIZED : SHMEM_THREAD_MULTIPLE;
}
extern void (*vh_atexit_fn)(void); extern int vh_n_atexit;
void harness(void)
{
    int req = -1, got = 77, q = 78, rc = 0, inited, first, me = ME, k;
    mm_no_data = 1;
    mm_thread_provided = lvl("granted");
    inited = VIN_BOOL("MPI running already");
    mm_mpi_inited = inited;
    mm_me = me;
    vh_setenv(0, "SHMEM_SYMMETRIC_SIZE", vh_heap_env);
    first = KIND;
    if (VIN_BOOL("finalize before init")) { shmem_finalize(); VASSERT(mm_n_finalize == 0, "finalize before init does nothing"); }
    if (first == 0) {
        req = lvl("requested");
        rc = shmem_init_thread(req, &got);
    } else if (first == 1) shmem_init();
    else start_pes(0);
    shmem_query_thread(&q);
    VASSERT(mm_n_init == !inited, "MPI is initialised once, and only if nobody did so before");
    VASSERT(q >= SHMEM_THREAD_SINGLE && q <= SHMEM_THREAD_MULTIPLE, "a legal level");
    VASSERT(q <= mm_thread_provided, "no higher than MPI granted");
    VASSERT(q <= CONF, "no higher than configured");
    if (first == 0) {
        VASSERT(q <= req, "no higher than requested");
        VASSERT(got == q, "the level provided is the one reported later");
        VASSERT(q == (req <= CONF ? (req <= mm_thread_provided ? req : mm_thread_provided) : (CONF <= mm_thread_provided ? CONF : mm_thread_provided)), "the level asked for is granted if configuration and MPI allow");
        VASSERT((rc == 0) == (got >= req), "success is reported exactly if the level was granted");
    } else if (first == 2) VASSERT(q == SHMEM_THREAD_SINGLE, "start_pes gives a single-threaded library");
    VASSERT(shmem_my_pe() == me && shmem_n_pes() == NPE, "PE number and count");
    VASSERT(_my_pe() == me && _num_pes() == NPE, "PE number and count under their old names");
    for (k = -1; k <= NPE; k++) VASSERT(shmem_pe_accessible(k) == (k >= 0 && k < NPE), "exactly the existing PEs are accessible");
    /* again */
    k = (int) VIN_RANGE("second call", 0, 3);
    if (k == 0) shmem_init();
    else if (k == 1) { int g2 = 79, r2 = lvl("requested again"), c2 = shmem_init_thread(r2, &g2); VASSERT(g2 == q, "a repeated call reports the same level"); VASSERT((c2 == 0) == (g2 >= r2), "success is reported exactly if the level was granted"); }
    else if (k == 2) start_pes(0);
    got = 80; shmem_query_thread(&got);
    VASSERT(got == q, "the level does not change");
    VASSERT(mm_n_init == !inited, "a repeated call does not initialise MPI again");
    VASSERT(vh_n_atexit == (first == 2), "implicit finalize is arranged by start_pes only");
    if (first == 2 && VIN_BOOL("no explicit finalize")) { vh_atexit_fn(); VASSERT(mm_n_finalize == 1, "start_pes finalizes at exit"); }
    else {
        shmem_finalize();
        VASSERT(mm_n_finalize == 1, "finalize finalizes MPI");
        if (vh_atexit_fn) vh_atexit_fn();
        if (VIN_BOOL("finalize again")) shmem_finalize();
        VASSERT(mm_n_finalize == 1, "MPI is finalized once");
    }
    VWITNESS("started and finished");
}
