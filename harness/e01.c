/* Environment settings. KIND 0: symmetric heap size as a number with suffix; 1: lists of MPI GPU features;
 * 2: switches that take a number; 3: debugging modes of the transports. */
#include "common.h"
#if KIND == 0
#ifndef NF
#define NF 0
#endif
#ifndef FREE
#define FREE(i) ((i) < 2 || (i) >= ND - 4)      /* long numbers: some digits fixed */
#endif
static char str[ND + (NF ? NF + 1 : 0) + 2];
static unsigned long num, den = 1; static int sh;
static void at_init(void)
{
    unsigned __int128 n = (unsigned __int128) num << sh;
    unsigned long want = (unsigned long) ((n + den - 1) / den);
#if NF == 0
    VASSERT((unsigned long) OSHMPI_env.symm_heap_size == want, "an integer size is taken exactly");
#else
    VASSERT((unsigned long) OSHMPI_env.symm_heap_size == want, "a fractional size is rounded up");
#endif
    VWITNESS("size read");
    VSTOP();
}
void harness(void)
{
    int i, n = 0;
    static const char suf[9] = { 0, 'K', 'k', 'M', 'm', 'G', 'g', 'T', 't' };
    for (i = 0; i < ND; i++) { int d = ND <= 5 || FREE(i) ? (int) VIN_RANGE("digit", 0, 9) : 7; num = num * 10 + d; str[n++] = (char) ('0' + d); }
#if NF
    str[n++] = '.';
    for (i = 0; i < NF; i++) { int d = (int) VIN_RANGE("fraction", 0, 9); num = num * 10 + d; den *= 10; str[n++] = (char) ('0' + d); }
#endif
    i = SUF == 0 ? 0 : SUF * 2 - 1 + VIN_BOOL("lower case suffix");
    { int k; for (k = 0; k < 9; k++) if (i == k) str[n] = suf[k]; }
    sh = 10 * SUF;
    vh_heap_env[0] = 0;
    vh_setenv(1, "SHMEM_SYMMETRIC_SIZE", str);
    mm_init_hook = at_init;
    vh_init_one();
}
#else
static void at_init(void)
{
#if KIND == 1
    int k, m = 0;
    for (k = 0; k < 4; k++) {
        static const int bit[4] = { OSHMPI_MPI_GPU_PT2PT, OSHMPI_MPI_GPU_PUT, OSHMPI_MPI_GPU_GET, OSHMPI_MPI_GPU_ACCUMULATES };
        if (WANT >> k & 1) m |= 1 << bit[k];
    }
    VASSERT(OSHMPI_env.mpi_gpu_features == (uint32_t) m, "the features listed are the ones used");
#elif KIND == 2
    VASSERT(OSHMPI_env.debug == WANT && OSHMPI_env.version == WANT && OSHMPI_env.info == WANT && OSHMPI_env.verbose == WANT, "a switch is on exactly if set to a non-zero number");
#else
    VASSERT(OSHMPI_env.amo_dbg_mode == WANT && OSHMPI_env.rma_dbg_mode == WANT, "the transport asked for is selected");
#endif
    VWITNESS("settings read");
    VSTOP();
}
static char v0[] = VAL, v1[] = VAL, v2[] = VAL, v3[] = VAL;
void harness(void)
{
#if KIND == 1
    vh_setenv(0, "OSHMPI_MPI_GPU_FEATURES", v0);
#elif KIND == 2
    vh_setenv(0, "SHMEM_DEBUG", v0); vh_setenv(1, "SHMEM_VERSION", v1); vh_setenv(2, "SHMEM_INFO", v2); vh_setenv(3, "OSHMPI_VERBOSE", v3);
#else
    vh_setenv(0, "OSHMPI_AMO_DBG_MODE", v0); vh_setenv(1, "OSHMPI_RMA_DBG_MODE", v1);
#endif
    mm_init_hook = at_init;
    vh_init_one();
}
#endif
