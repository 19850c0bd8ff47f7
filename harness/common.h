/* Helpers shared by the harnesses. */
#ifndef VH_COMMON_H
#define VH_COMMON_H
#include <string.h>
#include <stdlib.h>
#include <shmem.h>
#include <shmemx.h>
#include "oshmpi_impl.h"
#include "vh.h"

#ifndef HEAP_ENV
#define HEAP_ENV "64"
#endif
static char vh_heap_env[] = HEAP_ENV;
static char vh_dbg_am[] = "am", vh_dbg_direct[] = "direct";

/* start the library on PE `me` alone (its peers are passive memory) */
static inline void start_one(int me)
{
    mm_me = me;
    vh_setenv(0, "SHMEM_SYMMETRIC_SIZE", vh_heap_env);
    vh_init_one();
}
/* start the library on every PE */
static inline void start_all(void)
{
    vh_setenv(0, "SHMEM_SYMMETRIC_SIZE", vh_heap_env);
    vh_init_all();
}

/* symmetric regions */
enum { RG_HEAP = 0, RG_DATA, RG_SPACE, RG_SPACE2 };
static shmemx_space_t vh_space[2];
static shmem_ctx_t vh_ctx[2];
static inline void make_space(int i, size_t sz, int nctx)
{
    shmemx_space_config_t c;
    memset(&c, 0, sizeof c);
    c.sheap_size = sz; c.memkind = SHMEMX_MEM_HOST; c.num_contexts = nctx; c.hints = 0;
    shmemx_space_create(c, &vh_space[i]);
    shmemx_space_attach(vh_space[i]);
}
/* window of a region and its size; found from the memory it exposes on the running PE */
static inline int win_of(const void *local)
{
    int i, r = -1;
    for (i = 0; i < MM_NWIN; i++)
        if (r < 0 && mm_win[i].used && mm_win[i].kind != 3 && (const char *) local == mm_win[i].base[mm_me]) r = i;
    return r;
}
#endif
