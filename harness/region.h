/* A symmetric region under test: base address on the running PE, length, window, context. */
#ifndef VH_REGION_H
#define VH_REGION_H
#ifndef REGION
#define REGION 0
#endif
#ifndef USECTX
#define USECTX 0
#endif
static char *rg_base; static size_t rg_len; static int rg_win; static shmem_ctx_t rg_ctx = SHMEM_CTX_DEFAULT;
static void rg_setup(void)
{
#if REGION == 0
    rg_base = (char *) MM_HEAP(mm_me); rg_len = mm_win[1].size[mm_me];
#elif REGION == 1
    rg_base = (char *) MM_DATA(mm_me); rg_len = MM_DATASZ;
#else
    make_space(0, 64, USECTX);
    if (REGION == 3) make_space(1, 64, USECTX);
    rg_base = shmemx_space_malloc(vh_space[REGION - 2], 64); rg_len = 64;
    if (USECTX) { int rc = shmemx_space_create_ctx(vh_space[REGION - 2], 0, &rg_ctx); VASSERT(rc == 0, "space context available"); }
#endif
    rg_win = win_of(rg_base);
    VASSERT(rg_win >= 0, "region is exposed to remote access");
}
static char *rg_at(int pe, size_t off) { return mm_win[rg_win].base[pe] + off; }
static void rg_quiet(void) { if (rg_ctx == SHMEM_CTX_DEFAULT) shmem_quiet(); else shmem_ctx_quiet(rg_ctx); }
#endif
