/* Regions when every PE runs the library: the spaces are created and attached on each PE in turn. */
#ifndef VH_MULTI_H
#define VH_MULTI_H
static shmemx_space_t mp_space[NPE][2]; static char *mp_space_base[NPE][2]; static shmem_ctx_t mp_ctx[NPE][2];
static void mp_make_space(int i, size_t sz, int nctx)
{
    int k;
    for (k = NPE - 1; k >= 0; k--) {
        vh_switch(k);
        make_space(i, sz, nctx);
        mp_space[k][i] = vh_space[i];
        mp_space_base[k][i] = shmemx_space_malloc(vh_space[i], sz);
        VASSERT(mp_space_base[k][i] != 0, "a fresh space can allocate its whole size");
        if (nctx) { int rc = shmemx_space_create_ctx(vh_space[i], 0, &mp_ctx[k][i]); VASSERT(rc == 0, "space context available"); }
    }
    vh_switch(0);
}
#ifndef REGION
#define REGION 0
#endif
static char *mp_base[NPE]; static size_t mp_len;
static void mp_setup(void)
{
    int k;
#if REGION == 0
    for (k = 0; k < NPE; k++) mp_base[k] = (char *) MM_HEAP(k);
    mp_len = mm_win[1].size[0];
#elif REGION == 1
    for (k = 0; k < NPE; k++) mp_base[k] = (char *) MM_DATA(k);
    mp_len = MM_DATASZ;
#else
    mp_make_space(0, 64, 0);
#if REGION == 3
    mp_make_space(1, 64, 0);
#endif
    for (k = 0; k < NPE; k++) mp_base[k] = mp_space_base[k][REGION - 2];
    mp_len = 64;
#endif
}
#endif
