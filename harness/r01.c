/* Contiguous put/get: exactly the addressed bytes move, on every region and context. */
#include "common.h"
#ifndef REGION
#define REGION 0
#endif
#ifndef OPK
#define OPK 0       /* 0 put 1 put_nbi 2 get 3 get_nbi */
#endif
#ifndef USECTX
#define USECTX 0    /* 1: explicit context of the space */
#endif
#ifndef NMAX
#define NMAX 3
#endif
#define ESZ 4
void harness(void)
{
    int n, pe, i; size_t off, len; char *base; int w;
    unsigned char buf[NMAX * ESZ + 2], rem[NMAX * ESZ], obuf[NMAX * ESZ + 2];
    shmem_ctx_t ctx = SHMEM_CTX_DEFAULT;
    start_one(0);
#if REGION == 0
    base = (char *) MM_HEAP(0); len = mm_win[1].size[0];
#elif REGION == 1
    base = (char *) MM_DATA(0); len = MM_DATASZ;
#else
    make_space(0, 64, USECTX);
    if (REGION == 3) make_space(1, 64, USECTX);
    { void *p = shmemx_space_malloc(vh_space[REGION - 2], 64); base = p; len = 64; }
    if (USECTX) { int rc = shmemx_space_create_ctx(vh_space[REGION - 2], 0, &ctx); VASSERT(rc == 0, "space context available"); }
#endif
    mm_forbid_send = 1;
    w = win_of(base);
    VASSERT(w >= 0, "region is exposed to remote access");
    n = (int) VIN_RANGE("nelems", 0, NMAX);
    pe = (int) VIN_RANGE("pe", 0, NPE - 1);
    off = VIN_RANGE("offset", 0, len);
    VASSUME(off + (size_t) n * ESZ <= len);
    if (n == 0) VASSUME(off < len);
    for (i = 0; i < NMAX * ESZ + 2; i++) obuf[i] = buf[i] = (unsigned char) VIN("localbyte");
    char *t = mm_win[w].base[pe] + off;
    for (i = 0; i < NMAX * ESZ; i++) { rem[i] = (unsigned char) VIN("remotebyte"); if (OPK >= 2 && i < n * ESZ) t[i] = rem[i]; }
    /* an arbitrary byte of the target region, watched for stray writes */
    int wp = (int) VIN_RANGE("watch_pe", 0, NPE - 1);
    size_t wo = VIN_RANGE("watch_off", 0, len - 1);
    char before = mm_win[w].base[wp][wo];
    char *lb = (char *) buf + 1;
#if OPK == 0
    if (ctx == SHMEM_CTX_DEFAULT) shmem_int_put((int *) (base + off), (int *) lb, n, pe); else shmem_ctx_int_put(ctx, (int *) (base + off), (int *) lb, n, pe);
#elif OPK == 1
    if (ctx == SHMEM_CTX_DEFAULT) shmem_int_put_nbi((int *) (base + off), (int *) lb, n, pe); else shmem_ctx_int_put_nbi(ctx, (int *) (base + off), (int *) lb, n, pe);
#elif OPK == 2
    if (ctx == SHMEM_CTX_DEFAULT) shmem_int_get((int *) lb, (int *) (base + off), n, pe); else shmem_ctx_int_get(ctx, (int *) lb, (int *) (base + off), n, pe);
#else
    if (ctx == SHMEM_CTX_DEFAULT) shmem_int_get_nbi((int *) lb, (int *) (base + off), n, pe); else shmem_ctx_int_get_nbi(ctx, (int *) lb, (int *) (base + off), n, pe);
#endif
#if USECTX
    shmem_ctx_quiet(ctx);
#else
    shmem_quiet();
#endif
    int inside = wp == pe && wo >= off && wo < off + (size_t) n * ESZ;
    char after = mm_win[w].base[wp][wo];
#if OPK <= 1
    VASSERT(!inside || after == (char) buf[1 + wo - off], "put delivers element bytes in place");
    VASSERT(inside || after == before, "put changes no other byte of the region");
    for (i = 0; i < NMAX * ESZ + 2; i++) VASSERT(buf[i] == obuf[i], "put leaves the source unchanged");
#else
    VASSERT(after == before, "get changes no byte of the region");
    for (i = 0; i < NMAX * ESZ + 2; i++)
        if (i >= 1 && i < 1 + n * ESZ) VASSERT(buf[i] == rem[i - 1], "get fetches the addressed bytes");
        else VASSERT(buf[i] == obuf[i], "get changes no other local byte");
#endif
    VASSERT(!mm_pending_any_remote() && !mm_pending_any_local(), "operation complete after quiet");
    if (n == NMAX && pe == 1) VWITNESS("full-size transfer to a remote PE");
    if (n == 0) VWITNESS("empty transfer");
}
