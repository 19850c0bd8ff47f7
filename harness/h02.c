/* Memory-space allocator through its public calls.
 * KIND 0: a history of K steps, each an allocation of any 64-bit size or the release of a live block.
 * KIND 1: zeroed allocation; KIND 2: aligned allocation. */
#include "common.h"
#ifndef NP
#define NP 5
#endif
#ifndef K
#define K 4
#endif
#define PG 64
static char *base; static size_t total;
static char *blk[8]; static size_t bo[8]; static size_t bsz[8]; static int live[8], nb;
static size_t zn;
static void inside(char *p, size_t n)
{
    int i;
    size_t o = (size_t) p - (size_t) base;
    VASSERT(n <= total && o <= total - n, "block lies inside the space");
    for (i = 0; i < nb; i++) if (live[i])
        VASSERT(o + n <= bo[i] || bo[i] + bsz[i] <= o, "block overlaps no live block");
}
static void add(char *p, size_t n) { blk[nb] = p; bo[nb] = (size_t) p - (size_t) base; bsz[nb] = n; live[nb] = 1; nb++; }
#if KIND == 1
static int zbar; static char snap[NP * PG];
static void at_bar(int kind, MPI_Comm c)
{
    if (kind != MMC_BARRIER) return;
    memcpy(snap, base, NP * PG);        /* what the other PEs may see as soon as they are let in */
    zbar++;
}
#endif
void harness(void)
{
    int i, k;
    mm_no_data = 1;
    start_one(0);
    make_space(0, NP * PG - 10, 0);
    base = ((OSHMPI_space_t *) vh_space[0])->sobj_attr.base;
    total = ((OSHMPI_space_t *) vh_space[0])->sobj_attr.size;
    VASSERT(total >= NP * PG - 10, "space is as large as asked");
#if KIND == 0
    for (k = 0; k < K; k++) {
        int fr = k > 0 && (k < 3 ? 0 : VIN_BOOL("free"));
        if (fr) {
            int b = (int) VIN_RANGE("block", 0, 2); char *p = 0;
            VASSUME(b < nb && live[b]);
            for (i = 0; i < 3; i++) if (i == b) { p = blk[i]; live[i] = 0; zn = bsz[i]; }
            shmem_free(p);
            char *q = shmemx_space_malloc(vh_space[0], zn);
            VASSERT(q != 0, "what was released can be allocated again");
            inside(q, zn);
            shmem_free(q);
        } else {
            size_t n = VIN("size");
            char *p = shmemx_space_malloc(vh_space[0], n);
            if (n == 0) VASSERT(p == 0, "size zero gives no block");
            if (p) { inside(p, n); VASSERT(mm_is_aligned(base, p, 16), "block is aligned for any type"); add(p, n); }
            else if (nb == 0) VASSERT(n == 0 || n > total, "a request that fits an empty space is granted");
        }
    }
    VWITNESS("history done");
    for (i = 0; i < K; i++) if (live[i]) shmem_free(blk[i]);
    VASSERT(shmemx_space_malloc(vh_space[0], total) == base, "an emptied space can be allocated as a whole");
#elif KIND == 1
#ifdef SMALL
    size_t c = VIN_RANGE("count", 0, 8), n = VIN_RANGE("size", 0, 16), m = c * n, off = VIN("byte");
    memset(base, 0x5a, NP * PG);
    if (VIN_BOOL("one block live")) { char *q = shmemx_space_malloc(vh_space[0], 70); inside(q, 70); add(q, 70); }
    mm_coll_hook = at_bar;
    char *p = shmemx_space_calloc(vh_space[0], c, n);
    VASSERT(p != 0 || m == 0, "a request that fits is granted");
    if (p) { inside(p, m); VASSUME(off < m); VASSERT(p[off] == 0, "zeroed"); VASSERT(zbar >= 1, "collective"); VASSERT(snap[(size_t) p - (size_t) base + off] == 0, "zeroed before the other PEs are let in"); }
    VWITNESS("calloc done");
#else
    static const size_t sz[3] = { 1, 24, (size_t) 1 << 33 };
    for (i = 0; i < 3; i++) {
        size_t c = VIN("count");
        VASSUME(c > total / sz[i]);
        VASSERT(shmemx_space_calloc(vh_space[0], c, sz[i]) == 0, "a request that cannot fit returns null");
    }
    VASSERT(shmemx_space_malloc(vh_space[0], total) == base, "refused requests take nothing");
    VWITNESS("calloc refused");
#endif
#else
    size_t a = (size_t) 8 << VIN_RANGE("log alignment", 0, AMAX), n = VIN("size");
    int first = VIN_BOOL("one block live");
#ifdef KF_ONLY
    VASSUME(a > PG);
#endif
    if (first) { char *q = shmemx_space_malloc(vh_space[0], 70); inside(q, 70); add(q, 70); }
    char *p = shmemx_space_align(vh_space[0], a, n);
    if (p) { inside(p, n); VASSERT(mm_is_aligned(base, p, a), "block has the alignment asked for"); }
    else VASSERT(n == 0 || n > total - 2 * PG * first || a > PG, "a request that fits is granted");
    VWITNESS("align done");
#endif
}
