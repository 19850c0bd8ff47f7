/* Symmetric heap calls over the allocator's contract: the allocator may place a block anywhere it is
 * entitled to and may fail; every call must keep its own contract and synchronise as specified. */
#include "common.h"
#ifndef BYTE
#define BYTE 0
#endif
#ifndef CAP
#define CAP 64
#endif
static int nbar, nbar_ms, nms, moving;
static void on_coll(int kind, MPI_Comm c) { if (kind == MMC_BARRIER) nbar++; }
static void on_ms(void)
{
    nms++; nbar_ms = nbar;
    if (moving) VASSERT(nbar >= 1, "no block is released or moved before all PEs have entered the call");
}
static char *base; static size_t total;
static void check(char *p, size_t n, size_t al, char *a, size_t an)
{
    size_t o = (size_t) p - (size_t) base, ao = (size_t) a - (size_t) base;
    VASSERT(n <= total && o <= total - n, "block lies inside the remotely accessible heap");
    VASSERT((o & (al - 1)) == 0, "block has the alignment asked for");
    if (a) VASSERT(o + n <= ao || ao + an <= o, "block overlaps no live block");
    VASSERT(nbar > nbar_ms, "all PEs are synchronised after the allocation");
}
void harness(void)
{
    size_t an, n = VIN("size"), k, m; int w, i; char *a = 0, *p = 0;
    mm_mspace_mode = OP == 3 ? 0 : OP == 1 ? 2 : 1;
    start_one(0);
    base = MM_HEAP(0);
    w = win_of(base);
    VASSERT(w >= 0, "the heap is remotely accessible");
    total = mm_win[w].size[0];
    an = VIN("size of live block");
    VASSUME(an >= 1 && an <= 256);
    a = shmem_malloc(an);
    VASSERT(a != 0, "an allocation that the allocator can satisfy succeeds");
    mm_mspace_fail = 1; if (OP == 3) mm_mspace_mode = 2;
    mm_coll_hook = on_coll; mm_mspace_hook = on_ms; nbar = 0;
    switch (OP) {
    case 0: p = VIN_BOOL("with hints") ? shmem_malloc_with_hints(n, (long) VIN("hints")) : shmem_malloc(n); if (p) check(p, n, 16, a, an); break;
    case 1: {
        size_t c = VIN("count"), byte = VIN("byte"); static const size_t sz[3] = { 1, 12, (size_t) 1 << 33 };
        int s = (int) VIN_RANGE("element size", 0, 2);
        n = s == 0 ? sz[0] : s == 1 ? sz[1] : sz[2];
        VASSUME(c > 2000 || c * n <= 48);
        memset(base + 512, 0x5a, CAP);
        p = shmem_calloc(c, n);
        if (p) {
            VASSERT(c <= total / n, "a request that cannot fit returns null");
            check(p, c * n, 16, a, an);
            VASSUME(byte < c * n);
            VASSERT(p[byte] == 0, "zeroed");
        }
        n = c;
        break; }
    case 2: k = (size_t) 8 << VIN_RANGE("log alignment", 0, 6); p = shmem_align(k, n); if (p) check(p, n, k, a, an); break;
    case 3: /* resize the live block, which holds known bytes */
        VASSUME(an <= 24);
        k = BYTE; VASSUME(k < an && k < n);
        { char v = (char) VIN("value"); a[k] = v; moving = 1;
          p = shmem_realloc(a, n);
          if (p) { check(p, n, 16, 0, 0); VASSERT(p[k] == v, "content is preserved"); VASSERT(!mm_is_live(a) || a == p, "the old block is released"); }
          else VASSERT(mm_is_live(a) && a[k] == v, "a failed resize leaves the block alone"); }
        break;
    case 4: moving = 1; p = shmem_realloc(a, 0); VASSERT(p == 0 && !mm_is_live(a), "resizing to zero releases the block"); VASSERT(nbar >= 1, "collective"); n = 1; break;
    case 5: p = shmem_realloc(0, n); if (p) check(p, n, 16, a, an); break;
    case 6: moving = 1; shmem_free(a); VASSERT(!mm_is_live(a), "the block is released"); VASSERT(nbar >= 1, "collective"); n = 1; break;
    case 7: p = shmem_calloc(0, n); VASSERT(p == 0, "empty request"); n = 0; break;
    case 8: p = shmem_calloc(n, 0); VASSERT(p == 0, "empty request"); n = 0; break;
    case 9: { int d = (int) VIN_RANGE("old name", 0, 3);
        if (d == 0) { p = shmalloc(n); if (p) check(p, n, 16, a, an); }
        else if (d == 1) { k = (size_t) 8 << VIN_RANGE("log alignment", 0, 6); p = shmemalign(k, n); if (p) check(p, n, k, a, an); }
        else if (d == 2) { moving = 1; shfree(a); VASSERT(!mm_is_live(a) && nbar >= 1, "the block is released"); n = 1; }
        else { VASSUME(n > 0); moving = 1; VASSUME(an <= 24); p = shrealloc(a, n); if (p) check(p, n, 16, 0, 0); }
        } break;
    }
    if (n == 0) { VASSERT(p == 0, "size zero gives no block"); VASSERT(nbar == 0, "size zero does not synchronise"); VASSERT(mm_is_live(a), "size zero changes nothing"); }
    else if (OP != 7 && OP != 8) VASSERT(nbar >= 1, "every PE synchronises, whether the allocation succeeded or not");
    VWITNESS("call made");
}
