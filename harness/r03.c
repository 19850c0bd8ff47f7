/* Every typed, sized and byte RMA routine: element size, direction, argument order.
 * AMP 0: direct transport, 1: active messages. GRP selects a group of routines. */
#include "common.h"
#define TYPES(X) X(float, float) X(double, double) X(long double, longdouble) X(char, char) X(signed char, schar) X(short, short) X(int, int) \
  X(long, long) X(long long, longlong) X(unsigned char, uchar) X(unsigned short, ushort) X(unsigned int, uint) X(unsigned long, ulong) \
  X(unsigned long long, ulonglong) X(int8_t, int8) X(int16_t, int16) X(int32_t, int32) X(int64_t, int64) X(uint8_t, uint8) X(uint16_t, uint16) \
  X(uint32_t, uint32) X(uint64_t, uint64) X(size_t, size) X(ptrdiff_t, ptrdiff)
#define LASTSEL (GRP == 0 ? 24 * 4 - 1 : GRP == 1 ? 24 * 2 - 1 : GRP == 2 || GRP == 4 ? 24 - 1 : GRP == 5 ? 10 - 1 : 6 * 4 - 1)
#define SIZES(X) X(8, 1) X(16, 2) X(32, 4) X(64, 8) X(128, 16)
#if GRP == 2 || GRP >= 4
#define NMAX 5
#define SMAX 6
#else
#define NMAX 200
#define SMAX 1
#endif
#ifndef AMP
#define AMP 0
#endif
void mm_type_layout(MPI_Datatype dt, int *nblk, long *blkbytes, long *stride);
static int pe; static size_t n, off; static long ts, ss; static int usectx; static shmem_ctx_t ctx;
static unsigned char local[64]; static char *sym;
static long bytes_of(MPI_Datatype dt) { int k; long b, s; mm_type_layout(dt, &k, &b, &s); return (long) k * b; }
static long esz_of(MPI_Datatype dt) { int k; long b, s; mm_type_layout(dt, &k, &b, &s); return b; }
static long stride_of(MPI_Datatype dt) { int k; long b, s; mm_type_layout(dt, &k, &b, &s); return s; }
/* isput, element size, elements, strides at origin and target (1: contiguous), origin buffer (0: any) */
static void chk(int isput, long esz, size_t cnt, long ost, long tst, const void *org, const char *dest)
{
#if !AMP
    VASSERT(mm_nlog == 1, "one transfer is issued");
    struct mm_op *l = &mm_log[0];
    VASSERT(l->kind == (isput ? MM_PUT : MM_GET), "transfer in the direction of the routine");
    VASSERT(l->pe == pe, "transfer with the given PE");
    VASSERT(l->win == MM_WIN_ID(win_of(mm_win[usectx ? mm_ctxwin : 1].base[mm_me])) || usectx, "window of the addressed object");
    VASSERT(l->disp == dest - (usectx ? mm_win[mm_ctxwin].base[mm_me] : mm_win[1].base[mm_me]), "transfer at the addressed object");
    VASSERT(!org || l->origin == (const char *) org, "transfer with the given local buffer");
    VASSERT((long) l->ocnt * bytes_of(l->odt) == (long) cnt * esz, "local amount is nelems elements of the routine's type");
    VASSERT((long) l->tcnt * bytes_of(l->tdt) == (long) cnt * esz, "remote amount is nelems elements of the routine's type");
    if (cnt > 1 && ost > 1) VASSERT(stride_of(l->odt) == ost * esz && esz_of(l->odt) == esz && l->ocnt == 1, "local stride in elements of the routine's type");
    if (cnt > 1 && tst > 1) VASSERT(stride_of(l->tdt) == tst * esz && esz_of(l->tdt) == esz && l->tcnt == 1, "remote stride in elements of the routine's type");
    if (usectx) VASSERT(l->win == MM_WIN_ID(mm_ctxwin), "transfer on the given context");
#else
    VASSERT(mm_nslog == 2, "a request and its data");
    struct mm_slog *p = &mm_slog[0], *d = &mm_slog[1];
    OSHMPI_am_pkt_t *k = (OSHMPI_am_pkt_t *) p->pkt;
    VASSERT(!p->recv && p->peer == pe && p->len == (long) sizeof(OSHMPI_am_pkt_t), "request packet sent to the given PE");
    VASSERT(d->recv == !isput && d->peer == pe, "data exchanged with the given PE in the direction of the routine");
    VASSERT(!org || d->buf == (const char *) org, "transfer with the given local buffer");
    VASSERT(d->len == (long) cnt * esz, "local amount is nelems elements of the routine's type");
    if (cnt > 1 && ost > 1) VASSERT(stride_of(d->dt) == ost * esz && esz_of(d->dt) == esz && d->cnt == 1, "local stride in elements of the routine's type");
    if (GRP == 2 || GRP >= 4) {
        VASSERT(k->type == (isput ? OSHMPI_AM_PKT_IPUT : OSHMPI_AM_PKT_IGET), "request in the direction of the routine");
        VASSERT(k->iput.nelems == cnt, "remote amount is nelems elements");
        VASSERT(bytes_of(OSHMPI_am.datatypes_table[k->iput.mpi_type_idx]) == esz, "remote element has the size of the routine's type");
        VASSERT(k->iput.target_st == tst, "remote stride as given");
        VASSERT(k->iput.target_disp == dest - (char *) (usectx ? mm_win[mm_ctxwin].base[mm_me] : mm_win[1].base[mm_me]), "request at the addressed object");
        VASSERT(k->iput.ptag == d->tag, "data carries the request's tag");
    } else {
        VASSERT(k->type == (isput ? OSHMPI_AM_PKT_PUT : OSHMPI_AM_PKT_GET), "request in the direction of the routine");
        VASSERT(k->put.bytes == cnt * esz, "remote amount is nelems elements of the routine's type");
        VASSERT(k->put.target_disp == dest - (char *) (usectx ? mm_win[mm_ctxwin].base[mm_me] : mm_win[1].base[mm_me]), "request at the addressed object");
        VASSERT(k->put.ptag == d->tag, "data carries the request's tag");
    }
#endif
    mm_nlog = 0; mm_nslog = 0;
}
static int mm_same(const void *a, const void *b, int sz) { int i, r = 1; for (i = 0; i < 16; i++) if (i < sz && ((const unsigned char *) a)[i] != ((const unsigned char *) b)[i]) r = 0; return r; }
/* one routine per path: `sel` picks it */
static int sel, cur;
#define SEL(x) if (sel == cur++) { x; goto done; }
#define SIG(T) (sizeof(T) == 16 ? 10 : (int) sizeof(T))
#define CALL(plain, withctx) do { if (usectx) { withctx; } else { plain; } } while (0)
#define T_BLK(T, N) { T *s_ = (T *) (sym + off * sizeof(T)), *l_ = (T *) local; \
  SEL(CALL(shmem_##N##_put(s_, l_, n, pe), shmem_ctx_##N##_put(ctx, s_, l_, n, pe)); chk(1, sizeof(T), n, 1, 1, l_, (char *) s_)) \
  SEL(CALL(shmem_##N##_put_nbi(s_, l_, n, pe), shmem_ctx_##N##_put_nbi(ctx, s_, l_, n, pe)); chk(1, sizeof(T), n, 1, 1, l_, (char *) s_)) \
  SEL(CALL(shmem_##N##_get(l_, s_, n, pe), shmem_ctx_##N##_get(ctx, l_, s_, n, pe)); chk(0, sizeof(T), n, 1, 1, l_, (char *) s_)) \
  SEL(CALL(shmem_##N##_get_nbi(l_, s_, n, pe), shmem_ctx_##N##_get_nbi(ctx, l_, s_, n, pe)); chk(0, sizeof(T), n, 1, 1, l_, (char *) s_)) }
#define T_PG(T, N) { T *s_ = (T *) (sym + off * sizeof(T)), v_, g_; memcpy(&v_, mm_nd_val, sizeof(T)); \
  SEL(CALL(shmem_##N##_p(s_, v_, pe), shmem_ctx_##N##_p(ctx, s_, v_, pe)); VASSERT(mm_same(mm_nd_put, &v_, SIG(T)), "p sends the given value"); chk(1, sizeof(T), 1, 1, 1, 0, (char *) s_)) \
  SEL(CALL(g_ = shmem_##N##_g(s_, pe), g_ = shmem_ctx_##N##_g(ctx, s_, pe)); VASSERT(mm_same(&g_, mm_nd_val, SIG(T)), "g returns the fetched value"); chk(0, sizeof(T), 1, 1, 1, 0, (char *) s_)) }
#define T_IPUT(T, N) { T *s_ = (T *) (sym + off * sizeof(T)), *l_ = (T *) local; \
  SEL(CALL(shmem_##N##_iput(s_, l_, ts, ss, n, pe), shmem_ctx_##N##_iput(ctx, s_, l_, ts, ss, n, pe)); chk(1, sizeof(T), n, ss, ts, l_, (char *) s_)) }
#define T_IGET(T, N) { T *s_ = (T *) (sym + off * sizeof(T)), *l_ = (T *) local; \
  SEL(CALL(shmem_##N##_iget(l_, s_, ts, ss, n, pe), shmem_ctx_##N##_iget(ctx, l_, s_, ts, ss, n, pe)); chk(0, sizeof(T), n, ts, ss, l_, (char *) s_)) }
#define S_BLK(B, Z) { char *s_ = sym + off * Z, *l_ = (char *) local; \
  SEL(CALL(shmem_put##B(s_, l_, n, pe), shmem_ctx_put##B(ctx, s_, l_, n, pe)); chk(1, Z, n, 1, 1, l_, s_)) \
  SEL(CALL(shmem_put##B##_nbi(s_, l_, n, pe), shmem_ctx_put##B##_nbi(ctx, s_, l_, n, pe)); chk(1, Z, n, 1, 1, l_, s_)) \
  SEL(CALL(shmem_get##B(l_, s_, n, pe), shmem_ctx_get##B(ctx, l_, s_, n, pe)); chk(0, Z, n, 1, 1, l_, s_)) \
  SEL(CALL(shmem_get##B##_nbi(l_, s_, n, pe), shmem_ctx_get##B##_nbi(ctx, l_, s_, n, pe)); chk(0, Z, n, 1, 1, l_, s_)) }
#define S_STR(B, Z) { char *s_ = sym + off * Z, *l_ = (char *) local; \
  SEL(CALL(shmem_iput##B(s_, l_, ts, ss, n, pe), shmem_ctx_iput##B(ctx, s_, l_, ts, ss, n, pe)); chk(1, Z, n, ss, ts, l_, s_)) \
  SEL(CALL(shmem_iget##B(l_, s_, ts, ss, n, pe), shmem_ctx_iget##B(ctx, l_, s_, ts, ss, n, pe)); chk(0, Z, n, ts, ss, l_, s_)) }
void harness(void)
{
    int i;
#if AMP
    vh_setenv(1, "OSHMPI_RMA_DBG_MODE", vh_dbg_am);
#endif
    start_one(0);
    usectx = USECTX;
    if (usectx) {
        make_space(0, 64, 1);
        int rc = shmemx_space_create_ctx(vh_space[0], 0, &ctx); VASSERT(rc == 0, "space context available");
        sym = shmemx_space_malloc(vh_space[0], 64);
        mm_ctxwin = mm_last_win();
    } else sym = (char *) MM_HEAP(0) + 64;
    if (!AMP) mm_forbid_send = 1;
    mm_no_data = 1; mm_nlog = 0; mm_nslog = 0;
    pe = (int) VIN_RANGE("pe", 0, NPE - 1);
    n = VIN_RANGE("nelems", 1, NMAX);
    off = 1;
    ts = (long) VIN_RANGE("tstride", 1, SMAX); ss = (long) VIN_RANGE("sstride", 1, SMAX);
    sel = (int) VIN("routine"); cur = 0;
#if GRP == 0
    TYPES(T_BLK)
#elif GRP == 1
    for (i = 0; i < 16; i++) mm_nd_val[i] = (unsigned char) VIN("value");
    TYPES(T_PG)
#elif GRP == 2
    TYPES(T_IPUT)
#elif GRP == 4
    TYPES(T_IGET)
#elif GRP == 5
    SIZES(S_STR)
#else
    SIZES(S_BLK)
    S_BLK(mem, 1)
#endif
    VSTOP();
done:
    ;
    if (sel == 0 && pe == 1 && n == NMAX) VWITNESS("first routine of the group");
    if (sel == LASTSEL && pe == 1) VWITNESS("last routine of the group");
}
