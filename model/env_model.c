/* Environment model: variables, page size, data segment, string helpers, mspace contract. */
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include "vh.h"
const char *vh_env_name[VH_NENV];
char *vh_env_val[VH_NENV];
void vh_setenv(int slot, const char *name, char *val) { vh_env_name[slot] = name; vh_env_val[slot] = val; }
static int vh_streq(const char *a, const char *b)
{
    int i;
    for (i = 0; i < 40; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; }
    return 0;
}
char *vh_getenv(const char *name)
{
    int i;
    for (i = 0; i < VH_NENV; i++) if (vh_env_name[i] && vh_streq(vh_env_name[i], name)) return vh_env_val[i];
    return 0;
}
long vh_sysconf(int name) { return MM_PAGE; }
int vh_n_atexit; void (*vh_atexit_fn)(void);
int vh_atexit(void (*f)(void)) { vh_n_atexit++; vh_atexit_fn = f; return 0; }
char *mm_data_start_(void) { return (char *) MM_DATA(mm_me); }
char *mm_data_end_(void) { return (char *) MM_DATA(mm_me) + mm_data_size; }

#ifndef VH_NATIVE
/* the zero padding of strncpy is not modelled; the terminating zero is */
char *vh_strncpy(char *d, const char *s, size_t n)
{
    size_t i;
    for (i = 0; i < 64; i++) { if (i >= n) break; d[i] = s[i]; if (!s[i]) break; }
    return d;
}
int vh_strncmp(const char *a, const char *b, size_t n)
{
    size_t i;
    for (i = 0; i < 40; i++) { if (i >= n) return 0; if (a[i] != b[i]) return (unsigned char) a[i] < (unsigned char) b[i] ? -1 : 1; if (!a[i]) return 0; }
    return 0;
}
int vh_strcmp(const char *a, const char *b) { return vh_strncmp(a, b, 40); }
#ifndef VH_SARG
#define VH_SARG 40
#endif
int vh_snprintf(char *b, size_t n, const char *fmt, ...)
{
    va_list ap; int i = 0, o = 0;
    va_start(ap, fmt);
    for (i = 0; i < 64; i++) {
        if (!fmt[i]) break;
        if (fmt[i] == '%') {
            i++;
            if (fmt[i] == 's') { const char *s = va_arg(ap, const char *); int k; for (k = 0; k < VH_SARG; k++) { if (!s[k]) break; if (o + 1 < n) b[o] = s[k]; o++; } }
        } else { if (o + 1 < n) b[o] = fmt[i]; o++; }
    }
    if (n > 0) b[o < n ? o : n - 1] = 0;
    va_end(ap);
    return o;
}
static int vh_isdelim(char c, const char *d) { int i; for (i = 0; i < 4; i++) { if (!d[i]) return 0; if (d[i] == c) return 1; } return 0; }
#ifndef VH_STRMAX
#define VH_STRMAX 64
#endif
char *vh_strtok_r(char *s, const char *d, char **save)
{
    int i; char *t;
    if (!s) s = *save;
    if (!s) return 0;
    for (i = 0; i < VH_STRMAX; i++) { if (!*s || !vh_isdelim(*s, d)) break; s++; }
    if (!*s) { *save = s; return 0; }
    t = s;
    for (i = 0; i < VH_STRMAX; i++) { if (!*s || vh_isdelim(*s, d)) break; s++; }
    if (*s) { *s = 0; *save = s + 1; } else *save = s;
    return t;
}
/* decimal numbers: digits [. digits], at most 12 significant characters; no exponent */
static long double vh_strtold_(const char *s, char **e, int *nd)
{
    unsigned long u = 0, f = 0, q = 1; int i = 0, any = 0, frac = 0;
    for (i = 0; i < 20; i++) { if (s[i] < '0' || s[i] > '9') break; u = u * 10 + (s[i] - '0'); any = 1; }
    if (s[i] == '.') {
        int j = i + 1, k;
        for (k = 0; k < 10; k++, j++) { if (s[j] < '0' || s[j] > '9') break; f = f * 10 + (s[j] - '0'); q *= 10; any = 1; frac = 1; }
        if (any) i = j;
    }
    if (e) *e = (char *) (any ? s + i : s);
    if (!frac) return (long double) u;
    return (long double) u + (long double) f / (long double) q;
}
long double vh_strtold(const char *s, char **e) { return vh_strtold_(s, e, 0); }
double vh_strtod(const char *s, char **e) { return (double) vh_strtold_(s, e, 0); }
float vh_strtof(const char *s, char **e) { return (float) vh_strtold_(s, e, 0); }
int vh_atoi(const char *s)
{
    int i = 0, neg = 0; unsigned v = 0;
    if (s[0] == '-') { neg = 1; i = 1; }
    for (; i < 11; i++) { if (s[i] < '0' || s[i] > '9') break; v = v * 10 + (s[i] - '0'); }
    return neg ? -(int) v : (int) v;
}
unsigned long vh_strtoul(const char *s, char **e, int base)
{
    int i = 0; unsigned long v = 0;
    for (; i < 20; i++) { if (s[i] < '0' || s[i] > '9') break; v = v * 10 + (s[i] - '0'); }
    if (e) *e = (char *) s + i;
    return v;
}
#endif

/* ---- memory mapping: the kernel grants or refuses a mapping; pages are free ---- */
#include <errno.h>
int mm_mmap_fail;               /* 1: refuse mappings */
int mm_nmap, mm_nunmap;
int vh_msync(void *p, size_t n, int fl) { errno = ENOMEM; return -1; }
void *vh_mmap(void *a, size_t n, int pr, int fl, int fd, long off)
{
    if (mm_mmap_fail || n > MM_HEAPSZ) return (void *) -1;
    mm_nmap++;
    return MM_HEAP(mm_me);
}
int vh_munmap(void *a, size_t n)
{
    if (a == (void *) -1) return -1;
    MASSERT(a == (void *) MM_HEAP(mm_me), "unmapping memory that is not mapped");
    mm_nunmap++; return 0;
}
int vh_random_r(void *b, int32_t *r) { *r = 0x7fff0000; return 0; }
int vh_initstate_r(unsigned s, char *st, size_t n, void *b) { return 0; }
int vh_gettimeofday(void *tv, void *tz) { return 0; }

/* ---- mspace contract (dlmalloc is third-party; its allocation contract is assumed) ---- */
typedef void *mspace;
int mm_mspace_calls = 0; size_t mm_mspace_lastsz; int mm_mspace_mode = 0;
#ifndef MM_NBLK
#define MM_NBLK 4
#endif
#define MM_MSOVH 64             /* bookkeeping the contract keeps at the front (lower bound) */
struct mm_ms { int used; char *base; size_t cap; size_t cur; };
static struct mm_ms mm_ms[NPE];
struct mm_blk { int used; char *p; size_t sz; };
struct mm_blk mm_blk[MM_NBLK];
int mm_mspace_locked;
int mm_mspace_fail;             /* 1: allocations may fail arbitrarily */
void (*mm_mspace_hook)(void) = 0;
mspace create_mspace_with_base(void *base, size_t cap, int locked)
{
    if (cap <= 128 * sizeof(size_t)) return 0;
    mm_ms[mm_me].used = 1; mm_ms[mm_me].base = base; mm_ms[mm_me].cap = cap; mm_ms[mm_me].cur = MM_MSOVH;
    mm_mspace_locked = locked;
    return base;
}
size_t destroy_mspace(mspace m) { mm_ms[mm_me].used = 0; return mm_ms[mm_me].cap; }
void *mspace_memalign(mspace m, size_t align, size_t sz)
{
    struct mm_ms *ms = &mm_ms[mm_me]; size_t off; int i, s = -1;
    MASSERT(ms->used && (char *) m == ms->base, "allocation from an invalid heap");
    if (mm_mspace_hook) mm_mspace_hook();
    mm_mspace_calls++; mm_mspace_lastsz = sz;
    if (align < 16) align = 16;
    for (i = 0; i < MM_NBLK; i++) if (s < 0 && !mm_blk[i].used) s = i;
    if (s < 0) { VASSERT(0, "BOUND: live heap blocks"); VSTOP(); }
    if (sz > ms->cap - MM_MSOVH) return 0;
    if (mm_mspace_mode == 0) {
        off = (ms->cur + align - 1) & ~(align - 1);
        if (off > ms->cap || sz > ms->cap - off) return 0;
        ms->cur = off + sz;
    } else {
        if (mm_mspace_fail && VIN_BOOL("mspace_fail")) return 0;
        if (mm_mspace_mode == 2) { static const size_t pl[3] = { 64, 512, 800 }; int c = (int) VIN_RANGE("mspace_place", 0, 2); off = c == 0 ? pl[0] : c == 1 ? pl[1] : pl[2]; }
        else off = VIN("mspace_off");
        VASSUME(off >= MM_MSOVH && off <= ms->cap - sz && (off & (align - 1)) == 0);
        for (i = 0; i < MM_NBLK; i++) if (mm_blk[i].used)
            VASSUME(ms->base + off + sz <= mm_blk[i].p || mm_blk[i].p + mm_blk[i].sz <= ms->base + off);
    }
    mm_blk[s].used = 1; mm_blk[s].p = ms->base + off; mm_blk[s].sz = sz;
    return ms->base + off;
}
void *mspace_malloc(mspace m, size_t sz) { return mspace_memalign(m, 16, sz); }
void mspace_free(mspace m, void *p)
{
    int i, f = 0;
    if (mm_mspace_hook) mm_mspace_hook();
    if (!p) return;
    mm_mspace_calls++;
    for (i = 0; i < MM_NBLK; i++) if (!f && mm_blk[i].used && mm_blk[i].p == (char *) p) { mm_blk[i].used = 0; f = 1; }
    MASSERT(f, "freeing memory that is not a live heap block");
}
#ifndef MM_MAXZERO
#define MM_MAXZERO 64
#endif
void *mspace_calloc(mspace m, size_t n, size_t sz)
{
    size_t t = n * sz, i;
    if (n != 0 && t / n != sz) return 0;
    char *p = mspace_memalign(m, 16, t);
    if (p) for (i = 0; i < MM_MAXZERO; i++) { if (i >= t) break; p[i] = 0; }
    return p;
}
void *mspace_realloc(mspace m, void *p, size_t sz)
{
    int i; size_t old = 0, k;
    if (!p) return mspace_malloc(m, sz);
    for (i = 0; i < MM_NBLK; i++) if (mm_blk[i].used && mm_blk[i].p == (char *) p) old = mm_blk[i].sz;
    char *q = mspace_memalign(m, 16, sz);
    if (!q) return 0;
    for (k = 0; k < MM_MAXZERO; k++) { if (k >= old || k >= sz) break; q[k] = ((char *) p)[k]; }
    mspace_free(m, p);
    return q;
}
size_t mspace_usable_size(const void *p) { int i; size_t r = 0; for (i = 0; i < MM_NBLK; i++) if (mm_blk[i].used && mm_blk[i].p == (char *) p) r = mm_blk[i].sz; return r; }

/* ---- aligned allocation: the alignment asked for is remembered (one record is enough) ---- */
static char *mm_al_p[4]; static size_t mm_al_a[4]; static int mm_al_n;
int vh_posix_memalign(void **p, size_t a, size_t n)
{
    VASSERT(a >= sizeof(void *) && (a & (a - 1)) == 0, "alignment is a power of two");
    *p = malloc(n);
    if (mm_al_n < 4) { mm_al_p[mm_al_n] = *p; mm_al_a[mm_al_n] = a; mm_al_n++; }
    return 0;
}
/* is p, which lies in the block starting at base, a multiple of a on every allocator? */
int mm_is_aligned(const char *base, const char *p, size_t a)
{
    size_t ba = 16; int i;
    for (i = 0; i < 4; i++) if (i < mm_al_n && mm_al_p[i] == base) ba = mm_al_a[i];
    return a <= ba && ((size_t) (p - base)) % a == 0;
}
/* is p the start of a live block of the symmetric heap? */
int mm_is_live(const void *p) { int i, f = 0; for (i = 0; i < MM_NBLK; i++) if (mm_blk[i].used && mm_blk[i].p == (const char *) p) f = 1; return f; }

/* ---- threads: mutexes with owners; another thread may run whenever the running one takes a step others can see ---- */
#include <pthread.h>
#ifndef MM_NMTX
#define MM_NMTX 16
#endif
int mm_thread, mm_held[2], mm_preempts; void (*mm_other_thread)(void);
static pthread_mutex_t *mm_mtx[MM_NMTX]; static int mm_mtx_own[MM_NMTX]; static int mm_mtx_n;
static int mm_mtx_find(pthread_mutex_t *m)
{
    int i, f = -1;
    for (i = 0; i < MM_NMTX; i++) if (i < mm_mtx_n && mm_mtx[i] == m) f = i;
    return f;
}
int mm_excl;
void mm_yield(void)
{
    int h;
    if (mm_other_thread && mm_thread == 0 && !mm_preempts && VIN_BOOL("other thread runs here")) {
        mm_preempts = 1; mm_thread = 1;
        h = mm_held[0];
        mm_other_thread();
        VASSERT(!(mm_excl && h > 0), "a thread is kept out of a structure another thread is working on");
        VASSERT(mm_held[1] == 0, "every lock is released when a call returns");
        mm_thread = 0;
    }
}
int vh_mutex_init(pthread_mutex_t *m, const void *a)
{
    MASSERT(mm_mtx_find(m) < 0, "mutex initialised twice");
    if (mm_mtx_n >= MM_NMTX) { VASSERT(0, "BOUND: mutexes"); VSTOP(); }
    mm_mtx[mm_mtx_n] = m; mm_mtx_own[mm_mtx_n] = -1; mm_mtx_n++;
    return 0;
}
int vh_mutex_destroy(pthread_mutex_t *m)
{
    int i = mm_mtx_find(m);
    MASSERT(i >= 0, "destroying a mutex that was not initialised");
    if (i < 0) return 1;
    MASSERT(mm_mtx_own[i] < 0, "destroying a mutex that is held");
    mm_mtx[i] = 0;
    return 0;
}
int vh_mutex_lock(pthread_mutex_t *m)
{
    int i;
    mm_yield();
    i = mm_mtx_find(m);
    VASSERT(i >= 0, "mutex is initialised before use");
    if (i < 0) VSTOP();
    VASSERT(mm_mtx_own[i] != mm_thread, "no thread waits for a lock it holds");
    if (mm_mtx_own[i] >= 0) VSTOP();    /* the other thread holds it: this thread cannot run here */
    mm_mtx_own[i] = mm_thread; mm_held[mm_thread]++;
    mm_yield();
    return 0;
}
int vh_mutex_unlock(pthread_mutex_t *m)
{
    int i = mm_mtx_find(m);
    VASSERT(i >= 0 && mm_mtx_own[i] == mm_thread, "only the holder releases a lock");
    if (i < 0) VSTOP();
    mm_mtx_own[i] = -1; mm_held[mm_thread]--;
    mm_yield();
    return 0;
}
