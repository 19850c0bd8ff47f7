/* Sequentially consistent atomics: each is one indivisible step; another thread may run before it. */
#ifndef OPA_PRIMITIVES_H
#define OPA_PRIMITIVES_H
void mm_yield(void);
typedef struct { int v; } OPA_int_t;
static inline void OPA_store_int(OPA_int_t *p, int x) { mm_yield(); p->v = x; }
static inline int OPA_load_int(OPA_int_t *p) { mm_yield(); return p->v; }
static inline void OPA_incr_int(OPA_int_t *p) { mm_yield(); p->v = (int) ((unsigned) p->v + 1); }
static inline void OPA_decr_int(OPA_int_t *p) { mm_yield(); p->v = (int) ((unsigned) p->v - 1); }
static inline int OPA_fetch_and_incr_int(OPA_int_t *p) { mm_yield(); int o = p->v; p->v = (int) ((unsigned) o + 1); return o; }
static inline int OPA_cas_int(OPA_int_t *p, int o, int n) { mm_yield(); int w = p->v; if (w == o) p->v = n; return w; }
#endif
