/* Executable model of MPI: windows with explicit completion state, derived datatypes,
 * point-to-point queues, collectives by record-and-replay passes, communicators/groups. */
#include <string.h>
#include <stdlib.h>
#include "vh.h"

int mm_me = 0, mm_npes = NPE, mm_abort_ok = 0, mm_aborted = 0;
int mm_thread_provided = MPI_THREAD_MULTIPLE;
int mm_mpi_inited = 0, mm_mpi_finalized = 0, mm_n_init = 0, mm_n_finalize = 0;
unsigned char mm_memb[MM_MEMSZ] __attribute__((aligned(256)));
#ifdef MM_SEPDATA
unsigned char mm_datab[NPE * MM_DATASZ] __attribute__((aligned(256)));
#endif
long mm_data_size = MM_DATASZ;
int mm_tag_ub = 0x7fffffff;
struct mm_win mm_win[MM_NWIN];
static int mm_win_seq[NPE];
struct mm_op mm_log[MM_NLOG];
int mm_nlog = 0;
int mm_no_data = 0;
struct mm_slog mm_slog[MM_NSLOG]; int mm_nslog = 0;
unsigned char mm_nd_val[16], mm_nd_put[16];
int mm_ctxwin = 0;
struct mm_collrec mm_coll[NPE][MM_NCOLL];
int mm_coll_n[NPE];
int mm_coll_pass = -1, mm_coll_final = 0;
int mm_ncoll_kind[16];
void (*mm_coll_hook)(int kind, MPI_Comm comm) = 0;
struct mm_msg mm_msg[MM_NMSG];
int mm_nmsg = 0;
int mm_run_peers = 0;
int mm_live_win, mm_live_comm, mm_live_group, mm_live_type, mm_live_info, mm_live_req;
char mm_info_acc[64], mm_info_which[96];
extern const size_t mm_pktsz;
void vh_pkt_store(int slot, const void *p); void vh_pkt_load(int slot, void *p);  /* typed copies: keep the packet's fields apart */

/* ---------- init ---------- */
void (*mm_init_hook)(void);
int MPI_Init_thread(int *argc, char ***argv, int required, int *provided)
{
    MASSERT(!mm_mpi_inited, "MPI initialised twice");
    mm_n_init++;
    if (mm_init_hook) mm_init_hook();
    *provided = mm_thread_provided;
    return 0;
}
int MPI_Initialized(int *flag) { *flag = mm_mpi_inited; return 0; }
int MPI_Finalized(int *flag) { *flag = mm_mpi_finalized; return 0; }
int MPI_Query_thread(int *p) { *p = mm_thread_provided; return 0; }
int MPI_Finalize(void)
{
    MASSERT(!mm_mpi_finalized, "MPI_Finalize called twice");
    mm_mpi_finalized = 1; mm_n_finalize++;
    return 0;
}
int MPI_Abort(MPI_Comm c, int code)
{
    mm_aborted = 1;
    VASSERT(mm_abort_ok, "library aborts the program");
    VSTOP();
    return 0;
}

/* ---------- datatypes ---------- */
struct mm_type { int used, committed; int nblk; long blkbytes, stride, extent, size; int basicsz; };
static struct mm_type mm_type[MM_NTYPE];
#define MM_TYPE0 0x0d000000
static int mm_is_basic(MPI_Datatype dt) { return (dt & 0x7fff0000) == 0x4c000000; }
static int mm_tidx(MPI_Datatype dt)
{
    int i = dt - MM_TYPE0;
    MASSERT(i >= 0 && i < MM_NTYPE && mm_type[i].used, "invalid or freed datatype");
    return i;
}
static long mm_dt_size(MPI_Datatype dt)
{
    if (mm_is_basic(dt)) return (dt >> 8) & 0xff;
    return mm_type[mm_tidx(dt)].size;
}
static long mm_dt_extent(MPI_Datatype dt)
{
    if (mm_is_basic(dt)) return (dt >> 8) & 0xff;
    return mm_type[mm_tidx(dt)].extent;
}
static int mm_dt_basicsz(MPI_Datatype dt)
{
    if (mm_is_basic(dt)) return (dt >> 8) & 0xff;
    return mm_type[mm_tidx(dt)].basicsz;
}
static void mm_dt_usable(MPI_Datatype dt)
{
    if (!mm_is_basic(dt)) MASSERT(mm_type[mm_tidx(dt)].committed, "datatype not committed");
}
static MPI_Datatype mm_newtype(void)
{
    int i;
    for (i = 0; i < MM_NTYPE; i++) if (!mm_type[i].used) break;
    if (i >= MM_NTYPE) { VASSERT(0, "BOUND: model datatype table full"); VSTOP(); }
    mm_type[i].used = 1; mm_type[i].committed = 0;
    mm_live_type++;
    return MM_TYPE0 + i;
}
int MPI_Type_create_hvector(int count, int blklen, MPI_Aint stride, MPI_Datatype old, MPI_Datatype *nt)
{
    MASSERT(count >= 0 && blklen >= 0, "negative count in type constructor");
    MASSERT(mm_is_basic(old), "BOUND: nested derived datatypes not modelled");
    MPI_Datatype d = mm_newtype(); struct mm_type *t = &mm_type[d - MM_TYPE0];
    long sz = mm_dt_size(old);
    t->nblk = count; t->blkbytes = blklen * sz; t->stride = stride; t->basicsz = (int) sz;
    t->size = (long) count * blklen * sz;
    t->extent = count > 0 ? (long) (count - 1) * stride + blklen * sz : 0;
    *nt = d; return 0;
}
int MPI_Type_vector(int count, int blklen, int stride, MPI_Datatype old, MPI_Datatype *nt)
{
    return MPI_Type_create_hvector(count, blklen, (MPI_Aint) stride * mm_dt_size(old), old, nt);
}
int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype *nt)
{
    return MPI_Type_create_hvector(count, 1, mm_dt_size(old), old, nt);
}
int MPI_Type_create_resized(MPI_Datatype old, MPI_Aint lb, MPI_Aint extent, MPI_Datatype *nt)
{
    MASSERT(lb == 0, "BOUND: nonzero lower bound not modelled");
    MPI_Datatype d = mm_newtype();
    struct mm_type *t = &mm_type[d - MM_TYPE0];
    if (mm_is_basic(old)) { t->nblk = 1; t->blkbytes = t->stride = t->size = mm_dt_size(old); t->basicsz = (int) t->size; }
    else { struct mm_type *o = &mm_type[mm_tidx(old)]; t->nblk = o->nblk; t->blkbytes = o->blkbytes; t->stride = o->stride; t->size = o->size; t->basicsz = o->basicsz; }
    t->extent = extent;
    *nt = d; return 0;
}
int MPI_Type_commit(MPI_Datatype *dt) { if (!mm_is_basic(*dt)) mm_type[mm_tidx(*dt)].committed = 1; return 0; }
int MPI_Type_free(MPI_Datatype *dt)
{
    MASSERT(!mm_is_basic(*dt), "freeing a predefined datatype");
    mm_type[mm_tidx(*dt)].used = 0; mm_live_type--;
    *dt = MPI_DATATYPE_NULL; return 0;
}
int MPI_Type_size(MPI_Datatype dt, int *s) { *s = (int) mm_dt_size(dt); return 0; }
int MPI_Type_get_extent(MPI_Datatype dt, MPI_Aint *lb, MPI_Aint *e) { *lb = 0; *e = mm_dt_extent(dt); return 0; }

void mm_type_layout(MPI_Datatype dt, int *nblk, long *blkbytes, long *stride)
{
    if (mm_is_basic(dt)) { *nblk = 1; *blkbytes = *stride = mm_dt_size(dt); return; }
    struct mm_type *t = &mm_type[mm_tidx(dt)];
    MASSERT(t->committed, "datatype not committed");
    *nblk = t->nblk; *blkbytes = t->blkbytes; *stride = t->stride;
}
long mm_type_extent(MPI_Datatype dt) { return mm_dt_extent(dt); }
/* byte iterator over `count` elements of a datatype */
struct mm_it { long off, blkoff, elem; long inblk; int blk; int nblk; long blkbytes, stride, extent; int basic; };
static void mm_it_init(struct mm_it *it, MPI_Datatype dt)
{
    it->off = it->blkoff = it->elem = 0; it->inblk = 0; it->blk = 0;
    it->basic = mm_is_basic(dt);
    if (!it->basic) {
        struct mm_type *t = &mm_type[mm_tidx(dt)];
        it->nblk = t->nblk; it->blkbytes = t->blkbytes; it->stride = t->stride; it->extent = t->extent;
    } else { it->nblk = 1; it->blkbytes = it->stride = it->extent = 0; }
}
static void mm_it_next(struct mm_it *it)
{
    if (it->basic) { it->off++; return; }
    it->inblk++; it->off++;
    if (it->inblk == it->blkbytes) {
        it->inblk = 0; it->blk++; it->blkoff += it->stride;
        if (it->blk == it->nblk) { it->blk = 0; it->elem += it->extent; it->blkoff = it->elem; }
        it->off = it->blkoff;
    }
}
static void mm_move(char *d, int dcnt, MPI_Datatype ddt, const char *s, int scnt, MPI_Datatype sdt)
{
    long nb = (long) scnt * mm_dt_size(sdt);
    struct mm_it di, si; int i;
    mm_it_init(&di, ddt); mm_it_init(&si, sdt);
    for (i = 0; i < MM_MAXB; i++) {
        if (i >= nb) break;
        d[di.off] = s[si.off];
        mm_it_next(&di); mm_it_next(&si);
    }
    VASSERT(nb <= MM_MAXB, "BOUND: transfer larger than the model moves");
}
/* contiguous pack / unpack */
static void mm_pack(unsigned char *d, const void *s, int cnt, MPI_Datatype dt, long cap)
{
    long nb = (long) cnt * mm_dt_size(dt); struct mm_it si; int i;
    VASSERT(nb <= cap && nb <= MM_MAXB, "BOUND: message larger than the model moves");
    mm_it_init(&si, dt);
    for (i = 0; i < MM_MAXB; i++) { if (i >= nb) break; d[i] = ((const unsigned char *) s)[si.off]; mm_it_next(&si); }
}
static void mm_unpack(void *d, const unsigned char *s, MPI_Datatype dt, long nb)
{
    struct mm_it di; int i;
    mm_it_init(&di, dt);
    for (i = 0; i < MM_MAXB; i++) { if (i >= nb) break; ((unsigned char *) d)[di.off] = s[i]; mm_it_next(&di); }
}

/* ---------- communicators and groups ---------- */
struct mm_comm mm_commt[NPE][MM_NCOMM];
struct mm_group { int used, n; int world[NPE]; };
static struct mm_group mm_groupt[NPE][MM_NCOMM];
static int mm_comm_seq[NPE];
#define MM_COMM0 0x44000000
#define MM_GROUP0 0x48000000
static void mm_world_init(void)
{
    struct mm_comm *w = &mm_commt[mm_me][0];
    if (!w->used) { int i; w->used = 1; w->n = mm_npes; for (i = 0; i < NPE; i++) w->world[i] = i; mm_comm_seq[mm_me] = 1; }
}
static int mm_cidx(MPI_Comm c)
{
    int i = c - MM_COMM0;
    mm_world_init();
    MASSERT(i >= 0 && i < MM_NCOMM && mm_commt[mm_me][i].used, "invalid or freed communicator");
    return i;
}
static int mm_newcomm(void)
{
    int i = mm_comm_seq[mm_me]++;
    if (i >= MM_NCOMM) { VASSERT(0, "BOUND: model communicator table full"); VSTOP(); }
    mm_commt[mm_me][i].used = 1; mm_live_comm++;
    return i;
}
int mm_comm_get_seq(int pe) { return mm_comm_seq[pe]; }
void mm_comm_set_seq(int pe, int s) { mm_comm_seq[pe] = s; }
int mm_comm_size(MPI_Comm c) { return mm_commt[mm_me][mm_cidx(c)].n; }
int mm_comm_member(MPI_Comm c, int k) { return mm_commt[mm_me][mm_cidx(c)].world[k]; }
static int mm_rank_of(const struct mm_comm *c, int world)
{
    int i, r = MPI_UNDEFINED;
    for (i = 0; i < NPE; i++) if (i < c->n && c->world[i] == world) { r = i; break; }
    return r;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *nc)
{
    int o = mm_cidx(c), i = mm_newcomm(), k;
    mm_commt[mm_me][i].n = mm_commt[mm_me][o].n;
    for (k = 0; k < NPE; k++) mm_commt[mm_me][i].world[k] = mm_commt[mm_me][o].world[k];
    mm_commt[mm_me][i].parent = o;
    *nc = MM_COMM0 + i; return 0;
}
int MPI_Comm_size(MPI_Comm c, int *n) { *n = mm_commt[mm_me][mm_cidx(c)].n; return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = mm_rank_of(&mm_commt[mm_me][mm_cidx(c)], mm_me); return 0; }
int MPI_Comm_free(MPI_Comm *c)
{
    int i = mm_cidx(*c);
    MASSERT(i != 0, "freeing MPI_COMM_WORLD");
    mm_commt[mm_me][i].used = 0; mm_live_comm--; *c = MPI_COMM_NULL; return 0;
}
int MPI_Comm_get_attr(MPI_Comm c, int key, void *val, int *flag)
{
    mm_cidx(c);
    MASSERT(key == MPI_TAG_UB, "BOUND: unknown communicator attribute");
    *(int **) val = &mm_tag_ub; *flag = 1; return 0;
}
static int mm_newgroup(void)
{
    int i;
    for (i = 0; i < MM_NCOMM; i++) if (!mm_groupt[mm_me][i].used) break;
    if (i >= MM_NCOMM) { VASSERT(0, "BOUND: model group table full"); VSTOP(); }
    mm_groupt[mm_me][i].used = 1; mm_live_group++;
    return i;
}
static int mm_gidx(MPI_Group g)
{
    int i = g - MM_GROUP0;
    MASSERT(i >= 0 && i < MM_NCOMM && mm_groupt[mm_me][i].used, "invalid or freed group");
    return i;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g)
{
    int o = mm_cidx(c), i = mm_newgroup(), k;
    mm_groupt[mm_me][i].n = mm_commt[mm_me][o].n;
    for (k = 0; k < NPE; k++) mm_groupt[mm_me][i].world[k] = mm_commt[mm_me][o].world[k];
    *g = MM_GROUP0 + i; return 0;
}
int MPI_Group_incl(MPI_Group g, int n, const int ranks[], MPI_Group *ng)
{
    int o = mm_gidx(g), i = mm_newgroup(), k;
    MASSERT(n >= 0 && n <= mm_groupt[mm_me][o].n, "group size out of range");
    mm_groupt[mm_me][i].n = n;
    for (k = 0; k < NPE; k++) if (k < n) {
        MASSERT(ranks[k] >= 0 && ranks[k] < mm_groupt[mm_me][o].n, "group rank out of range");
        mm_groupt[mm_me][i].world[k] = mm_groupt[mm_me][o].world[ranks[k]];
    }
    *ng = MM_GROUP0 + i; return 0;
}
int MPI_Group_range_incl(MPI_Group g, int n, int r[][3], MPI_Group *ng)
{
    int o = mm_gidx(g), i = mm_newgroup(), k, rk = r[0][0];
    MASSERT(n == 1 && r[0][2] != 0, "BOUND: one range modelled");
    mm_groupt[mm_me][i].n = 0;
    for (k = 0; k < NPE; k++) {
        if (r[0][2] > 0 ? rk > r[0][1] : rk < r[0][1]) break;
        MASSERT(rk >= 0 && rk < mm_groupt[mm_me][o].n, "group rank out of range");
        mm_groupt[mm_me][i].world[k] = mm_groupt[mm_me][o].world[rk];
        mm_groupt[mm_me][i].n = k + 1; rk += r[0][2];
    }
    *ng = MM_GROUP0 + i; return 0;
}
int MPI_Group_translate_ranks(MPI_Group g1, int n, const int r1[], MPI_Group g2, int r2[])
{
    int a = mm_gidx(g1), b = mm_gidx(g2), k, j;
    MASSERT(n <= 1, "BOUND: one rank at a time modelled");
    for (k = 0; k < 1; k++) if (k < n) {
        MASSERT(r1[k] == MPI_PROC_NULL || (r1[k] >= 0 && r1[k] < mm_groupt[mm_me][a].n), "rank not in source group");
        int w = r1[k] == MPI_PROC_NULL ? -1 : mm_groupt[mm_me][a].world[r1[k]], res = MPI_UNDEFINED;
        for (j = 0; j < NPE; j++) if (j < mm_groupt[mm_me][b].n && mm_groupt[mm_me][b].world[j] == w) res = j;
        r2[k] = r1[k] == MPI_PROC_NULL ? MPI_PROC_NULL : res;
    }
    return 0;
}
int MPI_Group_size(MPI_Group g, int *n) { *n = mm_groupt[mm_me][mm_gidx(g)].n; return 0; }
int MPI_Group_rank(MPI_Group g, int *r)
{
    int i = mm_gidx(g), k; *r = MPI_UNDEFINED;
    for (k = 0; k < NPE; k++) if (k < mm_groupt[mm_me][i].n && mm_groupt[mm_me][i].world[k] == mm_me) *r = k;
    return 0;
}
int MPI_Group_free(MPI_Group *g) { mm_groupt[mm_me][mm_gidx(*g)].used = 0; mm_live_group--; *g = MPI_GROUP_NULL; return 0; }

/* ---------- info ---------- */
static int mm_info_open;
int MPI_Info_create(MPI_Info *i) { mm_info_open++; mm_live_info++; mm_info_acc[0] = 0; mm_info_which[0] = 0; *i = 0x1d000000; return 0; }
int MPI_Info_set(MPI_Info i, const char *key, const char *val)
{
    MASSERT(i != MPI_INFO_NULL && mm_info_open > 0, "invalid info object");
    int k;
#ifdef MM_RECORD_INFO
    if (!strcmp(key, "accumulate_ops"))
        for (k = 0; k < 63; k++) { mm_info_acc[k] = val[k]; if (!val[k]) break; }
    else if (!strcmp(key, "which_accumulate_ops"))
        for (k = 0; k < 95; k++) { mm_info_which[k] = val[k]; if (!val[k]) break; }
#endif
    return 0;
}
int MPI_Info_free(MPI_Info *i) { MASSERT(*i != MPI_INFO_NULL && mm_info_open > 0, "info freed twice"); mm_info_open--; mm_live_info--; *i = MPI_INFO_NULL; return 0; }

/* ---------- windows ---------- */
#define MM_WIN0 0x21000000

static int mm_widx(MPI_Win w)
{
    int i = w - MM_WIN0, u = 0, k;
    for (k = 0; k < MM_NWIN; k++) if (k == i) u = mm_win[k].used;
    MASSERT(u, "invalid, null or freed window");
    if (!u) VSTOP();
    return i;
}
int mm_last_win(void) { int k, r = -1; for (k = 0; k < MM_NWIN; k++) if (mm_win[k].used) r = k; return r; }
static void mm_nd_copy(unsigned char *d, const unsigned char *s, long sz)
{
    switch (sz) { case 1: memcpy(d, s, 1); break; case 2: memcpy(d, s, 2); break; case 4: memcpy(d, s, 4); break; case 8: memcpy(d, s, 8); break; case 16: memcpy(d, s, 16); break; }
}
int mm_nolog = 0;
static void mm_slog_add(int recv, int peer, int tag, int comm, const void *buf, int cnt, MPI_Datatype dt)
{
    if (mm_nolog) return;
    if (mm_nslog < MM_NSLOG) {
        struct mm_slog *s = &mm_slog[mm_nslog];
        s->recv = recv; s->peer = peer; s->tag = tag; s->comm = comm; s->cnt = cnt; s->dt = dt; s->buf = buf; s->len = (long) cnt * mm_dt_size(dt);
        if (!recv && dt == MPI_BYTE && s->len == (long) mm_pktsz) memcpy(s->pkt, buf, mm_pktsz);
        else if (cnt > 0 && mm_is_basic(dt)) { if (recv) mm_nd_copy((unsigned char *) buf, mm_nd_val, mm_dt_size(dt)); else mm_nd_copy(mm_nd_put, buf, mm_dt_size(dt)); }
    }
    mm_nslog++;
}
static int mm_newwin(int kind, MPI_Comm comm, char *base, MPI_Aint size)
{
    int i = mm_win_seq[mm_me]++, k;
    mm_cidx(comm);
    if (i >= MM_NWIN) { VASSERT(0, "BOUND: model window table full"); VSTOP(); }
    struct mm_win *w = &mm_win[i];
    if (!w->used) {
        w->used = 1; w->kind = kind; w->locked = 0; w->comm = comm;
        for (k = 0; k < NPE; k++) { w->pend_l[k] = w->pend_r[k] = 0; w->base[k] = (char *) MM_SHADOWP(i, k); w->size[k] = size; }
    }
    /* windows over the same memory of this PE expose the same memory of its peers */
    if (kind == 1) for (k = 0; k < MM_NWIN; k++) if (k < i && mm_win[k].used && mm_win[k].kind == 1 && mm_win[k].base[mm_me] == base) {
        int p; for (p = 0; p < NPE; p++) if (p != mm_me) w->base[p] = mm_win[k].base[p];
    }
    w->base[mm_me] = base; w->size[mm_me] = size;
    mm_live_win++;
    return i;
}
int MPI_Win_create(void *base, MPI_Aint size, int du, MPI_Info info, MPI_Comm comm, MPI_Win *win)
{
    MASSERT(du == 1, "BOUND: displacement unit 1 modelled");
    MASSERT(size >= 0, "negative window size");
    *win = MM_WIN0 + mm_newwin(1, comm, base, size); return 0;
}
int MPI_Win_allocate(MPI_Aint size, int du, MPI_Info info, MPI_Comm comm, void *basep, MPI_Win *win)
{
    MASSERT(du == 1, "BOUND: displacement unit 1 modelled");
    if (!(size >= 0 && size <= MM_HEAPSZ)) { VASSERT(0, "BOUND: heap larger than modelled"); VSTOP(); }
    char *b = (char *) MM_HEAP(mm_me);
    int i = mm_newwin(2, comm, b, size), k;
    for (k = 0; k < NPE; k++) mm_win[i].base[k] = (char *) MM_HEAP(k);
    *(void **) basep = b; *win = MM_WIN0 + i; return 0;
}
int MPI_Win_create_dynamic(MPI_Info info, MPI_Comm comm, MPI_Win *win)
{
    *win = MM_WIN0 + mm_newwin(3, comm, 0, 0); return 0;
}
int MPI_Win_attach(MPI_Win win, void *base, MPI_Aint size)
{
    struct mm_win *w = &mm_win[mm_widx(win)];
    MASSERT(w->kind == 3, "attach to a non-dynamic window");
    if (w->nattach >= 4) { VASSERT(0, "BOUND: attachments"); VSTOP(); }
    w->abase[w->nattach] = base; w->asize[w->nattach] = size; w->nattach++;
    return 0;
}
int MPI_Win_detach(MPI_Win win, const void *base)
{
    struct mm_win *w = &mm_win[mm_widx(win)]; int k, f = 0;
    for (k = 0; k < 4; k++) if (k < w->nattach && w->abase[k] == base) { w->abase[k] = 0; w->asize[k] = 0; f = 1; break; }
    MASSERT(f, "detaching memory that is not attached");
    return 0;
}
int MPI_Win_free(MPI_Win *win)
{
    int i = mm_widx(*win), k;
    MASSERT(!mm_win[i].locked, "window freed inside an access epoch");
    mm_win[i].used = 0; mm_live_win--; *win = MPI_WIN_NULL; return 0;
}
/* handles and ranks may be symbolic: tables are updated entry by entry */
#define MM_WFOR(i) for (int wi_ = 0; wi_ < MM_NWIN; wi_++) if (wi_ == (i))
#define MM_PFOR(pe) for (int pi_ = 0; pi_ < NPE; pi_++) if (pi_ == (pe) || (pe) < 0)
static int mm_wlocked(int i) { int r = 0; MM_WFOR(i) r = mm_win[wi_].locked; return r; }
int mm_op_tag = 1;
static void mm_wpend(int i, int pe, int l, int r)   /* -1: leave */
{
    MM_WFOR(i) MM_PFOR(pe) { if (l >= 0) mm_win[wi_].pend_l[pi_] = l ? mm_win[wi_].pend_l[pi_] | mm_op_tag : 0; if (r >= 0) mm_win[wi_].pend_r[pi_] = r ? mm_win[wi_].pend_r[pi_] | mm_op_tag : 0; }
}
int MPI_Win_lock_all(int a, MPI_Win win)
{
    int i = mm_widx(win);
    MM_WFOR(i) mm_win[wi_].locked = 1;
    return 0;
}
int MPI_Win_unlock_all(MPI_Win win)
{
    int i = mm_widx(win);
    MASSERT(mm_wlocked(i), "unlock without lock");
    MM_WFOR(i) mm_win[wi_].locked = 0;
    mm_wpend(i, -1, 0, 0);
    return 0;
}
static void rp_flush(int pe, int remote);
int MPI_Win_flush(int pe, MPI_Win win)
{
    if (mm_rp_on) { rp_flush(pe, 1); return 0; }
    int i = mm_widx(win);
    MASSERT(mm_wlocked(i), "flush outside an access epoch");
    MASSERT(pe >= 0 && pe < mm_npes, "flush target out of range");
    mm_wpend(i, pe, 0, 0);
    return 0;
}
int MPI_Win_flush_all(MPI_Win win)
{
    if (mm_rp_on) { rp_flush(-1, 1); return 0; }
    int i = mm_widx(win);
    MASSERT(mm_wlocked(i), "flush outside an access epoch");
    mm_wpend(i, -1, 0, 0);
    return 0;
}
int MPI_Win_flush_local(int pe, MPI_Win win)
{
    if (mm_rp_on) { rp_flush(pe, 0); return 0; }
    int i = mm_widx(win);
    MASSERT(mm_wlocked(i), "flush outside an access epoch");
    MASSERT(pe >= 0 && pe < mm_npes, "flush target out of range");
    mm_wpend(i, pe, 0, -1);
    return 0;
}
int MPI_Win_flush_local_all(MPI_Win win)
{
    if (mm_rp_on) { rp_flush(-1, 0); return 0; }
    int i = mm_widx(win);
    MASSERT(mm_wlocked(i), "flush outside an access epoch");
    mm_wpend(i, -1, 0, -1);
    return 0;
}
int MPI_Win_sync(MPI_Win win) { mm_widx(win); return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint) p; return 0; }
MPI_Aint MPI_Aint_diff(MPI_Aint a, MPI_Aint b) { return a - b; }
MPI_Aint MPI_Aint_add(MPI_Aint a, MPI_Aint b) { return a + b; }
int mm_pending_remote(int i, int pe) { return mm_win[i].pend_r[pe]; }
int mm_pending_any_remote(void)
{
    int i, k, r = 0;
    for (i = 0; i < MM_NWIN; i++) for (k = 0; k < NPE; k++) if (mm_win[i].used && mm_win[i].pend_r[k]) r = 1;
    return r;
}
int mm_pending_any_local(void)
{
    int i, k, r = 0;
    for (i = 0; i < MM_NWIN; i++) for (k = 0; k < NPE; k++) if (mm_win[i].used && mm_win[i].pend_l[k]) r = 1;
    return r;
}
char *mm_target(MPI_Win win, int pe, MPI_Aint disp, size_t bytes)
{
    struct mm_win *w = &mm_win[mm_widx(win)];
    return w->base[pe] + disp;
}
static long mm_span(int cnt, MPI_Datatype dt)
{
    if (cnt <= 0 || mm_dt_size(dt) == 0) return 0;
    if (mm_is_basic(dt)) return (long) cnt * mm_dt_size(dt);
    struct mm_type *t = &mm_type[mm_tidx(dt)];
    return (long) (cnt - 1) * t->extent + (long) (t->nblk - 1) * t->stride + t->blkbytes;
}
char *mm_elem_at = 0; uint64_t mm_elem;
static char *mm_rma(int kind, const void *origin, int ocnt, MPI_Datatype odt, int pe, MPI_Aint disp, int tcnt, MPI_Datatype tdt, MPI_Op op, MPI_Win win)
{
    int i = mm_widx(win); char *base = 0; MPI_Aint size = 0;
    MASSERT(mm_wlocked(i), "RMA outside an access epoch");
    MASSERT(pe >= 0 && pe < mm_npes, "RMA target rank out of range");
    MASSERT(ocnt >= 0 && tcnt >= 0, "negative count in RMA call");
    mm_dt_usable(odt); mm_dt_usable(tdt);
    if (mm_nolog) return 0;
    if (mm_nlog < MM_NLOG) {
        struct mm_op *l = &mm_log[mm_nlog];
        l->kind = kind; l->win = win; l->pe = pe; l->disp = disp; l->origin = origin; l->ocnt = ocnt; l->odt = odt; l->tcnt = tcnt; l->tdt = tdt; l->op = op;
    }
    mm_nlog++;
    if (mm_no_data) {
        if (mm_is_basic(odt)) { if (kind == MM_GET) mm_nd_copy((unsigned char *) origin, mm_nd_val, mm_dt_size(odt)); else if (kind == MM_PUT) mm_nd_copy(mm_nd_put, origin, mm_dt_size(odt)); }
        return 0;
    }
    MASSERT((long) ocnt * mm_dt_size(odt) == (long) tcnt * mm_dt_size(tdt), "origin and target sizes differ");
    if ((long) tcnt * mm_dt_size(tdt) == 0) return 0;
    MM_WFOR(i) MM_PFOR(pe) { base = mm_win[wi_].base[pi_]; size = mm_win[wi_].size[pi_]; }
    { int ok = disp >= 0 && disp <= size && mm_span(tcnt, tdt) <= size - disp;
      MASSERT(ok, "RMA access outside the window");
      if (!ok) VSTOP(); }
    if (mm_elem_at) { VASSERT(base + disp == mm_elem_at, "the operation addresses the intended place"); return (char *) &mm_elem; }
    return base + disp;
}
int MPI_Put(const void *o, int oc, MPI_Datatype od, int pe, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Win win)
{
    char *t = mm_rma(MM_PUT, o, oc, od, pe, disp, tc, td, MPI_REPLACE, win);
    mm_wpend(win - MM_WIN0, pe, 1, 1);
    if (t) mm_move(t, tc, td, o, oc, od);
    return 0;
}
int MPI_Get(void *o, int oc, MPI_Datatype od, int pe, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Win win)
{
    char *t = mm_rma(MM_GET, o, oc, od, pe, disp, tc, td, MPI_NO_OP, win);
    mm_wpend(win - MM_WIN0, pe, 1, -1);
    if (t) mm_move(o, oc, od, t, tc, td);
    return 0;
}
/* elementwise combination, one element */
#define MM_INT(T, mn, mx) { T a, b; memcpy(&a, d, sizeof(T)); memcpy(&b, s, sizeof(T)); \
    switch (op) { case MPI_SUM: a = (T) ((uint64_t) a + (uint64_t) b); break; case MPI_PROD: a = (T) ((uint64_t) a * (uint64_t) b); break; \
      case MPI_BAND: a = a & b; break; case MPI_BOR: a = a | b; break; case MPI_BXOR: a = a ^ b; break; \
      case MPI_LAND: a = a && b; break; case MPI_LOR: a = a || b; break; case MPI_LXOR: a = !a != !b; break; \
      case MPI_MAX: a = a > b ? a : b; break; case MPI_MIN: a = a < b ? a : b; break; \
      case MPI_REPLACE: a = b; break; case MPI_NO_OP: break; default: MASSERT(0, "operator not defined for integer type"); } \
    memcpy(d, &a, sizeof(T)); }
#define MM_FP(T) { T a, b; memcpy(&a, d, sizeof(T)); memcpy(&b, s, sizeof(T)); \
    switch (op) { case MPI_SUM: a = a + b; break; case MPI_PROD: a = a * b; break; \
      case MPI_MAX: a = a > b ? a : b; break; case MPI_MIN: a = a < b ? a : b; break; \
      default: MASSERT(0, "operator not defined for floating type"); } \
    memcpy(d, &a, sizeof(T)); }
void mm_combine(void *d, const void *s, MPI_Datatype dt, MPI_Op op)
{
    if (op == MPI_NO_OP) return;
    if (op == MPI_REPLACE) {
        switch (mm_dt_size(dt)) {
            case 1: memcpy(d, s, 1); return; case 2: memcpy(d, s, 2); return; case 4: memcpy(d, s, 4); return;
            case 8: memcpy(d, s, 8); return; case 16: memcpy(d, s, 16); return; }
    }
    switch (dt) {
        case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: MM_INT(int8_t,,) break;
        case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: MM_INT(uint8_t,,) break;
        case MPI_SHORT: case MPI_INT16_T: MM_INT(int16_t,,) break;
        case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: MM_INT(uint16_t,,) break;
        case MPI_INT: case MPI_INT32_T: MM_INT(int32_t,,) break;
        case MPI_UNSIGNED: case MPI_UINT32_T: MM_INT(uint32_t,,) break;
        case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: case MPI_AINT: MM_INT(int64_t,,) break;
        case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: MM_INT(uint64_t,,) break;
        case MPI_FLOAT: MM_FP(float) break;
        case MPI_DOUBLE: MM_FP(double) break;
        default: MASSERT(0, "operator not defined for this datatype");
    }
}
static void mm_copysz(void *d, const void *s, long sz)
{
    switch (sz) { case 1: memcpy(d, s, 1); break; case 2: memcpy(d, s, 2); break; case 4: memcpy(d, s, 4); break;
                  case 8: memcpy(d, s, 8); break; case 16: memcpy(d, s, 16); break; default: VASSERT(0, "BOUND: element size"); }
}
/* Scheduling points at atomics (lock harness). A call is advanced one atomic at a time by executing it again
 * from the start: the atomics it already performed give their recorded results, the next one takes effect if
 * the running PE is the one scheduled, and from the one after that on the execution is discarded (results of
 * all ones, no effect). The watched memory of every PE is mm_rp_w (32-bit words); it is placed at mm_rp_mem of
 * the PE for direct loads and stores, which count between the last recorded and the first discarded atomic.
 * A fetched result arrives, and an update takes effect, when the operation is flushed. */
void (*mm_atomic_hook)(void);
int mm_rp_on; struct mm_rp mm_rp[NPE]; uint32_t *mm_rp_mem[NPE], mm_rp_w[NPE][MM_RPW]; MPI_Win mm_rp_win;
static int rp_pos, rp_live, rp_dead, rp_enable; static void *rp_dst; static uint32_t rp_dstv; static int rp_dstpe;
static void rp_show(void) { int i; for (i = 0; i < MM_RPW; i++) mm_rp_mem[mm_me][i] = mm_rp_w[mm_me][i]; }
static void rp_take(void) { int i; for (i = 0; i < MM_RPW; i++) mm_rp_w[mm_me][i] = mm_rp_mem[mm_me][i]; }
void mm_rp_begin(int enable)
{
    mm_rp_on = 1; rp_enable = enable; rp_pos = 0; rp_live = 0; rp_dead = 0; rp_dst = 0;
    rp_show();
}
int mm_rp_end(void)
{
    struct mm_rp *q = &mm_rp[mm_me];
    mm_rp_on = 0;
    if (rp_dead || !rp_enable) { rp_show(); return 0; }
    VASSERT(rp_pos >= q->n, "BOUND: the call repeats its recorded atomics");
    rp_take(); q->n = 0; q->poll = 0;
    return 1;
}
static uint32_t rp_access(int pe, MPI_Aint disp, const void *o, const void *cmp, MPI_Op op, MPI_Datatype dt, MPI_Win win, int store, int load)
{
    int i, w, hit = 0; uint32_t v = 0, a = 0, c = 0;
    MASSERT(win == mm_rp_win, "BOUND: the lock lies in the watched window");
    MASSERT(dt == MPI_INT || dt == MPI_UNSIGNED, "BOUND: lock fields have 32 bits");
    if (o) memcpy(&a, o, 4);
    if (cmp) memcpy(&c, cmp, 4);
    for (i = 0; i < NPE; i++) for (w = 0; w < MM_RPW; w++) if (pe == i && disp == 4 * w) {
        uint32_t b = mm_rp_w[i][w];
        v = b; hit = 1;
        if (store) mm_rp_w[i][w] = cmp ? (b == c ? a : b) : op == MPI_REPLACE ? a : op == MPI_BOR ? b | a : op == MPI_BAND ? b & a :
            op == MPI_BXOR ? b ^ a : op == MPI_SUM ? b + a : b;
        MASSERT(!store || cmp || op == MPI_REPLACE || op == MPI_BOR || op == MPI_BAND || op == MPI_BXOR || op == MPI_SUM || op == MPI_NO_OP, "BOUND: operator on a lock");
    }
    MASSERT(hit, "the lock operation addresses a lock word of an existing PE");
    return v;
}
/* whether the atomic takes effect now; otherwise a result is arranged */
static int rp_pre(void *r, int pe)
{
    struct mm_rp *q = &mm_rp[mm_me]; int i; uint32_t v = ~(uint32_t) 0, replay = !rp_live && rp_pos < q->n;
    if (replay) {
        for (i = 0; i < MM_RPLOG; i++) if (i == rp_pos) v = q->res[i];
        rp_pos++;
        if (rp_pos == q->n) rp_show();
    } else if (!rp_live && rp_enable && !rp_dead) return 1;
    else rp_dead = 1;
    rp_dst = r; rp_dstv = v; rp_dstpe = pe;
    return 0;
}
static void rp_post(void *r, uint32_t v, int poll, int pe, MPI_Aint disp)
{
    struct mm_rp *q = &mm_rp[mm_me]; int i;
    if (!(poll && q->poll && q->pe == pe && q->disp == disp)) { q->n++; rp_pos++; }
    VASSERT(q->n <= MM_RPLOG, "BOUND: atomics of one call");
    for (i = 0; i < MM_RPLOG; i++) if (i == q->n - 1) q->res[i] = v;
    q->poll = poll; q->pe = pe; q->disp = disp;
    rp_dst = r; rp_dstv = v; rp_dstpe = pe; rp_live = 1;
    rp_show();
}
static void rp_flush(int pe, int remote)
{
    struct mm_rp *q = &mm_rp[mm_me];
    if (rp_dst && (pe == rp_dstpe || pe < 0)) { memcpy(rp_dst, &rp_dstv, 4); rp_dst = 0; }
    if (remote && q->acc && rp_live && !rp_dead && (pe == q->accpe || pe < 0)) { rp_access(q->accpe, q->accdisp, &q->accv, 0, q->accop, MPI_UNSIGNED, mm_rp_win, 1, 0); q->acc = 0; rp_show(); }
}
int MPI_Accumulate(const void *o, int oc, MPI_Datatype od, int pe, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Op op, MPI_Win win)
{
    if (mm_atomic_hook) mm_atomic_hook();
    if (mm_rp_on) {
        if (!rp_pre(0, pe)) return 0;
        struct mm_rp *q = &mm_rp[mm_me];
        MASSERT(!q->acc, "BOUND: one unflushed update");
        MASSERT(win == mm_rp_win && oc == 1 && (od == MPI_INT || od == MPI_UNSIGNED), "BOUND: lock updates are single 32-bit elements of the watched window");
        rp_take();
        q->acc = 1; q->accpe = pe; q->accdisp = disp; q->accop = op; memcpy(&q->accv, o, 4);
        rp_post(0, 0, 0, pe, disp);
        return 0;
    }
    char *t = mm_rma(MM_ACC, o, oc, od, pe, disp, tc, td, op, win);
    MASSERT(oc == 1 && mm_is_basic(od) && od == td, "BOUND: single-element accumulate modelled");
    mm_wpend(win - MM_WIN0, pe, 1, 1);
    if (t) mm_combine(t, o, od, op);
    return 0;
}
void (*mm_fop_hook)(void);
int MPI_Fetch_and_op(const void *o, void *r, MPI_Datatype dt, int pe, MPI_Aint disp, MPI_Op op, MPI_Win win)
{
    if (mm_fop_hook) mm_fop_hook();
    if (mm_atomic_hook) mm_atomic_hook();
    if (mm_rp_on) {
        if (!rp_pre(r, pe)) return 0;
        rp_take();
        rp_post(r, rp_access(pe, disp, op == MPI_NO_OP ? 0 : o, 0, op, dt, win, op != MPI_NO_OP, 1), op == MPI_NO_OP, pe, disp);
        return 0;
    }
    char *t = mm_rma(MM_FOP, o, 1, dt, pe, disp, 1, dt, op, win);
    mm_wpend(win - MM_WIN0, pe, 1, -1);
    if (t) {
        unsigned char v[16];
        if (op != MPI_NO_OP) mm_copysz(v, o, mm_dt_size(dt));
        mm_copysz(r, t, mm_dt_size(dt));
        mm_combine(t, v, dt, op);
    }
    return 0;
}
int MPI_Get_accumulate(const void *o, int oc, MPI_Datatype od, void *r, int rc, MPI_Datatype rd, int pe, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Op op, MPI_Win win)
{
    MASSERT(oc == 1 && rc == 1 && tc == 1 && od == td && rd == td, "BOUND: single-element get_accumulate modelled");
    return MPI_Fetch_and_op(o, r, od, pe, disp, op, win);
}
int MPI_Compare_and_swap(const void *o, const void *c, void *r, MPI_Datatype dt, int pe, MPI_Aint disp, MPI_Win win)
{
    if (mm_atomic_hook) mm_atomic_hook();
    if (mm_rp_on) {
        if (!rp_pre(r, pe)) return 0;
        rp_take();
        rp_post(r, rp_access(pe, disp, o, c, 0, dt, win, 1, 1), 0, pe, disp);
        return 0;
    }
    char *t = mm_rma(MM_CAS, o, 1, dt, pe, disp, 1, dt, MPI_REPLACE, win);
    mm_wpend(win - MM_WIN0, pe, 1, -1);
    MASSERT(dt != MPI_FLOAT && dt != MPI_DOUBLE && dt != MPI_LONG_DOUBLE, "compare-and-swap on a floating type");
    if (t) {
        unsigned char nv[16]; int eq;
        long sz = mm_dt_size(dt);
        mm_copysz(nv, o, sz);
        switch (sz) {
            case 1: eq = *(uint8_t *) t == *(const uint8_t *) c; break;
            case 2: { uint16_t a, b; memcpy(&a, t, 2); memcpy(&b, c, 2); eq = a == b; break; }
            case 4: { uint32_t a, b; memcpy(&a, t, 4); memcpy(&b, c, 4); eq = a == b; break; }
            default: { uint64_t a, b; memcpy(&a, t, 8); memcpy(&b, c, 8); eq = a == b; break; }
        }
        mm_copysz(r, t, sz);
        if (eq) mm_copysz(t, nv, sz);
    }
    return 0;
}

/* ---------- point to point ---------- */
struct mm_req { int used, kind, src, tag, comm, cnt, ntest, owner; MPI_Datatype dt; void *buf; };
static struct mm_req mm_req[MM_NREQ];
#define MM_REQ0 0x2d000000
#define MM_REQND 0x2dff0000   /* descriptor mode: a request that will complete */
#define MM_REQNV 0x2dff0001   /* the standing receive for requests: none arrives in descriptor mode (waiting for it is for the terminator) */
enum { MMR_DONE = 1, MMR_RECV };
static int mm_newreq(int kind)
{
    int i;
    for (i = 0; i < MM_NREQ; i++) if (!mm_req[i].used) break;
    if (i >= MM_NREQ) { VASSERT(0, "BOUND: model request table full"); VSTOP(); }
    mm_req[i].used = 1; mm_req[i].kind = kind; mm_req[i].ntest = 0; mm_req[i].owner = mm_me; mm_live_req++;
    return i;
}
static int mm_ridx(MPI_Request r)
{
    int i = r - MM_REQ0;
    MASSERT(i >= 0 && i < MM_NREQ && mm_req[i].used, "invalid request");
    return i;
}
int mm_msgs_to(int dst)
{
    int i, n = 0;
    for (i = 0; i < MM_NMSG; i++) if (mm_msg[i].used && mm_msg[i].dst == dst) n++;
    return n;
}
int mm_forbid_send = 0;
static void mm_send(const void *b, int cnt, MPI_Datatype dt, int dst, int tag, MPI_Comm comm)
{
    if (mm_forbid_send) { VASSERT(0, "BOUND: message sent in a run limited to the direct transport"); VSTOP(); }
    int c = mm_cidx(comm);
    MASSERT(dst >= 0 && dst < mm_commt[mm_me][c].n, "send destination out of range");
    MASSERT(tag >= 0 && tag <= mm_tag_ub, "message tag outside the legal range");
    MASSERT(cnt >= 0, "negative message count");
    if (mm_no_data) { vh_am_sent(mm_commt[mm_me][c].world[dst], b, dt == MPI_BYTE && cnt == (int) mm_pktsz, tag, c); mm_slog_add(0, mm_commt[mm_me][c].world[dst], tag, c, b, cnt, dt); return; }
    if (mm_nmsg >= MM_NMSG) { VASSERT(0, "BOUND: model message table full"); VSTOP(); }
    struct mm_msg *m = &mm_msg[mm_nmsg++];
    m->used = 1; m->src = mm_me; m->dst = mm_commt[mm_me][c].world[dst]; m->comm = c; m->tag = tag;
    m->len = (int) (cnt * mm_dt_size(dt));
    m->ispkt = dt == MPI_BYTE && m->len == (int) mm_pktsz;
    if (m->ispkt) vh_pkt_store(mm_nmsg - 1, b);
    else if (m->len) mm_pack(m->data, b, cnt, dt, MM_MSGSZ);
}
int MPI_Isend(const void *b, int cnt, MPI_Datatype dt, int dst, int tag, MPI_Comm comm, MPI_Request *r)
{
    mm_send(b, cnt, dt, dst, tag, comm);
    if (mm_no_data) { mm_live_req++; *r = MM_REQND; return 0; }
    *r = MM_REQ0 + mm_newreq(MMR_DONE);
    return 0;
}
int MPI_Send(const void *b, int cnt, MPI_Datatype dt, int dst, int tag, MPI_Comm comm)
{
    mm_send(b, cnt, dt, dst, tag, comm); return 0;
}
int MPI_Irecv(void *b, int cnt, MPI_Datatype dt, int src, int tag, MPI_Comm comm, MPI_Request *r)
{
    int i, c = mm_cidx(comm);
    MASSERT(tag == MPI_ANY_TAG || (tag >= 0 && tag <= mm_tag_ub), "message tag outside the legal range");
    if (mm_no_data) {
        int w = src == MPI_ANY_SOURCE ? -2 : mm_commt[mm_me][c].world[src];
        vh_am_recv(w, tag, c, (long) cnt * mm_dt_size(dt)); mm_slog_add(1, w, tag, c, b, cnt, dt);
        mm_live_req++; *r = src == MPI_ANY_SOURCE ? MM_REQNV : MM_REQND; return 0;
    }
    i = mm_newreq(MMR_RECV);
    mm_req[i].buf = b; mm_req[i].cnt = cnt; mm_req[i].dt = dt; mm_req[i].comm = c; mm_req[i].tag = tag;
    mm_req[i].src = src == MPI_ANY_SOURCE ? -2 : mm_commt[mm_me][c].world[src];
    *r = MM_REQ0 + i; return 0;
}
MPI_Status mm_status_ignore[4];
static int mm_match(int src, int tag, int comm, void *buf, int cnt, MPI_Datatype dt, MPI_Status *st)
{
    int i, f = -1;
    for (i = 0; i < MM_NMSG; i++)
        if (f < 0 && mm_msg[i].used && mm_msg[i].dst == mm_me && mm_msg[i].comm == comm &&
            (src == -2 || mm_msg[i].src == src) && (tag == MPI_ANY_TAG || mm_msg[i].tag == tag)) f = i;
    if (f < 0) return 0;
    MASSERT(mm_msg[f].len <= (long) cnt * mm_dt_size(dt), "message truncated: receive smaller than send");
    mm_msg[f].used = 0;
    if (mm_msg[f].ispkt) vh_pkt_load(f, buf);
    else if (mm_msg[f].len) mm_unpack(buf, mm_msg[f].data, dt, mm_msg[f].len);
    if (st) { st->MPI_SOURCE = mm_rank_of(&mm_commt[mm_me][comm], mm_msg[f].src); st->MPI_TAG = mm_msg[f].tag; st->mm_len = mm_msg[f].len; }
    return 1;
}
static int mm_in_peer = 0;
static void mm_peers(void)
{
    int k, me = mm_me;
    if (!mm_run_peers || mm_in_peer) return;
    mm_in_peer = 1;
    for (k = 0; k < NPE; k++) if (k < mm_npes && k != me && mm_msgs_to(k)) vh_poll(k);
    mm_in_peer = 0;
}
static int mm_try(int i, MPI_Status *st)
{
    struct mm_req *q = &mm_req[i];
    if (q->kind == MMR_DONE) return 1;
    return mm_match(q->src, q->tag, q->comm, q->buf, q->cnt, q->dt, st);
}
static void mm_stuck(int i)
{
    struct mm_req *q = &mm_req[i];
    if (q->src == -2) return;
    if (q->ntest++ > 3) { MASSERT(0, "blocked forever waiting for a message nobody sends"); VSTOP(); }
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st)
{
    if (*r == MPI_REQUEST_NULL) { *flag = 1; return 0; }
    if (*r == MM_REQNV) { *flag = 0; return 0; }
    if (*r == MM_REQND) { *flag = 1; mm_live_req--; *r = MPI_REQUEST_NULL; return 0; }
    if (mm_no_data) { *flag = 0; return 0; }
    int i = mm_ridx(*r);
    if (mm_try(i, st)) { *flag = 1; mm_req[i].used = 0; mm_live_req--; *r = MPI_REQUEST_NULL; return 0; }
    *flag = 0;
    mm_stuck(i);
    if (mm_req[i].src != -2) mm_peers();
    return 0;
}
int MPI_Wait(MPI_Request *r, MPI_Status *st)
{
    if (*r == MPI_REQUEST_NULL) return 0;
    if (*r == MM_REQND || *r == MM_REQNV) { mm_live_req--; *r = MPI_REQUEST_NULL; return 0; }
    int i = mm_ridx(*r), ok = mm_try(i, st);
    if (!ok) { mm_peers(); ok = mm_try(i, st); }
    MASSERT(ok, "blocked forever waiting for a message nobody sends");
    if (!ok) VSTOP();
    mm_req[i].used = 0; mm_live_req--; *r = MPI_REQUEST_NULL; return 0;
}
#ifndef MM_MAXWAIT
#define MM_MAXWAIT 6
#endif
int MPI_Testall(int n, MPI_Request r[], int *flag, MPI_Status st[])
{
    int k, all = 1, stuck = -1;
    VASSERT(n <= MM_MAXWAIT, "BOUND: waitall size");
    if (mm_no_data) {
        for (k = 0; k < MM_MAXWAIT; k++) if (k < n && r[k] != MPI_REQUEST_NULL) { MASSERT(r[k] == MM_REQND, "invalid request"); mm_live_req--; r[k] = MPI_REQUEST_NULL; }
        *flag = 1; return 0;
    }
    for (k = 0; k < MM_MAXWAIT; k++) if (k < n && r[k] != MPI_REQUEST_NULL) {
        int i = mm_ridx(r[k]);
        if (mm_req[i].kind == MMR_RECV) { if (mm_try(i, MPI_STATUS_IGNORE)) mm_req[i].kind = MMR_DONE; else { all = 0; stuck = i; } }
    }
    if (all) {
        for (k = 0; k < MM_MAXWAIT; k++) if (k < n && r[k] != MPI_REQUEST_NULL) { mm_req[r[k] - MM_REQ0].used = 0; mm_live_req--; r[k] = MPI_REQUEST_NULL; }
        *flag = 1;
    } else { *flag = 0; mm_stuck(stuck); mm_peers(); }
    return 0;
}
int MPI_Waitall(int n, MPI_Request r[], MPI_Status st[])
{
    int k, f = 0;
    for (k = 0; k < 4 && !f; k++) MPI_Testall(n, r, &f, st);
    MASSERT(f, "blocked forever waiting for a message nobody sends");
    if (!f) VSTOP();
    return 0;
}
int MPI_Recv(void *b, int cnt, MPI_Datatype dt, int src, int tag, MPI_Comm comm, MPI_Status *st)
{
    int c = mm_cidx(comm), ok, s = src == MPI_ANY_SOURCE ? -2 : mm_commt[mm_me][c].world[src];
    ok = mm_match(s, tag, c, b, cnt, dt, st);
    if (!ok) { mm_peers(); ok = mm_match(s, tag, c, b, cnt, dt, st); }
    MASSERT(ok, "blocked forever waiting for a message nobody sends");
    if (!ok) VSTOP();
    return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm comm, int *flag, MPI_Status *st) { mm_cidx(comm); *flag = 0; return 0; }

/* ---------- collectives ---------- */
/* contributions, kept flat: CBMC 6.11 misreads byte copies out of nested arrays of structures */
static unsigned char mm_colld[NPE * MM_NCOLL * MM_COLLSZ];
#define MM_CD(pe, i) (mm_colld + ((pe) * MM_NCOLL + (i)) * MM_COLLSZ)
static void mm_snapshot(struct mm_collrec *c, unsigned char *cd, const void *s, int cnt, MPI_Datatype dt, int per)
{
    long nb = (long) cnt * mm_dt_size(dt) * per, i; struct mm_it it; long n1 = (long) cnt * per;
    MASSERT(cnt >= 0, "negative count in collective");
    c->slen = nb;
    c->issmall = n1 == 1 && mm_is_basic(dt) && (nb == 4 || nb == 8) ? (int) nb : 0;     /* kept apart so that constants survive */
    if (c->issmall == 4) c->small = *(const int *) s; else if (c->issmall) c->small = *(const long *) s;
    if (nb > MM_COLLSZ || nb > MM_MAXB * NPE) { VASSERT(0, "BOUND: collective larger than modelled"); VSTOP(); }
    mm_it_init(&it, dt);
    for (i = 0; i < MM_COLLSZ; i++) { if (i >= nb) break; cd[i] = ((const unsigned char *) s)[it.off]; mm_it_next(&it); }
}
static void mm_deposit(void *d, long elemoff, const unsigned char *s, long nb, MPI_Datatype dt)
{
    struct mm_it it; int i;
    mm_it_init(&it, dt);
    char *b = (char *) d + elemoff * mm_dt_extent(dt);
    for (i = 0; i < MM_COLLSZ; i++) { if (i >= nb) break; ((unsigned char *) b)[it.off] = s[i]; mm_it_next(&it); }
}
static int mm_coll_begin(int kind, MPI_Comm comm, struct mm_collrec **out)
{
    int i = mm_coll_n[mm_me]++;
    mm_cidx(comm);
    mm_ncoll_kind[kind]++;
    if (mm_coll_pass < 0) i = 0;
    if (i >= MM_NCOLL) { VASSERT(0, "BOUND: number of collectives"); VSTOP(); }
    if (mm_coll_final) VASSERT(mm_coll_pass > i, "BOUND: more collectives than passes");
    struct mm_collrec *c = &mm_coll[mm_me][i];
    c->kind = kind; c->comm = comm; c->root = 0; c->scnt = c->rcnt = 0; c->op = 0; c->inplace = 0; c->slen = 0;
    *out = c;
    return i;
}
/* in the final pass, every member of the communicator must have issued a matching call */
static void mm_coll_check(int i, const struct mm_comm *c)
{
    int k; struct mm_collrec *m = &mm_coll[mm_me][i];
    if (!mm_coll_final) return;
    for (k = 0; k < NPE; k++) if (k < c->n) {
        struct mm_collrec *o = &mm_coll[c->world[k]][i];
        MASSERT(o->kind == m->kind, "members of the communicator call different collectives");
        MASSERT(o->root == m->root, "members disagree on the root");
        MASSERT(o->op == m->op, "members disagree on the operator");
    }
}
static int mm_ready(int i) { return mm_coll_pass > i; }

int MPI_Barrier(MPI_Comm comm)
{
    struct mm_collrec *c; int i = mm_coll_begin(MMC_BARRIER, comm, &c);
    if (mm_coll_pass >= 0) mm_coll_check(i, &mm_commt[mm_me][mm_cidx(comm)]);
    if (mm_coll_hook) mm_coll_hook(MMC_BARRIER, comm);
    return 0;
}
int MPI_Bcast(void *buf, int cnt, MPI_Datatype dt, int root, MPI_Comm comm)
{
    struct mm_collrec *c; int i = mm_coll_begin(MMC_BCAST, comm, &c);
    struct mm_comm *cm = &mm_commt[mm_me][mm_cidx(comm)];
    MASSERT(root >= 0 && root < cm->n, "broadcast root outside the communicator");
    c->root = root; c->scnt = cnt; c->sdt = dt; c->sbuf = buf;
    if (mm_coll_pass >= 0) {
        mm_snapshot(c, MM_CD(mm_me, i), buf, cnt, dt, 1);
        if (mm_ready(i)) {
            mm_coll_check(i, cm);
            int k;
            for (k = 0; k < NPE; k++) if (k < cm->n && k == root && cm->world[k] != mm_me) {
                struct mm_collrec *o = &mm_coll[cm->world[k]][i];
                MASSERT(o->slen == c->slen, "broadcast lengths differ"); mm_deposit(buf, 0, MM_CD(cm->world[k], i), o->slen, dt);
            }
        }
    }
    if (mm_coll_hook) mm_coll_hook(MMC_BCAST, comm);
    return 0;
}
void (*mm_allgather_peer)(int peer, void *slot, long nb) = 0;
int MPI_Allgather(const void *s, int sc, MPI_Datatype sd, void *r, int rc, MPI_Datatype rd, MPI_Comm comm)
{
    struct mm_collrec *c; int i = mm_coll_begin(MMC_ALLGATHER, comm, &c), k;
    struct mm_comm *cm = &mm_commt[mm_me][mm_cidx(comm)];
    int me = mm_rank_of(cm, mm_me);
    c->rcnt = rc; c->rdt = rd; c->inplace = s == MPI_IN_PLACE; c->sbuf = s; c->rbuf = r;
    if (c->inplace) { sc = rc; sd = rd; s = (char *) r + (long) me * rc * mm_dt_extent(rd); }
    c->scnt = sc; c->sdt = sd;
    if (mm_coll_pass >= 0) {
        mm_snapshot(c, MM_CD(mm_me, i), s, sc, sd, 1);
        if (mm_ready(i)) {
            mm_coll_check(i, cm);
            for (k = 0; k < NPE; k++) if (k < cm->n) {
                struct mm_collrec *o = &mm_coll[cm->world[k]][i];
                MASSERT(o->slen == (long) rc * mm_dt_size(rd), "allgather lengths differ");
                if (o->issmall && rc == 1 && mm_is_basic(rd)) { if (o->issmall == 4) ((int *) r)[k] = (int) o->small; else ((long *) r)[k] = o->small; }
                else mm_deposit(r, (long) k * rc, MM_CD(cm->world[k], i), o->slen, rd);
            }
        }
    } else {
        for (k = 0; k < NPE; k++) if (k < cm->n) {
            char *slot = (char *) r + (long) k * rc * mm_dt_extent(rd);
            if (k == me) { if (c->inplace) ; else if (mm_no_data) mm_nd_copy((unsigned char *) slot, s, (long) rc * mm_dt_size(rd)); else mm_move(slot, rc, rd, s, sc, sd); }
            else { if (mm_no_data) mm_nd_copy((unsigned char *) slot, s, (long) rc * mm_dt_size(rd)); else mm_move(slot, rc, rd, s, sc, sd); if (mm_allgather_peer) mm_allgather_peer(cm->world[k], slot, (long) rc * mm_dt_size(rd)); }
        }
    }
    if (mm_coll_hook) mm_coll_hook(MMC_ALLGATHER, comm);
    return 0;
}
int MPI_Allgatherv(const void *s, int sc, MPI_Datatype sd, void *r, const int rcs[], const int dis[], MPI_Datatype rd, MPI_Comm comm)
{
    struct mm_collrec *c; int i = mm_coll_begin(MMC_ALLGATHERV, comm, &c), k;
    struct mm_comm *cm = &mm_commt[mm_me][mm_cidx(comm)];
    c->scnt = sc; c->sdt = sd; c->sbuf = s; c->rbuf = r;
    if (mm_coll_pass >= 0) {
        mm_snapshot(c, MM_CD(mm_me, i), s, sc, sd, 1);
        if (mm_ready(i)) {
            mm_coll_check(i, cm);
            for (k = 0; k < NPE; k++) if (k < cm->n) {
                struct mm_collrec *o = &mm_coll[cm->world[k]][i];
                MASSERT(o->slen == (long) rcs[k] * mm_dt_size(rd), "allgatherv lengths differ");
                mm_deposit(r, dis[k], MM_CD(cm->world[k], i), o->slen, rd);
            }
        }
    }
    if (mm_coll_hook) mm_coll_hook(MMC_ALLGATHERV, comm);
    return 0;
}
int MPI_Alltoall(const void *s, int sc, MPI_Datatype sd, void *r, int rc, MPI_Datatype rd, MPI_Comm comm)
{
    struct mm_collrec *c; int i = mm_coll_begin(MMC_ALLTOALL, comm, &c), k;
    struct mm_comm *cm = &mm_commt[mm_me][mm_cidx(comm)];
    int me = mm_rank_of(cm, mm_me);
    c->scnt = sc; c->sdt = sd; c->rcnt = rc; c->rdt = rd; c->sbuf = s; c->rbuf = r;
    mm_dt_usable(sd); mm_dt_usable(rd);
    if (mm_coll_pass >= 0) {
        mm_snapshot(c, MM_CD(mm_me, i), s, sc, sd, cm->n);
        if (mm_ready(i)) {
            mm_coll_check(i, cm);
            for (k = 0; k < NPE; k++) if (k < cm->n) {
                struct mm_collrec *o = &mm_coll[cm->world[k]][i];
                long blk = (long) rc * mm_dt_size(rd);
                MASSERT(o->slen == blk * cm->n, "alltoall lengths differ");
                mm_deposit(r, (long) k * rc, MM_CD(cm->world[k], i) + (long) me * blk, blk, rd);
            }
        }
    }
    if (mm_coll_hook) mm_coll_hook(MMC_ALLTOALL, comm);
    return 0;
}
int MPI_Allreduce(const void *s, void *r, int cnt, MPI_Datatype dt, MPI_Op op, MPI_Comm comm)
{
    struct mm_collrec *c; int i = mm_coll_begin(MMC_ALLREDUCE, comm, &c), k, e;
    struct mm_comm *cm = &mm_commt[mm_me][mm_cidx(comm)];
    long sz = mm_dt_size(dt);
    c->inplace = s == MPI_IN_PLACE; c->scnt = cnt; c->sdt = dt; c->op = op; c->sbuf = s; c->rbuf = r;
    MASSERT(s != r, "reduction buffers alias");
    if (c->inplace) s = r;
    if (mm_coll_pass >= 0) {
        mm_snapshot(c, MM_CD(mm_me, i), s, cnt, dt, 1);
        if (mm_ready(i)) {
            mm_coll_check(i, cm);
            for (e = 0; e < MM_COLLSZ; e++) { if (e >= c->slen) break; ((unsigned char *) r)[e] = MM_CD(cm->world[0], i)[e]; }
            for (k = 1; k < NPE; k++) if (k < cm->n) {
                struct mm_collrec *o = &mm_coll[cm->world[k]][i];
                MASSERT(o->slen == c->slen && o->sdt == dt, "reduction lengths or types differ");
                for (e = 0; e < 4; e++) { if (e >= cnt) break; mm_combine((char *) r + e * sz, MM_CD(cm->world[k], i) + e * sz, dt, op); }
            }
            VASSERT(cnt <= 4, "BOUND: reduction count");
        }
    } else {
        if (!c->inplace && !mm_no_data) mm_move(r, cnt, dt, s, cnt, dt);
    }
    if (mm_coll_hook) mm_coll_hook(MMC_ALLREDUCE, comm);
    return 0;
}
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm *nc)
{
    struct mm_collrec *c; int i = mm_coll_begin(MMC_SPLIT, comm, &c), k, j;
    int o = mm_cidx(comm); struct mm_comm *cm = &mm_commt[mm_me][o];
    MASSERT(color >= 0 || color == MPI_UNDEFINED, "negative split color");
    c->color = color; c->key = key;
    if (color == MPI_UNDEFINED) { *nc = MPI_COMM_NULL; mm_comm_seq[mm_me]++; return 0; }
    int id = mm_newcomm(); struct mm_comm *n = &mm_commt[mm_me][id];
    n->n = 0; n->parent = o;
    if (mm_coll_pass < 0 || !mm_ready(i)) {
        n->n = cm->n; for (k = 0; k < NPE; k++) n->world[k] = cm->world[k];
    } else {
        int keys[NPE];
        if (mm_coll_final) for (k = 0; k < NPE; k++) if (k < cm->n) MASSERT(mm_coll[cm->world[k]][i].kind == MMC_SPLIT, "members of the communicator call different collectives");
        for (k = 0; k < NPE; k++) if (k < cm->n) {
            struct mm_collrec *p = &mm_coll[cm->world[k]][i];
            if (p->color == color) {
                int pos = n->n;
                for (j = NPE - 1; j > 0; j--) if (j <= pos && pos > 0 && j == pos && keys[j - 1] > p->key) { keys[j] = keys[j - 1]; n->world[j] = n->world[j - 1]; pos--; }
                keys[pos] = p->key; n->world[pos] = cm->world[k]; n->n++;
            }
        }
    }
    *nc = MM_COMM0 + id; return 0;
}
extern int mm_node_of[NPE];
int mm_node_of[NPE];
int MPI_Comm_split_type(MPI_Comm comm, int type, int key, MPI_Info info, MPI_Comm *nc)
{
    struct mm_collrec *c; int i = mm_coll_begin(MMC_SPLIT, comm, &c), k;
    int o = mm_cidx(comm); struct mm_comm *cm = &mm_commt[mm_me][o];
    int id = mm_newcomm(); struct mm_comm *n = &mm_commt[mm_me][id];
    MASSERT(type == MPI_COMM_TYPE_SHARED, "BOUND: shared split only");
    n->n = 0; n->parent = o;
    for (k = 0; k < NPE; k++) if (k < cm->n && mm_node_of[cm->world[k]] == mm_node_of[mm_me]) n->world[n->n++] = cm->world[k];
    *nc = MM_COMM0 + id; return 0;
}
int MPI_Comm_create_group(MPI_Comm comm, MPI_Group g, int tag, MPI_Comm *nc)
{
    int gi = mm_gidx(g), k, in = 0; mm_cidx(comm);
    struct mm_group *gr = &mm_groupt[mm_me][gi];
    for (k = 0; k < NPE; k++) if (k < gr->n && gr->world[k] == mm_me) in = 1;
    MASSERT(tag >= 0 && tag <= mm_tag_ub, "message tag outside the legal range");
    MASSERT(in, "communicator created by a process outside the group");
    int id = mm_newcomm(); struct mm_comm *n = &mm_commt[mm_me][id];
    n->n = gr->n; for (k = 0; k < NPE; k++) n->world[k] = gr->world[k];
    *nc = MM_COMM0 + id; return 0;
}
int MPI_Comm_create(MPI_Comm comm, MPI_Group g, MPI_Comm *nc) { return MPI_Comm_create_group(comm, g, 0, nc); }
#define MM_I(call) call; if (mm_no_data) { mm_live_req++; *r = MM_REQND; } else *r = MM_REQ0 + mm_newreq(MMR_DONE); return 0
int MPI_Ibarrier(MPI_Comm c, MPI_Request *r) { MM_I(MPI_Barrier(c)); }
int MPI_Ibcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c, MPI_Request *r) { MM_I(MPI_Bcast(b, n, d, root, c)); }
int MPI_Iallgather(const void *s, int sc, MPI_Datatype sd, void *b, int rc, MPI_Datatype rd, MPI_Comm c, MPI_Request *r) { MM_I(MPI_Allgather(s, sc, sd, b, rc, rd, c)); }
int MPI_Iallgatherv(const void *s, int sc, MPI_Datatype sd, void *b, const int rcs[], const int dis[], MPI_Datatype rd, MPI_Comm c, MPI_Request *r) { MM_I(MPI_Allgatherv(s, sc, sd, b, rcs, dis, rd, c)); }
int MPI_Ialltoall(const void *s, int sc, MPI_Datatype sd, void *b, int rc, MPI_Datatype rd, MPI_Comm c, MPI_Request *r) { MM_I(MPI_Alltoall(s, sc, sd, b, rc, rd, c)); }
int MPI_Iallreduce(const void *s, void *b, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c, MPI_Request *r) { MM_I(MPI_Allreduce(s, b, n, d, op, c)); }

/* ---------- tools interface ---------- */
int MPI_T_init_thread(int r, int *p) { *p = 0; return 0; }
int MPI_T_finalize(void) { return 0; }
int MPI_T_cvar_get_index(const char *n, int *i) { return MPI_T_ERR_INVALID_NAME; }
int MPI_T_cvar_handle_alloc(int i, void *o, MPI_T_cvar_handle *h, int *c) { return 0; }
int MPI_T_cvar_handle_free(MPI_T_cvar_handle *h) { return 0; }
int MPI_T_cvar_write(MPI_T_cvar_handle h, const void *b) { return 0; }
int MPI_T_cvar_read(MPI_T_cvar_handle h, void *b) { return 0; }
