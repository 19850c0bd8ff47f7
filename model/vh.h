/* Harness interface: symbolic inputs, assertions, PE switching.
 * Built by goto-cc (solver run) and by gcc -DVH_NATIVE (replay of a counterexample). */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stddef.h>

#ifdef VH_NATIVE
uint64_t vh_next(const char *name);
void vh_fail(const char *msg, const char *file, int line);
void vh_assume_fail(const char *file, int line);
#define VIN(name) vh_next(name)
#define VASSERT(c, msg) do { if (!(c)) vh_fail(msg, __FILE__, __LINE__); } while (0)
#define VASSUME(c) do { if (!(c)) vh_assume_fail(__FILE__, __LINE__); } while (0)
#define VWITNESS(n) do { } while (0)
#define VSTOP() vh_assume_fail(__FILE__, __LINE__)
#else
uint64_t nondet_vh_u64(void);
#define VIN(name) ({ uint64_t vh_t_ = nondet_vh_u64(); __CPROVER_input(name, vh_t_); vh_t_; })
#define VASSERT(c, msg) __CPROVER_assert((c), "PROP " msg)
#define VASSUME(c) __CPROVER_assume(c)
#define VWITNESS(n) __CPROVER_assert(0, "WITNESS " n)
#define VSTOP() __CPROVER_assume(0)
#endif

/* model rules (misuse of MPI by the library) are property violations too */
#define MASSERT(c, msg) VASSERT(c, "mpi-rule: " msg)

#define VIN_RANGE(name, lo, hi) ({ uint64_t vh_r_ = VIN(name); VASSUME(vh_r_ >= (uint64_t)(lo) && vh_r_ <= (uint64_t)(hi)); vh_r_; })
#define VIN_BOOL(name) ((int) (VIN(name) & 1))

#ifndef NPE
#define NPE 2
#endif

#include "mpi.h"

/* ---- limits of the model (bounds; exceeding one is an assertion failure) ---- */
#ifndef MM_NWIN
#define MM_NWIN 8
#endif
#ifndef MM_NCOMM
#define MM_NCOMM 12
#endif
#ifndef MM_NTYPE
#define MM_NTYPE 8
#endif
#ifndef MM_NREQ
#define MM_NREQ 12
#endif
#ifndef MM_NMSG
#define MM_NMSG 6
#endif
#ifndef MM_MSGSZ
#define MM_MSGSZ 80
#endif
#ifndef MM_MAXB              /* max bytes moved by one RMA/collective call */
#define MM_MAXB 32
#endif
#ifndef MM_SHADOW            /* bytes of model memory of a PE that does not itself run */
#define MM_SHADOW 64
#endif
#ifndef MM_DATASZ
#define MM_DATASZ 64
#endif
#ifndef MM_HEAPSZ
#define MM_HEAPSZ 1216
#endif
#ifndef MM_PAGE
#define MM_PAGE 64
#endif

extern int mm_me;                         /* PE now running */
extern int mm_npes;
extern int mm_abort_ok;                   /* MPI_Abort is an allowed outcome */
extern int mm_aborted;
extern int mm_thread_provided;            /* level the MPI library grants */
extern int mm_mpi_inited, mm_mpi_finalized;
extern int mm_n_init, mm_n_finalize;
extern void (*mm_init_hook)(void);          /* runs inside MPI_Init_thread, after the environment was read */
/* all modelled memory is one array: the heaps, the data segments, and the passive copies of
 * other windows on PEs that do not run */
#define MM_MEMSZ (NPE * (MM_HEAPSZ + MM_DATASZ + MM_NWIN * MM_SHADOW))
extern unsigned char mm_memb[MM_MEMSZ];
#define MM_HEAP(pe) (mm_memb + (pe) * MM_HEAPSZ)
#ifdef MM_SEPDATA                         /* data segments in an array of their own */
extern unsigned char mm_datab[NPE * MM_DATASZ];
#define MM_DATA(pe) (mm_datab + (pe) * MM_DATASZ)
#else
#define MM_DATA(pe) (mm_memb + NPE * MM_HEAPSZ + (pe) * MM_DATASZ)
#endif
#define MM_SHADOWP(i, pe) (mm_memb + NPE * (MM_HEAPSZ + MM_DATASZ) + ((i) * NPE + (pe)) * MM_SHADOW)
extern long mm_data_size;
extern int mm_tag_ub;

struct mm_win {
    int used; int kind;                   /* 1 create, 2 allocate, 3 dynamic */
    MPI_Comm comm; int locked;
    char *base[NPE]; MPI_Aint size[NPE];
    int pend_l[NPE], pend_r[NPE];         /* operations of PE 0..: not locally / remotely complete */
    char *abase[4]; MPI_Aint asize[4]; int nattach;   /* dynamic attachments of the running PE */
};
extern struct mm_win mm_win[MM_NWIN];
struct mm_comm { int used; int n; int world[NPE]; int parent; };
extern struct mm_comm mm_commt[NPE][MM_NCOMM];
int mm_is_aligned(const char *base, const char *p, size_t a);
int mm_is_live(const void *p);
extern int mm_excl, mm_thread, mm_held[2], mm_preempts; extern void (*mm_other_thread)(void); void mm_yield(void);
extern int mm_mspace_fail, mm_mspace_mode; extern void (*mm_mspace_hook)(void);
int mm_comm_size(MPI_Comm c);
int mm_comm_member(MPI_Comm c, int k);
int mm_comm_get_seq(int pe);
void mm_comm_set_seq(int pe, int s);
void mm_combine(void *d, const void *s, MPI_Datatype dt, MPI_Op op);
extern void (*mm_allgather_peer)(int peer, void *slot, long nb);
extern int mm_node_of[NPE];

/* ghost log of the last RMA operation, for descriptor-level checks */
struct mm_op { int kind; MPI_Win win; int pe; MPI_Aint disp; const char *origin; int ocnt; MPI_Datatype odt; int tcnt; MPI_Datatype tdt; MPI_Op op; };
#define MM_NLOG 8
extern struct mm_op mm_log[MM_NLOG];
extern int mm_nlog;                       /* number of RMA calls */
enum { MM_PUT = 1, MM_GET, MM_ACC, MM_FOP, MM_CAS, MM_GACC };

extern char *mm_elem_at;                   /* if set, every RMA call must address this place, and acts on mm_elem instead */
extern uint64_t mm_elem;
#ifndef MM_RPLOG
#define MM_RPLOG 4
#endif
#ifndef MM_RPW
#define MM_RPW 2
#endif
struct mm_rp { int n, poll, pe; MPI_Aint disp; uint32_t res[MM_RPLOG]; int acc, accpe; MPI_Aint accdisp; MPI_Op accop; uint32_t accv; };
extern int mm_rp_on; extern struct mm_rp mm_rp[NPE]; extern uint32_t *mm_rp_mem[NPE], mm_rp_w[NPE][MM_RPW]; extern MPI_Win mm_rp_win;
void mm_rp_begin(int enable); int mm_rp_end(void);   /* one atomic of a call; mm_rp_end: the call is complete */
extern void (*mm_atomic_hook)(void);        /* runs before each MPI atomic takes effect */
extern void (*mm_fop_hook)(void);           /* runs before each fetching MPI atomic takes effect */
extern int mm_nolog;                      /* with mm_no_data: keep no log either */
extern int mm_op_tag;                    /* marks the operations now issued */
extern int mm_no_data;                    /* descriptor mode: log RMA calls, move no data */
int mm_pending_remote(int win, int pe);
int mm_pending_any_remote(void);
int mm_pending_any_local(void);
char *mm_target(MPI_Win w, int pe, MPI_Aint disp, size_t bytes);

/* descriptor mode also logs messages, and lets fetches deliver mm_nd_val */
struct mm_slog { int recv, peer, tag, comm, cnt; MPI_Datatype dt; long len; const char *buf; unsigned char pkt[MM_MSGSZ] __attribute__((aligned(8))); };
#define MM_NSLOG 6
extern struct mm_slog mm_slog[MM_NSLOG];
extern int mm_nslog;
extern unsigned char mm_nd_val[16], mm_nd_put[16];
extern int mm_ctxwin;
int mm_last_win(void);
#define MM_WIN_ID(i) (0x21000000 + (i))

/* collectives */
enum { MMC_BARRIER = 1, MMC_BCAST, MMC_ALLGATHER, MMC_ALLGATHERV, MMC_ALLTOALL, MMC_ALLREDUCE, MMC_SPLIT };
#define MM_NCOLL 8
#ifndef MM_COLLSZ
#define MM_COLLSZ 64
#endif
struct mm_collrec {
    int kind; MPI_Comm comm; int root; int scnt; MPI_Datatype sdt; int rcnt; MPI_Datatype rdt; MPI_Op op; int inplace;
    int color, key; const void *sbuf; void *rbuf;
    long slen, small; int issmall;
};
extern struct mm_collrec mm_coll[NPE][MM_NCOLL];
extern int mm_coll_n[NPE];
extern int mm_coll_pass;                  /* -1: single-PE view (peers mirror the caller) */
extern int mm_coll_final;
extern int mm_ncoll_kind[16];
extern void (*mm_coll_hook)(int kind, MPI_Comm comm);

/* messages */
struct mm_msg { int used, src, dst, comm, tag; int len, ispkt; unsigned char data[MM_MSGSZ]; };
extern struct mm_msg mm_msg[MM_NMSG];
extern int mm_nmsg;
extern int mm_run_peers;                  /* let peers poll when the caller waits */
int mm_msgs_to(int dst);
extern int mm_forbid_send;                /* run limited to the direct transport: no messages */

/* leak accounting (objects of the running PE) */
extern int mm_live_win, mm_live_comm, mm_live_group, mm_live_type, mm_live_info, mm_live_req;

/* environment */
#define VH_NENV 4
extern const char *vh_env_name[VH_NENV];
extern char *vh_env_val[VH_NENV];
void vh_setenv(int slot, const char *name, char *val);

/* mspace stub */
extern int mm_mspace_calls;
extern size_t mm_mspace_lastsz;
extern int mm_mspace_mode;                /* 0: bump allocation, 1: arbitrary placement */

/* info hints recorded */
extern char mm_info_acc[64], mm_info_which[96];

/* descriptor mode: what the target of each PE's messages still has to apply (vh_lib.c) */
extern int vh_am_out[NPE], vh_am_pairs;
void vh_am_sent(int dst, const void *b, int ispkt, int tag, int comm);
void vh_am_recv(int src, int tag, int comm, long len);

/* PE switching (vh_lib.c) */
void vh_switch(int pe);
void vh_init_all(void);                   /* real shmem_init on every PE */
void vh_init_one(void);                   /* real shmem_init on PE mm_me only */
void vh_poll(int pe);                     /* let PE pe make progress in its library */
void vh_prep(void);
void harness(void);
#endif
