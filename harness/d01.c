/* Strided operations of different kinds one after the other: the layout each hands to MPI depends on
 * its own arguments only. K0 K1 K2: kinds of the three operations; counts and strides are free. */
#include "common.h"
void mm_type_layout(MPI_Datatype dt, int *nblk, long *blkbytes, long *stride);
long mm_type_extent(MPI_Datatype dt);
static long n, ts, ss; static long esz; static int hooked, isput;
/* one side of an operation: `units` blocks of n elements at distance st */
static void side(MPI_Datatype dt, long cnt, long st, int block, const char *unused)
{
    int k; long bb, sd;
    mm_type_layout(dt, &k, &bb, &sd);
    (void) unused;
    VASSERT(cnt * k * bb == n * esz, "the layout has the operation's own number of elements");
    if (n > 1 && st > 1) VASSERT(cnt == 1 && k == n && bb == esz && sd == st * esz, "the layout has the operation's own element size and stride");
    if (n > 1 && st == 1) VASSERT(k == 1 || sd == bb, "a unit stride layout is contiguous");
    if (block) VASSERT(cnt * mm_type_extent(dt) == n * st * esz, "consecutive blocks of a strided exchange follow each other at the documented distance");
}
static void at_coll(int kind, MPI_Comm comm)
{
    struct mm_collrec *r = &mm_coll[mm_me][0];
    (void) comm;
    if (kind != MMC_ALLTOALL) return;
    hooked++;
    side(r->sdt, r->scnt, ss, 1, "s"); side(r->rdt, r->rcnt, ts, 1, "r");
}
static void rma(void)
{
    VASSERT(mm_nlog == 1, "one transfer is issued");
    struct mm_op *l = &mm_log[0];
    VASSERT(l->kind == (isput ? MM_PUT : MM_GET), "transfer in the direction of the routine");
    side(l->odt, l->ocnt, isput ? ss : ts, 0, "o"); side(l->tdt, l->tcnt, isput ? ts : ss, 0, "t");
    mm_nlog = 0;
}
#define H ((void *) (MM_HEAP(0) + 64))
static char loc[256];
static void op(int kind)
{
    n = (long) VIN_RANGE("nelems", 1, 3); ts = (long) VIN_RANGE("tstride", 1, 3); ss = (long) VIN_RANGE("sstride", 1, 3);
    mm_nlog = 0; hooked = 0; isput = 1;
    switch (kind) {
        case 0: esz = 2; shmem_short_iput(H, (short *) loc, ts, ss, n, 1); rma(); break;
        case 1: esz = 4; shmem_int_iput(H, (int *) loc, ts, ss, n, 1); rma(); break;
        case 2: esz = 4; isput = 0; shmem_float_iget((float *) loc, H, ts, ss, n, 1); rma(); break;
        case 3: esz = 8; isput = 0; shmem_double_iget((double *) loc, H, ts, ss, n, 1); rma(); break;
        case 4: esz = 16; shmem_iput128(H, loc, ts, ss, n, 1); rma(); break;
        case 5: esz = 4; shmem_int_alltoalls(SHMEM_TEAM_WORLD, H, (int *) H, ts, ss, n); VASSERT(hooked == 1, "one exchange is run"); break;
        case 6: esz = 2; shmem_short_alltoalls(SHMEM_TEAM_WORLD, H, (short *) H, ts, ss, n); VASSERT(hooked == 1, "one exchange is run"); break;
        case 7: esz = 8; shmem_long_iput(H, (long *) loc, ts, ss, n, 1); rma(); break;
    }
}
void harness(void)
{
    start_one(0);
    mm_no_data = 1; mm_coll_hook = at_coll; mm_forbid_send = 1;
    op(K0); op(K1);
#ifdef K2
    op(K2);
#endif
#ifdef FIN
    mm_coll_hook = 0; mm_forbid_send = 0;
    shmem_finalize();
    VASSERT(mm_live_type == 0, "every layout created is released, once");
#endif
    VWITNESS("all operations ran");
}
