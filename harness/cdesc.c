/* Typed forms of the collectives: what each routine hands to MPI (count, type, operator, buffers,
 * communicator) for any number of elements. OPK as in coll.c; OPK 5: reductions. */
#include "common.h"
#ifndef OPK
#define OPK 0
#endif
#ifndef TOPS
#define TOPS 1
#endif
enum { CI, CU, CF, CC };   /* signed, unsigned, floating, complex */
void mm_type_layout(MPI_Datatype dt, int *nblk, long *blkbytes, long *stride);
long mm_type_extent(MPI_Datatype dt);
static long S[64], D[256];
static void *es, *ed; static size_t en, esz; static long edst, esst; static int ekind, eroot, eop, ecls, esize, ecount, calls, einpl;
static int cls(MPI_Datatype t)
{
    switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_SHORT: case MPI_INT: case MPI_LONG: case MPI_LONG_LONG:
    case MPI_INT8_T: case MPI_INT16_T: case MPI_INT32_T: case MPI_INT64_T: case MPI_AINT: return CI;
    case MPI_UNSIGNED_CHAR: case MPI_UNSIGNED_SHORT: case MPI_UNSIGNED: case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG:
    case MPI_UINT8_T: case MPI_UINT16_T: case MPI_UINT32_T: case MPI_UINT64_T: return CU;
    case MPI_FLOAT: case MPI_DOUBLE: case MPI_LONG_DOUBLE: return CF;
    case MPI_C_FLOAT_COMPLEX: case MPI_C_DOUBLE_COMPLEX: return CC;
    }
    return -1;
}
static int lay(MPI_Datatype dt, int cnt, long st)
{
    int k; long bb, s, ext = mm_type_extent(dt), sz = (long) esz, n = (long) en;
    mm_type_layout(dt, &k, &bb, &s);
    if (st == 1 && (k == 1 || s == bb) && ext == k * bb && cnt * (long) k * bb == n * sz) return 1;
    if (k == 1 && bb == sz && (cnt == 1 || ext == st * sz) && cnt == n && ext * cnt == n * st * sz) return 1;
    return cnt == 1 && k == n && bb == sz && (n == 1 || s == st * sz) && ext == n * st * sz;
}
static void hook(int kind, MPI_Comm comm)
{
    struct mm_collrec *c = &mm_coll[mm_me][0];
    calls++;
    VASSERT(mm_comm_size(comm) == esize, "the collective runs over the team");
    if (ekind == MMC_ALLGATHER && OPK == 1 && ecount == 0) { ecount = 1; return; }       /* exchange of the counts */
    VASSERT(kind == ekind || (OPK == 1 && kind == MMC_ALLGATHERV), "the right collective is used");
    switch (kind) {
    case MMC_BCAST:
        VASSERT(c->root == eroot && lay(c->sdt, c->scnt, 1), "broadcast of nelems elements from the root");
        VASSERT(c->sbuf == (eroot == 0 ? es : ed), "broadcast out of source, into dest"); break;
    case MMC_ALLGATHER: case MMC_ALLGATHERV:
        VASSERT(lay(c->sdt, c->scnt, 1) && c->sbuf == es && c->rbuf == ed, "nelems elements of source are collected into dest");
        if (kind == MMC_ALLGATHER) VASSERT(lay(c->rdt, c->rcnt, 1), "nelems elements per PE are collected"); break;
    case MMC_ALLTOALL:
        VASSERT(c->sbuf == es && c->rbuf == ed && lay(c->sdt, c->scnt, esst) && lay(c->rdt, c->rcnt, edst), "blocks have nelems elements at the given strides"); break;
    case MMC_ALLREDUCE:
        VASSERT(c->op == eop, "operator is the one the routine's name says");
        VASSERT(c->inplace == einpl && c->rbuf == ed && (einpl || c->sbuf == es), "source is reduced into dest");
        VASSERT(cls(c->sdt) == ecls && lay(c->sdt, c->scnt, 1), "type and count are the ones the routine's name says"); break;
    }
}
static void begin(int kind, size_t sz) { ekind = kind; esz = sz; calls = 0; ecount = 0; edst = esst = 1; es = S; ed = D; einpl = 0; eop = 0; en = VIN_RANGE("nelems", 1, OPK == 4 ? 200 : 1000000); }
static shmem_team_t team;
#define TYPES(X) X(float,float) X(double,double) X(long double,longdouble) X(char,char) X(signed char,schar) X(short,short) X(int,int) X(long,long) \
  X(long long,longlong) X(unsigned char,uchar) X(unsigned short,ushort) X(unsigned int,uint) X(unsigned long,ulong) X(unsigned long long,ulonglong) \
  X(int8_t,int8) X(int16_t,int16) X(int32_t,int32) X(int64_t,int64) X(uint8_t,uint8) X(uint16_t,uint16) X(uint32_t,uint32) X(uint64_t,uint64) \
  X(size_t,size) X(ptrdiff_t,ptrdiff)
#define DONE(rc) VASSERT((rc) == 0 && calls == (OPK == 1 ? 2 : 1), "one collective is run and success reported")
#if OPK == 0
#define X1(T, N) { begin(MMC_BCAST, sizeof(T)); eroot = 1; DONE(shmem_##N##_broadcast(team, (T *) D, (const T *) S, en, 1)); \
    begin(MMC_BCAST, sizeof(T)); en = 2; eroot = 0; ((T *) D)[1] = 0; ((T *) S)[1] = 1; DONE(shmem_##N##_broadcast(team, (T *) D, (const T *) S, 2, 0)); \
    VASSERT(((T *) D)[1] == 1, "the root gets its own elements"); }
#define XM { begin(MMC_BCAST, 1); eroot = 1; DONE(shmem_broadcastmem(team, D, S, en, 1)); }
#elif OPK == 1
#define X1(T, N) { begin(MMC_ALLGATHER, sizeof(T)); DONE(shmem_##N##_collect(team, (T *) D, (const T *) S, en)); }
#define XM { begin(MMC_ALLGATHER, 1); DONE(shmem_collectmem(team, D, S, en)); }
#elif OPK == 2
#define X1(T, N) { begin(MMC_ALLGATHER, sizeof(T)); DONE(shmem_##N##_fcollect(team, (T *) D, (const T *) S, en)); }
#define XM { begin(MMC_ALLGATHER, 1); DONE(shmem_fcollectmem(team, D, S, en)); }
#elif OPK == 3
#define X1(T, N) { begin(MMC_ALLTOALL, sizeof(T)); DONE(shmem_##N##_alltoall(team, (T *) D, (const T *) S, en)); }
#define XM { begin(MMC_ALLTOALL, 1); DONE(shmem_alltoallmem(team, D, S, en)); }
#elif OPK == 4
#ifdef STSYM
#define ST edst = (long) VIN_RANGE("dst", 1, 15); esst = (long) VIN_RANGE("sst", 1, 15); VASSUME(en <= 31)
#undef TYPES
#define TYPES(X) X(short,short)
#else
#define ST edst = 2; esst = 3; en = 27
#endif
#define X1(T, N) { begin(MMC_ALLTOALL, sizeof(T)); ST; DONE(shmem_##N##_alltoalls(team, (T *) D, (const T *) S, edst, esst, en)); }
#define XM { begin(MMC_ALLTOALL, 1); ST; DONE(shmem_alltoallsmem(team, D, S, edst, esst, en)); }
#elif OPK == 5
#define RD(T, N, O, OP, C) { begin(MMC_ALLREDUCE, sizeof(T)); eop = OP; ecls = C; DONE(shmem_##N##_##O##_reduce(team, (T *) D, (const T *) S, en)); \
    begin(MMC_ALLREDUCE, sizeof(T)); eop = OP; ecls = C; einpl = 1; es = D; DONE(shmem_##N##_##O##_reduce(team, (T *) D, (const T *) D, en)); }
#define RA(T, N, O, OP, C) { begin(MMC_ALLREDUCE, sizeof(T)); eop = OP; ecls = C; shmem_##N##_##O##_to_all((T *) D, (T *) S, (int) en, 0, 0, NPE, (T *) wrk, psync); DONE(0); \
    begin(MMC_ALLREDUCE, sizeof(T)); eop = OP; ecls = C; einpl = 1; es = D; shmem_##N##_##O##_to_all((T *) D, (T *) D, (int) en, 0, 0, NPE, (T *) wrk, psync); DONE(0); }
#define BITW(M, T, N, C) M(T, N, and, MPI_BAND, C) M(T, N, or, MPI_BOR, C) M(T, N, xor, MPI_BXOR, C)
#define MINM(M, T, N, C) M(T, N, min, MPI_MIN, C) M(T, N, max, MPI_MAX, C)
#define SUMP(M, T, N, C) M(T, N, sum, MPI_SUM, C) M(T, N, prod, MPI_PROD, C)
#define B1(T, N, C) BITW(RD, T, N, C)
#define M1(T, N, C) MINM(RD, T, N, C)
#define S1(T, N, C) SUMP(RD, T, N, C)
#define BTYPES(X) X(unsigned char,uchar,CU) X(unsigned short,ushort,CU) X(unsigned int,uint,CU) X(unsigned long,ulong,CU) X(unsigned long long,ulonglong,CU) \
  X(int8_t,int8,CI) X(int16_t,int16,CI) X(int32_t,int32,CI) X(int64_t,int64,CI) X(uint8_t,uint8,CU) X(uint16_t,uint16,CU) X(uint32_t,uint32,CU) X(uint64_t,uint64,CU) X(size_t,size,CU)
#define MTYPES(X) X(float,float,CF) X(double,double,CF) X(long double,longdouble,CF) X(char,char,CI) X(signed char,schar,CI) X(short,short,CI) X(int,int,CI) X(long,long,CI) \
  X(long long,longlong,CI) X(unsigned char,uchar,CU) X(unsigned short,ushort,CU) X(unsigned int,uint,CU) X(unsigned long,ulong,CU) X(unsigned long long,ulonglong,CU) \
  X(int8_t,int8,CI) X(int16_t,int16,CI) X(int32_t,int32,CI) X(int64_t,int64,CI) X(uint8_t,uint8,CU) X(uint16_t,uint16,CU) X(uint32_t,uint32,CU) X(uint64_t,uint64,CU) X(size_t,size,CU) X(ptrdiff_t,ptrdiff,CI)
static long psync[64]; static long wrk[16];
#endif
void harness(void)
{
    start_one(0);
#ifdef SPLIT
    mm_no_data = 1;
    VASSERT(shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, 1, NPE, 0, 0, &team) == 0, "team is created"); esize = NPE;
#else
    team = SHMEM_TEAM_WORLD; esize = NPE;
    mm_no_data = 1;
#endif
    mm_coll_hook = hook;
#if OPK <= 4 && !defined(ASET)
    TYPES(X1)
    XM
#elif OPK == 5
#if TOPS == 1
    BTYPES(B1)
#elif TOPS == 2
    MTYPES(M1)
#elif TOPS == 3
    MTYPES(S1) S1(float _Complex, complexf, CC) S1(double _Complex, complexd, CC)
#elif TOPS == 4
    BITW(RA, short, short, CI) BITW(RA, int, int, CI) BITW(RA, long, long, CI) BITW(RA, long long, longlong, CI)
    MINM(RA, short, short, CI) MINM(RA, int, int, CI) MINM(RA, long, long, CI) MINM(RA, long long, longlong, CI)
    MINM(RA, float, float, CF) MINM(RA, double, double, CF) MINM(RA, long double, longdouble, CF)
    SUMP(RA, short, short, CI) SUMP(RA, int, int, CI) SUMP(RA, long, long, CI) SUMP(RA, long long, longlong, CI)
    SUMP(RA, float, float, CF) SUMP(RA, double, double, CF) SUMP(RA, long double, longdouble, CF)
    SUMP(RA, float _Complex, complexf, CC) SUMP(RA, double _Complex, complexd, CC)
#endif
#endif
    if (en > 20) VWITNESS("all routines ran");
}
