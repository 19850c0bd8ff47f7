/* Model of the part of the MPI-3 interface that OSHMPI uses.
 * Integer handles (as MPICH); predefined datatypes carry their size in bits 8..15. */
#ifndef MM_MPI_H
#define MM_MPI_H
#include <stddef.h>
#include <stdint.h>

typedef int MPI_Comm;
typedef int MPI_Group;
typedef int MPI_Win;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Request;
typedef long MPI_Aint;
typedef int MPI_T_cvar_handle;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int mm_len; } MPI_Status;

#define MPI_SUCCESS 0
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-2)
#define MPI_PROC_NULL (-1)
#define MPI_ANY_TAG (-1)
#define MPI_TAG_UB 0x64400001
#define MPI_IN_PLACE ((void *) -1)
extern MPI_Status mm_status_ignore[4];
#define MPI_STATUS_IGNORE (&mm_status_ignore[0])
#define MPI_STATUSES_IGNORE (&mm_status_ignore[0])
#define MPI_COMM_NULL 0x04000000
#define MPI_COMM_WORLD 0x44000000
#define MPI_GROUP_NULL 0x08000000
#define MPI_WIN_NULL 0x20000000
#define MPI_DATATYPE_NULL 0x0c000000
#define MPI_REQUEST_NULL 0x2c000000
#define MPI_INFO_NULL 0x1c000000
#define MPI_OP_NULL 0x18000000
#define MPI_MAX_INFO_VAL 1024
#define MPI_MODE_NOCHECK 1024
#define MPI_COMM_TYPE_SHARED 1
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_T_ERR_INVALID_NAME 73
#define MPI_ERRORS_ARE_FATAL 0x54000000

#define MM_DT(sz, id) (0x4c000000 | ((sz) << 8) | (id))
#define MPI_CHAR MM_DT(1, 1)
#define MPI_SIGNED_CHAR MM_DT(1, 2)
#define MPI_UNSIGNED_CHAR MM_DT(1, 3)
#define MPI_BYTE MM_DT(1, 4)
#define MPI_SHORT MM_DT(2, 5)
#define MPI_UNSIGNED_SHORT MM_DT(2, 6)
#define MPI_INT MM_DT(4, 7)
#define MPI_UNSIGNED MM_DT(4, 8)
#define MPI_LONG MM_DT(8, 9)
#define MPI_UNSIGNED_LONG MM_DT(8, 10)
#define MPI_LONG_LONG MM_DT(8, 11)
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_UNSIGNED_LONG_LONG MM_DT(8, 12)
#define MPI_INT8_T MM_DT(1, 13)
#define MPI_INT16_T MM_DT(2, 14)
#define MPI_INT32_T MM_DT(4, 15)
#define MPI_INT64_T MM_DT(8, 16)
#define MPI_UINT8_T MM_DT(1, 17)
#define MPI_UINT16_T MM_DT(2, 18)
#define MPI_UINT32_T MM_DT(4, 19)
#define MPI_UINT64_T MM_DT(8, 20)
#define MPI_FLOAT MM_DT(4, 21)
#define MPI_DOUBLE MM_DT(8, 22)
#define MPI_LONG_DOUBLE MM_DT(16, 23)
#define MPI_C_COMPLEX MM_DT(8, 24)
#define MPI_C_FLOAT_COMPLEX MPI_C_COMPLEX
#define MPI_C_DOUBLE_COMPLEX MM_DT(16, 25)
#define MPI_C_LONG_DOUBLE_COMPLEX MM_DT(32, 26)
#define MPI_AINT MM_DT(8, 27)
#define MPI_C_BOOL MM_DT(1, 28)

#define MPI_MAX 0x58000001
#define MPI_MIN 0x58000002
#define MPI_SUM 0x58000003
#define MPI_PROD 0x58000004
#define MPI_LAND 0x58000005
#define MPI_BAND 0x58000006
#define MPI_LOR 0x58000007
#define MPI_BOR 0x58000008
#define MPI_LXOR 0x58000009
#define MPI_BXOR 0x5800000a
#define MPI_REPLACE 0x5800000d
#define MPI_NO_OP 0x5800000e

int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Query_thread(int *);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_group(MPI_Comm, MPI_Group *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm *);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm *);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_get_attr(MPI_Comm, int, void *, int *);
int MPI_Group_incl(MPI_Group, int, const int[], MPI_Group *);
int MPI_Group_range_incl(MPI_Group, int, int[][3], MPI_Group *);
int MPI_Group_translate_ranks(MPI_Group, int, const int[], MPI_Group, int[]);
int MPI_Group_free(MPI_Group *);
int MPI_Group_size(MPI_Group, int *);
int MPI_Group_rank(MPI_Group, int *);
int MPI_Info_create(MPI_Info *);
int MPI_Info_set(MPI_Info, const char *, const char *);
int MPI_Info_free(MPI_Info *);

int MPI_Win_create(void *, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win *);
int MPI_Win_allocate(MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *);
int MPI_Win_create_dynamic(MPI_Info, MPI_Comm, MPI_Win *);
int MPI_Win_attach(MPI_Win, void *, MPI_Aint);
int MPI_Win_detach(MPI_Win, const void *);
int MPI_Win_free(MPI_Win *);
int MPI_Win_lock_all(int, MPI_Win);
int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush(int, MPI_Win);
int MPI_Win_flush_all(MPI_Win);
int MPI_Win_flush_local(int, MPI_Win);
int MPI_Win_flush_local_all(MPI_Win);
int MPI_Win_sync(MPI_Win);
int MPI_Get_address(const void *, MPI_Aint *);
MPI_Aint MPI_Aint_diff(MPI_Aint, MPI_Aint);
MPI_Aint MPI_Aint_add(MPI_Aint, MPI_Aint);
int MPI_Put(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Get(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Accumulate(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Get_accumulate(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Fetch_and_op(const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Op, MPI_Win);
int MPI_Compare_and_swap(const void *, const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Win);

int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);

int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request[], int *, MPI_Status[]);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request[], MPI_Status[]);

int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int[], const int[], MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Ibcast(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Iallgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Iallgatherv(const void *, int, MPI_Datatype, void *, const int[], const int[], MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Ialltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Iallreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request *);

int MPI_T_init_thread(int, int *);
int MPI_T_finalize(void);
int MPI_T_cvar_get_index(const char *, int *);
int MPI_T_cvar_handle_alloc(int, void *, MPI_T_cvar_handle *, int *);
int MPI_T_cvar_handle_free(MPI_T_cvar_handle *);
int MPI_T_cvar_write(MPI_T_cvar_handle, const void *);
int MPI_T_cvar_read(MPI_T_cvar_handle, void *);
#endif
