/* A deterministic in-process stand-in for MPI: every rank is a fiber of one
 * process, every MPI call is a scheduling point owned by the explorer.
 * Names are macro-renamed so that no symbol of a real MPI library is touched. */
#ifndef VERIF_FAKE_MPI_H
#define VERIF_FAKE_MPI_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef struct fmpi_request_s* MPI_Request;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int fmpi_bytes; } MPI_Status;
typedef long MPI_Aint;
typedef int MPI_Info;
#define MPI_SUCCESS 0
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-2)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_INFO_NULL 0
/* datatype = (id << 8) | size */
#define MPI_CHAR          ((1<<8)|1)
#define MPI_BYTE          ((2<<8)|1)
#define MPI_UNSIGNED_CHAR ((3<<8)|1)
#define MPI_INT           ((4<<8)|4)
#define MPI_UNSIGNED      ((5<<8)|4)
#define MPI_LONG          ((6<<8)|8)
#define MPI_UNSIGNED_LONG ((7<<8)|8)
#define MPI_FLOAT         ((8<<8)|4)
#define MPI_DOUBLE        ((9<<8)|8)
#define MPI_UINT64_T      ((10<<8)|8)
#define MPI_INT64_T       ((11<<8)|8)
#define MPI_UNSIGNED_LONG_LONG ((12<<8)|8)
#define MPI_LONG_LONG     ((13<<8)|8)
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_SIGNED_CHAR   ((14<<8)|1)
#define MPI_SHORT         ((15<<8)|2)
#define MPI_UNSIGNED_SHORT ((16<<8)|2)
#define MPI_C_BOOL        ((17<<8)|1)
#define MPI_CXX_BOOL      MPI_C_BOOL
#define MPI_SUM 1
#define MPI_MIN 2
#define MPI_MAX 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
#define MPI_Init fmpi_Init
#define MPI_Initialized fmpi_Initialized
#define MPI_Finalized fmpi_Finalized
#define MPI_Finalize fmpi_Finalize
#define MPI_Abort fmpi_Abort
#define MPI_Comm_size fmpi_Comm_size
#define MPI_Comm_rank fmpi_Comm_rank
#define MPI_Comm_dup fmpi_Comm_dup
#define MPI_Comm_free fmpi_Comm_free
#define MPI_Send fmpi_Send
#define MPI_Ssend fmpi_Ssend
#define MPI_Isend fmpi_Isend
#define MPI_Recv fmpi_Recv
#define MPI_Irecv fmpi_Irecv
#define MPI_Wait fmpi_Wait
#define MPI_Waitall fmpi_Waitall
#define MPI_Test fmpi_Test
#define MPI_Sendrecv fmpi_Sendrecv
#define MPI_Get_count fmpi_Get_count
#define MPI_Barrier fmpi_Barrier
#define MPI_Bcast fmpi_Bcast
#define MPI_Reduce fmpi_Reduce
#define MPI_Allreduce fmpi_Allreduce
#define MPI_Gather fmpi_Gather
#define MPI_Allgather fmpi_Allgather
#define MPI_Allgatherv fmpi_Allgatherv
#define MPI_Gatherv fmpi_Gatherv
#define MPI_Scan fmpi_Scan
#define MPI_Exscan fmpi_Exscan
#define MPI_Alltoall fmpi_Alltoall
#define MPI_Type_size fmpi_Type_size
#define MPI_Wtime fmpi_Wtime
int MPI_Init(int*, char***);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Type_size(MPI_Datatype, int*);
double MPI_Wtime(void);
#ifdef __cplusplus
}
#endif
#endif
