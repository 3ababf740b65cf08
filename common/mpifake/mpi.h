// Stand-in for the MPI header: the same calls, answered by the exploring scheduler in mpi_sched.hpp.
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Datatype; typedef long MPI_Request; typedef void* MPI_Message;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long mc_len; } MPI_Status;
#define MPI_COMM_WORLD 0
#define MPI_SUCCESS 0
#define MPI_ERR_TRUNCATE 15
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_BYTE 1
#define MPI_CHAR 1
#define MPI_INT 4
#define MPI_FLOAT 104
#define MPI_DOUBLE 108
#define MPI_UINT64_T 8
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_REQUEST_NULL (-1L)
int MPI_Init(int*,char***);
int MPI_Finalize(void);
int MPI_Comm_rank(MPI_Comm,int*);
int MPI_Comm_size(MPI_Comm,int*);
int MPI_Abort(MPI_Comm,int);
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Probe(int,int,MPI_Comm,MPI_Status*);
int MPI_Mprobe(int,int,MPI_Comm,MPI_Message*,MPI_Status*);
int MPI_Mrecv(void*,int,MPI_Datatype,MPI_Message*,MPI_Status*);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*);
int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Barrier(MPI_Comm);
int MPI_Wait(MPI_Request*,MPI_Status*);
int MPI_Request_free(MPI_Request*);
#ifdef __cplusplus
}
#endif
