// Stand-in for MPI (absent here): one process.
#pragma once
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Info; typedef int MPI_File; struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; }; typedef long MPI_Offset;
#define MPI_COMM_WORLD 0
#define MPI_DOUBLE 1
#define MPI_FLOAT 2
#define MPI_INT 3
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_IN_PLACE ((void*)1)
#define MPI_SUCCESS 0
#define MPI_INFO_NULL 0
static inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return 0; }
static inline int MPI_Comm_size(MPI_Comm, int* r) { *r = 1; return 0; }
static inline int MPI_Barrier(MPI_Comm) { return 0; }
static inline int MPI_Abort(MPI_Comm, int) { fsx_fail("MPI_Abort"); }
static inline int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm) { return 0; }
template <class T> static inline int fsx_mpicopy(const T* s, T* r, int n) { if ((const void*)s != MPI_IN_PLACE) for (int i = 0; i < n; i++) r[i] = s[i]; return 0; }
static inline int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op, MPI_Comm) { return d == MPI_INT ? fsx_mpicopy((const int*)s, (int*)r, n) : d == MPI_FLOAT ? fsx_mpicopy((const float*)s, (float*)r, n) : fsx_mpicopy((const double*)s, (double*)r, n); }
static inline int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op o, int, MPI_Comm c) { return MPI_Allreduce(s, r, n, d, o, c); }
enum { MPI_ORDER_FORTRAN = 1, MPI_DATATYPE_NULL = 0, MPI_MODE_WRONLY = 1, MPI_MODE_CREATE = 2, MPI_MODE_RDONLY = 4, MPI_CHAR = 7, MPI_SEEK_SET = 0, MPI_MODE_UNIQUE_OPEN = 32, MPI_LONG_DOUBLE = 40 };
#define MPI_STATUS_IGNORE nullptr
template <class... A> inline int fsx_mpi_none(A...) { fsx_fail("no MPI files here"); }
#define MPI_Type_free fsx_mpi_none
#define MPI_Type_commit fsx_mpi_none
#define MPI_Type_create_subarray fsx_mpi_none
#define MPI_Type_contiguous fsx_mpi_none
#define MPI_File_open fsx_mpi_none
#define MPI_File_close fsx_mpi_none
#define MPI_File_write fsx_mpi_none
#define MPI_File_write_all fsx_mpi_none
#define MPI_File_write_at fsx_mpi_none
#define MPI_File_read fsx_mpi_none
#define MPI_File_read_all fsx_mpi_none
#define MPI_File_set_view fsx_mpi_none
#define MPI_File_seek fsx_mpi_none
#define MPI_File_get_position fsx_mpi_none
#define MPI_File_get_size fsx_mpi_none
#define MPI_File_set_size fsx_mpi_none
#define MPI_Get_count fsx_mpi_none
#define MPI_Offset_t long
#define MPI_Info_create fsx_mpi_none
#define MPI_Info_set fsx_mpi_none
#define MPI_Info_free fsx_mpi_none
