/* Build configuration seen by the encoded code: the default configuration of the
 * reference build, with switches (VC_*) for the other supported configurations. */
#define HAVE_ATEXIT 1
#define HAVE_FCNTL_H 1
#define HAVE_GCC_ATTRIBUTE 1
#define HAVE_INTTYPES_H 1
#define HAVE_MATH_H 1
#define HAVE_MEMCPY 1
#define HAVE_MEMSET 1
#define HAVE_MPI_H 1
#define HAVE_RANDOM_R 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_STRTOF 1
#define HAVE_STRUCT_RANDOM_DATA 1
#define HAVE_SYS_MMAN_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TIME_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define OSHMPI_DISABLE_AM_ASYNC_THREAD 1
#ifndef VC_NO_OP_TRACKING
#define OSHMPI_ENABLE_OP_TRACKING 1
#endif
#ifndef VC_NO_STRIDED_CACHE
#define OSHMPI_ENABLE_STRIDED_DTYPE_CACHE 1
#endif
#ifndef VC_NO_SYMM_ALLOC
#define OSHMPI_ENABLE_SYMM_ALLOC 1
#endif
#if defined(VC_THREAD_MULTIPLE)
#define OSHMPI_ENABLE_THREAD_MULTIPLE 1
#define OSHMPI_THREAD_CS_LOCK OSHMPI_THREAD_CS_LOCK__PTHREAD_MUTEX
#elif defined(VC_THREAD_SINGLE)
#define OSHMPI_ENABLE_THREAD_SINGLE 1
#elif defined(VC_THREAD_FUNNELED)
#define OSHMPI_ENABLE_THREAD_FUNNELED 1
#else
#define OSHMPI_ENABLE_THREAD_SERIALIZED 1
#endif
#ifdef VC_DIRECT_AMO
#define OSHMPI_ENABLE_DIRECT_AMO 1
#endif
#ifdef VC_AM_AMO
#define OSHMPI_ENABLE_AM_AMO 1
#endif
#ifdef VC_DIRECT_RMA
#define OSHMPI_ENABLE_DIRECT_RMA 1
#endif
#ifdef VC_AM_RMA
#define OSHMPI_ENABLE_AM_RMA 1
#endif
#ifdef VC_DYNAMIC_WIN
#define OSHMPI_ENABLE_DYNAMIC_WIN 1
#endif
#ifdef VC_NDEBUG
#define OSHMPI_DISABLE_DEBUG 1
#endif
#define OSHMPI_MPI_PTRDIFF_T MPI_INT64_T
#define OSHMPI_MPI_SIZE_T MPI_UINT64_T
#define SIZEOF_PTRDIFF_T 8
#define SIZEOF_SIZE_T 8
#define USE_LINUX 1
#define PACKAGE "oshmpi"
#define VERSION "model"
