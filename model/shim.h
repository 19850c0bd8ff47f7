/* Force-included in front of every file of the library under analysis. */
#ifndef VH_SHIM_H
#define VH_SHIM_H
#define _GNU_SOURCE 1
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <unistd.h>
/* output is not the subject of any property */
#undef fprintf
#define fprintf(...) ((void) 0)
#undef fflush
#define fflush(...) ((void) 0)
#undef printf
#define printf(...) ((void) 0)
extern int mm_me;
char *vh_getenv(const char *name);
long vh_sysconf(int name);
int vh_atexit(void (*f)(void));
#define getenv vh_getenv
#define sysconf vh_sysconf
#define atexit vh_atexit
#include <sys/mman.h>
#include <sys/time.h>
int vh_msync(void *p, size_t n, int fl);
void *vh_mmap(void *a, size_t n, int pr, int fl, int fd, long off);
int vh_munmap(void *a, size_t n);
int vh_random_r(void *b, int32_t *r);
int vh_initstate_r(unsigned s, char *st, size_t n, void *b);
int vh_gettimeofday(void *tv, void *tz);
#define msync vh_msync
#define mmap vh_mmap
#define munmap vh_munmap
#define random_r vh_random_r
#define initstate_r vh_initstate_r
#define gettimeofday vh_gettimeofday
int vh_posix_memalign(void **p, size_t a, size_t n);
#define posix_memalign vh_posix_memalign
#include <pthread.h>
int vh_mutex_init(pthread_mutex_t *m, const void *a);
int vh_mutex_destroy(pthread_mutex_t *m);
int vh_mutex_lock(pthread_mutex_t *m);
int vh_mutex_unlock(pthread_mutex_t *m);
#define pthread_mutex_init vh_mutex_init
#define pthread_mutex_destroy vh_mutex_destroy
#define pthread_mutex_lock vh_mutex_lock
#define pthread_mutex_unlock vh_mutex_unlock
char *mm_data_start_(void);
char *mm_data_end_(void);
#ifndef VH_NATIVE
int vh_snprintf(char *b, size_t n, const char *fmt, ...);
#undef snprintf
#define snprintf vh_snprintf
char *vh_strtok_r(char *s, const char *d, char **save);
#undef strtok_r
#define strtok_r vh_strtok_r
double vh_strtod(const char *s, char **e);
float vh_strtof(const char *s, char **e);
long double vh_strtold(const char *s, char **e);
#define strtof vh_strtof
#define strtod vh_strtod
#define strtold vh_strtold
int vh_atoi(const char *s);
#define atoi vh_atoi
unsigned long vh_strtoul(const char *s, char **e, int base);
#define strtoul vh_strtoul
#define strtoull vh_strtoul
char *vh_strncpy(char *d, const char *s, size_t n);
#undef strncpy
#define strncpy vh_strncpy
int vh_strncmp(const char *a, const char *b, size_t n);
#undef strncmp
#define strncmp vh_strncmp
int vh_strcmp(const char *a, const char *b);
#undef strcmp
#define strcmp vh_strcmp
#endif
#ifdef VH_SHIM_EXTRA
#include VH_SHIM_EXTRA
#endif
#endif
