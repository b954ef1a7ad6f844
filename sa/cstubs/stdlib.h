#ifndef STUB_STDLIB
#define STUB_STDLIB
#include <stdint.h>
typedef unsigned long size_t; typedef long ssize_t; typedef int pid_t; typedef struct _FILE FILE; typedef long time_t; typedef long clock_t;
#define NULL ((void *)0)
#define PATH_MAX 4096
#define INT_MAX 2147483647
#define INT_MIN (-2147483647-1)
#define UINT_MAX 4294967295U
#define LONG_MAX 9223372036854775807L
#define DBL_MAX 1.7976931348623157e308
#define FLT_MAX 3.40282347e38f
#define DBL_EPSILON 2.2e-16
#define FLT_EPSILON 1.1e-7f
extern FILE *stdout, *stderr, *stdin;
typedef int (*stub_cmp)(const void *, const void *);
struct tm { int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year; };
struct timespec { long tv_sec, tv_nsec; }; struct timeval { long tv_sec, tv_usec; };
struct rusage { long ru_maxrss; struct timeval ru_utime, ru_stime; };
struct lconv { char *decimal_point, *thousands_sep; };
#define RUSAGE_SELF 0
#define LC_ALL 6
#define LC_NUMERIC 4
#define CLOCKS_PER_SEC 1000000
#define EXIT_FAILURE 1
#define EXIT_SUCCESS 0
#define offsetof(t, m) ((size_t)0)
typedef __builtin_va_list va_list;
#endif
