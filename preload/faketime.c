/* LD_PRELOAD: pins "now" to $FAKE_NOW for the process under test. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
static time_t now_(void) { const char *s = getenv("FAKE_NOW"); return s ? (time_t) atoll(s) : 0; }
time_t time(time_t *t) { time_t n = now_(); if (t) *t = n; return n; }
int gettimeofday(struct timeval *restrict tv, void *restrict tz) { if (tv) { tv->tv_sec = now_(); tv->tv_usec = 0; } (void) tz; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { (void) c; ts->tv_sec = now_(); ts->tv_nsec = 0; return 0; }
