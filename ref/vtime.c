/* LD_PRELOAD clock under harness control (vt_now == 0: real time). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
long vt_now = 0;
time_t time(time_t *t) {
  time_t r;
  if (vt_now) r = vt_now;
  else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
  if (t) *t = r;
  return r;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (vt_now && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { ts->tv_sec = vt_now; ts->tv_nsec = 0; return 0; }
  return syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
