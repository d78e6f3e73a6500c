/* In the scratch root: time functions as plain system calls, so that the simulator answers them. */
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
int clock_gettime(clockid_t c, struct timespec *t) { return syscall(SYS_clock_gettime, c, t); }
int gettimeofday(struct timeval *restrict t, void *restrict z) { return syscall(SYS_gettimeofday, t, z); }
time_t time(time_t *t) { return syscall(SYS_time, t); }
