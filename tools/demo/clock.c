/* LD_PRELOAD: DEMO_NOW sets the clock, and stdout is a terminal of 120 columns;
   DEMO_DIE=n kills the process at its n-th write to a file (after half of it is written). */
#define _GNU_SOURCE
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
int clock_gettime(clockid_t c, struct timespec *ts) {
    const char *s = getenv("DEMO_NOW");
    if (s && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { ts->tv_sec = atol(s); ts->tv_nsec = 0; return 0; }
    return (int)syscall(SYS_clock_gettime, c, ts);
}
int isatty(int fd) { return fd == 1; }
int ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
    if (fd == 1 && req == TIOCGWINSZ) { struct winsize *w = arg; memset(w, 0, sizeof *w); w->ws_row = 50; w->ws_col = 120; return 0; }
    return (int)syscall(SYS_ioctl, fd, req, arg);
}
ssize_t write(int fd, const void *b, size_t n) {
    static int k;
    const char *s = getenv("DEMO_DIE");
    if (s && fd > 2 && ++k == atoi(s)) { syscall(SYS_write, fd, b, n / 2); syscall(SYS_kill, getpid(), SIGKILL); }
    return syscall(SYS_write, fd, b, n);
}
