/* LD_PRELOAD shim used to run the real silverfox binary under a controlled environment.
 *
 *   SFX_NOW=<epoch seconds>   the wall clock the process sees
 *   SFX_TTY=<columns>         stdout claims to be a terminal of that width (the register needs one)
 *   SFX_LOG=<path>            one line per file-system mutating call (append-only log)
 *   SFX_FAULT=<k>:<mode>[:n]  at the k-th mutating call (1-based):
 *        killb  die just before it        killa  die just after it
 *        eio    fail with EIO             enospc fail with ENOSPC
 *        short  write only n bytes and return n (then everything goes on normally)
 *        shortk write only n bytes, then die
 *        shorte write only n bytes, and fail every later write with ENOSPC
 *   SFX_FAULT=r<k>:<mode>[:n] at the k-th call that opens or reads a file below SFX_ROOT:
 *        eio    fail with EIO             short  read at most n bytes (then everything goes on normally)
 *        eintr  fail a read with EINTR
 *   SFX_STEP=<out>:<in>       before every mutating call, write a byte to the descriptor out and wait for
 *                             one from the descriptor in (schedules of several processes)
 *
 * "Dying" is SIGKILL to itself: nothing that is buffered gets flushed, as in a power cut of
 * the process.  Writes to stdout/stderr are not mutating calls.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

static long now_s = 0;
static int has_now = 0;
static int tty_cols = 0;
static int log_fd = -1;
static int fault_at = 0, fault_n = 0, failing = 0;
static char fault_mode[16];
static int counter = 0;
static int rfault_at = 0, rcounter = 0;
static int step_out = -1, step_in = -1;
static const char *root = NULL;
static char reading[256];      /* the descriptors of files below the root that are open for reading */

#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

__attribute__((constructor)) static void init(void) {
    const char *s;
    /* a run that goes astray must not take the machine with it */
    struct rlimit cpu = {8, 10}, mem = {700u << 20, 700u << 20}, core = {0, 0}, file = {8u << 20, 8u << 20};
    setrlimit(RLIMIT_CPU, &cpu);
    setrlimit(RLIMIT_AS, &mem);
    setrlimit(RLIMIT_CORE, &core);
    setrlimit(RLIMIT_FSIZE, &file);
    if ((s = getenv("SFX_NOW"))) { now_s = atol(s); has_now = 1; }
    if ((s = getenv("SFX_TTY"))) tty_cols = atoi(s);
    if ((s = getenv("SFX_FAULT"))) {
        fault_n = 0;
        sscanf(s[0] == 'r' ? s + 1 : s, "%d:%15[^:]:%d", s[0] == 'r' ? &rfault_at : &fault_at, fault_mode, &fault_n);
    }
    root = getenv("SFX_ROOT");
    if ((s = getenv("SFX_STEP"))) sscanf(s, "%d:%d", &step_out, &step_in);
    if ((s = getenv("SFX_LOG"))) {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (fd >= 0) log_fd = (int)syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 700);
    }
}

static void logline(const char *fmt, ...) {
    if (log_fd < 0) return;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    syscall(SYS_write, log_fd, buf, (size_t)n);
}

/* the path as the kernel sees it, from the root */
static const char *full(const char *p) {
    static char buf[2][2048];
    static int k;
    char *b = buf[k ^= 1];
    if (p[0] == '/') return p;
    char cwd[1024];
    long n = syscall(SYS_getcwd, cwd, sizeof cwd);
    if (n <= 0) cwd[0] = 0;
    snprintf(b, sizeof buf[0], "%s/%s", cwd, p);
    return b;
}

static void die(void) {
    logline("DIE");
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;) pause();
}

/* returns: 0 go on, 1 fail (errno set), 2 short write */
static int gate(int is_write) {
    counter++;
    if (step_out >= 0) {
        char c = '.';
        syscall(SYS_write, step_out, &c, (size_t)1);
        while (syscall(SYS_read, step_in, &c, (size_t)1) < 0 && errno == EINTR) {}
    }
    if (failing && is_write) { errno = ENOSPC; return 1; }
    if (!fault_at || counter != fault_at) return 0;
    if (!strcmp(fault_mode, "killb")) die();
    if (!strcmp(fault_mode, "eio")) { errno = EIO; return 1; }
    if (!strcmp(fault_mode, "enospc")) { errno = ENOSPC; return 1; }
    if (!strncmp(fault_mode, "short", 5)) return is_write ? 2 : 0;
    return 0;
}
static void after(void) {
    if (fault_at && counter == fault_at && !strcmp(fault_mode, "killa")) die();
}

/* ---- time ---- */
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (has_now && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI)) {
        ts->tv_sec = now_s; ts->tv_nsec = 0;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    if (has_now) { if (tv) { tv->tv_sec = now_s; tv->tv_usec = 0; } return 0; }
    return (int)syscall(SYS_gettimeofday, tv, tz);
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

/* ---- terminal ---- */
int isatty(int fd) {
    if (tty_cols && fd == 1) return 1;
    struct termios t;
    return ioctl(fd, TCGETS, &t) == 0;
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (tty_cols && fd == 1 && req == TIOCGWINSZ) {
        struct winsize *w = arg;
        memset(w, 0, sizeof *w);
        w->ws_row = 50; w->ws_col = (unsigned short)tty_cols;
        return 0;
    }
    return (int)syscall(SYS_ioctl, fd, req, arg);
}

/* ---- mutating calls ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    int mut = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
    if (!mut) {
        const char *f = full(path);
        int ours = root && !strncmp(f, root, strlen(root));
        if (ours && ++rcounter == rfault_at && !strcmp(fault_mode, "eio")) { logline("r:open! %s", f); errno = EIO; return -1; }
        int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
        if (ours) logline("r:open %s", f);
        if (fd >= 0 && fd < 256) reading[fd] = (char)ours;
        return fd;
    }
    if (gate(0) == 1) { logline("open! %s", full(path)); return -1; }
    int r = (int)syscall(SYS_openat, dirfd, path, flags, mode);
    logline("open %s", full(path));
    after();
    return r;
}
#define OPENARGS(fl) mode_t m = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { OPENARGS(fl) return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { OPENARGS(fl) return do_open(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { OPENARGS(fl) return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { OPENARGS(fl) return do_open(d, p, fl | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

static int rgate(int fd, size_t *n) {
    if (fd < 0 || fd >= 256 || !reading[fd]) return 0;
    rcounter++;
    logline("r:read %zu", *n);
    if (rcounter != rfault_at) return 0;
    if (!strcmp(fault_mode, "eio")) { logline("r:read! %zu", *n); errno = EIO; return 1; }
    if (!strcmp(fault_mode, "eintr")) { errno = EINTR; return 1; }
    if (!strcmp(fault_mode, "short") && fault_n > 0 && (size_t)fault_n < *n) *n = (size_t)fault_n;
    return 0;
}
ssize_t read(int fd, void *b, size_t n) {
    if (rgate(fd, &n)) return -1;
    return syscall(SYS_read, fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (rgate(fd, &n)) return -1;
    return syscall(SYS_pread64, fd, b, n, o);
}
int close(int fd) {
    if (fd >= 0 && fd < 256) reading[fd] = 0;
    return (int)syscall(SYS_close, fd);
}

static ssize_t do_write(int fd, const void *b, size_t n, long off) {
    if (fd == 1 || fd == 2) return syscall(SYS_write, fd, b, n);
    int g = gate(1);
    if (g == 1) { logline("write! %zu", n); return -1; }
    size_t want = n;
    if (g == 2 && (size_t)fault_n < n) want = (size_t)fault_n;
    ssize_t r = off >= 0 ? syscall(SYS_pwrite64, fd, b, want, off) : syscall(SYS_write, fd, b, want);
    logline("write %zu = %zd", n, r);
    if (g == 2) {
        if (!strcmp(fault_mode, "shortk")) die();
        if (!strcmp(fault_mode, "shorte")) { failing = 1; if (want == 0) { errno = ENOSPC; return -1; } }
        else if (want == 0) { errno = EINTR; return -1; }
    }
    after();
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (fd == 1 || fd == 2) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}
#define MUT(name, ret, proto, args, sysno, fmt, ...)                       \
    ret name proto {                                                        \
        if (gate(0) == 1) { logline(#name "! " fmt, __VA_ARGS__); return -1; } \
        ret r = (ret)syscall args;                                          \
        logline(#name " " fmt, __VA_ARGS__);              \
        after();                                                            \
        return r;                                                           \
    }
MUT(rename, int, (const char *a, const char *b), (SYS_rename, a, b), 0, "%s\t%s", full(a), full(b))
MUT(renameat, int, (int da, const char *a, int db, const char *b), (SYS_renameat, da, a, db, b), 0, "%s\t%s", full(a), full(b))
MUT(renameat2, int, (int da, const char *a, int db, const char *b, unsigned f), (SYS_renameat2, da, a, db, b, f), 0, "%s\t%s", full(a), full(b))
MUT(unlink, int, (const char *a), (SYS_unlink, a), 0, "%s", full(a))
MUT(unlinkat, int, (int d, const char *a, int f), (SYS_unlinkat, d, a, f), 0, "%s", full(a))
MUT(rmdir, int, (const char *a), (SYS_rmdir, a), 0, "%s", full(a))
MUT(mkdir, int, (const char *a, mode_t m), (SYS_mkdir, a, m), 0, "%s", full(a))
MUT(link, int, (const char *a, const char *b), (SYS_link, a, b), 0, "%s\t%s", full(a), full(b))
MUT(linkat, int, (int da, const char *a, int db, const char *b, int f), (SYS_linkat, da, a, db, b, f), 0, "%s\t%s", full(a), full(b))
MUT(symlink, int, (const char *a, const char *b), (SYS_symlink, a, b), 0, "%s\t%s", full(a), full(b))
MUT(truncate, int, (const char *a, off_t n), (SYS_truncate, a, n), 0, "%s", full(a))
MUT(truncate64, int, (const char *a, off64_t n), (SYS_truncate, a, n), 0, "%s", full(a))
MUT(ftruncate, int, (int fd, off_t n), (SYS_ftruncate, fd, n), 0, "%ld", (long)n)
MUT(ftruncate64, int, (int fd, off64_t n), (SYS_ftruncate, fd, n), 0, "%ld", (long)n)
MUT(copy_file_range, ssize_t, (int a, off64_t *oa, int b, off64_t *ob, size_t n, unsigned f), (SYS_copy_file_range, a, oa, b, ob, n, f), 0, "%zu", n)
MUT(sendfile, ssize_t, (int o, int i, off_t *f, size_t n), (SYS_sendfile, o, i, f, n), 0, "%zu", n)
MUT(sendfile64, ssize_t, (int o, int i, off64_t *f, size_t n), (SYS_sendfile, o, i, f, n), 0, "%zu", n)
MUT(fsync, int, (int fd), (SYS_fsync, fd), 0, "%d", fd)
MUT(fdatasync, int, (int fd), (SYS_fdatasync, fd), 0, "%d", fd)
MUT(fallocate, int, (int fd, int m, off_t o, off_t n), (SYS_fallocate, fd, m, o, n), 0, "%ld", (long)n)
