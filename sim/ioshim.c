/* File-system seam of C09 (LD_PRELOAD): the calls made on files below one directory can fail, be cut short or, after a
   simulated crash, lose their effect.  Without sim_prefix() everything is passed on. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>
#include <stdio.h>

enum { K_OPENW, K_OPENR, K_WRITE, K_CLOSEW, K_READ, K_RENAME, K_UNLINK, K_MKDIR, K_TRUNC, K_FSYNC, K_N };
#define MAXFD 4096
static char prefix[PATH_MAX];
static size_t plen;
static long calls[K_N], written;
static int fkind = -1, ferr, struck, dead;
static long fat, effects, crash_at = -1, crash_bytes, budget = -1, losetail, maxio;
static char tracked[MAXFD]; /* 1 writable, 2 read only, 3 opened for writing after the crash */

#define REAL(name, ret, ...) static ret (*r)(__VA_ARGS__); if (!r) r = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

void sim_prefix(const char *p) {
    strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix);
    memset(calls, 0, sizeof calls); memset(tracked, 0, sizeof tracked);
    fkind = -1; struck = dead = 0; effects = written = 0; crash_at = budget = -1; losetail = maxio = 0;
}
void sim_fail(int kind, long at, int err, long lose) { fkind = kind; fat = at; ferr = err; losetail = lose; struck = 0; }
void sim_crash(long at, long bytes) { crash_at = at; crash_bytes = bytes; effects = 0; struck = 0; }
void sim_budget(long bytes) { budget = bytes; struck = 0; }
void sim_maxio(long n) { maxio = n; }
void sim_clear(void) { fkind = -1; crash_at = budget = -1; maxio = 0; dead = 0; effects = written = 0; memset(calls, 0, sizeof calls); }
int sim_struck(void) { return struck; }
int sim_dead(void) { return dead; }
long sim_calls(int kind) { return calls[kind]; }
long sim_effects(void) { return effects; }
long sim_written(void) { return written; }

static int mine(const char *p) {
    char full[PATH_MAX];
    if (!plen || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(full, sizeof full)) return 0;
        return !strncmp(full, prefix, plen);
    }
    return !strncmp(p, prefix, plen);
}
static int failing(int kind) {
    calls[kind]++;
    if (kind == fkind && --fat <= 0) { fkind = -1; struck = 1; errno = ferr; return 1; }
    return 0;
}
/* an effect on the disk; 1 if it must be dropped because the crash has happened (or happens now) */
static int lost(void) {
    if (dead) return 1;
    effects++;
    if (crash_at >= 0 && effects >= crash_at) { dead = 1; struck = 1; return 1; }
    return 0;
}
static int do_open(const char *path, int flags, mode_t mode, int at, int dir) {
    static int (*r)(int, const char *, int, ...);
    if (!r) r = (int (*)(int, const char *, int, ...))dlsym(RTLD_NEXT, "openat64");
    if (!mine(path) || (flags & O_DIRECTORY)) return r(at ? dir : AT_FDCWD, path, flags, mode);
    int w = (flags & O_ACCMODE) != O_RDONLY, fd;
    if (failing(w ? K_OPENW : K_OPENR)) return -1;
    if (w && lost()) {
        fd = r(AT_FDCWD, "/dev/null", O_RDWR | (flags & O_CLOEXEC), 0);
        if (fd >= 0 && fd < MAXFD) tracked[fd] = 3;
        return fd;
    }
    fd = r(at ? dir : AT_FDCWD, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = w ? 1 : 2;
    return fd;
}
#define OPENARGS mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { OPENARGS return do_open(p, flags, mode, 0, 0); }
int open64(const char *p, int flags, ...) { OPENARGS return do_open(p, flags, mode, 0, 0); }
int openat(int d, const char *p, int flags, ...) { OPENARGS return do_open(p, flags, mode, 1, d); }
int openat64(int d, const char *p, int flags, ...) { OPENARGS return do_open(p, flags, mode, 1, d); }
static int is(int fd) { return fd >= 0 && fd < MAXFD ? tracked[fd] : 0; }

static ssize_t do_write(int fd, const void *b, size_t n, int p, off_t off) {
    REAL("write", ssize_t, int, const void *, size_t);
    static ssize_t (*rp)(int, const void *, size_t, off_t);
    if (!rp) rp = (ssize_t (*)(int, const void *, size_t, off_t))dlsym(RTLD_NEXT, "pwrite64");
#define PUT(k) (p ? rp(fd, b, k, off) : r(fd, b, k))
    int t = is(fd);
    if (t != 1 && t != 3) return PUT(n);
    if (failing(K_WRITE)) return -1;
    if (t == 3 || dead) return n;
    if (lost()) {
        size_t k = crash_bytes < 0 ? n * (size_t)-crash_bytes / 1000 : crash_bytes < (long)n ? (size_t)crash_bytes : n; /* < 0: per mille */
        if (k) { ssize_t z = PUT(k); (void)z; }
        return n;
    }
    if (maxio > 0 && n > (size_t)maxio) n = maxio;
    if (budget >= 0) {
        if (budget == 0) { struck = 1; errno = ENOSPC; return -1; }
        if ((long)n > budget) n = budget;
    }
    ssize_t k = PUT(n);
    if (k > 0) { written += k; if (budget >= 0) budget -= k; }
    return k;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, 1, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, 1, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL("writev", ssize_t, int, const struct iovec *, int);
    if (is(fd) != 1 && is(fd) != 3) return r(fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0); /* short */
    return 0;
}
ssize_t read(int fd, void *b, size_t n) {
    REAL("read", ssize_t, int, void *, size_t);
    if (!is(fd)) return r(fd, b, n);
    if (failing(K_READ)) return -1;
    return r(fd, b, maxio > 0 && n > (size_t)maxio ? (size_t)maxio : n);
}
static ssize_t do_pread(int fd, void *b, size_t n, off_t o) {
    REAL("pread64", ssize_t, int, void *, size_t, off_t);
    if (!is(fd)) return r(fd, b, n, o);
    if (failing(K_READ)) return -1;
    return r(fd, b, maxio > 0 && n > (size_t)maxio ? (size_t)maxio : n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
int close(int fd) {
    REAL("close", int, int);
    int t = is(fd);
    if (!t) return r(fd);
    if (t == 1 && !dead && failing(K_CLOSEW)) {
        /* what had not reached the disk by now is lost, the descriptor is gone */
        struct stat s;
        if (losetail > 0 && !fstat(fd, &s)) { int z = ftruncate(fd, s.st_size > losetail ? s.st_size - losetail : 0); (void)z; }
        tracked[fd] = 0;
        r(fd);
        errno = ferr;
        return -1;
    }
    tracked[fd] = 0;
    return r(fd);
}
int fsync(int fd) {
    REAL("fsync", int, int);
    if (!is(fd)) return r(fd);
    return failing(K_FSYNC) ? -1 : 0;
}
int fdatasync(int fd) {
    REAL("fdatasync", int, int);
    if (!is(fd)) return r(fd);
    return failing(K_FSYNC) ? -1 : 0;
}
static int do_trunc(int fd, off_t n) {
    REAL("ftruncate64", int, int, off_t);
    int t = is(fd);
    if (t != 1 && t != 3) return r(fd, n);
    if (failing(K_TRUNC)) return -1;
    if (t == 3 || lost()) return 0;
    return r(fd, n);
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off_t n) { return do_trunc(fd, n); }
int rename(const char *a, const char *b) {
    REAL("rename", int, const char *, const char *);
    if (!mine(a) && !mine(b)) return r(a, b);
    if (failing(K_RENAME)) return -1;
    return lost() ? 0 : r(a, b);
}
int renameat(int d, const char *a, int e, const char *b) {
    REAL("renameat", int, int, const char *, int, const char *);
    if (!mine(a) && !mine(b)) return r(d, a, e, b);
    if (failing(K_RENAME)) return -1;
    return lost() ? 0 : r(d, a, e, b);
}
int unlink(const char *a) {
    REAL("unlink", int, const char *);
    if (!mine(a)) return r(a);
    if (failing(K_UNLINK)) return -1;
    return lost() ? 0 : r(a);
}
int unlinkat(int d, const char *a, int fl) {
    REAL("unlinkat", int, int, const char *, int);
    if (!mine(a)) return r(d, a, fl);
    if (failing(K_UNLINK)) return -1;
    return lost() ? 0 : r(d, a, fl);
}
int mkdir(const char *a, mode_t m) {
    REAL("mkdir", int, const char *, mode_t);
    if (!mine(a)) return r(a, m);
    if (failing(K_MKDIR)) return -1;
    return lost() ? 0 : r(a, m);
}
