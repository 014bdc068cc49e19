/* Counts the file operations a process makes below one directory and makes the k-th of them fail:
 *   mode 0  count only
 *   mode 1  the process dies before the operation
 *   mode 2  the process dies after the first `torn` bytes of a write reached the file (other operations:
 *           after they were done)
 *   mode 3  the operation fails with `err` (once)
 *   mode 4  the operation and all later changing operations fail with `err`
 *   mode 5  `torn` bytes are written (a short write), every later write fails with `err`
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[PATH_MAX];
static size_t root_len;
static int mode = -1, failed;
static long target = -1, count, torn;
static int errval;
static char logbuf[1 << 16];
static size_t loglen;

#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

void ff_arm(const char *r, int m, long k, long t, int e) {
    strncpy(root, r, sizeof root - 1);
    root_len = strlen(root);
    target = k; torn = t; errval = e; count = 0; failed = 0; loglen = 0; logbuf[0] = 0;
    mode = m;
}
void ff_disarm(void) { mode = -1; }
long ff_count(void) { return count; }
const char *ff_log(void) { return logbuf; }

static void die(void) {
    kill(getpid(), SIGKILL);
    for (;;) pause();
}

static int under(const char *p) {
    return strncmp(p, root, root_len) == 0 && (p[root_len] == '/' || p[root_len] == 0);
}

static int fd_under(int fd) {
    char link[64], buf[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, buf, sizeof buf - 1);
    if (n <= 0) return 0;
    buf[n] = 0;
    return under(buf);
}

static int path_under(int dirfd, const char *p) {
    if (!p) return 0;
    if (p[0] == '/') return under(p);
    if (dirfd != AT_FDCWD) return fd_under(dirfd);
    char buf[PATH_MAX];
    if (!getcwd(buf, sizeof buf)) return 0;
    return under(buf);
}

/* 0: do it; 1: fail with errno set; 2: do it, then die; 3: short write of `torn` bytes; 4: torn, die */
static int point(const char *what, const char *name, long size, int changes) {
    int is_write = size >= 0;
    long i = count++;
    if (mode == 0 && loglen < sizeof logbuf - 300)
        loglen += snprintf(logbuf + loglen, 280, "%s %ld %.200s\n", what, size, name ? name : "");
    if (i == target) {
        switch (mode) {
        case 1: die(); break;
        case 2: return is_write ? 4 : 2;
        case 3: case 4: failed = 1; errno = errval; return 1;
        case 5: failed = 1; if (is_write && torn > 0) return 3; errno = errval; return 1;
        }
    } else if (i > target && failed) {
        if (mode == 4 && changes) { errno = errval; return 1; }
        if (mode == 5 && is_write) { errno = errval; return 1; }
    }
    return 0;
}

#define GUARD(dirfd, p, what) \
    int pt = 0; \
    if (mode >= 0 && path_under(dirfd, p)) { \
        pt = point(what, p, -1, 1); \
        if (pt == 1) return -1; \
    }
#define DONE(r) do { __typeof__(r) _r = (r); int _e = errno; if (pt == 2) die(); errno = _e; return _r; } while (0)

#define OPEN_BODY(dfd, CALL) \
    mode_t m = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    int pt = 0; \
    if (mode >= 0 && path_under(dfd, path)) { \
        int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); \
        pt = point(w ? "open-w" : "open-r", path, -1, w); \
        if (pt == 1) return -1; \
    } \
    DONE(CALL)

int open(const char *path, int flags, ...) { REAL(open); OPEN_BODY(AT_FDCWD, real(path, flags, m)); }
int open64(const char *path, int flags, ...) { REAL(open64); OPEN_BODY(AT_FDCWD, real(path, flags, m)); }
int openat(int d, const char *path, int flags, ...) { REAL(openat); OPEN_BODY(d, real(d, path, flags, m)); }
int openat64(int d, const char *path, int flags, ...) { REAL(openat64); OPEN_BODY(d, real(d, path, flags, m)); }
int creat(const char *path, mode_t m) { REAL(creat); GUARD(AT_FDCWD, path, "creat") DONE(real(path, m)); }
int creat64(const char *path, mode_t m) { REAL(creat64); GUARD(AT_FDCWD, path, "creat") DONE(real(path, m)); }

#define WRITE_BODY(n, FULL, PART) \
    int pt = 0; \
    if (mode >= 0 && fd_under(fd)) { \
        pt = point("write", "", (long)(n), 1); \
        if (pt == 1) return -1; \
        if (pt == 3 || pt == 4) { \
            long left = torn < (long)(n) ? torn : (long)(n), done = 0; \
            while (done < left) { long r = PART; if (r <= 0) break; done += r; } \
            if (pt == 4) die(); \
            return done; \
        } \
    } \
    return FULL

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write);
    WRITE_BODY(n, real(fd, buf, n), real(fd, (const char *)buf + done, left - done));
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
    REAL(pwrite64);
    WRITE_BODY(n, real(fd, buf, n, off), real(fd, (const char *)buf + done, left - done, off + done));
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
    REAL(pwrite);
    WRITE_BODY(n, real(fd, buf, n, off), real(fd, (const char *)buf + done, left - done, off + done));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    static __typeof__(&write) wr;
    if (!wr) wr = (__typeof__(&write))dlsym(RTLD_NEXT, "write");
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    WRITE_BODY(n, real(fd, v, c), wr(fd, (const char *)v[0].iov_base + done,
               (left > (long)v[0].iov_len ? (long)v[0].iov_len : left) - done));
}
ssize_t sendfile64(int o, int in, off64_t *off, size_t n) {
    REAL(sendfile64); int fd = o; WRITE_BODY(n, real(o, in, off, n), real(o, in, off, left - done));
}
ssize_t sendfile(int o, int in, off_t *off, size_t n) {
    REAL(sendfile); int fd = o; WRITE_BODY(n, real(o, in, off, n), real(o, in, off, left - done));
}
ssize_t copy_file_range(int in, off64_t *a, int o, off64_t *b, size_t n, unsigned f) {
    REAL(copy_file_range); int fd = o;
    WRITE_BODY(n, real(in, a, o, b, n, f), real(in, a, o, b, left - done, f));
}

#define FD_GUARD(what) \
    int pt = 0; \
    if (mode >= 0 && fd_under(fd)) { pt = point(what, "", -1, 1); if (pt == 1) return -1; }

int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); FD_GUARD("ftruncate") DONE(real(fd, n)); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); FD_GUARD("ftruncate") DONE(real(fd, n)); }
int fsync(int fd) { REAL(fsync); FD_GUARD("fsync") DONE(real(fd)); }
int fdatasync(int fd) { REAL(fdatasync); FD_GUARD("fdatasync") DONE(real(fd)); }
int truncate64(const char *p, off64_t n) { REAL(truncate64); GUARD(AT_FDCWD, p, "truncate") DONE(real(p, n)); }
int truncate(const char *p, off_t n) { REAL(truncate); GUARD(AT_FDCWD, p, "truncate") DONE(real(p, n)); }
int close(int fd) {   /* an error of close still closes the file */
    REAL(close);
    int pt = 0;
    if (mode >= 0 && fd >= 0) {
        int fl = fcntl(fd, F_GETFL);
        if (fl >= 0 && (fl & O_ACCMODE) != O_RDONLY && fd_under(fd)) {
            pt = point("close", "", -1, 0);
            if (pt == 1) { int e = errno; real(fd); errno = e; return -1; }
        }
    }
    DONE(real(fd));
}
int rename(const char *a, const char *b) { REAL(rename); GUARD(AT_FDCWD, b, "rename") DONE(real(a, b)); }
int renameat(int da, const char *a, int db, const char *b) {
    REAL(renameat); GUARD(db, b, "rename") DONE(real(da, a, db, b)); }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) {
    REAL(renameat2); GUARD(db, b, "rename") DONE(real(da, a, db, b, f)); }
int link(const char *a, const char *b) { REAL(link); GUARD(AT_FDCWD, b, "link") DONE(real(a, b)); }
int linkat(int da, const char *a, int db, const char *b, int f) {
    REAL(linkat); GUARD(db, b, "link") DONE(real(da, a, db, b, f)); }
int symlink(const char *a, const char *b) { REAL(symlink); GUARD(AT_FDCWD, b, "symlink") DONE(real(a, b)); }
int symlinkat(const char *a, int db, const char *b) {
    REAL(symlinkat); GUARD(db, b, "symlink") DONE(real(a, db, b)); }
int unlink(const char *p) { REAL(unlink); GUARD(AT_FDCWD, p, "unlink") DONE(real(p)); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); GUARD(d, p, "unlink") DONE(real(d, p, f)); }
int remove(const char *p) { REAL(remove); GUARD(AT_FDCWD, p, "unlink") DONE(real(p)); }
int rmdir(const char *p) { REAL(rmdir); GUARD(AT_FDCWD, p, "rmdir") DONE(real(p)); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); GUARD(AT_FDCWD, p, "mkdir") DONE(real(p, m)); }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); GUARD(d, p, "mkdir") DONE(real(d, p, m)); }
