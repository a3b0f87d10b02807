/* Controls the system calls that modify (or read) files below one directory,
 * in order to crash the process or to fail at any chosen one of them.  Inactive unless
 * armed by the harness via shim_arm(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN, OP_WRITE, OP_TRUNCATE, OP_SYNC, OP_RENAME, OP_UNLINK,
       OP_CLOSE, OP_READ };
enum { M_OFF, M_COUNT, M_CRASH, M_FAIL_ONCE, M_FAIL_ALL, M_SHORT,
       /* These concern reading (and opening for reading) only. */
       M_READ_COUNT, M_READ_ONCE, M_READ_ALL, M_READ_SHORT };
#define WRITING (mode != M_OFF && mode < M_READ_COUNT)
#define READING (mode >= M_READ_COUNT)

#define MAXOPS 65536
static int mode;
static long target, count, injected;
static long shortlen;
static int fail_errno;
static char prefix[4096];
static int op_kind[MAXOPS];
static long op_len[MAXOPS];

void shim_arm(int m, long t, long s, int e, const char *p)
{
    target = t; shortlen = s; fail_errno = e; count = 0; injected = 0;
    strncpy(prefix, p, sizeof(prefix) - 1);
    mode = m;
}
void shim_disarm(void) { mode = M_OFF; }
long shim_count(void) { return count; }
long shim_injected(void) { return injected; }
int shim_kind(long i) { return op_kind[i]; }
long shim_len(long i) { return op_len[i]; }

static int path_matches(const char *path)
{
    return path && strncmp(path, prefix, strlen(prefix)) == 0;
}

static int fd_matches(int fd)
{
    char link[64], path[4096];
    ssize_t n;
    int saved = errno, result = 0;
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    n = readlink(link, path, sizeof(path) - 1);
    if (n > 0) {
        path[n] = 0;
        result = path_matches(path);
    }
    errno = saved;
    return result;
}

/* Returns 0: execute normally, 1: fail, 2: execute partially. */
static int decide(int kind, long len)
{
    long i = count++;
    if (i < MAXOPS) { op_kind[i] = kind; op_len[i] = len; }
    switch (mode) {
    case M_CRASH:
        if (i == target) {
            if (kind == OP_WRITE && shortlen > 0)
                return 2;
            _exit(77);
        }
        return 0;
    case M_FAIL_ONCE:
        if (i == target) { injected++; errno = fail_errno; return 1; }
        return 0;
    case M_FAIL_ALL:
        /* A full disk: files can still be closed and removed. */
        if (i >= target && (kind == OP_OPEN || kind == OP_WRITE ||
                            kind == OP_TRUNCATE || kind == OP_SYNC)) {
            injected++; errno = fail_errno; return 1;
        }
        return 0;
    case M_SHORT:
        if (i == target && kind == OP_WRITE && shortlen > 0 &&
            shortlen < len) { injected++; return 2; }
        return 0;
    case M_READ_ONCE:
        if (i == target) { injected++; errno = fail_errno; return 1; }
        return 0;
    case M_READ_ALL:
        if (i >= target) { injected++; errno = fail_errno; return 1; }
        return 0;
    case M_READ_SHORT:
        if (i == target && kind == OP_READ && shortlen > 0 &&
            shortlen < len) { injected++; return 2; }
        return 0;
    }
    return 0;
}

#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name);

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(write)
    if (!WRITING || !fd_matches(fd)) return real(fd, buf, n);
    int d = decide(OP_WRITE, (long)n);
    if (d == 1) return -1;
    if (d == 2) {
        ssize_t r = real(fd, buf, (size_t)shortlen);
        if (mode == M_CRASH) _exit(77);
        return r;
    }
    return real(fd, buf, n);
}

#define PWRITE(name, offtype) \
ssize_t name(int fd, const void *buf, size_t n, offtype off) \
{ \
    REAL(name) \
    if (!WRITING || !fd_matches(fd)) return real(fd, buf, n, off); \
    int d = decide(OP_WRITE, (long)n); \
    if (d == 1) return -1; \
    if (d == 2) { \
        ssize_t r = real(fd, buf, (size_t)shortlen, off); \
        if (mode == M_CRASH) _exit(77); \
        return r; \
    } \
    return real(fd, buf, n, off); \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    REAL(writev)
    if (!WRITING || !fd_matches(fd)) return real(fd, iov, cnt);
    if (decide(OP_WRITE, 0) == 1) return -1;
    return real(fd, iov, cnt);
}

#define TRUNC(name, offtype) \
int name(int fd, offtype len) \
{ \
    REAL(name) \
    if (!WRITING || !fd_matches(fd)) return real(fd, len); \
    if (decide(OP_TRUNCATE, 0) == 1) return -1; \
    return real(fd, len); \
}
TRUNC(ftruncate, off_t)
TRUNC(ftruncate64, off64_t)

#define SYNC(name) \
int name(int fd) \
{ \
    REAL(name) \
    if (!WRITING || !fd_matches(fd)) return real(fd); \
    if (decide(OP_SYNC, 0) == 1) return -1; \
    return real(fd); \
}
SYNC(fsync)
SYNC(fdatasync)

#define MODIFIES (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)

#define OPEN(name) \
int name(const char *path, int flags, ...) \
{ \
    REAL(name) \
    int m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); \
    } \
    if (((WRITING && (flags & MODIFIES)) || READING) && \
        path_matches(path) && decide(OP_OPEN, 0) == 1) return -1; \
    return real(path, flags, m); \
}
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
int name(int dir, const char *path, int flags, ...) \
{ \
    REAL(name) \
    int m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); \
    } \
    if (((WRITING && (flags & MODIFIES)) || READING) && \
        path_matches(path) && decide(OP_OPEN, 0) == 1) return -1; \
    return real(dir, path, flags, m); \
}
OPENAT(openat)
OPENAT(openat64)

int rename(const char *a, const char *b)
{
    REAL(rename)
    if (WRITING && path_matches(b) && decide(OP_RENAME, 0) == 1)
        return -1;
    return real(a, b);
}

int renameat(int da, const char *a, int db, const char *b)
{
    REAL(renameat)
    if (WRITING && path_matches(b) && decide(OP_RENAME, 0) == 1)
        return -1;
    return real(da, a, db, b);
}

int unlink(const char *a)
{
    REAL(unlink)
    if (WRITING && path_matches(a) && decide(OP_UNLINK, 0) == 1)
        return -1;
    return real(a);
}

int close(int fd)
{
    REAL(close)
    if (WRITING && fd_matches(fd) && decide(OP_CLOSE, 0) == 1) {
        int saved = errno;
        real(fd);
        errno = saved;
        return -1;
    }
    return real(fd);
}

ssize_t read(int fd, void *buf, size_t n)
{
    REAL(read)
    if (!READING || !fd_matches(fd)) return real(fd, buf, n);
    int d = decide(OP_READ, (long)n);
    if (d == 1) return -1;
    return real(fd, buf, d == 2 ? (size_t)shortlen : n);
}

#define PREAD(name, offtype) \
ssize_t name(int fd, void *buf, size_t n, offtype off) \
{ \
    REAL(name) \
    if (!READING || !fd_matches(fd)) return real(fd, buf, n, off); \
    int d = decide(OP_READ, (long)n); \
    if (d == 1) return -1; \
    return real(fd, buf, d == 2 ? (size_t)shortlen : n, off); \
}
PREAD(pread, off_t)
PREAD(pread64, off64_t)
