/* LD_PRELOAD library: records every call that changes files below
   IOSHIM_PREFIX, and makes chosen calls fail.  Used by the crash and fault
   checks (pbt/disk.py). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <limits.h>
#include <unistd.h>

#define MAXFD 4096
static unsigned char tracked[MAXFD];
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static int enabled;
static char *buffer;
static size_t used, size;
static long count, fail_at = -1, fail_partial = -1, fired;
static int fail_errno, fail_mode; /* 0 once, 1 every write from then on */
static int full;

#define REAL(ret, name, args) \
    static ret (*real_##name) args; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name);

static void put(const void *p, size_t n)
{
    if (used + n > size) {
        size = (used + n) * 2 + 65536;
        buffer = realloc(buffer, size);
    }
    memcpy(buffer + used, p, n);
    used += n;
}

static void event(char type, uint64_t a, uint64_t b, const void *data,
                  uint64_t n)
{
    if (!enabled) return;
    put(&type, 1); put(&a, 8); put(&b, 8); put(&n, 8);
    if (n) put(data, n);
}

void ioshim_start(void)
{
    pthread_mutex_lock(&lock);
    used = 0; count = 0; fail_at = -1; fired = 0; full = 0; enabled = 1;
    pthread_mutex_unlock(&lock);
}
void ioshim_stop(void) { enabled = 0; fail_at = -1; full = 0; }
void ioshim_mark(long n)
{
    pthread_mutex_lock(&lock);
    event('M', n, 0, 0, 0);
    pthread_mutex_unlock(&lock);
}
size_t ioshim_size(void) { return used; }
char *ioshim_data(void) { return buffer; }
long ioshim_count(void) { return count; }
long ioshim_fired(void) { return fired; }
/* The n-th changing call from now on fails. */
void ioshim_fail(long n, int err, long partial, int mode)
{
    pthread_mutex_lock(&lock);
    fail_at = count + n; fail_errno = err; fail_partial = partial;
    fail_mode = mode; fired = 0; full = 0;
    pthread_mutex_unlock(&lock);
}
void ioshim_heal(void) { fail_at = -1; full = 0; }

static const char *prefix(void)
{
    static const char *p;
    if (!p) p = getenv("IOSHIM_PREFIX");
    return p ? p : "\1";
}

static int inside(const char *path)
{
    char full_path[PATH_MAX];
    if (!path) return 0;
    if (path[0] != '/') {
        if (!getcwd(full_path, sizeof full_path)) return 0;
        return !strncmp(full_path, prefix(), strlen(prefix()));
    }
    return !strncmp(path, prefix(), strlen(prefix()));
}

static int is_tracked(int fd)
{
    return enabled && fd >= 0 && fd < MAXFD && tracked[fd];
}

static uint64_t ino_of(int fd)
{
    struct stat st;
    if (fstat(fd, &st)) return 0;
    return st.st_ino;
}

/* Called with the lock held.  kind: 'W' for writes.  1: this call fails. */
static int failing(char kind)
{
    long n;
    if (!enabled) return 0;
    n = count++;
    if (full && kind == 'W') { errno = fail_errno; return 1; }
    if (fail_at >= 0 && n == fail_at) {
        fail_at = -1;
        fired = kind;
        if (fail_mode == 1) full = 1;
        errno = fail_errno;
        return 1;
    }
    return 0;
}

static int do_open(int (*real)(int, const char *, int, mode_t), int dir,
                   const char *path, int flags, mode_t mode)
{
    int fd, existed, changes;
    struct stat st;
    if (!(dir == AT_FDCWD || (path && path[0] == '/')) || !inside(path))
        return real(dir, path, flags, mode);
    pthread_mutex_lock(&lock);
    existed = !stat(path, &st);
    changes = ((flags & O_CREAT) && !existed) ||
        ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY);
    if (changes && failing('O')) {
        pthread_mutex_unlock(&lock);
        return -1;
    }
    fd = real(dir, path, flags, mode);
    if (fd >= 0 && fd < MAXFD && !(flags & O_DIRECTORY) &&
        (!fstat(fd, &st) && S_ISREG(st.st_mode))) {
        tracked[fd] = 1;
        if (!enabled)
            ;
        else if (!existed)
            event('O', st.st_ino, 1, path, strlen(path));
        else if (changes)
            event('T', st.st_ino, 0, 0, 0);
    }
    pthread_mutex_unlock(&lock);
    return fd;
}

static int r_open(int d, const char *p, int f, mode_t m)
{ REAL(int, open64, (const char *, int, ...)) return real_open64(p, f, m); }
static int r_openat(int d, const char *p, int f, mode_t m)
{ REAL(int, openat64, (int, const char *, int, ...))
  return real_openat64(d, p, f, m); }

#define MODE(flags) mode_t mode = 0; \
    if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); \
        mode = va_arg(ap, int); va_end(ap); }

int open(const char *p, int flags, ...)
{ MODE(flags) return do_open(r_open, AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...)
{ MODE(flags) return do_open(r_open, AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...)
{ MODE(flags) return do_open(r_openat, d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...)
{ MODE(flags) return do_open(r_openat, d, p, flags, mode); }

int close(int fd)
{
    REAL(int, close, (int))
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    return real_close(fd);
}

static ssize_t do_write(int fd, const void *data, size_t n, off_t at)
{
    REAL(ssize_t, write, (int, const void *, size_t))
    REAL(ssize_t, pwrite64, (int, const void *, size_t, off_t))
    ssize_t done;
    struct stat st;
    pthread_mutex_lock(&lock);
    if (failing('W')) {
        int error = errno;
        if (fired && fail_partial > 0 && n > 1) {
            /* a part of it, once; the next write fails completely */
            n = fail_partial % n;
            fail_partial = -1;
            full = fail_mode == 1 ? 1 : full;
            if (!n) n = 1;
            if (fail_mode == 0) fail_at = count;
        }
        else {
            errno = error;
            pthread_mutex_unlock(&lock);
            return -1;
        }
    }
    fstat(fd, &st);
    if (at < 0) {
        off_t p = (fcntl(fd, F_GETFL) & O_APPEND) ? st.st_size
            : lseek(fd, 0, SEEK_CUR);
        done = real_write(fd, data, n);
        if (done > 0) event('W', st.st_ino, p, data, done);
    }
    else {
        done = real_pwrite64(fd, data, n, at);
        if (done > 0) event('W', st.st_ino, at, data, done);
    }
    pthread_mutex_unlock(&lock);
    return done;
}

ssize_t write(int fd, const void *data, size_t n)
{
    REAL(ssize_t, write, (int, const void *, size_t))
    if (!is_tracked(fd)) return real_write(fd, data, n);
    return do_write(fd, data, n, -1);
}
ssize_t pwrite(int fd, const void *data, size_t n, off_t at)
{
    REAL(ssize_t, pwrite64, (int, const void *, size_t, off_t))
    if (!is_tracked(fd)) return real_pwrite64(fd, data, n, at);
    return do_write(fd, data, n, at);
}
ssize_t pwrite64(int fd, const void *data, size_t n, off_t at)
{
    REAL(ssize_t, pwrite64, (int, const void *, size_t, off_t))
    if (!is_tracked(fd)) return real_pwrite64(fd, data, n, at);
    return do_write(fd, data, n, at);
}
ssize_t writev(int fd, const struct iovec *iov, int n)
{
    REAL(ssize_t, writev, (int, const struct iovec *, int))
    if (!is_tracked(fd)) return real_writev(fd, iov, n);
    /* As if only the first part had been written: callers must go on. */
    while (n > 0 && iov->iov_len == 0) { iov++; n--; }
    if (n <= 0) return 0;
    return do_write(fd, iov->iov_base, iov->iov_len, -1);
}
ssize_t pwritev(int fd, const struct iovec *iov, int n, off_t at)
{
    REAL(ssize_t, pwritev, (int, const struct iovec *, int, off_t))
    if (!is_tracked(fd)) return real_pwritev(fd, iov, n, at);
    while (n > 0 && iov->iov_len == 0) { iov++; n--; }
    if (n <= 0) return 0;
    return do_write(fd, iov->iov_base, iov->iov_len, at);
}
/* Callers fall back to plain writes. */
ssize_t sendfile(int out, int in, off_t *offset, size_t n)
{
    REAL(ssize_t, sendfile, (int, int, off_t *, size_t))
    if (is_tracked(out)) { errno = ENOTSOCK; return -1; }
    return real_sendfile(out, in, offset, n);
}
ssize_t sendfile64(int out, int in, off_t *offset, size_t n)
{
    REAL(ssize_t, sendfile64, (int, int, off_t *, size_t))
    if (is_tracked(out)) { errno = ENOTSOCK; return -1; }
    return real_sendfile64(out, in, offset, n);
}
ssize_t copy_file_range(int in, off_t *oi, int out, off_t *oo, size_t n,
                        unsigned f)
{
    REAL(ssize_t, copy_file_range, (int, off_t *, int, off_t *, size_t,
                                    unsigned))
    if (is_tracked(out)) { errno = ENOSYS; return -1; }
    return real_copy_file_range(in, oi, out, oo, n, f);
}

static int do_truncate(int fd, off_t n)
{
    REAL(int, ftruncate64, (int, off_t))
    int result;
    if (!is_tracked(fd)) return real_ftruncate64(fd, n);
    pthread_mutex_lock(&lock);
    if (failing('T')) result = -1;
    else {
        result = real_ftruncate64(fd, n);
        if (!result) event('T', ino_of(fd), n, 0, 0);
    }
    pthread_mutex_unlock(&lock);
    return result;
}
int ftruncate(int fd, off_t n) { return do_truncate(fd, n); }
int ftruncate64(int fd, off_t n) { return do_truncate(fd, n); }
int truncate(const char *path, off_t n)
{
    REAL(int, truncate, (const char *, off_t))
    struct stat st;
    int result;
    if (!inside(path)) return real_truncate(path, n);
    pthread_mutex_lock(&lock);
    if (failing('T')) result = -1;
    else {
        result = real_truncate(path, n);
        if (!result && !stat(path, &st)) event('T', st.st_ino, n, 0, 0);
    }
    pthread_mutex_unlock(&lock);
    return result;
}
int truncate64(const char *path, off_t n) { return truncate(path, n); }

static int do_sync(int fd, int data)
{
    REAL(int, fsync, (int))
    REAL(int, fdatasync, (int))
    int result;
    if (!is_tracked(fd)) return data ? real_fdatasync(fd) : real_fsync(fd);
    pthread_mutex_lock(&lock);
    if (failing('F')) result = -1;
    else {
        result = 0; /* no need to bother the disk */
        event('F', ino_of(fd), 0, 0, 0);
    }
    pthread_mutex_unlock(&lock);
    return result;
}
int fsync(int fd) { return do_sync(fd, 0); }
int fdatasync(int fd) { return do_sync(fd, 1); }

static void two(char type, const char *a, const char *b)
{
    size_t n = strlen(a), m = strlen(b);
    char *both = malloc(n + m + 2);
    memcpy(both, a, n + 1);
    memcpy(both + n + 1, b, m + 1);
    event(type, 0, 0, both, n + m + 1);
    free(both);
}

#define TWO(name, type, args, call, a, b) \
int name args \
{ \
    static int (*real) args; \
    int result; \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    if (!inside(a) && !inside(b)) return real call; \
    pthread_mutex_lock(&lock); \
    if (failing(type)) result = -1; \
    else { result = real call; if (!result) two(type, a, b); } \
    pthread_mutex_unlock(&lock); \
    return result; \
}
TWO(rename, 'R', (const char *a, const char *b), (a, b), a, b)
TWO(renameat, 'R', (int d, const char *a, int e, const char *b),
    (d, a, e, b), a, b)
TWO(link, 'L', (const char *a, const char *b), (a, b), a, b)
TWO(linkat, 'L', (int d, const char *a, int e, const char *b, int f),
    (d, a, e, b, f), a, b)

int unlink(const char *path)
{
    REAL(int, unlink, (const char *))
    int result;
    if (!inside(path)) return real_unlink(path);
    pthread_mutex_lock(&lock);
    if (access(path, F_OK)) { result = real_unlink(path); }
    else if (failing('U')) result = -1;
    else {
        result = real_unlink(path);
        if (!result) event('U', 0, 0, path, strlen(path));
    }
    pthread_mutex_unlock(&lock);
    return result;
}
int unlinkat(int dir, const char *path, int flags)
{
    REAL(int, unlinkat, (int, const char *, int))
    if (flags || !inside(path) || dir != AT_FDCWD)
        return real_unlinkat(dir, path, flags);
    return unlink(path);
}
int remove(const char *path)
{
    REAL(int, remove, (const char *))
    struct stat st;
    if (!inside(path) || (!lstat(path, &st) && S_ISDIR(st.st_mode)))
        return real_remove(path);
    return unlink(path);
}
