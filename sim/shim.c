/* libvsim: the simulator's system-call seam.
 *
 * Preloaded into the Python worker (LD_PRELOAD).  It interposes on the libc entry points through
 * which CPython, lxml and every other extension reach the file system, the wall clock and the
 * random source.  Calls that concern files below the simulated directory are announced to one
 * Python callback, which decides whether the call proceeds, transfers short or fails; the callback
 * may also hand control to another simulated thread.  Everything else passes straight through.
 * Nothing is interposed on until vs_setup() is called.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_SYNC, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_LINK, OP_MKDIR, OP_RMDIR, OP_CHMOD, OP_SYMLINK };

/* before the call: return 0 = proceed, < 0 = fail with errno -ret, > 0 = transfer at most ret bytes */
typedef long (*vs_pre_t)(int op, long fd, const char *p1, const char *p2, long a, long b, const void *buf);
/* after a call that was carried out */
typedef void (*vs_post_t)(int op, long fd, long result, int err);

static vs_pre_t pre_cb;
static vs_post_t post_cb;
static char root[PATH_MAX];
static size_t root_len;
static volatile int active;
static __thread int inside;
#define NFD 65536
static unsigned char tracked[NFD];

static volatile int clock_on;
static volatile long long now_ns, tick_ns;
static volatile long long clock_reads;
static volatile int rand_on;
static uint64_t rand_state;
static volatile long long rand_bytes;

void vs_setup(const char *r, vs_pre_t pre, vs_post_t post)
{
    strncpy(root, r, sizeof root - 1);
    root_len = strlen(root);
    pre_cb = pre;
    post_cb = post;
}
void vs_active(int on) { active = on; }
void vs_inside(int on) { inside = on; }
void vs_clock(int on, long long now, long long tick) { clock_on = on; now_ns = now; tick_ns = tick; }
long long vs_now(void) { return now_ns; }
long long vs_clock_reads(void) { return clock_reads; }
void vs_random(int on, uint64_t seed) { rand_on = on; rand_state = seed; }
long long vs_random_bytes(void) { return rand_bytes; }

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

/* absolute form of path; 1 if it lies below the simulated directory */
static int below(int dirfd, const char *path, char *out)
{
    if (!active || inside || !path || !pre_cb) return 0;
    if (path[0] == '/') {
        if (strlen(path) >= PATH_MAX) return 0;
        strcpy(out, path);
    } else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, base, sizeof base) < 0) return 0;
        } else {
            char link[64];
            snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(link, base, sizeof base - 1);
            if (n < 0) return 0;
            base[n] = 0;
        }
        if (snprintf(out, PATH_MAX, "%s/%s", base, path) >= PATH_MAX) return 0;
    }
    return strncmp(out, root, root_len) == 0 && (out[root_len] == '/' || out[root_len] == 0);
}
static int fd_tracked(int fd) { return active && !inside && pre_cb && fd >= 0 && fd < NFD && tracked[fd]; }
static long pre(int op, long fd, const char *p1, const char *p2, long a, long b, const void *buf)
{
    inside = 1;
    long r = pre_cb(op, fd, p1, p2, a, b, buf);
    inside = 0;
    return r;
}
static void post(int op, long fd, long result)
{
    int e = errno;
    if (post_cb) {
        inside = 1;
        post_cb(op, fd, result, result < 0 ? e : 0);
        inside = 0;
    }
    errno = e;
}

/* files carry the simulated time of their last change */
static void stamp(int fd)
{
    if (!clock_on || now_ns < 0) return;
    int e = errno;
    struct timespec t = { now_ns / 1000000000LL, now_ns % 1000000000LL }, ts[2] = { t, t };
    syscall(SYS_utimensat, fd, NULL, ts, 0);
    errno = e;
}

/* ---------- open ---------- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    char abs[PATH_MAX];
    int in = below(dirfd, path, abs);
    if (!in) {
        /* files created or written elsewhere are watched too */
        int writes = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
        if (!writes || !active || inside || !path || !pre_cb || path[0] != '/' || !strncmp(path, "/dev/", 5) || !strncmp(path, "/proc/", 6))
            return syscall(SYS_openat, dirfd, path, flags, mode);
        snprintf(abs, sizeof abs, "%s", path);
    }
    long d = pre(OP_OPEN, -1, abs, NULL, flags, mode, NULL);
    if (d < 0) { errno = -d; return -1; }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < NFD) tracked[fd] = 1;
    if (fd >= 0 && (flags & (O_CREAT | O_TRUNC))) stamp(fd);
    post(OP_OPEN, fd, fd);
    return fd;
}
#define OPEN_MODE() mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { OPEN_MODE(); return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { OPEN_MODE(); return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int dirfd, const char *path, int flags, ...) { OPEN_MODE(); return do_open(dirfd, path, flags, mode); }
int openat64(int dirfd, const char *path, int flags, ...) { OPEN_MODE(); return do_open(dirfd, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

/* ---------- data transfer ---------- */
ssize_t read(int fd, void *buf, size_t n)
{
    if (!fd_tracked(fd)) return syscall(SYS_read, fd, buf, n);
    long d = pre(OP_READ, fd, NULL, NULL, n, 0, NULL);
    if (d < 0) { errno = -d; return -1; }
    if (d > 0 && (size_t)d < n) n = d;
    ssize_t r = syscall(SYS_read, fd, buf, n);
    post(OP_READ, fd, r);
    return r;
}
ssize_t pread(int fd, void *buf, size_t n, off_t off)
{
    if (!fd_tracked(fd)) return syscall(SYS_pread64, fd, buf, n, off);
    long d = pre(OP_READ, fd, NULL, NULL, n, 0, NULL);
    if (d < 0) { errno = -d; return -1; }
    if (d > 0 && (size_t)d < n) n = d;
    ssize_t r = syscall(SYS_pread64, fd, buf, n, off);
    post(OP_READ, fd, r);
    return r;
}
ssize_t pread64(int fd, void *buf, size_t n, off_t off) { return pread(fd, buf, n, off); }
static long write_pos(int fd)
{
    int fl = fcntl(fd, F_GETFL);
    if (fl >= 0 && (fl & O_APPEND)) {
        struct stat st;
        if (fstat(fd, &st) == 0) return st.st_size;
    }
    return lseek(fd, 0, SEEK_CUR);
}
ssize_t write(int fd, const void *buf, size_t n)
{
    if (!fd_tracked(fd)) return syscall(SYS_write, fd, buf, n);
    long d = pre(OP_WRITE, fd, NULL, NULL, n, write_pos(fd), buf);
    if (d < 0) { errno = -d; return -1; }
    if (d > 0 && (size_t)d < n) n = d;
    ssize_t r = syscall(SYS_write, fd, buf, n);
    if (r > 0) stamp(fd);
    post(OP_WRITE, fd, r);
    return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off)
{
    if (!fd_tracked(fd)) return syscall(SYS_pwrite64, fd, buf, n, off);
    long d = pre(OP_WRITE, fd, NULL, NULL, n, off, buf);
    if (d < 0) { errno = -d; return -1; }
    if (d > 0 && (size_t)d < n) n = d;
    ssize_t r = syscall(SYS_pwrite64, fd, buf, n, off);
    if (r > 0) stamp(fd);
    post(OP_WRITE, fd, r);
    return r;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return pwrite(fd, buf, n, off); }
/* vectored calls transfer their first non-empty buffer only, which is a legal short transfer */
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!fd_tracked(fd)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t readv(int fd, const struct iovec *v, int c)
{
    if (!fd_tracked(fd)) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
/* in-kernel copies are reported as unsupported, so callers fall back to read and write */
ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
    if (!fd_tracked(out)) return syscall(SYS_sendfile, out, in, off, n);
    errno = EINVAL;
    return -1;
}
ssize_t sendfile64(int out, int in, off_t *off, size_t n) { return sendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off_t *io, int out, off_t *oo, size_t n, unsigned fl)
{
    if (!fd_tracked(out)) return syscall(SYS_copy_file_range, in, io, out, oo, n, fl);
    errno = EINVAL;
    return -1;
}
int close(int fd)
{
    if (!fd_tracked(fd)) {
        if (fd >= 0 && fd < NFD) tracked[fd] = 0;
        return syscall(SYS_close, fd);
    }
    long d = pre(OP_CLOSE, fd, NULL, NULL, 0, 0, NULL);
    tracked[fd] = 0;
    int r = syscall(SYS_close, fd);   /* Linux closes the descriptor also when close() fails */
    if (d < 0) { errno = -d; r = -1; }
    post(OP_CLOSE, fd, r);
    return r;
}
static int do_sync(int fd, long nr)
{
    if (!fd_tracked(fd)) return syscall(nr, fd);
    long d = pre(OP_SYNC, fd, NULL, NULL, 0, 0, NULL);
    if (d < 0) { errno = -d; return -1; }
    post(OP_SYNC, fd, 0);
    return 0;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
int syncfs(int fd)
{
    if (!fd_tracked(fd)) return syscall(SYS_syncfs, fd);
    long d = pre(OP_SYNC, -2, NULL, NULL, 0, 0, NULL);
    if (d < 0) { errno = -d; return -1; }
    post(OP_SYNC, -2, 0);
    return 0;
}
void sync(void)
{
    if (!active || inside || !pre_cb) { syscall(SYS_sync); return; }
    pre(OP_SYNC, -2, NULL, NULL, 0, 0, NULL);
    post(OP_SYNC, -2, 0);
}
int ftruncate(int fd, off_t len)
{
    if (!fd_tracked(fd)) return syscall(SYS_ftruncate, fd, len);
    long d = pre(OP_TRUNC, fd, NULL, NULL, len, 0, NULL);
    if (d < 0) { errno = -d; return -1; }
    int r = syscall(SYS_ftruncate, fd, len);
    post(OP_TRUNC, fd, r);
    return r;
}
int ftruncate64(int fd, off_t len) { return ftruncate(fd, len); }
int truncate(const char *path, off_t len)
{
    char abs[PATH_MAX];
    if (!below(AT_FDCWD, path, abs)) return syscall(SYS_truncate, path, len);
    long d = pre(OP_TRUNC, -1, abs, NULL, len, 0, NULL);
    if (d < 0) { errno = -d; return -1; }
    int r = syscall(SYS_truncate, path, len);
    post(OP_TRUNC, -1, r);
    return r;
}
int truncate64(const char *path, off_t len) { return truncate(path, len); }

/* ---------- names ---------- */
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl)
{
    char pa[PATH_MAX], pb[PATH_MAX];
    int ia = below(d1, a, pa), ib = below(d2, b, pb);
    if (!ia && !ib) return syscall(SYS_renameat2, d1, a, d2, b, fl);
    long d = pre(OP_RENAME, -1, ia ? pa : a, ib ? pb : b, fl, 0, NULL);
    if (d < 0) { errno = -d; return -1; }
    int r = syscall(SYS_renameat2, d1, a, d2, b, fl);
    post(OP_RENAME, -1, r);
    return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { return do_rename(d1, a, d2, b, fl); }
static int do_unlink(int dirfd, const char *path, int fl)
{
    char abs[PATH_MAX];
    if (!below(dirfd, path, abs)) return syscall(SYS_unlinkat, dirfd, path, fl);
    int op = (fl & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK;
    long d = pre(op, -1, abs, NULL, 0, 0, NULL);
    if (d < 0) { errno = -d; return -1; }
    int r = syscall(SYS_unlinkat, dirfd, path, fl);
    post(op, -1, r);
    return r;
}
int unlink(const char *path) { return do_unlink(AT_FDCWD, path, 0); }
int unlinkat(int dirfd, const char *path, int fl) { return do_unlink(dirfd, path, fl); }
int rmdir(const char *path) { return do_unlink(AT_FDCWD, path, AT_REMOVEDIR); }
static int do_link(int d1, const char *a, int d2, const char *b, int fl)
{
    char pa[PATH_MAX], pb[PATH_MAX];
    int ia = below(d1, a, pa), ib = below(d2, b, pb);
    if (!ib) return syscall(SYS_linkat, d1, a, d2, b, fl);
    long d = pre(OP_LINK, -1, ia ? pa : a, pb, 0, 0, NULL);
    if (d < 0) { errno = -d; return -1; }
    int r = syscall(SYS_linkat, d1, a, d2, b, fl);
    post(OP_LINK, -1, r);
    return r;
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { return do_link(d1, a, d2, b, fl); }
int symlink(const char *a, const char *b)
{
    char pb[PATH_MAX];
    if (!below(AT_FDCWD, b, pb)) return syscall(SYS_symlink, a, b);
    long d = pre(OP_SYMLINK, -1, a, pb, 0, 0, NULL);
    if (d < 0) { errno = -d; return -1; }
    int r = syscall(SYS_symlink, a, b);
    post(OP_SYMLINK, -1, r);
    return r;
}
int mkdir(const char *path, mode_t mode)
{
    char abs[PATH_MAX];
    if (!below(AT_FDCWD, path, abs)) return syscall(SYS_mkdir, path, mode);
    long d = pre(OP_MKDIR, -1, abs, NULL, mode, 0, NULL);
    if (d < 0) { errno = -d; return -1; }
    int r = syscall(SYS_mkdir, path, mode);
    post(OP_MKDIR, -1, r);
    return r;
}

/* ---------- clock ---------- */
static void sim_time(struct timespec *ts)
{
    long long t = now_ns;
    now_ns += tick_ns;
    clock_reads++;
    long long s = t / 1000000000LL, n = t % 1000000000LL;
    if (n < 0) { n += 1000000000LL; s--; }
    ts->tv_sec = s;
    ts->tv_nsec = n;
}
int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (clock_on && !inside && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) { sim_time(ts); return 0; }
    REAL(int, "clock_gettime", clockid_t, struct timespec *);
    return real(id, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    if (clock_on && !inside) {
        struct timespec ts;
        sim_time(&ts);
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    REAL(int, "gettimeofday", struct timeval *restrict, void *restrict);
    return real(tv, tz);
}
time_t time(time_t *t)
{
    if (clock_on && !inside) {
        struct timespec ts;
        sim_time(&ts);
        if (t) *t = ts.tv_sec;
        return ts.tv_sec;
    }
    REAL(time_t, "time", time_t *);
    return real(t);
}

/* ---------- randomness (splitmix64) ---------- */
static uint64_t next64(void)
{
    uint64_t z = (rand_state += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
ssize_t getrandom(void *buf, size_t n, unsigned flags)
{
    if (!rand_on || inside) {
        REAL(ssize_t, "getrandom", void *, size_t, unsigned);
        return real(buf, n, flags);
    }
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)next64();
    rand_bytes += n;
    return n;
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }
