/* Simulated disk: every file-system call on a path below the registered prefix (and on file
 * descriptors opened there) first asks the simulator what happens to it.
 *
 *   decide(op, path, arg) -> 0          pass the call through
 *                            -errno     the call fails with errno and has no effect
 *                            n > 0      read/write: at most n bytes are transferred
 *
 * `done(op, path, arg, result)` reports what the real call returned.  Calls elsewhere in the
 * file system are never touched.  Off until sim_disk_start() is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

typedef long (*decide_t)(int op, const char *path, const char *path2, long arg);
typedef void (*done_t)(int op, const char *path, int fd, long result, const void *buf, long off);

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_FSYNC, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_TRUNC, OP_MKDIR, OP_CHMOD, OP_LINK, OP_STAT };

static char prefix[PATH_MAX];
static size_t plen;
static decide_t decide;
static done_t done_cb;
static __thread int inside;

#define MAXFD 4096
static char *fdpath[MAXFD];

int sim_disk_start(const char *p, decide_t d, done_t n) {
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    decide = d;
    done_cb = n;
    return 0;
}
void sim_disk_stop(void) { decide = 0; done_cb = 0; plen = 0; }

static const char *abspath(int dirfd, const char *path, char *buf) {
    if (!path) return 0;
    if (path[0] == '/') return path;
    if (dirfd == AT_FDCWD) {
        if (!getcwd(buf, PATH_MAX)) return path;
    } else if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) {
        strcpy(buf, fdpath[dirfd]);
    } else return path;
    size_t n = strlen(buf);
    snprintf(buf + n, PATH_MAX - n, "/%s", path);
    return buf;
}
static int ours(const char *p) { return plen && decide && !inside && p && strncmp(p, prefix, plen) == 0; }
static const char *fdours(int fd) {
    return (plen && decide && !inside && fd >= 0 && fd < MAXFD) ? fdpath[fd] : 0;
}
static long ask(int op, const char *a, const char *b, long arg) {
    inside = 1;
    long r = decide(op, a, b, arg);
    inside = 0;
    return r;
}
static void tell(int op, const char *a, int fd, long res, const void *buf, long off) {
    int e = errno;
    inside = 1;
    if (done_cb) done_cb(op, a, fd, res, buf, off);
    inside = 0;
    errno = e;
}
#define REAL(name, type) static __typeof__(type) *real; if (!real) real = (__typeof__(real))dlsym(RTLD_NEXT, name)
#define FAIL(v) do { errno = (int)-(v); return -1; } while (0)

static int after_open(int fd, const char *p, int flags) {
    if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(p); }
    tell(OP_OPEN, p, fd, fd, 0, flags);
    return fd;
}
#define OPENBODY(callexpr) \
    char b[PATH_MAX]; const char *p = abspath(dirfd, path, b); \
    if (!ours(p)) return callexpr; \
    long d = ask(OP_OPEN, p, 0, flags); if (d < 0) FAIL(d); \
    return after_open(callexpr, p, flags);
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *path, int flags, ...) { GETMODE int dirfd = AT_FDCWD; REAL("open", int(const char *, int, ...)); OPENBODY(real(path, flags, mode)) }
int open64(const char *path, int flags, ...) { GETMODE int dirfd = AT_FDCWD; REAL("open64", int(const char *, int, ...)); OPENBODY(real(path, flags, mode)) }
int openat(int dirfd, const char *path, int flags, ...) { GETMODE REAL("openat", int(int, const char *, int, ...)); OPENBODY(real(dirfd, path, flags, mode)) }
int openat64(int dirfd, const char *path, int flags, ...) { GETMODE REAL("openat64", int(int, const char *, int, ...)); OPENBODY(real(dirfd, path, flags, mode)) }

int close(int fd) {
    REAL("close", int(int));
    const char *p = fdours(fd);
    if (!p) {
        if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; }
        return real(fd);
    }
    char *keep = strdup(p);
    long d = ask(OP_CLOSE, p, 0, fd);
    free(fdpath[fd]); fdpath[fd] = 0;
    int r = real(fd);
    tell(OP_CLOSE, keep, fd, d < 0 ? d : r, 0, 0);
    free(keep);
    if (d < 0) FAIL(d);
    return r;
}

ssize_t write(int fd, const void *buf, size_t n) {
    REAL("write", ssize_t(int, const void *, size_t));
    const char *p = fdours(fd);
    if (!p) return real(fd, buf, n);
    long d = ask(OP_WRITE, p, 0, (long)n);
    if (d < 0) FAIL(d);
    if (d > 0 && (size_t)d < n) n = d;
    off_t off = lseek(fd, 0, SEEK_CUR);
    int fl = fcntl(fd, F_GETFL);
    if (fl >= 0 && (fl & O_APPEND)) { struct stat st; if (!fstat(fd, &st)) off = st.st_size; }
    ssize_t r = real(fd, buf, n);
    tell(OP_WRITE, p, fd, r, buf, off);
    return r;
}
static ssize_t pw(int fd, const void *buf, size_t n, off_t off) {
    REAL("pwrite", ssize_t(int, const void *, size_t, off_t));
    const char *p = fdours(fd);
    if (!p) return real(fd, buf, n, off);
    long d = ask(OP_WRITE, p, 0, (long)n);
    if (d < 0) FAIL(d);
    if (d > 0 && (size_t)d < n) n = d;
    ssize_t r = real(fd, buf, n, off);
    tell(OP_WRITE, p, fd, r, buf, off);
    return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pw(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return pw(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL("writev", ssize_t(int, const struct iovec *, int));
    if (!fdours(fd)) return real(fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return tot ? tot : -1;
        tot += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
}
ssize_t read(int fd, void *buf, size_t n) {
    REAL("read", ssize_t(int, void *, size_t));
    const char *p = fdours(fd);
    if (!p || !n) return real(fd, buf, n);
    long d = ask(OP_READ, p, 0, (long)n);
    if (d < 0) FAIL(d);
    if (d > 0 && (size_t)d < n) n = d;
    return real(fd, buf, n);
}
static ssize_t pr(int fd, void *buf, size_t n, off_t off) {
    REAL("pread", ssize_t(int, void *, size_t, off_t));
    const char *p = fdours(fd);
    if (!p || !n) return real(fd, buf, n, off);
    long d = ask(OP_READ, p, 0, (long)n);
    if (d < 0) FAIL(d);
    if (d > 0 && (size_t)d < n) n = d;
    return real(fd, buf, n, off);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pr(fd, buf, n, off); }
ssize_t pread64(int fd, void *buf, size_t n, off_t off) { return pr(fd, buf, n, off); }
/* Kernel-side copies fall back to read/write in every caller we know. */
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    REAL("copy_file_range", ssize_t(int, off64_t *, int, off64_t *, size_t, unsigned));
    if (fdours(a) || fdours(b)) FAIL(-ENOSYS);
    return real(a, ao, b, bo, n, f);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL("sendfile", ssize_t(int, int, off_t *, size_t));
    if (fdours(o) || fdours(i)) FAIL(-ENOTSOCK);
    return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL("sendfile64", ssize_t(int, int, off64_t *, size_t));
    if (fdours(o) || fdours(i)) FAIL(-ENOTSOCK);
    return real(o, i, off, n);
}
static int sync1(int fd, int (*real)(int)) {
    const char *p = fdours(fd);
    if (!p) return real(fd);
    long d = ask(OP_FSYNC, p, 0, fd);
    if (d < 0) FAIL(d);
    int r = real(fd);
    tell(OP_FSYNC, p, fd, r, 0, 0);
    return r;
}
int fsync(int fd) { REAL("fsync", int(int)); return sync1(fd, real); }
int fdatasync(int fd) { REAL("fdatasync", int(int)); return sync1(fd, real); }
void sync(void) { REAL("sync", void(void)); if (plen && decide && !inside) { if (ask(OP_FSYNC, "*", 0, -1) >= 0) tell(OP_FSYNC, "*", -1, 0, 0, 0); return; } real(); }

static int ren(const char *pa, const char *pb, int (*call)(void *), void *x) {
    long d = ask(OP_RENAME, pa, pb, 0);
    if (d < 0) FAIL(d);
    int r = call(x);
    tell(OP_RENAME, pa, -1, r, pb, 0);
    return r;
}
struct rn { int a, b; const char *p, *q; unsigned f; };
static int do_rn(void *v) { struct rn *x = v; REAL("renameat2", int(int, const char *, int, const char *, unsigned)); return real(x->a, x->p, x->b, x->q, x->f); }
int renameat2(int a, const char *p, int b, const char *q, unsigned f) {
    char b1[PATH_MAX], b2[PATH_MAX]; struct rn x = {a, b, p, q, f};
    const char *pa = abspath(a, p, b1), *pb = abspath(b, q, b2);
    if (!ours(pa) && !ours(pb)) return do_rn(&x);
    return ren(pa, pb, do_rn, &x);
}
int renameat(int a, const char *p, int b, const char *q) { return renameat2(a, p, b, q, 0); }
int rename(const char *p, const char *q) { return renameat2(AT_FDCWD, p, AT_FDCWD, q, 0); }

int unlinkat(int a, const char *p, int f) {
    REAL("unlinkat", int(int, const char *, int));
    char b[PATH_MAX]; const char *pa = abspath(a, p, b);
    if (!ours(pa)) return real(a, p, f);
    long d = ask(OP_UNLINK, pa, 0, 0); if (d < 0) FAIL(d);
    int r = real(a, p, f); tell(OP_UNLINK, pa, -1, r, 0, 0); return r;
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int linkat(int a, const char *p, int b, const char *q, int f) {
    REAL("linkat", int(int, const char *, int, const char *, int));
    char b1[PATH_MAX], b2[PATH_MAX]; const char *pa = abspath(a, p, b1), *pb = abspath(b, q, b2);
    if (!ours(pb)) return real(a, p, b, q, f);
    long d = ask(OP_LINK, pa, pb, 0); if (d < 0) FAIL(d);
    int r = real(a, p, b, q, f); tell(OP_LINK, pa, -1, r, pb, 0); return r;
}
int link(const char *p, const char *q) { return linkat(AT_FDCWD, p, AT_FDCWD, q, 0); }
static int ftr(int fd, off_t n) {
    REAL("ftruncate64", int(int, off_t));
    const char *p = fdours(fd);
    if (!p) return real(fd, n);
    long d = ask(OP_TRUNC, p, 0, n); if (d < 0) FAIL(d);
    int r = real(fd, n); tell(OP_TRUNC, p, fd, r, 0, n); return r;
}
int ftruncate(int fd, off_t n) { return ftr(fd, n); }
int ftruncate64(int fd, off64_t n) { return ftr(fd, n); }
static int tr(const char *path, off_t n) {
    REAL("truncate64", int(const char *, off_t));
    char b[PATH_MAX]; const char *p = abspath(AT_FDCWD, path, b);
    if (!ours(p)) return real(path, n);
    long d = ask(OP_TRUNC, p, 0, n); if (d < 0) FAIL(d);
    int r = real(path, n); tell(OP_TRUNC, p, -1, r, 0, n); return r;
}
int truncate(const char *p, off_t n) { return tr(p, n); }
int truncate64(const char *p, off64_t n) { return tr(p, n); }
int mkdirat(int a, const char *p, mode_t m) {
    REAL("mkdirat", int(int, const char *, mode_t));
    char b[PATH_MAX]; const char *pa = abspath(a, p, b);
    if (!ours(pa)) return real(a, p, m);
    long d = ask(OP_MKDIR, pa, 0, 0); if (d < 0) FAIL(d);
    int r = real(a, p, m); tell(OP_MKDIR, pa, -1, r, 0, 0); return r;
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
int fchmodat(int a, const char *p, mode_t m, int f) {
    REAL("fchmodat", int(int, const char *, mode_t, int));
    char b[PATH_MAX]; const char *pa = abspath(a, p, b);
    if (!ours(pa)) return real(a, p, m, f);
    long d = ask(OP_CHMOD, pa, 0, 0); if (d < 0) FAIL(d);
    return real(a, p, m, f);
}
int chmod(const char *p, mode_t m) {
    REAL("chmod", int(const char *, mode_t));
    char b[PATH_MAX]; const char *pa = abspath(AT_FDCWD, p, b);
    if (!ours(pa)) return real(p, m);
    long d = ask(OP_CHMOD, pa, 0, 0); if (d < 0) FAIL(d);
    return real(p, m);
}
