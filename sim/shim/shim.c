/* Storage seam for the name-table generator: LD_PRELOADed into the real tool, it counts the
 * tool's file operations inside its own scratch directory and fails the ones the plan names.
 *
 * SHIM_PLAN   "class:n:kind:arg:count;..."  the n-th (1-based) call of the class and the count-1 after it
 * SHIM_STATE  a file of 64 u64, shared: calls per class at [0..16), faults fired at [16..64)
 * SHIM_SEED   what getrandom() returns
 *
 * classes: 0 open for reading, 1 open for writing, 2 read, 3 write, 4 rename, 5 sync
 * kinds:   0 EINTR 1 short(arg) 2 ENOSPC 3 EIO 4 zero 5 EACCES 6 ENOENT 7 EMFILE 8 kill 9 EDQUOT
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define NP 32
static struct { int cls, kind; long n, arg, count; } plan[NP];
static int np;
static uint64_t *st, dummy[64];
static char fdc[1024]; /* 1 input, 2 output */
static char base[4096];
static uint64_t rnd = 88172645463325252ULL;

__attribute__((constructor)) static void init(void) {
    st = dummy;
    const char *p = getenv("SHIM_PLAN");
    while (p && *p && np < NP) {
        char *e;
        plan[np].cls = strtol(p, &e, 10); p = e + 1;
        plan[np].n = strtol(p, &e, 10); p = e + 1;
        plan[np].kind = strtol(p, &e, 10); p = e + 1;
        plan[np].arg = strtol(p, &e, 10); p = e + 1;
        plan[np].count = strtol(p, &e, 10);
        np++;
        if (*e != ';') break;
        p = e + 1;
    }
    const char *s = getenv("SHIM_SEED");
    if (s) rnd ^= strtoull(s, 0, 10) * 0x9E3779B97F4A7C15ULL;
    if (!rnd) rnd = 1;
    const char *f = getenv("SHIM_STATE");
    if (f) {
        int fd = syscall(SYS_openat, AT_FDCWD, f, O_RDWR, 0);
        if (fd >= 0) {
            void *m = mmap(0, 512, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) st = m;
            syscall(SYS_close, fd);
        }
    }
    if (syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0;
    char *c = strrchr(base, '/'); /* scratch/codegen -> scratch/ */
    if (c) c[1] = 0;
}

static int inside(const char *p) { return p[0] != '/' || (base[0] && strncmp(p, base, strlen(base)) == 0); }

/* -1: go on; otherwise index of the fault that applies to this call. */
static int due(int cls) {
    uint64_t k = ++st[cls];
    for (int i = 0; i < np; i++)
        if (plan[i].cls == cls && k >= (uint64_t)plan[i].n && k < (uint64_t)(plan[i].n + plan[i].count)) {
            st[16 + i]++;
            if (plan[i].kind == 8) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); }
            return i;
        }
    return -1;
}
static int err(int i) {
    static const int e[] = {EINTR, 0, ENOSPC, EIO, 0, EACCES, ENOENT, EMFILE, EIO, EDQUOT};
    return e[plan[i].kind];
}

static int do_open(int dir, const char *path, int flags, int mode) {
    int cls = -1;
    if (inside(path) && !(flags & O_DIRECTORY)) {
        cls = (flags & O_ACCMODE) == O_RDONLY ? 0 : 1;
        int i = due(cls);
        if (i >= 0 && err(i)) { errno = err(i); return -1; }
    }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (fd >= 0 && fd < 1024) fdc[fd] = cls + 1;
    return fd;
}
#define MODE int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }

static int out(int fd) { return fd >= 0 && fd < 1024 && fdc[fd] == 2; }
static int in(int fd) { return fd >= 0 && fd < 1024 && fdc[fd] == 1; }

static ssize_t fault(int cls, size_t *n) {
    int i = due(cls);
    if (i < 0) return 1;
    if (plan[i].kind == 1) { size_t k = plan[i].arg > 0 ? plan[i].arg : 1; if (*n > k) *n = k; return 1; }
    if (plan[i].kind == 4) return 0;
    errno = err(i);
    return -1;
}
ssize_t read(int fd, void *b, size_t n) {
    if (in(fd) && n) { ssize_t r = fault(2, &n); if (r <= 0) return r; }
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    if (out(fd) && n) { ssize_t r = fault(3, &n); if (r <= 0) return r; }
    return syscall(SYS_write, fd, b, n);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (in(fd)) { for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len); return 0; }
    return syscall(SYS_readv, fd, v, c);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (out(fd)) { for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); return 0; }
    return syscall(SYS_writev, fd, v, c);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
    if (in(fd) && n) { ssize_t r = fault(2, &n); if (r <= 0) return r; }
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    if (out(fd) && n) { ssize_t r = fault(3, &n); if (r <= 0) return r; }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
int close(int fd) { if (fd >= 0 && fd < 1024) fdc[fd] = 0; return syscall(SYS_close, fd); }
int rename(const char *a, const char *b) {
    if (inside(a)) { int i = due(4); if (i >= 0 && err(i)) { errno = err(i); return -1; } }
    return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
}
static int sync_(int nr, int fd) {
    if (out(fd)) { int i = due(5); if (i >= 0 && err(i)) { errno = err(i); return -1; } }
    return syscall(nr, fd);
}
int fsync(int fd) { return sync_(SYS_fsync, fd); }
int fdatasync(int fd) { return sync_(SYS_fdatasync, fd); }
/* Whole-file copies bypass read and write: make the caller fall back to them. */
ssize_t copy_file_range(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) {
    if (in(a) || out(b)) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
ssize_t sendfile64(int o, int i, off_t *x, size_t n) {
    if (in(i) || out(o)) { errno = ENOSYS; return -1; }
    return syscall(SYS_sendfile, o, i, x, n);
}
ssize_t sendfile(int o, int i, off_t *x, size_t n) { return sendfile64(o, i, x, n); }

ssize_t getrandom(void *b, size_t n, unsigned f) {
    (void)f;
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; p[i] = rnd >> 24; }
    return n;
}
