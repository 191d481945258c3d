/* LD_PRELOAD seam below the Python interpreter: every file system call on the scratch tree, the
 * wall clock, the process id and the random source of the code under test goes through here.
 * A run's plan (faults, crash point, clock, listing order) is read from a shared mapping that the
 * harness fills in, and every operation is recorded there.  Nothing here draws from a real clock
 * or random source while a run is enabled. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { K_OPENR, K_OPENW, K_READ, K_WRITE, K_CLOSE, K_FSYNC, K_RENAME, K_UNLINK, K_MKDIR, K_TRUNC,
       K_CHMOD, K_LIST, K_LINK, K_RMDIR };
enum { A_NONE, A_ERR, A_SHORT, A_CRASH_BEFORE, A_CRASH_AFTER, A_TORN, A_SIGINT, A_LIMIT };

struct rule {
    uint32_t opmask, nth, count, action;
    int32_t arg;
    uint32_t hits, fired, suffix;      
    char sub[96];
};
struct clkjump { uint32_t at, pad; int64_t delta; };
struct hdr {
    uint32_t magic, enabled, nrules, opseq;
    uint32_t yield_on, crashed, escapes, listseed;
    uint64_t clock_ns, clock_step;
    uint32_t clock_reads, nclk;
    struct clkjump clk[16];
    uint64_t rnd;
    uint32_t arena_used, arena_cap, overflow, fakepid;
    uint32_t yields, sigints, shortreads, pad2;
    char root[4][256];                  /* 0 tracked rw, 1 tracked read-only data, 2 harness files */
    char lastescape[256];
    struct rule rules[32];
};
static struct hdr *H;
static char *arena;
static int wid = 0, yup = -1, ydown = -1;
static int fakeoff = 0;

#define NFD 1024
static struct { char *path; int w; } fds[NFD];

#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__)
REAL(int, open, const char *, int, ...);
REAL(int, openat, int, const char *, int, ...);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
REAL(ssize_t, write, int, const void *, size_t);
REAL(int, close, int);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, ftruncate64, int, off64_t);
REAL(int, truncate64, const char *, off64_t);
REAL(int, rename, const char *, const char *);
REAL(int, unlink, const char *);
REAL(int, rmdir, const char *);
REAL(int, mkdir, const char *, mode_t);
REAL(int, link, const char *, const char *);
REAL(int, symlink, const char *, const char *);
REAL(int, chmod, const char *, mode_t);
REAL(DIR *, opendir, const char *);
REAL(DIR *, fdopendir, int);
REAL(struct dirent64 *, readdir64, DIR *);
REAL(int, closedir, DIR *);
REAL(void, rewinddir, DIR *);
REAL(int, clock_gettime, clockid_t, struct timespec *);
REAL(int, gettimeofday, struct timeval *, void *);
REAL(time_t, time, time_t *);
REAL(ssize_t, getrandom, void *, size_t, unsigned);

__attribute__((constructor)) static void init(void)
{
#define L(n) *(void **)&r_##n = dlsym(RTLD_NEXT, #n)
    L(open); L(openat); L(read); L(pread64); L(write); L(close); L(fsync); L(fdatasync);
    L(ftruncate64); L(truncate64); L(rename); L(unlink); L(rmdir); L(mkdir); L(link); L(symlink);
    L(chmod); L(opendir); L(fdopendir); L(readdir64); L(closedir); L(rewinddir); L(clock_gettime);
    L(gettimeofday); L(time); L(getrandom);
    const char *p = getenv("SIM_SHM");
    if (p) {
        int fd = r_open(p, O_RDWR | O_CLOEXEC);
        if (fd >= 0) {
            struct stat st;
            fstat(fd, &st);
            H = mmap(0, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (H == MAP_FAILED) H = 0;
            else {
                arena = (char *)H + ((sizeof(struct hdr) + 4095) & ~4095UL);
                H->arena_cap = st.st_size - (arena - (char *)H);
                H->magic = 0x51D17001;
            }
            r_close(fd);
        }
    }
}

/* called by the harness through ctypes */
void sim_worker(int id, int up, int down) { wid = id; yup = up; ydown = down; fakeoff = id; }
int sim_sizeof(void) { return sizeof(struct hdr); }
int sim_arena_off(void) { return (sizeof(struct hdr) + 4095) & ~4095; }

static int on(void) { return H && H->enabled; }

static void full(const char *p, char *out, size_t n)
{
    if (p[0] == '/') snprintf(out, n, "%s", p);
    else {
        char cwd[2048];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) cwd[0] = 0;
        while (p[0] == '.' && p[1] == '/') p += 2;
        snprintf(out, n, "%s/%s", cwd, p);
    }
    /* squeeze // and /./ */
    char *d = out; const char *s = out;
    while (*s) {
        if (s[0] == '/' && s[1] == '/') { s++; continue; }
        if (s[0] == '/' && s[1] == '.' && (s[2] == '/' )) { s += 2; continue; }
        *d++ = *s++;
    }
    *d = 0;
}
static int under(const char *p, int i)
{
    size_t l = strlen(H->root[i]);
    return l && !strncmp(p, H->root[i], l) && (p[l] == '/' || !p[l]) && !strstr(p, "/../");
}
static int tracked(const char *p) { return under(p, 0) || under(p, 1); }
static int allowed_write(const char *p)
{
    return under(p, 0) || under(p, 2) || !strcmp(p, "/dev/null") || !strcmp(p, "/dev/stdout")
        || !strcmp(p, "/dev/stderr") || !strcmp(p, "/dev/full") || !strncmp(p, "/proc/self/fd/", 14)
        || !strncmp(p, "/dev/fd/", 8);
}
static int escape(const char *p)
{
    H->escapes++;
    snprintf(H->lastescape, sizeof H->lastescape, "%s", p);
    errno = EACCES;
    return -1;
}

static void put(const void *p, size_t n)
{
    memcpy(arena + H->arena_used, p, n);
    H->arena_used += n;
}
static void record(int op, long ret, int err, const char *p1, const char *p2, const void *data, size_t dl, uint32_t extra)
{
    size_t l1 = p1 ? strlen(p1) : 0, l2 = p2 ? strlen(p2) : 0;
    uint32_t h[9];
    size_t tot = sizeof h + l1 + l2 + dl;
    if (H->arena_used + tot > H->arena_cap) { H->overflow++; return; }
    h[0] = tot; h[1] = op; h[2] = (uint32_t)(int32_t)ret; h[3] = err; h[4] = wid; h[5] = extra; h[6] = l1; h[7] = l2; h[8] = dl;
    put(h, sizeof h); put(p1, l1); put(p2, l2);
    if (dl) put(data, dl);
}
static void die(void)
{
    H->crashed = 1;
    syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL);
    for (;;) syscall(SYS_pause);
}
static void do_yield(int op)
{
    if (yup >= 0 && H->yield_on) {
        unsigned char m[2] = { 'Y', (unsigned char)op }, c;
        H->yields++;
        long r;
        do r = syscall(SYS_write, yup, m, 2); while (r < 0 && errno == EINTR);
        do r = syscall(SYS_read, ydown, &c, 1); while (r < 0 && errno == EINTR);
        if (r <= 0 || c == 'K') { syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL); for (;;) syscall(SYS_pause); }
    }
}
/* suffix: 0 = c contains sub, 1 = c ends in it, 2 = a file name in c starts with it (after an optional dot) */
static int submatch(const struct rule *r, const char *c)
{
    size_t lc = strlen(c), ls = strlen(r->sub);
    if (r->suffix == 1)
        return lc >= ls && !strcmp(c + lc - ls, r->sub);
    const char *q = strstr(c, r->sub);
    if (r->suffix == 0)
        return q != 0;
    for (; q; q = strstr(q + 1, r->sub))
        if (q > c && (q[-1] == '/' || (q[-1] == '.' && q > c + 1 && q[-2] == '/')))
            return 1;
    return 0;
}
/* A decision for this operation: action in *act, its argument in *arg */
static void pre(int op, const char *p, const char *p2, int *act, int *arg)
{
    do_yield(op);
    *act = A_NONE; *arg = 0;
    H->opseq++;
    for (uint32_t i = 0; i < H->nrules && i < 32; i++) {
        struct rule *r = &H->rules[i];
        if (!(r->opmask & (1u << op))) continue;
        if (r->sub[0]) {
            int m = submatch(r, p ? p : "");
            if (!m && p2) m = submatch(r, p2);
            if (!m) continue;
        }
        r->hits++;
        if (r->hits >= r->nth && (r->count == 0 || r->hits < r->nth + r->count) && *act == A_NONE) {
            r->fired++;
            *act = r->action; *arg = r->arg;
        }
    }
    if (*act == A_CRASH_BEFORE) { record(op | 0x100, -1, 0, p, p2, 0, 0, 0); die(); }
    if (*act == A_SIGINT) { H->sigints++; syscall(SYS_kill, (int)syscall(SYS_getpid), SIGINT); }
}
static uint64_t rnd(void)
{
    uint64_t z = (H->rnd += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

static void setfd(int fd, const char *p, int w)
{
    if (fd >= 0 && fd < NFD) { free(fds[fd].path); fds[fd].path = p ? strdup(p) : 0; fds[fd].w = w; }
}
static const char *fdpath(int fd) { return fd >= 0 && fd < NFD ? fds[fd].path : 0; }

static int simopen(int dirfd, const char *path, int flags, mode_t mode)
{
    char p[4096];
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    full(path, p, sizeof p);
    if (flags & O_DIRECTORY) w = 0;
    if (w && !allowed_write(p)) return escape(p);
    if (!tracked(p)) {
        int fd = r_openat(dirfd, path, flags, mode);
        setfd(fd, 0, 0);
        return fd;
    }
    int act, arg, op = w ? K_OPENW : K_OPENR;
    struct stat st;
    pre(op, p, 0, &act, &arg);
    int existed = w && !stat(p, &st);
    if (act == A_ERR) { record(op, -1, arg, p, 0, 0, 0, flags); errno = arg; return -1; }
    int fd = r_openat(dirfd, path, flags, mode);
    int e = errno;
    record(op, fd, fd < 0 ? e : 0, p, 0, &existed, sizeof existed, flags);
    if (act == A_CRASH_AFTER || act == A_TORN) die();
    setfd(fd, fd >= 0 ? p : 0, w);
    errno = e;
    return fd;
}
#define MODE va_list ap; va_start(ap, flags); mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap)
int open(const char *path, int flags, ...) { MODE; if (!on()) { int f = r_open(path, flags, mode); setfd(f, 0, 0); return f; } return simopen(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE; flags |= O_LARGEFILE; if (!on()) { int f = r_open(path, flags, mode); setfd(f, 0, 0); return f; } return simopen(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE; if (!on() || (d != AT_FDCWD && path[0] != '/')) { int f = r_openat(d, path, flags, mode); setfd(f, 0, 0); return f; } return simopen(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE; flags |= O_LARGEFILE; if (!on() || (d != AT_FDCWD && path[0] != '/')) { int f = r_openat(d, path, flags, mode); setfd(f, 0, 0); return f; } return simopen(d, path, flags, mode); }
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static size_t part(size_t n, int permille) { size_t k = n * (size_t)permille / 1000; return k; }

ssize_t read(int fd, void *b, size_t n)
{
    const char *p;
    if (!on() || !(p = fdpath(fd))) return r_read(fd, b, n);
    int act, arg;
    pre(K_READ, p, 0, &act, &arg);
    if (act == A_ERR) { record(K_READ, -1, arg, p, 0, 0, 0, 0); errno = arg; return -1; }
    if (act == A_SHORT && n > 1) { n = part(n, arg); if (!n) n = 1; H->shortreads++; }
    if (act == A_LIMIT) {
        size_t k = arg > 0 ? (size_t)arg : 1 + rnd() % (uint64_t)(-arg);
        if (k < n) { n = k; H->shortreads++; }
    }
    ssize_t r = r_read(fd, b, n);
    int e = errno;
    record(K_READ, r, r < 0 ? e : 0, p, 0, 0, 0, n);
    if (act == A_CRASH_AFTER) die();
    errno = e;
    return r;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return r_pread64(fd, b, n, o); }

ssize_t write(int fd, const void *b, size_t n)
{
    const char *p;
    if (!on() || !(p = fdpath(fd)) || !fds[fd].w) return r_write(fd, b, n);
    int act, arg;
    pre(K_WRITE, p, 0, &act, &arg);
    if (act == A_ERR) { record(K_WRITE, -1, arg, p, 0, 0, 0, 0); errno = arg; return -1; }
    if (act == A_SHORT && n > 1) { n = part(n, arg); if (!n) n = 1; }
    if (act == A_LIMIT && arg > 0 && n > (size_t)arg) n = arg;
    if (act == A_TORN) n = part(n, arg);
    off64_t pos = lseek64(fd, 0, SEEK_CUR);
    int fl = fcntl(fd, F_GETFL);
    if (fl & O_APPEND) pos = lseek64(fd, 0, SEEK_END);
    ssize_t r = n ? r_write(fd, b, n) : 0;
    int e = errno;
    record(K_WRITE, r, r < 0 ? e : 0, p, 0, b, r > 0 ? r : 0, (uint32_t)pos);
    if (act == A_TORN || act == A_CRASH_AFTER) die();
    errno = e;
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    off64_t s = lseek64(fd, 0, SEEK_CUR);
    lseek64(fd, o, SEEK_SET);
    ssize_t r = write(fd, b, n);
    int e = errno;
    lseek64(fd, s, SEEK_SET);
    errno = e;
    return r;
}
static ssize_t sf(int out, int in, off64_t *off, size_t n)
{
    static char buf[65536];
    if (n > sizeof buf) n = sizeof buf;
    ssize_t r = off ? r_pread64(in, buf, n, *off) : r_read(in, buf, n);
    if (r <= 0) return r;
    ssize_t w = write(out, buf, r);
    if (w < 0) { if (!off) lseek64(in, -r, SEEK_CUR); return -1; }
    if (off) *off += w; else if (w < r) lseek64(in, w - r, SEEK_CUR);
    return w;
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
    if (!on() || !fdpath(out)) return syscall(SYS_sendfile, out, in, off, n);
    return sf(out, in, off, n);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, (off64_t *)off, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f)
{
    if (!on() || !fdpath(out)) return syscall(SYS_copy_file_range, in, oi, out, oo, n, f);
    errno = ENOSYS;
    return -1;
}

int close(int fd)
{
    const char *p;
    if (!on() || !(p = fdpath(fd))) { setfd(fd, 0, 0); return r_close(fd); }
    if (!fds[fd].w) { setfd(fd, 0, 0); return r_close(fd); }
    int act, arg;
    pre(K_CLOSE, p, 0, &act, &arg);
    record(K_CLOSE, act == A_ERR ? -1 : 0, act == A_ERR ? arg : 0, p, 0, 0, 0, 0);
    setfd(fd, 0, 0);
    int r = r_close(fd);
    if (act == A_CRASH_AFTER) die();
    if (act == A_ERR) { errno = arg; return -1; }
    return r;
}
static int syncit(int fd, int (*f)(int))
{
    const char *p;
    if (!on() || !(p = fdpath(fd))) return f(fd);
    int act, arg;
    pre(K_FSYNC, p, 0, &act, &arg);
    if (act == A_ERR) { record(K_FSYNC, -1, arg, p, 0, 0, 0, 0); errno = arg; return -1; }
    record(K_FSYNC, 0, 0, p, 0, 0, 0, 0);       /* no need to really sync scratch files */
    if (act == A_CRASH_AFTER) die();
    return 0;
}
int fsync(int fd) { return syncit(fd, r_fsync); }
int fdatasync(int fd) { return syncit(fd, r_fdatasync); }
int ftruncate64(int fd, off64_t l)
{
    const char *p;
    if (!on() || !(p = fdpath(fd))) return r_ftruncate64(fd, l);
    int act, arg;
    pre(K_TRUNC, p, 0, &act, &arg);
    if (act == A_ERR) { record(K_TRUNC, -1, arg, p, 0, 0, 0, 0); errno = arg; return -1; }
    int r = r_ftruncate64(fd, l);
    record(K_TRUNC, r, 0, p, 0, 0, 0, (uint32_t)l);
    if (act == A_CRASH_AFTER) die();
    return r;
}
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }

static int path1(int op, const char *path, uint32_t extra, int (*f)(const char *, long), long x)
{
    char p[4096];
    full(path, p, sizeof p);
    if (!allowed_write(p)) {
        if (op == K_MKDIR && !access(p, F_OK)) { errno = EEXIST; return -1; }
        return escape(p);
    }
    if (!tracked(p)) return f(path, x);
    int act, arg;
    pre(op, p, 0, &act, &arg);
    if (act == A_ERR) { record(op, -1, arg, p, 0, 0, 0, extra); errno = arg; return -1; }
    int r = f(path, x), e = errno;
    record(op, r, r < 0 ? e : 0, p, 0, 0, 0, extra);
    if (act == A_CRASH_AFTER || act == A_TORN) die();
    errno = e;
    return r;
}
static int f_unlink(const char *p, long x) { (void)x; return r_unlink(p); }
static int f_rmdir(const char *p, long x) { (void)x; return r_rmdir(p); }
static int f_mkdir(const char *p, long x) { return r_mkdir(p, x); }
static int f_chmod(const char *p, long x) { return r_chmod(p, x); }
static int f_trunc(const char *p, long x) { return r_truncate64(p, x); }
int unlink(const char *p) { return on() ? path1(K_UNLINK, p, 0, f_unlink, 0) : r_unlink(p); }
int rmdir(const char *p) { return on() ? path1(K_RMDIR, p, 0, f_rmdir, 0) : r_rmdir(p); }
int mkdir(const char *p, mode_t m) { return on() ? path1(K_MKDIR, p, m, f_mkdir, m) : r_mkdir(p, m); }
int chmod(const char *p, mode_t m) { return on() ? path1(K_CHMOD, p, m, f_chmod, m) : r_chmod(p, m); }
int truncate64(const char *p, off64_t l) { return on() ? path1(K_TRUNC, p, l, f_trunc, l) : r_truncate64(p, l); }
int truncate(const char *p, off_t l) { return truncate64(p, l); }
int fchmodat(int d, const char *p, mode_t m, int fl)
{
    if (on() && (d == AT_FDCWD || p[0] == '/')) return chmod(p, m);
    return syscall(SYS_fchmodat, d, p, m, fl);
}
int unlinkat(int d, const char *p, int fl)
{
    if (on() && (d == AT_FDCWD || p[0] == '/')) return (fl & AT_REMOVEDIR) ? rmdir(p) : unlink(p);
    if (on()) {     /* relative to a directory fd (shutil.rmtree): contained only if the fd is */
        char lnk[64], b[2048]; ssize_t k;
        snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", d);
        k = readlink(lnk, b, sizeof b - 1);
        b[k > 0 ? k : 0] = 0;
        strncat(b, "/", sizeof b - strlen(b) - 1); strncat(b, p, sizeof b - strlen(b) - 1);
        return (fl & AT_REMOVEDIR) ? rmdir(b) : unlink(b);
    }
    return syscall(SYS_unlinkat, d, p, fl);
}
static int path2(int op, const char *a, const char *b, int (*f)(const char *, const char *))
{
    char p[4096], q[4096];
    full(a, p, sizeof p); full(b, q, sizeof q);
    if (!allowed_write(q) || (op == K_RENAME && !allowed_write(p))) return escape(q);
    if (!tracked(q) && !tracked(p)) return f(a, b);
    int act, arg;
    pre(op, p, q, &act, &arg);
    if (act == A_ERR) { record(op, -1, arg, p, q, 0, 0, 0); errno = arg; return -1; }
    int r = f(a, b), e = errno;
    record(op, r, r < 0 ? e : 0, p, q, 0, 0, 0);
    if (act == A_CRASH_AFTER || act == A_TORN) die();
    errno = e;
    return r;
}
int rename(const char *a, const char *b) { return on() ? path2(K_RENAME, a, b, r_rename) : r_rename(a, b); }
int renameat(int d, const char *a, int e, const char *b)
{
    if (on() && (d == AT_FDCWD || a[0] == '/') && (e == AT_FDCWD || b[0] == '/')) return rename(a, b);
    return syscall(SYS_renameat, d, a, e, b);
}
int link(const char *a, const char *b) { return on() ? path2(K_LINK, a, b, r_link) : r_link(a, b); }
int symlink(const char *a, const char *b) { return on() ? path2(K_LINK, a, b, r_symlink) : r_symlink(a, b); }

/* directory listings come out in an order chosen by the run */
#define NDIR 64
static struct { DIR *d; struct dirent64 **e; int n, i; } dirs[NDIR];
static int cmpent(const void *a, const void *b)
{
    return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name);
}
static void loaddir(DIR *d, const char *p)
{
    for (int k = 0; k < NDIR; k++) if (!dirs[k].d) {
        struct dirent64 *x;
        int n = 0, cap = 64;
        struct dirent64 **v = malloc(cap * sizeof *v);
        while ((x = r_readdir64(d))) {
            if (n == cap) v = realloc(v, (cap *= 2) * sizeof *v);
            v[n] = malloc(sizeof *x);
            size_t len = x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x;
            memset(v[n], 0, sizeof *x);
            memcpy(v[n++], x, len);
        }
        qsort(v, n, sizeof *v, cmpent);
        if (H->listseed) {
            uint64_t s = H->listseed;
            const char *q = under(p, 0) ? p + strlen(H->root[0]) : p;
            for (const char *c = q; *c; c++) s = s * 1099511628211ULL + (unsigned char)*c;
            for (int i = n - 1; i > 0; i--) {
                s = s * 6364136223846793005ULL + 1442695040888963407ULL;
                int j = (s >> 33) % (i + 1);
                struct dirent64 *t = v[i]; v[i] = v[j]; v[j] = t;
            }
        }
        dirs[k].d = d; dirs[k].e = v; dirs[k].n = n; dirs[k].i = 0;
        return;
    }
}
DIR *opendir(const char *path)
{
    if (!on()) return r_opendir(path);
    char p[4096];
    full(path, p, sizeof p);
    if (!under(p, 0)) return r_opendir(path);
    int act, arg;
    pre(K_LIST, p, 0, &act, &arg);
    if (act == A_ERR) { record(K_LIST, -1, arg, p, 0, 0, 0, 0); errno = arg; return 0; }
    DIR *d = r_opendir(path);
    int e = errno;
    record(K_LIST, d ? 0 : -1, d ? 0 : e, p, 0, 0, 0, 0);
    if (act == A_CRASH_AFTER) die();
    if (d) loaddir(d, p);
    errno = e;
    return d;
}
DIR *fdopendir(int fd)
{
    DIR *d = r_fdopendir(fd);
    if (on() && d && fdpath(fd)) loaddir(d, fdpath(fd));
    return d;
}
struct dirent64 *readdir64(DIR *d)
{
    for (int k = 0; k < NDIR; k++) if (dirs[k].d == d)
        return dirs[k].i < dirs[k].n ? dirs[k].e[dirs[k].i++] : 0;
    return r_readdir64(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d)
{
    for (int k = 0; k < NDIR; k++) if (dirs[k].d == d) dirs[k].i = 0;
    r_rewinddir(d);
}
int closedir(DIR *d)
{
    for (int k = 0; k < NDIR; k++) if (dirs[k].d == d) {
        for (int i = 0; i < dirs[k].n; i++) free(dirs[k].e[i]);
        free(dirs[k].e);
        dirs[k].d = 0;
    }
    return r_closedir(d);
}

/* clock, process id, randomness */
static uint64_t now(void)
{
    H->clock_ns += H->clock_step;
    uint32_t n = H->clock_reads++;
    for (uint32_t i = 0; i < H->nclk && i < 16; i++) if (H->clk[i].at == n) H->clock_ns += H->clk[i].delta;
    return H->clock_ns;
}
int clock_gettime(clockid_t c, struct timespec *t)
{
    if (on() && H->clock_ns && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        uint64_t n = now();
        t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
        return 0;
    }
    return r_clock_gettime(c, t);
}
int gettimeofday(struct timeval *t, void *z)
{
    if (on() && H->clock_ns) { uint64_t n = now(); t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; return 0; }
    return r_gettimeofday(t, z);
}
time_t time(time_t *t)
{
    if (on() && H->clock_ns) { time_t n = now() / 1000000000; if (t) *t = n; return n; }
    return r_time(t);
}
pid_t getpid(void)
{
    if (on() && H->fakepid) return H->fakepid + fakeoff;
    return syscall(SYS_getpid);
}
ssize_t getrandom(void *b, size_t n, unsigned f)
{
    if (on() && H->rnd) { for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = rnd(); return n; }
    return r_getrandom(b, n, f);
}
