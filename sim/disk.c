/* Simulated disk: an LD_PRELOAD shim between the program (Python's io, libhdf5,
 * numpy ...) and the kernel, for paths under one scratch root.
 *
 * Every mutating operation under the root (creating/truncating open, write,
 * truncate, rename, unlink, mkdir, rmdir) and every read gets a number.  A plan,
 * set from Python through ctypes, says what happens at which number:
 *   fail with an errno, transfer only part of the data, or kill the process
 *   before, in the middle of, or after the operation (crash = _exit, so user
 *   space buffers are lost and everything already written stays).
 * With no plan the shim only counts.  It takes no decision of its own.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXPLAN 64
#define MAXLOG 8192
enum { F_ERR = 1, F_SHORT = 2, F_CRASH_BEFORE = 3, F_CRASH_TORN = 4, F_CRASH_AFTER = 5, F_ERR_STICKY = 6 };

struct plan { long at; int cls; int kind; long arg; int fired; };
struct logent { char op[12]; long n; long size; char path[104]; };
struct shared {            /* MAP_SHARED: survives the death of the process */
    long wops, rops, nlog, fired[8], crashed, injected;
    struct logent log[MAXLOG];
};

static struct shared *sh;
static char root[PATH_MAX];
static size_t rootlen;
static int enabled;
static struct plan plans[MAXPLAN];
static int nplans;
static int sticky_errno;
static unsigned char tracked[MAXFD];
static char *fdpath[MAXFD];

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })

struct shared *sim_disk_init(void)
{
    if (!sh) {
        sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (sh == MAP_FAILED) { sh = 0; return 0; }
    }
    return sh;
}
int sim_disk_present(void) { return 1; }
void sim_disk_root(const char *r)
{
    enabled = 0;
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
    nplans = 0; sticky_errno = 0;
    sim_disk_init();
    memset(sh, 0, offsetof(struct shared, log));
    enabled = rootlen > 0;
}
void sim_disk_enable(int on) { enabled = on && rootlen; }
void sim_disk_clear(void) { nplans = 0; sticky_errno = 0; }
int sim_disk_plan(long at, int cls, int kind, long arg)
{
    if (nplans == MAXPLAN) return -1;
    plans[nplans++] = (struct plan){at, cls, kind, arg, 0};
    return 0;
}
long sim_disk_wops(void) { return sh ? sh->wops : 0; }
long sim_disk_rops(void) { return sh ? sh->rops : 0; }
long sim_disk_fired(int k) { return sh ? sh->fired[k] : 0; }
long sim_disk_crashed(void) { return sh ? sh->crashed : 0; }
long sim_disk_nlog(void) { return sh ? sh->nlog : 0; }
const char *sim_disk_log(long i)
{
    static char b[256];
    struct logent *e = &sh->log[i];
    snprintf(b, sizeof b, "%ld %s %s %ld", e->n, e->op, e->path, e->size);
    return b;
}

static int under(const char *path)
{
    char b[PATH_MAX * 2];
    if (!enabled || !path) return 0;
    if (path[0] != '/') {
        char c[PATH_MAX];
        if (!getcwd(c, sizeof c)) return 0;
        snprintf(b, sizeof b, "%s/%s", c, path);
        path = b;
    }
    return strncmp(path, root, rootlen) == 0 && (path[rootlen] == '/' || path[rootlen] == 0);
}
static const char *rel(const char *p)
{
    if (!p) return "?";
    if (strncmp(p, root, rootlen) == 0) return p + rootlen + (p[rootlen] == '/');
    return p;
}
static void logop(const char *op, long n, const char *path, long size)
{
    if (sh->nlog >= MAXLOG) return;
    struct logent *e = &sh->log[sh->nlog++];
    snprintf(e->op, sizeof e->op, "%s", op);
    snprintf(e->path, sizeof e->path, "%s", rel(path));
    e->n = n; e->size = size;
}
static void die(int kind) { sh->fired[kind]++; sh->injected++; sh->crashed = 1; _exit(137); }

/* what is planned for the operation that starts now; cls 0 = mutation, 1 = read */
static struct plan *next(int cls, const char *op, const char *path, long size)
{
    long n = cls ? sh->rops++ : sh->wops++;
    if (!cls) logop(op, n, path, size);
    for (int i = 0; i < nplans; i++)
        if (plans[i].cls == cls && plans[i].at == n && !plans[i].fired) {
            plans[i].fired = 1;
            if (plans[i].kind == F_CRASH_BEFORE) die(F_CRASH_BEFORE);
            if (plans[i].kind == F_ERR_STICKY) sticky_errno = plans[i].arg;
            if (plans[i].kind == F_ERR || plans[i].kind == F_ERR_STICKY) { sh->fired[plans[i].kind]++; sh->injected++; }
            return &plans[i];
        }
    return 0;
}
static int failing(struct plan *p, int growing)
{
    if (p && (p->kind == F_ERR || p->kind == F_ERR_STICKY)) { errno = p->arg; return 1; }
    if (sticky_errno && growing) { sh->fired[F_ERR_STICKY]++; errno = sticky_errno; return 1; }
    return 0;
}
static void after(struct plan *p)
{
    if (p && (p->kind == F_CRASH_AFTER || p->kind == F_CRASH_TORN)) die(F_CRASH_AFTER);
}
static void track(int fd, const char *path)
{
    if (fd >= 0 && fd < MAXFD) { tracked[fd] = 1; free(fdpath[fd]); fdpath[fd] = strdup(path); }
}
static int is_tracked(int fd) { return enabled && fd >= 0 && fd < MAXFD && tracked[fd]; }

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    int (*real)(int, const char *, int, ...) = REAL(openat64);
    if (dirfd == AT_FDCWD && under(path)) {
        struct plan *p = 0;
        int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
        if (wr) {
            p = next(0, "open", path, flags & (O_CREAT | O_TRUNC) ? 1 : 0);
            if (failing(p, 1)) return -1;
        } else {
            p = next(1, "ropen", path, 0);
            if (failing(p, 0)) return -1;
        }
        int fd = real(dirfd, path, flags, mode);
        track(fd, path);
        if (wr) after(p);
        return fd;
    }
    int fd = real(dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    return fd;
}
#define OPEN_BODY(dfd) mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } return do_open(dfd, path, flags, m);
int open(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int openat(int d, const char *path, int flags, ...) { OPEN_BODY(d) }
int openat64(int d, const char *path, int flags, ...) { OPEN_BODY(d) }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd)
{
    if (fd >= 0 && fd < MAXFD && tracked[fd]) tracked[fd] = 0;
    return REAL(close)(fd);
}
int dup(int fd)
{
    int n = REAL(dup)(fd);
    if (n >= 0 && is_tracked(fd) && fdpath[fd]) track(n, fdpath[fd]);
    return n;
}

static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, int positioned)
{
    struct plan *p = next(0, positioned ? "pwrite" : "write", fdpath[fd], n);
    if (failing(p, 1)) return -1;
    size_t k = n;
    if (p && (p->kind == F_SHORT || p->kind == F_CRASH_TORN)) {
        k = (size_t)((double)n * (p->arg % 1000) / 1000.0);
        if (p->kind == F_SHORT) { if (k == 0) k = 1; if (k < n) { sh->fired[F_SHORT]++; sh->injected++; } }
    }
    ssize_t r = 0;
    if (k) r = positioned ? REAL(pwrite64)(fd, buf, k, off) : REAL(write)(fd, buf, k);
    if (p && p->kind == F_CRASH_TORN) die(F_CRASH_TORN);
    after(p);
    return r;
}
ssize_t write(int fd, const void *buf, size_t n)
{ return is_tracked(fd) ? do_write(fd, buf, n, 0, 0) : REAL(write)(fd, buf, n); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o)
{ return is_tracked(fd) ? do_write(fd, buf, n, o, 1) : REAL(pwrite)(fd, buf, n, o); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o)
{ return is_tracked(fd) ? do_write(fd, buf, n, o, 1) : REAL(pwrite64)(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!is_tracked(fd)) return REAL(writev)(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}

static ssize_t do_read(int fd, void *buf, size_t n, off_t off, int positioned)
{
    struct plan *p = next(1, "read", fdpath[fd], n);
    if (failing(p, 0)) return -1;
    if (p && p->kind == F_SHORT && n > 1) {
        size_t k = (size_t)((double)n * (p->arg % 1000) / 1000.0);
        if (k == 0) k = 1;
        if (k < n) { n = k; sh->fired[F_SHORT]++; sh->injected++; }
    }
    return positioned ? REAL(pread64)(fd, buf, n, off) : REAL(read)(fd, buf, n);
}
ssize_t read(int fd, void *buf, size_t n)
{ return is_tracked(fd) ? do_read(fd, buf, n, 0, 0) : REAL(read)(fd, buf, n); }
ssize_t pread(int fd, void *buf, size_t n, off_t o)
{ return is_tracked(fd) ? do_read(fd, buf, n, o, 1) : REAL(pread)(fd, buf, n, o); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t o)
{ return is_tracked(fd) ? do_read(fd, buf, n, o, 1) : REAL(pread64)(fd, buf, n, o); }

#define MUT(cond, op, path, size, growing, call) \
    if (!(cond)) return call; \
    struct plan *p = next(0, op, path, size); \
    if (failing(p, growing)) return -1; \
    int r = call; after(p); return r;
int ftruncate(int fd, off_t n) { MUT(is_tracked(fd), "truncate", fdpath[fd], n, 1, REAL(ftruncate)(fd, n)) }
int ftruncate64(int fd, off64_t n) { MUT(is_tracked(fd), "truncate", fdpath[fd], n, 1, REAL(ftruncate64)(fd, n)) }
int truncate(const char *f, off_t n) { MUT(under(f), "truncate", f, n, 1, REAL(truncate)(f, n)) }
int truncate64(const char *f, off64_t n) { MUT(under(f), "truncate", f, n, 1, REAL(truncate64)(f, n)) }
int unlink(const char *f) { MUT(under(f), "unlink", f, 0, 0, REAL(unlink)(f)) }
int unlinkat(int d, const char *f, int fl) { MUT(d == AT_FDCWD && under(f), "unlink", f, 0, 0, REAL(unlinkat)(d, f, fl)) }
int rename(const char *a, const char *b) { MUT(under(a) || under(b), "rename", b, 0, 1, REAL(rename)(a, b)) }
int renameat(int d, const char *a, int e, const char *b) { MUT(under(a) || under(b), "rename", b, 0, 1, REAL(renameat)(d, a, e, b)) }
int mkdir(const char *f, mode_t m) { MUT(under(f), "mkdir", f, 0, 1, REAL(mkdir)(f, m)) }
int mkdirat(int d, const char *f, mode_t m) { MUT(d == AT_FDCWD && under(f), "mkdir", f, 0, 1, REAL(mkdirat)(d, f, m)) }
int rmdir(const char *f) { MUT(under(f), "rmdir", f, 0, 0, REAL(rmdir)(f)) }
