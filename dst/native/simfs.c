/*
 * simfs: the operating-system seam of the simulator.
 *
 * An LD_PRELOAD library that sits between a simulated process (CPython, SQLite,
 * libgit2, ...) and the kernel.  It is inert until sim_on() is called.  While
 * on, for the paths below one prefix (the simulated machine's disk):
 *   - every mutating system call is one numbered disk operation; it is logged,
 *     and the fault plan (or, in gated mode, the scheduler process) decides
 *     whether it happens, fails with an errno, is cut short, is torn by a
 *     crash, or is where the process dies;
 *   - every read-side system call is numbered in a second sequence which can
 *     be made to fail as well;
 *   - the clocks, sleeps and getrandom() are simulated and deterministic
 *     (process wide, not only below the prefix).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/select.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { A_OK = 0, A_CRASH_BEFORE = 1, A_CRASH_AFTER = 2, A_ERRNO = 3,
       A_TORN = 4, A_SHORT = 5 };

#define MAXPLAN 256
#define MAXFD 4096
#define CRASH_STATUS 137

struct plan_entry { int64_t index; int32_t action; int32_t param; int32_t until; int32_t cls; };

struct shared {            /* one page shared by all processes of a world */
    int64_t mono;          /* simulated nanoseconds since the world began */
    int64_t skew;          /* wall clock minus (base + mono) */
    int64_t base;          /* wall clock at world start */
    int64_t tick;          /* nanoseconds that pass per clock reading */
};

static struct {
    int on;
    char prefix[PATH_MAX]; size_t plen;
    int logfd;
    int gatefd;            /* -1: local plan */
    int64_t op, rop;       /* counters: mutating and read-side operations */
    int64_t fired;
    uint64_t rnd;
    int nplan; struct plan_entry plan[MAXPLAN];
    struct shared *sh;
    int read_ops;          /* count read-side operations at all */
    int off_depth;
    int proc;
    int64_t *counter;      /* programs started by a simulated process: common numbering */
} S = { .logfd = -1, .gatefd = -1 };

static char *fdpath[MAXFD];          /* path below prefix, or NULL */
static unsigned char fdstate[MAXFD]; /* 0 unknown, 1 outside, 2 inside */
static unsigned char fdappend[MAXFD];

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

/* ------------------------------------------------------------------ util */
static ssize_t raw_write(int fd, const void *b, size_t n)
{ return syscall(SYS_write, fd, b, n); }

static void raw_write_all(int fd, const char *b, size_t n)
{
    while (n) {
        ssize_t w = raw_write(fd, b, n);
        if (w < 0) { if (errno == EINTR) continue; return; }
        b += w; n -= w;
    }
}
static int raw_read_all(int fd, char *b, size_t n)
{
    while (n) {
        ssize_t r = syscall(SYS_read, fd, b, n);
        if (r < 0) { if (errno == EINTR) continue; return -1; }
        if (r == 0) return -1;
        b += r; n -= r;
    }
    return 0;
}
static void die(void) { syscall(SYS_exit_group, CRASH_STATUS); }

static const char *resolve(int dirfd, const char *path, char *buf)
{
    /* -> path relative to prefix ("" for the prefix itself), or NULL */
    if (!S.on || !path) return NULL;
    size_t n = 0;
    if (path[0] != '/') {
        if (dirfd == AT_FDCWD) {
            long r = syscall(SYS_getcwd, buf, (size_t)PATH_MAX);
            if (r <= 0) return NULL;
            n = strlen(buf);
        } else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            long r = syscall(SYS_readlink, l, buf, (size_t)PATH_MAX - 1);
            if (r <= 0) return NULL;
            n = r;
        }
        buf[n++] = '/';
    }
    size_t m = strlen(path);
    if (n + m + 1 >= PATH_MAX) return NULL;
    memcpy(buf + n, path, m + 1);
    if (strncmp(buf, S.prefix, S.plen) != 0) return NULL;
    if (buf[S.plen] == 0) return buf + S.plen;
    if (buf[S.plen] != '/') return NULL;
    char *p = buf + S.plen + 1;
    while (p[0] == '.' && p[1] == '/') p += 2;
    while (p[0] == '/') p++;
    return p;
}

static const char *fd_rel(int fd)
{
    if (!S.on || fd < 0 || fd >= MAXFD) return NULL;
    if (fdstate[fd] == 1) return NULL;
    if (fdstate[fd] == 2) return fdpath[fd];
    char l[64], buf[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    long r = syscall(SYS_readlink, l, buf, sizeof buf - 1);
    fdstate[fd] = 1;
    if (r > 0) {
        buf[r] = 0;
        if (!strncmp(buf, S.prefix, S.plen) && buf[S.plen] == '/') {
            free(fdpath[fd]); fdpath[fd] = strdup(buf + S.plen + 1);
            fdstate[fd] = 2;
        }
    }
    return fdstate[fd] == 2 ? fdpath[fd] : NULL;
}
static void fd_forget(int fd)
{
    if (fd < 0 || fd >= MAXFD) return;
    if (fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = NULL; }
    fdstate[fd] = 0; fdappend[fd] = 0;
}
static void fd_set_path(int fd, const char *rel)
{
    if (fd < 0 || fd >= MAXFD) return;
    fd_forget(fd);
    if (rel) { fdpath[fd] = strdup(rel); fdstate[fd] = 2; }
    else fdstate[fd] = 1;
}

static void log_op(const char *cls, int64_t idx, const char *kind, const char *rel,
                   const char *rel2, int64_t size, int action, int param)
{
    if (S.logfd < 0) return;
    char line[2 * PATH_MAX + 256];
    int n = snprintf(line, sizeof line, "%s\t%lld\t%s\t%s\t%s\t%lld\t%d\t%d\n", cls,
                     (long long)idx, kind, rel ? rel : "", rel2 ? rel2 : "",
                     (long long)size, action, param);
    if (n > 0) raw_write_all(S.logfd, line, n < (int)sizeof line ? (size_t)n : sizeof line - 1);
}

struct decision { int32_t action; int32_t param; };

/* cls 0: mutating, 1: read side */
static struct decision gate(int cls, const char *kind, const char *rel,
                            const char *rel2, int64_t size)
{
    struct decision d = { A_OK, 0 };
    int64_t idx = cls ? S.rop++ : S.counter ? __atomic_fetch_add(S.counter, 1, __ATOMIC_SEQ_CST) : S.op++;
    if (S.gatefd >= 0) {
        char msg[2 * PATH_MAX + 128]; 
        int n = snprintf(msg + 4, sizeof msg - 4, "G%c%s\t%s\t%s\t%lld\t%lld", cls ? 'R' : 'W', kind,
                         rel ? rel : "", rel2 ? rel2 : "", (long long)size, (long long)idx);
        uint32_t len = n; memcpy(msg, &len, 4);
        raw_write_all(S.gatefd, msg, n + 4);
        char rep[12];
        if (raw_read_all(S.gatefd, rep, 12) < 0) die();
        memcpy(&d.action, rep + 4, 4); memcpy(&d.param, rep + 8, 4);
    } else {
        for (int i = 0; i < S.nplan; i++) {
            struct plan_entry *p = &S.plan[i];
            if (p->cls != cls) continue;
            if (p->index == idx || (p->until > p->index && idx >= p->index && idx < p->until)) {
                d.action = p->action; d.param = p->param; break;
            }
        }
    }
    if (d.action) S.fired++;
    if (!cls || d.action) log_op(cls ? "R" : "W", idx, kind, rel, rel2, size, d.action, d.param);
    if (d.action == A_CRASH_BEFORE) die();
    return d;
}
#define AFTER(d) do { if ((d).action == A_CRASH_AFTER || (d).action == A_TORN) die(); } while (0)

/* ------------------------------------------------------------- public API */
void sim_set_shared(void *p) { S.sh = p; }
void sim_on(const char *prefix, int logfd, int gatefd, uint64_t seed, int proc)
{
    strncpy(S.prefix, prefix, sizeof S.prefix - 1);
    S.plen = strlen(S.prefix);
    S.logfd = logfd; S.gatefd = gatefd; S.op = S.rop = 0; S.fired = 0; S.nplan = 0;
    S.rnd = seed ? seed : 88172645463325252ULL; S.proc = proc;
    S.read_ops = 0;
    for (int i = 0; i < MAXFD; i++) fd_forget(i);
    S.on = 1;
}
void sim_regate(int gatefd, int logfd, uint64_t seed, int proc)
{ S.gatefd = gatefd; S.logfd = logfd; S.rnd = seed ? seed : 1; S.proc = proc; S.op = S.rop = 0; S.nplan = 0; }
void sim_off(void) { S.on = 0; }
int sim_is_on(void) { return S.on; }
void sim_resume(void) { S.on = 1; }
void sim_read_ops(int on) { S.read_ops = on; }
int sim_plan(int64_t index, int action, int param, int until, int cls)
{
    if (S.nplan >= MAXPLAN) return -1;
    S.plan[S.nplan++] = (struct plan_entry){ index, action, param, until, cls };
    return 0;
}
int64_t sim_ops(void) { return S.op; }
int64_t sim_rops(void) { return S.rop; }
int64_t sim_fired(void) { return S.fired; }
/* A program that a simulated process executes (git) gets a plan of its own in
 * NWSIM_CHILD=op:action:param:counter file:log file:prefix; its processes share
 * one numbering.  Clock and sleeping stay real. */
__attribute__((constructor)) static void child_mode(void)
{
    const char *env = getenv("NWSIM_CHILD");
    if (!env) return;
    char copy[4 * PATH_MAX], *part[6], *at = copy;
    strncpy(copy, env, sizeof copy - 1); copy[sizeof copy - 1] = 0;
    for (int i = 0; i < 6; i++) {
        part[i] = at;
        if (i < 5) { at = strchr(at, ':'); if (!at) return; *at++ = 0; }
    }
    int fd = syscall(SYS_openat, AT_FDCWD, part[3], O_RDWR, 0);
    if (fd < 0) return;
    void *page = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (page == MAP_FAILED) return;
    int log = syscall(SYS_openat, AT_FDCWD, part[4], O_WRONLY | O_APPEND, 0);
    if (log >= 0) { int high = fcntl(log, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, log); log = high; }
    sim_on(part[5], log, -1, 1, 0);
    S.counter = page;
    if (atoll(part[0]) >= 0) sim_plan(atoll(part[0]), atoi(part[1]), atoi(part[2]), 0, 0);
}
/* one numbered operation that is not a system call (a sub-process, a step) */
int sim_point(const char *kind, const char *what, int64_t size)
{
    if (!S.on) return 0;
    struct decision d = gate(0, kind, what, NULL, size);
    AFTER(d);
    return d.action == A_ERRNO ? d.param : 0;
}

/* ------------------------------------------------------------------ opens */
static int do_open(int dirfd, const char *path, int flags, mode_t mode, const char *sym)
{
    char buf[PATH_MAX];
    const char *rel = S.on ? resolve(dirfd, path, buf) : NULL;
    int fd;
    if (!rel) {
        fd = syscall(SYS_openat, dirfd, path, flags, mode);
        if (S.on && fd >= 0) { if (dirfd == AT_FDCWD && path[0] == '/') fd_set_path(fd, NULL); else fd_forget(fd); }
        return fd;
    }
    struct decision d = { 0, 0 };
    int writing = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    struct stat st; int mut = 0;
    if (writing && !(flags & O_DIRECTORY)) {
        int ex = syscall(SYS_newfstatat, dirfd, path, &st, 0) == 0;
        if ((!ex && (flags & O_CREAT)) || (ex && (flags & O_TRUNC) && st.st_size > 0)) {
            mut = 1;
            d = gate(0, ex ? "trunc" : "create", rel, NULL, ex ? st.st_size : 0);
            if (d.action == A_ERRNO) { errno = d.param; return -1; }
        }
    }
    if (!mut && S.read_ops && !(flags & O_DIRECTORY)) {
        d = gate(1, "open", rel, NULL, 0);
        if (d.action == A_ERRNO) { errno = d.param; return -1; }
    }
    fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (mut) AFTER(d);
    if (fd >= 0) { fd_set_path(fd, rel); if (fd < MAXFD) fdappend[fd] = !!(flags & O_APPEND); }
    return fd;
}
#define GETMODE(last) mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, last); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE(flags) return do_open(AT_FDCWD, path, flags, mode, "open"); }
int open64(const char *path, int flags, ...) { GETMODE(flags) return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode, "open"); }
int openat(int dfd, const char *path, int flags, ...) { GETMODE(flags) return do_open(dfd, path, flags, mode, "open"); }
int openat64(int dfd, const char *path, int flags, ...) { GETMODE(flags) return do_open(dfd, path, flags | O_LARGEFILE, mode, "open"); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0, "open"); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags | O_LARGEFILE, 0, "open"); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode, "creat"); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode, "creat"); }

int close(int fd)
{
    if (S.on) fd_forget(fd);
    return syscall(SYS_close, fd);
}
int dup2(int a, int b) { if (S.on && a != b) fd_forget(b); return syscall(SYS_dup2, a, b); }
int dup3(int a, int b, int f) { if (S.on) fd_forget(b); return syscall(SYS_dup3, a, b, f); }
int dup(int a) { int r = syscall(SYS_dup, a); if (S.on && r >= 0) fd_forget(r); return r; }
int pipe(int p[2]) { int r = syscall(SYS_pipe, p); if (S.on && !r) { fd_forget(p[0]); fd_forget(p[1]); } return r; }
int pipe2(int p[2], int f) { int r = syscall(SYS_pipe2, p, f); if (S.on && !r) { fd_forget(p[0]); fd_forget(p[1]); } return r; }

/* ----------------------------------------------------------------- writes */
static size_t cut(struct decision d, size_t n)
{   /* how much of a torn or short write reaches the disk: param is 0..1000 */
    size_t k = n * (size_t)(d.param < 0 ? 0 : d.param) / 1000;
    if (k >= n && n) k = n - 1;
    if (d.action == A_SHORT && k == 0 && n) k = 1;
    return k;
}
ssize_t write(int fd, const void *b, size_t n)
{
    const char *rel = fd_rel(fd);
    if (!rel || n == 0) return raw_write(fd, b, n);
    struct decision d = gate(0, "write", rel, NULL, n);
    if (d.action == A_ERRNO) { errno = d.param; return -1; }
    if (d.action == A_TORN || d.action == A_SHORT) n = cut(d, n);
    ssize_t r = n ? raw_write(fd, b, n) : 0;
    AFTER(d);
    return r;
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t o)
{
    const char *rel = fd_rel(fd);
    if (!rel) return syscall(SYS_pwrite64, fd, b, n, o);
    struct decision d = gate(0, "pwrite", rel, NULL, n);
    if (d.action == A_ERRNO) { errno = d.param; return -1; }
    if (d.action == A_TORN || d.action == A_SHORT) n = cut(d, n);
    ssize_t r = n ? syscall(SYS_pwrite64, fd, b, n, o) : 0;
    AFTER(d);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    const char *rel = fd_rel(fd);
    if (!rel) return syscall(SYS_writev, fd, v, c);
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    struct decision d = gate(0, "write", rel, NULL, n);
    if (d.action == A_ERRNO) { errno = d.param; return -1; }
    ssize_t r;
    if (d.action == A_TORN || d.action == A_SHORT) {
        size_t k = cut(d, n), done = 0;
        for (int i = 0; i < c && done < k; i++) {
            size_t m = v[i].iov_len < k - done ? v[i].iov_len : k - done;
            raw_write(fd, v[i].iov_base, m); done += m;
        }
        r = done;
    } else r = syscall(SYS_writev, fd, v, c);
    AFTER(d);
    return r;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
    const char *rel = fd_rel(out);
    if (!rel) return syscall(SYS_sendfile, out, in, off, n);
    struct decision d = gate(0, "sendfile", rel, NULL, 0);
    if (d.action == A_ERRNO) { errno = d.param; return -1; }
    if (d.action == A_TORN || d.action == A_SHORT) n = 1;
    ssize_t r = syscall(SYS_sendfile, out, in, off, n);
    AFTER(d);
    return r;
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { return sendfile(out, in, (off_t *)off, n); }
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f)
{
    const char *rel = fd_rel(out);
    if (!rel) return syscall(SYS_copy_file_range, in, io, out, oo, n, f);
    struct decision d = gate(0, "sendfile", rel, NULL, 0);
    if (d.action == A_ERRNO) { errno = d.param; return -1; }
    if (d.action == A_TORN || d.action == A_SHORT) n = 1;
    ssize_t r = syscall(SYS_copy_file_range, in, io, out, oo, n, f);
    AFTER(d);
    return r;
}
static int simple(const char *kind, const char *rel, const char *rel2, int64_t size, struct decision *d)
{
    *d = gate(0, kind, rel, rel2, size);
    if (d->action == A_ERRNO) { errno = d->param; return -1; }
    return 0;
}
#define GATED(kind, rel, rel2, size, call) do { \
    struct decision d; if (simple(kind, rel, rel2, size, &d)) return -1; \
    int r = (call); int e = errno; AFTER(d); errno = e; return r; } while (0)

int ftruncate(int fd, off_t n)
{ const char *rel = fd_rel(fd); if (!rel) return syscall(SYS_ftruncate, fd, n); GATED("ftruncate", rel, NULL, n, syscall(SYS_ftruncate, fd, n)); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char *p, off_t n)
{ char b[PATH_MAX]; const char *rel = resolve(AT_FDCWD, p, b); if (!rel) return syscall(SYS_truncate, p, n); GATED("ftruncate", rel, NULL, n, syscall(SYS_truncate, p, n)); }
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
int fsync(int fd)
{ const char *rel = fd_rel(fd); if (!rel) return syscall(SYS_fsync, fd); GATED("fsync", rel, NULL, 0, 0); }
int fdatasync(int fd)
{ const char *rel = fd_rel(fd); if (!rel) return syscall(SYS_fdatasync, fd); GATED("fsync", rel, NULL, 0, 0); }

/* ------------------------------------------------------------- directories */
static int two(const char *kind, int d1, const char *a, int d2, const char *b, long nr, int flags)
{
    char x[PATH_MAX], y[PATH_MAX];
    const char *ra = resolve(d1, a, x), *rb = resolve(d2, b, y);
    if (!ra && !rb) return nr == SYS_renameat2 ? syscall(nr, d1, a, d2, b, flags) : syscall(nr, d1, a, d2, b, flags);
    GATED(kind, ra ? ra : a, rb ? rb : b, 0, syscall(nr, d1, a, d2, b, flags));
}
int rename(const char *a, const char *b) { return two("rename", AT_FDCWD, a, AT_FDCWD, b, SYS_renameat2, 0); }
int renameat(int x, const char *a, int y, const char *b) { return two("rename", x, a, y, b, SYS_renameat2, 0); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { return two("rename", x, a, y, b, SYS_renameat2, f); }
int link(const char *a, const char *b) { return two("link", AT_FDCWD, a, AT_FDCWD, b, SYS_linkat, 0); }
int linkat(int x, const char *a, int y, const char *b, int f) { return two("link", x, a, y, b, SYS_linkat, f); }
int symlink(const char *t, const char *b)
{ char x[PATH_MAX]; const char *rel = resolve(AT_FDCWD, b, x); if (!rel) return syscall(SYS_symlink, t, b); GATED("symlink", rel, NULL, 0, syscall(SYS_symlink, t, b)); }
int unlink(const char *p)
{ char x[PATH_MAX]; const char *rel = resolve(AT_FDCWD, p, x); if (!rel) return syscall(SYS_unlink, p); GATED("unlink", rel, NULL, 0, syscall(SYS_unlink, p)); }
int unlinkat(int d_, const char *p, int f)
{ char x[PATH_MAX]; const char *rel = resolve(d_, p, x); if (!rel) return syscall(SYS_unlinkat, d_, p, f); GATED(f & AT_REMOVEDIR ? "rmdir" : "unlink", rel, NULL, 0, syscall(SYS_unlinkat, d_, p, f)); }
int rmdir(const char *p)
{ char x[PATH_MAX]; const char *rel = resolve(AT_FDCWD, p, x); if (!rel) return syscall(SYS_rmdir, p); GATED("rmdir", rel, NULL, 0, syscall(SYS_rmdir, p)); }
int mkdir(const char *p, mode_t m)
{
    char x[PATH_MAX]; const char *rel = resolve(AT_FDCWD, p, x); if (!rel) return syscall(SYS_mkdir, p, m);
    struct stat st; if (syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0) { errno = EEXIST; return -1; }
    GATED("mkdir", rel, NULL, 0, syscall(SYS_mkdir, p, m));
}
int mkdirat(int d_, const char *p, mode_t m)
{
    char x[PATH_MAX]; const char *rel = resolve(d_, p, x); if (!rel) return syscall(SYS_mkdirat, d_, p, m);
    GATED("mkdir", rel, NULL, 0, syscall(SYS_mkdirat, d_, p, m));
}

/* ------------------------------------------------------------------ reads */
ssize_t read(int fd, void *b, size_t n)
{
    if (S.on && S.read_ops) {
        const char *rel = fd_rel(fd);
        if (rel) {
            struct decision d = gate(1, "read", rel, NULL, n);
            if (d.action == A_ERRNO) { errno = d.param; return -1; }
            if (d.action == A_SHORT) n = cut(d, n);
        }
    }
    return syscall(SYS_read, fd, b, n);
}

/* ----------------------------------------------------------------- clocks */
static int64_t tick(void) { return S.sh ? (S.sh->mono += S.sh->tick) : 0; }
static void (*sleep_cb)(int64_t);
int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!S.on || !S.sh) return syscall(SYS_clock_gettime, id, ts);
    /* with scheduled threads the interpreter itself reads this clock at
     * moments that depend on real timing: the scheduler advances it instead */
    int64_t t = sleep_cb && id == CLOCK_MONOTONIC ? S.sh->mono : tick();
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += S.sh->base + S.sh->skew;
    else t += 1000000000LL;
    ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    if (!S.on || !S.sh) return syscall(SYS_gettimeofday, tv, tz);
    int64_t t = tick() + S.sh->base + S.sh->skew;
    tv->tv_sec = t / 1000000000LL; tv->tv_usec = t % 1000000000LL / 1000;
    return 0;
}
time_t time(time_t *out)
{
    time_t r;
    if (!S.on || !S.sh) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    else r = (tick() + S.sh->base + S.sh->skew) / 1000000000LL;
    if (out) *out = r;
    return r;
}
void sim_set_sleep_cb(void (*cb)(int64_t)) { sleep_cb = cb; }
static int do_sleep(int64_t ns)
{
    if (sleep_cb) { sleep_cb(ns); return 0; }
    if (S.gatefd >= 0) {
        char msg[64]; int n = snprintf(msg + 4, sizeof msg - 4, "S%lld", (long long)ns);
        uint32_t len = n; memcpy(msg, &len, 4);
        raw_write_all(S.gatefd, msg, n + 4);
        char rep[12]; if (raw_read_all(S.gatefd, rep, 12) < 0) die();
    } else if (S.sh) S.sh->mono += ns > 0 ? ns : 0;
    return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b)
{ if (!S.on || !S.sh) return syscall(SYS_nanosleep, a, b); return do_sleep(a->tv_sec * 1000000000LL + a->tv_nsec); }
int clock_nanosleep(clockid_t id, int flags, const struct timespec *a, struct timespec *b)
{
    if (!S.on || !S.sh) { long r = syscall(SYS_clock_nanosleep, id, flags, a, b); return r < 0 ? errno : 0; }
    int64_t ns = a->tv_sec * 1000000000LL + a->tv_nsec;
    if (flags & TIMER_ABSTIME) {
        int64_t now = S.sh->mono + (id == CLOCK_REALTIME ? S.sh->base + S.sh->skew : 1000000000LL);
        ns = ns > now ? ns - now : 0;
    }
    return do_sleep(ns);
}
int usleep(useconds_t us)
{ if (!S.on || !S.sh) { struct timespec t = { us / 1000000, (us % 1000000) * 1000 }; return syscall(SYS_nanosleep, &t, NULL); } return do_sleep(us * 1000LL); }
unsigned sleep(unsigned s)
{ if (!S.on || !S.sh) { struct timespec t = { s, 0 }; syscall(SYS_nanosleep, &t, NULL); return 0; } do_sleep(s * 1000000000LL); return 0; }

/* ----------------------------------------------------------------- random */
ssize_t getrandom(void *b, size_t n, unsigned f)
{
    if (!S.on) return syscall(SYS_getrandom, b, n, f);
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) {
        S.rnd ^= S.rnd << 13; S.rnd ^= S.rnd >> 7; S.rnd ^= S.rnd << 17;
        p[i] = S.rnd >> 24;
    }
    return n;
}
int getentropy(void *b, size_t n)
{
    ssize_t r = getrandom(b, n, 0);
    return r == (ssize_t)n ? 0 : -1;
}

/* The interpreter waits for its global lock with a deadline computed from the
 * clock it is given.  Under a simulated clock that deadline has no meaning, so
 * the wait gets the same length in real time; who holds the lock is decided by
 * the scheduler, not by this wait. */
#include <pthread.h>
static void real_deadline(const struct timespec *t, clockid_t id, struct timespec *out)
{
    struct timespec sim;
    long long rel;
    clock_gettime(id, &sim);
    rel = (t->tv_sec - sim.tv_sec) * 1000000000LL + (t->tv_nsec - sim.tv_nsec);
    if (rel < 1000000) rel = 1000000;
    if (rel > 50000000) rel = 50000000;
    syscall(SYS_clock_gettime, id, out);
    out->tv_nsec += rel;
    out->tv_sec += out->tv_nsec / 1000000000;
    out->tv_nsec %= 1000000000;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
    struct timespec r;
    REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
    if (!S.on || !S.sh) return real_pthread_cond_timedwait(c, m, t);
    real_deadline(t, CLOCK_MONOTONIC, &r);
    return real_pthread_cond_timedwait(c, m, &r);
}
