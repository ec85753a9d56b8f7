/* System-call seam of the process-based checks (LD_PRELOAD).
 *
 * Every file, directory and stream call of the real command-line tool goes through here. The
 * simulator decides the outcome of each call from a plan (SIMSHIM_PLAN): short and interrupted
 * transfers, errors, early end of file, full disks, crashes; and it hands out the randomness.
 * Calls that would change anything outside the scratch directory (SIMSHIM_ROOT) are recorded and
 * refused. Nothing here depends on process ids, addresses or the clock.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
#define MAXPLAN 64
#define EXIT_CRASH 137
#define EXIT_BUDGET 99

struct item {
    long at;      /* index of the call, or -1: by name */
    int sticky;   /* also every later call of the same class and kind */
    char kind;    /* e errno, c crash before, x crash after, t torn then crash, z eof, s short */
    long arg;
    char cls;     /* class and name of the call */
    int fired;
    char op[16];
    char name[64];
};

static int active;
static char root[PATH_MAX];
static size_t rootlen;
static int logfd = -1;
static long seq;
static uint64_t prng, hseed;
static long rshort, reintr, wshort, weintr, ocap = -1, scap = -1;
static long olen, slen;
static struct item plan[MAXPLAN];
static int nplan;
static char fdcls[MAXFD];
static char fdeof[MAXFD];
static char fdname[MAXFD][64];
static int streak;
static long alloc_at = -1, allocs;
static char *(*real_realpath)(const char *, char *);

static uint64_t next(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void die(int code) { syscall(SYS_exit_group, code); }

static void logline(const char *fmt, ...) {
    char b[PATH_MAX + 256];
    va_list ap;
    if (logfd < 0) return;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 1, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    for (int i = 0; i < n; i++)
        if (b[i] == '\n') b[i] = '?';
    b[n++] = '\n';
    int e = errno;
    syscall(SYS_write, logfd, b, n);
    errno = e;
}

__attribute__((constructor)) static void init(void) {
    const char *r = getenv("SIMSHIM_ROOT"), *p = getenv("SIMSHIM_PLAN"), *l = getenv("SIMSHIM_LOG");
    if (!r || !p || !l) return;
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
    int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
    if (fd < 0) die(98);
    logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
    if (logfd < 0) die(98);
    syscall(SYS_close, fd);
    const char *s = p;
    while (*s) {
        const char *e = strchr(s, ';');
        size_t n = e ? (size_t)(e - s) : strlen(s);
        char t[160];
        if (n >= sizeof t) die(98);
        memcpy(t, s, n);
        t[n] = 0;
        unsigned long long u;
        struct item *it = &plan[nplan];
        if (sscanf(t, "seed=%llu", &u) == 1) prng = u;
        else if (sscanf(t, "hash=%llu", &u) == 1) hseed = u;
        else if (sscanf(t, "rshort=%ld", &rshort) == 1) {}
        else if (sscanf(t, "reintr=%ld", &reintr) == 1) {}
        else if (sscanf(t, "wshort=%ld", &wshort) == 1) {}
        else if (sscanf(t, "weintr=%ld", &weintr) == 1) {}
        else if (sscanf(t, "ocap=%ld", &ocap) == 1) {}
        else if (sscanf(t, "scap=%ld", &scap) == 1) {}
        else if (sscanf(t, "alloc=%ld", &alloc_at) == 1) {}
        else if (sscanf(t, "at=%ld:%d:%c:%ld:%c:%15s", &it->at, &it->sticky, &it->kind, &it->arg, &it->cls, it->op) == 6) {
            if (nplan + 1 < MAXPLAN) nplan++;
        } else if (sscanf(t, "file=%63[^:]:%15[^:]:%ld", it->name, it->op, &it->arg) == 3) {
            it->at = -1;
            it->kind = 'e';
            if (nplan + 1 < MAXPLAN) nplan++;
        } else if (n) die(98);
        if (!e) break;
        s = e + 1;
    }
    memset(fdcls, 0, sizeof fdcls);
    fdcls[1] = 's';
    fdcls[2] = 'e';
    /* Limits: a run that loops or blocks is ended, not waited for. */
    struct rlimit rl = {20, 20};
    syscall(SYS_prlimit64, 0, RLIMIT_CPU, &rl, NULL);
    struct rlimit as = {3ul << 30, 3ul << 30};
    syscall(SYS_prlimit64, 0, RLIMIT_AS, &as, NULL);
    struct rlimit co = {0, 0};
    syscall(SYS_prlimit64, 0, RLIMIT_CORE, &co, NULL);
    alarm(40);
    /* Leave root's powers behind: an escaping call can reach nothing real. */
    gid_t none[1];
    syscall(SYS_setgroups, 0, none);
    syscall(SYS_setresgid, 65534, 65534, 65534);
    syscall(SYS_setresuid, 65534, 65534, 65534);
    umask(022);
    real_realpath = dlsym(RTLD_NEXT, "realpath");
    active = 1;
}
__attribute__((destructor)) static void done(void) {
    if (active) logline("allocs %ld", allocs);
}

/* Allocations: one of them may fail. */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t),
    *__libc_memalign(size_t, size_t);
static int no_memory(size_t n) {
    if (!active || allocs++ != alloc_at) return 0;
    logline("%ld m alloc - = -1 !nomem", seq);
    errno = ENOMEM;
    (void)n;
    return 1;
}
void *malloc(size_t n) { return no_memory(n) ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return no_memory(b) ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return no_memory(n) ? NULL : __libc_realloc(p, n); }
int posix_memalign(void **o, size_t a, size_t n) {
    if (no_memory(n)) return ENOMEM;
    *o = __libc_memalign(a, n);
    return *o ? 0 : ENOMEM;
}

/* Absolute form of a path without following it: parent resolved by the kernel when it exists. */
static void absolute(int dirfd, const char *path, char out[PATH_MAX]) {
    char *(*rp)(const char *, char *) = real_realpath;
    char tmp[PATH_MAX * 2], parent[PATH_MAX * 2], res[PATH_MAX];
    int e = errno;
    if (path[0] != '/') {
        char cwd[PATH_MAX] = "";
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) cwd[0] = 0;
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            long n = syscall(SYS_readlink, l, cwd, sizeof cwd - 1);
            cwd[n > 0 ? n : 0] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", cwd, path);
    } else
        snprintf(tmp, sizeof tmp, "%s", path);
    if (rp(tmp, res)) {
        snprintf(out, PATH_MAX, "%s", res);
        errno = e;
        return;
    }
    /* Resolve the longest existing prefix, then the rest lexically. */
    size_t n = strlen(tmp);
    while (n > 1 && tmp[n - 1] == '/') tmp[--n] = 0;
    snprintf(parent, sizeof parent, "%s", tmp);
    char rest[PATH_MAX * 2] = "";
    for (;;) {
        char *sl = strrchr(parent, '/');
        if (!sl) break;
        char r2[PATH_MAX * 2];
        snprintf(r2, sizeof r2, "%s%s%s", sl + 1, rest[0] ? "/" : "", rest);
        snprintf(rest, sizeof rest, "%s", r2);
        *sl = 0;
        if (rp(parent[0] ? parent : "/", res)) break;
        if (!parent[0]) {
            strcpy(res, "/");
            break;
        }
    }
    char *save = NULL;
    for (char *c = strtok_r(rest, "/", &save); c; c = strtok_r(NULL, "/", &save)) {
        if (!strcmp(c, ".")) continue;
        if (!strcmp(c, "..")) {
            char *sl = strrchr(res, '/');
            if (sl && sl != res) *sl = 0;
            else strcpy(res, "/");
            continue;
        }
        size_t m = strlen(res);
        snprintf(res + m, sizeof res - m, "%s%s", m > 1 ? "/" : "", c);
    }
    snprintf(out, PATH_MAX, "%s", res);
    errno = e;
}

/* Class of an absolute path: i input, o output, x elsewhere in the scratch directory, 0 outside. */
static char classify(const char *p) {
    if (strncmp(p, root, rootlen) || (p[rootlen] != '/' && p[rootlen])) return 0;
    const char *r = p + rootlen;
    if (!strncmp(r, "/dev", 4) && (r[4] == '/' || !r[4])) return 'i';
    if (!strncmp(r, "/out", 4) && (r[4] == '/' || !r[4])) return 'o';
    return 'x';
}
static const char *shown(const char *p) {
    return classify(p) ? (p[rootlen] ? p + rootlen + 1 : ".") : p;
}
static const char *base(const char *p) {
    const char *s = strrchr(p, '/');
    return s ? s + 1 : p;
}

/* Decide one call. Returns -1 to fail with errno set, 0 to go on; *item for the rest. */
static struct item *decide(char cls, const char *op, const char *name) {
    long k = seq++;
    if (seq > 3000000) die(EXIT_BUDGET);
    for (int i = 0; i < nplan; i++) {
        struct item *it = &plan[i];
        if (it->at < 0) {
            if (!strcmp(it->name, name) && !strcmp(it->op, op)) return it;
        } else if (it->at <= k && (it->sticky || !it->fired) && it->cls == cls && !strcmp(it->op, op)) {
            it->fired = 1;
            return it;
        }
    }
    return NULL;
}
static void note(char cls, const char *op, const char *what, long res, const char *fault) {
    logline("%ld %c %s %s = %ld%s%s", seq - 1, cls, op, what, res, *fault ? " !" : "", fault);
}

/* A call that is not a transfer. Returns 1 if it was decided (result in *res). */
static int simple(char cls, const char *op, const char *path, long *res, struct item **after) {
    struct item *it = decide(cls, op, base(path));
    *after = NULL;
    if (!it) return 0;
    if (it->kind == 'e') {
        note(cls, op, shown(path), -1, "error");
        errno = it->arg;
        *res = -1;
        return 1;
    }
    if (it->kind == 'c' || it->kind == 't') {
        note(cls, op, shown(path), -1, "crash");
        die(EXIT_CRASH);
    }
    *after = it;
    return 0;
}
static long finish(char cls, const char *op, const char *path, long r, struct item *after) {
    int e = errno;
    note(cls, op, shown(path), r < 0 ? -e : (r > 0 ? 1 : 0), after && after->kind == 'x' ? "crash" : "");
    if (after && after->kind == 'x') die(EXIT_CRASH);
    errno = e;
    return r;
}
/* A change of the file system. */
#define MUTATE(op, dirfd, path, call)                                                            \
    do {                                                                                         \
        if (!active) return (call);                                                              \
        char ab[PATH_MAX];                                                                       \
        absolute(dirfd, path, ab);                                                               \
        char c = classify(ab);                                                                   \
        long r;                                                                                  \
        struct item *after;                                                                      \
        logline("mut %s %s", op, shown(ab));                                                     \
        if (!c) {                                                                                \
            logline("deny %s %s", op, ab);                                                       \
            errno = EACCES;                                                                      \
            return -1;                                                                           \
        }                                                                                        \
        if (simple(c, op, ab, &r, &after)) return r;                                             \
        r = (call);                                                                              \
        return finish(c, op, ab, r, after);                                                      \
    } while (0)

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!active) return syscall(SYS_openat, dirfd, path, flags, mode);
    char ab[PATH_MAX];
    absolute(dirfd, path, ab);
    char c = classify(ab);
    int acc = flags & O_ACCMODE;
    int mut = acc != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (mut) logline("mut open %s", shown(ab));
    if (!c) {
        if (mut && strcmp(ab, "/dev/null")) {
            logline("deny open %s", ab);
            errno = EACCES;
            return -1;
        }
        return syscall(SYS_openat, dirfd, path, flags, mode);
    }
    long r;
    struct item *after;
    const char *op = mut ? "create" : "open";
    if (simple(c, op, ab, &r, &after)) return r;
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) {
        fdcls[fd] = c;
        fdeof[fd] = 0;
        snprintf(fdname[fd], sizeof fdname[fd], "%s", base(ab));
    }
    return finish(c, op, ab, fd < 0 ? -1 : fd, after);
}
int open(const char *p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    mode_t m = va_arg(ap, mode_t);
    va_end(ap);
    return do_open(AT_FDCWD, p, f, m);
}
int open64(const char *p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    mode_t m = va_arg(ap, mode_t);
    va_end(ap);
    return do_open(AT_FDCWD, p, f, m);
}
int openat(int d, const char *p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    mode_t m = va_arg(ap, mode_t);
    va_end(ap);
    return do_open(d, p, f, m);
}
int openat64(int d, const char *p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    mode_t m = va_arg(ap, mode_t);
    va_end(ap);
    return do_open(d, p, f, m);
}
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static char cls_of(int fd) { return active && fd >= 0 && fd < MAXFD ? fdcls[fd] : 0; }

static ssize_t do_read(int fd, void *b, size_t n, off_t off, int at) {
    char c = cls_of(fd);
#define REAL_READ(len) (at ? syscall(SYS_pread64, fd, b, len, off) : syscall(SYS_read, fd, b, len))
    if (!c || c == 's' || c == 'e') return REAL_READ(n);
    const char *name = fdname[fd];
    struct item *it = decide(c, "read", name);
    if (fdeof[fd]) {
        note(c, "read", name, 0, "eof");
        return 0;
    }
    if (it) {
        switch (it->kind) {
        case 'e':
            note(c, "read", name, -1, it->arg == EINTR ? "eintr" : "error");
            errno = it->arg;
            return -1;
        case 'c':
        case 't':
        case 'x':
            note(c, "read", name, -1, "crash");
            die(EXIT_CRASH);
        case 'z':
            fdeof[fd] = 1;
            note(c, "read", name, 0, "eof");
            return 0;
        }
    }
    if (reintr && streak < 3 && (long)(next(&prng) & 255) < reintr) {
        streak++;
        note(c, "read", name, -1, "eintr");
        errno = EINTR;
        return -1;
    }
    streak = 0;
    const char *f = "";
    size_t m = n;
    if (rshort && n > 1) {
        uint64_t x = next(&prng);
        size_t lim = 1 + (x >> 8) % (uint64_t)rshort;
        if ((x & 3) && lim < m) {
            m = lim;
            f = "short";
        }
    }
    ssize_t r = REAL_READ(m);
    if (r >= 0 && (size_t)r < m) f = "";
    note(c, "read", name, r < 0 ? -errno : r, f);
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t readv(int fd, const struct iovec *v, int n) {
    if (!cls_of(fd)) return syscall(SYS_readv, fd, v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}

static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int at) {
    char c = cls_of(fd);
#define REAL_WRITE(len) (at ? syscall(SYS_pwrite64, fd, b, len, off) : syscall(SYS_write, fd, b, len))
    if (!c) return REAL_WRITE(n);
    if (c == 'e') {
        if ((slen += n) > (64 << 20)) die(EXIT_BUDGET);
        return REAL_WRITE(n);
    }
    const char *name = c == 's' ? "stdout" : fdname[fd];
    if (c != 's') logline("mut write %s", name);
    struct item *it = decide(c, "write", name);
    size_t m = n;
    const char *f = "";
    if (it) {
        switch (it->kind) {
        case 'e':
            note(c, "write", name, -1, it->arg == EINTR ? "eintr" : "error");
            errno = it->arg;
            return -1;
        case 'z':
            note(c, "write", name, 0, "zero");
            return 0;
        case 'c':
            note(c, "write", name, -1, "crash");
            die(EXIT_CRASH);
        case 't':
            m = n * it->arg / 100;
            if (m) REAL_WRITE(m);
            note(c, "write", name, m, "torn");
            die(EXIT_CRASH);
        }
    }
    if (weintr && streak < 3 && (long)(next(&prng) & 255) < weintr) {
        streak++;
        note(c, "write", name, -1, "eintr");
        errno = EINTR;
        return -1;
    }
    streak = 0;
    if (wshort && n > 1) {
        uint64_t x = next(&prng);
        size_t lim = 1 + (x >> 8) % (uint64_t)wshort;
        if ((x & 3) && lim < m) {
            m = lim;
            f = "short";
        }
    }
    long *len = c == 's' ? &slen : &olen;
    long cap = c == 's' ? scap : ocap;
    if (cap >= 0 && *len + (long)m > cap) {
        m = cap > *len ? cap - *len : 0;
        f = "full";
        if (!m && n) {
            note(c, "write", name, -1, f);
            errno = ENOSPC;
            return -1;
        }
    }
    if (slen > (64 << 20) || olen > (256 << 20)) die(EXIT_BUDGET);
    ssize_t r = REAL_WRITE(m);
    if (r > 0) *len += r;
    note(c, "write", name, r < 0 ? -errno : r, it && it->kind == 'x' ? "crash" : f);
    if (it && it->kind == 'x') die(EXIT_CRASH);
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!cls_of(fd)) return syscall(SYS_writev, fd, v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
/* Shortcuts around read and write: not available here, so that callers fall back to those. */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
    if (!active) return syscall(SYS_copy_file_range, a, b, c, d, e, f);
    errno = ENOSYS;
    return -1;
}
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) {
    if (!active) return syscall(SYS_sendfile, a, b, c, d);
    errno = ENOSYS;
    return -1;
}
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
    if (!active) return syscall(SYS_splice, a, b, c, d, e, f);
    errno = EINVAL;
    return -1;
}

static off_t do_lseek(int fd, off_t o, int w) {
    char c = cls_of(fd);
    if (!c || c == 's' || c == 'e') return syscall(SYS_lseek, fd, o, w);
    long r;
    struct item *after;
    if (simple(c, "lseek", fdname[fd], &r, &after)) return r;
    off_t x = syscall(SYS_lseek, fd, o, w);
    note(c, "lseek", fdname[fd], x, after && after->kind == 'x' ? "crash" : "");
    if (after && after->kind == 'x') die(EXIT_CRASH);
    return x;
}
off_t lseek(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return do_lseek(fd, o, w); }

int close(int fd) {
    char c = cls_of(fd);
    if (active && fd == logfd) {
        errno = EBADF;
        return -1;
    }
    if (!c || c == 's' || c == 'e') return syscall(SYS_close, fd);
    /* Linux always releases the descriptor; an error is only reported. */
    long r = 0;
    struct item *after;
    char name[64];
    snprintf(name, sizeof name, "%s", fdname[fd]);
    fdcls[fd] = 0;
    int decided = simple(c, "close", name, &r, &after);
    int e = errno;
    long x = syscall(SYS_close, fd);
    if (decided) {
        errno = e;
        return r;
    }
    return finish(c, "close", name, x, after);
}
static int do_sync(int fd, long nr, const char *op) {
    char c = cls_of(fd);
    if (!c || c == 's' || c == 'e') return syscall(nr, fd);
    long r;
    struct item *after;
    if (simple(c, op, fdname[fd], &r, &after)) return r;
    return finish(c, op, fdname[fd], syscall(nr, fd), after);
}
int fsync(int fd) { return do_sync(fd, SYS_fsync, "fsync"); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync, "fsync"); }
int ftruncate(int fd, off_t n) {
    char c = cls_of(fd);
    if (!c) return syscall(SYS_ftruncate, fd, n);
    logline("mut truncate %s", fdname[fd]);
    long r;
    struct item *after;
    if (simple(c, "truncate", fdname[fd], &r, &after)) return r;
    return finish(c, "truncate", fdname[fd], syscall(SYS_ftruncate, fd, n), after);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }

/* Queries by path or descriptor. */
#define QUERY(dirfd, path, call)                                                                 \
    do {                                                                                         \
        if (!active || !(path)[0]) return (call);                                                \
        char ab[PATH_MAX];                                                                       \
        absolute(dirfd, path, ab);                                                               \
        char c = classify(ab);                                                                   \
        if (!c) return (call);                                                                   \
        long r;                                                                                  \
        struct item *after;                                                                      \
        if (simple(c, "stat", ab, &r, &after)) return r;                                         \
        r = (call);                                                                              \
        return finish(c, "stat", ab, r, after);                                                  \
    } while (0)
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict b) {
    /* Rust asks whether the call exists by making it with null pointers. */
    const void *volatile pp = p, *volatile bb = b; /* The header declares them nonnull. */
    if (!pp || !bb) return syscall(SYS_statx, d, p, f, m, b);
    if (active && !p[0]) {
        char c = cls_of(d);
        if (c && c != 's' && c != 'e') {
            long r;
            struct item *after;
            if (simple(c, "stat", fdname[d], &r, &after)) return r;
            return finish(c, "stat", fdname[d], syscall(SYS_statx, d, p, f, m, b), after);
        }
    }
    QUERY(d, p, syscall(SYS_statx, d, p, f, m, b));
}
int stat(const char *restrict p, struct stat *restrict b) { QUERY(AT_FDCWD, p, syscall(SYS_newfstatat, AT_FDCWD, p, b, 0)); }
int stat64(const char *restrict p, struct stat64 *restrict b) { QUERY(AT_FDCWD, p, syscall(SYS_newfstatat, AT_FDCWD, p, b, 0)); }
int lstat(const char *restrict p, struct stat *restrict b) { QUERY(AT_FDCWD, p, syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW)); }
int lstat64(const char *restrict p, struct stat64 *restrict b) { QUERY(AT_FDCWD, p, syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW)); }
int access(const char *p, int m) { QUERY(AT_FDCWD, p, syscall(SYS_access, p, m)); }

char *realpath(const char *restrict p, char *restrict out) {
    char *(*real)(const char *, char *) =
        real_realpath ? real_realpath : (char *(*)(const char *, char *))dlsym(RTLD_NEXT, "realpath");
    if (!active) return real(p, out);
    char ab[PATH_MAX];
    absolute(AT_FDCWD, p, ab);
    char c = classify(ab);
    if (!c) return real(p, out);
    long r;
    struct item *after;
    if (simple(c, "realpath", ab, &r, &after)) return NULL;
    char *x = real(p, out);
    finish(c, "realpath", ab, x ? 0 : -1, after);
    return x;
}

/* Changes. */
int mkdir(const char *p, mode_t m) { MUTATE("mkdir", AT_FDCWD, p, syscall(SYS_mkdir, p, m)); }
int mkdirat(int d, const char *p, mode_t m) { MUTATE("mkdir", d, p, syscall(SYS_mkdirat, d, p, m)); }
int rmdir(const char *p) { MUTATE("rmdir", AT_FDCWD, p, syscall(SYS_rmdir, p)); }
int unlink(const char *p) { MUTATE("unlink", AT_FDCWD, p, syscall(SYS_unlink, p)); }
int unlinkat(int d, const char *p, int f) { MUTATE("unlink", d, p, syscall(SYS_unlinkat, d, p, f)); }
int remove(const char *p) { MUTATE("unlink", AT_FDCWD, p, syscall(SYS_unlink, p)); }
int truncate(const char *p, off_t n) { MUTATE("truncate", AT_FDCWD, p, syscall(SYS_truncate, p, n)); }
int truncate64(const char *p, off64_t n) { MUTATE("truncate", AT_FDCWD, p, syscall(SYS_truncate, p, n)); }
int symlink(const char *t, const char *p) { MUTATE("symlink", AT_FDCWD, p, syscall(SYS_symlink, t, p)); }
int symlinkat(const char *t, int d, const char *p) { MUTATE("symlink", d, p, syscall(SYS_symlinkat, t, d, p)); }
int mkfifo(const char *p, mode_t m) { MUTATE("mkfifo", AT_FDCWD, p, syscall(SYS_mknod, p, m | S_IFIFO, 0)); }
int chmod(const char *p, mode_t m) { MUTATE("chmod", AT_FDCWD, p, syscall(SYS_chmod, p, m)); }
int chown(const char *p, uid_t u, gid_t g) { MUTATE("chown", AT_FDCWD, p, syscall(SYS_chown, p, u, g)); }
int lchown(const char *p, uid_t u, gid_t g) { MUTATE("chown", AT_FDCWD, p, syscall(SYS_lchown, p, u, g)); }
static int rename2(int a, const char *p, int b, const char *q, unsigned f) {
    if (active) {
        char ab[PATH_MAX];
        absolute(a, p, ab);
        logline("mut rename %s", shown(ab));
        if (!classify(ab)) {
            logline("deny rename %s", ab);
            errno = EACCES;
            return -1;
        }
    }
    MUTATE("rename", b, q, syscall(SYS_renameat2, a, p, b, q, f));
}
int rename(const char *p, const char *q) { return rename2(AT_FDCWD, p, AT_FDCWD, q, 0); }
int renameat(int a, const char *p, int b, const char *q) { return rename2(a, p, b, q, 0); }
int renameat2(int a, const char *p, int b, const char *q, unsigned f) { return rename2(a, p, b, q, f); }
int link(const char *p, const char *q) { MUTATE("link", AT_FDCWD, q, syscall(SYS_link, p, q)); }
int linkat(int a, const char *p, int b, const char *q, int f) { MUTATE("link", b, q, syscall(SYS_linkat, a, p, b, q, f)); }

/* No children, no network, no sleeping in the simulation. */
pid_t fork(void) {
    if (!active) return syscall(SYS_fork);
    logline("mut fork -");
    errno = EAGAIN;
    return -1;
}
int execve(const char *p, char *const a[], char *const e[]) {
    if (!active) return syscall(SYS_execve, p, a, e);
    logline("mut exec %s", p);
    errno = EACCES;
    return -1;
}
int kill(pid_t p, int s) {
    if (!active) return syscall(SYS_kill, p, s);
    logline("mut kill -");
    errno = EPERM;
    return -1;
}

int posix_spawn(pid_t *a, const char *b, const void *c, const void *d, char *const e[], char *const f[]) {
    (void)a, (void)c, (void)d, (void)e, (void)f;
    logline("mut exec %s", b);
    return EACCES;
}
int posix_spawnp(pid_t *a, const char *b, const void *c, const void *d, char *const e[], char *const f[]) {
    return posix_spawn(a, b, c, d, e, f);
}

ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!active) return syscall(SYS_getrandom, b, n, f);
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) p[i] = next(&hseed) >> 24;
    return n;
}
