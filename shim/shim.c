/* LD_PRELOAD shim: reports (and lets the driver fail, shorten or stop at) the file operations
 * of the program on paths below VF_ROOT.  Nothing here judges anything.
 *
 * VF_ROOT     absolute path; only operations on paths below it are reported
 * VF_FD       inherited SOCK_SEQPACKET fd: one message per operation, wait for the reply
 * VF_LOG      (instead of VF_FD) append one line per operation to this file, never wait
 * VF_CLASSES  which operations to report: m mutating, r reading, s stat-like
 * VF_CLOCK    fixed CLOCK_REALTIME in seconds
 * VF_S3PORT   connect() to port 443 goes to 127.0.0.1:VF_S3PORT, *localhost resolves to 127.0.0.1
 *
 * Message: "<class>\t<op>\t<path>\t<path2>\t<number>".  Reply: "g" go on, "e<errno>" fail,
 * "s<n>" (write, copy, read) handle only n bytes.
 */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define MAXFD 4096

static char root[PATH_MAX];
static size_t rootlen;
static int ctl = -1, logfd = -1;
static char classes[16] = "mrs";
static long fixed_clock = -1;
static int s3port;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static char *fdpath[MAXFD];
static unsigned char fdread[MAXFD];
static __thread int inside;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)
#define NEED(name) do { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); } while (0)

static void message(const char *m, size_t n, char *reply, size_t rn) {
    reply[0] = 'g'; reply[1] = 0;
    if (ctl >= 0) {
        if (syscall(SYS_sendto, ctl, m, n, MSG_NOSIGNAL, NULL, 0) < 0) _exit(86);
        long k = syscall(SYS_recvfrom, ctl, reply, rn - 1, 0, NULL, NULL);
        if (k <= 0) _exit(86);
        reply[k] = 0;
    } else if (logfd >= 0) {
        syscall(SYS_write, logfd, m, n);
    }
}

__attribute__((constructor)) static void init(void) {
    const char *e;
    if ((e = getenv("VF_ROOT"))) { strncpy(root, e, sizeof root - 1); rootlen = strlen(root); }
    if ((e = getenv("VF_CLASSES"))) strncpy(classes, e, sizeof classes - 1);
    if ((e = getenv("VF_CLOCK"))) fixed_clock = atol(e);
    if ((e = getenv("VF_S3PORT"))) s3port = atoi(e);
    if ((e = getenv("VF_FD"))) ctl = atoi(e);
    if ((e = getenv("VF_LOG")))
        logfd = (int)syscall(SYS_openat, AT_FDCWD, e, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
    char r[32];
    if (ctl >= 0) message("h\thello\t\t\t0", 11, r, sizeof r);
    else message("h\thello\t\t\t0\n", 12, r, sizeof r);
}

/* without ".", ".." and empty parts */
static void plain(char *s) {
    char *o = s, *i = s;
    while (*i) {
        while (*i == '/') i++;
        size_t n = strcspn(i, "/");
        if (!n) break;
        if (n == 1 && i[0] == '.') {
        } else if (n == 2 && i[0] == '.' && i[1] == '.') {
            while (o > s && *--o != '/') ;
        } else {
            *o++ = '/';
            memmove(o, i, n);
            o += n;
        }
        i += n;
    }
    if (o == s) *o++ = '/';
    *o = 0;
}

/* absolute path of (dirfd, p), or NULL when it is not below the root */
static const char *track(int dirfd, const char *p, char *buf) {
    if (!rootlen || !p || inside) return NULL;
    if (p[0] == '/') {
        snprintf(buf, PATH_MAX, "%s", p);
    } else {
        char d[PATH_MAX];
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, d, sizeof d) < 0) return NULL;
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            long k = syscall(SYS_readlinkat, AT_FDCWD, l, d, sizeof d - 1);
            if (k < 0) return NULL;
            d[k] = 0;
        }
        if (!*p) snprintf(buf, PATH_MAX, "%s", d);
        else if (snprintf(buf, PATH_MAX, "%s/%s", d, p) >= PATH_MAX) return NULL;
    }
    plain(buf);
    if (strncmp(buf, root, rootlen) || (buf[rootlen] && buf[rootlen] != '/')) return NULL;
    return buf;
}

/* 0: go on; >0: errno to fail with; *shortn set for shortened transfers */
static int ask(char cls, const char *op, const char *p, const char *p2, long num, long *shortn) {
    char m[2 * PATH_MAX + 128], reply[64];
    if (!strchr(classes, cls)) return 0;
    int saved = errno;
    int n = snprintf(m, sizeof m, "%c\t%s\t%s\t%s\t%ld%s", cls, op, p ? p : "", p2 ? p2 : "", num,
                     ctl >= 0 ? "" : "\n");
    pthread_mutex_lock(&lock);
    inside = 1;
    message(m, n, reply, sizeof reply);
    inside = 0;
    pthread_mutex_unlock(&lock);
    errno = saved;
    if (reply[0] == 'e') return atoi(reply + 1);
    if (reply[0] == 's' && shortn) *shortn = atol(reply + 1);
    return 0;
}

static void setfd(int fd, const char *p) {
    if (fd < 0 || fd >= MAXFD) return;
    free(fdpath[fd]);
    fdpath[fd] = p ? strdup(p) : NULL;
    fdread[fd] = 0;
}
static const char *getfd(int fd) { return fd >= 0 && fd < MAXFD && !inside ? fdpath[fd] : NULL; }

#define FAILIF(e, rv) do { int e_ = (e); if (e_) { errno = e_; return rv; } } while (0)

/* ---- open ---- */
static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
    char b[PATH_MAX];
    const char *t = track(dirfd, p, b);
    if (t) {
        int wr = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
        FAILIF(ask(wr ? 'm' : 'r', (flags & O_DIRECTORY) ? "opendir" : "open", t, "", flags, NULL), -1);
    }
    int fd = (int)syscall(SYS_openat, dirfd, p, flags | O_LARGEFILE, mode);
    if (fd >= 0) setfd(fd, t);
    return fd;
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
EXPORT int open(const char *p, int flags, ...) { GETMODE return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int open64(const char *p, int flags, ...) { GETMODE return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int openat(int d, const char *p, int flags, ...) { GETMODE return do_open(d, p, flags, mode); }
EXPORT int openat64(int d, const char *p, int flags, ...) { GETMODE return do_open(d, p, flags, mode); }
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

REAL(int, close, int);
EXPORT int close(int fd) {
    NEED(close);
    if (getfd(fd)) setfd(fd, NULL);
    return real_close(fd);
}

REAL(DIR *, opendir, const char *);
EXPORT DIR *opendir(const char *p) {
    NEED(opendir);
    char b[PATH_MAX];
    const char *t = track(AT_FDCWD, p, b);
    if (t) FAILIF(ask('r', "opendir", t, "", 0, NULL), NULL);
    return real_opendir(p);
}

/* ---- data ---- */
static int asked_read(int fd, const char *t, long n, long *s) {
    if (logfd >= 0) {           /* once per open file is enough */
        if (fdread[fd]) return 0;
        fdread[fd] = 1;
    }
    return ask('r', "read", t, "", n, s);
}
REAL(ssize_t, read, int, void *, size_t);
EXPORT ssize_t read(int fd, void *b, size_t n) {
    NEED(read);
    const char *t = getfd(fd);
    long s = -1;
    if (t && n) { FAILIF(asked_read(fd, t, (long)n, &s), -1); if (s >= 0 && (size_t)s < n) n = s; }
    return real_read(fd, b, n);
}
REAL(ssize_t, readv, int, const struct iovec *, int);
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
    NEED(readv);
    const char *t = getfd(fd);
    if (t) FAILIF(asked_read(fd, t, c, NULL), -1);
    return real_readv(fd, v, c);
}
REAL(ssize_t, pread64, int, void *, size_t, off_t);
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) {
    NEED(pread64);
    const char *t = getfd(fd);
    if (t) FAILIF(asked_read(fd, t, (long)n, NULL), -1);
    return real_pread64(fd, b, n, o);
}
REAL(ssize_t, write, int, const void *, size_t);
EXPORT ssize_t write(int fd, const void *b, size_t n) {
    NEED(write);
    const char *t = getfd(fd);
    long s = -1;
    if (t) { FAILIF(ask('m', "write", t, "", (long)n, &s), -1); if (s >= 0 && (size_t)s < n) n = s; }
    return real_write(fd, b, n);
}
REAL(ssize_t, writev, int, const struct iovec *, int);
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
    NEED(writev);
    const char *t = getfd(fd);
    if (t) {
        long n = 0, s = -1;
        for (int i = 0; i < c; i++) n += (long)v[i].iov_len;
        FAILIF(ask('m', "write", t, "", n, &s), -1);
        if (s >= 0 && s < n) {
            NEED(write);
            for (int i = 0; i < c; i++)
                if (v[i].iov_len) return real_write(fd, v[i].iov_base, (size_t)s < v[i].iov_len ? (size_t)s : v[i].iov_len);
        }
    }
    return real_writev(fd, v, c);
}
REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    NEED(pwrite64);
    const char *t = getfd(fd);
    if (t) FAILIF(ask('m', "write", t, "", (long)n, NULL), -1);
    return real_pwrite64(fd, b, n, o);
}
REAL(ssize_t, pread, int, void *, size_t, off_t);
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) {
    NEED(pread);
    const char *t = getfd(fd);
    if (t) FAILIF(asked_read(fd, t, (long)n, NULL), -1);
    return real_pread(fd, b, n, o);
}
REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    NEED(pwrite);
    const char *t = getfd(fd);
    if (t) FAILIF(ask('m', "write", t, "", (long)n, NULL), -1);
    return real_pwrite(fd, b, n, o);
}
static ssize_t copying(int in, int out, size_t *n) {
    const char *ti = getfd(in), *to = getfd(out);
    long s = -1;
    if (ti) { int e = asked_read(in, ti, (long)*n, NULL); if (e) { errno = e; return -1; } }
    if (to) {
        struct stat st;
        long m = (long)*n;
        if (!syscall(SYS_fstat, in, &st) && st.st_size > 0 && st.st_size < m) m = st.st_size;
        int e = ask('m', "write", to, "", m, &s);
        if (e) { errno = e; return -1; }
        if (s >= 0 && (size_t)s < *n) *n = s;
    }
    return 0;
}
EXPORT ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl) {
    if (copying(in, out, &n)) return -1;
    return syscall(SYS_copy_file_range, in, io, out, oo, n, fl);
}
EXPORT ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    if (copying(in, out, &n)) return -1;
    return syscall(SYS_sendfile, out, in, o, n);
}
EXPORT ssize_t sendfile(int out, int in, off_t *o, size_t n) {
    if (copying(in, out, &n)) return -1;
    return syscall(SYS_sendfile, out, in, o, n);
}
EXPORT ssize_t splice(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl) {
    if (copying(in, out, &n)) return -1;
    return syscall(SYS_splice, in, io, out, oo, n, fl);
}

#define FDOP(name, rt, cls, op, params, call) \
    EXPORT rt name params { const char *t = getfd(fd); if (t) FAILIF(ask(cls, op, t, "", 0, NULL), -1); return (rt)syscall call; }
FDOP(fsync, int, 'm', "fsync", (int fd), (SYS_fsync, fd))
FDOP(fdatasync, int, 'm', "fsync", (int fd), (SYS_fdatasync, fd))
FDOP(ftruncate, int, 'm', "truncate", (int fd, off_t n), (SYS_ftruncate, fd, n))
FDOP(ftruncate64, int, 'm', "truncate", (int fd, off64_t n), (SYS_ftruncate, fd, n))
FDOP(fchmod, int, 'm', "chmod", (int fd, mode_t m), (SYS_fchmod, fd, m))

/* ---- names ---- */
static int two(const char *op, int d1, const char *a, int d2, const char *b, int follow1) {
    char x[PATH_MAX], y[PATH_MAX];
    const char *t = follow1 ? track(d1, a, x) : a, *u = track(d2, b, y);
    if (u || (follow1 && t)) return ask('m', op, t ? t : a, u ? u : b, 0, NULL);
    return 0;
}
static int one(char cls, const char *op, int d, const char *p) {
    char x[PATH_MAX];
    const char *t = track(d, p, x);
    return t ? ask(cls, op, t, "", 0, NULL) : 0;
}
EXPORT int rename(const char *a, const char *b) { FAILIF(two("rename", AT_FDCWD, a, AT_FDCWD, b, 1), -1); return (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int renameat(int d, const char *a, int e, const char *b) { FAILIF(two("rename", d, a, e, b, 1), -1); return (int)syscall(SYS_renameat2, d, a, e, b, 0); }
EXPORT int renameat2(int d, const char *a, int e, const char *b, unsigned f) { FAILIF(two("rename", d, a, e, b, 1), -1); return (int)syscall(SYS_renameat2, d, a, e, b, f); }
EXPORT int link(const char *a, const char *b) { FAILIF(two("link", AT_FDCWD, a, AT_FDCWD, b, 1), -1); return (int)syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int linkat(int d, const char *a, int e, const char *b, int f) { FAILIF(two("link", d, a, e, b, 1), -1); return (int)syscall(SYS_linkat, d, a, e, b, f); }
EXPORT int symlink(const char *a, const char *b) { FAILIF(two("symlink", AT_FDCWD, a, AT_FDCWD, b, 0), -1); return (int)syscall(SYS_symlinkat, a, AT_FDCWD, b); }
EXPORT int symlinkat(const char *a, int e, const char *b) { FAILIF(two("symlink", AT_FDCWD, a, e, b, 0), -1); return (int)syscall(SYS_symlinkat, a, e, b); }
EXPORT int unlink(const char *p) { FAILIF(one('m', "unlink", AT_FDCWD, p), -1); return (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
EXPORT int unlinkat(int d, const char *p, int f) { FAILIF(one('m', "unlink", d, p), -1); return (int)syscall(SYS_unlinkat, d, p, f); }
EXPORT int rmdir(const char *p) { FAILIF(one('m', "rmdir", AT_FDCWD, p), -1); return (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
EXPORT int mkdir(const char *p, mode_t m) { FAILIF(one('m', "mkdir", AT_FDCWD, p), -1); return (int)syscall(SYS_mkdirat, AT_FDCWD, p, m); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { FAILIF(one('m', "mkdir", d, p), -1); return (int)syscall(SYS_mkdirat, d, p, m); }
EXPORT int truncate(const char *p, off_t n) { FAILIF(one('m', "truncate", AT_FDCWD, p), -1); return (int)syscall(SYS_truncate, p, n); }
EXPORT int truncate64(const char *p, off64_t n) { FAILIF(one('m', "truncate", AT_FDCWD, p), -1); return (int)syscall(SYS_truncate, p, n); }
EXPORT int chmod(const char *p, mode_t m) { FAILIF(one('m', "chmod", AT_FDCWD, p), -1); return (int)syscall(SYS_fchmodat, AT_FDCWD, p, m); }

REAL(int, stat64, const char *, struct stat64 *);
EXPORT int stat64(const char *p, struct stat64 *s) { NEED(stat64); FAILIF(one('s', "stat", AT_FDCWD, p), -1); return real_stat64(p, s); }
REAL(int, lstat64, const char *, struct stat64 *);
EXPORT int lstat64(const char *p, struct stat64 *s) { NEED(lstat64); FAILIF(one('s', "stat", AT_FDCWD, p), -1); return real_lstat64(p, s); }
REAL(int, stat, const char *, struct stat *);
EXPORT int stat(const char *p, struct stat *s) { NEED(stat); FAILIF(one('s', "stat", AT_FDCWD, p), -1); return real_stat(p, s); }
REAL(int, lstat, const char *, struct stat *);
EXPORT int lstat(const char *p, struct stat *s) { NEED(lstat); FAILIF(one('s', "stat", AT_FDCWD, p), -1); return real_lstat(p, s); }
EXPORT int statx(int d, const char *p, int f, unsigned m, struct statx *s) {
    __asm__ volatile("" : "+r"(p));  /* (Rust probes with NULL, which the header rules out) */
    if (p && *p) { FAILIF(one('s', "stat", d, p), -1); }
    else { const char *t = getfd(d); if (t) FAILIF(ask('s', "stat", t, "", 0, NULL), -1); }
    return (int)syscall(SYS_statx, d, p, f, m, s);
}
EXPORT int access(const char *p, int m) { FAILIF(one('s', "stat", AT_FDCWD, p), -1); return (int)syscall(SYS_faccessat, AT_FDCWD, p, m); }
EXPORT ssize_t readlink(const char *p, char *b, size_t n) { FAILIF(one('s', "readlink", AT_FDCWD, p), -1); return syscall(SYS_readlinkat, AT_FDCWD, p, b, n); }
REAL(char *, realpath, const char *, char *);
EXPORT char *realpath(const char *p, char *r) {
    NEED(realpath);
    FAILIF(one('s', "realpath", AT_FDCWD, p), NULL);
    return real_realpath(p, r);
}

/* ---- clock and network ---- */
EXPORT int clock_gettime(clockid_t c, struct timespec *t) {
    if (fixed_clock >= 0 && c == CLOCK_REALTIME) { t->tv_sec = fixed_clock; t->tv_nsec = 0; return 0; }
    return (int)syscall(SYS_clock_gettime, c, t);
}
REAL(int, connect, int, const struct sockaddr *, socklen_t);
EXPORT int connect(int fd, const struct sockaddr *a, socklen_t n) {
    NEED(connect);
    if (s3port && a && a->sa_family == AF_INET && ntohs(((const struct sockaddr_in *)a)->sin_port) == 443) {
        struct sockaddr_in b = *(const struct sockaddr_in *)a;
        b.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        b.sin_port = htons((unsigned short)s3port);
        return real_connect(fd, (struct sockaddr *)&b, sizeof b);
    }
    return real_connect(fd, a, n);
}
REAL(int, getaddrinfo, const char *, const char *, const struct addrinfo *, struct addrinfo **);
EXPORT int getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **r) {
    NEED(getaddrinfo);
    size_t n = h ? strlen(h) : 0;
    if (s3port && n >= 9 && !strcmp(h + n - 9, "localhost")) {
        struct addrinfo x = {0};
        if (hi) x = *hi;
        x.ai_family = AF_INET;
        x.ai_flags = AI_NUMERICHOST;
        return real_getaddrinfo("127.0.0.1", s, &x, r);
    }
    return real_getaddrinfo(h, s, hi, r);
}
