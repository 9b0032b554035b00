/* LD_PRELOAD gate between an atrcopy process and the file system.
 *
 * Inactive (plain pass-through) until sim_attach() is called in a forked child.
 * From then on every file operation on a path or descriptor below the scratch
 * root is announced to the simulator on a SOCK_SEQPACKET socket and carried out,
 * failed, shortened, or turned into a process death according to the verdict.
 * The child runs only between a verdict and its next announcement, so the
 * simulator decides every interleaving.  Mutations outside the root are refused
 * (EACCES) and reported: nothing an escaped call names is ever touched.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_FSYNC, OP_TRUNC, OP_RENAME, OP_UNLINK,
       OP_MKDIR, OP_RMDIR, OP_LINK, OP_SYMLINK, OP_CHMOD, OP_STAT, OP_ESCAPE = 90, OP_DONE = 100, OP_DYING = 101 };
enum { V_GO = 0, V_FAIL, V_SHORT, V_DIE_BEFORE, V_DIE_PART, V_DIE_AFTER, V_INT_BEFORE, V_INT_AFTER, V_DO_FAIL };

struct req { uint32_t op; int32_t fd; uint64_t ino; int64_t off; int64_t len; int32_t flags; int32_t mode;
             int32_t ret; int32_t err; uint16_t l1, l2; char p[2 * PATH_MAX]; };
#define REQ_HDR ((size_t)offsetof(struct req, p))
struct verdict { int32_t kind; int32_t err; int64_t n; };

static int active, ctl = -1, gate_stat;
static char root[PATH_MAX], aux[PATH_MAX];
static size_t rootlen, auxlen;
#define MAXFD 4096
static unsigned char tracked[MAXFD];   /* 1: below root, 2: below aux (read only) */

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

int sim_attach(int fd, const char *r, const char *a) {
    if (!realpath(r, root)) return -1;
    if (!a || !*a || !realpath(a, aux)) aux[0] = 0;
    rootlen = strlen(root); auxlen = strlen(aux);
    memset(tracked, 0, sizeof tracked);
    ctl = fd; active = 1;
    return 0;
}
void sim_detach(void) { active = 0; }
void sim_gate_stat(int on) { gate_stat = on; }
int sim_open_count(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += tracked[i] == 1; return n; }

static int under(const char *p, const char *r, size_t n) {
    return n && !strncmp(p, r, n) && (p[n] == '/' || p[n] == 0);
}
/* absolute path with symlinks resolved; the last component may be missing.  nofollow: do not resolve the last component */
static void resolve(int dirfd, const char *path, int nofollow, char *out) {
    char abs[PATH_MAX], tmp[PATH_MAX];
    if (path[0] == '/') snprintf(abs, sizeof abs, "%s", path);
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) strcpy(base, "/"); }
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t n = readlink(l, base, sizeof base - 1); if (n < 0) n = 0; base[n] = 0; }
        size_t bl = strlen(base);
        if (bl + strlen(path) + 2 > sizeof abs) { snprintf(out, PATH_MAX, "/toolong"); return; }
        memcpy(abs, base, bl); abs[bl] = '/'; strcpy(abs + bl + 1, path);
    }
    if (!nofollow && realpath(abs, out)) return;
    size_t n = strlen(abs);
    while (n > 1 && abs[n - 1] == '/') abs[--n] = 0;
    char *slash = strrchr(abs, '/');
    const char *last = slash ? slash + 1 : abs;
    char lastc[PATH_MAX]; snprintf(lastc, sizeof lastc, "%s", last);
    if (slash) { *slash = 0; if (!abs[0]) strcpy(abs, "/"); }
    if (!realpath(abs, tmp)) snprintf(tmp, sizeof tmp, "%s", abs);   /* missing parent: the call will fail itself */
    size_t tl = strlen(tmp);
    if (tl + strlen(lastc) + 2 > PATH_MAX) { snprintf(out, PATH_MAX, "/toolong"); return; }
    memcpy(out, tmp, tl); out[tl] = '/'; strcpy(out + tl + 1, lastc);
    if (tl == 1) { memmove(out, out + 1, strlen(out)); }
}

static void put(struct req *q) {
    size_t n = REQ_HDR + q->l1 + q->l2;
    while (send(ctl, q, n, MSG_NOSIGNAL) < 0) if (errno != EINTR) _exit(99);
}
static void get(struct verdict *v) {
    for (;;) { ssize_t n = recv(ctl, v, sizeof *v, 0); if (n == sizeof *v) return; if (n < 0 && errno == EINTR) continue; _exit(98); }
}
static void ask(struct req *q, struct verdict *v) {
    int e = errno; put(q); get(v);
    if (v->kind == V_DIE_BEFORE) { q->op = OP_DYING; q->l1 = q->l2 = 0; put(q); get(v); _exit(137); }
    errno = e;
}
static void done(struct verdict *v, long ret, int err) {
    struct req q; memset(&q, 0, REQ_HDR); q.op = OP_DONE; q.ret = (int32_t)ret; q.err = ret < 0 ? err : 0; q.len = ret;
    if (v->kind == V_DIE_PART || v->kind == V_DIE_AFTER) { q.op = OP_DYING; put(&q); get(v); _exit(137); }   /* the simulator looks at our descriptors first */
    put(&q);
    if (v->kind == V_INT_AFTER || v->kind == V_INT_BEFORE) raise(SIGINT);
    errno = err;
}
static void setp(struct req *q, const char *a, const char *b) {
    q->l1 = strlen(a); memcpy(q->p, a, q->l1);
    q->l2 = b ? strlen(b) : 0; if (b) memcpy(q->p + q->l1, b, q->l2);
}
static void escape(int op, const char *a, const char *b) {
    struct req q; memset(&q, 0, REQ_HDR); q.op = OP_ESCAPE; q.flags = op; setp(&q, a, b);
    struct verdict v; ask(&q, &v); done(&v, -1, EACCES);
    errno = EACCES;
}
/* common shape: skip the call?  returns 1 with *ret set when the verdict replaces it */
static int pre(struct verdict *v, long *ret) {
    if (v->kind == V_FAIL) { done(v, -1, v->err); *ret = -1; errno = v->err; return 1; }
    if (v->kind == V_INT_BEFORE) { done(v, -1, EINTR); *ret = -1; errno = EINTR; return 1; }
    return 0;
}
static long post(struct verdict *v, long ret) {
    int e = errno;
    if (v->kind == V_DO_FAIL) { done(v, -1, v->err); errno = v->err; return -1; }
    done(v, ret, e); errno = e; return ret;
}

static uint64_t inode(int fd) { struct stat s; return fstat(fd, &s) ? 0 : (uint64_t)s.st_ino; }
static int trk(int fd) { return fd >= 0 && fd < MAXFD ? tracked[fd] : 0; }

/* ---- open ---- */
static int harmless(const char *p) {
    static const char *ok[] = { "/dev/null", "/dev/zero", "/dev/full", "/dev/tty", "/dev/random", "/dev/urandom", NULL };
    for (int i = 0; ok[i]; i++) if (!strcmp(p, ok[i])) return 1;
    return 0;
}
static int sys_openat(int d, const char *p, int f, mode_t m) { return (int)syscall(SYS_openat, d, p, f, m); }
static int do_open(int d, const char *path, int flags, mode_t mode) {
    if (!active || !path) return sys_openat(d, path, flags, mode);
    char p[PATH_MAX]; resolve(d, path, (flags & O_NOFOLLOW) != 0, p);
    int acc = flags & O_ACCMODE, wr = acc != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int in = under(p, root, rootlen), ax = !in && under(p, aux, auxlen);
    if (!in && !ax) {
        if (wr && !harmless(p)) { escape(OP_OPEN, p, NULL); return -1; }
        return sys_openat(d, path, flags, mode);
    }
    if (ax && wr) { escape(OP_OPEN, p, NULL); return -1; }
    struct req q; memset(&q, 0, REQ_HDR); q.op = OP_OPEN; q.flags = flags; q.mode = mode; setp(&q, p, NULL);
    struct verdict v; long r; ask(&q, &v); if (pre(&v, &r)) return -1;
    int fd = sys_openat(d, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = in ? 1 : 2;
    if (v.kind == V_DO_FAIL && fd >= 0) { tracked[fd] = 0; syscall(SYS_close, fd); }
    return (int)post(&v, fd);
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

/* ---- read / write ---- */
static ssize_t do_rw(int op, int fd, void *buf, size_t n, int positioned, off64_t off) {
    struct req q; memset(&q, 0, REQ_HDR); q.op = op; q.fd = fd; q.len = n; q.ino = inode(fd);
    q.off = positioned ? off : lseek64(fd, 0, SEEK_CUR); q.mode = tracked[fd];
    struct verdict v; long r; ask(&q, &v); if (pre(&v, &r)) return -1;
    size_t m = n;
    if ((v.kind == V_SHORT || v.kind == V_DIE_PART) && (size_t)v.n < m) m = v.n;
    long sys = op == OP_READ ? (positioned ? SYS_pread64 : SYS_read) : (positioned ? SYS_pwrite64 : SYS_write);
    ssize_t ret = positioned ? syscall(sys, fd, buf, m, off) : syscall(sys, fd, buf, m);
    return post(&v, ret);
}
ssize_t read(int fd, void *b, size_t n) { if (!active || !trk(fd)) return syscall(SYS_read, fd, b, n); return do_rw(OP_READ, fd, b, n, 0, 0); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (!active || !trk(fd)) return syscall(SYS_write, fd, b, n); return do_rw(OP_WRITE, fd, (void *)b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (!active || !trk(fd)) return syscall(SYS_pread64, fd, b, n, o); return do_rw(OP_READ, fd, b, n, 1, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (!active || !trk(fd)) return syscall(SYS_pwrite64, fd, b, n, o); return do_rw(OP_WRITE, fd, (void *)b, n, 1, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!active || !trk(fd)) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!active || !trk(fd)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
/* kernel-side copies: refuse, so that callers fall back to read/write */
ssize_t sendfile(int o, int i, off_t *off, size_t n) { if (active && (trk(o) || trk(i))) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, (off_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    if (active && (trk(o) || trk(i))) { errno = ENOSYS; return -1; } return syscall(SYS_copy_file_range, i, io, o, oo, n, f); }

/* ---- close / dup ---- */
int close(int fd) {
    if (!active || !trk(fd)) return (int)syscall(SYS_close, fd);
    struct req q; memset(&q, 0, REQ_HDR); q.op = OP_CLOSE; q.fd = fd; q.ino = inode(fd); q.mode = tracked[fd];
    struct verdict v; ask(&q, &v);
    if (v.kind == V_FAIL) v.kind = V_DO_FAIL;            /* a failing close still releases the descriptor */
    if (v.kind == V_INT_BEFORE) v.kind = V_INT_AFTER;
    tracked[fd] = 0;
    return (int)post(&v, syscall(SYS_close, fd));
}
static int dupd(int from, int to) { if (active && to >= 0 && to < MAXFD) tracked[to] = trk(from); return to; }
int dup(int fd) { return dupd(fd, (int)syscall(SYS_dup, fd)); }
int dup2(int a, int b) { if (a == b) return (int)syscall(SYS_fcntl, a, F_GETFD) < 0 ? -1 : b; return dupd(a, (int)syscall(SYS_dup3, a, b, 0)); }
int dup3(int a, int b, int f) { return dupd(a, (int)syscall(SYS_dup3, a, b, f)); }
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    int r = (int)syscall(SYS_fcntl, fd, cmd, a);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) dupd(fd, r);
    return r;
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    int r = (int)syscall(SYS_fcntl, fd, cmd, a);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) dupd(fd, r);
    return r;
}

/* ---- operations on descriptors ---- */
static int fdop(int op, int fd, int64_t len, long sys) {
    struct req q; memset(&q, 0, REQ_HDR); q.op = op; q.fd = fd; q.len = len; q.ino = inode(fd);
    struct verdict v; long r; ask(&q, &v); if (pre(&v, &r)) return -1;
    return (int)post(&v, syscall(sys, fd, len));
}
int fsync(int fd) { if (!active || !trk(fd)) return (int)syscall(SYS_fsync, fd); return fdop(OP_FSYNC, fd, 0, SYS_fsync); }
int fdatasync(int fd) { if (!active || !trk(fd)) return (int)syscall(SYS_fdatasync, fd); return fdop(OP_FSYNC, fd, 0, SYS_fdatasync); }
int ftruncate(int fd, off_t n) { if (!active || !trk(fd)) return (int)syscall(SYS_ftruncate, fd, n); return fdop(OP_TRUNC, fd, n, SYS_ftruncate); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fchmod(int fd, mode_t m) { if (!active || !trk(fd)) return (int)syscall(SYS_fchmod, fd, m); return fdop(OP_CHMOD, fd, m, SYS_fchmod); }
int fallocate(int fd, int mode, off_t o, off_t l) { if (active && trk(fd)) { errno = EOPNOTSUPP; return -1; } return (int)syscall(SYS_fallocate, fd, mode, o, l); }
int fallocate64(int fd, int mode, off64_t o, off64_t l) { return fallocate(fd, mode, o, l); }
int posix_fallocate(int fd, off_t o, off_t l) { if (active && trk(fd)) return EOPNOTSUPP; return syscall(SYS_fallocate, fd, 0, o, l) ? errno : 0; }

/* ---- operations on names ---- */
static int nameop(int op, int d1, const char *a, int d2, const char *b, int nofollow, long arg, long sys, long s1, long s2, long s3, long s4, long s5) {
    char p[PATH_MAX], p2[PATH_MAX];
    resolve(d1, a, nofollow, p); if (b) resolve(d2, b, 1, p2);
    if (!under(p, root, rootlen) || (b && op != OP_SYMLINK && !under(p2, root, rootlen))) { escape(op, p, b ? p2 : NULL); return -1; }
    struct req q; memset(&q, 0, REQ_HDR); q.op = op; q.len = arg; setp(&q, p, b ? p2 : NULL);
    struct verdict v; long r; ask(&q, &v); if (pre(&v, &r)) return -1;
    return (int)post(&v, syscall(sys, s1, s2, s3, s4, s5));
}
#define L(x) ((long)(x))
int renameat(int d1, const char *a, int d2, const char *b) { if (!active) return (int)syscall(SYS_renameat, d1, a, d2, b); return nameop(OP_RENAME, d1, a, d2, b, 1, 0, SYS_renameat, d1, L(a), d2, L(b), 0); }
int rename(const char *a, const char *b) { return renameat(AT_FDCWD, a, AT_FDCWD, b); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { if (!active) return (int)syscall(SYS_renameat2, d1, a, d2, b, f); return nameop(OP_RENAME, d1, a, d2, b, 1, f, SYS_renameat2, d1, L(a), d2, L(b), f); }
int unlinkat(int d, const char *a, int f) { if (!active) return (int)syscall(SYS_unlinkat, d, a, f); return nameop(f & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, d, a, 0, NULL, 1, f, SYS_unlinkat, d, L(a), f, 0, 0); }
int unlink(const char *a) { return unlinkat(AT_FDCWD, a, 0); }
int rmdir(const char *a) { return unlinkat(AT_FDCWD, a, AT_REMOVEDIR); }
int remove(const char *a) { struct stat s; return lstat(a, &s) == 0 && S_ISDIR(s.st_mode) ? rmdir(a) : unlink(a); }
int mkdirat(int d, const char *a, mode_t m) { if (!active) return (int)syscall(SYS_mkdirat, d, a, m); return nameop(OP_MKDIR, d, a, 0, NULL, 1, m, SYS_mkdirat, d, L(a), m, 0, 0); }
int mkdir(const char *a, mode_t m) { return mkdirat(AT_FDCWD, a, m); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { if (!active) return (int)syscall(SYS_linkat, d1, a, d2, b, f); return nameop(OP_LINK, d1, a, d2, b, 1, f, SYS_linkat, d1, L(a), d2, L(b), f); }
int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
int symlinkat(const char *t, int d, const char *b) { if (!active) return (int)syscall(SYS_symlinkat, t, d, b); return nameop(OP_SYMLINK, d, b, AT_FDCWD, NULL, 1, 0, SYS_symlinkat, L(t), d, L(b), 0, 0); }
int symlink(const char *t, const char *b) { return symlinkat(t, AT_FDCWD, b); }
int fchmodat(int d, const char *a, mode_t m, int f) { if (!active) return (int)syscall(SYS_fchmodat, d, a, m); (void)f; return nameop(OP_CHMOD, d, a, 0, NULL, 0, m, SYS_fchmodat, d, L(a), m, 0, 0); }
int chmod(const char *a, mode_t m) { return fchmodat(AT_FDCWD, a, m, 0); }
int truncate(const char *a, off_t n) { if (!active) return (int)syscall(SYS_truncate, a, n); return nameop(OP_TRUNC, AT_FDCWD, a, 0, NULL, 0, n, SYS_truncate, L(a), n, 0, 0, 0); }
int utimensat(int d, const char *a, const struct timespec *t, int f) { if (!active || !a) return (int)syscall(SYS_utimensat, d, a, t, f); return nameop(OP_CHMOD, d, a, 0, NULL, 1, 0, SYS_utimensat, d, L(a), L(t), f, 0); }
int utimes(const char *a, const struct timeval *t) { if (!active) return (int)syscall(SYS_utimes, a, t); return nameop(OP_CHMOD, AT_FDCWD, a, 0, NULL, 1, 0, SYS_utimes, L(a), L(t), 0, 0, 0); }
int futimens(int fd, const struct timespec *t) { if (!active || !trk(fd)) return (int)syscall(SYS_utimensat, fd, NULL, t, 0); return fdop(OP_CHMOD, fd, 0, SYS_fsync); }
int fchownat(int d, const char *a, uid_t u, gid_t g, int f) { if (!active) return (int)syscall(SYS_fchownat, d, a, u, g, f); return nameop(OP_CHMOD, d, a, 0, NULL, 1, 0, SYS_fchownat, d, L(a), u, g, f); }
int chown(const char *a, uid_t u, gid_t g) { return fchownat(AT_FDCWD, a, u, g, 0); }
int lchown(const char *a, uid_t u, gid_t g) { return fchownat(AT_FDCWD, a, u, g, AT_SYMLINK_NOFOLLOW); }
int mknodat(int d, const char *a, mode_t m, dev_t v) { if (!active) return (int)syscall(SYS_mknodat, d, a, m, v); return nameop(OP_MKDIR, d, a, 0, NULL, 1, m, SYS_mknodat, d, L(a), m, v, 0); }
int mkfifo(const char *a, mode_t m) { return mknodat(AT_FDCWD, a, m | S_IFIFO, 0); }
int truncate64(const char *a, off64_t n) { return truncate(a, n); }

/* ---- looking at names: a scheduling point when asked for, never made to fail ---- */
static void look(int d, const char *a, int nofollow) {
    if (!active || !gate_stat || !a) return;
    int e = errno; char p[PATH_MAX]; resolve(d, a, nofollow, p);
    if (!under(p, root, rootlen)) { errno = e; return; }
    struct req q; memset(&q, 0, REQ_HDR); q.op = OP_STAT; setp(&q, p, NULL);
    struct verdict v; ask(&q, &v);
    if (v.kind != V_DIE_PART && v.kind != V_DIE_AFTER) v.kind = V_GO;
    done(&v, 0, 0); errno = e;
}
static int sys_stat(int d, const char *a, void *s, int f) { return (int)syscall(SYS_newfstatat, d, a, s, f); }
int fstatat(int d, const char *a, struct stat *s, int f) { look(d, a, f & AT_SYMLINK_NOFOLLOW); return sys_stat(d, a, s, f); }
int fstatat64(int d, const char *a, struct stat64 *s, int f) { look(d, a, f & AT_SYMLINK_NOFOLLOW); return sys_stat(d, a, s, f); }
int stat(const char *a, struct stat *s) { look(AT_FDCWD, a, 0); return sys_stat(AT_FDCWD, a, s, 0); }
int stat64(const char *a, struct stat64 *s) { look(AT_FDCWD, a, 0); return sys_stat(AT_FDCWD, a, s, 0); }
int lstat(const char *a, struct stat *s) { look(AT_FDCWD, a, 1); return sys_stat(AT_FDCWD, a, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *a, struct stat64 *s) { look(AT_FDCWD, a, 1); return sys_stat(AT_FDCWD, a, s, AT_SYMLINK_NOFOLLOW); }
int access(const char *a, int m) { look(AT_FDCWD, a, 0); return (int)syscall(SYS_access, a, m); }

/* ---- stdio streams on tracked descriptors (numpy's tofile): a cookie stream over the gated calls ---- */
struct ck { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) { return read(((struct ck *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = write(((struct ck *)c)->fd, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w) { off64_t r = lseek64(((struct ck *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { int r = close(((struct ck *)c)->fd); free(c); return r; }
FILE *fdopen(int fd, const char *mode) {
    REAL(fdopen);
    if (!active || !trk(fd)) return real(fd, mode);
    struct ck *c = malloc(sizeof *c); c->fd = fd;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    return fopencookie(c, mode, io);
}
static int oflags(const char *m) {
    int plus = strchr(m, '+') != NULL;
    if (m[0] == 'r') return plus ? O_RDWR : O_RDONLY;
    return (plus ? O_RDWR : O_WRONLY) | O_CREAT | (m[0] == 'a' ? O_APPEND : O_TRUNC);
}
FILE *fopen(const char *p, const char *mode) {
    REAL(fopen);
    if (!active) return real(p, mode);
    int fd = open(p, oflags(mode), 0666);
    if (fd < 0) return NULL;
    FILE *f = fdopen(fd, mode);
    if (!f) close(fd);
    return f;
}
FILE *fopen64(const char *p, const char *mode) { return fopen(p, mode); }
