/* simshim: the libc-level seam of the simulator.
 *
 * LD_PRELOADed into the process that runs the system under test.  Inert until
 * a control block is attached with sim_attach() and ctl->active is set.  While
 * active it numbers every tracked I/O operation, asks the fault plan in the
 * control block what the simulated machine does for that operation, logs it,
 * supplies clock / randomness / directory order, and denies (and records) any
 * file system mutation outside the run's own root.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 1024
#define MAXLOG 16384
#define MAXFAULT 32
#define MAXPREF 12
#define PATHLEN 160

enum { OP_OPENR = 1, OP_OPENW, OP_READ, OP_WRITE, OP_CLOSE, OP_UNLINK,
       OP_RENAME, OP_MKDIR, OP_RMDIR, OP_FSYNC, OP_TRUNC, OP_OPENDIR,
       OP_DENIED, OP_LINK, OP_MARK };
enum { F_ERR = 1,      /* fail with errno arg, no effect */
       F_SHORT,        /* transfer at most arg bytes */
       F_INT,          /* SIGINT delivered before the effect; EINTR */
       F_CRASH,        /* process dies before the effect; for writes: after arg bytes */
       F_CLOSELOST,    /* close fails with errno; last arg bytes of the file are lost */
       F_EOF,          /* reads on this fd return end-of-file from here on */
       F_STICKY,       /* every later op of the same kind+class fails with errno arg */
       F_EINTR };      /* EINTR without signal: must be retried */

struct fault { uint32_t op; uint32_t kind; int64_t arg; uint32_t fired; uint32_t pad; };
struct logent { uint32_t op; uint8_t kind, cls, fault, flags; int32_t fd; int32_t err;
                int64_t arg; int64_t ret; char path[PATHLEN]; };
struct pref { int32_t cls; int32_t len; char path[248]; };
struct ctl {
  uint32_t magic, active, jail, npref;
  uint32_t nfaults, nops, nlog, crashed;
  uint32_t tty, dirseed, clockon, randon;
  uint64_t clock_ns, clock_step, rng, nclock;
  uint32_t ndenied, logoverflow, nrand, ndir;
  char root[256];
  struct pref prefs[MAXPREF];
  struct fault faults[MAXFAULT];
  struct logent log[MAXLOG];
};

static struct ctl *ctl;
static signed char fdcls[MAXFD];
static unsigned char fdeof[MAXFD];
static char fdpath[MAXFD][PATHLEN];
static struct { uint32_t kind, cls; int err; } sticky[MAXFAULT];
static int nsticky;
void sim_clear(void) { nsticky = 0; }
static char envjail[256];

#define REAL(name) ({ static __typeof__(&name) p_; \
  if (!p_) p_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p_; })

size_t sim_ctl_size(void) { return sizeof(struct ctl); }
void sim_attach(void *p) {
  ctl = p; memset(fdcls, 0, sizeof fdcls); memset(fdeof, 0, sizeof fdeof); nsticky = 0;
}
void sim_detach(void) { ctl = 0; }
void sim_track_fd(int fd, int cls, const char *name) {
  if (fd < 0 || fd >= MAXFD) return;
  fdcls[fd] = cls; fdeof[fd] = 0; strncpy(fdpath[fd], name, PATHLEN - 1);
}
static int on(void) { return ctl && ctl->active; }

__attribute__((constructor)) static void init(void) {
  const char *j = getenv("SIM_JAIL");
  if (j && *j) strncpy(envjail, j, sizeof envjail - 1);
}

static void normalise(char *p) {            /* lexical */
  char out[PATH_MAX]; size_t n = 0; char *s = p;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s; while (*e && *e != '/') e++;
    size_t l = e - s;
    if (l == 1 && s[0] == '.') { }
    else if (l == 2 && s[0] == '.' && s[1] == '.') { while (n && out[--n] != '/'); }
    else { out[n++] = '/'; memcpy(out + n, s, l); n += l; }
    s = e;
  }
  if (!n) out[n++] = '/';
  out[n] = 0; strcpy(p, out);
}
static void resolve(int dirfd, const char *path, char *out) {
  char tmp[PATH_MAX * 2], link[64], par[PATH_MAX];
  if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
  else {
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) strcpy(base, "/"); }
    else {
      snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
      ssize_t n = readlink(link, base, sizeof base - 1);
      base[n > 0 ? n : 0] = 0;
    }
    snprintf(tmp, sizeof tmp, "%s/%s", base, path);
  }
  tmp[PATH_MAX - 1] = 0;
  /* resolve the parent through symlinks, keep the last component */
  char *slash = strrchr(tmp, '/');
  if (slash && slash[1] && strcmp(slash + 1, "..") && strcmp(slash + 1, ".")) {
    char last[PATH_MAX]; strcpy(last, slash + 1); *slash = 0;
    if (realpath(tmp[0] ? tmp : "/", par)) {
      snprintf(out, PATH_MAX, "%s/%s", strcmp(par, "/") ? par : "", last); return;
    }
    *slash = '/';
  }
  strcpy(out, tmp); normalise(out);
}
static int under(const char *p, const char *root) {
  size_t l = strlen(root);
  return l && !strncmp(p, root, l) && (p[l] == 0 || p[l] == '/');
}
static int ends(const char *p, const char *s) {
  size_t a = strlen(p), b = strlen(s); return a >= b && !strcmp(p + a - b, s);
}
static int classify(const char *p) {
  int best = 0, bl = -1;
  for (unsigned i = 0; i < ctl->npref; i++)
    if (ctl->prefs[i].len > bl && under(p, ctl->prefs[i].path)) {
      best = ctl->prefs[i].cls; bl = ctl->prefs[i].len; }
  if (best && (ends(p, ".py") || ends(p, ".pyc") || strstr(p, "__pycache__"))) return 0;
  return best;
}
static const char *rel(const char *p) {
  size_t l = strlen(ctl->root);
  return under(p, ctl->root) ? (p[l] ? p + l + 1 : p + l) : p;
}
static struct logent *logop(uint32_t op, int kind, int cls, int fd, int64_t arg, const char *path) {
  if (ctl->nlog >= MAXLOG) { ctl->logoverflow++; static struct logent d; return &d; }
  struct logent *e = &ctl->log[ctl->nlog++];
  memset(e, 0, sizeof *e);
  e->op = op; e->kind = kind; e->cls = cls; e->fd = fd; e->arg = arg;
  if (path) strncpy(e->path, rel(path), PATHLEN - 1);
  return e;
}
static int devok(const char *p) {
  return !strcmp(p, "/dev/null") || !strcmp(p, "/dev/tty") || !strncmp(p, "/proc/self/", 11);
}
/* nonzero: deny a mutation of path */
static int denied(const char *p, int kind) {
  if (on() && ctl->jail) {
    if (under(p, ctl->root) || devok(p)) return 0;
    struct logent *e = logop(ctl->nops, OP_DENIED, 0, -1, kind, p);
    e->ret = -1; e->err = EACCES; ctl->ndenied++;
    return 1;
  }
  if (envjail[0]) return !(under(p, envjail) || devok(p));
  return 0;
}
static void crash(void) { ctl->crashed = 1; ctl->active = 0; syscall(SYS_exit_group, 137); }

/* Decide an operation. Returns 0: go ahead (limit possibly lowered);
 * -1: errno set, fail without effect. */
static struct fault *cur;
static int decide(struct logent **le, int kind, int cls, int fd, int64_t arg, const char *path,
                  int64_t *limit) {
  uint32_t op = ctl->nops++;
  struct logent *e = *le = logop(op, kind, cls, fd, arg, path);
  ctl->clock_ns += ctl->clock_step;
  cur = 0;
  if (op > 60000) { ctl->active = 0; syscall(SYS_exit_group, 98); }   /* livelock */
  for (unsigned i = 0; i < ctl->nfaults; i++) {
    struct fault *f = &ctl->faults[i];
    if (f->op != op || f->fired) continue;
    switch (f->kind) {
    case F_SHORT: if ((kind != OP_READ && kind != OP_WRITE) || !limit || arg <= f->arg) continue;
      f->fired = 1; e->fault = f->kind; *limit = f->arg; continue;
    case F_EOF: if (kind != OP_READ) continue; f->fired = 1; e->fault = f->kind;
      if (fd >= 0 && fd < MAXFD) fdeof[fd] = 1; continue;
    case F_CLOSELOST: if (kind != OP_CLOSE) continue;
      f->fired = 1; e->fault = f->kind; cur = f; continue;
    case F_EINTR: if (kind != OP_READ && kind != OP_WRITE && kind != OP_OPENR && kind != OP_OPENW) continue;
      f->fired = 1; e->fault = f->kind; errno = e->err = EINTR; e->ret = -1; return -1;
    case F_INT:
      f->fired = 1; e->fault = f->kind; errno = e->err = EINTR; e->ret = -1;
      raise(SIGINT); errno = EINTR; return -1;
    case F_CRASH:
      f->fired = 1; e->fault = f->kind;
      if (kind == OP_WRITE && f->arg > 0 && limit) { *limit = f->arg; cur = f; continue; }
      crash(); continue;
    case F_STICKY:
      f->fired = 1; e->fault = f->kind;
      if (nsticky < MAXFAULT) { sticky[nsticky].kind = kind; sticky[nsticky].cls = cls;
        sticky[nsticky].err = (int)f->arg; nsticky++; }
      errno = e->err = (int)f->arg; e->ret = -1; return -1;
    default:
      f->fired = 1; e->fault = f->kind; errno = e->err = (int)f->arg; e->ret = -1; return -1;
    }
  }
  for (int i = 0; i < nsticky; i++)
    if (sticky[i].kind == (uint32_t)kind && sticky[i].cls == (uint32_t)cls) {
      e->fault = F_STICKY; errno = e->err = sticky[i].err; e->ret = -1; return -1; }
  return 0;
}
static int fdc(int fd) { return (fd >= 0 && fd < MAXFD && on()) ? fdcls[fd] : 0; }

/* ---- open ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  static int (*ro)(int, const char *, int, ...);
  if (!ro) ro = (void *)dlsym(RTLD_NEXT, "openat64");
  if (!on()) {
    if (envjail[0] && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) {
      char rp[PATH_MAX]; resolve(dirfd, path, rp);
      if (denied(rp, OP_OPENW)) { errno = EACCES; return -1; }
    }
    return ro(dirfd, path, flags, mode);
  }
  char rp[PATH_MAX]; resolve(dirfd, path, rp);
  int wr = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
  if (wr && denied(rp, OP_OPENW)) { errno = EACCES; return -1; }
  int cls = classify(rp);
  if (flags & O_DIRECTORY) cls = 0;
  struct logent *e = 0;
  if (cls && decide(&e, wr ? OP_OPENW : OP_OPENR, cls, -1, flags, rp, 0)) return -1;
  int fd = ro(dirfd, path, flags, mode);
  if (e) { e->ret = fd < 0 ? -1 : 0; e->err = fd < 0 ? errno : 0; e->fd = fd; }
  if (fd >= 0 && fd < MAXFD) {
    fdcls[fd] = cls; fdeof[fd] = 0; strncpy(fdpath[fd], rp, PATHLEN - 1); fdpath[fd][PATHLEN-1] = 0;
  }
  return fd;
}
#define GETMODE(last) mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, last); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { GETMODE(flags) return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { GETMODE(flags) return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { GETMODE(flags) return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { GETMODE(flags) return do_open(d, p, flags, m); }

static FILE *do_fopen(const char *p, const char *mode, FILE *(*rf)(const char *, const char *)) {
  int wr = strpbrk(mode, "wa+") != 0;
  if (!on() && !(envjail[0] && wr)) return rf(p, mode);
  char rp[PATH_MAX]; resolve(AT_FDCWD, p, rp);
  if (wr && denied(rp, OP_OPENW)) { errno = EACCES; return 0; }
  if (!on()) return rf(p, mode);
  int cls = classify(rp); struct logent *e = 0;
  if (cls && decide(&e, wr ? OP_OPENW : OP_OPENR, cls, -1, 0, rp, 0)) return 0;
  return rf(p, mode);
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m, REAL(fopen)); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m, REAL(fopen64)); }

/* ---- read / write ---- */
ssize_t read(int fd, void *b, size_t n) {
  int c = fdc(fd);
  if (!c) return REAL(read)(fd, b, n);
  struct logent *e; int64_t lim = (int64_t)n;
  if (decide(&e, OP_READ, c, fd, n, fdpath[fd], &lim)) return -1;
  if (fdeof[fd]) { e->ret = 0; e->fault = F_EOF; return 0; }
  ssize_t r = REAL(read)(fd, b, (size_t)lim);
  e->ret = r; e->err = r < 0 ? errno : 0;
  return r;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  int c = fdc(fd);
  if (!c) return REAL(pread64)(fd, b, n, o);
  struct logent *e; int64_t lim = (int64_t)n;
  if (decide(&e, OP_READ, c, fd, n, fdpath[fd], &lim)) return -1;
  if (fdeof[fd]) { e->ret = 0; return 0; }
  ssize_t r = REAL(pread64)(fd, b, (size_t)lim, o);
  e->ret = r; e->err = r < 0 ? errno : 0;
  return r;
}
ssize_t write(int fd, const void *b, size_t n) {
  int c = fdc(fd);
  if (!c) return REAL(write)(fd, b, n);
  struct logent *e; int64_t lim = (int64_t)n;
  if (decide(&e, OP_WRITE, c, fd, n, fdpath[fd], &lim)) return -1;
  struct fault *f = cur;
  if (lim > (int64_t)n) lim = n;
  ssize_t r = REAL(write)(fd, b, (size_t)lim);
  e->ret = r; e->err = r < 0 ? errno : 0;
  if (f && f->kind == F_CRASH) crash();
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (!fdc(fd)) return REAL(writev)(fd, v, n);
  ssize_t t = 0;
  for (int i = 0; i < n; i++) {
    ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : -1;
    t += r; if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  int c = fdc(fd);
  if (!c) return REAL(pwrite64)(fd, b, n, o);
  struct logent *e; int64_t lim = (int64_t)n;
  if (decide(&e, OP_WRITE, c, fd, n, fdpath[fd], &lim)) return -1;
  ssize_t r = REAL(pwrite64)(fd, b, (size_t)lim, o);
  e->ret = r; e->err = r < 0 ? errno : 0;
  return r;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
  if (!fdc(out) && !fdc(in)) return REAL(sendfile64)(out, in, o, n);
  char buf[8192]; if (n > sizeof buf) n = sizeof buf;
  ssize_t r = o ? pread64(in, buf, n, *o) : read(in, buf, n);
  if (r <= 0) return r;
  ssize_t w = write(out, buf, r);
  if (w > 0 && o) *o += w;
  return w;
}
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl) {
  if (!fdc(out) && !fdc(in)) return REAL(copy_file_range)(in, io, out, oo, n, fl);
  errno = EXDEV; return -1;
}
int close(int fd) {
  int c = fdc(fd);
  if (!c) { if (fd >= 0 && fd < MAXFD) fdcls[fd] = 0; return REAL(close)(fd); }
  struct logent *e;
  if (fd > 2 && c) {
    int d = decide(&e, OP_CLOSE, c, fd, 0, fdpath[fd], 0);
    int er = errno; struct fault *f = cur;
    if (f && f->kind == F_CLOSELOST) {
      struct stat st;
      if (!fstat(fd, &st) && S_ISREG(st.st_mode) && st.st_size > 0) {
        off_t nl = st.st_size > f->arg ? st.st_size - f->arg : 0;
        if (ftruncate(fd, nl)) {}
      }
      d = -1; er = ENOSPC; e->err = er; e->ret = -1;
    }
    fdcls[fd] = 0;
    int r = REAL(close)(fd);
    if (d) { errno = er; return -1; }
    e->ret = r;
    return r;
  }
  fdcls[fd] = 0;
  return REAL(close)(fd);
}
int fsync(int fd) {
  int c = fdc(fd); struct logent *e;
  if (c && decide(&e, OP_FSYNC, c, fd, 0, fdpath[fd], 0)) return -1;
  return REAL(fsync)(fd);
}
int ftruncate64(int fd, off64_t l) {
  int c = fdc(fd); struct logent *e;
  if (c && decide(&e, OP_TRUNC, c, fd, l, fdpath[fd], 0)) return -1;
  return REAL(ftruncate64)(fd, l);
}
static void dupcls(int a, int b) {
  if (a >= 0 && a < MAXFD && b >= 0 && b < MAXFD) { fdcls[b] = fdcls[a]; fdeof[b] = fdeof[a]; memcpy(fdpath[b], fdpath[a], PATHLEN); }
}
int dup(int a) { int b = REAL(dup)(a); if (on() && b >= 0) dupcls(a, b); return b; }
int dup2(int a, int b) { int r = REAL(dup2)(a, b); if (on() && r >= 0) dupcls(a, b); return r; }
int dup3(int a, int b, int f) { int r = REAL(dup3)(a, b, f); if (on() && r >= 0) dupcls(a, b); return r; }

/* ---- namespace ---- */
static int ns(int kind, int dirfd, const char *p) {
  if (!on() && !envjail[0]) return 0;
  char rp[PATH_MAX]; resolve(dirfd, p, rp);
  if (denied(rp, kind)) { errno = EACCES; return -1; }
  if (!on()) return 0;
  int cls = classify(rp); struct logent *e = 0;
  if (cls && decide(&e, kind, cls, -1, 0, rp, 0)) return -1;
  return 0;
}
int unlink(const char *p) { return ns(OP_UNLINK, AT_FDCWD, p) ? -1 : REAL(unlink)(p); }
int remove(const char *p) { return ns(OP_UNLINK, AT_FDCWD, p) ? -1 : REAL(remove)(p); }
int unlinkat(int d, const char *p, int f) {
  return ns(f & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, d, p) ? -1 : REAL(unlinkat)(d, p, f); }
int rmdir(const char *p) { return ns(OP_RMDIR, AT_FDCWD, p) ? -1 : REAL(rmdir)(p); }
int mkdir(const char *p, mode_t m) { return ns(OP_MKDIR, AT_FDCWD, p) ? -1 : REAL(mkdir)(p, m); }
int mkdirat(int d, const char *p, mode_t m) { return ns(OP_MKDIR, d, p) ? -1 : REAL(mkdirat)(d, p, m); }
static int chk(int d, const char *p) {
  if (!on() && !envjail[0]) return 0;
  char rp[PATH_MAX]; resolve(d, p, rp);
  if (denied(rp, OP_RENAME)) { errno = EACCES; return -1; }
  return 0;
}
int rename(const char *a, const char *b) {
  if (chk(AT_FDCWD, a) || ns(OP_RENAME, AT_FDCWD, b)) return -1; return REAL(rename)(a, b); }
int renameat(int d, const char *a, int d2, const char *b) {
  if (chk(d, a) || ns(OP_RENAME, d2, b)) return -1; return REAL(renameat)(d, a, d2, b); }
int link(const char *a, const char *b) {
  if (ns(OP_LINK, AT_FDCWD, b)) return -1; return REAL(link)(a, b); }
int linkat(int d, const char *a, int d2, const char *b, int f) {
  if (ns(OP_LINK, d2, b)) return -1; return REAL(linkat)(d, a, d2, b, f); }
int symlink(const char *a, const char *b) {
  if (ns(OP_LINK, AT_FDCWD, b)) return -1; return REAL(symlink)(a, b); }
int symlinkat(const char *a, int d, const char *b) {
  if (ns(OP_LINK, d, b)) return -1; return REAL(symlinkat)(a, d, b); }
int truncate64(const char *p, off64_t l) {
  if (ns(OP_TRUNC, AT_FDCWD, p)) return -1; return REAL(truncate64)(p, l); }
int chmod(const char *p, mode_t m) { return chk(AT_FDCWD, p) ? -1 : REAL(chmod)(p, m); }

/* ---- directory order ---- */
#define MAXDIRS 16
static struct { DIR *d; struct dirent64 *ents; int n, i; } dirs[MAXDIRS];
static uint64_t xs(uint64_t *s) { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; return *s; }
struct dirent64 *readdir64(DIR *d) {
  if (!on() || !ctl->dirseed) return REAL(readdir64)(d);
  int slot = -1;
  for (int i = 0; i < MAXDIRS; i++) if (dirs[i].d == d) slot = i;
  if (slot < 0) {
    for (int i = 0; i < MAXDIRS; i++) if (!dirs[i].d) { slot = i; break; }
    if (slot < 0) return REAL(readdir64)(d);
    dirs[slot].d = d; dirs[slot].n = dirs[slot].i = 0; dirs[slot].ents = 0;
    struct dirent64 *e; int cap = 0;
    while ((e = REAL(readdir64)(d))) {
      if (dirs[slot].n == cap) { cap = cap ? cap * 2 : 32;
        dirs[slot].ents = realloc(dirs[slot].ents, cap * sizeof(struct dirent64)); }
      memcpy(&dirs[slot].ents[dirs[slot].n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
    }
    /* sort by name, then permute by seed: independent of the host file system */
    int n = dirs[slot].n; struct dirent64 *a = dirs[slot].ents, t;
    for (int i = 1; i < n; i++) for (int j = i; j > 0 && strcmp(a[j-1].d_name, a[j].d_name) > 0; j--) { t = a[j]; a[j] = a[j-1]; a[j-1] = t; }
    uint64_t s = 88172645463325252ULL ^ ((uint64_t)ctl->dirseed << 20);
    for (int i = n - 1; i > 0; i--) { int j = xs(&s) % (i + 1); t = a[i]; a[i] = a[j]; a[j] = t; }
    ctl->ndir++;
  }
  if (dirs[slot].i >= dirs[slot].n) return 0;
  return &dirs[slot].ents[dirs[slot].i++];
}
int closedir(DIR *d) {
  for (int i = 0; i < MAXDIRS; i++) if (dirs[i].d == d) { free(dirs[i].ents); dirs[i].ents = 0; dirs[i].d = 0; }
  return REAL(closedir)(d);
}

/* ---- clock, randomness, terminal ---- */
int clock_gettime(clockid_t c, struct timespec *t) {
  if (on() && ctl->clockon && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
    ctl->nclock++; ctl->clock_ns += ctl->clock_step;
    t->tv_sec = ctl->clock_ns / 1000000000ULL; t->tv_nsec = ctl->clock_ns % 1000000000ULL; return 0;
  }
  return REAL(clock_gettime)(c, t);
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
  struct timespec s; if (on() && ctl->clockon) { clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
  return REAL(gettimeofday)(t, z);
}
time_t time(time_t *t) {
  struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (on() && ctl->randon) {
    ctl->nrand++; unsigned char *p = b;
    for (size_t i = 0; i < n; i++) p[i] = xs(&ctl->rng) >> 24;
    return n;
  }
  return REAL(getrandom)(b, n, f);
}
int isatty(int fd) {
  if (on() && fd >= 0 && fd <= 2) { if (ctl->tty & (1u << fd)) return 1; errno = ENOTTY; return 0; }
  return REAL(isatty)(fd);
}
/* let the simulator write a mark into the log (spawn, phase, ...) as a numbered operation */
int sim_op(int cls, const char *name, int64_t arg) {
  if (!on()) return 0;
  struct logent *e; int64_t lim = 0;
  if (decide(&e, OP_MARK, cls, -1, arg, name, &lim)) return errno ? errno : -1;
  return 0;
}
