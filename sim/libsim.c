/*
 * libsim: the simulated world a real alusus process runs in (LD_PRELOAD).
 *
 * Everything alusus and the code it compiles can observe of the outside goes through the functions
 * interposed here: files (an in-memory file system with open file tables, torn/short/failing
 * operations, links, unlink-while-open), console input, external commands, the network (a stub
 * libcurl), clocks and sleeping, the allocator, and (simthread.c) the scheduling of threads.  What
 * happens is a pure function of the plan, a text file that lists the initial files, every
 * fault, every delivery size, every external result and the operations of the workload.
 */
#define _GNU_SOURCE
#include "sim.h"

/* ------------------------------------------------------------------ small runtime */
static char *arena; static size_t arenaPos, arenaCap;
static volatile int arenaLock;
void *s_alloc(size_t n) {
  n = (n + 31) & ~(size_t)31;
  while (__sync_lock_test_and_set(&arenaLock, 1)) ;
  if (arenaPos + n > arenaCap) {
    size_t c = n > (8u << 20) ? n + 4096 : (8u << 20);
    arena = mmap(0, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) { syscall(SYS_exit_group, 97); }
    arenaPos = 0; arenaCap = c;
  }
  void *p = arena + arenaPos; arenaPos += n;
  __sync_lock_release(&arenaLock);
  return p; /* zeroed: fresh mmap, never reused */
}
char *s_dup(const char *s) { size_t n = strlen(s); char *r = s_alloc(n + 1); memcpy(r, s, n + 1); return r; }
char *s_ndup(const char *s, size_t n) { char *r = s_alloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }

uint64_t s_mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t s_rnd(uint64_t *st) { *st += 0x9e3779b97f4a7c15ull; return s_mix(*st); }

/* ------------------------------------------------------------------ log */
int simActive;              /* a plan is loaded                                        */
static char *logBuf; static size_t logCap = 0; static volatile size_t *logLen;
static void logRaw(const char *s, size_t n) {
  if (!logBuf) return;
  size_t at = *logLen;
  if (at + n + 16 > logCap) return;      /* full: truncated, the driver treats it as an error */
  memcpy(logBuf + at, s, n); *logLen = at + n;
}
void s_log(const char *fmt, ...) {
  if (!logBuf) return;
  char b[1400]; va_list a; va_start(a, fmt);
  int n = vsnprintf(b, sizeof b - 2, fmt, a); va_end(a);
  if (n < 0) return; if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n'; logRaw(b, n);
}
void s_logHex(const char *tag, const void *p, size_t n) {
  static const char hx[] = "0123456789abcdef";
  logRaw(tag, strlen(tag)); logRaw(" ", 1);
  const unsigned char *c = p; char b[512]; size_t k = 0;
  for (size_t i = 0; i < n; ++i) {
    b[k++] = hx[c[i] >> 4]; b[k++] = hx[c[i] & 15];
    if (k >= 510) { logRaw(b, k); k = 0; }
  }
  b[k++] = '\n'; logRaw(b, k);
}

void __attribute__((noreturn)) s_die(int code) { syscall(SYS_exit_group, code); __builtin_unreachable(); }

/* ------------------------------------------------------------------ plan */
struct Fault { const char *cls, *path, *act; long nth, arg; int fired; struct Fault *next; };
struct Cnt { const char *cls; long n; struct Cnt *next; };
struct Exec { long nth, code; char *out; struct Exec *next; char *match; int used; };
static struct Fault *faults; static struct Cnt *cnts; static struct Exec *execs;
static long stepBudget = 400000, steps;
static char *roots[16]; static int nroots;
static char *vcwd = "/sim/w";
static long *ops; static int nops, opAt;
static struct { char *p; size_t n; } *strs; static int nstrs;
static long *stdinChunks; static int nStdinChunks, stdinAt; static char *stdinData; static size_t stdinLen, stdinPos;
static int stdinSim, stdinEofs, stdinErrAt = -1, stdinErrs;
static long *rdChunks; static int nRdChunks, rdAt;
static uint64_t dirSeed; static long clkNs = 1700000000L * 1000000000L, clkTick = 1000, cpuClk;
static int forbidReal, dirEnd; static long eofMax = 2000;
uint64_t heapSeed; int heapMode; int heapPad;
uint64_t schedSeed; int schedMode, schedRate, schedAlloc; int schedOn; long *schedList; int nSched;
static int quiet;

static long cntNext(const char *cls) {
  for (struct Cnt *c = cnts; c; c = c->next) if (!strcmp(c->cls, cls)) return ++c->n;
  struct Cnt *c = s_alloc(sizeof *c); c->cls = cls; c->n = 1; c->next = cnts; cnts = c; return 1;
}
void s_step(void) {
  if (!simActive) return;
  if (++steps > stepBudget) { s_log("BUDGET %ld", steps); s_die(99); }
}
/* Decide whether operation `cls` on `path` is faulted.  nth is counted per class, over everything,
   and per "class@path" when a fault names a path. */
static struct Fault *fault(const char *cls, const char *path) {
  if (!simActive) return 0;
  s_step();
  long n = cntNext(cls);
  struct Fault *hit = 0;
  for (struct Fault *f = faults; f; f = f->next) {
    if (strcmp(f->cls, cls)) continue;
    if (f->path) {
      if (!path || strcmp(f->path, path)) continue;
      ++f->fired; /* counts occurrences on that path */
      if ((!f->nth || f->fired == f->nth) && !hit) hit = f;
    } else if (f->nth == n && !hit) hit = f;
  }
  if (hit) s_log("F %s %ld %s %ld %s", cls, n, hit->act, hit->arg, path ? path : "-");
  return hit;
}
static int errOf(const char *a) {
  if (!strcmp(a, "EIO")) return EIO; if (!strcmp(a, "ENOSPC")) return ENOSPC;
  if (!strcmp(a, "EACCES")) return EACCES; if (!strcmp(a, "ENOENT")) return ENOENT;
  if (!strcmp(a, "EMFILE")) return EMFILE; if (!strcmp(a, "EINTR")) return EINTR;
  if (!strcmp(a, "EROFS")) return EROFS; if (!strcmp(a, "EDQUOT")) return EDQUOT;
  if (!strcmp(a, "ESTALE")) return ESTALE; if (!strcmp(a, "EPERM")) return EPERM;
  if (!strcmp(a, "EAGAIN")) return EAGAIN; if (!strcmp(a, "ENOMEM")) return ENOMEM;
  if (!strcmp(a, "EBADF")) return EBADF; if (!strcmp(a, "ENFILE")) return ENFILE; if (!strcmp(a, "ELOOP")) return ELOOP;
  if (!strcmp(a, "ENXIO")) return ENXIO; if (!strcmp(a, "ENOTDIR")) return ENOTDIR; if (!strcmp(a, "ENAMETOOLONG")) return ENAMETOOLONG;
  if (!strcmp(a, "EFBIG")) return EFBIG; if (!strcmp(a, "EINVAL")) return EINVAL;
  if (!strcmp(a, "EISDIR")) return EISDIR; if (!strcmp(a, "EEXIST")) return EEXIST;
  return 0;
}

/* ------------------------------------------------------------------ simulated file system */
enum { T_FILE = 1, T_DIR = 2, T_LINK = 3 };
struct Ino { int type, mode, id, nlink, opens, fifo; char *data; size_t len, cap; };
struct Ent { char *path; struct Ino *ino; struct Ent *next; };
static struct Ent *ents; static int inoNext = 1000;
static int openHandles;
static struct Ent *fsGet(const char *p) { for (struct Ent *e = ents; e; e = e->next) if (!strcmp(e->path, p)) return e; return 0; }
static struct Ent *fsAdd(const char *p, int type, int mode) {
  struct Ent *e = s_alloc(sizeof *e); e->path = s_dup(p); e->ino = s_alloc(sizeof(struct Ino));
  e->ino->type = type; e->ino->mode = mode; e->ino->id = inoNext++; e->ino->nlink = 1;
  struct Ent **t = &ents; while (*t) t = &(*t)->next; *t = e; return e;
}
static void fsDel(struct Ent *e) { for (struct Ent **t = &ents; *t; t = &(*t)->next) if (*t == e) { *t = e->next; return; } }
static void inoSet(struct Ino *i, size_t at, const void *d, size_t n) {
  if (at + n > i->cap) {
    size_t c = (at + n) * 2 + 256; char *nd = s_alloc(c); memcpy(nd, i->data, i->len); i->data = nd; i->cap = c;
  }
  if (at > i->len) memset(i->data + i->len, 0, at - i->len);
  memcpy(i->data + at, d, n); if (at + n > i->len) i->len = at + n;
}
static int inSim(const char *abs) {
  for (int i = 0; i < nroots; ++i) { size_t n = strlen(roots[i]); if (!strncmp(abs, roots[i], n) && (abs[n] == 0 || abs[n] == '/')) return 1; }
  return 0;
}
/* Lexically absolute, then symbolic links inside the simulated tree are followed.
   Returns 1 when the result is simulated. err receives ENOENT/ENOTDIR/ELOOP/ENAMETOOLONG. */
static int resolve(const char *p, char *out, int followLast, int *err) {
  char cur[PATH_MAX * 2]; *err = 0; int depth = 0;
  if (strlen(p) >= PATH_MAX) { *err = ENAMETOOLONG; }
  if (p[0] == '/') { if (strlen(p) >= sizeof cur) { strcpy(out, "/"); return 0; } strcpy(cur, p); }
  else { if (strlen(p) + strlen(vcwd) + 2 >= sizeof cur) { strcpy(out, vcwd); return inSim(vcwd); } sprintf(cur, "%s/%s", vcwd, p); }
again:
  { char res[PATH_MAX * 2]; size_t n = 0; res[0] = 0; const char *c = cur; int notdir = 0;
    while (*c) {
      while (*c == '/') ++c;
      const char *e = c; while (*e && *e != '/') ++e;
      size_t l = e - c; if (!l) break;
      if (l > 255) *err = ENAMETOOLONG;
      if (l == 1 && c[0] == '.') { c = e; continue; }
      if (l == 2 && c[0] == '.' && c[1] == '.') { while (n && res[n - 1] != '/') --n; if (n) --n; res[n] = 0; c = e; continue; }
      res[n++] = '/'; memcpy(res + n, c, l); n += l; res[n] = 0;
      int last = 1; { const char *q = e; while (*q == '/') ++q; if (*q) last = 0; if (*e == '/') last = last ? 2 : 0; }
      if (inSim(res)) {
        struct Ent *en = fsGet(res);
        if (en && en->ino->type == T_LINK && (last != 1 || followLast)) {
          if (++depth > 20) { *err = ELOOP; strcpy(out, res); return 1; }
          char nxt[PATH_MAX * 2]; const char *tgt = en->ino->data;
          if (tgt[0] == '/') snprintf(nxt, sizeof nxt, "%s%s", tgt, e);
          else { size_t k = n; while (k && res[k - 1] != '/') --k; snprintf(nxt, sizeof nxt, "%.*s%s%s", (int)k, res, tgt, e); }
          strcpy(cur, nxt); goto again;
        }
        int isRoot = 0; for (int i = 0; i < nroots; ++i) if (!strcmp(res, roots[i])) isRoot = 1;
        if (isRoot) ;
        else if (!last) { if (!en) { if (!*err) *err = ENOENT; } else if (en->ino->type == T_FILE) notdir = 1; }
        else if (last == 2 && en && en->ino->type == T_FILE) notdir = 1;
      }
      c = e;
    }
    if (!res[0]) strcpy(res, "/");
    if (strlen(res) >= PATH_MAX) { *err = ENAMETOOLONG; res[PATH_MAX - 1] = 0; }
    strcpy(out, res);
    if (notdir && (!*err || *err == ENOENT)) *err = ENOTDIR;
    return inSim(res);
  }
}
static int parentOk(const char *abs) {
  char b[PATH_MAX]; strcpy(b, abs); char *s = strrchr(b, '/'); if (!s || s == b) return 0; *s = 0;
  for (int i = 0; i < nroots; ++i) if (!strcmp(b, roots[i])) return 0;
  struct Ent *e = fsGet(b);
  if (!e) return ENOENT; if (e->ino->type != T_DIR) return ENOTDIR; return 0;
}

/* Concurrent changes made by "other processes": event ops attached to a fault action. */
static void worldChange(const char *act, const char *path) {
  if (!path) return;
  if (!strcmp(act, "vanish")) { struct Ent *e = fsGet(path); if (e) fsDel(e); }
  else if (!strcmp(act, "appear")) { if (!fsGet(path)) fsAdd(path, T_FILE, 0644); }
}

/* ------------------------------------------------------------------ descriptors */
#define FDBASE 20000
#define NFD 512
struct Fd { int used, flags, tracked; struct Ino *ino; size_t pos, arrived; char path[PATH_MAX]; FILE *fp; int failed; int real; };
static struct Fd fds[NFD];
static struct Fd *fdOf(int fd) { if (fd < FDBASE || fd >= FDBASE + NFD || !fds[fd - FDBASE].used) return 0; return &fds[fd - FDBASE]; }
static int allowedReal(const char *abs) { return !strncmp(abs, "/dev/", 5) || !strncmp(abs, "/proc/", 6); }

static int snapshotReal(const char *abs, struct Ino **out) {
  int fd = syscall(SYS_openat, AT_FDCWD, abs, O_RDONLY | O_CLOEXEC, 0); if (fd < 0) return errno;
  struct stat st; syscall(SYS_fstat, fd, &st);
  if (!S_ISREG(st.st_mode)) { syscall(SYS_close, fd); return -1; }
  struct Ino *i = s_alloc(sizeof *i); i->type = T_FILE; i->mode = st.st_mode & 0777; i->id = 1; i->nlink = 1;
  i->cap = i->len = st.st_size; i->data = s_alloc(st.st_size + 1); size_t at = 0; ssize_t r;
  while (at < i->len && (r = syscall(SYS_read, fd, i->data + at, i->len - at)) > 0) at += r;
  i->len = at; syscall(SYS_close, fd); *out = i; return 0;
}
/* Returns a simulated descriptor, or -1 with errno, or -2 for "let the real call do it". */
static int simOpen(const char *path, int flags, int mode) {
  char abs[PATH_MAX * 2]; int err, sim = resolve(path, abs, !(flags & O_NOFOLLOW), &err);
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!sim) {
    if (allowedReal(abs)) return -2;
    if (wr) { s_log("ESCAPE open %s", abs); errno = EROFS; return -1; }
  }
  struct Fault *f = fault("open", abs);
  if (f) {
    if (!strcmp(f->act, "vanish")) { worldChange("vanish", abs); }
    else { errno = errOf(f->act); s_log("O %s %c -1 %s", abs, wr ? 'w' : 'r', f->act); return -1; }
  }
  struct Ino *ino = 0;
  if (err && err != ENOENT) { errno = err; s_log("O %s %c -1 e%d", abs, wr ? 'w' : 'r', err); return -1; }
  if (!sim) {
    if (flags & O_DIRECTORY) return -2;
    int e = snapshotReal(abs, &ino);
    if (e == -1) return -2;
    if (e) { errno = e; s_log("O %s r -1 e%d", abs, e); return -1; }
  } else {
    struct Ent *en = err ? 0 : fsGet(abs);
    if (!en) {
      if (!(flags & O_CREAT) || err) { errno = ENOENT; s_log("O %s %c -1 ENOENT", abs, wr ? 'w' : 'r'); return -1; }
      int e = parentOk(abs); if (e) { errno = e; s_log("O %s w -1 e%d", abs, e); return -1; }
      en = fsAdd(abs, T_FILE, mode & 0777 & ~022);
    } else {
      if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
      if (en->ino->type == T_DIR && wr) { errno = EISDIR; s_log("O %s w -1 EISDIR", abs); return -1; }
      if (wr && !(en->ino->mode & 0200)) { errno = EACCES; s_log("O %s w -1 EACCES", abs); return -1; }
      if (!wr && !(en->ino->mode & 0400)) { errno = EACCES; s_log("O %s r -1 EACCES", abs); return -1; }
      if (flags & O_TRUNC) en->ino->len = 0;
    }
    ino = en->ino;
  }
  int i; for (i = 0; i < NFD; ++i) if (!fds[i].used) break;
  if (i == NFD) { errno = EMFILE; return -1; }
  struct Fd *d = &fds[i]; memset(d, 0, offsetof(struct Fd, path)); d->used = 1; d->flags = flags; d->ino = ino; d->pos = 0; d->fp = 0; d->failed = 0;
  d->real = !sim;
  strncpy(d->path, abs, PATH_MAX - 1); ++ino->opens; ++openHandles;
  s_log("O %s %c %d", abs, wr ? 'w' : 'r', i);
  return FDBASE + i;
}
static ssize_t simRead(struct Fd *d, void *buf, size_t n) {
  if (d->ino->type == T_DIR) { s_step(); s_log("R %s -1 EISDIR", d->path); errno = EISDIR; return -1; }
  struct Fault *f = fault("read", d->path);
  size_t avail = d->pos < d->ino->len ? d->ino->len - d->pos : 0, take = n < avail ? n : avail;
  if (d->failed) { errno = d->failed; s_log("R %s %zu -1", d->path, n); return -1; }
  if (f) {
    int e = errOf(f->act);
    if (e) { if (f->arg) d->failed = e; errno = e; s_log("R %s %zu -1", d->path, n); return -1; }
    if (!strcmp(f->act, "short") && take > (size_t)f->arg && f->arg > 0) take = f->arg;
    else if (!strcmp(f->act, "trunc")) { if (d->ino->len > d->pos + f->arg) d->ino->len = d->pos + f->arg; avail = d->pos < d->ino->len ? d->ino->len - d->pos : 0; if (take > avail) take = avail; }
    else if (!strcmp(f->act, "grow")) { inoSet(d->ino, d->ino->len, "GROWNGROWNGROWN!", f->arg > 16 ? 16 : f->arg); }
  }
  if (d->ino->fifo) { /* bytes arrive in pieces; reading waits for the next piece when there is none */
    if (d->pos >= d->arrived) { d->arrived = d->pos + (nRdChunks && rdChunks[rdAt % nRdChunks] ? (size_t)rdChunks[rdAt % nRdChunks] : 4096); ++rdAt; if (d->arrived > d->ino->len) d->arrived = d->ino->len; }
    if (take > d->arrived - d->pos) take = d->arrived - d->pos;
  } else if (nRdChunks && take) { size_t c = rdChunks[rdAt++ % nRdChunks]; if (c && take > c) take = c; }
  memcpy(buf, d->ino->data + d->pos, take); d->pos += take;
  s_log("R %s %zu %zu", d->path, n, take);
  return take;
}
static ssize_t simWrite(struct Fd *d, const void *buf, size_t n) {
  if ((d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  struct Fault *f = fault("write", d->path);
  if (d->failed) { errno = d->failed; s_log("W %s %zu -1", d->path, n); return -1; }
  size_t take = n;
  if (d->flags & O_APPEND) d->pos = d->ino->len;
  if (f) {
    int e = errOf(f->act);
    if (e) { /* arg>0: the fault is sticky (disk stays full) */ if (f->arg) d->failed = e; errno = e; s_log("W %s %zu -1", d->path, n); return -1; }
    if (!strcmp(f->act, "short") && n > (size_t)f->arg && f->arg > 0) take = f->arg;
    else if (!strcmp(f->act, "torn")) { size_t k = n > (size_t)f->arg ? (size_t)f->arg : n; inoSet(d->ino, d->pos, buf, k); d->pos += k; d->failed = ENOSPC;
      errno = ENOSPC; s_log("W %s %zu torn %zu", d->path, n, k); if (k) { return k; } return -1; }
  }
  inoSet(d->ino, d->pos, buf, take); d->pos += take;
  s_log("W %s %zu %zu", d->path, n, take);
  return take;
}
static char *dumpPfx; /* contents of files written below this path go to the log when they are closed */
static int simClose(struct Fd *d) {
  struct Fault *f = fault("close", d->path);
  if (dumpPfx && (d->flags & O_ACCMODE) != O_RDONLY && !strncmp(d->path, dumpPfx, strlen(dumpPfx))) { char t[600]; snprintf(t, sizeof t, "D %s", d->path); s_logHex(t, d->ino->data, d->ino->len); }
  --d->ino->opens; --openHandles; d->used = 0;
  s_log("C %s%s", d->path, f ? " -1" : "");
  if (f) { errno = errOf(f->act) ? errOf(f->act) : EIO; return -1; }
  return 0;
}
static off_t simSeek(struct Fd *d, off_t o, int w) {
  struct Fault *f = fault("seek", d->path);
  if (f) { errno = errOf(f->act) ? errOf(f->act) : EIO; return -1; }
  if (d->ino->fifo) { errno = ESPIPE; return -1; }
  if (d->ino->type == T_DIR && w == SEEK_END) { /* differs between file systems */
    if (dirEnd == 0) { errno = EINVAL; return -1; } off_t v = dirEnd == 1 ? LLONG_MAX : 4096; d->pos = v; return v; }
  off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)d->pos : (off_t)d->ino->len;
  if (b + o < 0) { errno = EINVAL; return -1; }
  d->pos = b + o; return d->pos;
}
static int simStatEnt(const struct Ino *i, struct stat *st) {
  memset(st, 0, sizeof *st); st->st_ino = i->id; st->st_dev = 77; st->st_nlink = i->nlink; st->st_uid = st->st_gid = 0;
  st->st_mode = i->mode | (i->type == T_DIR ? S_IFDIR : i->type == T_LINK ? S_IFLNK : i->fifo ? S_IFIFO : S_IFREG);
  st->st_size = i->fifo ? 0 : i->len; st->st_blksize = 4096; st->st_blocks = (i->len + 511) / 512;
  st->st_mtim.tv_sec = st->st_atim.tv_sec = st->st_ctim.tv_sec = 1600000000; return 0;
}
static struct Ino rootDir = { .type = T_DIR, .mode = 0755, .id = 2, .nlink = 1 };
/* 0 ok, -1 errno set, -2 real */
static int simStat(const char *path, struct stat *st, int follow) {
  char abs[PATH_MAX * 2]; int err, sim = resolve(path, abs, follow, &err);
  struct Fault *f = fault("stat", abs);
  if (f) {
    if (!strcmp(f->act, "vanishafter")) { struct Ent *en = fsGet(abs); int r = -1; if (en && !err) r = simStatEnt(en->ino, st); else errno = ENOENT; worldChange("vanish", abs); return r; }
    errno = errOf(f->act) ? errOf(f->act) : EIO; return -1; }
  if (!sim) return -2;
  if (err) { errno = err; return -1; }
  for (int i = 0; i < nroots; ++i) if (!strcmp(abs, roots[i])) return simStatEnt(&rootDir, st);
  struct Ent *en = fsGet(abs); if (!en) { errno = ENOENT; return -1; }
  return simStatEnt(en->ino, st);
}

/* real functions */
#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__)
REAL(FILE *, fopen, const char *, const char *); REAL(int, fclose, FILE *); REAL(int, fileno, FILE *);
REAL(DIR *, opendir, const char *); REAL(int, closedir, DIR *); REAL(struct dirent *, readdir, DIR *); REAL(void, rewinddir, DIR *);
REAL(char *, realpath, const char *, char *); REAL(int, setenv, const char *, const char *, int);
REAL(FILE *, fdopen, int, const char *);
static int resolved;
#define GET(name) r_##name = dlsym(RTLD_NEXT, #name)
static void getReal(void) {
  if (resolved) return; resolved = 1;
  GET(fopen); GET(fclose); GET(fileno); GET(opendir); GET(closedir); GET(readdir); GET(rewinddir); GET(realpath); GET(setenv); GET(fdopen);
}

/* ------------------------------------------------------------------ fd calls */
int open(const char *p, int flags, ...) {
  int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
  if (simActive) { int r = simOpen(p, flags, mode); if (r != -2) return r; }
  return syscall(SYS_openat, AT_FDCWD, p, flags, mode);
}
int open64(const char *p, int flags, ...) {
  int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
  return open(p, flags, mode);
}
int openat(int dfd, const char *p, int flags, ...) {
  int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
  if (simActive && (dfd == AT_FDCWD || p[0] == '/')) { int r = simOpen(p, flags, mode); if (r != -2) return r; }
  return syscall(SYS_openat, dfd, p, flags, mode);
}
int openat64(int dfd, const char *p, int flags, ...) {
  int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
  return openat(dfd, p, flags, mode);
}
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __open_2(const char *p, int f) { return open(p, f); }
int __open64_2(const char *p, int f) { return open(p, f); }
ssize_t read(int fd, void *b, size_t n) {
  struct Fd *d = fdOf(fd); if (d) return simRead(d, b, n);
  return syscall(SYS_read, fd, b, n);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t m) { return read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  struct Fd *d = fdOf(fd); if (d) { size_t s = d->pos; d->pos = o; ssize_t r = simRead(d, b, n); d->pos = s; return r; }
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) {
  struct Fd *d = fdOf(fd); if (d) return simWrite(d, b, n);
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  struct Fd *d = fdOf(fd);
  if (d) { ssize_t t = 0; for (int i = 0; i < c; ++i) { if (!v[i].iov_len) continue; ssize_t r = simWrite(d, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
  return syscall(SYS_writev, fd, v, c);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  struct Fd *d = fdOf(fd);
  if (d) { ssize_t t = 0; for (int i = 0; i < c; ++i) { ssize_t r = simRead(d, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
  return syscall(SYS_readv, fd, v, c);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  struct Fd *d = fdOf(fd); if (d) { size_t s = d->pos; d->pos = o; ssize_t r = simWrite(d, b, n); d->pos = s; return r; }
  return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
off_t lseek(int fd, off_t o, int w) { struct Fd *d = fdOf(fd); if (d) return simSeek(d, o, w); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int close(int fd) { struct Fd *d = fdOf(fd); if (d) return simClose(d); return syscall(SYS_close, fd); }
int fsync(int fd) { struct Fd *d = fdOf(fd); if (d) { struct Fault *f = fault("fsync", d->path); if (f) { errno = EIO; return -1; } return 0; } return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n) {
  struct Fd *d = fdOf(fd);
  if (d) { if ((size_t)n < d->ino->len) d->ino->len = n; else if ((size_t)n > d->ino->len) inoSet(d->ino, n - 1, "", 1); return 0; }
  return syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int isatty(int fd) { if (fdOf(fd)) { errno = ENOTTY; return 0; } if (simActive) { errno = ENOTTY; return 0; } struct termios t; return syscall(SYS_ioctl, fd, TCGETS, &t) == 0; }

/* ------------------------------------------------------------------ stat family */
int stat(const char *p, struct stat *st) {
  if (simActive) { int r = simStat(p, st, 1); if (r != -2) return r; }
  return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int lstat(const char *p, struct stat *st) {
  if (simActive) { int r = simStat(p, st, 0); if (r != -2) return r; }
  return syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
}
int fstat(int fd, struct stat *st) { struct Fd *d = fdOf(fd); if (d) return simStatEnt(d->ino, st); return syscall(SYS_fstat, fd, st); }
int fstatat(int dfd, const char *p, struct stat *st, int fl) {
  if (simActive && (dfd == AT_FDCWD || p[0] == '/') && p[0]) { int r = simStat(p, st, !(fl & AT_SYMLINK_NOFOLLOW)); if (r != -2) return r; }
  return syscall(SYS_newfstatat, dfd, p, st, fl);
}
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int fstatat64(int d, const char *p, struct stat64 *st, int f) { return fstatat(d, p, (struct stat *)st, f); }
int access(const char *p, int m) {
  if (simActive) {
    struct stat st; int r = simStat(p, &st, 1);
    if (r != -2) { if (r) return r; if ((m & W_OK && !(st.st_mode & 0200)) || (m & X_OK && !(st.st_mode & 0111))) { errno = EACCES; return -1; } return 0; }
  }
  return syscall(SYS_faccessat, AT_FDCWD, p, m);
}
int faccessat(int d, const char *p, int m, int f) { if (d == AT_FDCWD || p[0] == '/') return access(p, m); return syscall(SYS_faccessat, d, p, m); }
static int mutPath(const char *p, char *abs, int follow, const char *cls) {
  int err, sim = resolve(p, abs, follow, &err);
  if (!sim) { s_log("ESCAPE %s %s", cls, abs); errno = EROFS; return -1; }
  struct Fault *f = fault(cls, abs); if (f) { errno = errOf(f->act) ? errOf(f->act) : EIO; return -1; }
  if (err) { errno = err; return -1; }
  return 0;
}
int chmod(const char *p, mode_t m) {
  if (!simActive) return syscall(SYS_chmod, p, m);
  char abs[PATH_MAX * 2]; if (mutPath(p, abs, 1, "chmod")) return -1;
  struct Ent *e = fsGet(abs); if (!e) { errno = ENOENT; return -1; } e->ino->mode = m & 0777; return 0;
}
int fchmod(int fd, mode_t m) { struct Fd *d = fdOf(fd); if (d) { d->ino->mode = m & 0777; return 0; } return syscall(SYS_fchmod, fd, m); }
int mkdir(const char *p, mode_t m) {
  if (!simActive) return syscall(SYS_mkdir, p, m);
  char abs[PATH_MAX * 2]; if (mutPath(p, abs, 0, "mkdir")) { s_log("MKDIR %s -1", p); return -1; }
  if (fsGet(abs)) { errno = EEXIST; s_log("MKDIR %s -1", abs); return -1; }
  for (int i = 0; i < nroots; ++i) if (!strcmp(abs, roots[i])) { errno = EEXIST; return -1; }
  int e = parentOk(abs); if (e) { errno = e; s_log("MKDIR %s -1", abs); return -1; }
  fsAdd(abs, T_DIR, m & 0777); s_log("MKDIR %s %o", abs, m); return 0;
}
static int hasKids(const char *abs) { size_t n = strlen(abs); for (struct Ent *e = ents; e; e = e->next) if (!strncmp(e->path, abs, n) && e->path[n] == '/') return 1; return 0; }
int rmdir(const char *p) {
  if (!simActive) return syscall(SYS_rmdir, p);
  char abs[PATH_MAX * 2]; if (mutPath(p, abs, 0, "rmdir")) return -1;
  struct Ent *e = fsGet(abs); if (!e) { errno = ENOENT; return -1; }
  if (e->ino->type != T_DIR) { errno = ENOTDIR; return -1; } if (hasKids(abs)) { errno = ENOTEMPTY; return -1; }
  fsDel(e); s_log("RMDIR %s", abs); return 0;
}
int unlink(const char *p) {
  if (!simActive) return syscall(SYS_unlink, p);
  char abs[PATH_MAX * 2]; if (mutPath(p, abs, 0, "unlink")) return -1;
  struct Ent *e = fsGet(abs); if (!e) { errno = ENOENT; return -1; } if (e->ino->type == T_DIR) { errno = EISDIR; return -1; }
  fsDel(e); s_log("UNLINK %s", abs); return 0;
}
int unlinkat(int dfd, const char *p, int fl) { if (simActive && (dfd == AT_FDCWD || p[0] == '/')) return fl & AT_REMOVEDIR ? rmdir(p) : unlink(p); return syscall(SYS_unlinkat, dfd, p, fl); }
int remove(const char *p) {
  struct stat st; if (lstat(p, &st) == 0 && S_ISDIR(st.st_mode)) return rmdir(p); return unlink(p);
}
int rename(const char *a, const char *b) {
  if (!simActive) return syscall(SYS_rename, a, b);
  char x[PATH_MAX * 2], y[PATH_MAX * 2]; if (mutPath(a, x, 0, "rename")) return -1;
  int err; if (!resolve(b, y, 0, &err)) { s_log("ESCAPE rename %s", y); errno = EROFS; return -1; } if (err) { errno = err; return -1; }
  struct Ent *e = fsGet(x); if (!e) { errno = ENOENT; return -1; }
  int pe = parentOk(y); if (pe) { errno = pe; return -1; }
  if (!strcmp(x, y)) return 0;
  size_t n = strlen(x);
  if (!strncmp(y, x, n) && y[n] == '/') { errno = EINVAL; return -1; }
  struct Ent *o = fsGet(y);
  if (o) {
    if (o->ino->type == T_DIR && e->ino->type != T_DIR) { errno = EISDIR; return -1; }
    if (o->ino->type != T_DIR && e->ino->type == T_DIR) { errno = ENOTDIR; return -1; }
    if (o->ino->type == T_DIR && hasKids(y)) { errno = ENOTEMPTY; return -1; }
    fsDel(o);
  }
  for (struct Ent *k = ents; k; k = k->next) if (!strncmp(k->path, x, n) && k->path[n] == '/') {
    char t[PATH_MAX * 2]; snprintf(t, sizeof t, "%s%s", y, k->path + n); k->path = s_dup(t); }
  e->path = s_dup(y); s_log("RENAME %s %s", x, y); return 0;
}
int symlink(const char *t, const char *p) {
  if (!simActive) return syscall(SYS_symlink, t, p);
  char abs[PATH_MAX * 2]; if (mutPath(p, abs, 0, "symlink")) return -1;
  if (fsGet(abs)) { errno = EEXIST; return -1; } int e = parentOk(abs); if (e) { errno = e; return -1; }
  struct Ent *n = fsAdd(abs, T_LINK, 0777); inoSet(n->ino, 0, t, strlen(t) + 1); n->ino->len--; return 0;
}
ssize_t readlink(const char *p, char *b, size_t n) {
  char abs[PATH_MAX * 2]; int err;
  if (simActive && resolve(p, abs, 0, &err)) {
    struct Ent *e = fsGet(abs); if (!e || err) { errno = err ? err : ENOENT; return -1; } if (e->ino->type != T_LINK) { errno = EINVAL; return -1; }
    size_t l = e->ino->len < n ? e->ino->len : n; memcpy(b, e->ino->data, l); return l;
  }
  return syscall(SYS_readlink, p, b, n);
}
char *getcwd(char *b, size_t n) {
  if (simActive) { size_t l = strlen(vcwd) + 1; if (!b) { if (!n) n = l; b = malloc(n); } if (n < l) { errno = ERANGE; return 0; } strcpy(b, vcwd); return b; }
  if (!b) { if (!n) n = PATH_MAX; b = malloc(n); }
  long r = syscall(SYS_getcwd, b, n); return r < 0 ? 0 : b;
}
int chdir(const char *p) {
  if (!simActive) return syscall(SYS_chdir, p);
  char abs[PATH_MAX * 2]; int err; struct stat st; if (stat(p, &st)) return -1; if (!S_ISDIR(st.st_mode)) { errno = ENOTDIR; return -1; }
  resolve(p, abs, 1, &err); vcwd = s_dup(abs); return 0;
}
char *realpath(const char *p, char *out) {
  getReal();
  if (simActive && p && *p) {
    char abs[PATH_MAX * 2]; int err, sim = resolve(p, abs, 1, &err);
    struct Fault *f = fault("realpath", abs);
    if (f) { errno = errOf(f->act) ? errOf(f->act) : EIO; return 0; }
    if (sim) {
      struct stat st; if (err) { errno = err; return 0; }
      int ok = 0; for (int i = 0; i < nroots; ++i) if (!strcmp(abs, roots[i])) ok = 1;
      struct Ent *e = fsGet(abs); if (!e && !ok) { errno = ENOENT; return 0; } (void)st;
      if (!out) out = malloc(PATH_MAX); strcpy(out, abs); return out;
    }
    return r_realpath(abs, out);
  }
  return r_realpath(p, out);
}
char *__realpath_chk(const char *p, char *o, size_t n) { return realpath(p, o); }

/* ------------------------------------------------------------------ stdio on simulated files */
static ssize_t ckRead(void *c, char *b, size_t n) { struct Fd *d = c; ssize_t r; do r = simRead(d, b, n); while (r < 0 && errno == EINTR && 0); return r; }
static ssize_t ckWrite(void *c, const char *b, size_t n) { struct Fd *d = c; ssize_t r = simWrite(d, b, n); return r < 0 ? 0 : r; }
static int ckSeek(void *c, off64_t *o, int w) { off_t r = simSeek(c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void *c) { return simClose(c); }
static int modeFlags(const char *m) {
  int f = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : m[0] == 'a' ? O_WRONLY | O_CREAT | O_APPEND : -1;
  if (f < 0) return f;
  for (const char *c = m + 1; *c && *c != ','; ++c) { if (*c == '+') f = (f & ~O_ACCMODE) | O_RDWR; if (*c == 'x') f |= O_EXCL; }
  return f;
}
static FILE *wrapFd(int fd, const char *m) {
  struct Fd *d = fdOf(fd);
  cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose };
  FILE *fp = fopencookie(d, m, io); d->fp = fp; return fp;
}
FILE *fopen(const char *p, const char *m) {
  getReal();
  if (simActive) {
    int fl = modeFlags(m); if (fl < 0) { errno = EINVAL; return 0; }
    int fd = simOpen(p, fl, 0666); if (fd >= 0) return wrapFd(fd, m); if (fd == -1) return 0;
  }
  return r_fopen(p, m);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
FILE *fdopen(int fd, const char *m) { getReal(); if (fdOf(fd)) return wrapFd(fd, m); return r_fdopen(fd, m); }
static FILE *procFps[64]; static int nProcFps;
int fclose(FILE *fp) {
  getReal();
  if (simActive && fp && fp == stdin) return 0;
  return r_fclose(fp);
}
int fileno(FILE *fp) {
  getReal();
  for (int i = 0; i < NFD; ++i) if (fds[i].used && fds[i].fp == fp) return FDBASE + i;
  return r_fileno(fp);
}
int fileno_unlocked(FILE *fp) { return fileno(fp); }
int ioctl(int fd, unsigned long rq, ...) {
  va_list a; va_start(a, rq); void *x = va_arg(a, void *); va_end(a);
  struct Fd *d = fdOf(fd);
  if (d) { if (rq == FIONREAD) { *(int *)x = (int)(d->ino->fifo ? (d->arrived > d->pos ? d->arrived - d->pos : 0) : d->ino->len - d->pos); return 0; } errno = ENOTTY; return -1; }
  return syscall(SYS_ioctl, fd, rq, x);
}
int poll(struct pollfd *p, nfds_t n, int t) {
  for (nfds_t i = 0; i < n; ++i) if (fdOf(p[i].fd)) { struct Fd *d = fdOf(p[i].fd); int none = d->ino->fifo && d->arrived <= d->pos && t == 0; p[i].revents = none ? 0 : p[i].events; return !none; }
  struct timespec ts = { t / 1000, (t % 1000) * 1000000L }; return syscall(SYS_ppoll, p, n, t < 0 ? 0 : &ts, 0, 0);
}

/* ------------------------------------------------------------------ directories */
struct SDir { int magic; char path[PATH_MAX]; char **names; int *types; int n, at; struct dirent de; int open; };
static int openDirs;
static struct SDir *sdirs[64];
static struct SDir *sdirOf(DIR *d) { for (int i = 0; i < 64; ++i) if (sdirs[i] && (void *)sdirs[i] == (void *)d) return sdirs[i]; return 0; }
static void sdirFill(struct SDir *d) {
  size_t n = strlen(d->path); int c = 0; for (struct Ent *e = ents; e; e = e->next) ++c;
  d->names = s_alloc(sizeof(char *) * (c + 3)); d->types = s_alloc(sizeof(int) * (c + 3)); d->n = 0;
  d->types[d->n] = DT_DIR; d->names[d->n++] = "."; d->types[d->n] = DT_DIR; d->names[d->n++] = "..";
  for (struct Ent *e = ents; e; e = e->next) if (!strncmp(e->path, d->path, n) && e->path[n] == '/' && !strchr(e->path + n + 1, '/')) {
    d->types[d->n] = e->ino->type == T_DIR ? DT_DIR : e->ino->type == T_LINK ? DT_LNK : DT_REG; d->names[d->n++] = s_dup(e->path + n + 1);
  }
  if (dirSeed) { uint64_t st = dirSeed; for (int i = d->n - 1; i > 0; --i) { int j = s_rnd(&st) % (i + 1); char *t = d->names[i]; d->names[i] = d->names[j]; d->names[j] = t; int u = d->types[i]; d->types[i] = d->types[j]; d->types[j] = u; } }
  d->at = 0;
}
DIR *opendir(const char *p) {
  getReal();
  if (!simActive) return r_opendir(p);
  char abs[PATH_MAX * 2]; int err, sim = resolve(p, abs, 1, &err);
  struct Fault *f = fault("opendir", abs); if (f) { errno = errOf(f->act) ? errOf(f->act) : EIO; s_log("OD %s -1", abs); return 0; }
  if (!sim) return r_opendir(abs);
  if (err) { errno = err; s_log("OD %s -1", abs); return 0; }
  int isroot = 0; for (int i = 0; i < nroots; ++i) if (!strcmp(abs, roots[i])) isroot = 1;
  struct Ent *e = fsGet(abs);
  if (!isroot) { if (!e) { errno = ENOENT; s_log("OD %s -1", abs); return 0; } if (e->ino->type != T_DIR) { errno = ENOTDIR; s_log("OD %s -1", abs); return 0; } }
  int i; for (i = 0; i < 64; ++i) if (!sdirs[i]) break; if (i == 64) { errno = EMFILE; return 0; }
  struct SDir *d = s_alloc(sizeof *d); strcpy(d->path, abs); sdirs[i] = d; d->open = 1; ++openDirs; sdirFill(d); s_log("OD %s 0", abs); return (DIR *)d;
}
struct dirent *readdir(DIR *x) {
  getReal(); struct SDir *d = sdirOf(x); if (!d) { if (simActive && !x) { s_log("NULLDIR readdir"); s_die(98); } return r_readdir(x); }
  struct Fault *f = fault("readdir", d->path);
  if (f) { /* an error looks like the end, errno set */ errno = errOf(f->act) ? errOf(f->act) : EIO; return 0; }
  if (d->at >= d->n) return 0;
  char *nm = d->names[d->at];
  /* as in a real getdents buffer, the record is only as long as its name needs; here it ends at an inaccessible page */
  static char *pg; if (!pg) { pg = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(pg + 4096, 4096, PROT_NONE); }
  size_t l = strnlen(nm, 255), rl = (offsetof(struct dirent, d_name) + l + 1 + 7) & ~7ul; memset(pg, 0x5A, 4096);
  struct dirent *de = (struct dirent *)(pg + 4096 - rl); memset(de, 0, rl); memcpy(de->d_name, nm, l); de->d_type = d->types[d->at];
  de->d_ino = 1000 + d->at; de->d_reclen = rl; de->d_off = ++d->at; return de;
}
struct dirent64 *readdir64(DIR *x) { return (struct dirent64 *)readdir(x); }
void rewinddir(DIR *x) {
  getReal(); struct SDir *d = sdirOf(x); if (!d) { if (simActive && !x) { s_log("NULLDIR rewinddir"); s_die(98); } r_rewinddir(x); return; }
  struct Fault *f = fault("rewinddir", d->path);
  if (f) { /* another process changed the directory in between */
    if (!strcmp(f->act, "vanish")) { char b[PATH_MAX]; size_t n = strlen(d->path); long k = f->arg;
      for (struct Ent *e = ents; e; e = e->next) if (!strncmp(e->path, d->path, n) && e->path[n] == '/' && !strchr(e->path + n + 1, '/')) { if (k-- == 0) { s_log("VANISH %s", e->path); strcpy(b, e->path); fsDel(e); break; } } }
    else if (!strcmp(f->act, "appear")) { char b[PATH_MAX + 64]; snprintf(b, sizeof b, "%s/appeared%ld", d->path, f->arg); if (!fsGet(b)) { fsAdd(b, T_FILE, 0644); s_log("APPEAR %s", b); } }
  }
  sdirFill(d);
}
int closedir(DIR *x) {
  getReal();
  for (int i = 0; i < 64; ++i) if (sdirs[i] && (void *)sdirs[i] == (void *)x) { s_log("CD %s", sdirs[i]->path); sdirs[i] = 0; --openDirs; return 0; }
  if (simActive && !x) { s_log("NULLDIR closedir"); s_die(98); }
  return r_closedir(x);
}
int dirfd(DIR *x) { if (sdirOf(x)) return -1; return *(int *)x; }

/* ------------------------------------------------------------------ external commands */
static int shSplit(const char *s, char **av, int max) {
  int n = 0; char *b = s_alloc(strlen(s) + 2), *o = b; int in = 0; char q = 0;
  for (; *s; ++s) {
    if (q) { if (*s == q) q = 0; else *o++ = *s; continue; }
    if (*s == '\'' || *s == '"') { q = *s; if (!in) { in = 1; if (n < max) av[n++] = o; } continue; }
    if (*s == ' ' || *s == '\t' || *s == '\n') { if (in) { *o++ = 0; in = 0; } continue; }
    if (!in) { in = 1; if (n < max) av[n++] = o; }
    *o++ = *s;
  }
  *o = 0; return q ? -1 : n;
}
static uint64_t fnv(const void *p, size_t n, uint64_t h) { const unsigned char *c = p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }
static int mkdirP(const char *p) {
  char abs[PATH_MAX * 2]; int err; if (!resolve(p, abs, 1, &err)) { s_log("ESCAPE mkdir %s", abs); return 1; }
  for (char *c = abs + 1;; ++c) if (*c == '/' || !*c) {
    char k = *c; *c = 0;
    int isroot = 0; for (int i = 0; i < nroots; ++i) if (!strcmp(abs, roots[i])) isroot = 1;
    if (inSim(abs) && !isroot) { struct Ent *e = fsGet(abs); if (!e) fsAdd(abs, T_DIR, 0755); else if (e->ino->type == T_FILE) return 1; }
    *c = k; if (!k) break;
  }
  return 0;
}
/* cp of a tree or file; limit>=0: stop (disk full) after that many files, the last one torn */
static int cpTree(const char *src, const char *dst, int recursive, long limit) {
  char a[PATH_MAX * 2], b[PATH_MAX * 2]; int err;
  if (!resolve(src, a, 1, &err)) { s_log("CPSRC real %s", a); return 1; }
  struct Ent *e = err ? 0 : fsGet(a); if (!e) return 1;
  if (!resolve(dst, b, 1, &err)) { s_log("ESCAPE cp %s", b); return 1; }
  int isroot = 0; for (int i = 0; i < nroots; ++i) if (!strcmp(b, roots[i])) isroot = 1;
  struct Ent *d = fsGet(b);
  if (e->ino->type == T_DIR && !recursive) return 1;
  if (isroot || (d && d->ino->type == T_DIR)) { char t[PATH_MAX * 4]; snprintf(t, sizeof t, "%s/%s", b, strrchr(a, '/') + 1); strncpy(b, t, sizeof b - 1); d = fsGet(b); }
  if (parentOk(b)) return 1;
  if (e->ino->type == T_FILE) {
    if (limit == 0) { if (!d) d = fsAdd(b, T_FILE, e->ino->mode); d->ino->len = 0; inoSet(d->ino, 0, e->ino->data, e->ino->len / 2); return 1; }
    if (!d) d = fsAdd(b, T_FILE, e->ino->mode); if (d->ino == e->ino) return 1; d->ino->len = 0; inoSet(d->ino, 0, e->ino->data, e->ino->len); return 0;
  }
  if (!d) fsAdd(b, T_DIR, 0755); else if (d->ino->type != T_DIR) return 1;
  size_t n = strlen(a); long left = limit;
  for (struct Ent *k = ents; k; k = k->next) if (!strncmp(k->path, a, n) && k->path[n] == '/') {
    char t[PATH_MAX * 4]; snprintf(t, sizeof t, "%s%s", b, k->path + n);
    if (!strncmp(k->path, b, strlen(b)) && k->path[strlen(b)] == '/') continue;
    struct Ent *x = fsGet(t);
    if (k->ino->type == T_DIR) { if (!x) fsAdd(t, T_DIR, 0755); continue; }
    if (!x) x = fsAdd(t, k->ino->type, k->ino->mode);
    x->ino->len = 0;
    if (left == 0) { inoSet(x->ino, 0, k->ino->data, k->ino->len / 2); return 1; }
    if (left > 0) --left;
    inoSet(x->ino, 0, k->ino->data, k->ino->len);
  }
  return 0;
}
static char popenOut[4096];
static void crashNow(const char *where) {
  s_log("CRASH %s", where);
  /* what is durable at this moment */
  for (struct Ent *e = ents; e; e = e->next) {
    s_log("FS %d %o %zu %s", e->ino->type, e->ino->mode, e->ino->len, e->path); s_logHex("FD", e->ino->data, e->ino->len);
  }
  s_die(77);
}
static int runCommand(const char *cmd, int capture) {
  popenOut[0] = 0;
  struct Fault *f = fault("exec", 0);
  s_logHex("X", cmd, strlen(cmd));
  if (f && !strcmp(f->act, "crash")) crashNow("before-exec");
  if (f && !strcmp(f->act, "nostart")) return -1;
  char *av[128]; char *cmd0 = s_dup(cmd);
  int n = shSplit(cmd0, av, 127); int rc = 127;
  long failArg = -1; int forced = -1;
  if (f && !strcmp(f->act, "exit")) forced = f->arg;          /* fails without effect */
  if (f && !strcmp(f->act, "signal")) forced = 128 + 9;
  if (f && !strcmp(f->act, "partial")) failArg = f->arg;      /* fails half way */
  for (struct Exec *e = execs; e; e = e->next) if ((e->match && strstr(cmd, e->match))) {
    snprintf(popenOut, sizeof popenOut, "%s", e->out ? e->out : ""); rc = e->code; if (forced >= 0) { rc = forced; popenOut[0] = 0; }
    s_log("XR %d", rc); return rc << 8;
  }
  if (forced >= 0) { s_log("XR %d", forced); if (!strcmp(f->act, "signal")) return 9; return (forced & 255) << 8; }
  if (n > 0) {
    const char *c0 = strrchr(av[0], '/') ? strrchr(av[0], '/') + 1 : av[0];
    int i = 1, rec = 0, par = 0; for (; i < n && av[i][0] == '-' && av[i][1]; ++i) { if (strchr(av[i], 'r') || strchr(av[i], 'R') || strchr(av[i], 'a')) rec = 1; if (strchr(av[i], 'p')) par = 1; }
    if (!strcmp(c0, "mkdir")) { rc = 0; for (int k = i; k < n; ++k) { if (par) rc |= mkdirP(av[k]); else rc |= mkdir(av[k], 0755) != 0; } if (i >= n) rc = 1; if (failArg >= 0) rc = 1; }
    else if (!strcmp(c0, "cp")) { if (n - i < 2) rc = 1; else { rc = 0; for (int k = i; k < n - 1; ++k) rc |= cpTree(av[k], av[n - 1], rec, failArg); } if (failArg >= 0) rc = 1; }
    else if (!strcmp(c0, "ln")) { rc = n - i < 2 ? 1 : 0; if (!rc) { char dst[PATH_MAX * 2]; struct stat st; snprintf(dst, sizeof dst, "%s", av[n - 1]);
        int dash_f = 0, dash_n = 0; for (int q = 1; q < i; ++q) { if (strchr(av[q], 'f')) dash_f = 1; if (strchr(av[q], 'n') || strchr(av[q], 'T')) dash_n = 1; }
        if (!dash_n && stat(dst, &st) == 0 && S_ISDIR(st.st_mode)) { const char *bn = strrchr(av[i], '/') ? strrchr(av[i], '/') + 1 : av[i]; snprintf(dst, sizeof dst, "%s/%s", av[n - 1], bn); }
        if (dash_f) { struct stat s2; if (lstat(dst, &s2) == 0 && !S_ISDIR(s2.st_mode)) unlink(dst); }
        rc = symlink(av[i], dst) ? 1 : 0; } if (failArg >= 0) rc = 1; }
    else if (!strcmp(c0, "rm")) { rc = 0; for (int k = i; k < n; ++k) { char a[PATH_MAX * 2]; int err; if (!resolve(av[k], a, 0, &err)) { s_log("ESCAPE rm %s", a); rc = 1; continue; }
        size_t l = strlen(a); for (struct Ent *e = ents, *nx; e; e = nx) { nx = e->next; if (!strncmp(e->path, a, l) && (!e->path[l] || e->path[l] == '/')) fsDel(e); } } }
    else if (!strcmp(c0, "mv")) { rc = n - i < 2 ? 1 : rename(av[i], av[i + 1]) != 0; }
    else if (!strcmp(c0, "which")) { if (n > 1 && (!strcmp(av[1], "gcc") || !strcmp(av[1], "mygcc"))) { snprintf(popenOut, sizeof popenOut, "/usr/bin/%s\n", av[1]); rc = 0; } else rc = 1; }
    else if (!strcmp(c0, "gcc") || !strcmp(c0, "mygcc") || !strcmp(c0, "wasm-ld") || !strcmp(c0, "ld")) {
      /* link: reads every *.o, writes "LINKED <hash of inputs and arguments>" into -o */
      uint64_t h = 1469598103934665603ull; char *out = "a.out"; rc = 0;
      for (int k = 1; k < n; ++k) {
        if (!strcmp(av[k], "-o") && k + 1 < n) { out = av[++k]; continue; }
        size_t l = strlen(av[k]);
        if (av[k][0] != '-' && l > 2 && !strcmp(av[k] + l - 2, ".o")) {
          char a[PATH_MAX * 2]; int err; struct Ent *e = 0; if (resolve(av[k], a, 1, &err) && !err) e = fsGet(a);
          if (!e) { s_log("LINKMISS %s", av[k]); rc = 1; } else h = fnv(e->ino->data, e->ino->len, h);
        } else h = fnv(av[k], l + 1, h);
      }
      char a[PATH_MAX * 2]; int err; if (!resolve(out, a, 1, &err) || err || parentOk(a)) { s_log("LINKOUT %s", a); rc = 1; }
      if (!rc) { struct Ent *e = fsGet(a); if (!e) e = fsAdd(a, T_FILE, 0755); if (e->ino->type == T_DIR) rc = 1; else { char t[64]; int tn = snprintf(t, sizeof t, "LINKED %016llx\n", (unsigned long long)h); e->ino->len = 0;
          if (failArg >= 0) { inoSet(e->ino, 0, t, tn / 2); rc = 1; } else inoSet(e->ino, 0, t, tn); } }
    } else if (!strcmp(c0, "true")) rc = 0; else if (!strcmp(c0, "false")) rc = 1;
    else if (!strcmp(c0, "exit")) rc = n > 1 ? atoi(av[1]) : 0;
    else if (!strcmp(c0, "echo")) { size_t o = 0; for (int k = 1; k < n; ++k) o += snprintf(popenOut + o, sizeof popenOut - o, "%s%s", k > 1 ? " " : "", av[k]); snprintf(popenOut + o, sizeof popenOut - o, "\n"); rc = 0; }
  } else rc = n < 0 ? 2 : 0;
  s_log("XR %d", rc);
  if (f && !strcmp(f->act, "crashafter")) crashNow("after-exec");
  return rc << 8;
}
int system(const char *c) {
  if (!simActive) { errno = EPERM; return -1; }
  if (!c) return 1;
  int r = runCommand(c, 0); if (r == -1) errno = EAGAIN;
  return r;
}
struct Proc { FILE *fp; int rc; char *data; size_t n, at; };
static struct Proc procs[32]; static int openProcs;
static ssize_t pkRead(void *c, char *b, size_t n) {
  struct Proc *p = c; s_step(); size_t k = p->n - p->at; if (k > n) k = n; if (nStdinChunks && k) { size_t q = stdinChunks[stdinAt++ % nStdinChunks]; if (q && k > q) k = q; }
  memcpy(b, p->data + p->at, k); p->at += k; return k;
}
static ssize_t pkWrite(void *c, const char *b, size_t n) { s_logHex("PW", b, n); return n; }
static int pkClose(void *c) { return 0; }
FILE *popen(const char *c, const char *m) {
  if (!simActive) { errno = EPERM; return 0; }
  struct Fault *f = fault("popen", 0); if (f) { errno = EMFILE; s_log("P -1"); return 0; }
  int i; for (i = 0; i < 32; ++i) if (!procs[i].fp) break; if (i == 32) { errno = EMFILE; return 0; }
  int rc = runCommand(c, 1); if (rc == -1) { errno = EAGAIN; return 0; }
  procs[i].rc = rc; procs[i].data = s_dup(popenOut); procs[i].n = strlen(popenOut); procs[i].at = 0;
  cookie_io_functions_t io = { pkRead, pkWrite, 0, pkClose };
  procs[i].fp = fopencookie(&procs[i], m, io); ++openProcs; return procs[i].fp;
}
int pclose(FILE *fp) {
  getReal();
  if (!fp && simActive) { s_log("NULLFILE pclose"); s_die(98); }
  for (int i = 0; i < 32; ++i) if (procs[i].fp == fp && fp) { r_fclose(fp); procs[i].fp = 0; --openProcs; s_log("PC %d", procs[i].rc); return procs[i].rc; }
  s_log("PCBAD"); errno = ECHILD; return -1;
}
pid_t fork(void) { if (simActive) { s_log("FORK denied"); errno = EAGAIN; return -1; } return syscall(SYS_fork); }
pid_t vfork(void) { errno = EAGAIN; return -1; }
int execve(const char *p, char *const a[], char *const e[]) { s_log("EXECVE %s", p); errno = EACCES; return -1; }
int posix_spawn(pid_t *p, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const av[], char *const ev[]) { s_log("SPAWN %s", f); return EAGAIN; }
int kill(pid_t p, int s) { if (!simActive || p == syscall(SYS_getpid)) return syscall(SYS_kill, p, s); s_log("KILL denied"); errno = EPERM; return -1; }

/* ------------------------------------------------------------------ clock */
static long clockNow(void) {
  struct Fault *f = fault("clock", 0);
  if (f && !strcmp(f->act, "jump")) clkNs += f->arg * 1000000000L;
  clkNs += clkTick; cpuClk += clkTick / 1000; return clkNs;
}
time_t time(time_t *t) {
  if (!simActive) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
  time_t r = clockNow() / 1000000000L; if (clkNs < 0 && clkNs % 1000000000L) --r; if (t) *t = r; s_log("T time %ld", (long)r); return r;
}
clock_t clock(void) {
  if (!simActive) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
  clockNow(); s_log("T clock %ld", cpuClk); return cpuClk;
}
int gettimeofday(struct timeval *tv, void *z) { if (!simActive) return syscall(SYS_gettimeofday, tv, z); long n = clockNow(); tv->tv_sec = n / 1000000000L; tv->tv_usec = n / 1000 % 1000000; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!simActive || schedOn < 0) return syscall(SYS_clock_gettime, c, ts);
  if (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_PROCESS_CPUTIME_ID) { long n = c == CLOCK_PROCESS_CPUTIME_ID ? cpuClk * 1000 : (clkNs += clkTick); if (c == CLOCK_PROCESS_CPUTIME_ID) cpuClk += 1; ts->tv_sec = n / 1000000000L; ts->tv_nsec = n % 1000000000L; return 0; }
  return syscall(SYS_clock_gettime, c, ts);
}
static void simSleep(long ns) { s_step(); clkNs += ns; s_log("T sleep %ld", ns); schedSleep(); }
int usleep(useconds_t u) {
  if (!simActive) { struct timespec t = { u / 1000000, (u % 1000000) * 1000 }; return syscall(SYS_nanosleep, &t, 0); }
  simSleep((long)u * 1000); return 0;
}
unsigned sleep(unsigned s) { if (!simActive) { struct timespec t = { s, 0 }; syscall(SYS_nanosleep, &t, 0); return 0; } simSleep((long)s * 1000000000L); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!simActive) return syscall(SYS_nanosleep, a, b); simSleep(a->tv_sec * 1000000000L + a->tv_nsec); return 0; }

/* ------------------------------------------------------------------ console input */
static ssize_t inRead(void *c, char *b, size_t n) {
  s_step();
  struct Fault *f = fault("stdin", 0);
  if (stdinErrs || (f && errOf(f->act))) {
    if (f && f->arg) stdinErrs = 1;
    errno = f ? errOf(f->act) : EIO; s_log("IN err"); if (++stdinEofs > eofMax) { s_log("BUDGET stdin"); s_die(99); } return -1; }
  size_t k = stdinLen - stdinPos;
  if (f && !strcmp(f->act, "eof")) { stdinLen = stdinPos; k = 0; }
  if (!k) { if (++stdinEofs > eofMax) { s_log("BUDGET stdin"); s_die(99); } s_log("IN eof"); return 0; }
  if (k > n) k = n;
  if (nStdinChunks) { size_t q = stdinChunks[stdinAt++ % nStdinChunks]; if (q && k > q) k = q; }
  memcpy(b, stdinData + stdinPos, k); stdinPos += k; s_log("IN %zu", k); return k;
}
static void stdinSetup(void) {
  cookie_io_functions_t io = { inRead, 0, 0, 0 }; stdin = fopencookie(0, "r", io);
}
/* getchar() in glibc reads the real stdin variable, so replacing `stdin` is enough; repeated reads at
   end of input do not reach the cookie (the EOF flag is sticky only for some calls), so count here. */
static void eofGuard(int c) { if (c == EOF && simActive && stdinSim) { if (++stdinEofs > eofMax) { s_log("BUDGET stdin"); s_die(99); } } }
int getchar(void) { int c = getc(stdin); eofGuard(c); return c; }

/* ------------------------------------------------------------------ stub libcurl */
struct Curl { int magic, follow; char *url; void *wd; size_t (*wf)(char *, size_t, size_t, void *); };
static int curlOpen;
struct Resp { char *url; char *data; size_t n; long chunk; int code; struct Resp *next; };
static struct Resp *resps;
void *curl_easy_init(void) {
  struct Fault *f = fault("curlinit", 0); if (f) { s_log("NI 0"); return 0; }
  struct Curl *c = s_alloc(sizeof *c); c->magic = 0x6375726c; ++curlOpen; s_log("NI 1"); return c;
}
void curl_easy_cleanup(void *h) { struct Curl *c = h; if (!c) return; if (c->magic != 0x6375726c) { s_log("NBAD cleanup"); return; } c->magic = 0; --curlOpen; s_log("NC"); }
int curl_easy_setopt(void *h, int o, ...) {
  struct Curl *c = h; if (!c || c->magic != 0x6375726c) { s_log("NBAD setopt"); return 43; }
  va_list a; va_start(a, o); void *p = va_arg(a, void *); va_end(a);
  if (o == 10002) c->url = s_dup(p); else if (o == 10001) c->wd = p; else if (o == 20011) c->wf = p; return 0;
}
int curl_easy_perform(void *h) {
  struct Curl *c = h; if (!c || c->magic != 0x6375726c) { s_log("NBAD perform"); return 43; }
  struct Fault *f = fault("net", c->url ? c->url : 0);
  s_log("N %s", c->url ? c->url : "(none)");
  if (f && !strcmp(f->act, "crash")) crashNow("net");
  if (f && !strcmp(f->act, "refused")) { s_log("NR 7"); return 7; }
  if (f && !strcmp(f->act, "timeout")) { clkNs += 300L * 1000000000L; s_log("NR 28"); return 28; }
  if (!c->url) { return 3; }
  struct Resp *r; for (r = resps; r; r = r->next) if (!strcmp(r->url, c->url)) break;
  if (!r) { s_log("NR 6"); return 6; }
  size_t lim = r->n; int end = 0;
  if (f && !strcmp(f->act, "drop")) { lim = (size_t)f->arg < r->n ? (size_t)f->arg : r->n; end = 56; }
  if (f && !strcmp(f->act, "partial")) { lim = (size_t)f->arg < r->n ? (size_t)f->arg : r->n; end = 18; }
  if (f && !strcmp(f->act, "stall")) { lim = (size_t)f->arg < r->n ? (size_t)f->arg : r->n; end = 28; }
  uint64_t st = s_mix(r->chunk + 77);
  for (size_t at = 0; at < lim;) {
    s_step();
    size_t k = r->chunk == 0 ? 16384 : r->chunk == 1 ? 1 : 1 + s_rnd(&st) % r->chunk; if (k > 16384) k = 16384; if (k > lim - at) k = lim - at;
    if (c->wf) { /* the buffer handed to the callback is not terminated and is scribbled over afterwards */
      char *b = malloc(k); memcpy(b, r->data + at, k); size_t w = c->wf(b, 1, k, c->wd); memset(b, 0xA5, k); free(b);
      if (w != k) { s_log("NR 23"); return 23; }
    } else if (c->wd) { size_t w = fwrite(r->data + at, 1, k, c->wd); if (w != k) { s_log("NR 23"); return 23; } }
    at += k; clkNs += 1000000;
  }
  s_log("NR %d", end); return end;
}
int curl_easy_getinfo(void *h, int i, ...) { return 0; }
void curl_easy_reset(void *h) {}
int curl_global_init(long f) { return 0; }
void curl_global_cleanup(void) {}
char *curl_easy_escape(void *h, const char *s, int n) { return strdup(s); }
void *curl_slist_append(void *l, const char *s) { return l; }
void curl_slist_free_all(void *l) {}

/* ------------------------------------------------------------------ stub kubazip: an archive is "ZIP1\n" then per
   entry "<name> <len>\n<bytes>" and finally "END\n" */
int zip_extract(const char *zf, const char *dir, int (*cb)(const char *, void *), void *arg) {
  struct Fault *f = fault("unzip", 0);
  s_log("Z %s %s", zf, dir);
  if (f && !strcmp(f->act, "fail")) return -1;
  if (f && !strcmp(f->act, "crash")) crashNow("unzip");
  char abs[PATH_MAX * 2]; int err; if (!resolve(zf, abs, 1, &err)) return -1; struct Ent *z = fsGet(abs); if (!z || err) return -1;
  const char *p = z->ino->data, *e = p + z->ino->len;
  if (z->ino->len < 5 || memcmp(p, "ZIP1\n", 5)) { s_log("ZR bad"); return -1; }
  /* like the real one, the directory at the end is checked first */
  if (e - p < 9 || memcmp(e - 4, "END\n", 4)) { s_log("ZR trunc"); return -1; }
  p += 5; long k = 0;
  while (p < e && memcmp(p, "END\n", 4)) {
    char nm[512]; long len; int used; if (sscanf(p, "%511s %ld\n%n", nm, &len, &used) < 2) return -1; p += used;
    char t[PATH_MAX * 2]; snprintf(t, sizeof t, "%s/%s", dir, nm);
    char *sl = strrchr(t, '/'); *sl = 0; if (mkdirP(t)) return -1; *sl = '/';
    if (nm[strlen(nm) - 1] != '/') {
      if (f && !strcmp(f->act, "partial") && k >= f->arg) { char tt[PATH_MAX*2]; int er; if (resolve(t, tt, 1, &er)) { struct Ent *en = fsGet(tt); if (!en) en = fsAdd(tt, T_FILE, 0644); en->ino->len = 0; inoSet(en->ino, 0, p, len / 2); } s_log("ZR partial"); return -1; }
      if (f && !strcmp(f->act, "crashpartial") && k >= f->arg) crashNow("unzip-partial");
      char a[PATH_MAX * 2]; int er; if (!resolve(t, a, 1, &er)) { s_log("ESCAPE unzip %s", a); return -1; }
      struct Ent *en = fsGet(a); if (!en) en = fsAdd(a, T_FILE, 0644); en->ino->len = 0; inoSet(en->ino, 0, p, len); ++k;
    }
    p += len; if (cb && cb(t, arg) < 0) return -1;
  }
  s_log("ZR 0"); return 0;
}

/* ------------------------------------------------------------------ allocator */
#include "simheap.h"

/* ------------------------------------------------------------------ interface for the simulated programs */
int sim_next(void) { s_step(); return opAt < nops ? (int)ops[opAt++] : -1; }
long sim_nextl(void) { s_step(); return opAt < nops ? ops[opAt++] : -1; }
int sim_left(void) { return nops - opAt; }
char *sim_str(int i) { if (i < 0 || i >= nstrs) return 0; return strs[i].p; }
long sim_strlen(int i) { if (i < 0 || i >= nstrs) return -1; return strs[i].n; }
void sim_log(int tag, long v) { s_log("L %d %ld", tag, v); }
void sim_logs(int tag, const char *s) { char t[24]; snprintf(t, sizeof t, "S %d", tag); if (!s) { s_log("S %d NULL", tag); return; } s_logHex(t, s, strlen(s)); }
void sim_logb(int tag, const char *s, long n) { char t[24]; snprintf(t, sizeof t, "S %d", tag); if (!s) { s_log("S %d NULL", tag); return; } s_logHex(t, s, n); }
void sim_logw(int tag, const int *s) { char t[24]; snprintf(t, sizeof t, "S %d", tag); if (!s) { s_log("S %d NULL", tag); return; } size_t n = 0; while (s[n]) ++n; s_logHex(t, s, n * 4); }
void sim_logf(int tag, double v) { uint64_t u; memcpy(&u, &v, 8); s_log("L %d %lu", tag, (unsigned long)u); }
long sim_heap_live(void) { return heapLive(); }
int sim_handles(void) { return openHandles; }
int sim_dirs(void) { return openDirs; }
int sim_procs(void) { return openProcs; }
int sim_curls(void) { return curlOpen; }
void sim_dumpfs(void) {
  for (struct Ent *e = ents; e; e = e->next) { s_log("FS %d %o %zu %s", e->ino->type, e->ino->mode, e->ino->len, e->path); s_logHex("FD", e->ino->data, e->ino->len); }
}
void sim_mark(int k) { s_log("MARK %d", k); }
void sim_track(int on) { heapTrack(on); }
int sim_check_heap(void) { return heapCheck(1); }
long sim_clock(void) { return clkNs; }
void sim_stdin_rest(void) { /* what the next reader would get */
  char b[4096]; size_t n = 0; int c; while (n < sizeof b && (c = getc(stdin)) != EOF) b[n++] = c; s_logHex("REST", b, n);
}

/* ------------------------------------------------------------------ plan parsing */
static char *lineEnd(char *p, char *e) { while (p < e && *p != '\n') ++p; return p; }
static long *numList(char *s, int *n) {
  long *r = 0; int cap = 0; *n = 0;
  while (*s) { while (*s == ' ' || *s == ',') ++s; if (!*s) break; char *q; long v = strtol(s, &q, 10); if (q == s) break; s = q;
    if (*n == cap) { cap = cap ? cap * 2 : 64; long *t = s_alloc(sizeof(long) * cap); if (*n) memcpy(t, r, sizeof(long) * *n); r = t; } r[(*n)++] = v; }
  return r;
}
static void planParse(char *p, size_t len) {
  char *e = p + len;
  while (p < e) {
    char *q = lineEnd(p, e); char *ln = s_ndup(p, q - p); p = q < e ? q + 1 : e;
    char *w = ln; while (*w && *w != ' ') ++w; char *arg = *w ? w + 1 : w; *w = 0;
    if (!strcmp(ln, "root")) roots[nroots++] = arg;
    else if (!strcmp(ln, "cwd")) vcwd = arg;
    else if (!strcmp(ln, "dir")) { if (!fsGet(arg)) fsAdd(arg, T_DIR, 0755); }
    else if (!strcmp(ln, "link")) { char *t = strchr(arg, ' '); *t++ = 0; struct Ent *n = fsAdd(arg, T_LINK, 0777); inoSet(n->ino, 0, t, strlen(t) + 1); n->ino->len--; }
    else if (!strcmp(ln, "file")) { /* file <octal mode> <len> <path> \n bytes \n */
      char *x = arg; int mode = strtol(x, &x, 8); long n = strtol(x, &x, 10); while (*x == ' ') ++x;
      struct Ent *en = fsGet(x); if (!en) en = fsAdd(x, T_FILE, mode); en->ino->len = 0; en->ino->mode = mode; inoSet(en->ino, 0, p, n); p += n + 1;
    } else if (!strcmp(ln, "fifo")) { struct Ent *en = fsGet(arg); if (en) en->ino->fifo = 1; }
    else if (!strcmp(ln, "mode")) { char *x; int m = strtol(arg, &x, 8); while (*x == ' ') ++x; struct Ent *en = fsGet(x); if (en) en->ino->mode = m; }
    else if (!strcmp(ln, "fault")) { /* fault cls[@path] nth act [arg] */
      struct Fault *f = s_alloc(sizeof *f); char *sv, *c = strtok_r(arg, " ", &sv); char *at = strchr(c, '@'); if (at) { *at = 0; f->path = at + 1; }
      f->cls = c; char *n = strtok_r(0, " ", &sv); f->nth = n ? atol(n) : 1; f->act = strtok_r(0, " ", &sv); if (!f->act) f->act = "EIO"; char *a = strtok_r(0, " ", &sv); f->arg = a ? atol(a) : 0;
      struct Fault **t = &faults; while (*t) t = &(*t)->next; *t = f;
    } else if (!strcmp(ln, "chunks")) rdChunks = numList(arg, &nRdChunks);
    else if (!strcmp(ln, "stdinchunks")) stdinChunks = numList(arg, &nStdinChunks);
    else if (!strcmp(ln, "stdin")) { long n = atol(arg); stdinData = s_ndup(p, n); stdinLen = n; stdinPos = 0; p += n + 1; if (!stdinSim) stdinSetup(); else { stdinSetup(); } stdinSim = 1; stdinEofs = 0; }
    else if (!strcmp(ln, "ops")) ops = numList(arg, &nops), opAt = 0;
    else if (!strcmp(ln, "str")) { long n = atol(arg); if (!strs) strs = s_alloc(sizeof(*strs) * 512); if (nstrs < 512) { strs[nstrs].p = s_ndup(p, n); strs[nstrs++].n = n; } p += n + 1; }
    else if (!strcmp(ln, "net")) { /* net <chunk> <len> <url> \n bytes \n */
      char *x = arg; struct Resp *r = s_alloc(sizeof *r); r->chunk = strtol(x, &x, 10); r->n = strtol(x, &x, 10); while (*x == ' ') ++x; r->url = x; r->data = s_ndup(p, r->n); p += r->n + 1; r->next = resps; resps = r; }
    else if (!strcmp(ln, "exec")) { /* exec <code> <outlen> <match> \n out \n */
      char *x = arg; struct Exec *r = s_alloc(sizeof *r); r->code = strtol(x, &x, 10); long n = strtol(x, &x, 10); while (*x == ' ') ++x; r->match = x; r->out = s_ndup(p, n); p += n + 1; r->next = execs; execs = r; }
    else if (!strcmp(ln, "budget")) stepBudget = atol(arg) + steps;
    else if (!strcmp(ln, "eofmax")) eofMax = atol(arg);
    else if (!strcmp(ln, "dirseed")) dirSeed = strtoull(arg, 0, 10);
    else if (!strcmp(ln, "clock")) { char *x; clkNs = strtol(arg, &x, 10) * 1000000000L; long t = strtol(x, &x, 10); if (t) clkTick = t; }
    else if (!strcmp(ln, "heap")) { char *x; heapMode = strtol(arg, &x, 10); heapSeed = strtoull(x, &x, 10); heapPad = strtol(x, &x, 10); }
    else if (!strcmp(ln, "sched")) { schedOn = 1; unsigned long long a = 0; int b = 0, c = 4, d = 0; sscanf(arg, "%llu %d %d %d", &a, &b, &c, &d); schedSeed = a; schedMode = b; schedRate = c; schedAlloc = d; }
    else if (!strcmp(ln, "schedlist")) { schedOn = 1; schedList = numList(arg, &nSched); }
    else if (!strcmp(ln, "env")) { char *v = strchr(arg, '='); if (v) { *v = 0; getReal(); r_setenv(arg, v + 1, 1); } }
    else if (!strcmp(ln, "dirend")) dirEnd = atoi(arg);
    else if (!strcmp(ln, "quiet")) quiet = 1;
    else if (!strcmp(ln, "dump")) dumpPfx = arg;
    else if (*ln && *ln != '#') { fprintf(stderr, "libsim: bad plan line '%s'\n", ln); s_die(96); }
  }
}

/* ------------------------------------------------------------------ fork server (many runs of one compiled program) */
static int srvIn = -1, srvOut = -1;
static int rdAll(int fd, void *b, size_t n) { char *c = b; while (n) { ssize_t r = syscall(SYS_read, fd, c, n); if (r <= 0) return -1; c += r; n -= r; } return 0; }
static int wrAll(int fd, const void *b, size_t n) { const char *c = b; while (n) { ssize_t r = syscall(SYS_write, fd, c, n); if (r <= 0) return -1; c += r; n -= r; } return 0; }
#define SHLOG (16u << 20)
/* Called by the compiled program.  Returns 1 in a child that must run the workload of its plan. */
int sim_serve(void) {
  if (srvIn < 0) return 1; /* no server: the plan of the process itself is the workload (replay) */
  char *sh = mmap(0, SHLOG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fflush(stdout);
  uint32_t zero = 0; wrAll(srvOut, &zero, 4); /* ready */
  for (;;) {
    uint32_t n; if (rdAll(srvIn, &n, 4)) s_die(0);
    char *plan = malloc(n + 1); if (rdAll(srvIn, plan, n)) s_die(0);
    *(volatile size_t *)sh = 0;
    pid_t pid = syscall(SYS_fork);
    if (pid == 0) {
      logBuf = sh + 64; logCap = SHLOG - 64; logLen = (volatile size_t *)sh;
      struct itimerval it = { { 0, 0 }, { 10, 0 } }; setitimer(ITIMER_PROF, &it, 0);
      struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
      int nul = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY); syscall(SYS_dup2, nul, 2);
      steps = 0; cnts = 0; faults = 0; ents = 0; openHandles = openDirs = 0; planParse(plan, n); return 1;
    }
    int st; while (syscall(SYS_wait4, pid, &st, 0, 0) < 0 && errno == EINTR) ;
    uint32_t out[2] = { (uint32_t)st, (uint32_t)*(volatile size_t *)sh };
    wrAll(srvOut, out, 8); wrAll(srvOut, sh + 64, out[1]); free(plan);
  }
}
void sim_done(void) { fflush(stdout); s_log("DONE"); s_die(0); }

/* ------------------------------------------------------------------ start up */
static char *slurp(const char *p, size_t *n) {
  int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY, 0); if (fd < 0) return 0; struct stat st; syscall(SYS_fstat, fd, &st);
  char *b = s_alloc(st.st_size + 1); size_t at = 0; ssize_t r; while (at < (size_t)st.st_size && (r = syscall(SYS_read, fd, b + at, st.st_size - at)) > 0) at += r; *n = at; syscall(SYS_close, fd); return b;
}
static char **envp0; /* runs before the C library's own start-up: environ is not set yet */
static char *env0(const char *k) { size_t n = strlen(k); for (char **e = envp0; e && *e; ++e) if (!strncmp(*e, k, n) && (*e)[n] == '=') return *e + n + 1; return 0; }
static void __attribute__((constructor)) simInit(int argc, char **argv, char **envp) {
  envp0 = envp; getReal();
  char *pl = env0("SIM_PLAN"); if (!pl) return;
  char *lg = env0("SIM_LOG");
  if (lg) { int fd = syscall(SYS_openat, AT_FDCWD, lg, O_RDWR | O_CREAT | O_TRUNC, 0600); logCap = SHLOG; if (fd >= 0 && !syscall(SYS_ftruncate, fd, logCap)) {
      char *m = mmap(0, logCap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) { logLen = (volatile size_t *)m; *logLen = 0; logBuf = m + 64; logCap -= 64; } syscall(SYS_close, fd); } }
  size_t n; char *p = slurp(pl, &n); if (!p) { fprintf(stderr, "libsim: no plan\n"); s_die(96); }
  char *srv = env0("SIM_SERVE"); if (srv) { char *x; srvIn = strtol(srv, &x, 10); srvOut = strtol(x + 1, 0, 10); }
  planParse(p, n);
  simActive = 1;
  schedInit();
}
