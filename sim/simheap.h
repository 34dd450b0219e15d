/* The simulated allocator.
 * Tracked blocks (allocated between sim_track(1) and sim_track(0)) live in an arena of their own, with
 * one of several legal allocator personalities; every misuse is recorded:
 *   1 guard-end    each block ends at an inaccessible page; freed blocks become inaccessible
 *   2 guard-begin  each block starts right after an inaccessible page
 *   3 reuse        red zones, dirty fill, freed blocks handed out again at once (LIFO)
 *   4 spread       red zones, dirty fill, never reused, poisoned on free
 * realloc moves always (1,2,4) or by seed (3).
 * Untracked blocks go to the C library, except heapMode >= 10, where every block of the process is
 * padded by a seeded amount, filled with seeded bytes and poisoned on free. */
extern void *__libc_malloc(size_t); extern void __libc_free(void *); extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t); extern void *__libc_memalign(size_t, size_t);
#define ARENA_SZ (1ull << 36)
#define PGSZ 4096ull
#define RZ 32
struct Blk { char *p; size_t n, cap; char *lo, *hi; int owner, live; };
static char *har, *harAt; static struct Blk *blks; static int nBlks, capBlks; static int tracking; static int heapBad; static long liveBlks, allocCount;
static int heapLogged; static volatile int heapLock; static uint64_t hst;
static int hLo[64], nFreeList; static int freeList[4096];
static void hbad(const char *what, void *p, long a) { ++heapBad; if (heapLogged++ < 20) s_log("HEAPBAD %s %ld", what, a); (void)p; }
static long heapLive(void) { return liveBlks; }
static int inArena(void *p) { return har && (char *)p >= har && (char *)p < har + ARENA_SZ; }
static struct Blk *blkFind(void *p) { /* newest first: sizes are small */
  for (int i = nBlks - 1; i >= 0; --i) if (blks[i].p == (char *)p) return &blks[i]; return 0; }
static void heapTrack(int on) {
  if (on && !har) {
    har = mmap(0, ARENA_SZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); harAt = har + PGSZ;
    capBlks = 200000; blks = mmap(0, capBlks * sizeof(struct Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    hst = heapSeed;
  }
  tracking = on;
}
static void fillDirty(char *p, size_t n) {
  static const unsigned char pat[6] = { 0xCD, 0xFF, 0x01, 0x7F, 0x80, 0x2E }; /* never all zero */
  memset(p, pat[s_rnd(&hst) % 6], n);
}
static void *trkAlloc(size_t n, size_t align, int owner) {
  if (nBlks >= capBlks) return 0;
  if (n > (1ull << 33)) { s_log("HEAPHUGE %zu", n); return 0; }
  ++allocCount;
  if (align < 16) align = 16;
  int mode = heapMode % 10; struct Blk *b = 0;
  if (mode == 3) for (int i = nFreeList - 1; i >= 0; --i) { struct Blk *c = &blks[freeList[i]];
      if (c->cap >= n && c->cap <= n * 2 + 64 && ((uintptr_t)c->p % align) == 0) { b = c; memmove(freeList + i, freeList + i + 1, sizeof(int) * (nFreeList - i - 1)); --nFreeList; break; } }
  if (!b) {
    b = &blks[nBlks++];
    if (mode == 1 || mode == 2) {
      size_t pages = (n + align + PGSZ - 1) / PGSZ; if (!pages) pages = 1;
      char *base = harAt; harAt += (pages + 1) * PGSZ;
      mprotect(base, pages * PGSZ, PROT_READ | PROT_WRITE);
      b->lo = base; b->hi = base + pages * PGSZ;
      if (mode == 1) b->p = (char *)(((uintptr_t)(b->hi - n)) & ~(uintptr_t)(align - 1)); else b->p = (char *)(((uintptr_t)base + align - 1) & ~(uintptr_t)(align - 1));
      b->cap = n;
    } else {
      size_t cap = (n + 15) & ~(size_t)15; if (!cap) cap = 16;
      char *base = (char *)(((uintptr_t)harAt + RZ + align - 1) & ~(uintptr_t)(align - 1));
      char *end = base + cap + RZ;
      static char *mapped; if (!mapped) mapped = har;
      if (end > mapped) { size_t l = ((end - mapped) + (1 << 20)) & ~(PGSZ - 1); if (mapped == har) { } mprotect(mapped, l, PROT_READ | PROT_WRITE); mapped += l; }
      harAt = end; b->p = base; b->cap = cap; b->lo = base - RZ; b->hi = end;
    }
  }
  b->n = n; b->owner = owner; b->live = 1; ++liveBlks;
  fillDirty(b->p, n);
  memset(b->p + n, 0xE7, b->hi - b->p - n);              /* slack and red zone after */
  if (mode == 3 || mode == 4) memset(b->lo, 0xE7, b->p - b->lo); else memset(b->lo, 0xE7, b->p - b->lo);
  return b->p;
}
static void blkVerify(struct Blk *b) {
  for (char *c = b->p + b->n; c < b->hi; ++c) if ((unsigned char)*c != 0xE7) { hbad("write-past-end", b->p, b->n); memset(c, 0xE7, b->hi - c); break; }
  for (char *c = b->lo; c < b->p; ++c) if ((unsigned char)*c != 0xE7) { hbad("write-before-start", b->p, b->n); memset(b->lo, 0xE7, b->p - b->lo); break; }
}
static int heapCheck(int all) {
  long bytes = 0; for (int i = 0; i < nBlks; ++i) if (blks[i].live) { blkVerify(&blks[i]); bytes += blks[i].n; }
  if (all) s_log("HEAP live=%ld bytes=%ld bad=%d", liveBlks, bytes, heapBad);
  return heapBad;
}
static void trkFree(void *p, int owner) {
  struct Blk *b = blkFind(p);
  if (!b) { hbad("free-of-non-block", p, 0); return; }
  if (!b->live) { hbad("double-free", p, b->n); return; }
  if (b->owner != owner) hbad("wrong-allocator-free", p, b->owner);
  blkVerify(b); b->live = 0; --liveBlks;
  int mode = heapMode % 10;
  if (mode == 1 || mode == 2) mprotect(b->lo, b->hi - b->lo, PROT_NONE);
  else { memset(b->p, 0xDB, b->cap); if (mode == 3 && nFreeList < 4096) freeList[nFreeList++] = b - blks; }
}
static void *trkRealloc(void *p, size_t n, int owner) {
  if (!p) return trkAlloc(n, 16, owner);
  struct Blk *b = blkFind(p);
  if (!b || !b->live) { hbad(b ? "realloc-after-free" : "realloc-of-non-block", p, b ? (long)b->n : 0); return trkAlloc(n, 16, owner); }
  if (b->owner != owner) hbad("wrong-allocator-realloc", p, b->owner);
  if (n == 0) { trkFree(p, owner); return 0; }
  if (heapMode % 10 == 3 && (s_rnd(&hst) & 1) && n <= b->cap) { blkVerify(b); if (n > b->n) fillDirty(b->p + b->n, n - b->n); b->n = n; memset(b->p + n, 0xE7, b->hi - b->p - n); return p; }
  size_t old = b->n; void *q = trkAlloc(n, 16, owner); b = blkFind(p);
  memcpy(q, p, old < n ? old : n); trkFree(p, owner); return q;
}
/* whole process padding */
#define GM 0x51a7be11c0ffee42ull
struct GH { uint64_t n, base; uint64_t pad; uint64_t magic; }; /* 32 bytes, right before the block */
static uint64_t gst;
static void *gAlloc(size_t n, size_t align) {
  if (align < 16) align = 16;
  uint64_t r = s_rnd(&gst); size_t pad = (r % (heapPad > 0 ? heapPad : 1)) * 16;
  char *b = __libc_malloc(n + pad + align + sizeof(struct GH) + 8); if (!b) return 0;
  char *p = (char *)(((uintptr_t)b + pad + sizeof(struct GH) + align - 1) & ~(uintptr_t)(align - 1));
  struct GH *h = (struct GH *)p - 1; h->n = n; h->base = (uint64_t)b; h->pad = pad; h->magic = GM ^ (uint64_t)p;
  memset(p, (int)(r >> 40) | 1, n < 4096 ? n : 4096);
  return p;
}
static struct GH *gHdr(void *p) { if ((uintptr_t)p & 15) return 0; struct GH *h = (struct GH *)p - 1; return h->magic == (GM ^ (uint64_t)p) ? h : 0; }
static void gFree(struct GH *h, void *p) { memset(p, 0xDB, h->n < 4096 ? h->n : 4096); h->magic = 0; __libc_free((void *)h->base); }
void schedMallocPoint(void);
void *malloc(size_t n) {
  if (tracking) return trkAlloc(n, 16, 1);
  if (heapMode >= 10) return gAlloc(n, 16);
  return __libc_malloc(n);
}
void free(void *p) {
  if (!p) return;
  if (inArena(p)) { trkFree(p, 1); return; }
  if (heapMode >= 10) { struct GH *h = gHdr(p); if (h) { gFree(h, p); return; } }
  __libc_free(p);
}
void *calloc(size_t a, size_t b) {
  if (tracking) { void *p = trkAlloc(a * b, 16, 1); if (p) memset(p, 0, a * b); return p; }
  if (heapMode >= 10) { void *p = gAlloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
  return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) {
  if (p ? inArena(p) : tracking) return trkRealloc(p, n, 1);
  if (tracking && p) { /* block from before tracking */ return __libc_realloc(p, n); }
  if (heapMode >= 10) {
    if (!p) return gAlloc(n, 16);
    struct GH *h = gHdr(p);
    if (h) { if (!n) { gFree(h, p); return 0; } void *q = gAlloc(n, 16); if (!q) return 0; memcpy(q, p, h->n < n ? h->n : n); gFree(h, p); return q; }
  }
  return __libc_realloc(p, n);
}
void *memalign(size_t al, size_t n) { if (tracking) return trkAlloc(n, al, 1); if (heapMode >= 10) return gAlloc(n, al); return __libc_memalign(al, n); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **p, size_t al, size_t n) { *p = memalign(al, n); return *p ? 0 : ENOMEM; }
size_t malloc_usable_size(void *p) {
  if (inArena(p)) { struct Blk *b = blkFind(p); return b ? b->n : 0; }
  if (heapMode >= 10) { struct GH *h = gHdr(p); if (h) return h->n; }
  static size_t (*r)(void *); if (!r) r = dlsym(RTLD_NEXT, "malloc_usable_size"); return r(p);
}
/* A second, custom allocator for Srl.Memory.overrideAllocator. */
void *sim_alloc2(long n) { return trkAlloc(n, 16, 2); }
void *sim_realloc2(void *p, long n) { return trkRealloc(p, n, 2); }
void *sim_allocal2(long al, long n) { return trkAlloc(n, al, 2); }
void sim_free2(void *p) { if (!p) return; if (!inArena(p)) { hbad("free2-of-foreign", p, 0); return; } trkFree(p, 2); }
