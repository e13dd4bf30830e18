// Deterministic allocator: every address, every byte of fresh memory and every
// refusal is a function of the run configuration.
#define SIM_NO_REDIRECT
#include "seam.h"
#include "sim.h"
#include <sys/mman.h>
#include <map>
#include <vector>
#include <deque>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p,n) ASAN_POISON_MEMORY_REGION(p,n)
#define UNPOISON(p,n) ASAN_UNPOISON_MEMORY_REGION(p,n)
#else
#define POISON(p,n) ((void)0)
#define UNPOISON(p,n) ((void)0)
#endif

Arena arena; const size_t simPageSize = PAGE_SIZE;
static const size_t SZ = 1ull << 33, HALF = SZ / 2, BRKSZ = 1ull << 28;
static char *const BASE = (char *)0x300000000000ull;
static char *const BRKBASE = (char *)0x310000000000ull;
struct Hdr { uint64_t magic; uint64_t size; uint32_t tag; uint32_t aligned; uint64_t serial; };
static const uint64_t LIVE = 0x51abba5eedull, DEAD = 0xdeadf4eedull, TAIL = 0xa5a5c3c35a5a3c3cull;
static char *lo[2], *hi[2];
static std::map<std::pair<int,size_t>, std::deque<char*>> bins;
static std::map<char*, int> live; // user ptr -> tag
static char *brkCur, *brkHigh;
static bool mapped;

void arenaMap() {
  if (mapped) return;
  void *p = mmap(BASE, SZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
  void *q = mmap(BRKBASE, BRKSZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
  if (p != BASE || q != BRKBASE) { fprintf(stderr, "cannot map simulated memory\n"); _exit(70); }
  mapped = true;
}
void arenaReset(const AllocCfg &c) {
  arenaMap();
  arena = Arena();
  arena.cfg = c; arena.rng = Rng(c.seed ^ 0xa110c);
  for (int i = 0; i < 2; i++) { lo[i] = BASE + i * HALF + 4096; hi[i] = BASE + (i+1) * HALF - 4096; }
  bins.clear(); live.clear();
  brkCur = brkHigh = BRKBASE + c.brkStart;
}
// Rewinding: if every block handed out since the mark has come back, the next ones repeat the
// same addresses in the same order (a shut-down manager's successor right on top of it).
static struct { char *lo[2], *hi[2]; decltype(bins) b; uint64_t rng, serial; } mark;
void arenaMark() { for (int i = 0; i < 2; i++) { mark.lo[i] = lo[i]; mark.hi[i] = hi[i]; } mark.b = bins; mark.rng = arena.rng.s; mark.serial = arena.serial; }
bool arenaRewind() { for (auto &x : live) { Hdr *h = (Hdr *)(x.first - sizeof(Hdr)); UNPOISON(h, sizeof(Hdr)); uint64_t born = h->serial; POISON(h, sizeof(Hdr)); if (born > mark.serial) return false; }
  for (int i = 0; i < 2; i++) { lo[i] = mark.lo[i]; hi[i] = mark.hi[i]; } bins = mark.b; arena.rng.s = mark.rng; return true; }
static void fillFresh(char *p, size_t n) {
  switch (arena.cfg.fill) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: memset(p, 0x5a, n); break;
    default: {
      uint64_t x = arena.rng.next(); size_t i = 0;
      for (; i + 8 <= n; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; memcpy(p + i, &x, 8); }
      for (; i < n; i++) p[i] = (char)x;
    }
  }
}
static void *get(size_t n, size_t align, int kind) {
  if (arena.liveBytes + n > (768ull << 20)) simViolation("runaway-memory", "more than 768 MiB requested by a workload whose live set is tiny");
  size_t rn = (n + 15) & ~(size_t)15; if (!rn) rn = 16;
  char *u = nullptr;
  auto it = bins.find({kind, rn});
  if (arena.cfg.reuse && it != bins.end() && !it->second.empty()) {
    auto &d = it->second; size_t k = 0;
    if (arena.cfg.reuse == 1) k = d.size() - 1;
    else if (arena.cfg.reuse == 2) k = 0;
    else k = arena.rng.below(d.size() + 1); // may decline
    if (k < d.size() && (arena.cfg.reuse == 1 || d.size() > 1 || arena.cfg.reuse == 3)) { u = d[k]; d.erase(d.begin() + k); }
  }
  if (!u) {
    size_t gap = 0;
    if (arena.cfg.gap == 1) gap = arena.rng.below(4) * 16;
    if (arena.cfg.gap == 2) gap = arena.rng.below(64) * (kind ? align : 16);
    if (arena.cfg.gap == 3 && kind) gap = (size_t)arena.rng.below(8) * 65536;
    size_t total = sizeof(Hdr) + rn + 16;
    bool up = arena.cfg.dir == 0 || (arena.cfg.dir == 2 && arena.rng.below(2));
    if (up) {
      char *p = lo[kind] + gap + sizeof(Hdr);
      p = (char *)(((uintptr_t)p + align - 1) & ~(uintptr_t)(align - 1));
      u = p; lo[kind] = p + rn + 16;
    } else {
      char *p = hi[kind] - gap - rn - 16;
      p = (char *)((uintptr_t)p & ~(uintptr_t)(align - 1));
      u = p; hi[kind] = p - sizeof(Hdr);
    }
    lo[kind] = (char *)(((uintptr_t)lo[kind] + 15) & ~(uintptr_t)15);
    (void)total;
    if (lo[kind] + (1 << 20) > hi[kind]) simViolation("sim-memory-exhausted", "simulated address space used up");
  }
  Hdr *h = (Hdr *)(u - sizeof(Hdr));
  UNPOISON(h, sizeof(Hdr)); UNPOISON(u, rn);
  h->magic = LIVE; h->size = n; h->tag = arena.tag; h->aligned = kind; h->serial = ++arena.serial;
  UNPOISON(u + rn, 16);
  fillFresh(u, rn);
  memset(u + n, 0xc7, rn - n);
  memcpy(u + rn, &TAIL, 8);
  POISON(h, sizeof(Hdr)); POISON(u + rn, 16);
  if (rn > n) POISON(u + n, rn - n);
  live[u] = arena.tag;
  arena.allocs++; arena.liveBytes += n; if (arena.liveBytes > arena.peakBytes) arena.peakBytes = arena.liveBytes;
  return u;
}
static Hdr *check(void *p, const char *what) {
  char msg[128];
  if (!live.count((char *)p)) {
    snprintf(msg, sizeof msg, "%s of a block that is not allocated", what);
    simViolation("bad-free", msg);
  }
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  UNPOISON(h, sizeof(Hdr));
  size_t rn = (h->size + 15) & ~(size_t)15; if (!rn) rn = 16;
  UNPOISON(p, rn + 16);
  bool bad = h->magic != LIVE || memcmp((char *)p + rn, &TAIL, 8);
  if (!bad) for (size_t i = h->size; i < rn; i++) if (((unsigned char *)p)[i] != 0xc7) bad = true;
  if (bad) { snprintf(msg, sizeof msg, "memory next to a block of %zu bytes was overwritten (%s)", (size_t)h->size, what); simViolation("heap-overrun", msg); }
  return h;
}
extern "C" {
void *sim_malloc(size_t n) {
  if (n > (1ull << 31)) { arena.hugeRefused++; return nullptr; }
  if (arena.failMallocAt && ++arena.mallocSeq == arena.failMallocAt) { arena.mallocRefused++; return nullptr; }
  return get(n, 16, 0);
}
void *sim_calloc(size_t n, size_t m) { void *p = sim_malloc(n * m); if (p) memset(p, 0, n * m); return p; }
char *sim_strndup(const char *s, size_t n) { size_t l = n == (size_t)-1 ? strlen(s) : strnlen(s, n); char *p = (char *)sim_malloc(l + 1); if (p) { memcpy(p, s, l); p[l] = 0; } return p; }
void sim_free(void *p) {
  if (!p) return;
  Hdr *h = check(p, "release");
  size_t rn = (h->size + 15) & ~(size_t)15; if (!rn) rn = 16;
  arena.frees++; arena.liveBytes -= h->size;
  h->magic = DEAD;
  memset(p, arena.cfg.fill == 0 ? 0xdd : 0xee, rn);
  live.erase((char *)p);
  bins[{(int)h->aligned, rn}].push_back((char *)p);
  POISON(h, sizeof(Hdr)); POISON(p, rn + 16);
}
void *sim_realloc(void *p, size_t n) {
  if (!p) return sim_malloc(n);
  Hdr *h = check(p, "resize");
  size_t old = h->size;
  void *q = get(n, 16, 0); // always moves
  memcpy(q, p, old < n ? old : n);
  sim_free(p);
  return q;
}
void *sim_aligned_alloc(size_t a, size_t n) {
  uint64_t k = ++arena.alignedSeq;
  if (arena.failAlignedFrom && k >= arena.failAlignedFrom && k < arena.failAlignedFrom + arena.failAlignedCount) { arena.alignedRefused++; if (n < arena.minRefused) arena.minRefused = n; return nullptr; }
  if (arena.failAlignedAbove && n > arena.failAlignedAbove) { arena.alignedRefused++; if (n < arena.minRefused) arena.minRefused = n; return nullptr; }
  arena.minRefused = ~0ull;
  return get(n, a, 1);
}
int sim_posix_memalign(void **o, size_t a, size_t n) { *o = sim_aligned_alloc(a, n); return *o ? 0 : 12; }
void *sim_sbrk(intptr_t n) {
  if (n == 0) return brkCur;
  arena.brkCalls++;
  if (n < 0) { brkCur += n; return brkCur - n; }
  if (arena.brkFailAt && arena.brkCalls >= arena.brkFailAt) { arena.brkRefused++; return (void *)-1; }
  if (brkCur + n > BRKBASE + BRKSZ) return (void *)-1;
  char *r = brkCur; brkCur += n;
  fillFresh(r, n);
  return r;
}
}
void arenaForeignBrk(size_t n) { if (brkCur + n < BRKBASE + BRKSZ) { memset(brkCur, 0x77, n); arena.foreign.push_back({brkCur, n}); brkCur += n; arena.foreignMoves++; } }
bool arenaForeignIntact() { for (auto &f : arena.foreign) for (size_t i = 0; i < f.second; i++) if ((unsigned char)f.first[i] != 0x77) return false; return true; }
bool arenaInBrk(void *p, size_t n) { return (char *)p >= BRKBASE && (char *)p + n <= brkCur; }
bool arenaHitsForeign(void *p, size_t n) { for (auto &f : arena.foreign) if ((char *)p < f.first + f.second && (char *)p + n > f.first) return true; return false; }
size_t arenaLiveTagged(int tag) { size_t n = 0; for (auto &e : live) n += e.second == tag; return n; }
std::string arenaDescribeLive(int tag) {
  std::string s; int k = 0;
  for (auto &e : live) if (e.second == tag && k++ < 6) {
    Hdr *h = (Hdr *)(e.first - sizeof(Hdr)); UNPOISON(h, sizeof(Hdr));
    s += " " + std::to_string((size_t)h->size) + "B#" + std::to_string((size_t)h->serial); POISON(h, sizeof(Hdr)); }
  return s;
}
void arenaCheckAll() { std::vector<char*> v; for (auto &e : live) v.push_back(e.first);
  for (char *p : v) { Hdr *h = check(p, "audit"); size_t rn = (h->size + 15) & ~(size_t)15; if (!rn) rn = 16; size_t n = h->size; POISON(h, sizeof(Hdr)); POISON(p + rn, 16); if (rn > n) POISON(p + n, rn - n); } }
