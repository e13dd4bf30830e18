// Workload over the block and record allocators (calMem.c) on a simulated break.
#include "core.h"
#define SIM_NO_REDIRECT
#include "seam.h"
extern "C" {
#include "calMem.h"
}
#undef Cal_MemAlloc
namespace {
struct Blk { unsigned char *p; size_t n; unsigned char pat; int rec; };
struct Rm { Cal_RecMgr m; size_t sz; bool live; };
std::vector<Blk> B; std::vector<Rm> R; unsigned pat = 1;
void paint(Blk &b) { b.pat = (unsigned char)(pat++ * 37 + 11); memset(b.p, b.pat, b.n); }
void intact(const Blk &b, size_t n, const char *when) { for (size_t i = 0; i < n; i++) if (b.p[i] != b.pat) fail("storage-lost", "byte %zu of a %zu byte %s changed (%s)", i, b.n, b.rec >= 0 ? "record" : "block", when); }
void fresh(unsigned char *p, size_t n, const char *what) {
  if (!p) fail("storage-null", "%s of %zu bytes returned null", what, n);
  if ((uintptr_t)p % CAL_ALLOC_ALIGNMENT) fail("storage-align", "%s of %zu bytes is not aligned", what, n);
  if (!arenaInBrk(p, n)) fail("storage-outside", "%s of %zu bytes lies outside the obtained storage", what, n);
  if (arenaHitsForeign(p, n)) fail("storage-foreign", "%s of %zu bytes overlaps storage of another user of the break", what, n);
  for (auto &b : B) if (p < b.p + b.n && b.p < p + n) fail("storage-overlap", "%s of %zu bytes overlaps a live one of %zu bytes", what, n, b.n);
}
size_t sizeFor0(Rng &r) { switch (r.below(6)) { case 0: return 1 + r.below(16); case 1: return 1 + r.below(200); case 2: return ((size_t)1 << r.below(18)) - r.below(2); case 3: return ((size_t)1 << (5 + r.below(12))) - 40 + r.below(20); case 4: return 1 + r.below(5000); default: return 1 + r.below(100000); } }
size_t sizeFor(Rng &r) { long z = (long)sizeFor0(r); return z < 1 ? 1 : z; }
void dropBlk(size_t i) { Blk b = B[i]; intact(b, b.n, "before release"); B.erase(B.begin() + i); if (b.rec >= 0) Cal_MemFreeRec(R[b.rec].m, b.p); else Cal_MemFreeBlock(b.p); }
}
void execMem(const Step &s) {
  Rng r((unsigned)s.a[1] * 7919ull + (unsigned)s.a[2]); arena.tag = 901; uint64_t ref0 = arena.brkRefused;
  if (W.cfg.mode != 2 && (unsigned)s.a[6] % 9 == 0) { arenaForeignBrk(1 + r.below(s.a[6] & 1 ? 200000 : 40)); fault(F_BRKFOREIGN); }
  auto blocks = [&]() { std::vector<int> v; for (size_t i = 0; i < B.size(); i++) if (B[i].rec < 0) v.push_back(i); return v; };
  switch ((unsigned)s.a[0] % 12) {
  case 0: case 1: case 2: { size_t n = sizeFor(r); auto *p = (unsigned char *)Cal_MemGetBlock(n); fresh(p, n, "block"); Blk b{p, n, 0, -1}; paint(b); B.push_back(b); break; }
  case 3: case 4: { auto v = blocks(); if (v.empty()) return; dropBlk(v[r.below(v.size())]); break; }
  case 5: case 6: { auto v = blocks(); if (v.empty()) return; int i = v[r.below(v.size())]; Blk b = B[i]; size_t n = r.p(0.3) ? b.n * 2 + r.below(64) : r.p(0.3) ? 1 + b.n / 2 : sizeFor(r); B.erase(B.begin() + i);
      auto *p = (unsigned char *)Cal_MemResizeBlock(b.p, n); fresh(p, n, "resized block"); Blk c{p, n, b.pat, -1}; intact(c, std::min(n, b.n), "by resizing"); paint(c); B.push_back(c); break; }
  case 7: { auto v = blocks(); if (v.empty() || !r.p(0.3)) { if (Cal_MemGetBlock(0)) fail("storage-null", "a block of size zero was handed out"); Cal_MemFreeBlock(nullptr); auto *p = (unsigned char *)Cal_MemResizeBlock(nullptr, 33); fresh(p, 33, "block"); Blk b{p, 33, 0, -1}; paint(b); B.push_back(b); return; }
      int i = v[r.below(v.size())]; Blk b = B[i]; B.erase(B.begin() + i); if (Cal_MemResizeBlock(b.p, 0)) fail("storage-null", "resizing to zero returned a block"); break; }
  case 8: { size_t z = r.p(0.3) ? 1 + r.below(8) : r.p(0.5) ? 1 + r.below(64) : 1 + r.below(simPageSize / 3); Rm m{Cal_MemNewRecMgr((int)z), z, true}; if (!m.m) fail("storage-null", "no record manager"); R.push_back(m); break; }
  case 9: { std::vector<int> l; for (size_t i = 0; i < R.size(); i++) if (R[i].live) l.push_back(i); if (l.empty()) return; int k = l[r.below(l.size())]; int n = 1 + r.below(60); for (int i = 0; i < n; i++) { auto *p = (unsigned char *)Cal_MemNewRec(R[k].m); fresh(p, R[k].sz, "record"); Blk b{p, R[k].sz, 0, k}; paint(b); B.push_back(b); } break; }
  case 10: { int n = 1 + r.below(40); while (n-- && !B.empty()) { size_t i = r.below(B.size()); if (B[i].rec >= 0) dropBlk(i); } break; }
  default: { std::vector<int> l; for (size_t i = 0; i < R.size(); i++) if (R[i].live) l.push_back(i);
      if (!l.empty() && r.p(0.4)) { int k = l[r.below(l.size())]; for (size_t i = B.size(); i-- > 0;) if (B[i].rec == k) { intact(B[i], B[i].n, "before manager release"); B.erase(B.begin() + i); } Cal_MemFreeRecMgr(R[k].m); R[k].live = false; break; }
      // everything returned: repeating one request sequence must reach a fixpoint in the storage used
      if (!r.p(0.5)) return;
      for (size_t i = B.size(); i-- > 0;) if (B[i].rec < 0) dropBlk(i);
      std::vector<size_t> q; int n = 3 + r.below(20); for (int i = 0; i < n; i++) q.push_back(sizeFor(r)); size_t use[3];
      for (int t = 0; t < 3; t++) { size_t base = B.size(); for (size_t z : q) { auto *p = (unsigned char *)Cal_MemGetBlock(z); fresh(p, z, "block"); Blk b{p, z, 0, -1}; paint(b); B.push_back(b); } while (B.size() > base) dropBlk(base + r.below(B.size() - base)); use[t] = Cal_MemAllocation(); }
      if (use[2] != use[1]) fail("storage-growth", "repeating the same requests after returning everything took %zu more bytes", use[2] - use[1]); break; }
  }
  if (arena.brkRefused != ref0) fail("exhaustion-ignored", "the break was refused but the request was not reported as failed");
  for (auto &b : B) intact(b, b.n, "while live");
  if (!arenaForeignIntact()) fail("storage-foreign", "storage of another user of the break was overwritten");
  mix(B.size()); mix(Cal_MemAllocation());
}
void memEnd() { for (auto &b : B) intact(b, b.n, "at the end"); }
