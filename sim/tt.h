// Reference model: Boolean functions over the tracked variables. Up to 12 of them: plain
// truth tables. More ("wide" runs): a minimal decision-diagram package of its own
// (ref.cc: fixed order, no complement edges, no collection); w holds the node number.
#ifndef TT_H
#define TT_H
#include <stdint.h>
#include <vector>
#include <string>
#include <algorithm>
extern int TTN;              // number of tracked bits
extern bool TTW;             // wide: w = { reference node }
uint64_t refVar(int k), refIte(uint64_t f, uint64_t g, uint64_t h), refCof(uint64_t f, int k, bool v), refNot(uint64_t f), refHash(uint64_t f);
bool refDep(uint64_t f, int k); double refFraction(uint64_t f); size_t refSize(uint64_t f); void refReset();
uint64_t refSubst(uint64_t f, const std::vector<uint64_t> &g);
struct TT {
  std::vector<uint64_t> w;
  static size_t words() { return TTN <= 6 ? 1 : (size_t)1 << (TTN - 6); }
  static uint64_t mask() { return TTN >= 6 ? ~0ull : ((1ull << (1 << TTN)) - 1); }
  TT() {}
  explicit TT(bool b) : w(TTW ? 1 : words(), TTW ? b : b ? mask() : 0) {}
  static TT ref(uint64_t n) { TT t; t.w.push_back(n); return t; }
  static TT var(int k) { if (TTW) return ref(refVar(k)); static const uint64_t M[6] = {0xaaaaaaaaaaaaaaaaull,0xccccccccccccccccull,0xf0f0f0f0f0f0f0f0ull,0xff00ff00ff00ff00ull,0xffff0000ffff0000ull,0xffffffff00000000ull};
    TT r(false); for (size_t i = 0; i < r.w.size(); i++) r.w[i] = (k < 6 ? M[k] : ((i >> (k-6)) & 1 ? ~0ull : 0)) & mask(); return r; }
  bool operator==(const TT &o) const { return w == o.w; }
  bool operator!=(const TT &o) const { return w != o.w; }
  bool operator<(const TT &o) const { return w < o.w; }
  TT operator&(const TT &o) const { if (TTW) return ref(refIte(w[0], o.w[0], 0)); TT r = *this; for (size_t i = 0; i < w.size(); i++) r.w[i] &= o.w[i]; return r; }
  TT operator|(const TT &o) const { if (TTW) return ref(refIte(w[0], 1, o.w[0])); TT r = *this; for (size_t i = 0; i < w.size(); i++) r.w[i] |= o.w[i]; return r; }
  TT operator^(const TT &o) const { if (TTW) return ref(refIte(w[0], refNot(o.w[0]), o.w[0])); TT r = *this; for (size_t i = 0; i < w.size(); i++) r.w[i] ^= o.w[i]; return r; }
  TT operator~() const { if (TTW) return ref(refNot(w[0])); TT r = *this; for (auto &x : r.w) x = ~x & mask(); return r; }
  bool zero() const { if (TTW) return w[0] == 0; for (auto x : w) if (x) return false; return true; }
  bool one() const { if (TTW) return w[0] == 1; for (auto x : w) if (x != mask()) return false; return true; }
  bool constant() const { return zero() || one(); }
  bool implies(const TT &o) const { if (TTW) return refIte(w[0], o.w[0], 1) == 1; for (size_t i = 0; i < w.size(); i++) if (w[i] & ~o.w[i]) return false; return true; }
  TT cof(int k, bool v) const {
    if (TTW) return ref(refCof(w[0], k, v));
    TT r = *this;
    if (k < 6) { uint64_t m = var(k).w[0]; int s = 1 << k;
      for (auto &x : r.w) { if (v) { x &= m; x |= x >> s; } else { x &= ~m; x |= x << s; } x &= mask(); } }
    else { size_t s = (size_t)1 << (k-6); for (size_t i = 0; i < w.size(); i++) r.w[i] = w[v ? (i | s) : (i & ~s)]; }
    return r; }
  bool dep(int k) const { if (TTW) return refDep(w[0], k); return cof(k, 0) != cof(k, 1); }
  static TT ite(const TT &f, const TT &g, const TT &h) { if (TTW) return ref(refIte(f.w[0], g.w[0], h.w[0])); return (f & g) | (~f & h); }
  TT exists(int k) const { return cof(k, 0) | cof(k, 1); }
  TT forall(int k) const { return cof(k, 0) & cof(k, 1); }
  TT compose(int k, const TT &g) const { return ite(g, cof(k, 1), cof(k, 0)); }
  bool at(unsigned a) const { return (w[a >> 6] >> (a & 63)) & 1; }
  void set(unsigned a) { w[a >> 6] |= 1ull << (a & 63); }
  double fraction() const { if (TTW) return refFraction(w[0]); uint64_t c = 0; for (auto x : w) c += __builtin_popcountll(x); return (double)c / (double)((uint64_t)1 << TTN); }
  // simultaneous substitution: bit k -> g[k] (g[k] empty = itself)
  TT subst(const std::vector<const TT*> &g) const { if (TTW) { std::vector<uint64_t> v; for (int k = 0; k < TTN; k++) v.push_back(g[k] ? g[k]->w[0] : refVar(k)); return ref(refSubst(w[0], v)); } TT r(false); unsigned n = 1u << TTN;
    for (unsigned a = 0; a < n; a++) { unsigned b = a; for (int k = 0; k < TTN; k++) if (g[k]) { b &= ~(1u << k); if (g[k]->at(a)) b |= 1u << k; } if (at(b)) r.set(a); } return r; }
  uint64_t hash() const { if (TTW) return refHash(w[0]); uint64_t h = 1469598103934665603ull; for (auto x : w) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; }
  size_t size() const { return TTW ? refSize(w[0]) : 0; }
  std::string hex() const { std::string s; char b[64]; if (TTW) { snprintf(b, sizeof b, "function %016llx of %zu nodes", (unsigned long long)refHash(w[0]), refSize(w[0])); return b; } for (size_t i = 0; i < w.size() && i < 4; i++) { snprintf(b, sizeof b, "%016llx", (unsigned long long)w[i]); s += b; } return s; }
};
#endif
