// Reference decision diagrams for wide runs: a fixed order (tracked bit 0 on top), plain
// nodes without complement edges, everything memoised, nothing ever freed.
#include "core.h"
#include <functional>
bool TTW = false;
namespace {
struct N { int v; uint32_t lo, hi; uint64_t h; };
struct K3 { uint64_t a, b; bool operator==(const K3 &o) const { return a == o.a && b == o.b; } };
struct H3 { size_t operator()(const K3 &k) const { uint64_t x = k.a * 0x9e3779b97f4a7c15ull ^ (k.b + 0x7f4a7c15ull) * 0xbf58476d1ce4e5b9ull; return x ^ (x >> 31); } };
std::vector<N> nd; std::unordered_map<K3, uint32_t, H3> uniq, iteC, cofC; std::vector<std::vector<uint64_t>> sup; std::vector<double> frac;
const int TOP = 1 << 30; const size_t LIMIT = 200000;
uint32_t mk(int v, uint32_t lo, uint32_t hi) {
  if (lo == hi) return lo;
  K3 k{(uint64_t)v, (uint64_t)lo << 32 | hi}; auto it = uniq.find(k); if (it != uniq.end()) return it->second;
  if (nd.size() >= LIMIT) { probe(P_MODEL_FULL); finishOk(); }   // the run ends here; nothing is concluded from it beyond this step
  uint64_t h = ((uint64_t)v + 77) * 0x9e3779b97f4a7c15ull; h ^= nd[lo].h * 0xbf58476d1ce4e5b9ull; h = (h << 27 | h >> 37) + nd[hi].h * 0x94d049bb133111ebull; h ^= h >> 31;
  nd.push_back({v, lo, hi, h}); uint32_t id = nd.size() - 1; uniq.emplace(k, id);
  size_t wn = (TTN + 63) / 64; std::vector<uint64_t> s(wn, 0); for (size_t i = 0; i < wn; i++) s[i] = (sup[lo].empty() ? 0 : sup[lo][i]) | (sup[hi].empty() ? 0 : sup[hi][i]); s[v >> 6] |= 1ull << (v & 63); sup.push_back(s); frac.push_back((frac[lo] + frac[hi]) / 2);
  return id; }
uint32_t ite(uint32_t f, uint32_t g, uint32_t h) {
  if (f == 1) return g; if (f == 0) return h; if (g == h) return g; if (g == 1 && h == 0) return f;
  if (g == f) g = 1; if (h == f) h = 0; if (g == h) return g; if (g == 1 && h == 0) return f;
  K3 k{(uint64_t)f, (uint64_t)g << 32 | h}; auto it = iteC.find(k); if (it != iteC.end()) return it->second;
  int v = std::min(nd[f].v, std::min(nd[g].v, nd[h].v));
  auto c = [&](uint32_t x, bool s) { return nd[x].v != v ? x : s ? nd[x].hi : nd[x].lo; };
  uint32_t a = ite(c(f, 0), c(g, 0), c(h, 0)), b = ite(c(f, 1), c(g, 1), c(h, 1)); uint32_t r = mk(v, a, b); iteC.emplace(k, r); return r; }
uint32_t cof(uint32_t f, int k, bool v) {
  if (nd[f].v > k) return f; if (nd[f].v == k) return v ? nd[f].hi : nd[f].lo;
  if (!(sup[f][k >> 6] >> (k & 63) & 1)) return f;
  K3 q{(uint64_t)f, (uint64_t)k * 2 + v}; auto it = cofC.find(q); if (it != cofC.end()) return it->second;
  uint32_t a = cof(nd[f].lo, k, v), b = cof(nd[f].hi, k, v); uint32_t r = mk(nd[f].v, a, b); cofC.emplace(q, r); return r; }
}
void refReset() { nd.clear(); uniq.clear(); iteC.clear(); cofC.clear(); sup.clear(); frac.clear(); nd.push_back({TOP, 0, 0, 0x1111}); nd.push_back({TOP, 1, 1, 0x2222}); sup.resize(2); frac = {0.0, 1.0}; }
uint64_t refVar(int k) { return mk(k, 0, 1); }
uint64_t refIte(uint64_t f, uint64_t g, uint64_t h) { return ite(f, g, h); }
uint64_t refNot(uint64_t f) { return ite(f, 0, 1); }
uint64_t refCof(uint64_t f, int k, bool v) { return cof(f, k, v); }
uint64_t refHash(uint64_t f) { return nd[f].h; }
bool refDep(uint64_t f, int k) { return f > 1 && (sup[f][k >> 6] >> (k & 63) & 1); }
double refFraction(uint64_t f) { return frac[f]; }
size_t refSize(uint64_t f) { std::set<uint32_t> s; std::vector<uint32_t> st{(uint32_t)f}; while (!st.empty()) { uint32_t x = st.back(); st.pop_back(); if (x < 2 || !s.insert(x).second) continue; st.push_back(nd[x].lo); st.push_back(nd[x].hi); } return s.size(); }
uint64_t refSubst(uint64_t f, const std::vector<uint64_t> &g) {
  std::unordered_map<uint32_t, uint32_t> memo;
  std::function<uint32_t(uint32_t)> rec = [&](uint32_t x) -> uint32_t { if (x < 2) return x; auto it = memo.find(x); if (it != memo.end()) return it->second; uint32_t a = rec(nd[x].lo), b = rec(nd[x].hi), r = ite(g[nd[x].v], b, a); memo.emplace(x, r); return r; };
  return rec(f); }
