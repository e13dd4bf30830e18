#include "core.h"
#include <math.h>
#include <algorithm>
#include <functional>
#define SIM_NO_REDIRECT
#include "seam.h"
const char *opName[] = {"nop","var","const","bin","not","ident","ite","free","multi","pairwise","witness","gc","reorder","dyn","newvar",
  "assoc","assocquit","setcur","temp","tempaug","tempquit","exists","forall","relprod","subst","varsubst","compose","swap",
  "cofactor","reduce","between","support","depends","cube","type","branch","satisfy","satsupp","fraction","size","sizemult",
  "profile","print","pipe","limit","dump","randf","saturate","unfree","gcmode","block","blockre","mgrnew","mgrquit","params",
  "equal","stats","burst","pipedepth","badassoc","nullarg","retry","failpages","corrupt","varlook","churn","formula","steady","stale","crowd","huge","rebirth","bigdump","cpp","mem"};
void auditReclaimed(int k);
int dumpOp(Mgr &M, const Step &s); void bigDump(const Step &s);
static void opSteady(Mgr &M, const Step &s); static void opStale(Mgr &M, const Step &s); static void opCrowd(Mgr &M, const Step &s); static void opHuge(Mgr &M, const Step &s);
static Mgr *cm() { return &W.mg[W.curMgr]; }
static Slot *src(int a) { size_t i = (unsigned)a % W.s.size(); Slot &s = W.s[i]; return s.h && s.mgr == W.curMgr ? &s : nullptr; }
static Slot &dst(int a) { size_t n = W.s.size(), i = (unsigned)a % n, k = W.cfg.keep; if (i < k && W.s[i].h && ((unsigned)a / n) % 16) i = k + ((unsigned)a / n) % (n - k); return W.s[i]; }  // the first slots are long-lived
static void drop(Slot &d) { if (d.h) { W.mg[d.mgr].live ? Cal_BddFree(W.mg[d.mgr].m, d.h) : (void)0; d.h = nullptr; } }
static bool limited(Mgr &M) { return M.nodeLimit > 0; }
// Length of an argument array: short as a rule, sometimes long enough that the
// package has to extend its per-depth request queues (more than 64 arguments).
static int manyArgs(int a, int few, int most) {
  unsigned u = (unsigned)a; unsigned k = u / few; if (W.cfg.bits > 12) return 1 + u % few;  // the intermediate functions of wide ones are too large
  if (k % 12) return 1 + u % few;
  k /= 12; int n = k % 3 ? 20 + k / 3 % 130 : 65 + k / 3 % most; if (n > most) n = most; if (n > 64) probe(P_DEEP_MULTI); return n;
}
// A successful operation that stored at least as many nodes as the package lets pass between two looks at its
// size, without any collection on the way, cannot have left more nodes than the limit allows.
struct LimitWatch { Mgr &M; long before; int gcs; LimitWatch(Mgr &m) : M(m), before(peek_num_nodes(m.m)), gcs(peek_num_gc(m.m)) {}
  Cal_Bdd done(Cal_Bdd h) { 
#ifdef SIM_NO_TUNE
    return h;
#endif
    if (!M.nodeLimit || !W.cfg.natural) return h; long now = peek_num_nodes(M.m); if (h && peek_num_gc(M.m) == gcs && now - before >= simTune.gcCheck) { probe(P_LIMIT_GROWTH); if (now > M.nodeLimit) fail("limit-ignored", "%ld nodes after a successful operation that stored %ld, the limit is %ld", now, now - before, M.nodeLimit); } return h; } };
// store a result; a null is legitimate only when the node limit was hit
static bool put(int a, Cal_Bdd h, const TT &f, const char *what) {
  Mgr &M = *cm();
  if (!h) {
    if (!limited(M)) fail("null-result", "%s returned null although no node limit is set", what);
    if (!Cal_BddOverflow(M.m)) fail("overflow-unreported", "%s returned null without the overflow condition being reported", what);
    probe(P_OVERFLOW_NULL); fault(F_NODELIMIT); mix(77); return false;
  }
  TT got; std::string why;
  if (!evalHandle(M, h, got, &why)) fail("result-broken", "%s: %s", what, why.c_str());
  if (got != f) fail("wrong-result", "%s returned %s, should be %s", what, got.hex().c_str(), f.hex().c_str());
  Slot &d = dst(a); drop(d); d.h = h; d.f = f; d.mgr = W.curMgr; mix(f.hash()); return true;
}
static bool varCreated(Mgr &M, int bit) { return bit < (int)M.bitId.size(); }
static Cal_Bdd varHandle(Mgr &M, int bit) { return M.varH[M.bitId[bit]]; }
static int pickBit(Mgr &M, int a) { return M.bitId.empty() ? -1 : (unsigned)a % M.bitId.size(); }
static const Assoc &curAssoc(Mgr &M) { if (M.cur == -1) return M.temp; for (auto &a : M.assocs) if (a.id == M.cur) return a; return M.temp; }
static void refreshOrder(Mgr &M) { int n = peek_num_vars(M.m); M.order.resize(0); for (int i = 0; i < n; i++) M.order.push_back(peek_index_to_id(M.m, i)); }
static int indexOfBit(Mgr &M, int bit) { return peek_id_to_index(M.m, M.bitId[bit]); }
static int topBit(Mgr &M, const TT &f) { int best = -1; for (size_t b = 0; b < M.bitId.size(); b++) if (f.dep(b) && (best < 0 || indexOfBit(M, b) < indexOfBit(M, best))) best = b; return best; }
void newManager(int k, int nvars) {
  Mgr &M = W.mg[k]; M = Mgr(); M.tag = arena.tag = 100 + k + 1000 * (int)(++W.handleSerial);
  M.m = Cal_BddManagerInit(); M.live = true; M.base = peek_num_nodes(M.m);
  for (int i = 0; i < nvars; i++) { Cal_Bdd h = Cal_BddManagerCreateNewVarLast(M.m); int id = peek_num_vars(M.m); M.varH[id] = h; M.idBit[id] = i; M.bitId.push_back(id); M.order.push_back(id); }
}
void quitManager(int k) {
  Mgr &M = W.mg[k]; if (!M.live) return;
  for (auto &s : W.s) if (s.h && s.mgr == k) s.h = nullptr;
  Cal_BddManagerQuit(M.m); M.live = false;
  size_t left = arenaLiveTagged(M.tag);
  if (left) fail("memory-leak", "%zu blocks of a shut-down manager were never returned:%s", left, arenaDescribeLive(M.tag).c_str());
}
// sub-functions of a set of roots in the current order
struct Prof { std::vector<long> neg, noneg; long sneg = 0, snoneg = 0; };
static Prof profileOf(Mgr &M, const std::vector<TT> &roots) {
  Prof p; int n = peek_num_vars(M.m); p.neg.assign(n + 1, 0); p.noneg.assign(n + 1, 0);
  std::set<TT> seen, seenN; std::vector<TT> st(roots);
  std::vector<int> byIx(n, -1); for (size_t b = 0; b < M.bitId.size(); b++) byIx[indexOfBit(M, b)] = (int)b;
  while (!st.empty()) {
    TT f = st.back(); st.pop_back();
    if (!seen.insert(f).second) continue;
    int ix = n, bit = -1; if (!f.constant()) for (int i = 0; i < n; i++) if (byIx[i] >= 0 && f.dep(byIx[i])) { ix = i; bit = byIx[i]; break; }
    p.noneg[ix]++; p.snoneg++;
    TT g = ~f; if (!seenN.count(g) || g == f) { if (seenN.insert(f).second) { p.neg[ix]++; p.sneg++; } }
    if (bit >= 0) { st.push_back(f.cof(bit, 0)); st.push_back(f.cof(bit, 1)); }
  }
  return p;
}
static std::vector<int> bitsByIndex(Mgr &M) { std::vector<int> v(peek_num_vars(M.m), -1); for (size_t b = 0; b < M.bitId.size(); b++) v[indexOfBit(M, b)] = (int)b; return v; }
// distinct cofactors level by level, as Cal_BddFunctionProfile documents them
static std::vector<long> funcProfileOf(Mgr &M, const std::vector<TT> &roots) {
  int n = peek_num_vars(M.m); std::vector<int> byIx = bitsByIndex(M); std::set<TT> lev(roots.begin(), roots.end()); std::vector<long> out(n, 0);
  for (int i = 0; i < n; i++) { bool dep = false; if (byIx[i] >= 0) for (auto &g : lev) dep |= g.dep(byIx[i]); out[i] = dep ? (long)lev.size() : 0;
    if (byIx[i] >= 0) { std::set<TT> nx; for (auto &g : lev) { nx.insert(g.cof(byIx[i], 0)); nx.insert(g.cof(byIx[i], 1)); } lev.swap(nx); } }
  return out; }
static char nameBuf[64];
static char *nameOf(Cal_BddManager, Cal_Bdd v, Cal_Pointer_t env) { Mgr &M = *(Mgr *)env; for (auto &x : M.varH) if (x.second == v) { snprintf(nameBuf, sizeof nameBuf, "%s%d", x.first & 1 ? "v" : "variable_", x.first); return nameBuf; }
  fail("print", "the naming function was not given a variable"); }
static std::string wantName(Mgr &M, int ix, bool named) { int id = M.order[ix]; char b[64]; if (named) snprintf(b, sizeof b, "%s%d", id & 1 ? "v" : "variable_", id); else snprintf(b, sizeof b, "var.%d", ix); return b; }
// reads a printed diagram back and compares the function it denotes
struct PrintReader { Mgr &M; bool named; std::vector<std::string> l; size_t at = 0; std::map<long, TT> sub; std::vector<int> byIx;
  TT var(const std::string &nm) { for (int i = 0; i < (int)byIx.size(); i++) if (byIx[i] >= 0 && wantName(M, i, named) == nm) return TT::var(byIx[i]); fail("print", "printed diagram names no variable of the function: %s", nm.c_str()); }
  TT read() {
    if (at >= l.size()) fail("print", "printed diagram ends early");
    std::string t = l[at++]; size_t p = t.find_first_not_of(' '); t = p == std::string::npos ? "" : t.substr(p);
    if (t == "0") return TT(false); if (t == "1") return TT(true);
    bool neg = t[0] == '!'; if (neg) t = t.substr(1); long num = -1; int used = 0;
    if (t.compare(0, 11, "subformula ") == 0) { long k = atol(t.c_str() + 11); if (!sub.count(k)) fail("print", "printed diagram refers to subformula %ld before it is shown", k); return neg ? ~sub[k] : sub[k]; }
    if (sscanf(t.c_str(), "%ld: %n", &num, &used) == 1 && used > 0) t = t.substr(used); else num = -1;
    if (t.compare(0, 3, "if ")) { TT v = var(t); return neg ? ~v : v; }
    if (neg) fail("print", "negated branch printed"); std::string nm = t.substr(3); TT v = var(nm), a = read();
    auto line = [&](const std::string &want) { if (at >= l.size()) fail("print", "printed diagram ends early"); std::string u = l[at++]; size_t q = u.find_first_not_of(' '); if (q == std::string::npos || u.substr(q) != want) fail("print", "expected '%s' in the printed diagram, found '%s'", want.c_str(), u.c_str()); };
    line("else if !" + nm); TT b = read(); line("endif " + nm); TT r = (v & a) | (~v & b); if (num >= 0) { if (sub.count(num)) fail("print", "subformula %ld shown twice", num); sub[num] = r; } return r; } };
static std::vector<std::string> linesOf(const std::string &o) { std::vector<std::string> l; size_t p = 0, q; while ((q = o.find('\n', p)) != std::string::npos) { l.push_back(o.substr(p, q - p)); p = q + 1; } if (p < o.size()) l.push_back(o.substr(p)); return l; }
static void checkPrinted(Mgr &M, const TT &f, const std::string &o, bool named) { PrintReader r{M, named, linesOf(o), 0, {}, bitsByIndex(M)}; TT g = r.read(); if (r.at != r.l.size()) fail("print", "text follows the printed diagram"); if (g != f) fail("print", "the printed diagram denotes %s, the function is %s", g.hex().c_str(), f.hex().c_str()); }
static void checkPrintedProfile(Mgr &M, const std::vector<long> &lv, bool leaves, const std::string &o, bool named) {
  std::vector<std::string> l = linesOf(o); size_t at = 0; int n = peek_num_vars(M.m); long total = 0, seen = 0;
  for (int i = 0; i < n; i++) if (lv[i]) { if (at >= l.size()) fail("print", "printed profile ends early"); std::string nm = wantName(M, i, named) + ":"; long c = -1; if (l[at].compare(0, nm.size(), nm) || sscanf(l[at].c_str() + nm.size(), "%ld", &c) != 1 || c != lv[i]) fail("print", "printed profile line '%s', should say %s %ld", l[at].c_str(), nm.c_str(), lv[i]); total += c; at++; }
  long c = -1; if (at >= l.size() || sscanf(l[at].c_str(), "leaf: %ld", &c) != 1 || (leaves && c != lv[n])) fail("print", "printed profile line '%s', should give the leaves", at < l.size() ? l[at].c_str() : ""); total += c; at++;
  if (at >= l.size() || sscanf(l[at].c_str(), "Total: %ld", &seen) != 1 || seen != total) fail("print", "printed profile total '%s', should be %ld", at < l.size() ? l[at].c_str() : "", total); }
static TT readSum(Mgr &M, const std::string &o, size_t &p) {
  auto need = [&](const char *w) { size_t k = strlen(w); if (o.compare(p, k, w)) fail("print", "expected '%s' at %zu of '%s'", w, p, o.c_str()); p += k; };
  need("( "); if (o.compare(p, 2, "0 ") == 0 || o.compare(p, 2, "1 ") == 0) { bool one = o[p] == '1'; p += 2; need(") "); return TT(one); }
  int id = (unsigned char)o[p] - 'a' + 1; auto b = M.idBit.find(id); if (b == M.idBit.end()) fail("print", "sum of products names variable %d", id); TT v = TT::var(b->second); std::string c(1, o[p]); need((c + " ").c_str()); if (o[p] == ' ') p++;
  TT t = readSum(M, o, p); need(("+ " + c + "' ").c_str()); if (o[p] == ' ') p++; TT e = readSum(M, o, p); need(") "); return (v & t) | (~v & e); }
static void checkFunctionPrint(Mgr &M, const TT &f, const std::string &o) { size_t p = 0; if (o.compare(0, 4, "F = ")) fail("print", "function printed as '%s'", o.c_str()); p = 4; TT g = readSum(M, o, p); if (o.compare(p, std::string::npos, "\n")) fail("print", "text follows the printed function"); if (g != f) fail("print", "the printed function denotes %s, the function is %s", g.hex().c_str(), f.hex().c_str()); }
// one selector over two counters modulo small numbers: cheap with the selector on top, their product below it
static TT residueTT(Rng &r, std::vector<int> b) {
  int sel = b.back(); b.pop_back(); if (b.size() > 20) b.resize(20);
  auto count = [&](int m) { std::vector<TT> t(m, TT(false)); t[r.below(m)] = TT(true); if (m > 3 && r.p(0.5)) t[r.below(m)] = TT(true); for (size_t i = b.size(); i-- > 0; ) { int w = 1 + r.below(m - 1); TT v = TT::var(b[i]); std::vector<TT> u(m, TT(false)); for (int j = 0; j < m; j++) u[j] = TT::ite(v, t[(j + w) % m], t[j]); t = u; } return t[0]; };
  int m = 2 + r.below(4), n = m + 1 + r.below(3); TT g = count(m), h = count(n); return TT::ite(TT::var(sel), g, h); }
static TT randTT(Mgr &M, Rng &r, int k, int style) {
  std::vector<int> bits; for (size_t b = 0; b < M.bitId.size(); b++) bits.push_back(b);
  for (size_t i = bits.size(); i > 1; i--) std::swap(bits[i-1], bits[r.below(i)]);
  if ((int)bits.size() > k) bits.resize(k);
  TT f(r.p(0.5));
  if (TTW && r.p(0.45)) { // functions whose diagrams grow with the number of variables
    std::vector<int> b; for (size_t i = 0; i < M.bitId.size(); i++) b.push_back(i); if (r.p(0.3)) for (size_t i = b.size(); i > 1; i--) std::swap(b[i-1], b[r.below(i)]); if (b.size() > 200 && r.p(0.35)) { // odd parity: every node but the first is shared, so the count of shared nodes is known
      size_t k = r.p(0.7) ? std::min<size_t>(b.size(), 254 + r.below(8)) : b.size() - r.below(20); TT g(r.p(0.5)); for (size_t i = k; i-- > 0; ) g = g ^ TT::var(b[i]); if (r.p(0.3)) g = g ^ (TT::var(b[r.below(k)]) & TT::var(b[r.below(k)])); return g; }
    if (b.size() > 48) { size_t at = r.below(b.size() - 47); b = std::vector<int>(b.begin() + at, b.begin() + at + 48); }
    int kind = r.below(4), n = b.size();
    if (kind == 3) { if (n < 6) kind = 2; else { std::swap(b[r.below(n)], b[n - 1]); return residueTT(r, b); } }
    if (kind == 0) { int d = 1 + r.below(std::min(8, n / 2)); TT g(false); for (int i = 0; i + d < n && i < 2 * d + 16; i++) { if ((i / d) & 1) continue; g = r.p(0.5) ? g | (TT::var(b[i]) & TT::var(b[i + d])) : g ^ (TT::var(b[i]) & TT::var(b[i + d])); } return g; }
    if (kind == 1) { int t = 1 + r.below(6); std::vector<TT> c(t + 1, TT(false)); c[0] = TT(true); int m = std::min(n, 30); for (int i = 0; i < m; i++) for (int j = t; j > 0; j--) c[j] = c[j] | (c[j - 1] & TT::var(b[i])); return r.p(0.5) ? c[t] : c[t / 2] & ~c[t]; } // at least t of m
    TT g = TT::var(b[0]); for (int i = 1; i < n && i < 40; i++) { TT v = TT::var(b[i]); g = r.p(0.3) ? (g ^ v) : r.p(0.5) ? (g & v) | (~g & TT::var(b[r.below(i)])) : (g | v) & ~(v & TT::var(b[r.below(i)])); if (g.size() > 300) break; } return g; }
  if (!TTW && bits.size() >= 5 && r.p(0.04)) return residueTT(r, bits);
  if (!TTW && bits.size() >= 3 && r.p(0.15)) { // functions that need a good order: selection by address, sums of products of far pairs
    size_t n = bits.size(), k = n >= 6 ? 1 + r.below(2) : 1; if (n >= 11 && r.p(0.5)) k = 3; TT g(false);
    if (r.p(0.6)) { for (size_t i = 0; i < (1u << k) && k + i < n; i++) { TT c = TT::var(bits[k + i]); for (size_t j = 0; j < k; j++) c = c & ((i >> j & 1) ? TT::var(bits[j]) : ~TT::var(bits[j])); g = g | c; } return r.p(0.5) ? g : ~g; }
    for (size_t i = 0; 2 * i + 1 < n; i++) { TT c = TT::var(bits[i]) & TT::var(bits[i + n / 2]); g = style & 1 ? g ^ c : g | c; } return r.p(0.5) ? g : ~g; }
  if (style == 0) { // random table over the chosen support
    std::function<TT(size_t)> rec = [&](size_t i) -> TT { if (i == bits.size()) return TT(r.p(0.5)); TT a = rec(i+1), b = rec(i+1); return TT::ite(TT::var(bits[i]), a, b); };
    return rec(0);
  }
  int terms = 1 + r.below(style == 1 ? 4 : 12); f = TT(false);
  for (int t = 0; t < terms; t++) { TT c(true); for (int b : bits) { int x = r.below(3); if (x == 0) c = c & TT::var(b); else if (x == 1) c = c & ~TT::var(b); } f = style == 3 ? f ^ c : f | c; }
  return f;
}
// build a table through the public interface; the recursion order is random
static Cal_Bdd buildTT(Mgr &M, Rng &r, const TT &f, std::map<TT, Cal_Bdd> &memo, bool &gaveUp) {
  if (f.zero()) return Cal_BddZero(M.m);
  if (f.one()) return Cal_BddOne(M.m);
  auto it = memo.find(f); if (it != memo.end()) return Cal_BddIdentity(M.m, it->second);
  if (TTW && memo.size() > 3000) { probe(P_MODEL_FULL); finishOk(); }
  int bit = -1; { std::vector<int> c; for (size_t b = 0; b < M.bitId.size(); b++) if (f.dep(b)) c.push_back(b); bit = c[TTW || r.p(0.7) ? 0 : r.below(c.size())]; }
  Cal_Bdd hi = buildTT(M, r, f.cof(bit, 1), memo, gaveUp); if (gaveUp) { if (hi) Cal_BddFree(M.m, hi); return nullptr; }
  Cal_Bdd lo = buildTT(M, r, f.cof(bit, 0), memo, gaveUp); if (gaveUp) { Cal_BddFree(M.m, hi); if (lo) Cal_BddFree(M.m, lo); return nullptr; }
  Cal_Bdd res; int how = r.below(3);
  if (how == 0) res = Cal_BddITE(M.m, varHandle(M, bit), hi, lo);
  else {
    Cal_Bdd nv = Cal_BddNot(M.m, varHandle(M, bit));
    Cal_Bdd a = Cal_BddAnd(M.m, varHandle(M, bit), hi), b = Cal_BddAnd(M.m, nv, lo);
    res = a && b ? (how == 1 ? Cal_BddOr(M.m, a, b) : Cal_BddXor(M.m, a, b)) : nullptr;
    if (a) Cal_BddFree(M.m, a);
    if (b) Cal_BddFree(M.m, b);
    Cal_BddFree(M.m, nv);
  }
  Cal_BddFree(M.m, hi); Cal_BddFree(M.m, lo);
  if (!res) { gaveUp = true; if (!limited(M)) fail("null-result", "building a function returned null although no node limit is set"); Cal_BddOverflow(M.m); return nullptr; }
  memo[f] = Cal_BddIdentity(M.m, res);
  return res;
}
static void opRandf(Mgr &M, const Step &s) {
  Rng r((uint64_t)(unsigned)s.a[1]); int k = std::min<int>(M.bitId.size(), 1 + (unsigned)s.a[2] % 12);
  TT f = randTT(M, r, k, (unsigned)s.a[3] % 4);
  std::map<TT, Cal_Bdd> memo; bool g = false; Cal_Bdd h = buildTT(M, r, f, memo, g);
  for (auto &m : memo) Cal_BddFree(M.m, m.second);
  if (g) { probe(P_OVERFLOW_NULL); return; }
  put(s.a[0], h, f, "function construction");
}
static TT binTT(int k, const TT &x, const TT &y) { switch (k) { case 0: return x & y; case 1: return x | y; case 2: return x ^ y; case 3: return ~(x & y); case 4: return ~(x | y); default: return ~(x ^ y); } }
static Cal_Bdd binCall(Mgr &M, int k, Cal_Bdd x, Cal_Bdd y) { switch (k) { case 0: return Cal_BddAnd(M.m, x, y); case 1: return Cal_BddOr(M.m, x, y); case 2: return Cal_BddXor(M.m, x, y);
  case 3: return Cal_BddNand(M.m, x, y); case 4: return Cal_BddNor(M.m, x, y); default: return Cal_BddXnor(M.m, x, y); } }
static const char *binName[] = {"And","Or","Xor","Nand","Nor","Xnor"};
void execOne(const Step &s);
// Ordinary requests made while a pipeline is open: they must be answered as ever, and must not touch the pipeline.
static void interlude(Mgr &M, Rng &r, int n) {
  static const int Q[] = {O_BIN, O_ITE, O_NOT, O_MULTI, O_MULTI, O_PAIRWISE, O_WITNESS, O_EXISTS, O_FORALL, O_RELPROD, O_SUBST, O_VARSUBST, O_COMPOSE, O_COMPOSE, O_SWAP, O_COFACTOR, O_REDUCE, O_BETWEEN, O_SUPPORT, O_DEPENDS,
    O_SATISFY, O_SATSUPP, O_FRACTION, O_SIZE, O_PROFILE, O_BRANCH, O_NEWVAR, O_ASSOC, O_TEMP, O_SETCUR, O_ASSOCQUIT, O_FREE, O_REORDER, O_STATS, O_VARLOOK, O_DUMP};
  for (int i = 0; i < n; i++) { Step x; x.op = Q[r.below(sizeof Q / sizeof *Q)]; for (auto &a : x.a) a = (int)r.below(1 << 20); syncOrder(M); execOne(x); syncOrder(M); probe(P_PIPE_INTERLUDE); }
}
static void opPipe(Mgr &M, const Step &s) {
  int kind = (unsigned)s.a[0] % 3, n = 1 + (unsigned)s.a[1] % 24, depth = (unsigned)s.a[2] % 8; Rng r((unsigned)s.a[3]); int style = (unsigned)s.a[4];
  std::vector<std::pair<Cal_Bdd, TT>> ops; for (auto &x : W.s) if (x.h && x.mgr == W.curMgr) ops.push_back({x.h, x.f});
  if (ops.empty()) return;
  if (depth) Cal_PipelineSetDepth(M.m, depth == 7 ? 0 : r.p(0.05) ? 7 + (int)r.below(60) : depth); // more than 6 is clipped
  bool odd = r.p(0.1);                      // requests in the wrong phase are refused and change nothing
  if (odd && (Cal_PipelineCreateProvisionalBdd(M.m, ops[0].first, ops[0].first) || Cal_PipelineExecute(M.m) || Cal_PipelineUpdateProvisionalBdd(M.m, ops[0].first))) fail("pipeline-accepted", "a pipeline request was accepted without a pipeline");
  int gc0 = peek_num_gc(M.m); auto ord0 = M.order;
  if (!Cal_PipelineInit(M.m, (Cal_BddOp_t)kind)) fail("pipeline-refused", "a pipeline could not be initialised");
  struct Hold { Mgr &M; std::vector<Cal_Bdd> h; ~Hold() { for (auto x : h) Cal_BddFree(M.m, x); } } hold{M, {}};  // the operands stay acquired until the pipeline ends
  size_t base = ops.size(); std::vector<std::pair<Cal_Bdd, TT>> prov; std::map<Cal_Bdd, int> level;
  int act = (style >> 2) & 15; bool deep = act == 5 && r.p(0.3); if (deep) { n = 250 + r.below(20); style = 3; }
  for (int i = 0; i < n; i++) {
    auto pick = [&](void) -> std::pair<Cal_Bdd, TT> {
      if (!prov.empty() && r.p(style & 1 ? 0.8 : 0.4)) return deep ? prov.back() : prov[style & 2 ? prov.size() - 1 - r.below(std::min<size_t>(3, prov.size())) : r.below(prov.size())];
      return ops[r.below(base)]; };
    auto x = pick(), y = pick(); if (deep && i) x = prov.back();
    // a complemented operand is an ordinary handle operation
    Cal_Bdd xh = x.first; TT xf = x.second; bool neg = r.p(0.2);
    if (neg) { xh = Cal_BddNot(M.m, xh); xf = ~xf; }
    Cal_Bdd p = Cal_PipelineCreateProvisionalBdd(M.m, xh, y.first);
    if (neg) Cal_BddFree(M.m, xh);
    int lv = 0; for (Cal_Bdd o : {x.first, y.first}) if (level.count(o)) lv = std::max(lv, level[o] + 1);
    if (!p && lv >= 256) { probe(P_PIPE_DEEP); continue; } // the pipeline accepts 256 dependent levels
    if (!p) fail("pipeline-refused", "provisional operation %d was refused", i);
    level[p] = lv;
    if (!Cal_BddIsProvisional(M.m, p)) fail("pipeline-flag", "a provisional handle is not reported as provisional");
    prov.push_back({p, binTT(kind, xf, y.second)});
  }
  if (odd && !prov.empty() && (Cal_PipelineInit(M.m, (Cal_BddOp_t)((kind + 1) % 3)) || Cal_PipelineUpdateProvisionalBdd(M.m, prov[0].first))) fail("pipeline-accepted", "a second pipeline or an update before execution was accepted");
  if (act == 1) { Cal_BddManagerGC(M.m); fault(F_EXPGC); }
  if (act == 3) { int t = 1 + r.below(2), m = r.below(2); fault(F_EXPREORDER); W.orderMayChange = true; Cal_BddDynamicReordering(M.m, t, m); Cal_BddReorder(M.m); Cal_BddDynamicReordering(M.m, M.tech, M.meth); }
  if (act == 4) for (int i = 0; i < 3; i++) { auto a = ops[r.below(base)], b = ops[r.below(base)]; Cal_Bdd h = Cal_BddXor(M.m, a.first, b.first); if (h) Cal_BddFree(M.m, h); else if (!limited(M)) fail("pipeline-failed", "an operation between creation and execution returned null"); }
  int between = r.below(4) ? 0 : 1 + r.below(4);   // the results must survive until they are asked for
  if (act >= 6 && act <= 8 || between == 4) for (auto &o : ops) hold.h.push_back(Cal_BddIdentity(M.m, o.first));
  if (act >= 6 && act <= 8) interlude(M, r, 1 + r.below(4));
  if (act == 2) { Cal_PipelineQuit(M.m); fault(F_PIPEABANDON); return; }
  int k0 = W.curMgr; bool leave = W.cfg.prop == "P17" && hold.h.empty() && act >= 9 && act <= 10 && r.p(0.25);   // the manager is shut down with its pipeline open
  if (leave && act == 9) { fault(F_PIPEABANDON); probe(P_QUIT_DIRTY); quitManager(k0); return; }
  int ok = Cal_PipelineExecute(M.m);
  if (peek_num_gc(M.m) != gc0) probe(P_PIPE_GC);
  { std::vector<int> o; for (int i = 0; i < peek_num_vars(M.m); i++) o.push_back(peek_index_to_id(M.m, i)); if (o != ord0) probe(P_PIPE_REORDER); }
  if (!ok) { if (!limited(M)) fail("pipeline-failed", "pipeline execution failed although no node limit is set"); Cal_BddOverflow(M.m); probe(P_OVERFLOW_NULL); Cal_PipelineQuit(M.m); return; }
  if (leave) { fault(F_PIPEABANDON); probe(P_QUIT_DIRTY); quitManager(k0); return; }
  if (odd && (Cal_PipelineExecute(M.m) || Cal_PipelineCreateProvisionalBdd(M.m, ops[0].first, ops[0].first) || Cal_PipelineInit(M.m, (Cal_BddOp_t)((kind + 1) % 3)))) fail("pipeline-accepted", "an executed pipeline accepted more requests");
  std::vector<std::pair<Cal_Bdd, TT>> res;
  for (size_t i = 0; i < prov.size(); i++) if (i + 1 == prov.size() || r.p(0.5)) {
    if (between == 1 && r.p(0.3)) { Cal_BddManagerGC(M.m); fault(F_EXPGC); }
    if (between == 2 && r.p(0.3)) { auto a = ops[r.below(base)], b = ops[r.below(base)]; Cal_Bdd h = Cal_BddXor(M.m, a.first, b.first); if (h) Cal_BddFree(M.m, h); else if (!limited(M)) fail("pipeline-failed", "an operation between execution and update returned null"); else Cal_BddOverflow(M.m); }
    if (between == 3 && r.p(0.2)) { int t = 1 + r.below(2), m = r.below(2); fault(F_EXPREORDER); W.orderMayChange = true; Cal_BddDynamicReordering(M.m, t, m); Cal_BddReorder(M.m); Cal_BddDynamicReordering(M.m, M.tech, M.meth); }
    if (between == 4 && r.p(0.4)) interlude(M, r, 1 + r.below(2));
    if (r.p(0.1)) { Cal_Bdd np = Cal_BddNot(M.m, prov[i].first), u = Cal_PipelineUpdateProvisionalBdd(M.m, np); Cal_BddFree(M.m, np); if (!u) fail("pipeline-null", "updating a negated provisional handle returned null"); res.push_back({u, ~prov[i].second}); }
    Cal_Bdd u = Cal_PipelineUpdateProvisionalBdd(M.m, prov[i].first);
    if (!u) fail("pipeline-null", "updating a provisional handle returned null");
    res.push_back({u, prov[i].second}); }
  Cal_PipelineQuit(M.m);
  for (size_t i = 0; i < res.size(); i++) {
    TT got; std::string why;
    if (!evalHandle(M, res[i].first, got, &why)) fail("result-broken", "pipelined operation: %s", why.c_str());
    if (got != res[i].second) fail("wrong-result", "pipelined %s denotes %s, should be %s", binName[kind], got.hex().c_str(), res[i].second.hex().c_str());
    if (i + 1 == res.size() || (i % 4 == 0 && i < 12)) put(s.a[5] + (int)i, res[i].first, res[i].second, "pipelined operation"); else Cal_BddFree(M.m, res[i].first);
  }
}
static void opAssoc(Mgr &M, const Step &s) {
  bool pairs = s.a[0] & 1; Rng r((unsigned)s.a[1]); int style = (unsigned)s.a[2] % 4; // which list
  std::vector<Cal_Bdd> arr; std::map<int, TT> mp; std::vector<int> bits; for (size_t b = 0; b < M.bitId.size(); b++) bits.push_back(b);
  for (size_t i = bits.size(); i > 1; i--) std::swap(bits[i-1], bits[r.below(i)]);
  int n = (unsigned)s.a[3] % (bits.size() + 1); std::vector<Slot*> live; for (auto &x : W.s) if (x.h && x.mgr == W.curMgr) live.push_back(&x);
  for (int i = 0; i < n; i++) {
    int b = bits[i]; arr.push_back(varHandle(M, b));
    if (pairs) {
      if (style == 0 || live.empty()) { int t = r.below(M.bitId.size()); arr.push_back(varHandle(M, t)); mp[b] = TT::var(t); }        // variable for variable
      else if (style == 1) { int t = bits[(i + 1) % n]; arr.push_back(varHandle(M, t)); mp[b] = TT::var(t); }                    // permutation
      else { Slot *x = live[r.below(live.size())]; arr.push_back(x->h); mp[b] = x->f; }
    } else mp[b] = TT(true);
  }
  if (!mp.empty() && r.p(0.15)) { // a variable listed twice: the later entry counts
    int b = bits[r.below(n)]; arr.push_back(varHandle(M, b)); if (pairs) { Slot *x = live.empty() ? nullptr : live[r.below(live.size())]; int t = r.below(M.bitId.size()); arr.push_back(x ? x->h : varHandle(M, t)); mp[b] = x ? x->f : TT::var(t); } }
  arr.push_back(nullptr);
  auto applyTo = [&](Assoc &A) { for (auto &e : mp) A.map[e.first] = e.second; A.pairs = true; };
  if (s.op == O_TEMP || s.op == O_TEMPAUG) {
    if (s.op == O_TEMP) { if (!M.temp.map.empty()) probe(P_TEMP_REDEF); M.temp = Assoc(); Cal_TempAssociationInit(M.m, arr.data(), pairs); }
    else Cal_TempAssociationAugment(M.m, arr.data(), pairs);
    applyTo(M.temp); M.temp.pairs = true; return;
  }
  int id = Cal_AssociationInit(M.m, arr.data(), pairs); mix(id);
  for (auto &A : M.assocs) if (A.map == mp) {
    if (A.id != id) fail("association-id", "the same association got identifier %d, existing one is %d", id, A.id);
    A.refs++; return; }
  for (auto &A : M.assocs) if (A.id == id) fail("association-id", "two different associations share identifier %d", id);
  if (id < 0) fail("association-id", "a valid association was refused (%d)", id);
  Assoc A; A.id = id; A.refs = 1; applyTo(A); M.assocs.push_back(A);
}
static void opQuery(Mgr &M, const Step &s) {
  Slot *x = src(s.a[0]); if (!x) return; TT f = x->f; int n = peek_num_vars(M.m); (void)n;
  switch (s.op) {
  case O_SUPPORT: { std::vector<Cal_Bdd> v(n + 2, (Cal_Bdd)1); Cal_BddSupport(M.m, x->h, v.data()); std::set<int> got, want;
    for (size_t b = 0; b < M.bitId.size(); b++) if (f.dep(b)) want.insert(b);
    int last = -1;
    for (int i = 0; v[i]; i++) { if (i > n) fail("support", "support list not terminated"); TT t; std::string why; if (!evalHandle(M, v[i], t, &why)) fail("support", "support element: %s", why.c_str());
      int hit = -1; for (size_t b = 0; b < M.bitId.size(); b++) if (t == TT::var(b)) hit = b; if (hit < 0) fail("support", "support contains a non-variable"); got.insert(hit); (void)last; Cal_BddFree(M.m, v[i]); }
    if (got != want) fail("support", "support has %zu variables, should have %zu", got.size(), want.size()); mix(got.size()); break; }
  case O_DEPENDS: { int b = pickBit(M, s.a[1]); int d = Cal_BddDependsOn(M.m, x->h, varHandle(M, b)); if (!!d != f.dep(b)) fail("depends", "dependence on a variable reported as %d", d); mix(d); break; }
  case O_CUBE: { if (f.zero()) break; int c = Cal_BddIsCube(M.m, x->h); bool want = true; TT g = f;
      for (size_t b = 0; b < M.bitId.size() && want; b++) if (g.dep(b)) { TT p = g.cof(b, 1), q = g.cof(b, 0); if (p.zero()) g = q; else if (q.zero()) g = p; else want = false; }
      if (!!c != want) fail("cube", "cube test returned %d for a function that is%s a cube", c, want ? "" : " not"); mix(c); break; }
  case O_TYPE: { int t = Cal_BddType(M.m, x->h), want = CAL_BDD_TYPE_NONTERMINAL; if (f.zero()) want = CAL_BDD_TYPE_ZERO; if (f.one()) want = CAL_BDD_TYPE_ONE;
      for (size_t b = 0; b < M.bitId.size(); b++) { if (f == TT::var(b)) want = CAL_BDD_TYPE_POSVAR; if (f == ~TT::var(b)) want = CAL_BDD_TYPE_NEGVAR; }
      if (t != want) fail("type", "type %d reported, should be %d", t, want); 
      if (Cal_BddIsBddOne(M.m, x->h) != (int)f.one() || Cal_BddIsBddZero(M.m, x->h) != (int)f.zero() || Cal_BddIsBddConst(M.m, x->h) != (int)f.constant() || Cal_BddIsBddNull(M.m, x->h)) fail("const-test", "constant tests disagree with the function");
      mix(t); break; }
  case O_BRANCH: { if (f.constant()) { if (Cal_BddGetIfIndex(M.m, x->h) != (Cal_BddId_t)-1 || Cal_BddGetIfId(M.m, x->h) != 0) fail("branch", "a constant has a top variable"); int w = (unsigned)s.a[1] % 4; if (w < 3) { Cal_Bdd h = w == 0 ? Cal_BddIf(M.m, x->h) : w == 1 ? Cal_BddThen(M.m, x->h) : Cal_BddElse(M.m, x->h); if (h) fail("branch", "%s of a constant is not the null handle", w == 0 ? "If" : w == 1 ? "Then" : "Else"); } break; } int w = (unsigned)s.a[1] % 4; Cal_Bdd h;
      if (w == 3) { int ix = Cal_BddGetIfIndex(M.m, x->h); int b = topBit(M, f); if (ix != indexOfBit(M, b)) fail("branch", "top index %d, should be %d", ix, indexOfBit(M, b));
        int id = Cal_BddGetIfId(M.m, x->h); b = topBit(M, f); if (id != M.bitId[b]) fail("branch", "top variable %d, should be %d", id, M.bitId[b]); break; }
      h = w == 0 ? Cal_BddIf(M.m, x->h) : w == 1 ? Cal_BddThen(M.m, x->h) : Cal_BddElse(M.m, x->h);
      int b = topBit(M, f); TT want = w == 0 ? TT::var(b) : f.cof(b, w == 1);
      put(s.a[2], h, want, w == 0 ? "If" : w == 1 ? "Then" : "Else"); break; }
  case O_SATISFY: case O_SATSUPP: { if (f.zero()) { Cal_Bdd h = s.op == O_SATISFY ? Cal_BddSatisfy(M.m, x->h) : Cal_BddSatisfySupport(M.m, x->h); if (!h || !Cal_BddIsBddZero(M.m, h)) fail("satisfy", "the constant false has a satisfying assignment"); break; }
      Cal_Bdd h = s.op == O_SATISFY ? Cal_BddSatisfy(M.m, x->h) : Cal_BddSatisfySupport(M.m, x->h); if (!h) fail("null-result", "satisfying assignment returned null");
      TT g; std::string why; if (!evalHandle(M, h, g, &why)) fail("result-broken", "satisfying assignment: %s", why.c_str());
      if (g.zero() || !g.implies(f)) fail("satisfy", "satisfying assignment does not satisfy the function");
      TT c = g; for (size_t b = 0; b < M.bitId.size(); b++) if (c.dep(b)) { TT p = c.cof(b, 1), q = c.cof(b, 0); if (p.zero()) c = q; else if (q.zero()) c = p; else fail("satisfy", "satisfying assignment is not a cube"); }
      if (s.op == O_SATSUPP) for (auto &e : curAssoc(M).map) if (!g.dep(e.first)) fail("satisfy", "satisfying assignment leaves out an associated variable");
      put(s.a[2], h, g, "satisfying assignment"); break; }
  case O_FRACTION: { double d = Cal_BddSatisfyingFraction(M.m, x->h); if (fabs(d - f.fraction()) > 1e-12) fail("fraction", "satisfying fraction %.17g, should be %.17g", d, f.fraction()); obs("fraction %.17g", d); break; }
  case O_SIZE: { int neg = s.a[1] & 1; long z = Cal_BddSize(M.m, x->h, neg); Prof p = profileOf(M, {f}); long want = neg ? p.sneg : p.snoneg; if (z != want) fail("size", "size(negout=%d) %ld, should be %ld", neg, z, want); obs("size %ld", z); break; }
  case O_SIZEMULT: case O_PROFILE: case O_PRINT: {
      std::vector<Cal_Bdd> v; std::vector<TT> fs; Rng r((unsigned)s.a[2]); for (auto &y : W.s) if (y.h && y.mgr == W.curMgr && r.p(0.5)) { v.push_back(y.h); fs.push_back(y.f); }
      if (v.empty()) { v.push_back(x->h); fs.push_back(f); } v.push_back(nullptr); int neg = s.a[1] & 1;
      if (s.op == O_SIZEMULT) { long z = Cal_BddSizeMultiple(M.m, v.data(), neg); Prof p = profileOf(M, fs); long want = neg ? p.sneg : p.snoneg; if (z != want) fail("size", "size of %zu functions (negout=%d) %ld, should be %ld", fs.size(), neg, z, want); obs("sizem %ld", z); break; }
      if (s.op == O_PROFILE) {
        int which = ((unsigned)s.a[3]) % 4; std::vector<long> lc(n + 8, -7);
        if (which == 0) Cal_BddProfile(M.m, x->h, lc.data(), neg); else if (which == 1) Cal_BddProfileMultiple(M.m, v.data(), lc.data(), neg);
        else if (which == 2) Cal_BddFunctionProfile(M.m, x->h, lc.data()); else Cal_BddFunctionProfileMultiple(M.m, v.data(), lc.data());
        if (lc[n + 1] != -7) fail("profile", "level counts written past their end");
        if (which < 2) { Prof p = profileOf(M, which == 0 ? std::vector<TT>{f} : fs); for (int i = 0; i <= n; i++) { long want = neg ? p.neg[i] : p.noneg[i]; if (lc[i] != want) fail("profile", "level %d has %ld nodes (negout=%d), should have %ld", i, lc[i], neg, want); } }
        else { std::vector<long> want = funcProfileOf(M, which == 2 ? std::vector<TT>{f} : fs); for (int i = 0; i <= n; i++) if (i < n && lc[i] != want[i]) fail("funcprofile", "function profile entry %d is %ld, should be %ld", i, lc[i], want[i]); }
        std::string o; for (int i = 0; i <= n; i++) o += std::to_string(lc[i]) + " "; obs("profile%d %s", which, o.c_str()); break; }
      char *buf = nullptr; size_t len = 0; FILE *fp = open_memstream(&buf, &len); int which = (unsigned)s.a[3] % 6; int line = 20 + (unsigned)s.a[2] % 60;
      Cal_VarNamingFn_t nf = s.a[1] & 2 ? nameOf : nullptr; Cal_Pointer_t env = nf ? (Cal_Pointer_t)&M : nullptr;
      switch (which) { case 0: case 1: Cal_BddPrintBdd(M.m, x->h, nf, Cal_BddTerminalIdFnNone, env, fp); break; case 2: Cal_BddPrintProfile(M.m, x->h, nf, (char *)env, line, fp); break;
        case 3: Cal_BddPrintProfileMultiple(M.m, v.data(), nf, (char *)env, line, fp); break; case 4: Cal_BddPrintFunctionProfile(M.m, x->h, nf, (char *)env, line, fp); break;
        default: Cal_BddPrintFunctionProfileMultiple(M.m, v.data(), nf, (char *)env, line, fp); }
      fclose(fp); obs("print%d %s", which, std::string(buf, len).c_str()); if (len == 0) fail("print", "printing produced no output");
      { std::string out(buf, len); ::free(buf); syncOrder(M);
        if (which < 2) checkPrinted(M, f, out, nf);
        else { std::vector<TT> roots = which == 2 || which == 4 ? std::vector<TT>{f} : fs; std::vector<long> lv = which < 4 ? profileOf(M, roots).neg : funcProfileOf(M, roots); checkPrintedProfile(M, lv, which < 4, out, nf); } }
      if (which == 1 && n <= 26 && (!TTW || f.size() <= 16)) { fflush(stdout); W.out.clear(); W.catchOut = true; Cal_BddFunctionPrint(M.m, x->h, (char *)"F"); fflush(stdout); W.catchOut = false; checkFunctionPrint(M, f, W.out); }
      break; }
  }
}
static void opBlock(Mgr &M, const Step &s) {
  int n = peek_num_vars(M.m); if (n < 1) return; int first = (unsigned)s.a[0] % n, len = 1 + (unsigned)s.a[1] % n; if (first + len > n) len = n - first;
  int id = M.order[first]; std::set<int> ids; std::vector<int> ord; for (int i = first; i < first + len; i++) { ids.insert(M.order[i]); ord.push_back(M.order[i]); }
  for (auto &b : M.blocks) { size_t common = 0; for (int x : ids) common += b.ids.count(x); if (common && !(common == b.ids.size() || common == ids.size())) return; if (common == ids.size() && common == b.ids.size()) return; }
  Block b; b.ids = ids; b.order = ord; b.re = false; long given = len; if (first + len == n && s.a[3] % 3 == 0) given += 1 + (unsigned)s.a[3] % 9; else if (len == 1 && s.a[3] % 3 == 1) given = -(long)((unsigned)s.a[3] % 3); // out-of-range lengths are clipped
  b.b = Cal_BddNewVarBlock(M.m, M.varH[id], given); if (!b.b) fail("block", "block refused");
  if (s.a[2] & 1) { Cal_BddVarBlockReorderable(M.m, b.b, 1); b.re = true; }
  M.blocks.push_back(b);
}
static void opNewvar(Mgr &M, const Step &s) {
  int n = peek_num_vars(M.m); int kind = (unsigned)s.a[0] % 4, want; Cal_Bdd h; arena.tag = M.tag; int mx = peek_max_vars(M.m);
  if (kind >= 2 && n == 0) kind = 0;
  if (kind == 0) { want = 0; h = Cal_BddManagerCreateNewVarFirst(M.m); } else if (kind == 1) { want = n; h = Cal_BddManagerCreateNewVarLast(M.m); }
  else { int ix = (unsigned)s.a[1] % n; Cal_Bdd ref = M.varH[M.order[ix]]; want = kind == 2 ? ix : ix + 1;
    if (s.a[3] % 8 == 3) { Slot *x = src(s.a[1]); if (x) { ref = x->h; if (x->f.constant()) want = n; else { int i2 = indexOfBit(M, topBit(M, x->f)); want = kind == 2 ? i2 : i2 + 1; } } } // next to the top variable of any function; a constant stands below all
    else if (s.a[3] % 16 == 5) { ref = s.a[1] & 1 ? Cal_BddOne(M.m) : Cal_BddZero(M.m); want = n; }
    h = kind == 2 ? Cal_BddManagerCreateNewVarBefore(M.m, ref) : Cal_BddManagerCreateNewVarAfter(M.m, ref); }
  if (!h) fail("newvar", "creating a variable returned null");
  if (peek_num_vars(M.m) != n + 1 || Cal_BddVars(M.m) != n + 1) fail("newvar", "variable count is %ld after creating variable %d", Cal_BddVars(M.m), n + 1);
  Edge e = peek_internal(M.m, h); int id = e.id; if (M.varH.count(id)) fail("newvar", "identifier %d given twice", id);
  if (peek_max_vars(M.m) != mx) probe(P_TABLE_GROW);
  fault(F_NEWVAR);
  if ((int)M.bitId.size() < TTN && !(s.a[2] & 1)) { M.idBit[id] = M.bitId.size(); M.bitId.push_back(id); } else M.untracked.insert(id);
  M.varH[id] = h; M.order.insert(M.order.begin() + want, id);
  // blocks surrounding the insertion point absorb the new variable
  for (auto &b : M.blocks) { std::vector<int> pos; for (size_t i = 0; i < M.order.size(); i++) if (b.ids.count(M.order[i])) pos.push_back(i);
    if (pos.front() < want && want < pos.back()) { b.ids.insert(id); b.order.clear(); for (int i = pos.front(); i <= pos.back(); i++) b.order.push_back(M.order[i]); } }
  for (int i = 0; i <= n; i++) { Cal_Bdd v = Cal_BddManagerGetVarWithIndex(M.m, i); if (v != M.varH[M.order[i]]) fail("newvar", "after creating a variable at %d, index %d holds the wrong variable", want, i); Cal_BddFree(M.m, v); }
}
static TT assocSubst(Mgr &M, const TT &f) { std::vector<const TT*> g(TTN, nullptr); const Assoc &A = curAssoc(M); for (auto &e : A.map) g[e.first] = &e.second; return f.subst(g); }
static void lockedCb(void *c, Edge, Edge, Edge, unsigned rc) { if (rc == 255) ++*(long *)c; }
// the statistics report describes the manager as it is (lines it does not print are not asked for)
static void checkStats(Mgr &M, const std::string &t) {
  auto line = [&](const char *name, const std::string &want) { size_t p = t.find(name); if (p == std::string::npos) return; p += strlen(name); while (p < t.size() && (t[p] == ' ' || t[p] == ':')) p++; size_t e = p; while (e < t.size() && !strchr(" \n,", t[e])) e++; std::string got = t.substr(p, e - p); if (got != want) fail("statistics", "%s: %s reported, should be %s", name, got.c_str(), want.c_str()); };
  long locked = 0; for (int i = 1; i <= peek_num_vars(M.m); i++) peek_walk(M.m, i, lockedCb, &locked);
  line("Node limit", std::to_string(M.nodeLimit)); line("Garbage collection enabled", M.gcOff ? "no" : "yes"); line("Dynamic reordering of BDDs enabled", M.tech ? "yes" : "no");
  line("Total BDD Node Usage", std::to_string(Cal_BddManagerGetNumNodes(M.m))); line("Total Number of variables", std::to_string(Cal_BddVars(M.m))); line("Number of nodes locked", std::to_string(locked)); }
void execOne(const Step &s);
// A manager is shut down and another started in its place, over and over: the same building steps
// with other operators, so addresses (and every counter) come back with other functions behind
// them, and the same questions asked last before and first after the change.
static void opRebirth(const Step &s) {
  if (TTW) return;
  static const int qs[] = {O_FRACTION, O_SUPPORT, O_SIZE, O_SATISFY, O_SATSUPP, O_DEPENDS, O_CUBE, O_TYPE, O_BRANCH, O_SIZEMULT, O_PROFILE, O_PRINT, O_COFACTOR, O_BETWEEN, O_REDUCE, O_SWAP, O_ITE, O_BIN, O_WITNESS, O_EXISTS, O_SUBST, O_COMPOSE, O_EQUAL, O_DUMP, O_MULTI, O_PAIRWISE, O_FORALL, O_RELPROD, O_VARSUBST, O_PIPE, O_TEMP, O_ASSOC};
  int k = (unsigned)s.a[0] % W.mg.size(); if (W.mg[k].live) quitManager(k);
  int n = std::min({TTN, 1 + (int)((unsigned)s.a[1] % 5)}), lives = 2 + (unsigned)s.a[2] % 2, ns = std::min<int>(3, W.s.size()); bool perm = s.a[5] & 1;
  arenaMark();
  for (int life = 0; life < lives; life++) {
    newManager(k, n); W.curMgr = k; arena.tag = W.mg[k].tag; Rng shape((unsigned)s.a[3]), fill((unsigned)s.a[4] * 8 + life);
    std::vector<Slot> v; for (int b = 0; b < n; b++) { Slot z; z.f = TT::var(perm ? (b + life) % n : b); z.h = W.mg[k].varH[W.mg[k].bitId[perm ? (b + life) % n : b]]; v.push_back(z); }
    int steps = 2 + shape.below(7);
    for (int i = 0; i < steps; i++) { size_t x = shape.below(v.size()), y = shape.p(0.5) ? v.size() - 1 : shape.below(v.size()); int op; static const int like[] = {0, 1, 3, 4}; if (shape.p(0.3)) op = fill.p(0.5) ? 2 : 5; else op = like[fill.below(4)]; Slot z; z.f = binTT(op, v[x].f, v[y].f); z.h = binCall(W.mg[k], op, v[x].h, v[y].h);
      TT g; std::string why; if (!z.h || !evalHandle(W.mg[k], z.h, g, &why) || g != z.f) fail("wrong-result", "%s in a fresh manager: %s instead of %s", binName[op], g.hex().c_str(), z.f.hex().c_str()); v.push_back(z); }
    for (size_t i = n; i < v.size(); i++) if ((int)(v.size() - 1 - i) < ns) put((int)(v.size() - 1 - i), v[i].h, v[i].f, "combination"); else Cal_BddFree(W.mg[k].m, v[i].h);
    Rng q((unsigned)s.a[6]); int nq = 3 + q.below(9);
    for (int i = 0; i < nq; i++) { Step z; z.op = qs[q.below(sizeof qs / sizeof *qs)]; for (auto &a : z.a) a = (int)(q.below(1 << 14) * W.s.size() + (q.p(0.4) ? 0 : q.below(ns))); execOne(z); if (!W.mg[k].live) return; }
    if (life + 1 < lives) { quitManager(k); if (s.a[5] & 6) arenaRewind(); }
  }
}
void execOne(const Step &s) {
  if (s.op == O_MEM) { execMem(s); return; }
  Mgr &M = *cm(); if (!M.live && s.op != O_MGRNEW) return;
  arena.tag = M.tag;
  switch (s.op) {
  case O_VAR: { int b = pickBit(M, s.a[1]); if (b < 0) return; Cal_Bdd h; if (s.a[2] & 1) h = Cal_BddManagerGetVarWithId(M.m, M.bitId[b]); else h = Cal_BddManagerGetVarWithIndex(M.m, indexOfBit(M, b)); put(s.a[0], h, TT::var(b), "variable lookup"); break; }
  case O_VARLOOK: { int n = peek_num_vars(M.m); for (int i = 0; i < n; i++) { Cal_Bdd v = Cal_BddManagerGetVarWithIndex(M.m, i); if (v != M.varH[M.order[i]]) fail("varlookup", "index %d returns the wrong variable", i); Cal_BddFree(M.m, v);
        v = Cal_BddManagerGetVarWithId(M.m, M.order[i]); if (v != M.varH[M.order[i]]) fail("varlookup", "identifier %d returns the wrong variable", M.order[i]); Cal_BddFree(M.m, v); }
      if (Cal_BddManagerGetVarWithIndex(M.m, n) || Cal_BddManagerGetVarWithId(M.m, n + 1) || Cal_BddManagerGetVarWithId(M.m, 0)) fail("varlookup", "a variable that does not exist was returned"); break; }
  case O_CONST: put(s.a[0], s.a[1] & 1 ? Cal_BddOne(M.m) : Cal_BddZero(M.m), TT((bool)(s.a[1] & 1)), "constant"); break;
  case O_BIN: { Slot *x = src(s.a[2]), *y = src(s.a[3]); if (!x || !y) return; int k = (unsigned)s.a[1] % 6; TT f = binTT(k, x->f, y->f); LimitWatch lw(M); put(s.a[0], lw.done(binCall(M, k, x->h, y->h)), f, binName[k]); break; }
  case O_NOT: { Slot *x = src(s.a[1]); if (!x) return; TT f = ~x->f; put(s.a[0], Cal_BddNot(M.m, x->h), f, "Not"); break; }
  case O_IDENT: { Slot *x = src(s.a[1]); if (!x) return; TT f = x->f; put(s.a[0], Cal_BddIdentity(M.m, x->h), f, "Identity"); break; }
  case O_ITE: { Slot *x = src(s.a[1]), *y = src(s.a[2]), *z = src(s.a[3]); if (!x || !y || !z) return; TT f = TT::ite(x->f, y->f, z->f); LimitWatch lw(M); put(s.a[0], lw.done(Cal_BddITE(M.m, x->h, y->h, z->h)), f, "ITE"); break; }
  case O_FREE: { Slot *x = src(s.a[0]); if (x && (x - &W.s[0] >= W.cfg.keep || (unsigned)s.a[1] % 8 == 0)) drop(*x); break; }
  case O_MULTI: { int k = (unsigned)s.a[1] % 3; Rng r((unsigned)s.a[2]); std::vector<Cal_Bdd> v; TT f(k == 0); int n = manyArgs(s.a[3], 9, 1024); std::vector<Slot*> l; for (auto &x : W.s) if (x.h && x.mgr == W.curMgr) l.push_back(&x); if (l.empty()) return;
      for (int i = 0; i < n; i++) { Slot *x = l[r.below(l.size())]; v.push_back(x->h); f = binTT(k, f, x->f); } v.push_back(nullptr);
      Cal_Bdd h = k == 0 ? Cal_BddMultiwayAnd(M.m, v.data()) : k == 1 ? Cal_BddMultiwayOr(M.m, v.data()) : Cal_BddMultiwayXor(M.m, v.data()); put(s.a[0], h, f, "multiway operation"); break; }
  case O_PAIRWISE: { int k = (unsigned)s.a[1] % 3; Rng r((unsigned)s.a[2]); std::vector<Cal_Bdd> v; std::vector<TT> fs; int n = manyArgs(s.a[3], 6, 200); std::vector<Slot*> l; for (auto &x : W.s) if (x.h && x.mgr == W.curMgr) l.push_back(&x); if (l.empty()) return;
      for (int i = 0; i < n; i++) { Slot *x = l[r.below(l.size())], *y = l[r.below(l.size())]; v.push_back(x->h); v.push_back(y->h); fs.push_back(binTT(k, x->f, y->f)); } v.push_back(nullptr);
      Cal_Bdd *h = k == 0 ? Cal_BddPairwiseAnd(M.m, v.data()) : k == 1 ? Cal_BddPairwiseOr(M.m, v.data()) : Cal_BddPairwiseXor(M.m, v.data());
      if (!h) { if (!limited(M)) fail("null-result", "pairwise operation returned null although no node limit is set"); Cal_BddOverflow(M.m); return; }
      std::vector<Cal_Bdd> hs(h, h + n); sim_free(h);
      for (int i = 0; i < n; i++) { if (!hs[i] && limited(M)) continue; if (!hs[i]) fail("null-result", "pairwise operation returned a null element"); TT g; std::string why; if (!evalHandle(M, hs[i], g, &why)) fail("result-broken", "pairwise element %d: %s", i, why.c_str()); if (g != fs[i]) fail("wrong-result", "pairwise element %d is %s, should be %s", i, g.hex().c_str(), fs[i].hex().c_str()); }
      for (int i = 0; i < n; i++) if (hs[i]) { if (i < 2) put(s.a[0] + i, hs[i], fs[i], "pairwise operation"); else Cal_BddFree(M.m, hs[i]); } break; }
  case O_WITNESS: { Slot *x = src(s.a[2]), *y = src(s.a[3]); if (!x || !y) return; bool imp = s.a[1] & 1; TT bound = x->f & (imp ? ~y->f : y->f); Cal_Bdd h = imp ? Cal_BddImplies(M.m, x->h, y->h) : Cal_BddIntersects(M.m, x->h, y->h);
      if (!h) { if (!limited(M)) fail("null-result", "witness returned null"); Cal_BddOverflow(M.m); return; }
      TT g; std::string why; if (!evalHandle(M, h, g, &why)) fail("result-broken", "%s: %s", imp ? "Implies" : "Intersects", why.c_str());
      if (!g.implies(bound) || g.zero() != bound.zero()) fail("wrong-result", "%s returned a function that is not a witness", imp ? "Implies" : "Intersects"); put(s.a[0], h, g, "witness"); break; }
  case O_GC: { unsigned long b = peek_num_nodes(M.m); Cal_BddManagerGC(M.m); fault(F_EXPGC); if (peek_num_nodes(M.m) < b) probe(P_GC_FREED); auditReclaimed(W.curMgr); break; }
  case O_REORDER: { int t = 1 + (unsigned)s.a[0] % 2, m = (unsigned)s.a[1] % 2; W.orderMayChange = true; Cal_BddDynamicReordering(M.m, t, m); Cal_BddReorder(M.m); fault(F_EXPREORDER); Cal_BddDynamicReordering(M.m, M.tech, M.meth); break; }
  case O_DYN: { M.tech = (unsigned)s.a[0] % 3; M.meth = (unsigned)s.a[1] % 2; Cal_BddDynamicReordering(M.m, M.tech, M.meth); fault(F_MODESWITCH); break; }
  case O_NEWVAR: opNewvar(M, s); break;
  case O_ASSOC: case O_TEMP: case O_TEMPAUG: if (!M.bitId.empty()) opAssoc(M, s); break;
  case O_ASSOCQUIT: { if (M.assocs.empty()) return; int i = (unsigned)s.a[0] % M.assocs.size(); int id = M.assocs[i].id; Cal_AssociationQuit(M.m, id);
      if (M.cur == id) { Cal_AssociationSetCurrent(M.m, -1); M.cur = -1; } if (--M.assocs[i].refs == 0) { M.assocs.erase(M.assocs.begin() + i); probe(P_ASSOC_REUSE); } break; }
  case O_SETCUR: { int id = -1; int i = (unsigned)s.a[0] % (M.assocs.size() + 1); if (i < (int)M.assocs.size()) id = M.assocs[i].id; int old = Cal_AssociationSetCurrent(M.m, id); if (old != M.cur) fail("association-current", "previous association reported as %d, was %d", old, M.cur); M.cur = id; break; }
  case O_BADASSOC: { int which = (unsigned)s.a[0] % 4;
      if (which == 0) { int bad = 1000; int old = Cal_AssociationSetCurrent(M.m, bad); if (old != M.cur) fail("association-current", "previous association reported as %d, was %d", old, M.cur); if ((old = Cal_AssociationSetCurrent(M.m, M.cur)) != -1) fail("association-current", "after an unknown identifier association %d is current", old); }
      else { Slot *x = src(s.a[1]); if (!x || x->f.constant()) return; bool isvar = false; for (size_t b = 0; b < M.bitId.size(); b++) isvar |= x->f == TT::var(b); if (isvar) return;
        Cal_Bdd arr[5] = {varHandle(M, 0), x->h, x->h, x->h, nullptr}; if (s.a[2] & 1) { arr[0] = arr[2]; arr[2] = nullptr; }
        if (which == 2) { Cal_TempAssociationAugment(M.m, arr, 1); break; }
        if (which == 3) { Cal_AssociationQuit(M.m, 500 + s.a[3] % 100); break; }
        int id = Cal_AssociationInit(M.m, arr, 1); if (id >= 0) fail("association-id", "an association from a non-variable was accepted as %d", id); } break; }
  case O_TEMPQUIT: Cal_TempAssociationQuit(M.m); M.temp = Assoc(); break;
  case O_EXISTS: case O_FORALL: { Slot *x = src(s.a[1]); if (!x) return; TT f = x->f; for (auto &e : curAssoc(M).map) f = s.op == O_EXISTS ? f.exists(e.first) : f.forall(e.first);
      put(s.a[0], s.op == O_EXISTS ? Cal_BddExists(M.m, x->h) : Cal_BddForAll(M.m, x->h), f, s.op == O_EXISTS ? "Exists" : "ForAll"); break; }
  case O_RELPROD: { Slot *x = src(s.a[1]), *y = src(s.a[2]); if (!x || !y) return; TT f = x->f & y->f; for (auto &e : curAssoc(M).map) f = f.exists(e.first); put(s.a[0], Cal_BddRelProd(M.m, x->h, y->h), f, "RelProd"); break; }
  case O_SUBST: { Slot *x = src(s.a[1]); if (!x) return; TT f = assocSubst(M, x->f); put(s.a[0], Cal_BddSubstitute(M.m, x->h), f, "Substitute"); break; }
  case O_VARSUBST: { Slot *x = src(s.a[1]); if (!x) return; for (auto &e : curAssoc(M).map) { bool v = false; for (size_t b = 0; b < M.bitId.size(); b++) v |= e.second == TT::var(b); if (!v) return; } TT f = assocSubst(M, x->f); put(s.a[0], Cal_BddVarSubstitute(M.m, x->h), f, "VarSubstitute"); break; }
  case O_COMPOSE: { Slot *x = src(s.a[1]), *y = src(s.a[2]); if (!x || !y) return; if ((unsigned)s.a[3] % 16 == 5) { TT f = x->f; put(s.a[0], Cal_BddCompose(M.m, x->h, s.a[3] & 16 ? Cal_BddOne(M.m) : Cal_BddZero(M.m), y->h), f, "Compose for a constant"); break; }
      int b = pickBit(M, s.a[3]); TT f = x->f.compose(b, y->f); put(s.a[0], Cal_BddCompose(M.m, x->h, varHandle(M, b), y->h), f, "Compose"); break; }
  case O_SWAP: { Slot *x = src(s.a[1]); if (!x) return; int b = pickBit(M, s.a[2]), c = pickBit(M, s.a[3]); TT vb = TT::var(b), vc = TT::var(c); std::vector<const TT*> g(TTN, nullptr); g[b] = &vc; g[c] = &vb; TT f = x->f.subst(g);
      put(s.a[0], Cal_BddSwapVars(M.m, x->h, varHandle(M, b), varHandle(M, c)), f, "SwapVars"); break; }
  case O_COFACTOR: case O_REDUCE: { Slot *x = src(s.a[1]), *c = src(s.a[2]); if (!x || !c || (s.op == O_COFACTOR && c->f.zero())) return; TT f = x->f, cc = c->f; Cal_Bdd xh = Cal_BddIdentity(M.m, x->h);
      Cal_Bdd h = s.op == O_COFACTOR ? Cal_BddCofactor(M.m, x->h, c->h) : Cal_BddReduce(M.m, x->h, c->h);
      if (!h) { Cal_BddFree(M.m, xh); put(s.a[0], h, f, "Cofactor/Reduce"); return; }
      TT g; std::string why; if (!evalHandle(M, h, g, &why)) fail("result-broken", "%s: %s", s.op == O_COFACTOR ? "Cofactor" : "Reduce", why.c_str());
      if (!((g ^ f) & cc).zero()) fail("wrong-result", "%s disagrees with the function inside the care set", s.op == O_COFACTOR ? "Cofactor" : "Reduce");
      if (s.op == O_COFACTOR) { // constrain maps every assignment into the care set: image-restrictor property
        for (size_t b = 0; b < M.bitId.size(); b++) (void)b; if ((f & cc).zero() != g.zero() || (~f & cc).zero() != g.one()) fail("wrong-result", "Cofactor is constant where the function is not (or vice versa) on the care set"); }
      else { W.suppressMaint = true; long a = Cal_BddSize(M.m, h, 1), b = Cal_BddSize(M.m, xh, 1); W.suppressMaint = false; if (a > b) fail("reduce-larger", "Reduce returned %ld nodes for a function of %ld", a, b); }
      Cal_BddFree(M.m, xh); put(s.a[0], h, g, "Cofactor/Reduce"); break; }
  case O_BETWEEN: { Slot *x = src(s.a[1]), *y = src(s.a[2]); if (!x || !y) return; TT lo = x->f & y->f, hi = x->f | y->f; bool lift = limited(M) && (s.a[3] & 3); if (lift) Cal_BddNodeLimit(M.m, 0); Cal_Bdd l = Cal_BddAnd(M.m, x->h, y->h), u = Cal_BddOr(M.m, x->h, y->h); if (lift) Cal_BddNodeLimit(M.m, M.nodeLimit); if (!l || !u) { if (!limited(M)) fail("null-result", "And/Or returned null"); Cal_BddOverflow(M.m); if (l) Cal_BddFree(M.m, l); if (u) Cal_BddFree(M.m, u); return; }
      Cal_Bdd h = Cal_BddBetween(M.m, l, u); if (!h) { Cal_BddFree(M.m, l); Cal_BddFree(M.m, u); put(s.a[0], h, lo, "Between"); return; }
      TT g; std::string why; if (!evalHandle(M, h, g, &why)) fail("result-broken", "Between: %s", why.c_str());
      if (!lo.implies(g) || !g.implies(hi)) fail("wrong-result", "Between returned a function outside the interval");
      W.suppressMaint = true; long z = Cal_BddSize(M.m, h, 1), a = Cal_BddSize(M.m, l, 1), b = Cal_BddSize(M.m, u, 1); W.suppressMaint = false; if (z > a || z > b) fail("between-larger", "Between returned %ld nodes, bounds have %ld and %ld", z, a, b);
      Cal_BddFree(M.m, l); Cal_BddFree(M.m, u); put(s.a[0], h, g, "Between"); break; }
  case O_SUPPORT: case O_DEPENDS: case O_CUBE: case O_TYPE: case O_BRANCH: case O_SATISFY: case O_SATSUPP: case O_FRACTION: case O_SIZE: case O_SIZEMULT: case O_PROFILE: case O_PRINT: opQuery(M, s); break;
  case O_PIPE: opPipe(M, s); break;
  case O_LIMIT: { long l = s.a[0] <= 0 ? 0 : (s.a[1] & 1 ? (long)peek_num_nodes(M.m) + s.a[0] : s.a[0]); long old = Cal_BddNodeLimit(M.m, l); if (old != M.nodeLimit) fail("limit", "previous node limit reported as %ld, was %ld", old, M.nodeLimit); M.nodeLimit = l; Cal_BddOverflow(M.m); break; }
  case O_RETRY: { // the limit is lifted: the same operation must now succeed
      Slot *x = src(s.a[1]), *y = src(s.a[2]); if (!x || !y) return; long old = M.nodeLimit; int k = (unsigned)s.a[3] % 6; TT f = binTT(k, x->f, y->f);
      Cal_Bdd h = binCall(M, k, x->h, y->h); if (!h) { Cal_BddOverflow(M.m); probe(P_OVERFLOW_NULL); Cal_BddNodeLimit(M.m, 0); M.nodeLimit = 0; h = binCall(M, k, x->h, y->h); if (!h) fail("no-recovery", "the operation still fails after the node limit was lifted"); }
      put(s.a[0], h, f, binName[k]); Cal_BddNodeLimit(M.m, old); M.nodeLimit = old; break; }
  case O_NULLARG: { Slot *x = src(s.a[1]); if (!x) return; Cal_Bdd n0 = Cal_BddNull(M.m), r = n0; int w = (unsigned)s.a[0] % 38; bool flip = s.a[2] & 1; Cal_Bdd p = flip ? n0 : x->h, q = flip ? x->h : n0;
      switch (w) { case 0: r = Cal_BddAnd(M.m, p, q); break; case 1: r = Cal_BddOr(M.m, p, q); break; case 2: r = Cal_BddXor(M.m, p, q); break; case 3: r = Cal_BddITE(M.m, p, q, x->h); break; case 4: r = Cal_BddExists(M.m, n0); break; case 5: r = Cal_BddRelProd(M.m, p, q); break;
        case 6: r = Cal_BddCofactor(M.m, p, q); break; case 7: r = Cal_BddReduce(M.m, p, q); break; case 8: r = Cal_BddSubstitute(M.m, n0); break; case 9: r = Cal_BddSatisfy(M.m, n0); break; case 10: r = Cal_BddIntersects(M.m, p, q); break; case 11: r = Cal_BddNand(M.m, p, q); break;
        case 12: r = Cal_BddBetween(M.m, p, q); break; case 13: r = Cal_BddForAll(M.m, n0); break; case 14: r = Cal_BddXnor(M.m, p, q); break; case 15: r = Cal_BddVarSubstitute(M.m, n0); break; case 16: r = Cal_BddNor(M.m, p, q); break; case 17: r = Cal_BddImplies(M.m, p, q); break; case 18: r = Cal_BddITE(M.m, x->h, p, q); break; case 19: r = Cal_BddThen(M.m, n0); break; case 20: r = Cal_BddElse(M.m, n0); break; case 21: r = Cal_BddIf(M.m, n0); break;
        case 22: { r = Cal_BddSatisfySupport(M.m, n0); break; }
        case 23: if (M.bitId.empty()) break; r = flip ? Cal_BddCompose(M.m, x->h, M.varH[M.bitId[(unsigned)s.a[3] % M.bitId.size()]], n0) : Cal_BddCompose(M.m, n0, M.varH[M.bitId[(unsigned)s.a[3] % M.bitId.size()]], x->h); break;
        case 24: if (M.bitId.empty()) break; r = Cal_BddSwapVars(M.m, n0, M.varH[M.bitId[0]], M.varH[M.bitId[(unsigned)s.a[3] % M.bitId.size()]]); break;
        case 31: { Cal_Bdd none[1] = {nullptr}; r = flip ? Cal_BddMultiwayAnd(M.m, none) : s.a[3] & 1 ? Cal_BddMultiwayOr(M.m, none) : Cal_BddMultiwayXor(M.m, none); break; }
        case 32: case 33: { Cal_Bdd odd[4] = {x->h, x->h, x->h, nullptr}; if (flip) odd[w == 32] = nullptr; Cal_Bdd *v = s.a[3] % 3 == 0 ? Cal_BddPairwiseAnd(M.m, odd) : s.a[3] % 3 == 1 ? Cal_BddPairwiseOr(M.m, odd) : Cal_BddPairwiseXor(M.m, odd); if (v) fail("pairwise", "an odd number of operands was accepted"); break; }
        case 34: { if (M.bitId.empty()) break; Cal_Bdd v = M.varH[M.bitId[(unsigned)s.a[3] % M.bitId.size()]], k = s.a[4] & 1 ? Cal_BddOne(M.m) : Cal_BddZero(M.m); r = flip ? Cal_BddSwapVars(M.m, x->h, k, v) : Cal_BddSwapVars(M.m, x->h, v, k); break; }  // a constant is no variable
        case 35: { if (Cal_BddNewVarBlock(M.m, flip ? Cal_BddOne(M.m) : Cal_BddZero(M.m), 1)) fail("block-accepted", "a block that starts at a constant was created"); break; }
        case 36: { long had = Cal_BddNodeLimit(M.m, -1 - (long)((unsigned)s.a[3] % 50)); long now = Cal_BddNodeLimit(M.m, had); if (now != 0) fail("limit-value", "a negative node limit counts as %ld, not as none", now); break; }
        case 27: r = Cal_BddNot(M.m, n0); break; case 28: r = Cal_BddIdentity(M.m, n0); break;
        case 29: case 30: { if (!Cal_PipelineInit(M.m, (Cal_BddOp_t)((unsigned)s.a[3] % 3))) fail("pipeline-refused", "a pipeline could not be initialised"); Cal_Bdd ok = s.a[3] & 4 ? Cal_PipelineCreateProvisionalBdd(M.m, x->h, x->h) : n0;
          r = Cal_PipelineCreateProvisionalBdd(M.m, p, q); if (ok && !r && !Cal_PipelineExecute(M.m) && !limited(M)) fail("pipeline-failed", "pipeline execution failed although no node limit is set"); Cal_BddOverflow(M.m); Cal_PipelineQuit(M.m); break; }
        case 25: if (Cal_BddSize(M.m, n0, s.a[3] & 1)) fail("null-propagation", "the null handle has a size"); break;
        default: { FILE *o = stdout; Cal_BddPrintProfile(M.m, n0, Cal_BddNamingFnNone, nullptr, 80, o); Cal_BddPrintFunctionProfile(M.m, n0, Cal_BddNamingFnNone, nullptr, 80, o); break; } }
      if (r) fail("null-propagation", "an operation on a null handle returned a handle (case %d)", w); if (!Cal_BddIsBddNull(M.m, n0)) fail("null-propagation", "null not recognised"); if (Cal_BddType(M.m, n0) != CAL_BDD_TYPE_OVERFLOW) fail("null-propagation", "type of null is %d", Cal_BddType(M.m, n0)); break; }
  case O_DUMP: case O_CORRUPT: dumpOp(M, s); break;
  case O_RANDF: if (!M.bitId.empty()) opRandf(M, s); break;
  case O_CHURN: { Rng r((unsigned)s.a[0]); int n = 1 + (unsigned)s.a[1] % 40; for (int i = 0; i < n; i++) { std::vector<Slot*> l; for (auto &x : W.s) if (x.h && x.mgr == W.curMgr) l.push_back(&x); if (l.size() < 1) return; Slot *x = l[r.below(l.size())], *y = l[r.below(l.size())]; int k = r.below(6); Cal_Bdd h = binCall(M, k, x->h, y->h);
        if (!h) { if (!limited(M)) fail("null-result", "%s returned null", binName[k]); Cal_BddOverflow(M.m); continue; } TT g; std::string why; if (!evalHandle(M, h, g, &why)) fail("result-broken", "%s: %s", binName[k], why.c_str()); if (g != binTT(k, x->f, y->f)) fail("wrong-result", "%s returned %s", binName[k], g.hex().c_str()); Cal_BddFree(M.m, h); } break; }
  case O_CROWD: opCrowd(M, s); break;
  case O_HUGE: opHuge(M, s); break;
  case O_STEADY: opSteady(M, s); break;
  case O_STALE: opStale(M, s); break;
  case O_SATURATE: { Slot *x = src(s.a[0]); if (!x) return; int n = 200 + (unsigned)s.a[1] % 200; for (int i = 0; i < n; i++) Cal_BddIdentity(M.m, x->h); for (int i = 0; i < n; i++) Cal_BddFree(M.m, x->h); fault(F_SATURATE); probe(P_SATURATED); break; }
  case O_UNFREE: { Slot *x = src(s.a[0]); if (!x) return; if (s.a[1] & 1) { Cal_BddUnFree(M.m, x->h); Cal_BddFree(M.m, x->h); } else { Cal_BddFree(M.m, x->h); if (peek_user_refcount(x->h)) Cal_BddUnFree(M.m, x->h); else x->h = nullptr; } break; }
  case O_GCMODE: { M.gcOff = s.a[0] & 1; Cal_BddSetGCMode(M.m, !M.gcOff); fault(F_MODESWITCH); break; }
  case O_BLOCK: opBlock(M, s); break;
  case O_BLOCKRE: { if (M.blocks.empty()) return; Block &b = M.blocks[(unsigned)s.a[0] % M.blocks.size()]; b.re = s.a[1] & 1; Cal_BddVarBlockReorderable(M.m, b.b, b.re); break; }
  case O_PARAMS: { static const double rp[] = {0.0, 0.3, 0.75, 1.0}; Cal_BddManagerSetParameters(M.m, 1 + (unsigned)s.a[0] % 200, 1 + (unsigned)s.a[1] % 300, rp[(unsigned)s.a[2] % 4], rp[(unsigned)s.a[3] % 4]); break; }
  case O_EQUAL: { Slot *x = src(s.a[0]), *y = src(s.a[1]); if (!x || !y) return; int e = Cal_BddIsEqual(M.m, x->h, y->h); if (!!e != (x->f == y->f)) fail("equal", "equality test returned %d for functions that are%s equal", e, x->f == y->f ? "" : " not"); if (e) probe(P_EQUAL_TRUE); mix(e); break; }
  case O_STATS: { for (auto &N : W.mg) if (N.live && Cal_BddManagerGetHooks(N.m) != N.hooks) fail("hooks", "a manager lost the pointer its user stored with it"); M.hooks = (void *)(uintptr_t)((unsigned)s.a[0] * 8 + 8); Cal_BddManagerSetHooks(M.m, M.hooks);
      char *b = nullptr; size_t l = 0; FILE *fp = open_memstream(&b, &l); Cal_BddStats(M.m, fp); fclose(fp); checkStats(M, std::string(b, l)); ::free(b); if (Cal_BddTotalSize(M.m) != Cal_BddManagerGetNumNodes(M.m)) fail("count-mismatch", "total size %lu, node count %lu", Cal_BddTotalSize(M.m), Cal_BddManagerGetNumNodes(M.m)); break; }
  case O_PIPEDEPTH: Cal_PipelineSetDepth(M.m, (unsigned)s.a[0] % 7); break;
  case O_FAILPAGES: { if ((unsigned)s.a[2] % 3) { int k = (unsigned)s.a[3] % 5; arena.failAlignedAbove = k == 4 ? 0 : (4ull << k) * simPageSize; break; } arena.failAlignedFrom = arena.alignedSeq + 1 + (unsigned)s.a[0] % 3; arena.failAlignedCount = 1 + (unsigned)s.a[1] % 12; break; }
  case O_MGRNEW: { int k = (unsigned)s.a[0] % W.mg.size(); if (!W.mg[k].live) newManager(k, s.a[1] & 1 ? W.cfg.nvars : 1 + (int)((unsigned)s.a[2] % W.cfg.nvars)); W.curMgr = k; break; }
  case O_REBIRTH: opRebirth(s); break;
  case O_BIGDUMP: bigDump(s); break;
  case O_MGRQUIT: { int k = (unsigned)s.a[0] % W.mg.size(); if (W.mg[k].live) { probe(P_QUIT_DIRTY); quitManager(k); } break; }
  case O_BURST: W.curMgr = (unsigned)s.a[0] % W.mg.size(); break; // switch manager
  case O_CPP: execCpp(s); break;
  case O_MEM: execMem(s); break;
  }
}
// Some node gets close to, or past, the largest reference count a node can hold; then its users
// go away again in part or entirely, with collections in between.
static void opCrowd(Mgr &M, const Step &s) {
  if (M.gcOff || limited(M) || M.bitId.size() < 5) return;
  Rng r((unsigned)s.a[0]); W.suppressMaint = true; if (M.tech) Cal_BddDynamicReordering(M.m, CAL_REORDER_NONE, M.meth);
  std::vector<int> bits; for (size_t b = 0; b < M.bitId.size(); b++) bits.push_back(b);
  std::sort(bits.begin(), bits.end(), [&](int a, int b) { return indexOfBit(M, a) < indexOfBit(M, b); });
  int nb = bits.size(), lo = bits[nb - 1], hi = bits[nb - 2]; struct H { Cal_Bdd h; TT f; }; std::vector<H> up;
  auto need = [&](Cal_Bdd h) { if (!h) fail("null-result", "an operation returned null although no node limit is set"); return h; };
  Slot *sl = src(s.a[3]); H g; bool own = !sl || sl->f.constant() || sl->f.dep(bits[0]) || r.p(0.4);
  if (own) { int k = r.below(3); g.h = need(binCall(M, k, varHandle(M, hi), varHandle(M, lo))); g.f = binTT(k, TT::var(hi), TT::var(lo)); } else { g.h = Cal_BddIdentity(M.m, sl->h); g.f = sl->f; }
  unsigned target = 247 + (unsigned)s.a[1] % 12; TT h = TT::var(lo); Cal_Bdd hh = Cal_BddIdentity(M.m, varHandle(M, lo)); std::set<TT> used;
  auto rc = [&]() { return peek_refcount(peek_internal(M.m, g.h)); };
  for (int t = 0; t < 900 && rc() < target; t++) {
    int b = bits[r.below(nb)]; int k = r.below(3); Cal_Bdd nx; TT nf;
    if (r.p(0.5) || up.empty()) { nx = need(binCall(M, k, hh, varHandle(M, b))); nf = binTT(k, h, TT::var(b)); } else { H &o = up[r.below(up.size())]; nx = need(Cal_BddXor(M.m, hh, o.h)); nf = h ^ o.f; }
    Cal_BddFree(M.m, hh); hh = nx; h = nf; if (h.constant()) { Cal_BddFree(M.m, hh); hh = Cal_BddIdentity(M.m, varHandle(M, b)); h = TT::var(b); }
    TT hc = h.cof(bits[0], 1); if (hc == g.f || !used.insert(hc).second) continue;
    H p; p.h = need(Cal_BddITE(M.m, varHandle(M, bits[0]), hh, g.h)); p.f = TT::ite(TT::var(bits[0]), h, g.f); up.push_back(p); }
  Cal_BddFree(M.m, hh);
  // several requests of one call, and single calls, that all end at the crowded node
  { std::vector<Cal_Bdd> arr; int n = 2 * (1 + r.below(5)); std::vector<Cal_Bdd> tmp;
    for (int i = 0; i < n; i++) { int b = bits[1 + r.below(nb - 1)]; Cal_Bdd x = need(i & 1 ? Cal_BddNot(M.m, varHandle(M, b)) : Cal_BddIdentity(M.m, varHandle(M, b))); Cal_Bdd y = need(Cal_BddOr(M.m, g.h, x)); arr.push_back(y); tmp.push_back(x); if (!(i & 1)) { Cal_Bdd x2 = Cal_BddNot(M.m, x), y2 = need(Cal_BddOr(M.m, g.h, x2)); arr.push_back(y2); tmp.push_back(x2); i++; } }
    arr.push_back(nullptr); Cal_Bdd *res = Cal_BddPairwiseAnd(M.m, arr.data()); if (!res) fail("null-result", "pairwise operation returned null although no node limit is set");
    for (int i = 0; i < n / 2; i++) { if (!Cal_BddIsEqual(M.m, res[i], g.h)) fail("not-canonical", "(g or x) and (g or not x) is not g"); Cal_BddFree(M.m, res[i]); }
    sim_free(res); for (auto x : tmp) Cal_BddFree(M.m, x); arr.pop_back(); for (auto x : arr) Cal_BddFree(M.m, x);
    for (int i = 0; i < 4 && up.size() > 1; i++) { H &a = up[r.below(up.size())], &b = up[r.below(up.size())]; Cal_Bdd x = need(Cal_BddITE(M.m, varHandle(M, bits[0]), a.h, b.h)); TT xf = TT::ite(TT::var(bits[0]), a.f, b.f); TT got; std::string why; if (!evalHandle(M, x, got, &why)) fail("result-broken", "function over a crowded node: %s", why.c_str()); if (got != xf) fail("wrong-result", "function over a crowded node denotes %s, should be %s", got.hex().c_str(), xf.hex().c_str()); Cal_BddFree(M.m, x); } }
  if (rc() >= 255) { probe(P_CROWD); fault(F_SATURATE); }
  int rounds = 2 + r.below(3);
  for (int t = 0; t < rounds; t++) {
    if (t + 1 == rounds) { for (auto &p : up) Cal_BddFree(M.m, p.h); up.clear(); }
    else { size_t keep = up.size() * r.below(8) / 8; for (size_t i = up.size(); i > 1; i--) std::swap(up[i-1], up[r.below(i)]); while (up.size() > keep) { Cal_BddFree(M.m, up.back().h); up.pop_back(); } }
    Cal_BddManagerGC(M.m); fault(F_EXPGC);
    TT got; std::string why; if (!evalHandle(M, g.h, got, &why)) fail("handle-broken", "a crowded function after its users went away: %s", why.c_str()); if (got != g.f) fail("wrong-function", "a crowded function denotes %s, should be %s", got.hex().c_str(), g.f.hex().c_str());
    for (size_t i = 0; i < up.size(); i += 7) { if (!evalHandle(M, up[i].h, got, &why)) fail("handle-broken", "a user of a crowded function: %s", why.c_str()); if (got != up[i].f) fail("wrong-function", "a user of a crowded function denotes %s, should be %s", got.hex().c_str(), up[i].f.hex().c_str()); } }
  put(s.a[2], g.h, g.f, "crowded function");
  Cal_BddManagerGC(M.m); W.suppressMaint = false; if (M.tech) Cal_BddDynamicReordering(M.m, M.tech, M.meth); auditReclaimed(W.curMgr);
}
// Tens of thousands of nodes and handles on one level: tables, page lists and collections at sizes
// ordinary runs never reach. Every function is a choice by the top variable between two known ones.
static void opHuge(Mgr &M, const Step &s) {
  if (M.gcOff || limited(M) || TTW || M.bitId.size() < 5) return;
  Rng r((unsigned)s.a[0]); int nb = M.bitId.size(); if (M.tech) Cal_BddDynamicReordering(M.m, CAL_REORDER_NONE, M.meth); W.suppressMaint = !W.cfg.natural || r.p(0.3);
  static const unsigned most[8] = {2000, 3000, 5000, 9000, 15000, 30000, 60000, 120000}; unsigned lim = most[(unsigned)s.a[1] % (r.p(0.2) ? 8 : 5)];
  if (W.cfg.alloc.gap > 1 || (W.cfg.tune.nodesPerPage && W.cfg.tune.nodesPerPage < 16)) lim = std::min(lim, 4000u);  // such layouts use up the simulated address space
#ifndef __SANITIZE_ADDRESS__
  if (r.p(0.05) && W.cfg.tune.nodesPerPage == 0 && W.cfg.alloc.gap < 2 && W.cfg.alloc.reuse) lim = 335000;
#endif
  if (W.hugeUsed > 60000) lim = std::min(lim, 2000u); W.hugeUsed += lim;  // once per run at full size
  unsigned target = lim > 300000 ? lim : lim - r.below(lim / 3);
  int top; { int best = 0; for (int b = 0; b < nb; b++) if (indexOfBit(M, b) < indexOfBit(M, best)) best = b; top = r.p(0.75) ? best : (int)r.below(nb); }
  struct H { Cal_Bdd h; TT f; }; std::vector<H> in; std::set<TT> seen;
  auto need = [&](Cal_Bdd h) { if (!h) fail("null-result", "an operation returned null although no node limit is set"); return h; };
  auto check = [&](Cal_Bdd h, const TT &f, const char *what) { TT got; std::string why; if (!evalHandle(M, h, got, &why)) fail("handle-broken", "%s: %s", what, why.c_str()); if (got != f) fail("wrong-function", "%s denotes %s, should be %s", what, got.hex().c_str(), f.hex().c_str()); };
  size_t wantIn = 40; while (wantIn * (wantIn - 1) < target * 2) wantIn += 10; if (target > 20000) wantIn *= 3;  // the package hashes by the sum of two addresses: spread them
  { Slot *sl = src(s.a[3]); H g; int b = (top + 1) % nb; g.h = Cal_BddIdentity(M.m, varHandle(M, b)); g.f = TT::var(b); in.push_back(g); seen.insert(g.f); if (sl && !sl->f.dep(top) && seen.insert(sl->f).second) { g.h = Cal_BddIdentity(M.m, sl->h); g.f = sl->f; in.push_back(g); } }
  for (size_t t = 0; t < wantIn * 6 && in.size() < wantIn; t++) {
    H &x = in[r.below(in.size())]; int b = r.below(nb); if (b == top) continue; int k = r.below(3); H n; bool two = r.p(0.4); H &y = in[r.below(in.size())];
    n.f = two ? x.f ^ y.f : binTT(k, x.f, TT::var(b)); if (n.f.constant() || seen.count(n.f)) continue; n.h = need(two ? Cal_BddXor(M.m, x.h, y.h) : binCall(M, k, x.h, varHandle(M, b))); seen.insert(n.f); in.push_back(n); }
  struct P { Cal_Bdd h; uint32_t i, j; }; std::vector<P> up; size_t n = in.size(); auto fn = [&](const P &p) { return TT::ite(TT::var(top), in[p.i].f, in[p.j].f); };
  size_t total = n * (n - 1); if (target > total) target = total; size_t stride = 1 + 2 * r.below(total / 2 + 1); while (true) { size_t a = stride, b = total; while (b) { size_t c = a % b; a = b; b = c; } if (a == 1) break; stride++; }
  size_t at = r.below(total); auto pairAt = [&](size_t k, P &p) { p.i = k / (n - 1); p.j = k % (n - 1); if (p.j >= p.i) p.j++; };
  for (unsigned t = 0; t < target; t++) { P p; pairAt(at, p); at = (at + stride) % total; p.h = need(Cal_BddITE(M.m, varHandle(M, top), in[p.i].h, in[p.j].h)); up.push_back(p); }
  auto sample = [&](const char *what) {
    for (int t = 0; t < 60 && !up.empty(); t++) { P &p = up[r.below(up.size())]; check(p.h, fn(p), what); }
    for (int t = 0; t < 60 && !up.empty(); t++) { P &p = up[r.below(up.size())]; Cal_Bdd h = need(Cal_BddITE(M.m, varHandle(M, top), in[p.i].h, in[p.j].h)); if (h != p.h) fail("not-canonical", "%s: the same function got a second handle", what); Cal_BddFree(M.m, h); } };
  sample("one of very many functions"); if ((long)peek_num_nodes(M.m) >= (long)up.size() && up.size() >= 1000) probe(P_HUGE);
  { std::set<Cal_Bdd> d; for (auto &p : up) if (!d.insert(p.h).second) fail("not-canonical", "two different functions share a handle"); }
  int rounds = 2 + r.below(3);
  for (int t = 0; t < rounds; t++) {
    size_t keep = t + 1 == rounds ? 0 : up.size() * r.below(9) / 8; for (size_t i = up.size(); i > 1; i--) std::swap(up[i-1], up[r.below(i)]); while (up.size() > keep) { Cal_BddFree(M.m, up.back().h); up.pop_back(); }
    int how = r.below(4); if (how == 0 && up.size() <= 4000 && nb <= 8) { Cal_BddDynamicReordering(M.m, 1 + r.below(2), M.meth); W.suppressMaint = true; W.orderMayChange = true; Cal_BddReorder(M.m); Cal_BddDynamicReordering(M.m, CAL_REORDER_NONE, M.meth); fault(F_EXPREORDER); }
    else { Cal_BddManagerGC(M.m); fault(F_EXPGC); }
    if (M.bitId.size() && t + 1 < rounds && r.p(0.4)) for (size_t k = 0, add = r.below(3000); k < add; k++) { P p; pairAt(at, p); at = (at + stride) % total; bool dup = up.size() + k >= total; if (dup) break; p.h = need(Cal_BddITE(M.m, varHandle(M, top), in[p.i].h, in[p.j].h)); up.push_back(p); }
    sample("one of very many functions after others were released"); }
  for (auto &x : in) { if (r.p(0.2)) check(x.h, x.f, "an operand of very many functions"); Cal_BddFree(M.m, x.h); }
  W.suppressMaint = true; Cal_BddManagerGC(M.m); W.suppressMaint = false; if (M.tech) Cal_BddDynamicReordering(M.m, M.tech, M.meth); auditReclaimed(W.curMgr);
}
// The same work done and released over and over, with a full collection each time, must reach a
// fixpoint in the storage used: what a collection reclaims is used again before more is taken.
static void opSteady(Mgr &M, const Step &s) {
  if (M.gcOff || limited(M)) return;
  W.suppressMaint = true; Cal_BddSetGCMode(M.m, 0); if (M.tech) Cal_BddDynamicReordering(M.m, CAL_REORDER_NONE, M.meth);
  int reps = 24 + (unsigned)s.a[2] % 30, n = 10 + (unsigned)s.a[1] % 40; long warm = 0; unsigned long freed = 0;
  std::vector<Cal_Bdd> base; for (auto &x : W.s) if (x.h && x.mgr == W.curMgr) base.push_back(x.h);
  for (auto &v : M.varH) base.push_back(v.second);
  for (int t = 0; t < reps && base.size(); t++) {
    Rng r((unsigned)s.a[0]); std::vector<Cal_Bdd> mine;
    for (int i = 0; i < n; i++) { auto pick = [&]() { return mine.size() && r.p(0.6) ? mine[r.below(mine.size())] : base[r.below(base.size())]; };
      Cal_Bdd a = pick(), b = pick(), h = r.p(0.3) ? Cal_BddITE(M.m, a, b, pick()) : binCall(M, r.below(6), a, b);
      if (!h) fail("null-result", "an operation returned null without a limit"); mine.push_back(h); }
    unsigned long k = peek_num_nodes(M.m); for (auto h : mine) Cal_BddFree(M.m, h);
    Cal_BddManagerGC(M.m); fault(F_EXPGC); long p = peek_pages(M.m);
    if (t < 10) warm = std::max(warm, p); else freed += k - peek_num_nodes(M.m);
    if (t >= 10 && p > warm + 1 + peek_num_vars(M.m) / 4) fail("storage-growth", "repeating the same work grew the node storage from %ld to %ld pages although every collection reclaimed it (%lu nodes since)", warm, p, freed); }
  Cal_BddSetGCMode(M.m, 1); if (M.tech) Cal_BddDynamicReordering(M.m, M.tech, M.meth); W.suppressMaint = false; probe(P_STEADY); mix(freed);
}
// One question asked again and again while the context it depends on changes in between.
static void opStale(Mgr &M, const Step &s) {
  static const int Q[] = {O_EXISTS, O_EXISTS, O_RELPROD, O_RELPROD, O_FORALL, O_SUBST, O_VARSUBST, O_COMPOSE, O_SWAP, O_COFACTOR, O_REDUCE, O_ITE, O_BIN};
  Rng r((unsigned)s.a[0] * 31ull + (unsigned)s.a[1]); Step q, c[3]; q.op = Q[r.below(sizeof Q / sizeof *Q)]; for (auto &x : q.a) x = (int)r.below(1 << 20);
  for (auto &k : c) { k.op = O_ASSOC; for (auto &x : k.a) x = (int)r.below(1 << 20); if (r.p(0.6)) k.a[0] &= ~1; if (r.p(0.5)) k.a[3] = 1 + r.below(2); }
  int n = 3 + (unsigned)s.a[2] % 8; int cm0 = W.curMgr;
  for (int t = 0; t < n; t++) {
    if (W.curMgr != cm0 || M.bitId.empty()) return;
    int acts = 1 + r.below(3);
    for (int k = 0; k < acts; k++) { Step x; switch (r.below(12)) {
      case 0: case 1: case 2: x = c[r.below(3)]; execOne(x); syncOrder(M); x = Step(); x.op = O_SETCUR; x.a[0] = M.assocs.empty() ? 0 : (int)M.assocs.size() - 1; break;
      case 3: x.op = O_SETCUR; x.a[0] = r.below(20); break; case 4: x.op = O_SETCUR; x.a[0] = (int)M.assocs.size(); break;
      case 5: case 6: x.op = O_SETCUR; x.a[0] = (int)M.assocs.size(); if (r.p(0.7)) execOne(x), syncOrder(M); x.op = O_ASSOCQUIT; x.a[0] = r.below(20); break;
      case 7: x = c[r.below(3)]; x.op = O_TEMP; break; case 8: x = c[r.below(3)]; x.op = O_TEMPAUG; break; case 9: x.op = O_TEMPQUIT; break;
      case 10: if (r.p(0.6)) continue; x.op = O_GC; break; default: if (r.p(0.8)) continue; x.op = O_NEWVAR; x.a[0] = r.below(1000); x.a[1] = r.below(1000); x.a[2] = r.below(1000); break; }
      execOne(x); syncOrder(M); }
    q.a[0] = W.cfg.keep + (int)r.below(W.s.size() - W.cfg.keep); execOne(q); syncOrder(M); }
  probe(P_STALE);
}
void execStep(const Step &s) {
  W.cur = &s; W.point = 0; sh->step = W.step;
  W.orderMayChange = false;
  for (size_t k = 0; k < W.mg.size(); k++) { Mgr &M = W.mg[k]; M.mayReorder = M.live && (int)k == W.curMgr && M.tech; }
  std::vector<int> gcs; for (auto &M : W.mg) gcs.push_back(M.live ? peek_num_gc(M.m) : -1);
  bool offBefore = W.mg.size() && W.mg[W.curMgr].live && W.mg[W.curMgr].gcOff; int kBefore = W.curMgr;
  uint64_t refused = arena.alignedRefused;
  sh->opHits[s.op]++;
  execOne(s);
  if (TTW) for (auto &x : W.s) if (x.h && x.f.size() > (W.cfg.seed % 5 ? 500 : 3000)) { Mgr &M = W.mg[x.mgr]; int t = arena.tag; arena.tag = M.tag; Cal_BddFree(M.m, x.h); x.h = nullptr; arena.tag = t; } // keep the model small
  if (arena.alignedRefused != refused) { fault(F_PAGEREFUSED, arena.alignedRefused - refused); probe(P_OOM_BACKOFF); }
  if (offBefore && W.mg[kBefore].live && W.mg[kBefore].gcOff && s.op != O_GC && s.op != O_STALE && s.op != O_REORDER && s.op != O_GCMODE && s.op != O_PIPE && peek_num_gc(W.mg[kBefore].m) != gcs[kBefore] && !W.mg[kBefore].nodeLimit)
    fail("gc-mode", "a collection ran although collection is switched off");
  mix(s.op); mix(W.point);
  if (W.cfg.prop != "P19") auditAll();
  if (W.recordObs) { uint64_t h = 7; for (auto &x : W.s) h = (h ^ (x.h ? x.f.hash() : 1)) * 1099511628211ull; obs("functions held %016llx", (unsigned long long)h); }
  W.cur = nullptr; W.step++;
}
