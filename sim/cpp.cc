// Workload over the C++ interface: handles are constructed, copied, moved,
// assigned and destroyed in random order; W.s mirrors them for the audits.
#include <vector>
#include <sstream>
#include <string>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include <iterator>
#include <type_traits>
#include <utility>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#define SIM_NO_REDIRECT
#include "seam.h"
#define free(p) sim_free(p)
#define private public
#define protected public
#include "calObj.hh"
#undef private
#undef protected
#undef free
#undef Cal_Assert
#include "core.h"
namespace {
Cal *cal; std::vector<BDD> H; std::vector<TT> F; std::vector<bool> V; // V: slot holds a function
std::vector<BDD> vars, extra;
void mirror() {
  Mgr &M = W.mg[0];
  for (size_t i = 0; i < H.size(); i++) { W.s[i].h = V[i] ? H[i]._bdd : nullptr; W.s[i].f = F[i]; W.s[i].mgr = 0;
    if (V[i] && !H[i]._bdd) fail("cpp-lost", "a C++ handle lost its function");
    if (V[i] && H[i]._bddManager != M.m) fail("cpp-lost", "a C++ handle refers to another manager");
    if (!V[i] && H[i]._bdd) fail("cpp-spurious", "a C++ handle that should be null is not"); }
  for (size_t i = 0; i < vars.size(); i++) M.varH[M.bitId[i]] = vars[i]._bdd;
}
void set(int a, BDD &&b, const TT &f, const char *what, int how) {
  size_t i = (unsigned)a % H.size(); TT got; std::string why;
  if (b.IsNull()) fail("null-result", "C++ %s returned null although no node limit is set", what);
  if (!evalHandle(W.mg[0], b._bdd, got, &why)) fail("result-broken", "C++ %s: %s", what, why.c_str());
  if (got != f) fail("wrong-result", "C++ %s returned %s, should be %s", what, got.hex().c_str(), f.hex().c_str());
  switch (how % 4) { case 0: H[i] = std::move(b); break; case 1: H[i] = b; break; case 2: { BDD c(b); H[i] = c; break; } default: { BDD c(std::move(b)); H[i] = std::move(c); } }
  F[i] = f; V[i] = true; mix(f.hash());
}
}
void cppStart() {
  W.mg.resize(1); W.s.assign(W.cfg.slots, Slot()); Mgr &M = W.mg[0]; M = Mgr(); M.tag = arena.tag = 900;
  cal = W.cfg.seed & 1 ? new Cal() : nullptr; if (!cal) { Cal t; cal = new Cal(std::move(t)); }
  M.m = cal->_bddManager; M.live = true; M.base = peek_num_nodes(M.m); H.clear(); extra.clear(); vars.clear(); H.resize(W.cfg.slots); F.assign(W.cfg.slots, TT()); V.assign(W.cfg.slots, false);
  bool given = W.cfg.mode & 1; if (given) { delete cal; cal = new Cal(W.cfg.nvars); M.m = cal->_bddManager; if (cal->Vars() != W.cfg.nvars) fail("newvar", "a manager constructed with %d variables has %ld", W.cfg.nvars, cal->Vars()); }
  for (int i = 0; i < W.cfg.nvars; i++) { if (given) { vars.push_back(cal->Id(i + 1)); M.idBit[i + 1] = i; M.bitId.push_back(i + 1); M.order.push_back(i + 1); continue; } vars.push_back(cal->CreateNewVarLast()); int id = peek_num_vars(M.m); M.idBit[id] = i; M.bitId.push_back(id); M.order.push_back(id); }
  mirror();
}
void cppEnd() {
  arena.tag = 900; H.clear(); vars.clear(); extra.clear(); W.s.clear(); W.mg[0].varH.clear();
  cal->GC(); extern void auditReclaimed(int); auditReclaimed(0);
  W.mg[0].live = false; delete cal; cal = nullptr;
  size_t left = arenaLiveTagged(900); if (left) fail("memory-leak", "%zu blocks still allocated after the C++ manager was destroyed:%s", left, arenaDescribeLive(900).c_str());
}
static int pick(int a) { size_t i = (unsigned)a % H.size(); return V[i] ? (int)i : -1; }
static TT bop(int k, const TT &x, const TT &y) { switch (k) { case 0: return x & y; case 1: return x | y; case 2: return x ^ y; case 3: return ~(x & y); case 4: return ~(x | y); case 5: return ~(x ^ y); default: return x & ~y; } }
static std::string grab(const std::function<void(FILE *)> &f) { char *b = nullptr; size_t l = 0; FILE *fp = open_memstream(&b, &l); f(fp); fclose(fp); std::string t(b, l); ::free(b); return t; }
static TT evalB(const BDD &g, const char *what) { TT got; std::string why; if (g.IsNull()) fail("null-result", "C++ %s returned null although no node limit is set", what); if (!evalHandle(W.mg[0], g._bdd, got, &why)) fail("result-broken", "C++ %s: %s", what, why.c_str()); return got; }
// the rest of the interface: both spellings of every request, against the function or the C request
static void execCpp2(const Step &s, int op) {
  Mgr &M = W.mg[0]; int nb = M.bitId.size(); int how = s.a[6]; int x = pick(s.a[2]), y = pick(s.a[3]), z = pick(s.a[4]); Rng r((unsigned)s.a[5]); int k = (unsigned)s.a[7]; bool member = r.p(0.5);
  auto quiet = [&](bool on) { W.suppressMaint = on; };
  switch (op) {
  case 0: { int n = peek_num_vars(M.m); if (n > 90) return; int at = (unsigned)s.a[3] % n, want = 0; Cal_Bdd raw = M.varH[M.order[at]]; BDD ref(M.m, raw); ref.UnFree(); if (x >= 0 && k % 16 == 7) { ref = H[x]; if (F[x].constant()) at = -1; else { at = n; for (int b = 0; b < nb; b++) if (F[x].dep(b)) at = std::min(at, peek_id_to_index(M.m, M.bitId[b])); } }
      BDD v; switch (k % 4) { case 0: v = cal->CreateNewVarFirst(); break; case 1: v = cal->CreateNewVarLast(); want = n; break; case 2: v = cal->CreateNewVarBefore(ref); want = at < 0 ? n : at; break; default: v = cal->CreateNewVarAfter(ref); want = at < 0 ? n : at + 1; }
      if (v.IsNull() || peek_num_vars(M.m) != n + 1 || cal->Vars() != n + 1) fail("newvar", "C++ variable creation left %ld variables, should be %d", cal->Vars(), n + 1);
      quiet(true); int id = v.Id(); if (M.varH.count(id)) fail("newvar", "identifier %d given twice", id); M.order.insert(M.order.begin() + want, id); fault(F_NEWVAR);
      for (int i = 0; i <= n; i++) { BDD q = cal->Index(i); if ((int)q.Id() != M.order[i] || (int)q.Index() != i) fail("newvar", "after a C++ variable creation index %d holds variable %d, should be %d", i, (int)q.Id(), M.order[i]); } quiet(false);
      if (nb < TTN) { M.idBit[id] = nb; M.bitId.push_back(id); M.varH[id] = v._bdd; vars.push_back(std::move(v)); } else { M.untracked.insert(id); M.varH[id] = v._bdd; extra.push_back(std::move(v)); } break; }
  case 1: case 2: { if (x < 0 || y < 0) return; int q = k % 7; const BDD &a = H[x], &b = H[y]; BDD g; int form = r.below(3);
      if (form == 0) g = q == 0 ? (a & b) : q == 1 ? (a | b) : q == 2 ? (a ^ b) : q == 3 ? cal->Nand(a, b) : q == 4 ? a.Nor(b) : q == 5 ? cal->Xnor(a, b) : a.Diff(b);
      else if (form == 1) g = q == 0 ? cal->And(a, b) : q == 1 ? a.Or(b) : q == 2 ? a.Xor(b) : q == 3 ? a.Nand(b) : q == 4 ? cal->Nor(a, b) : q == 5 ? a.Xnor(b) : a - b;
      else { g = a; BDD &w = q == 0 ? (g &= b) : q == 1 ? (g |= b) : q == 2 ? (g ^= b) : q == 6 ? (g -= b) : (g = cal->Or(a, b)); if (&w != &g) fail("cpp-assign", "a compound assignment does not return its left side"); if (q == 3 || q == 4 || q == 5) q = 1; }
      set(s.a[1], std::move(g), bop(q, F[x], F[y]), "binary operation", how); break; }
  case 3: { if (x < 0) return; const TT &f = F[x]; const BDD &h = H[x]; int want = f.zero() ? CAL_BDD_TYPE_ZERO : f.one() ? CAL_BDD_TYPE_ONE : CAL_BDD_TYPE_NONTERMINAL; for (int b = 0; b < nb; b++) { if (f == TT::var(b)) want = CAL_BDD_TYPE_POSVAR; if (f == ~TT::var(b)) want = CAL_BDD_TYPE_NEGVAR; }
      if ((int)h.Type() != want) fail("type", "C++ type %d, should be %d", (int)h.Type(), want);
      if (h.IsOne() != f.one() || cal->IsOne(h) != f.one() || h.IsZero() != f.zero() || cal->IsZero(h) != f.zero() || h.IsConst() != f.constant() || cal->IsConst(h) != f.constant() || h.IsNull() || cal->IsNull(h) || !cal->IsNull(BDD()) || !cal->IsNull(cal->Null())) fail("const-test", "C++ constant tests disagree with the function");
      if (!f.zero()) { bool cube = true; TT g = f; for (int b = 0; b < nb && cube; b++) if (g.dep(b)) { TT p = g.cof(b, 1), q = g.cof(b, 0); if (p.zero()) g = q; else if (q.zero()) g = p; else cube = false; } if ((member ? h.IsCube() : cal->IsCube(h)) != cube) fail("cube", "C++ cube test returned %d", !cube); }
      for (int b = 0; b < nb; b++) if ((member ? h.DependsOn(vars[b]) : cal->DependsOn(h, vars[b])) != f.dep(b)) fail("depends", "C++ DependsOn is wrong for variable %d", M.bitId[b]);
      if (fabs((member ? h.SatisfyingFraction() : cal->SatisfyingFraction(h)) - f.fraction()) > 1e-12) fail("fraction", "C++ satisfying fraction is wrong"); break; }
  case 4: { if (x < 0 || y < 0) return; bool e = F[x] == F[y]; if ((H[x] == H[y]) != e || (H[x] != H[y]) == e || H[x].IsEqualTo(H[y]) != e || cal->IsEqual(H[x], H[y]) != e || !(H[x] == H[x]) || H[x] != H[x] || H[x] == BDD()) fail("equal", "C++ equality disagrees with function equality"); break; }
  case 5: { if (x < 0) return; if (F[x].constant()) { BDD g = k % 3 == 0 ? (member ? H[x].If() : cal->If(H[x])) : k % 3 == 1 ? (member ? H[x].Then() : cal->Then(H[x])) : (member ? H[x].Else() : cal->Else(H[x])); BDD c = g; if (!g.IsNull() || !c.IsNull() || g._bdd) fail("branch", "C++ branch of a constant is not the null function"); break; } int top = -1; for (int b = 0; b < nb; b++) if (F[x].dep(b) && (top < 0 || peek_id_to_index(M.m, M.bitId[b]) < peek_id_to_index(M.m, M.bitId[top]))) top = b;
      quiet(true); if ((int)(member ? H[x].Id() : cal->IfId(H[x])) != M.bitId[top] || (int)(member ? H[x].Index() : cal->IfIndex(H[x])) != peek_id_to_index(M.m, M.bitId[top])) fail("top-variable", "C++ top variable is wrong");
      int q = k % 3; BDD g = q == 0 ? (member ? H[x].If() : cal->If(H[x])) : q == 1 ? (member ? H[x].Then() : cal->Then(H[x])) : member ? H[x].Else() : cal->Else(H[x]); quiet(false); set(s.a[1], std::move(g), q == 0 ? TT::var(top) : F[x].cof(top, q == 1), "branch", how); break; }
  case 6: { if (x < 0 || F[x].zero()) return; bool sup = k & 1; std::vector<BDD> v; std::vector<int> bs; if (sup) { for (int b = 0; b < nb; b++) if (r.p(0.5)) { bs.push_back(b); v.push_back(vars[b]); } cal->TempAssociationInit(v.begin(), v.end()); cal->AssociationSetCurrent(-1); }
      BDD g = sup ? (member ? H[x].SatisfySupport() : cal->SatisfySupport(H[x])) : member ? H[x].Satisfy() : cal->Satisfy(H[x]); TT t = evalB(g, "satisfying assignment"); if (t.zero() || !t.implies(F[x])) fail("satisfy", "a C++ satisfying assignment does not satisfy the function");
      if (!g.IsCube() && !t.one()) fail("satisfy", "a C++ satisfying assignment is not a cube"); for (int b : bs) if (!t.dep(b)) fail("satisfy", "a C++ SatisfySupport leaves an associated variable open"); set(s.a[1], std::move(g), t, "satisfying assignment", how); if (sup) cal->TempAssociationQuit(); break; }
  case 7: case 8: { if (x < 0) return; // variable substitution; pairs given at once, or one after the other
      std::vector<std::pair<int, int>> pr; for (int b = 0; b < nb; b++) if (r.p(0.4)) pr.push_back({b, (int)r.below(nb)}); bool fun = op == 8; std::vector<TT> hold(nb); std::vector<const TT*> g(TTN, nullptr); size_t cut = r.p(0.5) ? pr.size() : r.below(pr.size() + 1); std::vector<BDD> a, b2;
      for (size_t i = 0; i < pr.size(); i++) { int j = fun ? pick((int)r.below(1000)) : -1; BDD rep = j >= 0 ? H[j] : vars[pr[i].second]; hold[pr[i].first] = j >= 0 ? F[j] : TT::var(pr[i].second); g[pr[i].first] = &hold[pr[i].first]; auto &t = i < cut ? a : b2; t.push_back(vars[pr[i].first]); t.push_back(rep); }
      cal->TempAssociationInit(a.begin(), a.end(), true); if (!b2.empty() || (k & 2)) cal->TempAssociationAugment(b2.begin(), b2.end(), true); cal->AssociationSetCurrent(-1); TT f = F[x].subst(g); set(s.a[1], fun ? cal->Substitute(H[x]) : cal->VarSubstitute(H[x]), f, fun ? "Substitute" : "VarSubstitute", how); cal->TempAssociationQuit(); break; }
  case 9: { if (x < 0) return; std::vector<BDD> v; std::vector<int> ids; TT f = F[x]; bool fa = k & 1; for (int b = 0; b < nb; b++) { double q = r.p(0.5); if (r.p(0.5)) continue; if (q) v.push_back(vars[b]); else ids.push_back(M.bitId[b]); f = fa ? f.forall(b) : f.exists(b); }
      if (member) { cal->TempAssociationInit(v.begin(), v.end()); cal->TempAssociationAugment(ids.begin(), ids.end()); } else { cal->TempAssociationInit(ids.begin(), ids.end()); cal->TempAssociationAugment(v.begin(), v.end()); } cal->AssociationSetCurrent(-1); set(s.a[1], fa ? cal->ForAll(H[x]) : cal->Exists(H[x]), f, "quantification", how); cal->TempAssociationQuit(); break; }
  case 10: { if (x < 0) return; bool pairs = k & 1; std::vector<BDD> v; for (int b = 0; b < nb; b++) if (r.p(0.4)) { v.push_back(vars[b]); if (pairs) v.push_back(H[x]); } if (v.empty()) return; int a = cal->AssociationInit(v.begin(), v.end(), pairs), b = cal->AssociationInit(v.rbegin().base() - v.size(), v.end(), pairs); if (a < 0 || a != b) fail("association-id", "the same association is %d and %d", a, b);
      if (cal->AssociationSetCurrent(a) != -1 || cal->AssociationSetCurrent(-1) != a || cal->AssociationSetCurrent(a + 500) != -1) fail("association-current", "C++ AssociationSetCurrent does not report the previous association"); cal->AssociationQuit(a); if (cal->AssociationSetCurrent(a) != -1 || cal->AssociationSetCurrent(-1) != a) fail("association-id", "an association defined twice and released once is gone"); cal->AssociationQuit(b);
      if (cal->AssociationSetCurrent(a) != -1 || cal->AssociationSetCurrent(-1) != -1) fail("association-id", "a released association can still be selected"); break; }
  case 11: { if (x < 0) return; int rc = H[x].RefCount(); if (!F[x].constant() && rc != (int)peek_user_refcount(H[x]._bdd)) fail("cpp-refcount", "RefCount says %d, the node says %u", rc, peek_user_refcount(H[x]._bdd)); if (BDD().RefCount() != 255) fail("cpp-refcount", "RefCount of null is %d", BDD().RefCount());
      if (!F[x].constant() && rc < 250) { BDD c(H[x]); int up = H[x].RefCount(); BDD d(std::move(c)); int same = H[x].RefCount(); c = d; int up2 = H[x].RefCount(); d = BDD(); int down = H[x].RefCount(); if (up != rc + 1 || same != up || up2 != rc + 2 || down != rc + 1) fail("cpp-refcount", "copying, moving, assigning, dropping a handle used %d times gave %d %d %d %d", rc, up, same, up2, down); } break; }
  case 12: { if (x < 0) return; std::string t = H[x].ToString(); std::string want; if (F[x].zero()) want = "(0)"; else if (F[x].one()) want = "(1)"; else { quiet(true); BDD a = H[x].Then(), b = H[x].Else(); std::stringstream ss; ss << "(" << H[x].Id() << ", " << a._bdd << ", " << b._bdd << ")"; t = H[x].ToString(); want = ss.str(); quiet(false); } if (t != want || BDD().ToString() != "NULL") fail("cpp-print", "ToString gives %s, should be %s", t.c_str(), want.c_str()); break; }
  case 13: { if (x < 0) return; quiet(true); Cal_Bdd h = H[x]._bdd; int ll = 20 + r.below(70); BDD &B = H[x]; std::vector<BDD> v(1, B); if (y >= 0) v.push_back(H[y]); if (z >= 0) v.push_back(H[z]); std::vector<Cal_Bdd> c; for (auto &b : v) c.push_back(b._bdd); c.push_back(nullptr);
      auto same = [&](const char *what, const std::string &a, const std::string &b) { if (a != b) fail("cpp-print", "C++ %s differs from the C form", what); };
      same("Print", grab([&](FILE *f) { member ? B.Print(f) : cal->Print(B, f); }), grab([&](FILE *f) { Cal_BddPrintBdd(M.m, h, Cal_BddNamingFnNone, Cal_BddTerminalIdFnNone, NULL, f); }));
      same("PrintProfile", grab([&](FILE *f) { member ? B.PrintProfile(ll, f) : cal->PrintProfile(B, ll, f); }), grab([&](FILE *f) { Cal_BddPrintProfile(M.m, h, Cal_BddNamingFnNone, NULL, ll, f); }));
      same("PrintFunctionProfile", grab([&](FILE *f) { member ? B.PrintFunctionProfile(ll, f) : cal->PrintFunctionProfile(B, ll, f); }), grab([&](FILE *f) { Cal_BddPrintFunctionProfile(M.m, h, Cal_BddNamingFnNone, NULL, ll, f); }));
      same("PrintProfile of several", grab([&](FILE *f) { member ? cal->PrintProfile(v, ll, f) : cal->PrintProfile(v.begin(), v.end(), ll, f); }), grab([&](FILE *f) { Cal_BddPrintProfileMultiple(M.m, c.data(), Cal_BddNamingFnNone, NULL, ll, f); }));
      same("PrintFunctionProfile of several", grab([&](FILE *f) { member ? cal->PrintFunctionProfile(v, ll, f) : cal->PrintFunctionProfile(v.begin(), v.end(), ll, f); }), grab([&](FILE *f) { Cal_BddPrintFunctionProfileMultiple(M.m, c.data(), Cal_BddNamingFnNone, NULL, ll, f); }));
      std::string nm("F"); auto cap = [&](const std::function<void()> &f) { fflush(stdout); W.out.clear(); W.catchOut = true; f(); fflush(stdout); W.catchOut = false; return W.out; }; if (peek_num_vars(M.m) <= 26) same("FunctionPrint", cap([&] { member ? B.FunctionPrint(nm) : cal->FunctionPrint(B, nm); }), cap([&] { Cal_BddFunctionPrint(M.m, h, (char *)"F"); })); quiet(false); break; }
  case 14: { if (x < 0) return; quiet(true); bool neg = k & 1; int n = peek_num_vars(M.m); std::vector<BDD> v(1, H[x]); if (y >= 0) v.push_back(H[y]); if (z >= 0) v.push_back(~H[z]); std::vector<Cal_Bdd> c; for (auto &b : v) c.push_back(b._bdd); c.push_back(nullptr);
      if ((long)cal->Size(v, neg) != Cal_BddSizeMultiple(M.m, c.data(), neg) || (long)cal->Size(v.begin(), v.end(), neg) != Cal_BddSizeMultiple(M.m, c.data(), neg) || cal->Size(v) != cal->Size(v, true) || H[x].Size() != H[x].Size(true) || (long)H[x].Size(neg) != Cal_BddSize(M.m, H[x]._bdd, neg)) fail("cpp-size", "C++ size of %zu functions differs from the C form", v.size());
      std::vector<long> want(n + 1); Cal_BddProfileMultiple(M.m, c.data(), want.data(), neg); if ((member ? cal->Profile(v, neg) : cal->Profile(v.begin(), v.end(), neg)) != want) fail("cpp-profile", "C++ profile of %zu functions differs from the C form", v.size());
      Cal_BddProfile(M.m, H[x]._bdd, want.data(), neg); if ((member ? H[x].Profile(neg) : cal->Profile(H[x], neg)) != want) fail("cpp-profile", "C++ profile differs from the C form");
      std::fill(want.begin(), want.end(), 0); Cal_BddFunctionProfileMultiple(M.m, c.data(), want.data()); auto eq = [&](const std::vector<long> &g) { for (int i = 0; i < n; i++) if ((int)g.size() < n || g[i] != want[i]) fail("cpp-profile", "C++ function profile differs from the C form"); };
      eq(member ? cal->FunctionProfile(v) : cal->FunctionProfile(v.begin(), v.end())); Cal_BddFunctionProfile(M.m, H[x]._bdd, want.data()); eq(member ? H[x].FunctionProfile() : cal->FunctionProfile(H[x])); quiet(false); break; }
  case 15: { std::string st = grab([&](FILE *f) { cal->Stats(f); }); if (st.empty()) fail("cpp-stats", "Stats printed nothing"); if (cal->Nodes() != (unsigned long)Cal_BddManagerGetNumNodes(M.m) || cal->TotalSize() != (unsigned long)Cal_BddTotalSize(M.m) || cal->Vars() != Cal_BddVars(M.m)) fail("cpp-stats", "C++ counts differ from the C form"); cal->SetGCLimit();
      if (k % 4 == 0 && M.tech == 0) cal->SetParameters(1 + s.a[1] % 200, 1 + s.a[2] % 300, (k & 4) ? 0.75 : 0.0, (k & 8) ? 0.9 : 0.3); break; }
  case 16: { if (x < 0 || y < 0) return; long lim = (long)cal->Nodes() + s.a[1] % 30 - 3; if (lim < 1) lim = 1; cal->Overflow(); if (cal->NodeLimit(lim) != 0) fail("limit", "C++ NodeLimit reported an earlier limit"); W.warnings.clear(); TT f = F[x] ^ F[y]; bool sat = M.saturated; BDD g = (H[x] ^ H[y]); bool over = cal->Overflow(), again = cal->Overflow();
      if (g.IsNull() && !over) fail("overflow", "a C++ operation returned null without the overflow condition"); if (again) fail("overflow", "the overflow condition is not cleared by asking"); if (!g.IsNull() && evalB(g, "Xor under a node limit") != f) fail("wrong-result", "C++ Xor under a node limit is wrong");
      { BDD n; BDD q = H[x] & n, p = n.Identity(), t = ~g; if (!q.IsNull() || !p.IsNull() || t.IsNull() != g.IsNull()) fail("null-propagation", "a C++ operation on null returned a function"); } if (cal->NodeLimit(0) != lim) fail("limit", "C++ NodeLimit does not report the limit"); M.saturated = sat; set(s.a[1], H[x] ^ H[y], f, "Xor after the limit was lifted", how); break; }
  case 17: { if (x < 0 || y < 0) return; cal->SetGCMode(false); int n = peek_num_gc(M.m); TT f = F[x] & ~F[y]; BDD g = H[x] - H[y]; for (int i = 0; i < 3; i++) g = ~g; if (peek_num_gc(M.m) != n) fail("gc-while-off", "a collection ran although switched off through the C++ interface"); cal->SetGCMode(true); set(s.a[1], std::move(g), ~f, "Diff", how); break; }
  case 18: { if (x < 0) return; // a second manager comes and goes; handles change sides
      if (k % 3) return; Cal c2(2 + r.below(3)); { BDD a = c2.Id(1) & ~c2.Id(2), t = H[x], u; u = t; t = a; a = u; if (t._bddManager != c2._bddManager || a._bddManager != M.m || a != H[x]) fail("cpp-assign", "an assigned handle refers to the wrong manager"); BDD w(std::move(t)); t = std::move(a); u = std::move(w); if (u != (c2.Id(1) & ~c2.Id(2)) || t != H[x]) fail("cpp-move", "handles moved between managers changed"); std::swap(t, u); }
      if (r.p(0.5)) { Cal c3(std::move(c2)); if (c3.Vars() < 2) fail("cpp-move", "a moved manager lost its variables"); } break; }
  case 19: { if (x < 0 || y < 0 || z < 0) return; int q = k % 6; TT b = TT::var((unsigned)s.a[3] % nb); int bit = (unsigned)s.a[3] % nb, bit2 = (unsigned)s.a[4] % nb; switch (q) {
      case 0: set(s.a[1], member ? H[x].ITE(H[y], H[z]) : cal->ITE(H[x], H[y], H[z]), TT::ite(F[x], F[y], F[z]), "ITE", how); break;
      case 1: set(s.a[1], member ? H[x].Compose(vars[bit], H[y]) : cal->Compose(H[x], vars[bit], H[y]), F[x].compose(bit, F[y]), "Compose", how); break;
      case 2: { TT c = TT::var(bit2); std::vector<const TT*> g(TTN, nullptr); g[bit] = &c; g[bit2] = &b; TT f = F[x].subst(g); set(s.a[1], member ? H[x].SwapVars(vars[bit], vars[bit2]) : cal->SwapVars(H[x], vars[bit], vars[bit2]), f, "SwapVars", how); break; }
      case 3: case 4: { if (F[y].zero()) return; BDD g = q == 3 ? (member ? H[x].Cofactor(H[y]) : cal->Cofactor(H[x], H[y])) : member ? H[x].Reduce(H[y]) : cal->Reduce(H[x], H[y]); TT t = evalB(g, "Cofactor/Reduce"); if (!((t ^ F[x]) & F[y]).zero()) fail("wrong-result", "C++ %s differs inside the care set", q == 3 ? "Cofactor" : "Reduce"); quiet(true); if (q == 4 && g.Size() > H[x].Size()) fail("larger", "C++ Reduce returned a larger function"); quiet(false); set(s.a[1], std::move(g), t, "Cofactor/Reduce", how); break; }
      default: { bool imp = k & 8; TT want = F[x] & (imp ? ~F[y] : F[y]); BDD g = imp ? (member ? H[x].Implies(H[y]) : cal->Implies(H[x], H[y])) : member ? H[x].Intersects(H[y]) : cal->Intersects(H[x], H[y]); TT t = evalB(g, "witness"); if (!t.implies(want) || t.zero() != want.zero()) fail("wrong-result", "C++ witness is wrong"); set(s.a[1], std::move(g), t, "witness", how); } } break; }
  default: { std::set<int> js; std::vector<BDD> v; std::vector<TT> fs; int q = k % 3; int n = r.below(5); TT f(q == 0); for (int i = 0; i < n; i++) { int j = pick((int)r.below(1000)); if (j < 0) continue; v.push_back(H[j]); fs.push_back(F[j]); f = bop(q, f, F[j]); }
      if (k & 8) { if (v.empty()) return; set(s.a[1], q == 0 ? (member ? cal->And(v) : cal->And(v.begin(), v.end())) : q == 1 ? (member ? cal->Or(v) : cal->Or(v.begin(), v.end())) : member ? cal->Xor(v) : cal->Xor(v.begin(), v.end()), f, "multiway operation", how); break; }
      if (v.size() < 2) return; if (v.size() % 2) { v.pop_back(); fs.pop_back(); } std::vector<BDD> o = q == 0 ? (member ? cal->PairwiseAnd(v) : cal->PairwiseAnd(v.begin(), v.end())) : q == 1 ? (member ? cal->PairwiseOr(v) : cal->PairwiseOr(v.begin(), v.end())) : member ? cal->PairwiseXor(v) : cal->PairwiseXor(v.begin(), v.end());
      if (o.size() != v.size() / 2) fail("cpp-pairwise", "pairwise operation on %zu pairs returned %zu functions", v.size() / 2, o.size()); for (size_t i = 0; i < o.size(); i++) if (evalB(o[i], "pairwise operation") != bop(q, fs[2 * i], fs[2 * i + 1])) fail("wrong-result", "C++ pairwise operation %zu is wrong", i); set(s.a[1], BDD(o[0]), bop(q, fs[0], fs[1]), "pairwise operation", how); }
  }
}
void execCpp(const Step &s) {
  Mgr &M = W.mg[0]; arena.tag = 900; int nb = M.bitId.size(); int how = s.a[6]; int x = pick(s.a[2]), y = pick(s.a[3]), z = pick(s.a[4]);
  Rng r((unsigned)s.a[5]); int bit = (unsigned)s.a[3] % nb, bit2 = (unsigned)s.a[4] % nb;
  if ((unsigned)s.a[0] % 3 == 0) { execCpp2(s, (unsigned)s.a[0] / 3 % 21); mirror(); return; }
  switch ((unsigned)s.a[0] / 3 % 34) {
  case 0: case 1: case 2: { // random function through operators
      TT f(r.p(0.5)); BDD g = f.one() ? cal->One() : cal->Zero(); int n = 2 + r.below(6);
      for (int i = 0; i < n; i++) { int b = r.below(nb), k = r.below(3); TT t = TT::var(b); BDD v = vars[b]; if (r.p(0.5)) { v = ~v; t = ~t; } if (r.p(0.5)) { int c = r.below(nb); v &= vars[c]; t = t & TT::var(c); }
        if (k == 0) g |= v; else if (k == 1) g ^= v; else g &= v; f = bop(k == 0 ? 1 : k == 1 ? 2 : 0, f, t); }
      set(s.a[1], std::move(g), f, "operator chain", how); break; }
  case 3: case 4: case 5: { if (x < 0 || y < 0) return; int k = (unsigned)s.a[7] % 7; BDD g = k == 0 ? H[x].And(H[y]) : k == 1 ? H[x] | H[y] : k == 2 ? cal->Xor(H[x], H[y]) : k == 3 ? H[x].Nand(H[y]) : k == 4 ? cal->Nor(H[x], H[y]) : k == 5 ? H[x].Xnor(H[y]) : H[x] - H[y];
      set(s.a[1], std::move(g), bop(k, F[x], F[y]), "binary operation", how); break; }
  case 6: { if (x < 0) return; int k = (unsigned)s.a[7] % 4; TT f = F[x]; // compound assignment on an existing handle, operand may be itself
      if (y < 0) return; TT g = F[y]; if (k == 0) { H[x] &= H[y]; F[x] = f & g; } else if (k == 1) { H[x] |= H[y]; F[x] = f | g; } else if (k == 2) { H[x] ^= H[y]; F[x] = f ^ g; } else { H[x] -= H[y]; F[x] = f & ~g; } break; }
  case 7: { if (x < 0) return; size_t i = (unsigned)s.a[1] % H.size(); H[i] = H[x]; F[i] = F[x]; V[i] = true; break; }                        // copy, possibly onto itself
  case 8: { if (x < 0) return; size_t i = (unsigned)s.a[1] % H.size(); if ((int)i == x) { BDD &q = H[i]; H[i] = std::move(q); if (!H[i]._bdd) V[i] = false; break; } H[i] = std::move(H[x]); F[i] = F[x]; V[i] = true; V[x] = false; break; }
  case 9: { size_t i = (unsigned)s.a[1] % H.size(); H[i] = BDD(); V[i] = false; break; }
  case 10: { if (x < 0) return; std::vector<BDD> v; for (int i = 0; i < 5; i++) v.push_back(H[x]); v.erase(v.begin() + 1); std::swap(v[0], v[1]); BDD t = v[2]; v.clear(); set(s.a[1], std::move(t), F[x], "vector shuffle", how); break; }
  case 11: { if (x < 0) return; set(s.a[1], r.p(0.5) ? ~H[x] : cal->Not(H[x]), ~F[x], "Not", how); break; }
  case 12: { if (x < 0) return; set(s.a[1], r.p(0.5) ? H[x].Identity() : cal->Identity(H[x]), F[x], "Identity", how); break; }
  case 13: { if (x < 0) return; BDD g = r.p(0.5) ? H[x].Regular() : cal->Regular(H[x]); TT got; std::string why; if (!evalHandle(M, g._bdd, got, &why)) fail("result-broken", "Regular: %s", why.c_str()); if (got != F[x] && got != ~F[x]) fail("wrong-result", "C++ Regular returned an unrelated function"); set(s.a[1], std::move(g), got, "Regular", how); break; }
  case 14: { if (x < 0 || y < 0 || z < 0) return; set(s.a[1], H[x].ITE(H[y], H[z]), TT::ite(F[x], F[y], F[z]), "ITE", how); break; }
  case 15: { if (x < 0 || y < 0) return; set(s.a[1], H[x].Compose(vars[bit2], H[y]), F[x].compose(bit2, F[y]), "Compose", how); break; }
  case 16: { if (x < 0) return; TT a = TT::var(bit), b = TT::var(bit2); std::vector<const TT*> g(TTN, nullptr); g[bit] = &b; g[bit2] = &a; TT f = F[x].subst(g); set(s.a[1], H[x].SwapVars(vars[bit], vars[bit2]), f, "SwapVars", how); break; }
  case 17: case 18: { if (x < 0) return; int k = (unsigned)s.a[7] % 3; std::vector<BDD> v; std::vector<int> ids; std::vector<int> bs; for (int b = 0; b < nb; b++) if (r.p(0.4)) { bs.push_back(b); v.push_back(vars[b]); ids.push_back(M.bitId[b]); }
      bool useIds = r.p(0.3); int id = -2; if (k == 2) { id = useIds ? cal->AssociationInit(ids.begin(), ids.end()) : cal->AssociationInit(v.begin(), v.end()); int old = cal->AssociationSetCurrent(id); if (old != -1) fail("association-current", "previous association was %d", old); }
      else { if (useIds) cal->TempAssociationInit(ids.begin(), ids.end()); else cal->TempAssociationInit(v.begin(), v.end()); cal->AssociationSetCurrent(-1); }
      TT f = F[x]; int w = r.below(3); int yy = y < 0 ? x : y; if (w == 2) f = f & F[yy]; for (int b : bs) f = w == 1 ? f.forall(b) : f.exists(b);
      set(s.a[1], w == 0 ? cal->Exists(H[x]) : w == 1 ? cal->ForAll(H[x]) : cal->RelProd(H[x], H[yy]), f, "quantification", how);
      if (k == 2) { cal->AssociationSetCurrent(-1); cal->AssociationQuit(id); } else if (k == 1) cal->TempAssociationQuit(); break; }
  case 19: { if (x < 0) return; std::vector<BDD> v; std::map<int, TT> mp; for (int b = 0; b < nb; b++) if (r.p(0.4)) { int j = -1; for (int t = 0; t < 4 && j < 0; t++) j = pick((int)r.below(1000)); if (j < 0) continue; v.push_back(vars[b]); v.push_back(H[j]); mp[b] = F[j]; }
      cal->TempAssociationInit(v.begin(), v.end(), true); std::vector<const TT*> g(TTN, nullptr); for (auto &e : mp) g[e.first] = &e.second; TT f = F[x].subst(g); cal->AssociationSetCurrent(-1); set(s.a[1], cal->Substitute(H[x]), f, "Substitute", how); cal->TempAssociationQuit(); break; }
  case 20: { std::vector<BDD> v; int k = (unsigned)s.a[7] % 3; TT f(k == 0); int n = 1 + r.below(5); for (int i = 0; i < n; i++) { int j = pick((int)r.below(1000)); if (j < 0) continue; v.push_back(H[j]); f = bop(k, f, F[j]); } if (v.empty()) return;
      set(s.a[1], k == 0 ? cal->And(v) : k == 1 ? cal->Or(v.begin(), v.end()) : cal->Xor(v), f, "multiway operation", how); break; }
  case 21: { std::vector<BDD> v; std::vector<TT> fs; int k = (unsigned)s.a[7] % 3; int n = 1 + r.below(4); for (int i = 0; i < n; i++) { int a = pick((int)r.below(1000)), b = pick((int)r.below(1000)); if (a < 0 || b < 0) continue; v.push_back(H[a]); v.push_back(H[b]); fs.push_back(bop(k, F[a], F[b])); } if (v.empty()) return;
      std::vector<BDD> o = k == 0 ? cal->PairwiseAnd(v) : k == 1 ? cal->PairwiseOr(v) : cal->PairwiseXor(v.begin(), v.end()); if (o.size() != fs.size()) fail("cpp-pairwise", "pairwise operation on %zu pairs returned %zu functions", fs.size(), o.size());
      for (size_t i = 0; i < o.size(); i++) set(s.a[1] + (int)i, BDD(o[i]), fs[i], "pairwise operation", how); break; }
  case 22: { if (x < 0 || y < 0 || F[y].zero()) return; bool co = r.p(0.5); BDD g = co ? H[x].Cofactor(H[y]) : cal->Reduce(H[x], H[y]); TT got; std::string why; if (!evalHandle(M, g._bdd, got, &why)) fail("result-broken", "C++ Cofactor/Reduce: %s", why.c_str());
      if (!((got ^ F[x]) & F[y]).zero()) fail("wrong-result", "C++ %s differs inside the care set", co ? "Cofactor" : "Reduce"); set(s.a[1], std::move(g), got, "Cofactor/Reduce", how); break; }
  case 23: { if (x < 0 || F[x].constant()) return; auto topOf = [&]() { int top = -1; for (int b = 0; b < nb; b++) if (F[x].dep(b) && (top < 0 || peek_id_to_index(M.m, M.bitId[b]) < peek_id_to_index(M.m, M.bitId[top]))) top = b; return top; };
      int k = r.below(3); BDD g = k == 0 ? H[x].If() : k == 1 ? H[x].Then() : cal->Else(H[x]); int top = topOf(); set(s.a[1], std::move(g), k == 0 ? TT::var(top) : F[x].cof(top, k == 1), "branch", how); break; }
  case 24: { if (x < 0) return; bool neg = r.p(0.5); W.suppressMaint = true; /* sizes are compared within one variable order */ long n = Cal_BddSize(M.m, H[x]._bdd, neg); if ((long)H[x].Size(neg) != n || (long)cal->Size(H[x], neg) != n) fail("cpp-size", "C++ size differs from the C size");
      std::vector<BDD> one(3, H[x]); if ((long)cal->Size(one.begin(), one.end(), neg) != n) fail("cpp-size", "C++ size of three equal handles differs from the size of one");
      int nv = peek_num_vars(M.m); std::vector<long> want(nv + 1); Cal_BddProfile(M.m, H[x]._bdd, want.data(), neg); std::vector<long> got = H[x].Profile(neg); if (got != want) fail("cpp-profile", "C++ profile has %zu entries and differs from the C profile (%zu entries)", got.size(), want.size());
      std::vector<long> g2 = cal->Profile(one, neg); if (g2 != want) fail("cpp-profile", "C++ profile of a container has %zu entries and differs", g2.size());
      Cal_BddFunctionProfile(M.m, H[x]._bdd, want.data()); want[nv] = 0; got = H[x].FunctionProfile(); g2 = cal->FunctionProfile(one); for (int i = 0; i < nv; i++) { if ((int)got.size() < nv || got[i] != want[i]) fail("cpp-profile", "C++ function profile (%zu entries) differs", got.size()); if ((int)g2.size() < nb || g2[i] != want[i]) fail("cpp-profile", "C++ function profile of a container (%zu entries) differs", g2.size()); }
      W.suppressMaint = false; mix(n); break; }
  case 25: { if (x < 0) return; if (fabs(H[x].SatisfyingFraction() - F[x].fraction()) > 1e-12) fail("fraction", "C++ satisfying fraction is wrong"); if (H[x].IsOne() != F[x].one() || H[x].IsZero() != F[x].zero() || H[x].IsConst() != F[x].constant() || H[x].IsNull()) fail("const-test", "C++ constant tests disagree"); if (H[x].DependsOn(vars[bit]) != F[x].dep(bit)) fail("depends", "C++ DependsOn disagrees");
      if (y >= 0 && ((H[x] == H[y]) != (F[x] == F[y]) || (H[x] != H[y]) == (F[x] == F[y]) || cal->IsEqual(H[x], H[y]) != (F[x] == F[y]))) fail("equal", "C++ equality disagrees with function equality"); break; }
  case 26: { if (x < 0 || F[x].zero()) return; BDD g = H[x].Satisfy(); TT got; std::string why; if (!evalHandle(M, g._bdd, got, &why)) fail("result-broken", "C++ Satisfy: %s", why.c_str()); if (got.zero() || !got.implies(F[x])) fail("satisfy", "C++ Satisfy is not satisfying"); set(s.a[1], std::move(g), got, "Satisfy", how); break; }
  case 27: { if (x < 0) return; std::string t = H[x].ToString(); mix(t.size()); char *b = nullptr; size_t l = 0; FILE *fp = open_memstream(&b, &l); H[x].Print(fp); cal->PrintProfile(H[x], 40, fp); H[x].PrintFunctionProfile(40, fp); fclose(fp); mix(l); ::free(b); break; }
  case 28: { if (x < 0 || y < 0) return; bool imp = r.p(0.5); TT b = F[x] & (imp ? ~F[y] : F[y]); BDD g = imp ? H[x].Implies(H[y]) : cal->Intersects(H[x], H[y]); TT got; std::string why; if (!evalHandle(M, g._bdd, got, &why)) fail("result-broken", "C++ witness: %s", why.c_str()); if (!got.implies(b) || got.zero() != b.zero()) fail("wrong-result", "C++ witness is wrong"); set(s.a[1], std::move(g), got, "witness", how); break; }
  case 29: { if (x < 0 || y < 0) return; BDD l = H[x] & H[y], u = H[x] | H[y]; TT lo = F[x] & F[y], hi = F[x] | F[y], got; BDD g = cal->Between(l, u); std::string why; if (!evalHandle(M, g._bdd, got, &why)) fail("result-broken", "C++ Between: %s", why.c_str()); if (!lo.implies(got) || !got.implies(hi)) fail("wrong-result", "C++ Between is outside its bounds"); set(s.a[1], std::move(g), got, "Between", how); break; }
  case 30: { cal->GC(); fault(F_EXPGC); mirror(); extern void auditReclaimed(int); auditReclaimed(0); break; }
  case 31: { W.orderMayChange = true; cal->DynamicReordering((Cal::ReorderTechnique)(1 + r.below(2)), (Cal::ReorderMethod)r.below(2)); cal->Reorder(); cal->DynamicReordering((Cal::ReorderTechnique)M.tech, (Cal::ReorderMethod)M.meth); fault(F_EXPREORDER); break; }
  case 32: { if (x < 0) return; BDD a; BDD b(a); a = H[x]; b = std::move(a); { BDD n, k(n), c = ~n, d = n.Identity(); if (!k.IsNull() || !c.IsNull() || !d.IsNull()) fail("null-propagation", "a C++ operation on a null handle returned a function"); } if (!a.IsNull() || b.IsNull()) fail("cpp-move", "a moved-from handle keeps its function or the target is null"); a = b; if (a != b) fail("cpp-move", "copy differs"); set(s.a[1], std::move(b), F[x], "move chain", how); break; }
  default: { if (bit < 0) return; set(s.a[1], r.p(0.5) ? cal->Id(M.bitId[bit]) : cal->Index(peek_id_to_index(M.m, M.bitId[bit])), TT::var(bit), "variable", how); break; }
  }
  mirror();
}
