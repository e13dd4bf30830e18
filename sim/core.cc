#include "core.h"
#include <stdarg.h>
#include <unistd.h>
#include <math.h>
World W; Shared *sh; int TTN = 6; sim_tune simTune;
const char *faultName[] = {"automatic_gc","automatic_repack","automatic_reorder","explicit_gc","explicit_reorder","node_limit","page_segment_refused","io_short_transfer","io_read_error","io_byte_flip","io_truncation","io_write_error","break_refused","break_foreign_move","variable_created_midway","refcount_saturated","mode_switch","out_of_memory_exit","pipeline_abandoned","cache_evicted"};
const char *probeName[] = {"over_1000_nodes","reordering_changed_order","operation_returned_null_on_overflow","association_id_reused","temp_association_redefined","pipeline_gc_midway","pipeline_reorder_midway","oom_exit","oom_backoff","variable_table_grew","refcount_saturated","undump_null","undump_ok","gc_freed_nodes","maintenance_inside_call","block_reordered","equal_true","manager_quit_midlife","pipeline_too_deep_refused","steady_state_churn","same_question_new_context","wide_run","model_full","crowded_node_saturated","huge_tables","limit_watched_growth","multiway_over_64_arguments","request_while_pipeline_open","dump_over_65536_shared"};
void mix(uint64_t x) { W.hash ^= x + 0x9e3779b97f4a7c15ull + (W.hash << 6) + (W.hash >> 2); W.hash *= 1099511628211ull; }
[[noreturn]] static void leave() { sh->hash = W.hash; sh->nsteps = W.step; sh->done = 1; _exit(0); }
[[noreturn]] void simViolation(const char *cls, const std::string &msg) {
  sh->violated = 1; snprintf(sh->cls, sizeof sh->cls, "%s", cls); snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
  sh->step = W.step; mix(0xbad); leave(); }
[[noreturn]] void fail(const char *cls, const char *fmt, ...) { char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); simViolation(cls, b); }
[[noreturn]] void finishOk() { leave(); }
void obs(const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  uint64_t h = 1469598103934665603ull; for (int i = 0; i < n && i < (int)sizeof b; i++) { h ^= (unsigned char)b[i]; h *= 1099511628211ull; } mix(h);
  if (W.recordObs) { std::string t = std::to_string(W.step) + "\t" + b; for (auto &ch : t) if (ch == '\n') ch = '|'; t += "\n";
    if (sh->obsLen + t.size() + 1 < sizeof sh->obsText) { memcpy(sh->obsText + sh->obsLen, t.data(), t.size()); sh->obsLen += t.size(); } } }
extern "C" void sim_exit(int code) {
  (void)code;
  if (W.cfg.prop == "P15" && arena.alignedRefused && arena.minRefused > 4 * simPageSize) fail("gave-up-early", "out of memory reported although chunks smaller than %zu bytes were never asked for", arena.minRefused);
  if ((W.expectExit && (arena.alignedRefused || arena.brkRefused)) || (W.cfg.prop == "P15" && arena.alignedRefused && arena.minRefused != ~0ull)) { fault(F_OOM); probe(P_OOM_EXIT); mix(0xe817); finishOk(); }
  std::string t = W.warnings.size() > 300 ? W.warnings.substr(W.warnings.size() - 300) : W.warnings;
  fail("fatal-exit", "the library terminated the process: %s", t.c_str());
}
extern "C" void sim_maintenance_point(void *m) {
  int p = W.point++; sh->points++;
  int act = ACT_NONE;
  if (W.cur && !W.suppressMaint) for (auto &x : W.cur->maint) if (x.first == p) act = x.second;
  if (act == ACT_REORDER && !peek_reorder_enabled(m)) { /* stays a collection: policy code decides */ }
  if (act != ACT_NONE && p > 0) probe(P_MID_OP);
  if (act == ACT_GC) fault(F_GC); if (act == ACT_REPACK) fault(F_REPACK); if (act == ACT_REORDER) fault(F_REORDER);
  if (act) W.maintDone++;
  poke_maintenance(m, act, !W.cfg.natural || W.suppressMaint);
}
// ---------------------------------------------------------------- evaluation
struct Evaluator {
  Mgr &M; std::unordered_map<uintptr_t, TT> memo; std::string why; int depth = 0;
  explicit Evaluator(Mgr &m) : M(m) {}
  bool ev(Edge e, int parentIx, TT &out) {
    if (peek_is_const(e)) { out = TT((e.node & 1) == 0 ? true : false);
      if ((peek_one(M.m).node & ~1ull) != (e.node & ~1ull)) { why = "edge labelled constant does not point to the constant"; return false; }
      if ((e.node & 1) == (peek_one(M.m).node & 1)) out = TT(true); else out = TT(false);
      return true; }
    if (e.id == 0 || (int)e.id > peek_num_vars(M.m)) { why = "edge with variable id " + std::to_string(e.id); return false; }
    int ix = peek_id_to_index(M.m, e.id);
    if (ix <= parentIx) { why = "diagram not ordered: level " + std::to_string(ix) + " below level " + std::to_string(parentIx); return false; }
    uintptr_t n = e.node & ~(uintptr_t)1;
    auto it = memo.find(n);
    if (it == memo.end()) {
      Edge r = e; r.node = n;
      if (peek_forwarded(r)) { why = "live diagram contains a forwarded node"; return false; }
      if (peek_refcount(r) == 0) { why = "live diagram contains a node with reference count 0"; return false; }
      auto b = M.idBit.find(e.id);
      if (b == M.idBit.end()) { why = "function depends on variable " + std::to_string(e.id) + " it must not depend on"; return false; }
      TT t, f; Edge te = peek_then(r), ee = peek_else(r);
      if (te.node & 1) { why = "then edge is complemented"; return false; }
      if (te.node == ee.node) { why = "redundant node"; return false; }
      if (++depth > 70000) { why = "cyclic diagram"; return false; }
      if (!ev(te, ix, t) || !ev(ee, ix, f)) return false;
      depth--;
      TT v = TT::ite(TT::var(b->second), t, f);
      it = memo.emplace(n, v).first;
    }
    out = (e.node & 1) ? ~it->second : it->second;
    return true;
  }
};
bool evalHandle(Mgr &M, Cal_Bdd h, TT &out, std::string *why) {
  Evaluator E(M);
  if (!h) { if (why) *why = "null handle"; return false; }
  if (!E.ev(peek_internal(M.m, h), -1, out)) { if (why) *why = E.why; return false; }
  return true;
}
// ---------------------------------------------------------------- order bookkeeping
static std::vector<int> readOrder(Mgr &M) {
  int n = peek_num_vars(M.m); std::vector<int> o;
  for (int i = 0; i < n; i++) o.push_back(peek_index_to_id(M.m, i));
  return o;
}
void syncOrder(Mgr &M) {
  int n = peek_num_vars(M.m); auto o = readOrder(M);
  std::vector<int> seen(n + 1, 0);
  for (int i = 0; i < n; i++) {
    if (o[i] < 1 || o[i] > n || seen[o[i]]++) fail("order-map", "index %d maps to variable %d: order is not a permutation", i, o[i]);
    if (peek_id_to_index(M.m, o[i]) != i) fail("order-map", "variable %d is at index %d but is listed as index %d", o[i], i, peek_id_to_index(M.m, o[i]));
  }
  if (o != M.order) {
    if (!M.mayReorder && !(W.orderMayChange && &M == &W.mg[W.curMgr])) { std::string a, b; for (int x : M.order) a += std::to_string(x) + " "; for (int x : o) b += std::to_string(x) + " ";
      fail("order-changed", "order changed without a reordering request: [%s] -> [%s]", a.c_str(), b.c_str()); }
    probe(P_REORDERED_NONTRIVIAL);
    for (auto &b : M.blocks) {
      std::vector<int> pos, seq;
      for (int i = 0; i < n; i++) if (b.ids.count(o[i])) { pos.push_back(i); seq.push_back(o[i]); }
      for (size_t i = 1; i < pos.size(); i++) if (pos[i] != pos[i-1] + 1) fail("block-split", "variables of a block of %zu are no longer adjacent after reordering", pos.size());
      if (seq != b.order) { if (!b.re) {
          // a fixed block keeps the relative order of its variables (except inside reorderable sub-blocks)
          std::map<int,int> grp; std::map<int,size_t> gsz; int g = 0; // outermost reorderable sub-block of each variable
          for (auto &c : M.blocks) if (&c != &b && c.re) { bool sub = true; for (int x : c.ids) sub &= b.ids.count(x) > 0; if (sub && c.ids.size() < b.ids.size()) { ++g; for (int x : c.ids) if (c.ids.size() > gsz[x]) { grp[x] = g; gsz[x] = c.ids.size(); } } }
          auto key = [&](int x) { return grp.count(x) ? -grp[x] : x; };
          bool same = true; for (size_t i = 0; i < seq.size(); i++) same &= key(seq[i]) == key(b.order[i]);
          if (!same) fail("block-order", "relative order inside a fixed block changed"); }
        b.order = seq; probe(P_BLOCK_NONTRIVIAL); }
    }
    M.order = o;
  }
}
// ---------------------------------------------------------------- audits
struct WalkCtx { std::vector<std::pair<Edge, std::pair<Edge,Edge>>> nodes; std::vector<unsigned> rc; };
static void collect(void *c, Edge n, Edge t, Edge e, unsigned rc) { auto *w = (WalkCtx *)c; w->nodes.push_back({n, {t, e}}); w->rc.push_back(rc); }
static void assocCb(void *c, int id, int var, Edge e) { ((std::vector<std::pair<std::pair<int,int>,Edge>> *)c)->push_back({{id, var}, e}); }
void auditManager(int k) {
  Mgr &M = W.mg[k];
  syncOrder(M);
  Evaluator E(M);
  std::map<TT, Edge> canon; std::unordered_map<uintptr_t, unsigned> userRefs; std::unordered_map<uintptr_t, Cal_Bdd> userNode;
  auto one = [&](Cal_Bdd h, const TT &want, const char *what, int id) {
    TT got; if (!E.ev(peek_internal(M.m, h), -1, got)) fail("handle-broken", "%s %d: %s", what, id, E.why.c_str());
    if (got != want) fail("wrong-function", "%s %d denotes %s, should be %s", what, id, got.hex().c_str(), want.hex().c_str());
    Edge e = peek_internal(M.m, h);
    auto r = canon.emplace(want, e);
    if (!r.second && r.first->second.node != e.node) fail("not-canonical", "%s %d: two different nodes represent the same function %s", what, id, want.hex().c_str());
    uintptr_t key = (uintptr_t)h & ~(uintptr_t)1; userRefs[key]++; userNode[key] = h;
  };
  for (size_t i = 0; i < W.s.size(); i++) if (W.s[i].h && W.s[i].mgr == k) one(W.s[i].h, W.s[i].f, "handle in slot", (int)i);
  for (auto &v : M.varH) { auto b = M.idBit.find(v.first); if (b != M.idBit.end()) one(v.second, TT::var(b->second), "variable", v.first); else userRefs[(uintptr_t)v.second & ~(uintptr_t)1] += 1000; }
  { TT a; // distinct functions have distinct handles
    std::map<uintptr_t, const TT *> back; for (auto &c : canon) { auto r = back.emplace(c.second.node, &c.first); if (!r.second) fail("not-canonical", "one node represents two different functions"); } }
  for (auto &u : userRefs) { if (u.second >= 250) continue; Edge e = peek_internal(M.m, userNode[u.first]); if (peek_is_const(e)) continue;
    unsigned rc = peek_user_refcount(userNode[u.first]);
    if (rc == 255) { continue; }
    if (rc != u.second) fail("handle-count", "%u references outstanding on a handle, the package counts %u", u.second, rc); }
  std::vector<std::pair<std::pair<int,int>,Edge>> as; peek_assoc_edges(M.m, assocCb, &as);
  for (auto &a : as) {
    const Assoc *A = nullptr; if (a.first.first == -1) A = &M.temp; else for (auto &x : M.assocs) if (x.id == a.first.first) A = &x;
    if (!A) continue;
    auto b = M.idBit.find(a.first.second); if (b == M.idBit.end()) continue;
    auto v = A->map.find(b->second); if (v == A->map.end()) continue;
    TT got; if (!E.ev(a.second, -1, got)) fail("association-broken", "association %d, variable %d: %s", A->id, a.first.second, E.why.c_str());
    if (A->pairs && got != v->second) fail("association-broken", "association %d maps variable %d to %s, should be %s", A->id, a.first.second, got.hex().c_str(), v->second.hex().c_str());
  }
}
// After a full collection: node count == reachable nodes.
void auditReclaimed(int k) {
  Mgr &M = W.mg[k]; int n = peek_num_vars(M.m);
  std::unordered_map<uintptr_t, std::pair<Edge,Edge>> kids; std::vector<uintptr_t> st; std::set<uintptr_t> seen;
  auto push = [&](Edge e) { if (peek_is_const(e)) return; uintptr_t x = e.node & ~(uintptr_t)1; if (seen.insert(x).second) st.push_back(x); };
  size_t total = 0, pinned = 0;
  for (int id = 1; id <= n; id++) { WalkCtx w; peek_walk(M.m, id, collect, &w); total += w.nodes.size();
    if (peek_table_entries(M.m, id) != w.nodes.size()) fail("count-mismatch", "level of variable %d: %zu nodes stored, %lu counted", id, w.nodes.size(), peek_table_entries(M.m, id));
    for (size_t i = 0; i < w.nodes.size(); i++) { kids[w.nodes[i].first.node] = w.nodes[i].second; if (w.rc[i] >= 255) { pinned++; push(w.nodes[i].first); } } }
  for (size_t i = 0; i < W.s.size(); i++) if (W.s[i].h && W.s[i].mgr == k) push(peek_internal(M.m, W.s[i].h));
  for (auto &v : M.varH) push(peek_internal(M.m, v.second));
  { WalkCtx w; peek_walk(M.m, 0, collect, &w); for (size_t i = 0; i < w.nodes.size(); i++) if (w.rc[i] >= 255) push(w.nodes[i].second.first); }
  std::vector<std::pair<std::pair<int,int>,Edge>> as; peek_assoc_edges(M.m, assocCb, &as);
  for (auto &a : as) { bool alive = a.first.first == -1; for (auto &x : M.assocs) alive |= x.id == a.first.first; if (alive) push(a.second); }
  while (!st.empty()) { uintptr_t x = st.back(); st.pop_back(); auto it = kids.find(x); if (it == kids.end()) fail("reclaimed-live", "a node reachable from a live handle is not in any table after collection"); push(it->second.first); push(it->second.second); }
  { // no node is counted less often than it is used: it would be reclaimed while still needed
    std::unordered_map<uintptr_t, unsigned> use; auto ref = [&](Edge e) { if (!peek_is_const(e)) use[e.node & ~(uintptr_t)1]++; };
    std::vector<std::pair<uintptr_t, std::pair<int, unsigned>>> have;
    for (int id = 1; id <= n; id++) { WalkCtx w; peek_walk(M.m, id, collect, &w); for (size_t i = 0; i < w.nodes.size(); i++) { ref(w.nodes[i].second.first); ref(w.nodes[i].second.second); have.push_back({w.nodes[i].first.node, {id, w.rc[i]}}); } }
    { WalkCtx w; peek_walk(M.m, 0, collect, &w); for (auto &x : w.nodes) ref(x.second.first); }
    for (auto &a : as) { bool alive = a.first.first == -1; for (auto &x : M.assocs) alive |= x.id == a.first.first; if (alive) ref(a.second); }
    for (auto &h : have) { unsigned u = std::min(255u, use[h.first]); if (h.second.second < u) fail("count-short", "a node of variable %d is used %u times but counted %u times", h.second.first, use[h.first], h.second.second); } }
  unsigned long cnt = Cal_BddManagerGetNumNodes(M.m);
  cnt -= M.base;  // what an empty manager counts (the constant)
  if (cnt != total) fail("count-mismatch", "manager counts %lu nodes, tables hold %zu", cnt, total);
  if (cnt != seen.size()) fail("not-reclaimed", "after a full collection the manager counts %lu nodes, %zu are reachable (%zu pinned)", cnt, seen.size(), pinned);
}
void auditAll() {
  if (W.warnings.size() > W.warnSeen) { std::string t = W.warnings.substr(W.warnSeen); W.warnSeen = W.warnings.size();
    if (t.find("below zero") != std::string::npos) fail("refcount-underflow", "the package decremented a reference count below zero"); }
  for (size_t k = 0; k < W.mg.size(); k++) if (W.mg[k].live) {
    auditManager((int)k);
    unsigned long nn = peek_num_nodes(W.mg[k].m); if (nn > 1000) probe(P_NODES1K);
    mix(nn);
  }
  uint64_t st = 0; for (auto &x : W.s) if (x.h) st += x.f.hash() * 31; for (auto &M : W.mg) if (M.live) for (int id : M.order) st = st * 131 + id;
  mix(st);
  if (sh->nStates < 256) sh->stateHashes[sh->nStates++] = st ^ ((uint64_t)(W.cur ? W.cur->op : 0) << 56) ^ (W.maintDone * 0x9e37ull);
}
