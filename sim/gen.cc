// Configuration (swarm) and online step generation, driven by the seeded generator.
#include "core.h"
#include <math.h>
#include <string.h>
struct GenState { double w[O_COUNT]; double total; int maintPct; int acts[8], nacts; int start; double repeat; Step hist[16]; int nhist; } static G;
static void base(double *w) {
  for (int i = 0; i < O_COUNT; i++) w[i] = 0;
  w[O_RANDF] = 5; w[O_BIN] = 10; w[O_VAR] = 2; w[O_CONST] = .4; w[O_NOT] = 1.5; w[O_IDENT] = 1; w[O_FREE] = 4; w[O_ITE] = 2; w[O_CHURN] = 1; w[O_GC] = .8; w[O_EQUAL] = .5; w[O_PARAMS] = .2; }
static void add(double *w, std::initializer_list<std::pair<int, double>> l) { for (auto &x : l) w[x.first] += x.second; }
static int pickInt(Rng &r, std::initializer_list<int> l) { return *(l.begin() + r.below(l.size())); }
void genConfig(Config &c, const std::string &prop, uint64_t seed) {
  Rng r(seed); c = Config(); c.prop = prop; c.seed = seed; double *w = G.w; base(w); G.start = 0; G.nhist = 0; G.repeat = 0;
  int p = atoi(prop.c_str() + 1);
  c.bits = pickInt(r, {3, 4, 5, 5, 6, 6, 6, 7, 8}); if (r.p(0.08)) c.bits = 9 + r.below(3);
  c.nvars = c.bits; c.slots = 4 + r.below(10); c.steps = 12 + r.below(40); if (r.p(0.06)) c.steps = 150 + r.below(200);
  c.managers = 1;
  sim_tune &t = c.tune;
  t.gcCheck = pickInt(r, {1, 1, 2, 10, 100}); t.pagesThreshold = pickInt(r, {0, 1, 3, 3}); t.forwardedLimit = pickInt(r, {1, 5, 50, 50000}); t.pagesPerSegment = pickInt(r, {4, 4, 8, 16, 64});
  t.maxSegments = pickInt(r, {1, 2, 4, 32}); t.hashIndex = pickInt(r, {2, 3, 4, 6, 8}); t.cacheIndex = pickInt(r, {2, 3, 5, 8, 11}); t.minGcLimit = pickInt(r, {1, 10, 100, 10000}); t.reorderThreshold = pickInt(r, {0, 5, 50, 10000}); t.largeBdd = pickInt(r, {0, 4, 16, 1 << 19, 1 << 19});
  AllocCfg &a = c.alloc; a.seed = r.next() & 0x7fffffff; a.dir = r.below(3); a.reuse = r.below(4); a.gap = r.below(4); a.fill = r.below(4); a.brkStart = r.below(4096) * (r.p(0.5) ? 1 : 16);
  c.natural = r.p(0.3); c.dynTech = r.p(0.45) ? 1 + r.below(2) : 0; c.dynMeth = r.below(2);
  G.maintPct = pickInt(r, {0, 10, 30, 60, 90}); G.nacts = 0;
  int kinds = 1 + r.below(15); // swarm over the kinds of maintenance
  if (kinds & 1) G.acts[G.nacts++] = ACT_GC; if (kinds & 2) G.acts[G.nacts++] = ACT_REPACK; if (kinds & 4) { G.acts[G.nacts++] = ACT_REORDER; G.acts[G.nacts++] = ACT_REORDER; } if (kinds & 8) G.acts[G.nacts++] = ACT_CHECK;
  auto maint = [&](double k) { add(w, {{O_REORDER, 1.0 * k}, {O_DYN, .5 * k}, {O_NEWVAR, .4 * k}}); };
  auto someVars = [&]() { if (r.p(0.5)) c.nvars = 2 + r.below(c.bits - 1); };
  switch (p) {
  case 1: maint(.6); someVars(); add(w, {{O_BIN, 8}, {O_ITE, 5}, {O_NOT, 2}, {O_MULTI, 4}, {O_PAIRWISE, 4}, {O_WITNESS, 4}, {O_CHURN, 3}}); break;
  case 2: maint(1); someVars(); add(w, {{O_HUGE, .05}, {O_EQUAL, 8}, {O_RANDF, 5}, {O_TYPE, 2}, {O_IDENT, 2}, {O_NOT, 2}, {O_ITE, 3}, {O_COMPOSE, 1}, {O_COFACTOR, .5}}); c.bits = std::min(c.bits, 5); c.nvars = std::min(c.nvars, c.bits); break;
  case 3: maint(1.2); someVars(); add(w, {{O_HUGE, .06}, {O_CROWD, .6}, {O_SATURATE, 2}, {O_UNFREE, 3}, {O_IDENT, 5}, {O_FREE, 3}, {O_CHURN, 2}, {O_GC, 2}, {O_BRANCH, 1}, {O_VARLOOK, .5}}); break;
  case 4: maint(.7); add(w, {{O_HUGE, .06}, {O_CROWD, .3}, {O_STALE, .3}, {O_STEADY, .7}, {O_GC, 6}, {O_FREE, 5}, {O_CHURN, 4}, {O_TEMP, 1}, {O_ASSOC, 1}, {O_ASSOCQUIT, .7}, {O_TEMPQUIT, .5}, {O_SATURATE, .3}, {O_ITE, 2}, {O_EXISTS, 1}, {O_RELPROD, 1}, {O_SUBST, 1}, {O_COMPOSE, 1}, {O_COFACTOR, 1}, {O_REDUCE, 1}, {O_WITNESS, 1}, {O_MULTI, 1}, {O_PAIRWISE, 1}, {O_SWAP, 1}, {O_BETWEEN, .5}, {O_SUPPORT, .5}, {O_SATISFY, .5}, {O_SATSUPP, .5}, {O_BRANCH, .5}, {O_STATS, .5}, {O_SIZE, .3}, {O_PIPE, 1}, {O_VARSUBST, .5}}); break;
  case 5: c.dynTech = 1 + r.below(2); if (!r.p(0.2)) { G.acts[G.nacts++] = ACT_REORDER; G.acts[G.nacts++] = ACT_REORDER; if (G.maintPct < 30) G.maintPct = 30; } someVars(); maint(1); add(w, {{O_REORDER, 6}, {O_DYN, 2}, {O_NEWVAR, .5}, {O_VARLOOK, .5}, {O_SIZE, 1}, {O_PROFILE, .5}, {O_ITE, 1}, {O_SUPPORT, .5}, {O_EXISTS, 1}, {O_TEMP, 1}, {O_ASSOC, .5}, {O_SUBST, 1}, {O_COMPOSE, .7}, {O_SETCUR, .5}, {O_GC, 1}}); break;
  case 6: c.dynTech = r.p(0.7) ? 1 + r.below(2) : 0; maint(1); someVars(); c.bits = std::max(c.bits, 5); add(w, {{O_BLOCK, 4}, {O_BLOCKRE, 3}, {O_REORDER, 7}, {O_DYN, 1}, {O_NEWVAR, 1.5}}); if (r.p(0.5)) { G.acts[G.nacts++] = ACT_REORDER; } break;
  case 7: maint(.6); add(w, {{O_EXISTS, 7}, {O_FORALL, 5}, {O_RELPROD, 7}, {O_TEMP, 4}, {O_TEMPAUG, 1}, {O_TEMPQUIT, 1}, {O_ASSOC, 3}, {O_ASSOCQUIT, 2}, {O_SETCUR, 4}, {O_SUBST, 1}, {O_STALE, 4}}); break;
  case 8: maint(.8); add(w, {{O_STALE, 2}, {O_ASSOC, 6}, {O_ASSOCQUIT, 4}, {O_SETCUR, 5}, {O_TEMP, 3}, {O_TEMPAUG, 2}, {O_TEMPQUIT, 1}, {O_BADASSOC, 2}, {O_EXISTS, 2}, {O_SUBST, 3}, {O_VARSUBST, 1}, {O_GC, 2}, {O_FREE, 3}}); break;
  case 9: maint(.6); add(w, {{O_STALE, 3}, {O_SUBST, 7}, {O_VARSUBST, 5}, {O_COMPOSE, 7}, {O_SWAP, 7}, {O_TEMP, 4}, {O_TEMPAUG, 1}, {O_TEMPQUIT, .5}, {O_ASSOC, 3}, {O_ASSOCQUIT, 1.5}, {O_SETCUR, 4}}); break;
  case 10: maint(.6); add(w, {{O_COFACTOR, 8}, {O_REDUCE, 8}, {O_BETWEEN, 6}, {O_RANDF, 4}}); break;
  case 11: maint(.6); someVars(); add(w, {{O_SUPPORT, 4}, {O_DEPENDS, 3}, {O_CUBE, 3}, {O_TYPE, 3}, {O_BRANCH, 4}, {O_SATISFY, 3}, {O_SATSUPP, 3}, {O_FRACTION, 3}, {O_SIZE, 3}, {O_SIZEMULT, 3}, {O_PROFILE, 5}, {O_PRINT, 3}, {O_TEMP, 1}, {O_SETCUR, .5}, {O_STATS, .5}, {O_VARLOOK, .5}}); break;
  case 12: maint(.6); add(w, {{O_PIPE, 14}, {O_PIPEDEPTH, 2}, {O_MULTI, 1}}); break;
  case 13: c.natural = r.p(0.5); maint(.5); add(w, {{O_LIMIT, 6}, {O_RETRY, 8}, {O_NULLARG, 4}, {O_BIN, 5}, {O_ITE, 3}, {O_MULTI, 2}, {O_EXISTS, 2}, {O_RELPROD, 2}, {O_TEMP, 1}, {O_SUBST, 2}, {O_COMPOSE, 2}, {O_COFACTOR, 1.5}, {O_REDUCE, 1.5}, {O_SWAP, 1.5}, {O_GC, 2}, {O_FREE, 3}, {O_WITNESS, 1}, {O_BETWEEN, 1.2}, {O_PAIRWISE, 1}, {O_DUMP, .4}, {O_PIPE, .7}, {O_FORALL, 1}, {O_VARSUBST, 1}}); break;
  case 14: maint(.5); add(w, {{O_BIGDUMP, .12}, {O_DUMP, 9}, {O_CORRUPT, 9}, {O_GC, 1}}); c.managers = 1 + r.below(2); if (c.managers > 1) add(w, {{O_BURST, 2}}); break;
  case 15: maint(.5); add(w, {{O_FAILPAGES, 4}, {O_RANDF, 10}, {O_CHURN, 4}, {O_EXISTS, 1}, {O_NEWVAR, .3}, {O_ITE, 2}}); c.bits = std::max(c.bits, 7); c.nvars = c.bits; c.slots += 10; c.mode = r.below(4); t.pagesPerSegment = pickInt(r, {4, 8, 16, 64, 64}); c.steps += 20; break;
  case 16: maint(1); c.nvars = 1 + r.below(c.bits); add(w, {{O_STALE, .5}, {O_NEWVAR, 10}, {O_VARLOOK, 2}, {O_REORDER, 1}, {O_ASSOC, 1}, {O_TEMP, 1}, {O_EXISTS, 1.5}, {O_SUBST, 1}, {O_SETCUR, .7}, {O_COMPOSE, 1}, {O_PIPE, .5}, {O_SIZE, .5}, {O_PROFILE, .5}}); if (r.p(0.4)) { c.steps += 60; w[O_NEWVAR] += 20; } break;
  case 17: c.managers = 2 + r.below(3); maint(.5); c.bits = std::min(c.bits, 7); c.nvars = std::min(c.nvars, c.bits); add(w, {{O_BURST, 10}, {O_REBIRTH, 1.6}, {O_MGRNEW, 2}, {O_MGRQUIT, 2}, {O_EXISTS, 1}, {O_TEMP, 1}, {O_ASSOC, 1.5}, {O_ASSOCQUIT, .5}, {O_SUBST, 1}, {O_COMPOSE, 1}, {O_PIPE, 1}, {O_REDUCE, .5}, {O_SWAP, .5}, {O_BLOCK, .5}, {O_SIZE, .5}, {O_PRINT, .5}, {O_DUMP, .5}, {O_SETCUR, .5}, {O_MULTI, .5}, {O_PAIRWISE, .5}, {O_WITNESS, .5}}); for (int o : {O_FRACTION, O_SUPPORT, O_DEPENDS, O_CUBE, O_SATISFY, O_SATSUPP, O_SIZEMULT, O_PROFILE, O_COFACTOR, O_BETWEEN, O_VARSUBST, O_FORALL, O_RELPROD, O_REORDER, O_CORRUPT, O_BLOCKRE, O_NEWVAR, O_DYN, O_STATS}) w[o] += .35; c.mode = 1; break;
  case 18: for (int i = 0; i < O_COUNT; i++) w[i] = 0; w[O_CPP] = 1; c.bits = std::min(c.bits, 7); c.nvars = r.p(0.6) ? c.bits : 1 + (int)r.below(c.bits); c.mode = r.below(2); c.steps += 25; break;
  case 19: for (int i = 0; i < O_COUNT; i++) w[i] = 0; w[O_MEM] = 1; c.steps = 30 + r.below(150); c.mode = r.below(6) == 0 ? 1 : r.below(4) == 0 ? 2 : 0; break;
  case 20: maint(0); w[O_REORDER] = .7; add(w, {{O_STEADY, .3}, {O_GCMODE, 4}, {O_DYN, 4}, {O_CHURN, 3}, {O_FREE, 2}, {O_NEWVAR, .3}, {O_EXISTS, 1}, {O_TEMP, .7}, {O_PIPE, .7}, {O_MULTI, .7}, {O_SIZE, .4}, {O_PAIRWISE, .7}, {O_SUBST, .5}, {O_COMPOSE, .5}, {O_REDUCE, .5}}); if (G.maintPct < 30) G.maintPct = 30; G.acts[G.nacts++] = ACT_GC; G.acts[G.nacts++] = ACT_REORDER; break;
  case 21: w[O_PARAMS] = 0; maint(0); c.dynTech = 0; someVars(); add(w, {{O_SIZE, 3}, {O_SIZEMULT, 3}, {O_PROFILE, 4}, {O_PRINT, 6}, {O_FRACTION, 2}, {O_SUPPORT, 2}, {O_NEWVAR, .3}, {O_EXISTS, 1}, {O_TEMP, 1}, {O_REORDER, .7}, {O_COMPOSE, 1}, {O_EQUAL, 2}, {O_SUBST, 1}, {O_DUMP, .5}, {O_WITNESS, 1.5}, {O_SATISFY, .7}, {O_SATSUPP, .5}, {O_COFACTOR, .7}, {O_REDUCE, 1.5}, {O_BETWEEN, 1.5}, {O_SWAP, .5}, {O_PAIRWISE, .3}, {O_MULTI, .5}, {O_PIPE, .5}, {O_BRANCH, .5}, {O_STALE, .3}}); break;
  }
  // a little of everything else, rarely
  if (p != 18 && p != 19 && p != 21 && r.p(0.35)) add(w, {{O_EXISTS, .3}, {O_TEMP, .3}, {O_ASSOC, .2}, {O_SETCUR, .2}, {O_SUBST, .3}, {O_COMPOSE, .3}, {O_SWAP, .2}, {O_COFACTOR, .2}, {O_REDUCE, .2}, {O_SUPPORT, .2}, {O_SIZE, .2}, {O_PIPE, .3}, {O_MULTI, .2}, {O_PAIRWISE, .2}, {O_RELPROD, .3}, {O_PRINT, .1}, {O_SATISFY, .2}, {O_BLOCK, .1}, {O_WITNESS, .2}, {O_PROFILE, .2}});
  // swarm: leave out some operations
  for (int i = 0; i < O_COUNT; i++) if (w[i] > 0 && i != O_RANDF && i != O_BIN && i != O_CPP && i != O_MEM && r.p(0.22)) w[i] = 0;
  if (p == 21) { c.natural = 0; }
  if (p != 18 && p != 19 && r.p(0.5)) { c.keep = c.slots / 2; G.repeat = r.p(0.5) ? 0.15 : 0.35; }
  if (p < 17 && p != 14 && p != 15 && r.p(0.3)) { // focus: few long-lived functions, the same questions again and again
    c.slots = 5; c.keep = 3; G.repeat = 0.1 + 0.1 * r.below(3); for (int o : {O_RANDF, O_BIN, O_VAR, O_CONST, O_FREE, O_ITE, O_CHURN, O_NOT}) w[o] *= 0.15; c.steps += 20; if (p == 1) w[O_EXISTS] += .5; }
  { Rng q(seed ^ 0x9a6e0000); t.nodesPerPage = q.p(0.5) ? 0 : pickInt(q, {3, 8, 8, 16, 32}); } // small pages fill and empty in small runs
  { Rng q(seed ^ 0x71de0000); // wide runs: more variables than a truth table can hold
    if (p != 15 && p < 18 || p >= 20) if (q.p(p == 14 || p == 16 ? 0.10 : p == 2 || p == 17 ? 0.03 : 0.05)) { bool many = q.p(p == 14 || p == 16 ? 0.35 : 0.12); int old = c.bits;
      c.bits = many ? (q.p(0.5) ? 254 + (int)q.below(8) : 240 + (int)q.below(60)) : 13 + (int)q.below(28); c.nvars = c.nvars == old ? c.bits : p == 16 && q.p(0.5) ? c.nvars : 1 + (int)q.below(c.bits); if (many && p == 16) { c.nvars = c.bits - 1 - (int)q.below(40); c.bits += 20; }
      c.slots = std::min(c.slots, 8); c.keep = std::min(c.keep, c.slots / 2); c.steps = std::min(c.steps, many ? 25 : 50); c.managers = std::min(c.managers, 2); } }
  G.total = 0; for (int i = 0; i < O_COUNT; i++) G.total += w[i];
}
bool genStep(Rng &r, const Config &c, Step &o) {
  o = Step();
  if (W.step >= c.steps) return false;
  for (auto &x : o.a) x = (int)r.below(1 << 20);
  double q = (r.next() >> 11) * (1.0 / 9007199254740992.0) * G.total; int op = O_RANDF;
  for (int i = 0; i < O_COUNT; i++) { if (G.w[i] <= 0) continue; q -= G.w[i]; if (q <= 0) { op = i; break; } }
  if (c.prop != "P18" && c.prop != "P19" && W.step < 3) op = O_RANDF;
  o.op = op;
  if (G.repeat > 0 && G.nhist && W.step > 3 && r.p(G.repeat)) { int d = o.a[0]; int k = std::min(G.nhist, 16); o = G.hist[r.below(k)]; if (r.p(0.6)) o.a[0] = d; o.maint.clear(); }
  else G.hist[G.nhist++ % 16] = o;
  if (o.op != op) op = O_NOP;  // repeated as it was
  switch (op) {
  case O_LIMIT: if (r.p(0.25)) o.a[0] = 0; else { o.a[0] = 1 + r.below(r.p(0.5) ? 12 : 120); o.a[1] = r.p(0.8); } break;
  case O_RANDF: o.a[2] = r.p(0.6) ? (int)c.bits - 1 : (int)r.below(12); break;
  case O_SETCUR: break;
  default: break;
  }
  if (G.nacts && (int)r.below(100) < G.maintPct) {
    int n = 1 + (r.p(0.2) ? r.below(4) : 0);
    for (int i = 0; i < n; i++) { int pt = r.p(0.6) ? 0 : r.p(0.7) ? 1 + (int)r.below(3) : (int)r.below(30); o.maint.push_back({pt, G.acts[r.below(G.nacts)]}); }
  }
  return true;
}
// ---------------------------------------------------------------- text form
std::string stepText(const Step &s) {
  std::string t = std::string("step ") + opName[s.op]; int n = 8; while (n > 0 && s.a[n-1] == 0) n--;
  for (int i = 0; i < n; i++) t += " " + std::to_string(s.a[i]);
  if (!s.maint.empty()) { t += " |"; for (auto &m : s.maint) t += " " + std::to_string(m.first) + ":" + std::to_string(m.second); }
  return t; }
bool parseStep(const char *l, Step &s) {
  s = Step(); if (strncmp(l, "step ", 5)) return false; l += 5; char name[32]; int n = 0; if (sscanf(l, "%31s%n", name, &n) != 1) return false; l += n;
  s.op = -1; for (int i = 0; i < O_COUNT; i++) if (!strcmp(name, opName[i])) s.op = i; if (s.op < 0) return false;
  int k = 0; bool m = false; char tok[64];
  while (sscanf(l, "%63s%n", tok, &n) == 1) { l += n; if (!strcmp(tok, "|")) { m = true; continue; }
    if (m) { int a, b; if (sscanf(tok, "%d:%d", &a, &b) == 2) s.maint.push_back({a, b}); } else if (k < 8) s.a[k++] = atoi(tok); }
  return true; }
std::string configText(const Config &c) {
  char b[1024]; const sim_tune &t = c.tune; const AllocCfg &a = c.alloc;
  snprintf(b, sizeof b, "config prop=%s seed=%llu bits=%d slots=%d nvars=%d steps=%d managers=%d natural=%d dynTech=%d dynMeth=%d keep=%d mode=%d gcCheck=%d pagesThreshold=%d forwardedLimit=%d pagesPerSegment=%d maxSegments=%d hashIndex=%d cacheIndex=%d minGcLimit=%d reorderThreshold=%d largeBdd=%d nodesPerPage=%d aseed=%llu dir=%d reuse=%d gap=%d fill=%d brk=%zu",
    c.prop.c_str(), (unsigned long long)c.seed, c.bits, c.slots, c.nvars, c.steps, c.managers, c.natural, c.dynTech, c.dynMeth, c.keep, c.mode, t.gcCheck, t.pagesThreshold, t.forwardedLimit, t.pagesPerSegment, t.maxSegments, t.hashIndex, t.cacheIndex, t.minGcLimit, t.reorderThreshold, t.largeBdd, t.nodesPerPage, (unsigned long long)a.seed, a.dir, a.reuse, a.gap, a.fill, a.brkStart);
  return b; }
bool parseConfigLine(const char *l, Config &c) {
  if (strncmp(l, "config ", 7)) return false; l += 7; char tok[128]; int n;
  while (sscanf(l, "%127s%n", tok, &n) == 1) { l += n; char *e = strchr(tok, '='); if (!e) continue; *e = 0; std::string k = tok, v = e + 1; long long x = strtoll(v.c_str(), nullptr, 10);
    sim_tune &t = c.tune; AllocCfg &a = c.alloc;
    if (k == "prop") c.prop = v; else if (k == "seed") c.seed = strtoull(v.c_str(), nullptr, 10); else if (k == "bits") c.bits = x; else if (k == "slots") c.slots = x; else if (k == "nvars") c.nvars = x; else if (k == "steps") c.steps = x; else if (k == "managers") c.managers = x; else if (k == "natural") c.natural = x; else if (k == "dynTech") c.dynTech = x; else if (k == "dynMeth") c.dynMeth = x; else if (k == "keep") c.keep = x; else if (k == "mode") c.mode = x;
    else if (k == "gcCheck") t.gcCheck = x; else if (k == "pagesThreshold") t.pagesThreshold = x; else if (k == "forwardedLimit") t.forwardedLimit = x; else if (k == "pagesPerSegment") t.pagesPerSegment = x; else if (k == "maxSegments") t.maxSegments = x; else if (k == "hashIndex") t.hashIndex = x; else if (k == "cacheIndex") t.cacheIndex = x; else if (k == "minGcLimit") t.minGcLimit = x; else if (k == "reorderThreshold") t.reorderThreshold = x; else if (k == "largeBdd") t.largeBdd = x; else if (k == "nodesPerPage") t.nodesPerPage = x;
    else if (k == "aseed") a.seed = strtoull(v.c_str(), nullptr, 10); else if (k == "dir") a.dir = x; else if (k == "reuse") a.reuse = x; else if (k == "gap") a.gap = x; else if (k == "fill") a.fill = x; else if (k == "brk") a.brkStart = x; }
  return true; }
