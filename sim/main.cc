// Driver: campaign (seeded search), replay, minimise.
#include "core.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <stdlib.h>
#include <set>
#include <map>
#include <math.h>
#include <algorithm>
void installHandlers(int cpu);
static int cpuLimit = 15;
static Rng *genRng;
struct Result { bool violated = false; std::string cls, msg; int step = 0, op = -1; uint64_t hash = 0; Config cfg; std::vector<Step> steps; uint32_t nsteps = 0; bool cut = false; };
static void traceLine(const std::string &s) { if (sh->traceLen + s.size() + 2 < sizeof sh->trace) { memcpy(sh->trace + sh->traceLen, s.data(), s.size()); sh->traceLen += s.size(); sh->trace[sh->traceLen++] = '\n'; sh->trace[sh->traceLen] = 0; } else sh->truncated = 1; }
[[noreturn]] static void child(const Config &c, const std::vector<Step> *steps, Rng *r, bool rec, bool obsOn) {
  installHandlers(cpuLimit); redirectStreams();
  startWorld(c); W.recordObs = obsOn;
  if (steps) for (auto &s : *steps) execStep(s);
  else { Step s; while (!sh->truncated && genStep(*r, c, s)) { if (rec) traceLine(stepText(s)); execStep(s); } }
  endWorld(); _exit(0);
}
static void clearShared() { sh->done = 0; sh->violated = 0; sh->cls[0] = sh->msg[0] = 0; sh->step = 0; sh->truncated = 0; sh->hash = sh->state = 0; sh->nsteps = sh->nops = sh->traceLen = 0; memset(sh->faults, 0, sizeof sh->faults); memset(sh->probes, 0, sizeof sh->probes); sh->points = 0; sh->nStates = 0; memset(sh->opHits, 0, sizeof sh->opHits); sh->obsLen = 0; sh->trace[0] = 0; }
static void forkRun(const Config &c, const std::vector<Step> *steps, Rng *r, bool rec, bool obsOn) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) child(c, steps, r, rec, obsOn);
  int st = 0; while (waitpid(p, &st, 0) < 0) {}
  if (!sh->done) { sh->violated = 1; sh->done = 1; sh->hash = 0;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { snprintf(sh->cls, sizeof sh->cls, "hang"); snprintf(sh->msg, sizeof sh->msg, "a call did not return within the processor-time limit"); }
    else { snprintf(sh->cls, sizeof sh->cls, "crash"); snprintf(sh->msg, sizeof sh->msg, "%s", WIFSIGNALED(st) ? "the process was ended by a signal" : "the process was ended by the memory checker or left early"); } }
}
static std::vector<Step> readTrace() { std::vector<Step> v; std::string t(sh->trace, sh->traceLen); size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == std::string::npos) j = t.size(); Step s; if (parseStep(t.substr(i, j - i).c_str(), s)) v.push_back(s); i = j + 1; } return v; }
static uint64_t hashText(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
// P21: the same history under another memory layout and another collection schedule
static Config altConfig(const Config &c) { Config d = c; Rng r(c.seed ^ 0x21212121); d.alloc.seed = r.next() & 0x7fffffff; d.alloc.dir = (c.alloc.dir + 1 + r.below(2)) % 3; d.alloc.fill = (c.alloc.fill + 1 + r.below(3)) % 4; d.alloc.reuse = r.below(4); d.alloc.gap = r.below(4); if (r.p(0.5)) { d.tune.hashIndex = 2 + r.below(6); d.tune.cacheIndex = 2 + r.below(8); d.tune.largeBdd = r.p(0.5) ? 0 : 1 << 19; d.tune.gcCheck = 1 + r.below(50); } return d; }
static std::vector<Step> altSteps(const Config &c, const std::vector<Step> &v) { std::vector<Step> o = v; for (auto &s : o) { Rng r(hashText(stepText(s)) ^ c.seed); s.maint.clear(); int n = r.below(3); for (int i = 0; i < n; i++) s.maint.push_back({(int)r.below(3), r.p(0.5) ? ACT_GC : ACT_REPACK}); } return o; }
static void filterMaint(std::vector<Step> &v) { for (auto &s : v) s.maint.erase(std::remove_if(s.maint.begin(), s.maint.end(), [](const std::pair<int,int> &m) { return m.second == ACT_REORDER; }), s.maint.end()); }
static Result runOnce(const Config &c, const std::vector<Step> *steps, uint64_t genSeed) {
  Result R; R.cfg = c; clearShared(); Rng r(genSeed); bool p21 = c.prop == "P21";
  forkRun(c, steps, &r, !steps, p21);
  R.steps = steps ? *steps : readTrace();
  auto take = [&](const char *pre) { R.violated = sh->violated; R.cls = sh->cls; R.msg = std::string(pre) + sh->msg; R.step = sh->step; R.hash = sh->hash; R.nsteps = sh->nsteps; R.op = sh->step < (int)R.steps.size() && sh->step >= 0 ? R.steps[sh->step].op : O_NOP; };
  take(""); R.cut = sh->probes[P_MODEL_FULL] != 0;
  if (p21 && !R.violated) {
    std::string o1(sh->obsText, sh->obsLen); uint64_t f[32], pr[48], pts = sh->points, hits[O_COUNT]; memcpy(f, sh->faults, sizeof f); memcpy(pr, sh->probes, sizeof pr); memcpy(hits, sh->opHits, sizeof hits); uint32_t ns = sh->nStates; uint64_t h1 = sh->hash; uint32_t tl = sh->traceLen;
    std::vector<Step> alt = altSteps(c, R.steps); clearShared(); sh->traceLen = tl;
    forkRun(altConfig(c), &alt, nullptr, false, true); take("second execution: "); std::string o2(sh->obsText, sh->obsLen);
    for (int i = 0; i < 32; i++) sh->faults[i] += f[i]; for (int i = 0; i < 48; i++) sh->probes[i] += pr[i]; sh->points += pts; (void)ns; for (int i = 0; i < O_COUNT; i++) sh->opHits[i] += hits[i];
    R.hash = h1 * 31 + sh->hash;
    bool cut = pr[P_MODEL_FULL] || sh->probes[P_MODEL_FULL] > pr[P_MODEL_FULL]; R.cut |= cut;
    if (!R.violated && !cut && o1 != o2) {
      size_t i = 0, ls = 0; while (i < o1.size() && i < o2.size() && o1[i] == o2[i]) { if (o1[i] == '\n') ls = i + 1; i++; }
      std::string l1 = o1.substr(ls, o1.find('\n', ls) - ls), l2 = o2.substr(ls, o2.find('\n', ls) - ls);
      R.violated = true; R.cls = "layout-dependent"; R.step = atoi(l1.c_str()); R.op = R.step < (int)R.steps.size() ? R.steps[R.step].op : O_NOP; R.msg = "an answer differs between two memory layouts: [" + l1.substr(0, 300) + "] and [" + l2.substr(0, 300) + "]"; }
  }
  return R;
}
static uint64_t mixSeed(uint64_t a, const std::string &p, uint64_t i) { Rng r(a * 1000003ull ^ hashText(p)); uint64_t x = r.next(); Rng q(x ^ (i * 0x9e3779b97f4a7c15ull)); return q.next() >> 1; }
static Result runIndex(const std::string &prop, uint64_t seed, uint64_t index) {
  uint64_t s = mixSeed(seed, prop, index); Config c; genConfig(c, prop, s); c.seed = s;
  return runOnce(c, nullptr, s ^ 0x57e95);
}
static std::string key(const Result &r) { return r.cls + "/" + (r.op >= 0 ? opName[r.op] : "-"); }
static bool same(const Result &a, const Result &b) { return a.violated && b.violated && a.cls == b.cls; }
static void writeReplay(const char *path, const Result &r, const char *variant) {
  FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(2); }
  fprintf(f, "CALSIM replay\nvariant %s\nproperty %s\nclass %s\nop %s\nstep %d\nmessage %s\n", variant, r.cfg.prop.c_str(), r.cls.c_str(), r.op >= 0 ? opName[r.op] : "-", r.step, r.msg.c_str());
  fprintf(f, "%s\n", configText(r.cfg).c_str()); for (auto &s : r.steps) fprintf(f, "%s\n", stepText(s).c_str()); fclose(f);
}
static bool readReplay(const char *path, Result &r) {
  FILE *f = fopen(path, "r"); if (!f) return false; char *l = nullptr; size_t n = 0; bool ok = false;
  while (getline(&l, &n, f) > 0) { std::string s(l); while (!s.empty() && s.back() == '\n') s.pop_back();
    if (!s.compare(0, 6, "class ")) r.cls = s.substr(6); else if (parseConfigLine(s.c_str(), r.cfg)) ok = true; else { Step st; if (parseStep(s.c_str(), st)) r.steps.push_back(st); } }
  fclose(f); free(l); return ok; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Result minimise(Result best, double budget) {
  double t0 = now(); int tries = 0;
  auto attempt = [&](const Config &c, const std::vector<Step> &v) { tries++; if (now() - t0 > budget) return false; Result r = runOnce(c, &v, 0); if (!same(best, r)) return false; best = r; return true; };
  if (best.step >= 0 && best.step + 1 < (int)best.steps.size()) { auto v = best.steps; v.resize(best.step + 1); attempt(best.cfg, v); }
  for (size_t chunk = std::max<size_t>(1, best.steps.size() / 2);; chunk /= 2) {
    bool any = false;
    for (size_t i = 0; i < best.steps.size();) { auto v = best.steps; size_t e = std::min(v.size(), i + chunk); v.erase(v.begin() + i, v.begin() + e); if (attempt(best.cfg, v)) any = true; else i += chunk; if (now() - t0 > budget) break; }
    if (chunk == 1 && !any) break; if (chunk == 1) chunk = 2; if (now() - t0 > budget) break; }
  for (size_t i = 0; i < best.steps.size(); i++) { if (best.steps[i].maint.empty()) continue; auto v = best.steps; v[i].maint.clear(); if (attempt(best.cfg, v)) continue;
    for (size_t k = 0; k < best.steps[i].maint.size();) { v = best.steps; v[i].maint.erase(v[i].maint.begin() + k); if (!attempt(best.cfg, v)) k++; } }
  { Config d = best.cfg; auto tryCfg = [&](void (*fn)(Config &)) { Config e = best.cfg; fn(e); attempt(e, best.steps); };
    tryCfg([](Config &e) { e.natural = 0; }); tryCfg([](Config &e) { e.dynTech = 0; }); tryCfg([](Config &e) { e.alloc.dir = 0; e.alloc.gap = 0; e.alloc.reuse = 1; e.alloc.fill = 0; e.alloc.brkStart = 0; });
    tryCfg([](Config &e) { e.tune.nodesPerPage = 0; }); tryCfg([](Config &e) { e.tune.hashIndex = 8; e.tune.cacheIndex = 11; }); tryCfg([](Config &e) { e.tune.pagesPerSegment = 64; e.tune.maxSegments = 32; e.tune.pagesThreshold = 3; e.tune.forwardedLimit = 50000; }); tryCfg([](Config &e) { e.tune.gcCheck = 100; e.tune.minGcLimit = 10000; e.tune.reorderThreshold = 10000; e.tune.largeBdd = 1 << 19; });
    for (int b = 2; b < best.cfg.bits; b++) { Config e = best.cfg; e.bits = b; e.nvars = std::min(e.nvars, b); if (attempt(e, best.steps)) break; } }
  for (size_t i = 0; i < best.steps.size();) { auto v = best.steps; v.erase(v.begin() + i); if (!attempt(best.cfg, v)) i++; if (now() - t0 > budget) break; }
  return best;
}
struct Fail { char key[200]; char msg[1200]; uint64_t index, count; int step; };
struct Agg { uint64_t runs, steps, points, faults[32], probes[48], opHits[O_COUNT], mismatches, rechecks, violations, maintRuns, quietRuns, nh; uint32_t nf; Fail f[64]; unsigned char bitmap[1 << 20]; };
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  if (!getenv("CALSIM_NOASLR")) { personality(ADDR_NO_RANDOMIZE); setenv("CALSIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (getenv("CALSIM_CPU")) cpuLimit = atoi(getenv("CALSIM_CPU"));
  { struct rlimit rl = {256u << 20, 256u << 20}; (void)rl; }
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  arenaMap();
  std::string cmd = argv[1];
  if (cmd == "one") { Result r = runIndex(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10)); 
    if (argc > 5) writeReplay(argv[5], r, "?"); else { puts(configText(r.cfg).c_str()); for (auto &s : r.steps) puts(stepText(s).c_str()); }
    printf("%s hash=%016llx steps=%u key=%s step=%d %s\n", r.violated ? "VIOLATED" : "ok", (unsigned long long)r.hash, r.nsteps, key(r).c_str(), r.step, r.msg.c_str()); return 0; }
  if (cmd == "replay") { Result in; if (!readReplay(argv[2], in)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
    if (in.cfg.prop == "P21") filterMaint(in.steps);
    Result r = runOnce(in.cfg, &in.steps, 0); printf("REPLAY violated=%d class=%s op=%s step=%d hash=%016llx message=%s\n", (int)r.violated, r.cls.c_str(), r.op >= 0 ? opName[r.op] : "-", r.step, (unsigned long long)r.hash, r.msg.c_str()); return r.violated ? 1 : 0; }
  if (cmd == "minimise") { // minimise PROP SEED INDEX OUT VARIANT BUDGET
    std::string prop = argv[2]; Result r = runIndex(prop, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10)); if (!r.violated) { printf("NOT-REPRODUCED\n"); return 3; }
    Result again = runOnce(r.cfg, &r.steps, 0); if (!same(r, again)) { printf("NOT-REPRODUCED from trace: %s\n", key(again).c_str()); return 3; }
    Result m = minimise(r, atof(argv[7])); writeReplay(argv[5], m, argv[6]); printf("MINIMISED steps=%zu from=%zu key=%s message=%s\n", m.steps.size(), r.steps.size(), key(m).c_str(), m.msg.c_str()); return 0; }
  if (cmd == "campaign") { // campaign PROP SEED NRUNS WORKERS TIMEBUDGET BITMAPFILE START
    std::string prop = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10); int workers = atoi(argv[5]); double budget = atof(argv[6]); uint64_t start = argc > 8 ? strtoull(argv[8], 0, 10) : 0;
    double t0 = now(); std::vector<Agg *> ag; std::vector<pid_t> pids; std::vector<uint64_t *> rh; uint64_t perW = n / workers + 2;
    for (int w = 0; w < workers; w++) {
      Agg *a = (Agg *)mmap(nullptr, sizeof(Agg), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); ag.push_back(a); uint64_t *hs = (uint64_t *)mmap(nullptr, perW * 8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); rh.push_back(hs); int hangs = 0;
      pid_t p = fork();
      if (p == 0) {
        sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
        for (uint64_t i = start + w; i < start + n; i += workers) {
          if (now() - t0 > budget) break;
          if (a->nf >= 60 || (a->violations >= 400)) break;
          Result r = runIndex(prop, seed, i);
          a->runs++; a->steps += r.nsteps; a->points += sh->points; bool m = false;
          for (int k = 0; k < 32; k++) { a->faults[k] += sh->faults[k]; m |= sh->faults[k] != 0 && k != F_EXPGC; } for (int k = 0; k < 48; k++) a->probes[k] += sh->probes[k] != 0; for (int k = 0; k < O_COUNT; k++) a->opHits[k] += sh->opHits[k];
          if (m) a->maintRuns++; else a->quietRuns++;
          if (r.nsteps >= 5 && (m || sh->points > 20) && a->nh < perW) hs[a->nh++] = r.hash ^ (r.nsteps * 0x9e3779b97f4a7c15ull);
          if (r.violated && r.cls == "hang" && ++hangs >= 2) i = ~0ull - workers;
          for (uint32_t k = 0; k < sh->nStates; k++) { uint64_t h = sh->stateHashes[k] * 0x9e3779b97f4a7c15ull >> 41; a->bitmap[h >> 3] |= 1 << (h & 7); }
          if (r.violated) { a->violations++; std::string k = key(r); bool f = false; for (uint32_t j = 0; j < a->nf && !f; j++) if (k == a->f[j].key) { a->f[j].count++; f = true; if (r.nsteps < 0) a->f[j].index = i; }
            if (!f && a->nf < 64) { Fail &F = a->f[a->nf++]; snprintf(F.key, sizeof F.key, "%s", k.c_str()); snprintf(F.msg, sizeof F.msg, "%s", r.msg.c_str()); F.index = i; F.count = 1; F.step = r.step; } }
          if (i % 16 == 3 || r.violated) { Result r2 = runOnce(r.cfg, &r.steps, 0); a->rechecks++; if (!r.cut && !r2.cut) if (r2.hash != r.hash || r2.violated != r.violated || r2.cls != r.cls) { a->mismatches++; if (a->nf < 64) { Fail &F = a->f[a->nf++]; snprintf(F.key, sizeof F.key, "NONDETERMINISM/%s", key(r).c_str()); snprintf(F.msg, sizeof F.msg, "run %llu: first %s %016llx, second %s %016llx", (unsigned long long)i, key(r).c_str(), (unsigned long long)r.hash, key(r2).c_str(), (unsigned long long)r2.hash); F.index = i; F.count = 1; } } }
        }
        _exit(0);
      }
      pids.push_back(p);
    }
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
    Agg T; memset(&T, 0, sizeof T); std::map<std::string, Fail> fm;
    for (Agg *a : ag) { T.runs += a->runs; T.steps += a->steps; T.points += a->points; T.mismatches += a->mismatches; T.rechecks += a->rechecks; T.violations += a->violations; T.maintRuns += a->maintRuns; T.quietRuns += a->quietRuns; for (int k = 0; k < 32; k++) T.faults[k] += a->faults[k]; for (int k = 0; k < 48; k++) T.probes[k] += a->probes[k]; for (int k = 0; k < O_COUNT; k++) T.opHits[k] += a->opHits[k]; for (size_t k = 0; k < sizeof T.bitmap; k++) T.bitmap[k] |= a->bitmap[k];
      for (uint32_t j = 0; j < a->nf; j++) { auto it = fm.find(a->f[j].key); if (it == fm.end()) fm[a->f[j].key] = a->f[j]; else { it->second.count += a->f[j].count; if (a->f[j].index < it->second.index) { it->second.index = a->f[j].index; it->second.step = a->f[j].step; memcpy(it->second.msg, a->f[j].msg, sizeof a->f[j].msg); } } } }
    uint64_t distinct = 0; { std::set<uint64_t> u; for (size_t w = 0; w < ag.size(); w++) for (uint64_t k = 0; k < ag[w]->nh; k++) u.insert(rh[w][k]); distinct = u.size(); }
    if (argc > 7) { FILE *f = fopen(argv[7], "wb"); if (f) { fwrite(T.bitmap, 1, sizeof T.bitmap, f); fclose(f); } }
    auto esc = [](const char *s) { std::string o; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += '?'; else o += c; } return o; };
    printf("{\"runs\":%llu,\"distinct\":%llu,\"steps\":%llu,\"points\":%llu,\"mismatches\":%llu,\"rechecks\":%llu,\"violations\":%llu,\"faulty_runs\":%llu,\"fault_free_runs\":%llu,\"wall\":%.2f,\"faults\":{", (unsigned long long)T.runs, (unsigned long long)distinct, (unsigned long long)T.steps, (unsigned long long)T.points, (unsigned long long)T.mismatches, (unsigned long long)T.rechecks, (unsigned long long)T.violations, (unsigned long long)T.maintRuns, (unsigned long long)T.quietRuns, now() - t0);
    for (int k = 0; k < F_N; k++) printf("%s\"%s\":%llu", k ? "," : "", faultName[k], (unsigned long long)T.faults[k]); printf("},\"probes\":{");
    for (int k = 0; k < P_N; k++) printf("%s\"%s\":%llu", k ? "," : "", probeName[k], (unsigned long long)T.probes[k]); printf("},\"ops\":{");
    for (int k = 0; k < O_COUNT; k++) printf("%s\"%s\":%llu", k ? "," : "", opName[k], (unsigned long long)T.opHits[k]); printf("},\"failures\":[");
    bool first = true; for (auto &f : fm) { printf("%s{\"key\":\"%s\",\"index\":%llu,\"count\":%llu,\"step\":%d,\"message\":\"%s\"}", first ? "" : ",", esc(f.second.key).c_str(), (unsigned long long)f.second.index, (unsigned long long)f.second.count, f.second.step, esc(f.second.msg).c_str()); first = false; }
    printf("]}\n"); return 0; }
  return 2;
}
