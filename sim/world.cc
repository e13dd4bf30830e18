#include "core.h"
#define _GNU_SOURCE 1
#include <stdio.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <stdlib.h>
static ssize_t sink(void *, const char *b, size_t n) { if (W.warnings.size() < (1u << 20)) W.warnings.append(b, n); return n; }
static ssize_t drop(void *, const char *b, size_t n) { if (W.catchOut && W.out.size() < (1u << 22)) W.out.append(b, n); return n; }
void redirectStreams() {
  cookie_io_functions_t a = {nullptr, sink, nullptr, nullptr}, b = {nullptr, drop, nullptr, nullptr};
  FILE *e = fopencookie(nullptr, "w", a), *o = fopencookie(nullptr, "w", b); setvbuf(e, nullptr, _IONBF, 0); stderr = e; stdout = o;
}
static const char *sigName(int s) { switch (s) { case SIGSEGV: return "SIGSEGV"; case SIGBUS: return "SIGBUS"; case SIGFPE: return "SIGFPE"; case SIGABRT: return "SIGABRT"; case SIGILL: return "SIGILL"; case SIGXCPU: return "hang"; default: return "signal"; } }
static void onSignal(int s) {
  if (s == SIGXCPU && (TTW || W.hugeUsed)) { probe(P_MODEL_FULL); sh->hash = 0; sh->nsteps = W.step; sh->done = 1; _exit(0); } // too large to judge: only runs over few variables tell a hang from hard work
  sh->violated = 1; sh->step = W.step;
  if (s == SIGXCPU) { snprintf(sh->cls, sizeof sh->cls, "hang"); snprintf(sh->msg, sizeof sh->msg, "a call did not return within the processor-time limit"); }
  else { snprintf(sh->cls, sizeof sh->cls, "crash"); snprintf(sh->msg, sizeof sh->msg, "the process was ended by %s", sigName(s)); }
  sh->hash = 0; sh->nsteps = W.step; sh->done = 1; _exit(0);
}
extern "C" void __assert_fail(const char *e, const char *f, unsigned, const char *fn) {
  const char *b = strrchr(f, '/'); std::string m = std::string("internal check failed: ") + e + " in " + fn + " (" + (b ? b + 1 : f) + ")"; simViolation("assert", m); }
static char *altStack;
void installHandlers(int cpu) {
  altStack = (char *)malloc(1 << 16); stack_t ss; ss.ss_sp = altStack; ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK; 
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
  struct rlimit rl = {(rlim_t)cpu, (rlim_t)cpu + 5}; setrlimit(RLIMIT_CPU, &rl); rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
void startWorld(const Config &c) {
  W = World(); W.cfg = c; TTN = c.bits; TTW = TTN > 12; if (TTW) { refReset(); probe(P_WIDE); struct rlimit rl = {8, 20}; getrlimit(RLIMIT_CPU, &rl); if (rl.rlim_cur == 15) { rl.rlim_cur = 8; setrlimit(RLIMIT_CPU, &rl); } } simTune = c.tune; arenaReset(c.alloc);
  if (c.prop == "P19") { if (c.mode == 1) { Rng r(c.seed ^ 77); arena.brkFailAt = 1 + r.below(12); W.expectExit = true; } return; }
  if (c.prop == "P18") { cppStart(); if (c.dynTech) { Mgr &M = W.mg[0]; M.tech = c.dynTech; M.meth = c.dynMeth; Cal_BddDynamicReordering(M.m, M.tech, M.meth); } auditAll(); return; }
  W.mg.resize(c.managers); W.s.assign(c.slots, Slot());
  if (c.prop == "P15") {
    Rng r(c.seed ^ 99);
    if (c.mode == 1) { arena.failAlignedAbove = (4ull << r.below(4)) * simPageSize; }
    if (c.mode == 2) { arena.failAlignedFrom = 1 + r.below(r.p(0.5) ? 6 : 60); arena.failAlignedCount = ~0ull >> 1; }
    W.expectExit = c.mode != 1; }
  for (int k = 0; k < c.managers; k++) newManager(k, c.nvars);
  for (auto &M : W.mg) { M.tech = c.dynTech; M.meth = c.dynMeth; if (c.dynTech) Cal_BddDynamicReordering(M.m, M.tech, M.meth); }
  auditAll();
}
void auditReclaimed(int k);
void endWorld() {
  static Step fin; fin = Step(); fin.op = O_NOP; W.cur = &fin;
  if (W.cfg.prop == "P19") { memEnd(); finishOk(); }
  if (W.cfg.prop == "P18") { cppEnd(); arenaCheckAll(); finishOk(); }
  Rng r(W.cfg.seed ^ 0xe4d);
  for (size_t k = 0; k < W.mg.size(); k++) if (W.mg[k].live) {
    Mgr &M = W.mg[k]; W.curMgr = k; arena.tag = M.tag;
    Cal_BddNodeLimit(M.m, 0); M.nodeLimit = 0; Cal_BddSetGCMode(M.m, 1); M.gcOff = false;
    Cal_BddManagerGC(M.m); fault(F_EXPGC); auditReclaimed(k); auditAll();
    if (r.p(0.7)) { // release everything; nothing but variables and associations may remain
      for (auto &s : W.s) if (s.h && s.mgr == (int)k) { Cal_BddFree(M.m, s.h); s.h = nullptr; }
      for (auto &A : M.assocs) while (A.refs-- > 0) Cal_AssociationQuit(M.m, A.id);
      M.assocs.clear(); Cal_AssociationSetCurrent(M.m, -1); Cal_TempAssociationQuit(M.m); M.temp = Assoc(); M.cur = -1;
      Cal_BddManagerGC(M.m); auditReclaimed(k); auditAll();
      int res = peek_request_residue(M.m); if (res) fail("residue", "%d request queues are not empty between calls", res);
    } else probe(P_QUIT_DIRTY);
    quitManager(k);
  }
  arenaCheckAll(); finishOk();
}
