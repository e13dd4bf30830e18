#ifndef CORE_H
#define CORE_H
#include "sim.h"
#include "tt.h"
#include "peek.h"
#include "tune.h"
extern "C" {
#include "cal.h"
}
#include <map>
#include <set>
#include <unordered_map>
#include <string>
#include <vector>
#include <string.h>
#include <stdio.h>

// ---------------------------------------------------------------- trace
struct Step { int op = 0; int a[8] = {0,0,0,0,0,0,0,0}; std::vector<std::pair<int,int>> maint; };
struct Config {
  std::string prop; uint64_t seed = 1; int bits = 6, slots = 10, nvars = 4, steps = 40, managers = 1;
  int natural = 0;           // 1: shipped thresholds decide as well
  int dynTech = 0, dynMeth = 0, keep = 0;
  sim_tune tune; AllocCfg alloc; int mode = 0; // property specific
};
enum Op { O_NOP, O_VAR, O_CONST, O_BIN, O_NOT, O_IDENT, O_ITE, O_FREE, O_MULTI, O_PAIRWISE, O_WITNESS, O_GC, O_REORDER, O_DYN, O_NEWVAR,
  O_ASSOC, O_ASSOCQUIT, O_SETCUR, O_TEMP, O_TEMPAUG, O_TEMPQUIT, O_EXISTS, O_FORALL, O_RELPROD, O_SUBST, O_VARSUBST, O_COMPOSE, O_SWAP,
  O_COFACTOR, O_REDUCE, O_BETWEEN, O_SUPPORT, O_DEPENDS, O_CUBE, O_TYPE, O_BRANCH, O_SATISFY, O_SATSUPP, O_FRACTION, O_SIZE, O_SIZEMULT,
  O_PROFILE, O_PRINT, O_PIPE, O_LIMIT, O_DUMP, O_RANDF, O_SATURATE, O_UNFREE, O_GCMODE, O_BLOCK, O_BLOCKRE, O_MGRNEW, O_MGRQUIT, O_PARAMS,
  O_EQUAL, O_STATS, O_BURST, O_PIPEDEPTH, O_BADASSOC, O_NULLARG, O_RETRY, O_FAILPAGES, O_CORRUPT, O_VARLOOK, O_CHURN, O_FORMULA,
  O_STEADY, O_STALE, O_CROWD, O_HUGE, O_REBIRTH, O_BIGDUMP, O_CPP, O_MEM, O_COUNT };
extern const char *opName[];

// ---------------------------------------------------------------- results
struct Shared {           // in memory shared with the parent
  volatile int done; int violated; char cls[160]; char msg[1200]; int step; int truncated;
  uint64_t hash, state; uint32_t nsteps, nops; uint32_t traceLen;
  uint64_t faults[32]; uint64_t probes[48]; uint64_t points; uint64_t stateHashes[256]; uint32_t nStates; uint64_t opHits[O_COUNT];
  uint64_t pairHits[64]; uint64_t minRefused;
  uint32_t obsLen; char obsText[1 << 20];
  char trace[1 << 19];
};
extern Shared *sh;
enum Fault { F_GC, F_REPACK, F_REORDER, F_EXPGC, F_EXPREORDER, F_NODELIMIT, F_PAGEREFUSED, F_IOSHORT, F_IOERR, F_IOFLIP, F_IOTRUNC, F_WRITEFAIL, F_BRKFAIL, F_BRKFOREIGN, F_NEWVAR, F_SATURATE, F_MODESWITCH, F_OOM, F_PIPEABANDON, F_EVICT, F_N };
extern const char *faultName[];
enum Probe { P_NODES1K, P_REORDERED_NONTRIVIAL, P_OVERFLOW_NULL, P_ASSOC_REUSE, P_TEMP_REDEF, P_PIPE_GC, P_PIPE_REORDER, P_OOM_EXIT, P_OOM_BACKOFF, P_TABLE_GROW, P_SATURATED, P_UNDUMP_NULL, P_UNDUMP_OK, P_GC_FREED, P_MID_OP, P_BLOCK_NONTRIVIAL, P_EQUAL_TRUE, P_QUIT_DIRTY, P_PIPE_DEEP, P_STEADY, P_STALE, P_WIDE, P_MODEL_FULL, P_CROWD, P_HUGE, P_LIMIT_GROWTH, P_DEEP_MULTI, P_PIPE_INTERLUDE, P_BIGDUMP, P_N };
extern const char *probeName[];

// ---------------------------------------------------------------- simulated world
struct Assoc { int id = -1; bool pairs = false; int refs = 0; std::map<int, TT> map; std::set<int> vars; };   // keyed by tracked bit
struct Block { Cal_Block b; std::set<int> ids; bool re; std::vector<int> order; };
struct Mgr {
  Cal_BddManager m = nullptr; bool live = false; int tag = 0; void *hooks = nullptr;
  std::vector<int> bitId;                 // tracked bit -> variable id
  std::map<int,int> idBit; std::map<int, Cal_Bdd> varH;  // id -> owned handle
  std::vector<int> order;                 // model of the order (ids by index)
  std::vector<Assoc> assocs; Assoc temp; int cur = -1;
  std::vector<Block> blocks; long nodeLimit = 0; bool gcOff = false; bool reorderSeen = false;
  int tech = 0, meth = 0; bool mayReorder = false; int oldDepthTouched = 0; bool saturated = false;
  std::set<int> untracked; bool overflowPossible = false; unsigned long base = 0;
};
struct Slot { Cal_Bdd h = nullptr; TT f; int mgr = -1; int id = 0; };
struct World {
  Config cfg; std::vector<Mgr> mg; std::vector<Slot> s; int curMgr = 0;
  int step = 0; const Step *cur = nullptr; int point = 0; uint64_t hash = 1469598103934665603ull;
  int maintDone = 0; bool expectExit = false; std::string warnings; size_t warnSeen = 0;
  uint64_t handleSerial = 0; bool inPipe = false; bool orderMayChange = false;
  std::string observations; bool recordObs = false; long hugeUsed = 0; bool suppressMaint = false;
  long reorderBefore = 0; std::string out; bool catchOut = false;
};
extern World W;
void mix(uint64_t x);
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finishOk();
void obs(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fault(Fault f, uint64_t n = 1) { sh->faults[f] += n; }
inline void probe(Probe p) { sh->probes[p]++; }
bool evalHandle(Mgr &M, Cal_Bdd h, TT &out, std::string *why);
void execStep(const Step &s);
void auditAll();
void startWorld(const Config &c);
void endWorld();
void genConfig(Config &c, const std::string &prop, uint64_t seed);
bool genStep(Rng &r, const Config &c, Step &out);
std::string stepText(const Step &s); bool parseStep(const char *line, Step &s);
std::string configText(const Config &c); bool parseConfigLine(const char *line, Config &c);
void newManager(int k, int nvars);
void quitManager(int k);
void syncOrder(Mgr &M);
void execCpp(const Step &s); void cppStart(); void cppEnd();
void execMem(const Step &s); void memEnd();
void redirectStreams();
#endif
