#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <utility>
struct Rng { uint64_t s; explicit Rng(uint64_t x = 1) : s(x * 0x9e3779b97f4a7c15ull + 0x1234567) {}
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool p(double q) { return (next() >> 11) * (1.0 / 9007199254740992.0) < q; } };
struct AllocCfg { uint64_t seed = 1; int dir = 0, reuse = 1, gap = 0, fill = 0; size_t brkStart = 0; };
struct Arena { AllocCfg cfg; Rng rng; int tag = 0; uint64_t serial = 0, allocs = 0, frees = 0, liveBytes = 0, peakBytes = 0;
  uint64_t alignedSeq = 0, failAlignedFrom = 0, failAlignedCount = 0, failAlignedAbove = 0, alignedRefused = 0, minRefused = ~0ull, hugeRefused = 0, mallocRefused = 0, mallocSeq = 0, failMallocAt = 0;
  uint64_t brkCalls = 0, brkFailAt = 0, brkRefused = 0, foreignMoves = 0; std::vector<std::pair<char*, size_t>> foreign; };
extern Arena arena; extern const size_t simPageSize;
void arenaMark(); bool arenaRewind(); void arenaMap(); void arenaReset(const AllocCfg &); void arenaForeignBrk(size_t); bool arenaForeignIntact(); bool arenaInBrk(void *, size_t); bool arenaHitsForeign(void *, size_t);
size_t arenaLiveTagged(int); std::string arenaDescribeLive(int); void arenaCheckAll();
[[noreturn]] void simViolation(const char *cls, const std::string &msg);
#endif
