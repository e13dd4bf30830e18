// Dump / undump against a simulated device: the stream either works, fails at a
// chosen byte, ends early, or delivers corrupted bytes.
#define _GNU_SOURCE 1
#include "core.h"
#include <stdio.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
namespace {
struct Dev { std::string data; long pos = 0; long failAt = -1; long shortMax = 0; bool failed = false; };
ssize_t devWrite(void *c, const char *b, size_t n) {
  Dev *d = (Dev *)c; // (a cookie stream takes a short write for an error, so only a failing device writes short)
  if (d->failAt >= 0 && d->pos + (long)n > d->failAt) { long k = d->failAt - d->pos; d->failed = true; if (k > 0) { d->data.append(b, k); d->pos += k; return k; } errno = ENOSPC; return 0; }
  d->data.append(b, n); d->pos += n; return n; }
ssize_t devRead(void *c, char *b, size_t n) {
  Dev *d = (Dev *)c; if (d->shortMax && (long)n > d->shortMax) { n = d->shortMax; fault(F_IOSHORT); }
  if (d->failAt >= 0 && d->pos + (long)n > d->failAt) { long k = d->failAt - d->pos; if (k <= 0) { d->failed = true; errno = EIO; return -1; } n = k; }
  long left = (long)d->data.size() - d->pos; if (left <= 0) return 0; if ((long)n > left) n = left;
  memcpy(b, d->data.data() + d->pos, n); d->pos += n; return n; }
FILE *openDev(Dev *d, const char *mode) { cookie_io_functions_t io = {devRead, devWrite, nullptr, nullptr}; return fopencookie(d, mode, io); }
char wbuf[256], rbuf[128];
}
int dumpOp(Mgr &M, const Step &s) {
  Slot *x = nullptr; for (size_t i = 0; i < W.s.size() && !x; i++) { Slot &t = W.s[((unsigned)s.a[0] + i) % W.s.size()]; if (t.h && t.mgr == W.curMgr) x = &t; }
  if (!x || M.bitId.empty()) return 0;
  Rng r((unsigned)s.a[2]); int nb = M.bitId.size(); TT f = x->f;
  // variable list: a superset of the support in arbitrary order
  std::vector<int> bits; for (int b = 0; b < nb; b++) if (f.dep(b) || r.p(0.4)) bits.push_back(b);
  if (nb > 253 && r.p(0.7)) { // list lengths around the place where one byte per index stops being enough
    std::vector<int> in, out; for (int b = 0; b < nb; b++) (f.dep(b) ? in : out).push_back(b); size_t want = 253 + r.below(6); bits = in; for (size_t i = 0; i < out.size() && bits.size() < want; i++) bits.push_back(out[i]); }
  for (size_t i = bits.size(); i > 1; i--) std::swap(bits[i-1], bits[r.below(i)]);
  if (nb > 253 && r.p(0.6)) { size_t k = bits.size(); for (size_t i = 0; i < bits.size(); i++) if (f.dep(bits[i]) && (k == bits.size() || bits[i] < bits[k])) k = i; if (k < bits.size()) std::swap(bits[k], bits.back()); }
  int mode = (unsigned)s.a[1] % 16; bool corrupt = s.op == O_CORRUPT;
  std::vector<Cal_Bdd> vars; for (int b : bits) vars.push_back(M.varH[M.bitId[b]]);
  bool badArgs = false;
  if (!corrupt && mode == 12 && !bits.empty()) { vars.push_back(vars[0]); badArgs = true; }                          // duplicated variable
  if (!corrupt && mode == 13) { for (size_t i = 0; i < bits.size(); i++) if (f.dep(bits[i])) { vars.erase(vars.begin() + i); bits.erase(bits.begin() + i); badArgs = true; break; } }  // incomplete support
  if (!corrupt && mode == 14) { Cal_Bdd nv = Cal_BddNot(M.m, M.varH[M.bitId[0]]); std::vector<Cal_Bdd> v2(vars); v2.push_back(nv); v2.push_back(nullptr); Dev d; FILE *fp = openDev(&d, "w"); int ok = Cal_BddDumpBdd(M.m, x->h, v2.data(), fp); fclose(fp); Cal_BddFree(M.m, nv);
    if (ok) fail("dump-accepted", "dump accepted a negated variable in the support list"); return 1; }
  vars.push_back(nullptr);
  Dev d; FILE *fp = openDev(&d, "w"); bool unbuf = r.p(0.4); if (unbuf) setvbuf(fp, nullptr, _IONBF, 0); else if (r.p(0.5)) setvbuf(fp, wbuf, _IOFBF, 16 + r.below(200));
  bool wf = !corrupt && (mode >= 8 && mode < 12);
  if (wf) { d.failAt = r.below(30 + r.below(200)); }
  int ok = Cal_BddDumpBdd(M.m, x->h, vars.data(), fp);
  bool hit = d.failed; int ferr = ferror(fp); int fc = fclose(fp);
  mix(ok); mix(d.data.size());
  if (badArgs) { if (ok) fail("dump-accepted", "dump accepted a support list that is duplicated or incomplete"); return 1; }
  if (wf && hit) { fault(F_WRITEFAIL);
    if (ok) fail("dump-write-error", "dump reported success although writing failed at byte %ld", d.failAt);
  } else if (!ok) fail("dump-failed", "dump of a valid function failed");
  if (!ok || ferr || fc) { if (!wf) fail("dump-failed", "dump left the stream in error"); }
  bool complete = ok && !ferr && !fc;
  if (complete) { uint64_t h = 7; for (unsigned char ch : d.data) h = (h ^ ch) * 1099511628211ull; obs("dump of %zu bytes %016llx", d.data.size(), (unsigned long long)h); }
  // read back, possibly in another manager and with other variables
  int k2 = W.curMgr; if (W.mg.size() > 1 && r.p(0.5)) { int k = r.below(W.mg.size()); if (W.mg[k].live && (int)W.mg[k].bitId.size() >= (int)bits.size()) k2 = k; }
  Mgr &D = W.mg[k2]; std::vector<int> to; int dn = D.bitId.size();
  if (dn < (int)bits.size()) return 1;
  { std::vector<int> all; for (int b = 0; b < dn; b++) all.push_back(b); for (size_t i = all.size(); i > 1; i--) std::swap(all[i-1], all[r.below(i)]); for (size_t i = 0; i < bits.size(); i++) to.push_back(k2 == W.curMgr && r.p(0.6) && false ? bits[i] : all[i]); if (r.p(0.5)) { bool fits = true; for (int b : bits) fits &= b < dn; if (fits) to = bits; } }
  std::vector<TT> vt; std::vector<const TT*> g(TTN, nullptr); for (int b : to) vt.push_back(TT::var(b)); for (size_t i = 0; i < bits.size(); i++) g[bits[i]] = &vt[i];
  TT want = f.subst(g); std::set<int> allowed(to.begin(), to.end());
  Dev rd; rd.data = d.data; bool damaged = false, mustFail = !complete, ioerr = false;
  if (corrupt) {
    int what = mode % 8; size_t n = rd.data.size();
    switch (what) {
      case 0: case 1: { size_t k = r.below(n); rd.data.resize(k); mustFail = true; damaged = true; fault(F_IOTRUNC); break; }
      case 2: { rd.failAt = r.below(n); ioerr = true; mustFail = true; damaged = true; break; }
      case 3: case 4: { int c = 1 + r.below(3); for (int i = 0; i < c; i++) { size_t p = r.p(0.6) && n > 20 ? 20 + r.below(n - 20) : r.below(n); rd.data[p] ^= (char)(1 << r.below(8)); } damaged = true; fault(F_IOFLIP); break; }
      case 5: { int c = 1 + r.below(6); for (int i = 0; i < c; i++) rd.data[r.p(0.7) && n > 20 ? 20 + r.below(n - 20) : r.below(n)] = (char)(r.p(0.5) ? 0xff : r.below(8)); damaged = true; fault(F_IOFLIP); break; }
      case 6: { size_t p = n > 20 ? 20 + r.below(n - 20) : r.below(n); std::string ins; int c = 1 + r.below(6); for (int i = 0; i < c; i++) ins += (char)(r.p(0.5) ? 0xff : r.below(9)); if (r.p(0.5)) rd.data.insert(p, ins); else rd.data.erase(p, c); damaged = true; fault(F_IOFLIP); break; }
      default: { // the header claims other counts
        size_t p = 8 + r.below(12); if (p < n) rd.data[p] = (char)r.below(256); if (r.p(0.5) && n > 19) rd.data[19] = (char)r.below(256); damaged = true; fault(F_IOFLIP); } }
    if (damaged && rd.data == d.data && !ioerr) damaged = false, mustFail = false;
  }
  bool twice = !corrupt && complete && mode >= 5 && mode < 8; std::string one = d.data;   // several diagrams in one stream
  if (twice) rd.data += one;
  if (r.p(0.3)) rd.shortMax = 1 + r.below(5);
  std::vector<Cal_Bdd> dv; for (int b : to) dv.push_back(D.varH[D.bitId[b]]);
  bool tooMany = !corrupt && complete && mode == 15 && dn > (int)to.size(); if (tooMany) { for (int b = 0; b < dn; b++) if (!allowed.count(b)) { dv.push_back(D.varH[D.bitId[b]]); break; } mustFail = true; damaged = true; }
  Cal_Bdd odd = nullptr; bool oddVar = !corrupt && complete && mode == 4 && !dv.empty(); if (oddVar) { Cal_Bdd &v = dv[r.below(dv.size())]; if (r.p(0.5)) { odd = Cal_BddNot(D.m, v); if (!odd) { Cal_BddOverflow(D.m); oddVar = false; } else v = odd; } else v = r.p(0.5) ? Cal_BddOne(D.m) : Cal_BddZero(D.m); }  // not variables: refused
  dv.push_back(nullptr);
  FILE *rp = openDev(&rd, "r"); if (r.p(0.4)) setvbuf(rp, nullptr, _IONBF, 0); else if (r.p(0.3)) setvbuf(rp, rbuf, _IOFBF, 8 + r.below(64));
  int error = 12345; int tagSave = arena.tag, cmSave = W.curMgr; arena.tag = D.tag; W.curMgr = k2; D.mayReorder |= D.tech != 0;
  Cal_Bdd h = Cal_BddUndumpBdd(D.m, dv.data(), rp, &error);
  if (ioerr && rd.failed) fault(F_IOERR);
  if (twice && h) { int e2 = 777; Cal_Bdd h2 = Cal_BddUndumpBdd(D.m, dv.data(), rp, &e2); if (!h2 && !D.nodeLimit) fail("undump-failed", "the second diagram of a stream could not be read: error %d", e2);
    if (h2) { if (h2 != h) fail("undump-wrong", "the same diagram read twice from one stream gives two handles"); Cal_BddFree(D.m, h2); } else Cal_BddOverflow(D.m); }
  fclose(rp); mix(h != nullptr); mix(error);
  bool over = false;
  if (!h && D.nodeLimit) over = Cal_BddOverflow(D.m);
  if (odd) Cal_BddFree(D.m, odd);
  if (oddVar) { if (h) fail("undump-accepted", "a list that holds something else than variables was accepted"); arena.tag = tagSave; W.curMgr = cmSave; return 1; }
  if (h) {
    if (error) fail("undump-error", "a diagram was returned together with error %d", error);
    if (mustFail) fail("undump-accepted", "an incomplete or failing stream of %zu bytes (complete: %zu) was accepted", rd.data.size(), d.data.size());
    TT got; std::string why; if (!evalHandle(D, h, got, &why)) fail("undump-broken", "undump returned a malformed diagram: %s", why.c_str());
    for (int b = 0; b < TTN; b++) if (got.dep(b) && !allowed.count(b)) fail("undump-broken", "undumped function depends on a variable that was not offered");
    if (!damaged && got != want) fail("undump-wrong", "undump returned %s, should be %s", got.hex().c_str(), want.hex().c_str());
    probe(P_UNDUMP_OK); Slot &t = W.s[(unsigned)s.a[3] % W.s.size()]; if (t.h) Cal_BddFree(W.mg[t.mgr].m, t.h); t.h = h; t.f = got; t.mgr = k2; mix(got.hash());
  } else {
    probe(P_UNDUMP_NULL);
    if (!error && !over) fail("undump-error", "undump returned null without reporting an error");
    if (!damaged && complete && !over && !D.nodeLimit) fail("undump-failed", "reading back an intact dump failed with error %d", error);
    if (ioerr && rd.failed && error != CAL_BDD_UNDUMP_IOERROR) fail("undump-error", "a read error was reported as %d", error);
    if (corrupt && mode % 8 < 2 && damaged && error != CAL_BDD_UNDUMP_EOF && error != CAL_BDD_UNDUMP_FORMAT) fail("undump-error", "a truncated stream was reported as %d", error);
  }
  arena.tag = tagSave; W.curMgr = cmSave;
  return 1;
}
// Files whose numbers of shared nodes lie around the places where one and two bytes per label
// stop being enough. The function: the sum of weighted bits modulo M is below M/2 (some M nodes
// a level, nearly all of them shared), and beside it a parity whose length sets the exact number.
void bigDump(const Step &s) {
  if (TTW || W.hugeUsed > 60000) return;
  Rng r((unsigned)s.a[0]); bool big = (unsigned)s.a[1] % 3 == 0;
#ifdef __SANITIZE_ADDRESS__
  big = false;
#endif
  if (W.cfg.alloc.gap > 1 || (W.cfg.tune.nodesPerPage && W.cfg.tune.nodesPerPage < 16) || W.cfg.tune.pagesPerSegment == 1) big = false;
  W.hugeUsed += big ? 70000 : 1000;
  int n = big ? 44 : 16 + r.below(10), E = big ? 250 : 90; long target = (big ? 65536 : 256) + (r.p(0.8) ? (long)r.below(5) - 2 : (long)r.below(100));
  int tagSave = arena.tag; arena.tag = 90001 + 10 * (int)(++W.handleSerial); bool sup = W.suppressMaint; W.suppressMaint = true;
  auto need = [&](Cal_Bdd h) { if (!h) fail("null-result", "an operation returned null although no node limit is set"); return h; };
  const int K = big ? 20 : 8; int nv = K + n + E;  // selectors, bits to be summed, bits of the parity
  Cal_BddManager m = Cal_BddManagerInit(); std::vector<Cal_Bdd> v; for (int i = 0; i < nv; i++) v.push_back(Cal_BddManagerCreateNewVarLast(m));
  std::vector<Cal_Bdd> list(v); list.push_back(nullptr); std::string bytes;
  auto shared = [&](Cal_Bdd h) { Dev d; FILE *fp = openDev(&d, "w"); int ok = Cal_BddDumpBdd(m, h, list.data(), fp); fclose(fp); if (!ok) fail("dump-failed", "dump of a valid function failed"); bytes = d.data;
    long c = 0; for (size_t i = 10; i < 18 && i < bytes.size(); i++) c = c << 8 | (unsigned char)bytes[i]; return c; };
  struct Part { long M; std::vector<long> w; Cal_Bdd h; }; std::vector<Part> parts; long e = 1;
  auto build = [&](Part &p) { long M = p.M; auto &w = p.w; for (int i = 0; i < n; i++) w.push_back(1 + (long)r.below(M - 1));
    std::vector<std::vector<char>> reach(n + 1, std::vector<char>(M)); reach[0][0] = 1; for (int i = 0; i < n; i++) for (long k = 0; k < M; k++) if (reach[i][k]) reach[i + 1][k] = reach[i + 1][(k + w[i]) % M] = 1;
    std::vector<Cal_Bdd> nx(M, nullptr), cur(M, nullptr); for (long k = 0; k < M; k++) if (reach[n][k]) nx[k] = k < M / 2 ? Cal_BddOne(m) : Cal_BddZero(m);
    for (int i = n - 1; i >= 0; i--) { for (long k = 0; k < M; k++) cur[k] = reach[i][k] ? need(Cal_BddITE(m, v[K + i], nx[(k + w[i]) % M], nx[k])) : nullptr; for (long k = 0; k < M; k++) if (nx[k]) Cal_BddFree(m, nx[k]); std::swap(nx, cur); }
    p.h = nx[0]; for (long k = 1; k < M; k++) if (nx[k]) Cal_BddFree(m, nx[k]); };
  auto whole = [&]() { Cal_Bdd q = Cal_BddZero(m); for (long i = 0; i < e; i++) { Cal_Bdd t = need(Cal_BddXor(m, q, v[nv - 1 - i])); Cal_BddFree(m, q); q = t; }
    for (size_t i = parts.size(); i-- > 0;) { Cal_Bdd t = need(Cal_BddITE(m, v[i], parts[i].h, q)); Cal_BddFree(m, q); q = t; } return q; };
  Cal_Bdd f = whole(); long c = shared(f), ask = target * 8 / 10;
  for (int tries = 0; tries < 30 && parts.size() < (size_t)K && target - c > E - 10; tries++) { // from below, with ever smaller parts
    Part p; p.M = std::max(3l, ask / (n - 2)); build(p); parts.push_back(p); Cal_Bdd h = whole(); long z = shared(h);
    if (z > target) { parts.pop_back(); Cal_BddFree(m, p.h); Cal_BddFree(m, h); ask = ask * 2 / 3; } else { Cal_BddFree(m, f); f = h; c = z; ask = std::max(10l, (target - c) * 9 / 10); } }
  for (int tries = 0; tries < 4 && c != target; tries++) { long e2 = std::max(1l, std::min((long)E, e + target - c)); if (e2 == e) break; e = e2; Cal_BddFree(m, f); f = whole(); c = shared(f); }
  for (auto &p : parts) if (r.p(0.7)) Cal_BddFree(m, p.h);
  if (r.p(0.5)) Cal_BddManagerGC(m);
  long have = shared(f); obs("big dump %ld shared, %zu bytes", have, bytes.size()); if (have >= 65530) probe(P_BIGDUMP);
  auto truth = [&](const std::vector<char> &a) { for (size_t i = 0; i < parts.size(); i++) if (a[i]) { long t = 0; for (int b = 0; b < n; b++) if (a[K + b]) t += parts[i].w[b]; return t % parts[i].M < parts[i].M / 2; }
    bool p = false; for (long i = 0; i < e; i++) p ^= a[nv - 1 - i]; return p; };
  auto evalAt = [&](Cal_BddManager q, Cal_Bdd h, const std::vector<char> &a, const std::vector<int> &bitOf) { h = Cal_BddIdentity(q, h);
    while (!Cal_BddIsBddConst(q, h)) { int id = Cal_BddGetIfId(q, h); Cal_Bdd t = a[bitOf[id]] ? Cal_BddThen(q, h) : Cal_BddElse(q, h); Cal_BddFree(q, h); h = t; }
    bool one = Cal_BddIsBddOne(q, h); Cal_BddFree(q, h); return one; };
  { std::string why; Dev d; d.data = bytes; FILE *fp = openDev(&d, "r"); int err = 1; Cal_Bdd h = Cal_BddUndumpBdd(m, list.data(), fp, &err); fclose(fp);
    if (!h) fail("undump-failed", "reading back an intact dump of %ld shared nodes failed with error %d", have, err); if (h != f) fail("undump-wrong", "a dump of %ld shared nodes reads back as another function", have); Cal_BddFree(m, h); }
  Cal_BddManager m2 = Cal_BddManagerInit(); std::vector<int> pos; for (int i = 0; i < nv; i++) pos.push_back(i); if (!big && r.p(0.5)) for (int i = 0; i < 10; i++) std::swap(pos[K + r.below(n)], pos[K + r.below(n)]);
  std::vector<Cal_Bdd> l2(v.size() + 1, nullptr); std::vector<int> bitOf(v.size() + 2); for (size_t i = 0; i < pos.size(); i++) { l2[pos[i]] = Cal_BddManagerCreateNewVarLast(m2); bitOf[i + 1] = pos[i]; }
  { Dev d; d.data = bytes; FILE *fp = openDev(&d, "r"); int err = 1; Cal_Bdd h = Cal_BddUndumpBdd(m2, l2.data(), fp, &err); fclose(fp); if (!h) fail("undump-failed", "reading an intact dump of %ld shared nodes in a new manager failed with error %d", have, err);
    for (int t = 0; t < 120; t++) { std::vector<char> a(v.size()); for (auto &x : a) x = r.below(2); if (r.p(0.8)) for (int i = r.below(K); i-- > 0;) a[i] = 0; if (evalAt(m2, h, a, bitOf) != truth(a)) fail("undump-wrong", "a dump of %ld shared nodes reads back as another function in a new manager", have); }
    Cal_BddFree(m2, h); }
  { Dev d; d.data = bytes; d.data.resize(r.below(bytes.size())); FILE *fp = openDev(&d, "r"); int err = 0; fault(F_IOTRUNC); Cal_Bdd h = Cal_BddUndumpBdd(m2, l2.data(), fp, &err); fclose(fp); if (h) fail("undump-accepted", "an incomplete stream of %zu bytes (complete: %zu) was accepted", d.data.size(), bytes.size()); if (!err) fail("undump-error", "undump returned null without reporting an error"); }
  Cal_BddManagerGC(m2); if (peek_num_nodes(m2) > (unsigned long)v.size() + 1) fail("not-reclaimed", "%lu nodes remain after everything read was released", (unsigned long)peek_num_nodes(m2));
  Cal_BddManagerQuit(m2); Cal_BddManagerQuit(m); size_t left = arenaLiveTagged(arena.tag); if (left) fail("memory-leak", "%zu blocks of a shut-down manager were never returned:%s", left, arenaDescribeLive(arena.tag).c_str());
  arena.tag = tagSave; W.suppressMaint = sup;
}
