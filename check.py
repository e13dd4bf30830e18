#!/usr/bin/env python3
"""check.py PROPERTY   decide one property by seeded simulation campaigns.

exit 0  held on everything explored      exit 1  VIOLATION line printed
exit 2  the check itself failed (does not build, not reproducible, ...)
"""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CAL_REPO", "/repo")
BUILD = os.environ.get("CAL_BUILD", os.path.join(HERE, "build"))
VARIANTS = ("plain", "release", "asan")
WHAT = {"plain": "-O1, internal assertions on, 1 KiB node pages",
        "release": "-O2 -DNDEBUG, 2 KiB node pages",
        "asan": "-O1, AddressSanitizer with poisoned freed blocks, assertions on, 4 KiB node pages"}
WORKERS = {"plain": 3, "release": 3, "asan": 3}
# simulated runs per variant; every index is one seed
RUNS = {"quick": {"plain": 15000, "release": 15000, "asan": 1200},
        "thorough": {"plain": 400000, "release": 400000, "asan": 60000}}
SCALE = {"P19": 0.3, "P15": 0.8, "P21": 0.9, "P14": 0.8, "P16": 0.8}   # costly workloads
BUDGET = {"quick": 110, "thorough": 560}      # seconds, a cap on top of the run counts
OFFSET = {"plain": 0, "release": 10000000, "asan": 20000000}
CPU = {"plain": "8", "release": "8", "asan": "40"}
KNOWN = os.path.join(HERE, "known_findings.txt")
MAXKEYS = 4


def log(*a):
    print(*a, flush=True)


def sources_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/*")) + sorted(glob.glob(HERE + "/sim/*"))
    for f in files:
        if os.path.isfile(f) and f.endswith((".c", ".h", ".hh", ".cc", "Makefile")):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def build():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    want = sources_hash()
    stamp = os.path.join(BUILD, "stamp")
    done = os.path.exists(stamp) and open(stamp).read() == want and \
        all(os.path.exists(os.path.join(BUILD, v, "calsim")) for v in VARIANTS)
    if not done:
        if os.path.exists(stamp):
            os.unlink(stamp)
        # the second attempt leaves the sources' tuning constants as shipped, for
        # code that needs them at compile time
        for extra in ("", "-DSIM_NO_TUNE"):
            procs = []
            for v in VARIANTS:
                d = os.path.join(BUILD, v)
                for o in glob.glob(d + "/*.o") + glob.glob(d + "/calsim"):
                    os.unlink(o)
                procs.append((v, subprocess.Popen(
                    ["make", "-s", "-j4", "-f", os.path.join(HERE, "sim/Makefile"), "VARIANT=" + v,
                     "REPO=" + REPO, "OUT=" + d, "EXTRA=" + extra],
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            bad = False
            for v, p in procs:
                out, _ = p.communicate()
                if p.returncode:
                    log("build of variant %s %s failed:\n%s" % (v, extra, out[-3000:]))
                    bad = True
            if not bad:
                break
        if bad:
            sys.exit(2)
        open(stamp, "w").write(want)
    lock.close()


def sim(variant, *args, timeout=None):
    env = dict(os.environ, CALSIM_CPU=CPU[variant], ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1")
    return subprocess.run([os.path.join(BUILD, variant, "calsim")] + [str(a) for a in args], env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout, errors="replace")


def replay(variant, path):
    r = sim(variant, "replay", path, timeout=200)
    m = re.search(r"^REPLAY violated=(\d) class=(\S*) op=(\S+) step=(-?\d+) hash=(\w+) message=(.*)$", r.stdout, re.M | re.S)
    if not m:
        return None
    return m.groups()


def known_findings(prop):
    """lines 'finding: property=P class=C op=O message=<regex>' name recorded, unrepaired defects."""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\w+) class=(\S+) op=(\S+) message=(.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3), re.compile(m.group(4)), line.strip()))
    return res


def main():
    if sys.argv[1] == "--build":
        build()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in RUNS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    build()
    tb = time.time() - t0
    scale = SCALE.get(prop, 1.0)
    procs = {}
    env0 = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1")
    for v in VARIANTS:
        n = int(RUNS[tier][v] * scale)
        bm = os.path.join(BUILD, "bitmap.%s.%s" % (prop, v))
        cmd = [os.path.join(BUILD, v, "calsim"), "campaign", prop, str(seed), str(n), str(WORKERS[v]),
               str(BUDGET[tier]), bm, str(OFFSET[v])]
        procs[v] = (subprocess.Popen(cmd, env=dict(env0, CALSIM_CPU=CPU[v]), stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, text=True, errors="replace"), bm)
    res = {}
    for v, (p, bm) in procs.items():
        out, _ = p.communicate()
        try:
            res[v] = json.loads(out)
        except ValueError:
            log("campaign of variant %s gave no result (exit %s)" % (v, p.returncode))
            return 2
        res[v]["states"] = sum(bin(b).count("1") for b in open(bm, "rb").read().translate(None, b"\0"))
        os.unlink(bm)
    camp_wall = time.time() - t0 - tb

    # ---- failures: minimise, replay in fresh processes, report
    known = known_findings(prop)
    confirmed, unconfirmed, seen_known = [], [], set()
    todo = []
    for v in VARIANTS:
        for f in res[v]["failures"]:
            if f["key"].startswith("NONDETERMINISM/"):
                unconfirmed.append("%s %s (run %d): two executions of one seed differ" % (v, f["key"], f["index"]))
                continue
            todo.append((v, f))
    rank = {"plain": 0, "release": 1, "asan": 2}
    todo.sort(key=lambda x: (x[1]["key"].startswith("hang"), rank[x[0]], -x[1]["count"]))
    done_keys = set()
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    tries = 0
    for v, f in todo:
        cls, _, op = f["key"].partition("/")
        hit = [k for k in known if k[0] == cls and k[1] in ("*", op) and k[2].search(f["message"])]
        if hit:
            seen_known.add(hit[0][3])
            continue
        if f["key"] in done_keys or len(confirmed) >= MAXKEYS or tries >= 8 or time.time() - t0 > (400 if tier == "quick" else 780):
            continue
        tries += 1
        path = os.path.join(HERE, "replays", "%s-%s-%d-%d.replay" % (prop, v, seed, f["index"]))
        try:
            m = sim(v, "minimise", prop, seed, f["index"], path, v, 12, timeout=240)
        except subprocess.TimeoutExpired:
            unconfirmed.append("%s run %d: minimising timed out" % (f["key"], f["index"]))
            continue
        if not m.stdout.startswith("MINIMISED"):
            unconfirmed.append("%s %s run %d: %s" % (v, f["key"], f["index"], m.stdout.strip()[:200]))
            continue
        a, b = replay(v, path), replay(v, path)
        if a and a == b and a[0] == "1" and a[1] == re.sub(r"\s", "", cls):
            hit = [k for k in known if k[0] == a[1] and k[1] in ("*", a[2]) and k[2].search(a[5])]
            if hit:
                seen_known.add(hit[0][3])
                continue
            done_keys.add(f["key"])
            confirmed.append((path, v, f, a))
        else:
            unconfirmed.append("%s %s run %d: replays differ: %s / %s" % (v, f["key"], f["index"], a, b))

    total = {k: sum(res[v][k] for v in VARIANTS) for k in
             ("runs", "steps", "points", "distinct", "violations", "faulty_runs", "fault_free_runs", "rechecks", "mismatches", "states")}

    def merged(k):
        return {n: sum(res[v][k].get(n, 0) for v in VARIANTS) for n in res["plain"][k]}
    sample = sim("plain", "one", prop, seed, OFFSET["plain"], timeout=120).stdout.splitlines()
    wall = time.time() - t0
    rate = total["runs"] / max(camp_wall, 0.001) * 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": total["distinct"],
            "rule": "one evaluation = one simulated run: a fresh process whose allocator, page source, break, output streams "
                    "and maintenance schedule are owned by the simulator; its configuration, operation sequence, maintenance "
                    "placements and injected faults are drawn from hash(VERIF_SEED, property, run index). Non-trivial = at "
                    "least 5 checked steps and either an injected fault or more than 20 maintenance points passed; distinct = "
                    "different run hash (results, node counts, orders and outputs of every step).",
            "samples": ["\n".join(sample[:16])[:3000] + ("\n... (%d lines)" % len(sample) if len(sample) > 16 else "")],
            "simulated_runs_per_hour": round(rate), "seeds_per_hour": round(rate),
            "seed_range": {v: [OFFSET[v], OFFSET[v] + int(RUNS[tier][v] * scale) - 1] for v in VARIANTS},
            "simulated_time": {"steps": total["steps"], "maintenance_points": total["points"],
                               "note": "the library has no clock or timer; simulated time is counted in API steps and in "
                                       "points at which maintenance may be scheduled"},
            "faults_injected": {k: n for k, n in merged("faults").items() if n},
            "runs_with_faults": total["faulty_runs"], "runs_without_faults": total["fault_free_runs"],
            "rare_events_reached": {k: n for k, n in merged("probes").items() if n},
            "rare_events_not_reached": [k for k, n in merged("probes").items() if not n],
            "operations": {k: n for k, n in merged("ops").items() if n},
            "distinct_states": total["states"],
            "distinct_states_measure": "hash of (functions held by all handles, variable order, last operation, maintenance "
                                       "placement) after every step, counted in a 2^23-bit table per variant (lower bound)",
            "same_seed_reexecutions": total["rechecks"], "same_seed_mismatches": total["mismatches"],
            "variants": {v: {"build": WHAT[v], "runs": res[v]["runs"], "violations": res[v]["violations"],
                             "wall_s": res[v]["wall"]} for v in VARIANTS},
            "real_components": "all of /repo/src (C library and calObj.hh) compiled from the working tree",
            "stub_components": "malloc/free/realloc, aligned_alloc, sbrk, exit, stdio streams handed to the library (dump, "
                               "print, warnings), and the decision when maintenance runs (CAL_SIM_MAINTENANCE_POINT)",
        },
        "assumptions": [],
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    log("%s %s: %d runs (%d distinct), %d steps, %d maintenance points, %d re-executions, build %.0fs, campaign %.0fs" %
        (prop, tier, total["runs"], total["distinct"], total["steps"], total["points"], total["rechecks"], tb, camp_wall))
    for k in sorted(seen_known):
        m = re.match(r"finding: property=(\w+) (.*)$", k)
        log("KNOWN-FINDING: property=%s %s" % (m.group(1), m.group(2)))
    for path, v, f, a in confirmed:
        log("  %s (variant %s, run %d, %d runs failed this way): %s" % (f["key"], v, f["index"], f["count"], a[5].strip()[:500]))
        log("  replay: %s/%s/calsim replay %s" % (BUILD, v, path))
        log("VIOLATION property=%s replay=%s" % (prop, path))
    if confirmed:
        return 1
    if unconfirmed:
        for u in unconfirmed[:10]:
            log("UNCONFIRMED " + u)
        return 2
    if total["runs"] == 0:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
