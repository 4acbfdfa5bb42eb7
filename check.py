#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and decides one property by seeded search.

  check.py C04 [--tier quick|thorough] [--secs N] [--seed N]
  check.py C04 --replay replays/C04-....plan      reproduce a reported violation
  check.py --setup                                check that the tools are there
"""
import argparse, collections, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import worldgen  # noqa: E402

REPO = os.environ.get("ICL_REPO", "/repo")
JOBS = max(1, min(16, os.cpu_count() or 1))
CXX = "g++"
FLAGS = ["-std=c++17", "-O1", "-w"]
# the quick tier spends less on compiling: a fast compiler without optimisation, and a longer search
QUICK = ("clang++", ["-std=c++17", "-O0", "-w"]) if shutil.which("clang++") else (CXX, FLAGS)

# property -> families of worlds that serve it, extra macros
PROPS = {
    "C01": (["sets"], []), "C02": (["maps"], []), "C03": (["sets", "maps"], []), "C04": (["sets", "maps"], []),
    "C05": (["sets", "maps", "elems"], []), "C06": (["sets", "maps", "elems"], []), "C07": (["sets", "maps", "elems"], []),
    "C08": (["readers"], ["-DSIM_QUERIES", "-DSIM_PRINT"]), "C09": (["owners"], ["-DSIM_QUERIES", "-DSIM_PRINT"]),
    "C10": (["sets", "maps", "elems"], ["-DSIM_PRINT"]), "C11": (["elems"], []), "C12": (["sets", "maps", "elems"], []), "C13": (["sets", "maps"], []), "C14": (["sets", "maps", "elems"], ["-DSIM_QUERIES"]),
    "C23": (["work"], []),
}
QUICK_SECS, THOROUGH_SECS = 30, 900


def err(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def includes():
    inc = ["-I" + os.path.join(HERE, "sim"), "-I" + REPO + "/include"]
    for d in ("shim", "guard"):  # the build's own stand-ins for other Boost libraries, where they exist
        p = os.path.join(REPO, "_build", d)
        if os.path.isdir(p):
            inc.append("-I" + p)
    return inc


def tree_digest():
    h = hashlib.sha256()
    for root in (REPO + "/include", os.path.join(HERE, "sim"), REPO + "/_build/shim", REPO + "/_build/guard"):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".h", ".ipp")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    h.update(subprocess.run([CXX, "--version"], capture_output=True).stdout + subprocess.run([QUICK[0], "--version"], capture_output=True).stdout)
    return h.hexdigest()[:20]


def build_root():
    for b in (os.path.join(HERE, "build"), os.path.join(tempfile.gettempdir(), "icl-sim-build-%d" % os.getuid())):
        try:
            os.makedirs(b, exist_ok=True)
            probe = os.path.join(b, ".w%d" % os.getpid())
            open(probe, "w").close()
            os.unlink(probe)
            return b
        except OSError:
            continue
    err("no writable build directory")


def build(prop, tier):
    """Compiles the worlds of a property (in parallel, cached by content) and links one simulator binary."""
    fams, macros = PROPS[prop]
    root = build_root()
    lock = open(os.path.join(root, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    digest = tree_digest()
    old = sorted((d for d in os.listdir(root) if d.startswith("t-") and d != "t-" + digest),
                 key=lambda d: os.path.getmtime(os.path.join(root, d)))
    for d in old[:-1]:
        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    bdir = os.path.join(root, "t-" + digest)
    os.makedirs(bdir, exist_ok=True)
    jobs, objs = [], []

    def unit(name, text, flags, cxx=CXX):
        key = hashlib.sha256((cxx + "\0" + "\0".join(flags) + "\0" + text).encode()).hexdigest()[:12]
        o = os.path.join(bdir, "%s-%s.o" % (name, key))
        objs.append(o)
        if not os.path.exists(o):
            src = o[:-2] + ".cpp"
            open(src, "w").write(text)
            jobs.append((src, o, [cxx] + flags))

    fam_flags = getattr(worldgen, "FLAGS", {})
    for fam in fams:
        cxx, flags = QUICK if fam == "work" or (tier == "quick" and fam not in fam_flags) else (CXX, FLAGS)
        for name, text in sorted(worldgen.FAMILIES[fam](tier).items()):
            unit(name, text, flags + macros + fam_flags.get(fam, []), cxx)
    unit("core", '#include "core.cpp"\n', FLAGS + ["-O2"])
    for fam in fams:
        for name, src, fl in getattr(worldgen, "RUNTIME", {}).get(fam, []):
            unit(name, src, fl)
    inc = includes()
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    failed, m = [], threading.Lock()

    def worker():
        while True:
            with m:
                if not jobs or failed:
                    return
                src, o, fl = jobs.pop(0)
            r = subprocess.run(fl + inc + ["-c", src, "-o", o + ".tmp"], capture_output=True, text=True)
            if r.returncode:
                with m:
                    failed.append((src, r.stderr))
            else:
                os.rename(o + ".tmp", o)

    n = len(jobs)
    ts = [threading.Thread(target=worker) for _ in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if failed:
        err("the simulator does not compile against %s\n%s\n%s" % (REPO, failed[0][0], "\n".join(sorted(failed[0][1].splitlines(), key=lambda l: "error:" not in l))[:4000]))
    key = hashlib.sha256("\0".join(sorted(objs)).encode()).hexdigest()[:12]
    exe = os.path.join(bdir, "sim-" + key)
    if not os.path.exists(exe):
        r = subprocess.run([CXX, "-o", exe + ".tmp"] + objs, capture_output=True, text=True)
        if r.returncode:
            err("linking failed\n" + r.stderr[:4000])
        os.rename(exe + ".tmp", exe)
    os.utime(bdir)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exe, n


# ---------------------------------------------------------------------------------------------------------------------
class Plan:
    def __init__(self, text):
        self.head, self.ops, self.sched = [], [], []
        for l in text.splitlines():
            if l.startswith("op "):
                self.ops.append(l.split())
            elif l.startswith("sched"):
                self.sched = l.split()[1:]
            elif l.strip() and not l.startswith("#"):
                self.head.append(l)

    def text(self, ops=None, sched=None, head=None):
        ops = self.ops if ops is None else ops
        sched = self.sched if sched is None else sched
        out = list(self.head if head is None else head) + [" ".join(o) for o in ops]
        if sched:
            out.append("sched " + " ".join(sched))
        return "\n".join(out) + "\n"


RES = re.compile(r"^RESULT class=(\S+) hash=(\S+) op=(-?\d+)(?: detail=(.*))?$", re.M)


def run_plan(exe, text, scratch, verbose=False, timeout=60):
    f = os.path.join(scratch, "p%d-%d.plan" % (os.getpid(), threading.get_ident()))
    open(f, "w").write(text)
    try:
        r = subprocess.run([exe, "replay", "--file", f, "--verbose", "1" if verbose else "0"], capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return ("hang", "0", -1, "no result in time", "")
    ms = RES.findall(r.stdout)
    if not ms:
        return ("died", str(r.returncode), -1, "the run ended without a result (exit %d)" % r.returncode, r.stdout)
    c, h, op, d = ms[-1]
    return (c, h, int(op), d, r.stdout)


def minimise(exe, text, cls, scratch, budget):
    """Smallest plan of the same violation class: drop operations and faults, then simplify arguments."""
    end = time.time() + budget
    p = Plan(text)
    tried = [0]

    def fails(ops, sched=None):
        if time.time() > end:
            return False
        tried[0] += 1
        return run_plan(exe, p.text(ops, sched), scratch, timeout=20)[0] == cls

    r = run_plan(exe, text, scratch)
    if 0 <= r[2] < len(p.ops) - 1 and fails(p.ops[:r[2] + 1]):
        p.ops = p.ops[:r[2] + 1]

    def ddmin(items, test):
        n = max(2, min(8, len(items)))
        while len(items) >= 2 and time.time() < end:
            size = max(1, len(items) // n)
            parts = [(i, min(len(items), i + size)) for i in range(0, len(items), size)]
            for a, b in reversed(parts):
                cand = items[:a] + items[b:]
                if cand != items and test(cand):
                    items = cand
                    n = max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        if len(items) == 1 and test([]):
            items = []
        return items

    for _ in range(3):
        before = p.text()
        p.ops = ddmin(p.ops, lambda c: bool(c) and fails(c))
        if p.sched:
            p.sched = ddmin(p.sched, lambda c: fails(p.ops, c))
        for i in range(len(p.ops)):
            o = p.ops[i]
            fi = o.index("fault") if "fault" in o else len(o)
            if fi < len(o) and o[fi + 1] != "0":
                cand = o[:fi + 1] + ["0", "0", "0"]
                if fails(p.ops[:i] + [cand] + p.ops[i + 1:]):
                    p.ops[i] = o = cand
            for k in range(2, len(o)):
                if k == fi or k == fi + 1 or not re.match(r"-?\d+$", o[k]):
                    continue
                v = int(o[k])
                for nv in [x for x in (0, 1, 2, 3, v // 16, v // 4, v // 2, v - 1) if 0 <= x < v]:
                    cand = o[:k] + [str(nv)] + o[k + 1:]
                    if fails(p.ops[:i] + [cand] + p.ops[i + 1:]):
                        p.ops[i] = o = cand
                        break
        if p.text() == before or time.time() > end:
            break
    return p.text(), tried[0]


def determinism(exe, prop, seed, scratch):
    """The same 96 runs in one process and spread over three: every event hash must agree."""
    def lines(args):
        r = subprocess.run([exe, "work", "--prop", prop, "--seed", str(seed), "--hashes", "1", "--secs", "120", "--out", os.path.join(scratch, "det")] + args,
                           capture_output=True, text=True, errors="replace")
        return {l.split()[1]: l.split()[2] for l in r.stdout.splitlines() if l.startswith("H ")}, r.returncode
    one, rc = lines(["--from", "0", "--to", "96"])
    if rc:
        return None, 0
    two = {}
    for k in (2, 0, 1):
        two.update(lines(["--from", str(k), "--stride", "3", "--to", "96"])[0])
    return one == two, len(one)


def search(exe, prop, seed, secs, scratch):
    ws = []
    for k in range(JOBS):
        out = os.path.join(scratch, "w%d" % k)
        log = open(out + ".log", "w")
        ws.append((k, out, subprocess.Popen([exe, "work", "--prop", prop, "--seed", str(seed), "--from", str(k), "--stride", str(JOBS),
                                             "--to", "4000000000", "--secs", str(secs), "--out", out], stdout=log, stderr=subprocess.STDOUT)))
    hits, end, stop_at = [], time.time() + secs + 60, None
    live = list(ws)
    while live:
        time.sleep(0.05)
        for w in list(live):
            if w[2].poll() is not None:
                live.remove(w)
                if w[2].returncode != 0:
                    hits.append(w)
                    if stop_at is None:
                        stop_at = time.time() + 2
        if live and (time.time() > end or (stop_at and time.time() > stop_at)):
            for w in live:
                w[2].terminate()
            for w in live:
                w[2].wait()
            break
    found = []
    for k, out, pr in hits:
        text = open(out + ".log", errors="replace").read()
        m = re.search(r"^VIOL index=(\d+) class=(\S+) hash=(\S+) detail=(.*)$", text, re.M)
        if m:
            found.append((int(m.group(1)), m.group(2), m.group(3), m.group(4)))
            continue
        try:
            idx = int.from_bytes(open(out + ".cur", "rb").read(8), "little", signed=True)
        except OSError:
            continue
        c = RES.findall(text)
        if idx >= 0:
            found.append((idx, c[-1][0] if c else "died", c[-1][1] if c else "", "the run ended in %s" % (c[-1][0] if c else "exit %d" % pr.returncode)))
        elif pr.returncode == 2:
            err("worker failed: " + text[:2000])
    total = collections.Counter()
    worlds, probes, fired, sets_ = collections.Counter(), collections.Counter(), collections.Counter(), {}
    for k, out, pr in ws:
        if not os.path.exists(out):
            continue
        try:
            d = json.load(open(out))
        except ValueError:
            continue
        for f in ("runs", "nontrivial", "ops", "threw", "checks", "steps", "shortages", "judged_faults"):
            total[f] += d[f]
        worlds.update(d["worlds"]); probes.update(d["probes"]); fired.update(d["fired"])
    for kind in ("states", "runs"):
        s = set()
        for k, out, pr in ws:
            if os.path.exists(out + "." + kind):
                b = open(out + "." + kind, "rb").read()
                s.update(b[i:i + 8] for i in range(0, len(b), 8))
        sets_[kind] = len(s)
    return sorted(found), total, worlds, probes, fired, sets_


def samples(exe, prop, seed, scratch):
    out = []
    for idx in (1, 11):
        r = subprocess.run([exe, "gen", "--prop", prop, "--seed", str(seed), "--index", str(idx)], capture_output=True, text=True)
        res = run_plan(exe, r.stdout, scratch, verbose=True)
        steps = [l.strip() for l in res[4].splitlines() if l.strip() and not l.startswith("RESULT")]
        world = next((l.split()[1] for l in r.stdout.splitlines() if l.startswith("world ")), "?")
        out.append({"index": idx, "world": world, "steps": steps[:40], "outcome": res[0], "event_hash": res[1]})
    return out


def save_replay(prop, text, verbose_out, cls, detail, note):
    for d in (os.path.join(HERE, "replays"), os.path.join(tempfile.gettempdir(), "icl-sim-replays")):
        try:
            os.makedirs(d, exist_ok=True)
            name = "%s-%s.plan" % (prop, hashlib.sha256(text.encode()).hexdigest()[:10])
            path = os.path.join(d, name)
            with open(path, "w") as f:
                f.write("# property %s, violation %s\n# %s\n# %s\n" % (prop, cls, detail.replace("\n", " "), note))
                for l in verbose_out.splitlines():
                    f.write("# | " + l[:400] + "\n")
                f.write(text)
            return path
        except OSError:
            continue
    err("cannot write a replay file")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--secs", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.setup:
        r = subprocess.run([CXX, "--version"], capture_output=True, text=True)
        if r.returncode or not os.path.isdir(REPO + "/include/boost/icl"):
            err("compiler or sources missing")
        print("ready: " + r.stdout.splitlines()[0])
        return 0
    if a.prop not in PROPS:
        err("unknown property %s" % a.prop)
    t0 = time.time()
    exe, compiled = build(a.prop, a.tier)
    t_build = time.time() - t0
    if a.build_only:
        print("built %d units in %.1f s: %s" % (compiled, t_build, exe))
        return 0
    scratch = tempfile.mkdtemp(prefix="icl-sim-")
    try:
        return decide(a, exe, t0, t_build, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(a, exe, t0, t_build, scratch):
    prop = a.prop
    if a.replay:
        text = open(a.replay).read()
        r1, r2 = run_plan(exe, text, scratch, verbose=True), run_plan(exe, text, scratch)
        sys.stdout.write(r1[4])
        if r1[:2] != r2[:2]:
            err("the replay is not deterministic: %s vs %s" % (r1[:2], r2[:2]))
        if r1[0] == "ok":
            print("no violation")
            return 0
        print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
        return 1
    secs = a.secs or (QUICK_SECS if a.tier == "quick" else THOROUGH_SECS)
    det, det_n = determinism(exe, prop, a.seed, scratch)
    if det is False:
        err("the simulation is not deterministic")
    t1 = time.time()
    found, total, worlds, probes, fired, sets_ = search(exe, prop, a.seed, secs, scratch)
    t_search = time.time() - t1
    reported, unreproducible = None, []
    for idx, cls, h, detail in found:
        g = subprocess.run([exe, "gen", "--prop", prop, "--seed", str(a.seed), "--index", str(idx)], capture_output=True, text=True).stdout
        r1, r2 = run_plan(exe, g, scratch), run_plan(exe, g, scratch)
        if r1[0] == "ok" or r1[:2] != r2[:2]:
            unreproducible.append((idx, cls, r1[:2], r2[:2]))
            continue
        small, tried = minimise(exe, g, r1[0], scratch, 45 if a.tier == "quick" else 300)
        s1, s2, s3 = run_plan(exe, small, scratch, verbose=True), run_plan(exe, small, scratch), run_plan(exe, small, scratch)
        if not (s1[0] == s2[0] == s3[0] == r1[0] and s1[1] == s2[1] == s3[1]):
            unreproducible.append((idx, cls, s1[:2], s2[:2]))
            continue
        note = "found as run %d of seed %d (%d operations), minimised to %d operations with %d re-executions" % (idx, a.seed, len(Plan(g).ops), len(Plan(small).ops), tried)
        path = save_replay(prop, small, s1[4], r1[0], s1[3] or r1[0], note)
        reported = (path, r1[0], s1[3] or r1[0], note)
        break
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": total["runs"], "distinct_nontrivial": sets_["runs"],
            "rule": RULES.get(prop, RULES["*"]),
            "samples": samples(exe, prop, a.seed, scratch),
            "operations": total["ops"], "oracle_evaluations": total["checks"], "oracle_evaluations_after_faults": total["judged_faults"],
            "nontrivial_runs": total["nontrivial"],
            "seeds": 1, "runs_per_hour": int(total["runs"] / max(t_search, 0.01) * 3600), "seeds_per_hour": int(total["runs"] / max(t_search, 0.01) * 3600),
            "seed_meaning": "every run has its own seed, derived from VERIF_SEED, the property and the run index",
            "simulated_steps": total["steps"], "simulated_time": "the library has no clock; simulated time is counted in steps (operations, allocations, value copies, combinations, scheduled memory accesses, for C23 basic blocks)",
            "faults_fired": {**dict(fired), **{k: v for k, v in probes.items() if " fault: " in k}}, "shortages": total["shortages"], "operations_failed": total["threw"],
            "distinct_states": sets_["states"], "state_measure": "distinct preemptions: (operation and access count of the preempted thread, of the resumed one)" if prop in ("C08", "C09") else "distinct (operation, magnitudes of container, operand and segments touched, failed or not)" if prop == "C23" else "distinct (container, segment list with values) observed after an operation (capped at 400000 per worker)",
            "probes": dict(probes), "runs_by_world": dict(worlds), "worlds": len(worlds),
            "real_code": "all of /repo/include/boost/icl as compiled from the working tree, with the standard library's trees",
            "stubbed": STUBS.get(prop, STUBS["*"]),
            "determinism_check": {"runs_compared": det_n, "identical_event_hashes": bool(det)},
            "build_s": round(t_build, 1), "search_s": round(t_search, 1), "workers": JOBS,
        },
        "assumptions": ASSUME.get(prop, []) + ASSUME["*"],
        "wall_s": round(wall, 1), "violations": 1 if reported else 0,
    }
    if reported:
        ev["coverage"]["violation"] = {"class": reported[1], "detail": reported[2], "replay": reported[0], "note": reported[3]}
    try:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    except OSError as e:
        print("evidence not written: %s" % e)
    print("%s: %d runs (%d non-trivial and distinct), %d operations, %d failed under faults, %d oracle evaluations, %d worlds; build %.0f s, search %.0f s"
          % (prop, total["runs"], sets_["runs"], total["ops"], total["threw"], total["checks"], len(worlds), t_build, t_search))
    if reported:
        print("%s: %s\n  %s" % (reported[1], reported[2], reported[3]))
        print("VIOLATION property=%s replay=%s" % (prop, reported[0]))
        return 1
    if unreproducible:
        err("a run failed but could not be reproduced: %s" % unreproducible[:3])
    if total["runs"] == 0 or sets_["runs"] == 0:
        err("nothing was explored")
    return 0


RULES = {
    "C08": "a run is a seeded random history on shared containers followed by 2-3 simulated threads that read them under a seeded schedule of preemptions at memory accesses; it is non-trivial if at least two reads were compared with running alone and at least one preemption happened inside a library operation; distinct by event hash (which covers every preemption)",
    "C09": "a run is 2-3 simulated threads, each with a seeded random history with faults on containers of its own, under a seeded schedule of preemptions at memory accesses; it is non-trivial if at least three operations were compared with running alone and at least one preemption happened inside a library operation; distinct by event hash (which covers every preemption)",
    "*": "a run is a seeded random plan of 3-44 operations with faults on several containers of one world; it is non-trivial if at least 3 oracle evaluations were made and at least 3 non-empty container states occurred; distinct by event hash",
    "C04": "a run is a seeded random plan of 3-44 operations with faults; it is non-trivial if at least one update failed with an exception and was judged element by element; distinct by event hash",
    "C23": "a run is a seeded random plan of containers of 0-20000 segments and 4-30 operations on them, some with faults; it is non-trivial if at least three operations on containers of 1000 segments or more were judged; distinct by event hash",
    "C06": "a run is a seeded random plan of 3-44 operations with faults; it is non-trivial if at least one repeatable update failed, was repeated and judged; distinct by event hash",
}
STUBS = {"C08": "allocator (simulated arena), threads (fibers under a seeded scheduler), guards of function-local statics, locks and atomics (simulated), codomain value type in the object worlds; every run is a process of its own so that static data starts afresh",
         "C09": "allocator (simulated arena), threads (fibers under a seeded scheduler), guards of function-local statics, locks and atomics (simulated), codomain value type in the object worlds; every run is a process of its own so that static data starts afresh",
         "C10": "allocator (simulated arena), stream buffer (simulated device), codomain value type and its inserter in the object worlds",
         "C23": "allocator (simulated arena), codomain value type in the object worlds, erase_if predicates, the clock (executed basic blocks of the library and of the standard library's headers, counted by compiler instrumentation)",
         "*": "allocator (simulated arena), codomain value type in the object worlds, erase_if/add_if predicates"}
ASSUME = {
    "*": ["copying and comparing domain values and intervals does not throw; comparing codomain values does not throw, and copying an identity value does not",
          "a failing codomain combination leaves its target unchanged",
          "operands of one operation are distinct objects"],
}

if __name__ == "__main__":
    sys.exit(main())
