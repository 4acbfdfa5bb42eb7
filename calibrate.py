#!/usr/bin/env python3
"""Measures what the operations of the work worlds (C23) cost on the current tree and rewrites sim/work_limits.hpp.

Run by hand, when an operation is added to sim/work.hpp: the limits are what was measured at sizes from 0 to 20000 segments,
per search (log2 of the sizes) and per segment, with room to spare.  The growth with the sizes is fixed by the shape of the
operation in sim/work.hpp, which follows the documentation, and is not measured.  A check never runs this."""
import collections, os, subprocess, sys, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
SHAPE = "CONST HINT LOG SEG SEGLOG N NM MLOG MLOGN NMLOG ELEMS".split()


def main():
    secs = sys.argv[1] if len(sys.argv) > 1 else "90"
    b = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "C23", "--build-only", "--tier", "thorough"], capture_output=True, text=True)
    exe = b.stdout.split(": ")[-1].strip()
    if not os.path.exists(exe):
        sys.exit(b.stdout + b.stderr)
    tmp = tempfile.mkdtemp()
    ps = [(open("%s/e%d" % (tmp, k), "w"), k) for k in range(8)]
    ps = [subprocess.Popen([exe, "work", "--prop", "C23", "--seed", str(900 + k), "--from", "0", "--to", "10000000", "--secs", secs, "--out", "%s/o%d" % (tmp, k)],
                           stdout=subprocess.DEVNULL, stderr=f, env=dict(os.environ, SIM_CALIBRATE="1")) for f, k in ps]
    if any([p.wait() for p in ps]):
        sys.exit("a worker failed: " + tmp)
    rows, n = collections.defaultdict(list), 0
    for k in range(8):
        for l in open("%s/e%d" % (tmp, k)):
            p = l.rstrip("\n").split("\t")
            if len(p) == 7 and p[0] == "CAL":
                rows[p[1], p[2], int(p[3])].append((float(p[4]), float(p[5]), int(p[6])))
                n += 1
    shutil.rmtree(tmp)
    out = []
    for (kind, op, shape), v in sorted(rows.items()):
        per_search = max([c / max(a, 1) for a, b, c in v if b <= 3] or [0])
        per_segment = max([(c - per_search * a) / b for a, b, c in v if b >= 20] or [0])
        s, e = SHAPE[shape], kind.startswith("element")
        if s == "HINT":
            per_search, per_segment = 1.5 * per_search, 0
        elif s == "CONST":
            per_search, per_segment = max(3 * per_search, 15), 0
        else:
            per_search = max(3 * per_search, 40 if e else 300)
            per_segment = 0 if s in ("LOG", "SEGLOG", "NMLOG") else max(3 * per_segment, 60 if e else 300)
        out.append('{"%s", "%s", %d, %.0f, %.0f},' % (kind, op, shape, per_search + .5, per_segment + .5 * (per_segment > 0)))
    with open(os.path.join(HERE, "sim", "work_limits.hpp"), "w") as f:
        f.write("// Written by calibrate.py from %d measured operations: kind, operation, shape, steps per search, steps per segment.\n"
                "namespace sim { struct Limit { const char* kind; const char* op; int shape; double per_search, per_segment; };\nextern const Limit work_limits[];\nconst Limit work_limits[] = {\n" % n)
        f.write("\n".join(out) + "\n{0, 0, 0, 0, 0}}; }\n")


main()
