"""Create and validate planted bugs.  usage: mkseed.py SPEC.py [ids…]
SPEC defines SEEDS = [dict(id, property, file, edits=[(old, new)…], needs, breaks, demo)]"""
import sys, os, json, subprocess, shutil, re
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
W = "/tmp/w/seed/c"
ROOT = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.strip()
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if 0 else None


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


for s in spec["SEEDS"]:
    if only and s["id"] not in only:
        continue
    sh("rm -rf %s; cp -a /repo %s; git -C %s checkout -q -- ." % (W, W, W))
    bad = []
    for f, old, new in s["edits"]:
        p = W + "/src/qutip_qtrl/" + f
        t = open(p).read()
        if t.count(old) != 1:
            bad.append("pattern count %d in %s: %r" % (t.count(old), f, old[:60]))
        open(p, "w").write(t.replace(old, new, 1))
    diff = sh("git -C %s diff" % W).stdout
    # removed lines must be original
    for f in {e[0] for e in s["edits"]}:
        bl = sh("git -C /repo blame -s --root -l src/qutip_qtrl/%s" % f).stdout.splitlines()
        for m in re.finditer(r"^@@ -(\d+),?(\d*) ", sh("git -C %s diff -U0 -- src/qutip_qtrl/%s" % (W, f)).stdout, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            for l in bl[a - 1:a - 1 + n]:
                if not l.startswith(ROOT[:39]) and not l.startswith("^" + ROOT[:39]):
                    bad.append("not original: " + l[:110])
    d = os.environ.get("SEED_OUT", "/verif/seeded") + "/" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    e0 = dict(os.environ, PYTHONPATH="/repo/src")
    e1 = dict(os.environ, PYTHONPATH=W + "/src")
    r0 = sh("bash %s/demo.sh" % d, env=e0, cwd="/repo")
    r1 = sh("bash %s/demo.sh" % d, env=e1, cwd=W)
    if r0.returncode:
        bad.append("demo fails on clean: " + r0.stderr[-600:])
    if not r1.returncode:
        bad.append("demo passes with patch")
    t = sh("%s -m pytest -q -x -p no:cacheprovider --timeout=300 -n 8 tests" % "/opt/venv/bin/python", env=dict(e1, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1"), cwd=W)
    tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
    if "failed" in tail or "error" in tail:
        bad.append("tests: " + tail + " " + " ".join(re.findall(r"FAILED \S+", t.stdout)))
    print(s["id"], "OK" if not bad else "BAD", tail, "| demo:", (r1.stderr.strip().splitlines() or ["?"])[-1][:120])
    for b in bad:
        print("   ", b)
