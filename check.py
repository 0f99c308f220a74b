#!/usr/bin/env python3-vt
"""check.py PROP [--tier quick|thorough]

Decides one property: discharges every obligation of the contracts the
property rests on, generated from /repo's current source; then runs the
concrete oracle on the real code (cross-check, bounded stand-in, replay)."""
import sys
import os
import json
import time
import argparse
import subprocess
import shutil
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
os.environ.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
                  MPLCONFIGDIR=os.environ.get("MPLCONFIGDIR", "/opt/venv/mplconfig"))
SRC = os.environ.get("QSRC", "/repo/src/qutip_qtrl")
ROOT = os.path.dirname(SRC)
PY = "/opt/venv/bin/python"


def work(job):
    """verify one contract (own process): a plain dict"""
    name, bound, limit, sabotage = job
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from contracts import registry
    from pyvc.vc import verify
    from pyvc import second, lib
    reg = registry()
    c = [x for x in reg if x.name == name][0]
    second.STATS.update(cvc5_queries=0, cvc5_unsat=0)
    out = {"name": name, "qual": c.qual, "bound": bound, "sabotage": sabotage}
    t0 = time.time()
    try:
        r = verify(c, reg, SRC, deadline=time.time() + limit, bound=bound, sabotage=sabotage)
    except MemoryError:
        out.update(status="unknown", obls={}, undecided=["out of memory"], secs=time.time() - t0, mode="-", counts=[0, 0],
                   solver=0, queries=0, paths=0, lines=None, inlined=[], used=[], notes=[], assumed=[], models=[], cvc5={})
        return out
    except Exception as e:
        import traceback
        out.update(status="unknown", obls={}, undecided=["engine error: %r %s" % (e, traceback.format_exc()[-400:])], secs=time.time() - t0, mode="-",
                   counts=[0, 0], solver=0, queries=0, paths=0, lines=None, inlined=[], used=[], notes=[], assumed=[], models=[], cvc5={})
        return out
    out.update(status=r.status(), obls={n: (o.status, o.detail[:3000]) for n, o in r.by_name().items()},
               counts=[len(r.obls), sum(o.status == "proved" for o in r.obls)],
               undecided=sorted(set(r.undecided))[:20], secs=r.secs, solver=r.solver, queries=r.queries, paths=r.paths, lines=r.lines,
               inlined=sorted(r.inlined), used=sorted(r.used), notes=sorted(r.notes), assumed=sorted(r.assumed), mode=r.mode,
               models=sorted(lib.MODEL_USED), cvc5=dict(second.STATS))
    return out


def oracle(prop, seed, budget, shards):
    d = "/tmp/qtrl-oracle-%s-%d" % (prop, os.getpid())
    os.makedirs(d, exist_ok=True)
    ps = []
    env = dict(os.environ, QSRC_ROOT=ROOT, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    for i in range(shards):
        f = os.path.join(d, "o%d.json" % i)
        ps.append((f, subprocess.Popen([PY, "oracles/run.py", prop, "--seed", str(seed), "--budget", str(budget),
                                        "--shard", "%d/%d" % (i, shards), "--out", f, "--max", "4000" if budget <= 60 else "40000"],
                                       stdout=subprocess.DEVNULL, stderr=open(f + ".err", "w"), env=env)))
    return d, ps


def collect(d, ps, limit):
    tot = {"runs": 0, "ok": 0, "skipped": 0, "distinct": 0, "fails": [], "samples": [], "harness": [], "nharness": 0, "secs": 0.0,
           "rule": "", "broken": []}
    end = time.time() + limit
    for f, p in ps:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            tot["broken"].append("time limit")
        try:
            r = json.load(open(f))
        except (OSError, ValueError):
            tot["broken"].append(open(f + ".err").read()[-600:])
            continue
        for k in ("runs", "ok", "skipped", "distinct", "nharness"):
            tot[k] += r[k]
        tot["secs"] = max(tot["secs"], r["secs"])
        tot["fails"] += r["fails"]
        tot["harness"] += r["harness"]
        tot["samples"] = (tot["samples"] + r["samples"])[:3]
        tot["rule"] = r["rule"]
    shutil.rmtree(d, ignore_errors=True)
    return tot


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-oracle", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = a.tier == "thorough"
    t0 = time.time()
    from contracts import registry
    reg = registry()
    mine = [c for c in reg if prop in c.props]
    have_oracle = os.path.exists("oracles/o_%s.py" % prop.lower()) and not a.no_oracle
    known = [k for k in json.load(open("known_findings.json"))["findings"] if k["property"] == prop]

    limit = 500 if thorough else 180
    ph = None
    if have_oracle:
        ph = oracle(prop, seed, 240 if thorough else 40, 4)
    jobs = [(c.name, c.bounded, limit, None) for c in mine]
    # self-test: with its body removed the contract must not be provable
    sab = [c for c in mine if c.sabotage]
    if not thorough and len(sab) > 6:
        sab = [sab[(seed + i * 7) % len(sab)] for i in range(6)]
    jobs += [(c.name, c.bounded if c.bounded else None, 60, c.qual) for c in dict((c.name, c) for c in sab).values()]
    jobs.sort(key=lambda j: -next(c.weight for c in mine if c.name == j[0]))
    ctx = mp.get_context("fork")
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        res = pool.map(work, jobs, chunksize=1)
        main_ = [r for r in res if not r["sabotage"]]
        sabr = [r for r in res if r["sabotage"]]
        # undecided: a bounded refutation attempt (concrete sizes)
        # (only for contracts whose bounded run is known to hold on the original tree)
        cal = set(json.load(open("contracts/bounded_ok.json"))) if os.path.exists("contracts/bounded_ok.json") else set()
        again = [(r["name"], 2, 120, None) for r in main_ if r["status"] == "unknown" and r["bound"] is None and r["name"] in cal]
        rer = {r["name"]: r for r in pool.map(work, again, chunksize=1)} if again else {}
    orc = collect(*ph, 330 if thorough else 240) if ph else None

    viol, known_hit = [], []
    rdir = os.path.join(HERE, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))

    def is_known(key):
        for k in known:
            if k["key"] == key:
                return k
        return None

    nrep = [0]

    def replay(doc):
        nrep[0] += 1
        p = os.path.join(rdir, "%s-%d.json" % (prop, nrep[0]))
        json.dump(doc, open(p, "w"), indent=1, default=str)
        return p
    confirmed = []
    if orc:
        seenk = set()
        for f in orc["fails"]:
            k = is_known(f["key"])
            if k:
                if f["key"] not in seenk:
                    known_hit.append((k["key"], k["what"]))
                seenk.add(f["key"])
                continue
            if f["key"] in seenk:
                continue
            seenk.add(f["key"])
            confirmed.append(f)
    refuted = []
    undec = []
    bounded_ok = []
    for r in main_:
        rr = rer.get(r["name"])
        for src in (r, rr):
            if not src:
                continue
            for n, (st, det) in src["obls"].items():
                if st == "refuted":
                    key = "%s :: %s" % (r["name"], n)
                    k = is_known(key)
                    if k:
                        known_hit.append((k["key"], k["what"]))
                    else:
                        refuted.append((src, n, det))
        if r["status"] == "unknown":
            if rr and rr["status"] == "proved":
                bounded_ok.append(r["name"])
            undec.append((r["name"], r["undecided"] + ["%s: %s" % (n, d[:200]) for n, (s, d) in r["obls"].items() if s == "unknown"]))
    names = sorted({"%s :: %s" % (s["name"], n) for s, n, d in refuted})
    for f in confirmed:
        p = replay({"property": prop, "kind": "failing input on the real code", "key": f["key"], "failure": f["msg"], "case": f["case"],
                    "failed_obligations": names, "run": "%s oracles/run.py %s --replay <this file>" % (PY, prop)})
        viol.append("VIOLATION property=%s replay=%s" % (prop, p))
        print("  failing input [%s]: %s" % (f["key"], f["msg"].splitlines()[0][:300]))
    if refuted:
        for s, n, d in refuted:
            print("  refuted obligation (%s) %s :: %s | %s" % (s["mode"], s["name"], n, d[:300].replace("\n", " ")))
        if not confirmed:
            p = replay({"property": prop, "kind": "failed obligation", "obligations": [
                {"contract": s["name"], "function": s["qual"], "source": s["lines"], "mode": s["mode"], "obligation": n, "verifier_output": d}
                for s, n, d in refuted]})
            viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
    for k, w in dict(known_hit).items():
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for n, u in undec:
        print("  undecided: %s: %s%s" % (n, "; ".join(u)[:300], " (bounded run holds)" if n in bounded_ok else ""))
    badsab = [r["name"] for r in sabr if r["status"] == "proved"]
    if badsab:
        print("  self-test: contracts provable without the body: %s" % badsab)
    full = [r for r in main_ if r["bound"] is None]
    nob = sum(r["counts"][0] for r in full)
    ndis = sum(r["counts"][1] for r in full)
    vacuous = bool(mine) and nob == 0 and not orc
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "proof" if mine else "exploration",
        "coverage": {
            "obligations": nob, "discharged": ndis,
            "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (prop, a.tier),
            "functions_under_contract": [
                {"contract": r["name"], "function": r["qual"], "source": r["lines"], "status": r["status"], "mode": r["mode"],
                 "paths": r["paths"], "obligations": r["counts"][0], "discharged": r["counts"][1], "named_obligations": sorted(r["obls"]),
                 "secs": round(r["secs"], 2), "calls_by_contract": r["used"],
                 "inlined": [q for q in r["inlined"] if q != r["qual"]], "undecided": r["undecided"]} for r in main_],
            "fully_proved": [r["name"] for r in main_ if r["status"] == "proved" and r["bound"] is None],
            "bounded_stand_ins": [{"contract": r["name"], "mode": r["mode"], "status": r["status"]} for r in main_ if r["bound"] is not None]
            + [{"contract": n, "mode": rer[n]["mode"], "status": rer[n]["status"]} for n in rer],
            "undecided": [{"contract": n, "why": u[:5]} for n, u in undec],
            "backends": {"z3": {"queries": sum(r["queries"] for r in main_), "seconds": round(sum(r["solver"] for r in main_), 2)},
                         "cvc5": {"queries": sum(r["cvc5"].get("cvc5_queries", 0) for r in main_), "unsat": sum(r["cvc5"].get("cvc5_unsat", 0) for r in main_)},
                         "matrix normal form": "equalities of matrix expressions are decided by rewriting in the *-algebra of operators (pyvc/mat.py), not by SMT"},
            "trusted_base": ["pyvc translation of the Python subset (cross-checked by the oracle below)", "z3 4.x / cvc5 1.1.2",
                             "library models: " + ", ".join(sorted({m for r in main_ for m in r["models"]}))],
            "self_test": {"bodies_removed": [r["name"] for r in sabr], "wrongly_proved": badsab},
            "extraction_drops": "logger calls, warnings, docstrings, plotting; nothing else of the function bodies under contract",
        },
        "assumptions": sorted({x for r in main_ for x in r["assumed"] + r["notes"]}) + [
            "floating point is treated as real arithmetic", "arrays passed by callers have the documented element types"],
        "wall_s": round(time.time() - t0, 2),
        "violations": [v for v in viol],
    }
    if orc:
        ev["coverage"].update({
            "evaluations": orc["runs"], "distinct_nontrivial": orc["ok"] + len(orc["fails"]) if orc["distinct"] >= orc["ok"] else orc["distinct"],
            "rule": "bounded cross-check on the real code, never counted as proved: " + orc["rule"],
            "samples": orc["samples"] or ["none"],
            "oracle": {"runs": orc["runs"], "held": orc["ok"], "skipped": orc["skipped"], "no_verdict": orc["nharness"],
                       "no_verdict_examples": orc["harness"][:2], "secs": round(orc["secs"], 1), "broken": orc["broken"]}})
    os.makedirs("evidence", exist_ok=True)
    json.dump(ev, open("evidence/%s.json" % prop, "w"), indent=1, default=str)
    print("%s: %d contracts, %d/%d obligations discharged, oracle %s, %.1fs" % (
        prop, len(mine), ndis, nob, "%d runs %d held %d no-verdict" % (orc["runs"], orc["ok"], orc["nharness"]) if orc else "-", time.time() - t0))
    if a.v:
        for r in main_:
            print("   %-60s %s paths=%d obl=%d %.1fs" % (r["name"], r["status"], r["paths"], r["counts"][0], r["secs"]))
        if orc:
            print("   harness:", orc["harness"][:3], orc["broken"][:2])
    for v in viol:
        print(v)
    if badsab or vacuous:
        print("  machinery self-test failed (see evidence)")
    sys.exit(1 if viol else 0)


if __name__ == "__main__":
    main()
