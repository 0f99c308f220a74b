"""Calibration: which contracts' bounded runs hold on the current tree (only those are used as bounded refutation attempts)."""
import sys, json, os
sys.path.insert(0, "/verif")
sys.argv = ["x"]
import check
import multiprocessing as mp
from contracts import registry
P = "/verif/contracts/bounded_ok.json"
if __name__ == "__main__":
    jobs = [(c.name, 2, 120, None) for c in registry() if c.bounded is None]
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        res = pool.map(check.work, jobs, chunksize=1)
    ok = sorted(r["name"] for r in res if r["status"] == "proved")
    json.dump(ok, open(P, "w"), indent=0)
    for r in res:
        if r["status"] != "proved":
            print(r["name"], r["status"], r["undecided"][:1], [(n, o[1][:100]) for n, o in r["obls"].items() if o[0] == "refuted"][:2])
    print(len(ok), "of", len(jobs))
