import argparse
import importlib
import json
import sys

from . import lib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=45)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--family")
    a = ap.parse_args()
    sys.setrecursionlimit(3000)
    try:
        mod = importlib.import_module("concrete." + a.prop.lower())
        fams = mod.FAMILIES
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        # the library itself no longer imports or cannot build the fixed inputs
        res = {"evaluations": 1, "distinct": 1, "samples": [], "families": {}, "rule": "import",
               "failures": [{"family": "import", "params": {}, "message": "importing docria failed: %s" % tb[-1500:]}]}
        if a.out:
            json.dump(res, open(a.out, "w"), indent=1)
        print(tb)
        sys.exit(1)
    if a.replay:
        d = json.load(open(a.replay))
        fam = next(f for f in fams if f.name == d["family"])
        nt, msg = lib.run_case(fam, d["params"])
        print("FAILS: %s" % msg if msg else "holds")
        sys.exit(1 if msg else 0)
    if a.family:
        fams = [f for f in fams if a.family in f.name]
    res = lib.run_families(fams, a.tier, a.seed, a.budget)
    if a.out:
        json.dump(res, open(a.out, "w"), indent=1, default=str)
    else:
        print(json.dumps({k: res[k] for k in ("evaluations", "distinct", "families", "wall_s")}, indent=1))
        for f in res["failures"][:10]:
            print("FAIL", f["family"], json.dumps(f["params"])[:400], "::", f["message"][:1500])


main()
