"""developer tool: run proof units.  usage: python3-vt run_unit.py C01 [substring] [obligation substring]"""
import sys, importlib, time
sys.setrecursionlimit(20000)
sys.path.insert(0, "/verif")
from pyver.prog import Program
from pyver import unit as U
prop = sys.argv[1]
sub = sys.argv[2] if len(sys.argv) > 2 else ""
only = sys.argv[3] if len(sys.argv) > 3 else None
U.load(prop)
prog = Program()
for u in U.UNITS[prop]:
    if sub not in u.name:
        continue
    r = U.run_unit(u, prog, {}, only=only)
    ob = r["obligations"]
    print("%-60s %s %d/%d paths=%s wall=%s explore=%s covers=%s %s" % (u.name, r["status"], sum(o["status"] == "proved" for o in ob), len(ob),
          r.get("paths"), r.get("wall"), r.get("explore_s"), r.get("covers"), r.get("detail", "")))
    shown = 0
    for o in ob:
        if o["status"] != "proved" or o["s"] > 5:
            shown += 1
            if shown > 12:
                print("     ...")
                break
            print("    ", o["status"], o["name"], o["loc"], o["backend"], o["s"], o["detail"][:300])
