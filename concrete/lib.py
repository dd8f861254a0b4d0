"""Bounded companion: exhaustive small scopes plus seeded random cases against independent oracles, on the real code."""
import itertools
import json
import random
import signal
import time
import traceback


class Violation(Exception):
    pass


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def expect_eq(a, b, msg):
    if a != b or type(a) is bool and type(b) is not bool:
        raise Violation("%s: got %s expected %s" % (msg, short(a), short(b)))


def short(x, n=300):
    try:
        r = repr(x)
    except Exception as e:
        r = "<unprintable %s>" % type(x).__name__
    return r if len(r) <= n else r[:n] + "..."


def raises(excs, fn, msg):
    try:
        r = fn()
    except excs:
        return
    except Exception as e:
        raise Violation("%s: raised %s instead of %s" % (msg, type(e).__name__, excs))
    raise Violation("%s: was accepted, returned %s" % (msg, short(r)))


class Family:
    """gen(rng, tier) yields JSON parameters; run(params) raises on a violation and returns True when non-trivial"""
    def __init__(self, name, gen, run, weight=1.0, rule="", case_timeout=30):
        self.name, self.gen, self.run, self.weight, self.rule, self.case_timeout = name, gen, run, weight, rule, case_timeout


class TimeoutX(Exception):
    pass


def _alarm(sig, frm):
    raise TimeoutX()


def run_case(fam, params):
    """returns (nontrivial, failure message or None)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(fam.case_timeout)
    try:
        r = fam.run(json.loads(json.dumps(params)))
        return bool(r is None or r), None
    except Violation as e:
        return True, str(e)
    except TimeoutX:
        return True, "does not terminate within %d s" % fam.case_timeout
    except RecursionError:
        return True, "recursion limit exceeded"
    except Exception as e:
        return True, "unexpected %s: %s\n%s" % (type(e).__name__, short(e), traceback.format_exc()[-1200:])
    finally:
        signal.alarm(0)


def run_families(fams, tier, seed, budget, stop_after=3):
    t0 = time.time()
    res = {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "families": {}, "rule": ""}
    tot = sum(f.weight for f in fams) or 1
    left = budget
    for k, fam in enumerate(fams):
        share = max(1.0, (budget - (time.time() - t0)) * fam.weight / max(1e-9, sum(f.weight for f in fams[k:])))
        tf = time.time()
        rng = random.Random("%s/%s" % (seed, fam.name))
        seen = set()
        n = bad = 0
        exhausted = True
        for params in fam.gen(rng, tier):
            if time.time() - tf > share:
                exhausted = False
                break
            n += 1
            nt, msg = run_case(fam, params)
            key = json.dumps(params, sort_keys=True, default=str)
            h = hash(key)
            if nt and h not in seen:
                seen.add(h)
            if len(res["samples"]) < 12 and n in (1, 50):
                res["samples"].append({"family": fam.name, "params": params})
            if msg is not None:
                res["failures"].append({"family": fam.name, "params": params, "message": msg})
                bad += 1
                if bad >= stop_after:
                    break
        res["evaluations"] += n
        res["distinct"] += len(seen)
        res["families"][fam.name] = {"cases": n, "distinct_nontrivial": len(seen), "space_exhausted": exhausted, "s": round(time.time() - tf, 2),
                                     "rule": fam.rule}
    res["rule"] = "seeded generators per family; a case counts when its inputs are distinct and exercise the stated condition"
    res["wall_s"] = round(time.time() - t0, 2)
    return res
