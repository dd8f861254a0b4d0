#!/usr/bin/env python3-vt
"""usage: check.py C01 [--tier quick|thorough] [--rebaseline]

Decides one property: every contract unit of the property is re-generated from /repo's current source and its
obligations are discharged; the bounded companion (concrete/) searches failing inputs on the real code and stands in
for functions that left the verifier's reach."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")

MECH = [
    "z3 4.x and cvc5 answer 'unsat' only for unsatisfiable formulas; the VC generator /verif/pyver translates the Python subset faithfully (cross-checked by the concrete suites and by mutation)",
    "CPython semantics of builtins (list, dict, set, str, bytes, slice, sorted, filter, map, zip, range, min, max, sum) as axiomatised in pyver/builtin_fns.py",
    "integers are mathematical (exact: Python ints are unbounded); int*float and float comparison is treated as exact real arithmetic",
    "attribute types declared in contracts/common.py hold for the objects callers pass in; no subclasses outside docria; private containers (_nodes, fields) are not aliased by caller arguments",
    "message expressions of raise/assert are not evaluated; generator bodies run without interleaved mutation by the consumer",
]


def load_json(p, default):
    try:
        with open(p) as f:
            return json.load(f)
    except (OSError, ValueError):
        return default


def run_concrete(prop, tier, seed, budget, out, extra=()):
    env = dict(os.environ, PYTHONPATH=os.path.join(REPO, "py") + ":" + HERE, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    cmd = [PY, "-W", "ignore", "-m", "concrete.run", prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--out", out] + list(extra)
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env, capture_output=True, text=True, timeout=budget + 120)
    except subprocess.TimeoutExpired:
        return {"error": "timeout", "failures": []}
    d = load_json(out, None)
    if d is None:
        return {"error": (p.stdout[-500:] + p.stderr[-2500:]), "failures": []}
    return d


def proof_phase(prop, prog, tier, base, sem_n=8, limit=500, only=None):
    from pyver import unit as U
    from pyver import prove
    try:
        U.load(prop)
    except ModuleNotFoundError as e:
        if "contracts." not in str(e):
            raise
        return []
    units = U.UNITS.get(prop, [])
    if only:
        units = [u for u in units if only in u.name]
    prove.SEM = mp.get_context("fork").Semaphore(sem_n)
    maps = rename_maps(prog, base.get("locals", {}))

    def job(u):
        if tier == "thorough":
            u.budget = u.budget * 3
        prove.SEM.acquire()
        prove.HELD = True
        r = U.run_unit(u, prog, maps, nproc=8, timeout=limit, sem=prove.SEM)
        return r
    res = U.fork_map(units, job, 16, limit + 60)
    out = []
    for u, r in zip(units, res):
        if r is None:
            r = {"unit": u.name, "prop": prop, "targets": u.targets, "status": "error", "detail": "no answer", "obligations": []}
        out.append(r)
    return out


def local_names(func):
    """parameters and assigned names of a function in order of first occurrence"""
    import ast
    out = []

    def add(n):
        if n not in out:
            out.append(n)
    a = func.node.args
    for x in a.posonlyargs + a.args + ([a.vararg] if a.vararg else []) + a.kwonlyargs + ([a.kwarg] if a.kwarg else []):
        add(x.arg)

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                add(n.id)

        def visit_FunctionDef(self, n):
            add(n.name)
            self.generic_visit(n)
    for st in func.node.body:
        V().visit(st)
    return out


def rename_maps(prog, base):
    maps = {}
    for q, names in base.items():
        f = prog.funcs.get(q)
        if f is None:
            continue
        cur = local_names(f)
        if cur != names and len(cur) == len(names):
            maps[q] = {a: b for a, b in zip(names, cur) if a != b}
    return maps


def fingerprint(prog, quals):
    import ast
    from pyver.prog import norm_dump
    h = hashlib.sha256(prog.fingerprint(quals).encode())
    for m in sorted(prog.names):
        for n in sorted(prog.names[m]):
            k, p = prog.names[m][n]
            if k == "const":
                h.update(("%s.%s=%s" % (m, n, ast.dump(p))).encode())
    for c in sorted(prog.classes):
        k = prog.classes[c]
        h.update(("%s(%s)" % (c, ",".join(k.bases))).encode())
        for a in sorted(k.attrs):
            h.update(("%s.%s=%s" % (c, a, ast.dump(k.attrs[a]))).encode())
    return h.hexdigest()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--rebaseline", action="store_true")
    ap.add_argument("--no-concrete", action="store_true")
    args = ap.parse_args()
    prop, tier = args.prop, args.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    evid = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evid, "replays"), exist_ok=True)
    basefile = os.path.join(HERE, "baseline", prop + ".json")
    base = load_json(basefile, {})
    manifest = load_json(os.path.join(HERE, "MANIFEST.json"), {})
    level = next((c["level"] for c in manifest.get("checks", []) if c["property"] == prop), "proof")
    known = [k for k in load_json(os.path.join(HERE, "known_findings.json"), {"findings": []})["findings"] if k["property"] == prop]

    # bounded companion in the background
    conc = {}
    budget = 20 if tier == "quick" else 400
    cout = os.path.join(evid, "concrete-%s.json" % prop)
    try:
        os.unlink(cout)
    except OSError:
        pass

    def bg():
        conc.update(run_concrete(prop, tier, seed, budget, cout))
    th = threading.Thread(target=bg)
    load_error = None
    from pyver.prog import Program
    try:
        prog = Program(REPO)
    except (SyntaxError, OSError, ValueError) as e:
        prog, load_error = None, repr(e)
    units = []
    if prog is not None:
        if args.no_concrete:
            units = proof_phase(prop, prog, tier, base)
        else:
            env = dict(os.environ)
            # the companion runs as a child process; start it before forking the provers
            import subprocess as sp
            envc = dict(os.environ, PYTHONPATH=os.path.join(REPO, "py") + ":" + HERE, PYTHONHASHSEED="0")
            p = sp.Popen([PY, "-W", "ignore", "-m", "concrete.run", prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget),
                          "--out", cout], cwd=HERE, env=envc, stdout=sp.DEVNULL, stderr=sp.PIPE, text=True)
            units = proof_phase(prop, prog, tier, base, sem_n=7)
            try:
                _, err = p.communicate(timeout=budget + 120)
            except sp.TimeoutExpired:
                p.kill()
                err = "timeout"
            d = load_json(cout, None)
            conc.update(d if d is not None else {"error": err[-2500:], "failures": []})
    else:
        conc.update(run_concrete(prop, tier, seed, budget, cout))

    # ------------------------------------------------------------------ baseline
    if args.rebaseline:
        nb = {"units": {}, "locals": {}}
        for u in units:
            quals = sorted(set(u["targets"]) | set(u.get("inlined", [])))
            nb["units"][u["unit"]] = {"fp": fingerprint(prog, quals), "quals": quals, "n": len(u["obligations"]),
                                      "covers": sorted(u.get("covers", {}))}
            for q in quals:
                if q in prog.funcs:
                    nb["locals"][q] = local_names(prog.funcs[q])
        os.makedirs(os.path.dirname(basefile), exist_ok=True)
        with open(basefile, "w") as f:
            json.dump(nb, f, indent=1, sort_keys=True)
        base = nb

    # ------------------------------------------------------------------ evaluate
    total = discharged = 0
    failing, undecided, standin = [], [], []
    solver_s = 0.0
    backends = {}
    for u in units:
        b = base.get("units", {}).get(u["unit"])
        same = b is not None and prog is not None and fingerprint(prog, b["quals"]) == b["fp"]
        if u["status"] in ("unsupported", "error"):
            standin.append({"unit": u["unit"], "reason": u.get("detail", "")[:400], "code_changed": not same})
            if b:
                total += 0
            continue
        if u["status"] == "vacuous":
            undecided.append({"unit": u["unit"], "reason": "vacuous: " + u.get("detail", ""), "code_changed": not same})
        if b is not None:
            miss = [c for c in b.get("covers", []) if c not in u.get("covers", {})]
            if miss and same:
                undecided.append({"unit": u["unit"], "reason": "unreached: %s" % miss, "code_changed": False})
        for o in u["obligations"]:
            total += 1
            solver_s += o["s"]
            if o["status"] == "proved":
                discharged += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            else:
                rec = {"unit": u["unit"], "obligation": o["name"], "loc": o["loc"], "status": o["status"], "detail": o["detail"]}
                (undecided if same else failing).append(rec)

    violations = []
    fresh = [f for f in conc.get("failures", []) if not is_known(f, known)]
    if failing and not fresh and not args.no_concrete:
        # the verifier lost an obligation on changed code: search harder for a failing input
        for k in range(1, 4):
            d = run_concrete(prop, "thorough", seed + 1000 * k, 30, cout + ".x")
            conc["evaluations"] = conc.get("evaluations", 0) + d.get("evaluations", 0)
            fresh = [f for f in d.get("failures", []) if not is_known(f, known)]
            if fresh:
                break
    for f in fresh[:5]:
        path = os.path.join(evid, "replays", "%s-%s.json" % (prop, hashlib.sha1(json.dumps(f, sort_keys=True, default=str).encode()).hexdigest()[:10]))
        with open(path, "w") as fh:
            json.dump({"property": prop, "family": f["family"], "params": f["params"], "message": f["message"],
                       "replay_cmd": "cd %s && PYTHONPATH=%s/py:%s %s -m concrete.run %s --replay %s" % (HERE, REPO, HERE, PY, prop, path),
                       "failed_obligations": failing[:20]}, fh, indent=1, default=str)
        violations.append("VIOLATION property=%s replay=%s" % (prop, path))
    if failing and not fresh:
        path = os.path.join(evid, "replays", "%s-obligation.json" % prop)
        with open(path, "w") as fh:
            json.dump({"property": prop, "failed_obligations": failing}, fh, indent=1)
        violations.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))

    for k in known:
        if k.get("status") == "open" and any(is_known(f, [k]) for f in conc.get("failures", [])):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    funcs = sorted({q for u in units for q in u["targets"] if u["status"] == "ok"})
    inl = sorted({q for u in units for q in u.get("inlined", [])} - set(funcs))
    cov = {
        "obligations": total, "discharged": discharged,
        "checker_cmd": "cd /verif && python3-vt check.py %s --tier %s" % (prop, tier),
        "trusted_base": MECH + conc.get("trusted", []),
        "functions_under_contract": funcs, "functions_verified_inline": inl,
        "backends": backends, "solver_s": round(solver_s, 1),
        "units": [{"unit": u["unit"], "status": u["status"], "obligations": len(u["obligations"]),
                   "discharged": sum(o["status"] == "proved" for o in u["obligations"]), "paths": u.get("paths"), "covers": u.get("covers"),
                   "note": u.get("note", "")} for u in units],
        "not_discharged": failing[:30] + undecided[:30],
        "bounded_stand_in": standin,
        "evaluations": conc.get("evaluations", 0), "distinct_nontrivial": conc.get("distinct", 0),
        "rule": "bounded companion (never counted as proved): " + conc.get("rule", ""),
        "samples": conc.get("samples", [])[:6], "families": conc.get("families", {}),
    }
    if conc.get("error"):
        cov["companion_error"] = conc["error"]
    if load_error:
        cov["load_error"] = load_error
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": MECH + conc.get("trusted", []) + ["unit %s: %s" % (u["unit"], u["note"]) for u in units if u.get("note")],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(evid, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d/%d obligations discharged (%s), %d functions under contract, %d companion cases, %.1f s" % (
        prop, discharged, total, ", ".join("%s %d" % kv for kv in sorted(backends.items())), len(funcs), conc.get("evaluations", 0), time.time() - t0))
    for s in standin:
        print("bounded stand-in for %s: %s" % (s["unit"], s["reason"][-300:]))
    for s in undecided:
        print("undecided (code unchanged): %s" % json.dumps(s)[:300])
    for s in failing[:10]:
        print("failed obligation: %s / %s (%s, %s)" % (s["unit"], s["obligation"], s["loc"], s["status"]))
    if conc.get("error"):
        print("companion error: %s" % conc["error"][-1500:])
    for v in violations:
        print(v)
    sys.stdout.flush()
    os._exit(1 if violations else 0)


def is_known(f, known):
    return any(k.get("status") == "open" and k.get("family") == f["family"] and (k.get("params") in (None, f["params"])) and
               (not k.get("message_contains") or k["message_contains"] in f["message"]) for k in known)


if __name__ == "__main__":
    main()
