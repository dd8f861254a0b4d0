"""Discharging proof obligations: z3 with patterns only, z3 with model based instantiation, cvc5."""
import os
import subprocess
import tempfile
import time
import z3
from z3 import *
from .sorts import *
from . import builtin_fns as BF


def axioms_for(fs, extra=()):
    ax = []
    if uses(fs, "sq_len", "sq_at", "sq_slice", "sq_cat", "sq_join", "vstr", "vbyt"):
        ax += SEQ_AXIOMS
    if uses(fs, "isspace_s"):
        ax += BF.SPACE_AXIOMS
    return ax


def to_smt2(fs):
    s = Solver()
    for f in fs:
        s.add(f)
    return s.to_smt2()


def run_z3(fs, timeout_ms, mbqi=False, seed=0, arith=None):
    s = Solver()
    s.set("timeout", int(timeout_ms))
    s.set("auto_config", False)
    s.set("smt.mbqi", mbqi)
    s.set("smt.random_seed", seed)
    if not mbqi:
        s.set("smt.qi.eager_threshold", 100.0) if seed == 7 else None
    for f in fs:
        s.add(f)
    t = time.time()
    r = s.check()
    return str(r), time.time() - t, s


def run_cvc5(fs, timeout_s):
    txt = to_smt2(fs)
    txt = "(set-logic ALL)\n" + txt
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        p = f.name
    t = time.time()
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout_s * 1000), p], capture_output=True, text=True, timeout=timeout_s + 5)
        out = r.stdout.strip().split("\n")[0] if r.stdout else "unknown"
    except subprocess.TimeoutExpired:
        out = "unknown"
    finally:
        os.unlink(p)
    return out, time.time() - t


class Result:
    def __init__(self, name, status, backend, secs, detail="", loc=""):
        self.name, self.status, self.backend, self.secs, self.detail, self.loc = name, status, backend, secs, detail, loc


def relevant(hyps, goal, rounds=2):
    return hyps


def ground(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x) or z3.is_quantifier(x):
            return False
        st.extend(x.children())
    return True


def store_indices(hyps, goal):
    """ground indices written in the array terms the goal talks about (through one level of definitions)"""
    defs = {}
    for h in hyps:
        if is_eq(h) and h.arg(0).num_args() == 0 and is_app(h.arg(0)):
            defs.setdefault(h.arg(0).get_id(), h.arg(1))
    out, seen, st, depth = [], set(), [(goal, 0)], 0
    while st:
        e, d = st.pop(0)
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            st.append((e.body(), d))
            continue
        if z3.is_app(e):
            if e.decl().kind() == Z3_OP_STORE and ground(e.arg(1)) and all(not e.arg(1).eq(o) for o in out):
                out.append(e.arg(1))
            if e.num_args() == 0 and e.get_id() in defs and d < 2:
                st.append((defs[e.get_id()], d + 1))
            st.extend((c, d) for c in e.children())
    return out


def split_prove(allhyps, hyps, goal, per=2500, limit=24, wall=25.0):
    """case split of the universally quantified variables of the goal on the indices written"""
    if z3.is_quantifier(goal):
        vs = [z3.FreshConst(goal.var_sort(i), "sk") for i in range(goal.num_vars())]
        g = substitute_vars(goal.body(), *reversed(vs))
    else:
        return False, 0
    idx = store_indices(hyps, goal)
    per_var = []
    for v_ in vs:
        c = [t for t in idx if t.sort() == v_.sort()][:5]
        per_var.append([[v_ == t] + [v_ != o for o in c[:k]] for k, t in enumerate(c)] + [[v_ != t for t in c]])
    n = 1
    for p in per_var:
        n *= len(p)
    if n <= 1 or n > limit:
        return False, 0
    import itertools
    t0 = time.time()
    for combo in itertools.product(*per_var):
        r, _, _ = run_z3(allhyps + [f for c in combo for f in c] + [Not(g)], per)
        if r != "unsat" or time.time() - t0 > wall:
            return False, time.time() - t0
    return True, time.time() - t0


def discharge(ob, extra_axioms, budget=20.0):
    hyps = list(ob.hyps)
    goal = ob.goal
    if is_true(simplify(goal)):
        return Result(ob.name, "proved", "simplify", 0.0, loc=ob.loc)
    fs = hyps + list(ob.hints)
    ax = axioms_for(fs + [goal] + list(extra_axioms))
    allf = ax + list(extra_axioms) + fs + [Not(goal)]
    tot = 0.0
    detail = []
    plan = [("z3", 1000, False, 0), ("cvc5", min(6, budget), None, 0), ("z3", 3000, False, 0), ("z3-mbqi", 3000, True, 0), ("z3", budget * 1000, False, 7),
            ("z3-mbqi", budget * 500, True, 3), ("cvc5", budget * 1.5, None, 0)]
    for be, tmo, mbqi, seed in plan:
        if be == "cvc5":
            r, sec = run_cvc5(allf, tmo)
        else:
            r, sec, s = run_z3(allf, tmo, mbqi, seed)
        tot += sec
        detail.append("%s:%s(%.1fs)" % (be, r, sec))
        if r == "unsat":
            return Result(ob.name, "proved", be, tot, " ".join(detail), ob.loc)
        if be == "z3" and tmo == 3000:
            ok, sec = split_prove(allf[:-1], hyps, goal)
            tot += sec
            if sec:
                detail.append("z3-split:%s(%.1fs)" % (ok, sec))
            if ok:
                return Result(ob.name, "proved", "z3-split", tot, " ".join(detail), ob.loc)
        if r == "sat" and be == "z3-mbqi":
            m = s.model()
            return Result(ob.name, "refuted", be, tot, " ".join(detail) + "\nmodel:\n" + model_text(m), ob.loc)
    return Result(ob.name, "unknown", "-", tot, " ".join(detail), ob.loc)


def model_text(m):
    out = []
    for d in m.decls():
        if d.arity() == 0 and "!" in d.name():
            try:
                out.append("%s = %s" % (d.name(), str(m[d])[:200]))
            except Exception:
                pass
    return "\n".join(out[:80])
