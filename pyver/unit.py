"""Proof units: one function (or lemma) under contract each, explored and discharged in forked processes."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import z3
from z3 import *
from .sorts import *
from .engine import *
from .interp import Interp, LoopSpec, LoopView
from . import prove
from . import builtin_fns as BF

UNITS = {}          # property -> [Unit]
EXTRA = {"C02": ["compile"], "C06": ["compile06"], "C07": ["compile07"]}          # contracts of functions shared by several properties


def load(prop):
    for m in [prop.lower()] + EXTRA.get(prop, []):
        importlib.import_module("contracts." + m)


class Unit:
    """run(E): builds symbolic inputs satisfying the precondition, executes the real function(s), states obligations."""
    def __init__(self, prop, name, targets, run, setup=None, axioms=None, budget=20.0, note=None, feas_ms=None, loops=None):
        self.prop, self.name, self.targets, self.run, self.setup = prop, name, targets, run, setup
        self.axioms, self.budget, self.note, self.feas_ms, self.loops = axioms, budget, note, feas_ms, loops or {}


def unit(prop, name, targets, **kw):
    def deco(f):
        for p in ([prop] if isinstance(prop, str) else prop):
            UNITS.setdefault(p, []).append(Unit(p, name, [targets] if isinstance(targets, str) else list(targets), f, **kw))
        return f
    return deco


def make_engine(u, prog, locals_map):
    E = Interp(prog)
    if u.feas_ms:
        E.feas_ms = u.feas_ms
    E.locals_map = locals_map
    for q, specs in u.loops.items():
        E.loops[q] = specs
    if u.setup:
        u.setup(E)
    return E


def explore_unit(u, prog, locals_map):
    E = make_engine(u, prog, locals_map)
    E.covers = {}
    obls = E.explore(u.run)
    return E, obls


def _discharge_task(ob, axioms, budget):
    try:
        return prove.discharge(ob, axioms, budget)
    except Exception as e:          # solver crash: undecided
        return prove.Result(ob.name, "unknown", "-", 0.0, "solver error %r" % (e,), ob.loc)


def fork_map(jobs, fn, nproc, timeout):
    """run fn(job) for every job in forked children (at most nproc at once); returns list of results or None"""
    results = [None] * len(jobs)
    running = {}
    nxt = 0
    ctx = mp.get_context("fork")
    t_end = time.time() + timeout
    while nxt < len(jobs) or running:
        while nxt < len(jobs) and len(running) < nproc and time.time() < t_end:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    import pickle
                    out = pickle.dumps(fn(jobs[nxt]))
                    with os.fdopen(w, "wb") as f:
                        f.write(out)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                os._exit(code)
            os.close(w)
            running[r] = (pid, nxt, b"")
            nxt += 1
        if time.time() >= t_end:
            for r, (pid, ix, buf) in running.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
            break
        import select
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for r in rd:
            pid, ix, buf = running[r]
            chunk = os.read(r, 1 << 20)
            if chunk:
                running[r] = (pid, ix, buf + chunk)
            else:
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                if buf:
                    import pickle
                    try:
                        results[ix] = pickle.loads(buf)
                    except Exception:
                        results[ix] = None
    return results


def run_unit(u, prog, locals_map, nproc=8, timeout=600, keep_obls=False, only=None, sem=None):
    """explore and discharge one unit in this process; returns a dict"""
    t0 = time.time()
    held = [sem is not None]

    def drop():
        if held[0]:
            held[0] = False
            sem.release()
    try:
        return run_unit_(u, prog, locals_map, nproc, timeout, keep_obls, only, sem, drop, t0)
    finally:
        drop()


def run_unit_(u, prog, locals_map, nproc, timeout, keep_obls, only, sem, drop, t0):
    rec = {"unit": u.name, "prop": u.prop, "targets": u.targets, "status": "ok", "obligations": [], "note": u.note or ""}
    try:
        E, obls = explore_unit(u, prog, locals_map)
    except Unsupported as e:
        rec.update(status="unsupported", detail=str(e), wall=time.time() - t0)
        return rec
    except RecursionError:
        rec.update(status="unsupported", detail="recursion limit", wall=time.time() - t0)
        return rec
    except Exception as e:
        rec.update(status="error", detail="".join(traceback.format_exc()[-1500:]), wall=time.time() - t0)
        return rec
    rec["paths"] = E.stats["paths"]
    rec["inlined"] = sorted(E.inlined)
    rec["explore_s"] = round(time.time() - t0, 2)
    ax = (u.axioms(E) if u.axioms else []) + E.lit_axioms()
    if only:
        obls = [o for o in obls if only in o.name]
    covers = [Obligation("cover:" + k, pc, BoolVal(False), (), ()) for k, lst in E.covers.items() for pc in lst[:3]]
    jobs = [("o", o) for o in obls] + [("c", c) for c in covers]

    drop()
    failed = mp.Value("i", 0)

    def work(job):
        if sem is None:
            return work1(job)
        sem.acquire()
        try:
            return work1(job)
        finally:
            sem.release()

    def work1(job):
        k, o = job
        if k == "o":
            res = _discharge_task(o, ax, u.budget if failed.value < 16 else min(u.budget, 2.0))     # many failures already: do not spend minutes on each further one
            if res.status != "proved":
                with failed.get_lock():
                    failed.value += 1
            return res
        fs = prove.axioms_for(o.hyps + ax) + ax + o.hyps
        r, sec, _ = prove.run_z3(fs, 1500, False, 0)
        return prove.Result(o.name, "vacuous" if r == "unsat" else "reachable", "z3", sec)
    res = fork_map(jobs, work, nproc, max(60, timeout - (time.time() - t0)))
    cov = {}
    for (k, o), r in zip(jobs, res):
        if k == "c":
            cov.setdefault(o.name, []).append(r.status if r else "unknown")
            continue
        if r is None:
            r = prove.Result(o.name, "unknown", "-", 0.0, "no answer", o.loc)
        rec["obligations"].append({"name": r.name, "status": r.status, "backend": r.backend, "s": round(r.secs, 3),
                                   "loc": o.loc, "detail": r.detail if r.status != "proved" else ""})
    rec["covers"] = {k: ("vacuous" if all(x == "vacuous" for x in v) else "reachable") for k, v in cov.items()}
    if any(v == "vacuous" for v in rec["covers"].values()):
        rec["status"] = "vacuous"
        rec["detail"] = "; ".join(k for k, v in rec["covers"].items() if v == "vacuous")
    if not rec["obligations"]:
        rec["status"] = "vacuous"
        rec["detail"] = "no obligations"
    rec["wall"] = round(time.time() - t0, 2)
    if keep_obls:
        rec["_E"], rec["_obls"] = E, obls
        rec["_ax"] = ax
    return rec
