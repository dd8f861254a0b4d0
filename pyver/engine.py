"""Symbolic execution of the real Python functions, generating proof obligations.

Paths are explored by re-execution: the interpreter below is written in direct style, every branch on a symbolic
condition goes through Engine.choose(), and a path is replayed from its recorded decisions.  Loops are cut at an
invariant supplied by the contract (sidecar), their write sets are inferred from the code.
"""
import ast
import itertools
import z3
from z3 import *
from .sorts import *
from .sorts import FA
from .prog import Program, Func


class Unsupported(Exception):
    """the code left the subset (or the annotations do not fit it): undecided, never a violation"""


class PathEnd(Exception):
    pass


class Infeasible(Exception):
    pass


class Restart(Exception):
    def __init__(self, prefix):
        self.prefix = prefix


class PyExc(Exception):
    """an exception of the program under verification"""
    def __init__(self, kind, value=None, where=""):
        self.kind, self.value, self.where = kind, value, where


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


EXC_PARENTS = {"IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception", "ValueError": "Exception",
               "TypeError": "Exception", "AssertionError": "Exception", "AttributeError": "Exception",
               "StopIteration": "Exception", "NotImplementedError": "RuntimeError", "RuntimeError": "Exception",
               "IOError": "Exception", "OSError": "Exception", "SchemaValidationError": "Exception", "SchemaError": "Exception",
               "DataValidationError": "Exception", "DataError": "Exception", "OverflowError": "Exception",
               "ZeroDivisionError": "Exception", "ModuleNotFoundError": "Exception", "StructError": "Exception",
               "OpaqueError": "Exception", "Exception": "BaseException"}


def exc_is(kind, parent):
    while kind:
        if kind == parent or (kind == "OSError" and parent == "IOError"):
            return True
        kind = EXC_PARENTS.get(kind)
    return False


# ------------------------------------------------------------------ values
class SV:
    pass


class NoneT(SV):
    pass


NONE = NoneT()


class IntV(SV):
    def __init__(self, t):
        self.t = IntVal(t) if isinstance(t, int) else t


class BoolV(SV):
    def __init__(self, t):
        self.t = BoolVal(t) if isinstance(t, bool) else t


class RealV(SV):
    def __init__(self, t):
        self.t = t


class FltV(SV):
    def __init__(self, t):
        self.t = t


class StrV(SV):
    def __init__(self, s, lit=None):
        self.t, self.lit = s, lit


class BytV(SV):
    def __init__(self, s, lit=None):
        self.t, self.lit = s, lit


class RefV(SV):
    def __init__(self, t, kind):
        self.t, self.kind = t, kind


class AnyV(SV):
    def __init__(self, t, info=None):
        self.t, self.info = t, info


class AtomV(SV):
    def __init__(self, cls, name, ident):
        self.cls, self.name, self.ident = cls, name, ident
        self.t = IntVal(ident)


class TupV(SV):
    def __init__(self, items, src=None):
        self.items = list(items)
        self.src = src          # the Val term this tuple was read from (when known to have this shape)


class SliceV(SV):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class FnV(SV):
    def __init__(self, func, frame=None, self_=None, cls=None):
        self.func, self.frame, self.self_, self.cls = func, frame, self_, cls


class ClsV(SV):
    def __init__(self, name):
        self.name = name


class BuiltinV(SV):
    def __init__(self, name, self_=None):
        self.name, self.self_ = name, self_


class OpaqueFn(SV):
    """python level callable given by a contract: fn(E, args, kwargs) -> value"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class ModV(SV):
    def __init__(self, name):
        self.name = name


class SuperV(SV):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class ExcV(SV):
    def __init__(self, kind):
        self.kind = kind


class StaticDict(SV):
    def __init__(self, items):
        self.items = items


class StaticSet(SV):
    def __init__(self, items):
        self.items = items


class View(SV):
    """a sequence: n() and at(i); live views read the current heap"""
    def __init__(self, n, at, live=False, oneshot=False, tag=None):
        self._n, self._at, self.live, self.oneshot, self.tag = n, at, live, oneshot, tag
        self.used = False

    def n(self):
        return self._n() if callable(self._n) else (IntVal(self._n) if isinstance(self._n, int) else self._n)

    def at(self, i):
        return self._at(i)


class IterV(SV):
    def __init__(self, view, pos=None, serial=0):
        self.view, self.pos, self.serial = view, IntVal(0) if pos is None else pos, serial


class GenV(SV):
    def __init__(self, func, frame, owner):
        self.func, self.frame, self.owner = func, frame, owner


class Undef(SV):
    pass


class Frame:
    def __init__(self, func, module, parent=None, owner=None):
        self.vars, self.func, self.module, self.parent, self.owner = {}, func, module, parent, owner
        self.serial = 0
        self.nonlocals = set()
        self.selfcls = func.cls if func is not None else None


# ------------------------------------------------------------------ heap
SORTS = {"int": I, "bool": B, "str": Sq, "byt": Sq, "any": Val, "ref": I}

COMP_SORT = {
    "L.len": I, "L.el": IV, "L.lo": I, "D.dom": VB, "D.map": VV, "D.n": I, "D.key": IV, "S.mem": VB, "S.n": I,
}


class ATTRS:
    """declared types of docria's attributes (an assumption on caller supplied objects)"""
    table = {}

    @classmethod
    def key(cls, prog, kind, a):
        """component name: attributes declared for one class only are kept apart"""
        for c in prog.mro(kind):
            k = c + "." + a
            if k in cls.table:
                return k
        return a

    @classmethod
    def sort(cls, a):
        ty = cls.table.get(a, "any")
        if ty in ("int", "bool", "str", "byt"):
            return SORTS[ty]
        if ty in ("any", "float", "atom") or ty.startswith("?"):
            return Val
        return I


class Heap:
    def __init__(self, comps=None, ver=None, alloc=None):
        self.c = comps if comps is not None else {}
        self.ver = ver if ver is not None else {}
        self.alloc = alloc

    def copy(self):
        return Heap(dict(self.c), dict(self.ver), self.alloc)

    def __getitem__(self, name):
        return self.term(name)

    def term(self, name):
        if name not in self.c:
            self.c[name] = Const("H0." + name, ArraySort(I, comp_sort(name)))
        return self.c[name]

    def sel(self, name, ref):
        return Select(self.term(name), ref)


def comp_sort(name):
    if name in COMP_SORT:
        return COMP_SORT[name]
    if name.startswith("F."):
        return ATTRS.sort(name[2:])
    raise KeyError(name)


class Obligation:
    __slots__ = ("name", "hyps", "goal", "prefix", "hints", "loc", "extra")

    def __init__(self, name, hyps, goal, prefix, hints=(), loc="", extra=None):
        self.name, self.hyps, self.goal, self.prefix, self.hints, self.loc = name, hyps, goal, prefix, hints, loc
        self.extra = extra


def is_chaos(v):
    return isinstance(v, AnyV) and v.info == "chaos"


def conc(t):
    """python int of a literal term or None"""
    t = simplify(t)
    return t.as_long() if is_int_value(t) else None


def simp_is(t, val):
    s = simplify(t)
    return is_true(s) if val else is_false(s)


def qfree(f):
    st = [f]
    seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if is_quantifier(e):
            return False
        st.extend(e.children())
    return True


_QF = {}


def qfree_cached(f):
    k = f.get_id()
    r = _QF.get(k)
    if r is None or not r[0].eq(f):
        r = (f, qfree(f))
        _QF[k] = r
    return r[1]


class LoopCtx:
    def __init__(self, key, head_serial, mods, spec):
        self.key, self.head_serial, self.mods, self.spec = key, head_serial, mods, spec
        self.allocs = set()


class Engine:
    def __init__(self, prog=None, feas_ms=150):
        self.prog = prog or Program()
        self.summaries = {}          # qual -> fn(E, args, kwargs) -> value
        self.loops = {}              # qual -> {ordinal: LoopSpec}
        self.attr_hooks = {}         # (class, attr) -> fn(E, ref)
        self.builtin_hooks = {}
        self.feas_ms = feas_ms
        self.feas_cache = {}
        self.lits = {}
        self.inlined = set()
        self.stats = {"paths": 0, "feas": 0}
        self.max_paths = 4000
        self.prefer_quantified_feas = True

    # ---------------------------------------------------------- exploration
    def explore(self, run):
        """run(E) is executed once per path; returns the obligations"""
        self.work = [()]
        self.obls = []
        self.modsets = {}
        self.loopids = {}
        guard = 0
        while self.work:
            prefix = self.work.pop()
            guard += 1
            if guard > self.max_paths:
                raise Unsupported("too many paths")
            self._reset(prefix)
            try:
                run(self)
                self.stats["paths"] += 1
            except PathEnd:
                self.stats["paths"] += 1
            except Infeasible:
                pass
            except Restart as r:
                p = r.prefix
                self.work = [w for w in self.work if w[:len(p)] != p]
                self.obls = [o for o in self.obls if o.prefix[:len(p)] != p]
                # write sets of nested loops name constants of the abandoned exploration: discover them again
                for k in [k for k in self.modsets if len(k[1]) > len(p) and k[1][:len(p)] == p]:
                    m = self.modsets.pop(k)
                    if getattr(self, "reuse_mods", False):
                        self.__dict__.setdefault("old_mods", {})[k] = m
                for k in [k for k in self.feas_cache if k[:len(p)] == p and len(k) > len(p)]:
                    del self.feas_cache[k]
                self.work.append(p)
        return self.obls

    def _reset(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.pc = []
        self.serial = 0
        self.heap = Heap({}, {}, Int("alloc0"))
        self.pc.append(self.heap.alloc > 0)
        self.ghost = {}
        self.names_ = {}
        self.loopstack = []
        self.callstack = []
        self.localmode = 0
        self.closures = []
        self.elkind = {}
        self.fresh_refs = {}
        self.gen_out = []
        self.notes = []
        self.cur_line = 0

    def decisions(self):
        return tuple(self.prefix[:self.pos])

    def fresh(self, name, sort):
        self.serial += 1
        return Const("%s!%d" % (name, self.serial), sort)

    def named(self, term, name="nm"):
        """a constant equal to the term (keeps quantifier patterns small)"""
        if term.num_args() == 0:
            return term
        k = term.get_id()
        if k not in self.names_:
            c = self.fresh(name, term.sort())
            self.names_[k] = (c, term)
            self.pc.append(c == term)
        return self.names_[k][0]

    def fresh_fn(self, name, *sorts):
        self.serial += 1
        return Function("%s!%d" % (name, self.serial), *sorts)

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                self.assume(*f)
                continue
            if isinstance(f, bool):
                f = BoolVal(f)
            if is_false(f):
                raise Infeasible()
            if not is_true(f):
                self.pc.append(f)

    def check(self, name, goal, hints=(), extra=None):
        if isinstance(goal, bool):
            goal = BoolVal(goal)
        if self.localmode:
            raise Unsupported("obligation inside a comprehension body")
        self.obls.append(Obligation(name, list(self.pc), goal, tuple(self.prefix[:self.pos]), hints,
                                    "line %d" % self.cur_line, extra))
        # proved facts may be used afterwards
        if not is_true(goal):
            self.pc.append(goal)

    def feasible(self, key, extra):
        if key in self.feas_cache:
            return self.feas_cache[key]
        self.stats["feas"] += 1
        s = z3.SolverFor("QF_UFDTLIA") if False else Solver()
        s.set("timeout", self.feas_ms)
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        fs = self.pc + [extra]
        for f in fs:
            s.add(f)
        r = s.check() != unsat
        self.feas_cache[key] = r
        return r

    def qf_decide(self, base, cond):
        """True / False when the quantifier free facts alone settle the condition, else None"""
        key = base + ("qf",)
        if key in self.feas_cache:
            return self.feas_cache[key]
        s = Solver()
        s.set("timeout", 100)
        for f in self.pc:
            if qfree_cached(f):
                s.add(f)
        r = None
        s.push()
        s.add(Not(cond))
        if s.check() == unsat:
            r = True
        else:
            s.pop()
            s.add(cond)
            if s.check() == unsat:
                r = False
        self.feas_cache[key] = r
        return r

    def choose(self, cond, label=""):
        if isinstance(cond, bool):
            return cond
        c = simplify(cond)
        if is_true(c):
            return True
        if is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.pc.append(cond if d else Not(cond))
            return d
        base = tuple(self.prefix)
        q = self.qf_decide(base, cond)
        if q is not None:
            ft, ff = q, not q
        else:
            ft = self.feasible(base + (True,), cond)
            ff = self.feasible(base + (False,), Not(cond))
        if not ft and not ff:
            raise Infeasible()
        if ft and ff:
            self.work_push(base + (False,))
            d = True
        else:
            d = ft
        self.prefix.append(d)
        self.pos += 1
        self.pc.append(cond if d else Not(cond))
        return d

    def work_push(self, p):
        self.work.append(p)

    def choose_n(self, n, label=""):
        """nondeterministic choice (all alternatives explored)"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            return d
        base = tuple(self.prefix)
        for k in range(n - 1, 0, -1):
            self.work_push(base + (k,))
        self.prefix.append(0)
        self.pos += 1
        return 0

    # ---------------------------------------------------------- nested exploration (comprehension bodies)
    def local(self, fn):
        """explore fn() from the current state; returns [(conds, outcome, heap, allocs)], state restored"""
        snap = (self.pc, self.heap, self.prefix, self.pos, self.work, dict(self.ghost), list(self.closures))
        ctx = self.decisions()
        out = []
        work = [()]
        self.localmode += 1
        npc = len(self.pc)
        budget = 200
        oldfeas = self.feas_cache
        self.feas_cache = {}
        serials0 = maxs = self.serial
        try:
            while work:
                budget -= 1
                if budget < 0:
                    raise Unsupported("too many paths in a comprehension")
                p = work.pop()
                self.pc = list(snap[0])
                self.heap = snap[1].copy()
                self.prefix, self.pos = list(p), 0
                self.work = work
                self.closures = list(snap[6])
                self.ghost = dict(snap[5])
                self.serial = serials0          # same names on a replayed path; made unique below
                try:
                    v = ("val", fn())
                except PyExc as e:
                    v = ("exc", e)
                except (Infeasible, PathEnd):
                    maxs = max(maxs, self.serial)
                    continue
                out.append((self.pc[npc:], v, self.heap, self.closures[len(snap[6]):]))
                maxs = max(maxs, self.serial)
        finally:
            self.localmode -= 1
            self.feas_cache = oldfeas
            self.pc, self.heap, self.prefix, self.pos, self.work = snap[0], snap[1], snap[2], snap[3], snap[4]
            self.ghost, self.closures = snap[5], snap[6]
            self.serial = maxs + 1
        return out

    # ---------------------------------------------------------- literals
    def lit(self, value):
        key = value
        if key in self.lits:
            return self.lits[key]
        nm = "lit:%s:%s" % (type(value).__name__, value if isinstance(value, str) else value.hex())
        c = sq_empty if len(value) == 0 else Const(nm, Sq)
        self.lits[key] = c
        return c

    def lit_axioms(self):
        out = []
        for k, c in self.lits.items():
            out.append(sq_len(c) == len(k))
            if len(k) <= 24:
                for j, ch in enumerate(k):
                    out.append(sq_at(c, j) == (ord(ch) if isinstance(ch, str) else ch))
        cs = [c for c in self.lits.values()]
        if len(cs) > 1:
            out.append(Distinct(*cs))
        return out

    def const(self, v):
        if v is None:
            return NONE
        if isinstance(v, bool):
            return BoolV(v)
        if isinstance(v, int):
            return IntV(v)
        if isinstance(v, float):
            return RealV(RealVal(repr(v)))
        if isinstance(v, str):
            return StrV(self.lit(v), v)
        if isinstance(v, bytes):
            return BytV(self.lit(v), v)
        if isinstance(v, tuple):
            return TupV([self.const(x) for x in v])
        if v is Ellipsis:
            return NONE
        raise Unsupported("constant %r" % (v,))

    # ---------------------------------------------------------- conversions
    def to_val(self, v):
        if isinstance(v, NoneT):
            return none
        if isinstance(v, BoolV):
            return Val.vbool(v.t)
        if isinstance(v, IntV):
            return Val.vint(v.t)
        if isinstance(v, StrV):
            return Val.vstr(v.t)
        if isinstance(v, BytV):
            return Val.vbyt(v.t)
        if isinstance(v, FltV):
            return Val.vflt(v.t)
        if isinstance(v, RealV):
            return Val.vflt(flt_of_real(v.t))
        if isinstance(v, RefV):
            return Val.vref(v.t)
        if isinstance(v, AnyV):
            return v.t
        if isinstance(v, AtomV):
            return Val.vatom(v.t)
        if isinstance(v, TupV):
            if v.src is not None:
                return v.src
            xs = [self.to_val(x) for x in v.items]
            if len(xs) == 2:
                return Val.vt2(*xs)
            if len(xs) == 3:
                return Val.vt3(*xs)
            return Val.vref(self.list_of(v.items).t)
        if isinstance(v, (FnV, BuiltinV, ClsV, OpaqueFn)):
            self.closures.append(v)
            return Val.vatom(IntVal(100000 + len(self.closures) - 1))
        if isinstance(v, (IterV, View, GenV)):
            return self.to_val(self.to_list(v))
        raise Unsupported("cannot store %s" % type(v).__name__)

    def mk(self, t, hint=None):
        """value of a Val term"""
        t = simplify(t) if t.num_args() and t.decl().kind() in (Z3_OP_SELECT, Z3_OP_ITE, Z3_OP_DT_ACCESSOR) else t
        n = t.decl().name()
        if n == "none":
            return NONE
        if n == "vbool":
            return BoolV(t.arg(0))
        if n == "vint":
            return IntV(t.arg(0))
        if n == "vstr":
            return StrV(t.arg(0), self.litof(t.arg(0)))
        if n == "vbyt":
            return BytV(t.arg(0), self.litof(t.arg(0)))
        if n == "vflt":
            return FltV(t.arg(0))
        if n == "vref":
            return RefV(t.arg(0), hint if isinstance(hint, str) else "object")
        if n == "vatom":
            c = conc(t.arg(0))
            if c is not None and c >= 100000:
                return self.closures[c - 100000]
            if c is not None:
                return self.atom(c)
        if n == "vt2" or n == "vt3":
            return TupV([self.mk(t.arg(j)) for j in range(t.num_args())])
        if self.elkind and t.decl().kind() == Z3_OP_SELECT:
            ek = self.elkind.get(t.arg(0).get_id())
            if ek is not None:
                return ek[1](t)
        return AnyV(t, hint)

    def note_elkind(self, arr, vals):
        """remember the common kind of the elements of a freshly built list"""
        kinds = {type(v) for v in vals}
        if len(kinds) == 1:
            v0 = next(iter(vals))
            if isinstance(v0, (IntV, BoolV)) and conc(v0.t) is not None and all(v.t.eq(v0.t) for v in vals):
                self.elkind[arr.get_id()] = (arr, lambda t: v0)
                return
            w = {BoolV: lambda t: BoolV(Val.b(t)), IntV: lambda t: IntV(Val.i(t)), StrV: lambda t: StrV(Val.s(t), None),
                 BytV: lambda t: BytV(Val.y(t), None)}.get(kinds.pop())
            if w is not None:
                self.elkind[arr.get_id()] = (arr, w)

    def shape_val(self, t, shape):
        """the value of term t, known to have the given shape: a type name or a tuple of shapes"""
        if isinstance(shape, tuple):
            acc = {2: [Val.t20, Val.t21], 3: [Val.t30, Val.t31, Val.t32]}[len(shape)]
            return TupV([self.shape_val(simplify(f(t)), s) for f, s in zip(acc, shape)], src=t)
        if shape == "any":
            v = self.mk(t)
            return v
        if shape == "node" or shape[:4] == "ref:":
            return RefV(simplify(Val.r(t)), "Node" if shape == "node" else shape[4:])
        return {"int": lambda: IntV(simplify(Val.i(t))), "bool": lambda: BoolV(simplify(Val.b(t))), "str": lambda: StrV(simplify(Val.s(t))),
                "bytes": lambda: BytV(simplify(Val.y(t)))}[shape]()

    def shape_pred(self, t, shape):
        if isinstance(shape, tuple):
            acc = {2: [Val.t20, Val.t21], 3: [Val.t30, Val.t31, Val.t32]}[len(shape)]
            return And([{2: Val.is_vt2, 3: Val.is_vt3}[len(shape)](t)] + [self.shape_pred(f(t), s) for f, s in zip(acc, shape)])
        if shape == "any":
            return BoolVal(True)
        if shape == "node" or shape[:4] == "ref:":
            return And(Val.is_vref(t), Val.r(t) > 0, Val.r(t) < self.heap.alloc, self.is_cls(Val.r(t), "Node" if shape == "node" else shape[4:]))
        return {"int": Val.is_vint, "bool": Val.is_vbool, "str": Val.is_vstr, "bytes": Val.is_vbyt}[shape](t)

    def shape_list(self, ref, shape):
        """proves that all elements of the list have the shape, and reads them as such from here on (until the list changes)"""
        n, el = self.llen(ref), self.hget("L.el", ref.t)
        q = Int("q")
        self.check("elements have the expected shape", FA([q], Implies(And(0 <= q, q < n), self.shape_pred(Select(el, q), shape)), [Select(el, q)]))
        self.elkind[el.get_id()] = (el, lambda t: self.shape_val(t, shape))

    def litof(self, s):
        for k, c in self.lits.items():
            if c.get_id() == s.get_id() and isinstance(k, (str, bytes)):
                return k
        return None

    # ---------------------------------------------------------- building strings
    def cat(self, *parts):
        """concatenation in left-nested normal form, adjacent literals merged"""
        out = sq_empty
        for p in parts:
            p = simplify(p)
            if is_app(p) and p.decl().eq(sq_cat):
                out = self.cat(out, p.arg(0), p.arg(1))
                continue
            if p.eq(sq_empty):
                continue
            if out.eq(sq_empty):
                out = p
                continue
            lp, base, last = self.litof(p), None, out
            if is_app(out) and out.decl().eq(sq_cat):
                base, last = out.arg(0), out.arg(1)
            ll = self.litof(last)
            if isinstance(lp, str) and isinstance(ll, str):
                m = self.lit(ll + lp)
                out = m if base is None else sq_cat(base, m)
            else:
                out = sq_cat(out, p)
        return out

    def text_piece(self, v):
        """str(v) inside a format operation, without running user code"""
        if isinstance(v, StrV):
            return v.t
        if isinstance(v, AnyV):
            return If(Val.is_vstr(v.t), Val.s(v.t), to_str(v.t))
        if isinstance(v, IntV):
            return to_str(Val.vint(v.t))
        return self.fresh("fmt", Sq)

    def format_parts(self, parts):
        """parts: literal strings and values"""
        return StrV(self.cat(*[self.lit(p) if isinstance(p, str) else self.text_piece(p) for p in parts if p != ""]))

    _atoms = {}
    _atomids = {}

    def atom_of(self, cls, name):
        k = (cls, name)
        if k not in Engine._atomids:
            Engine._atomids[k] = len(Engine._atomids) + 1
            Engine._atoms[Engine._atomids[k]] = AtomV(cls, name, Engine._atomids[k])
        return Engine._atoms[Engine._atomids[k]]

    def atom(self, c):
        return Engine._atoms[c]

    def typed(self, ty, t):
        """wrap an attribute cell of declared type"""
        if ty.startswith("dict:"):
            r = self.refv(t, "dict")
            r.valkind = ty[5:]
            return r
        if ty == "int":
            return IntV(t)
        if ty == "bool":
            return BoolV(t)
        if ty == "str":
            return StrV(t, self.litof(t))
        if ty == "byt":
            return BytV(t, self.litof(t))
        if ty == "any":
            return self.mk(t)
        if ty == "float":
            return self.mk(t)
        if ty == "atom":
            v = self.mk(t)
            if isinstance(v, AnyV):
                self.assume(Val.is_vatom(t))
                v.is_atom = True
            return v
        if ty.startswith("?"):
            v = self.mk(t, ty[1:])
            if isinstance(v, AnyV):
                if self.choose(t == none, "is None"):
                    return NONE
                self.assume(Val.is_vref(t))
                return self.refv(Val.r(t), ty[1:])
            if isinstance(v, RefV):
                v.kind = ty[1:]
            return v
        return self.refv(t, ty)

    def refv(self, t, kind, heapalloc=None):
        r = RefV(t, kind)
        self.assume(t > 0, t < (heapalloc if heapalloc is not None else self.heap.alloc), self.is_cls(t, kind))
        return r

    def is_cls(self, t, kind):
        if kind == "object":
            return BoolVal(True)
        subs = self.prog.subclasses(kind)
        ids = [self.prog.class_ids[c] for c in subs]
        return Or([cls(t) == i for i in ids]) if len(ids) > 1 else cls(t) == ids[0]

    # ---------------------------------------------------------- heap access
    def hget(self, comp, ref):
        h = self.heap.term(comp)
        mine = self.fresh_refs.get(ref.get_id())
        if mine is not None:
            # distinct allocations have distinct addresses, and differ from the objects that existed before
            while h.decl().kind() == Z3_OP_STORE and h.arg(1).get_id() != ref.get_id():
                other = self.fresh_refs.get(h.arg(1).get_id())
                if other is None or (mine[1] == "old" and other[1] == "old"):
                    break
                h = h.arg(0)
        t = Select(h, ref)
        return simplify_select(t)

    def hput(self, comp, ref, val):
        for lc in self.loopstack:
            self._record(lc, comp, ref)
        h = self.heap
        h.c[comp] = Store(h.term(comp), ref, val)
        h.ver[comp] = h.alloc

    def hwild(self, comp):
        """forget a whole component; returns (old, new)"""
        for lc in self.loopstack:
            m = lc.mods["heap"].setdefault(comp, {"listed": {}, "fresh": False, "wild": False})
            if not m["wild"]:
                m["wild"] = True
                lc.mods["changed"] = True
        old = self.heap.term(comp)
        new = self.fresh("H." + comp, old.sort())
        self.heap.c[comp] = new
        self.heap.ver[comp] = self.heap.alloc
        return old, new

    def _record(self, lc, comp, ref):
        m = lc.mods["heap"].setdefault(comp, {"listed": {}, "fresh": False, "wild": False})
        rid = ref.get_id()
        if rid in m["listed"] or m["wild"]:
            return
        if max_serial(ref) < lc.head_serial:
            m["listed"][rid] = ref
            lc.mods["changed"] = True
        elif rid in lc.allocs:
            if not m["fresh"]:
                m["fresh"] = True
                lc.mods["changed"] = True
        else:
            m["wild"] = True
            lc.mods["changed"] = True

    def alloc(self, kind):
        r = self.fresh("new_" + kind, I)
        self.fresh_refs[r.get_id()] = (r, "new")
        for lc in self.loopstack:
            lc.allocs.add(r.get_id())
            if not lc.mods["alloc"]:
                lc.mods["alloc"] = True
                lc.mods["changed"] = True
            lc.keep = getattr(lc, "keep", [])
            lc.keep.append(r)
        self.assume(r == self.heap.alloc)
        na = self.fresh("alloc", I)
        self.assume(na == r + 1)
        self.heap.alloc = na
        self.assume(cls(r) == self.prog.class_ids[kind])
        return r

    def bound_loaded(self, t, comp):
        """a reference loaded from the heap was allocated before the component's last write"""
        al = self.heap.ver.get(comp, Int("alloc0") if comp not in self.heap.ver else None)
        self.assume(Implies(Val.is_vref(t), And(Val.r(t) > 0, Val.r(t) < al)))

    def getfield(self, ref, a):
        a = ATTRS.key(self.prog, ref.kind, a)
        ty = ATTRS.table.get(a, "any")
        t = self.hget("F." + a, ref.t)
        al = self.heap.ver.get("F." + a, Int("alloc0"))
        if ATTRS.sort(a) == Val:
            v = self.mk(t)
            if isinstance(v, AnyV):
                self.assume(Implies(Val.is_vref(t), And(Val.r(t) > 0, Val.r(t) < al)))
        elif ty not in ("int", "bool", "str", "byt"):
            self.assume(t > 0, t < al)
        return self.typed(ty, t)

    def setfield(self, ref, a, v):
        a = ATTRS.key(self.prog, ref.kind, a)
        ty = ATTRS.table.get(a, "any")
        if ty == "int":
            t = self.as_int(v)
        elif ty == "bool":
            t = self.as_bool(v)
        elif ty in ("str", "byt"):
            v = self.force(v, StrV if ty == "str" else BytV)
            t = v.t
        elif ty in ("any", "float", "atom") or ty.startswith("?"):
            t = self.to_val(v)
        else:
            if isinstance(v, AnyV):
                v = self.force_ref(v, ty.split(":")[0])
            if isinstance(v, (View, IterV, GenV)) and ty == "list":
                raise Unsupported("iterator stored in list attribute")
            if not isinstance(v, RefV):
                raise Unsupported("attribute %s set to %s" % (a, type(v).__name__))
            t = v.t
        self.hput("F." + a, ref.t, t)

    # ---------------------------------------------------------- coercions with forking
    def as_int(self, v):
        if isinstance(v, IntV):
            return v.t
        if isinstance(v, BoolV):
            return If(v.t, IntVal(1), IntVal(0))
        if isinstance(v, AnyV):
            if self.choose(Val.is_vint(v.t), "is int"):
                return Val.i(v.t)
            if self.choose(Val.is_vbool(v.t), "is bool"):
                return If(Val.b(v.t), IntVal(1), IntVal(0))
            raise PyExc("TypeError")
        if isinstance(v, RefV):
            m = self.prog.find_method(v.kind, "__index__")
            if m:
                return self.as_int(self.call(FnV(m, None, v), [], {}))
        raise PyExc("TypeError")

    def as_bool(self, v):
        if isinstance(v, BoolV):
            return v.t
        if isinstance(v, AnyV):
            if self.choose(Val.is_vbool(v.t)):
                return Val.b(v.t)
        raise Unsupported("expected a bool")

    def force(self, v, ty):
        if isinstance(v, ty):
            return v
        if isinstance(v, AnyV):
            rec = {StrV: Val.is_vstr, BytV: Val.is_vbyt, IntV: Val.is_vint}[ty]
            acc = {StrV: Val.s, BytV: Val.y, IntV: Val.i}[ty]
            if self.choose(rec(v.t)):
                return ty(acc(v.t))
            raise PyExc("TypeError")
        raise PyExc("TypeError")

    def force_ref(self, v, kind="object"):
        if isinstance(v, RefV):
            return v
        if isinstance(v, AnyV):
            if self.choose(Val.is_vref(v.t)):
                r = RefV(Val.r(v.t), "object")
                if kind != "object":
                    if not self.choose(self.is_cls(r.t, kind)):
                        raise PyExc("AttributeError")
                    r.kind = kind
                return r
        raise PyExc("AttributeError")

    def resolve(self, v):
        """split an AnyV into a value of known shape (forks)"""
        if not isinstance(v, AnyV):
            return v
        t = v.t
        if self.choose(Val.is_vref(t)):
            k = v.info if isinstance(v.info, str) else "object"
            return RefV(Val.r(t), k)
        if self.choose(t == none):
            return NONE
        if self.choose(Val.is_vint(t)):
            return IntV(Val.i(t))
        if self.choose(Val.is_vstr(t)):
            return StrV(Val.s(t))
        if self.choose(Val.is_vbool(t)):
            return BoolV(Val.b(t))
        if self.choose(Val.is_vbyt(t)):
            return BytV(Val.y(t))
        if self.choose(Val.is_vflt(t)):
            return FltV(Val.f(t))
        if self.choose(Val.is_vt2(t)):
            return TupV([self.mk(Val.t20(t)), self.mk(Val.t21(t))])
        if self.choose(Val.is_vt3(t)):
            return TupV([self.mk(Val.t30(t)), self.mk(Val.t31(t)), self.mk(Val.t32(t))])
        return AnyV(t, "atom")

    def refine_kind(self, v, candidates):
        """determine which of the candidate classes a reference has (forks); returns kind or None"""
        if v.kind != "object" and any(v.kind in self.prog.subclasses(c) for c in candidates):
            return v.kind
        for c in candidates:
            if v.kind != "object" and c not in self.prog.subclasses(v.kind) and v.kind not in self.prog.subclasses(c):
                continue
            if self.choose(self.is_cls(v.t, c), "isinstance " + c):
                v.kind = c
                return c
        return None

    def settle(self, v):
        """NodeCollection is abstract: determine the dynamic class (assumption: no subclasses outside docria)"""
        if isinstance(v, RefV) and v.kind == "NodeCollection":
            subs = [c for c in self.prog.subclasses("NodeCollection") if c != "NodeCollection"]
            for c in subs:
                if c is subs[-1]:
                    self.assume(self.is_cls(v.t, c))
                    v.kind = c
                elif self.choose(self.is_cls(v.t, c), "dynamic class " + c):
                    v.kind = c
                    break
        return v

    # ---------------------------------------------------------- truth, equality, order
    def truth(self, v):
        """z3 Bool"""
        if isinstance(v, BoolV):
            return v.t
        if isinstance(v, NoneT):
            return BoolVal(False)
        if isinstance(v, IntV):
            return v.t != 0
        if isinstance(v, RealV):
            return v.t != 0
        if isinstance(v, (StrV, BytV)):
            return sq_len(v.t) > 0
        if isinstance(v, TupV):
            return BoolVal(len(v.items) > 0)
        if isinstance(v, (FnV, ClsV, BuiltinV, OpaqueFn, AtomV, ExcV, GenV, IterV)):
            return BoolVal(True)
        if isinstance(v, RefV):
            if v.kind == "object":
                self.refine_kind(v, [c for c in ["list", "dict", "set", "deque", "NodeCollection", "TextSpan", "Text"]])
            if v.kind in ("list", "dict", "set", "deque") or self.prog.find_method(v.kind, "__len__") or \
                    any(b in ("list", "dict", "set") for b in self.prog.mro(v.kind)):
                return self.as_int(self.len_(v)) > 0
            return BoolVal(True)
        if isinstance(v, AnyV):
            return self.truth(self.resolve(v)) if not (isinstance(v.info, str) and v.info == "atom") else BoolVal(True)
        raise Unsupported("truth of %s" % type(v).__name__)

    def branch(self, v, label=""):
        return self.choose(self.truth(v), label)

    def chaos(self):
        """a value about which nothing is known and nothing has to be shown: every pure operation on it may give anything or raise"""
        return AnyV(self.fresh("chaos", Val), "chaos")

    def chaos_raise(self):
        if self.choose(self.fresh("chaos_raises", B)):
            raise PyExc("OpaqueError")

    def eq(self, a, b):
        """python == as a z3 Bool"""
        if is_chaos(a) or is_chaos(b):
            return self.fresh("chaoseq", B)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, RefV):
                if isinstance(y, RefV):
                    break
                m = self.prog.find_method(x.kind, "__eq__")
                if m is not None and m.qual not in ("model.Node.__eq__",):
                    return self.truth(self.call(FnV(m, None, x), [y], {}))
                if isinstance(y, AnyV):
                    if x.kind in ("object",):
                        return py_eq(self.to_val(a), self.to_val(b))
                    return self.to_val(x) == y.t
                return BoolVal(False)
        if isinstance(a, RefV) and isinstance(b, RefV):
            m = self.prog.find_method(a.kind, "__eq__")
            if m is not None and m.qual != "model.Node.__eq__":
                return self.truth(self.call(FnV(m, None, a), [b], {}))
            if a.kind in ("list", "dict", "set", "object") or b.kind in ("list", "dict", "set", "object"):
                return py_eq(self.to_val(a), self.to_val(b))
            return a.t == b.t
        if isinstance(a, NoneT) or isinstance(b, NoneT):
            if isinstance(a, AnyV) or isinstance(b, AnyV):
                x = a if isinstance(a, AnyV) else b
                return x.t == none
            return BoolVal(isinstance(a, NoneT) and isinstance(b, NoneT))
        if isinstance(a, (IntV, BoolV)) and isinstance(b, (IntV, BoolV)):
            if isinstance(a, BoolV) and isinstance(b, BoolV):
                return a.t == b.t
            return self.as_int(a) == self.as_int(b)
        if isinstance(a, (RealV, IntV)) and isinstance(b, (RealV, IntV)):
            return self.real(a) == self.real(b)
        if isinstance(a, StrV) and isinstance(b, StrV) or isinstance(a, BytV) and isinstance(b, BytV):
            if a.lit is not None and b.lit is not None:
                return BoolVal(a.lit == b.lit)
            return a.t == b.t
        if isinstance(a, TupV) and isinstance(b, TupV):
            if len(a.items) != len(b.items):
                return BoolVal(False)
            return And([self.eq(x, y) for x, y in zip(a.items, b.items)]) if a.items else BoolVal(True)
        if isinstance(a, AtomV) and isinstance(b, AtomV):
            return BoolVal(a.ident == b.ident)
        if isinstance(a, AtomV) or isinstance(b, AtomV):
            x, y = (a, b) if isinstance(a, AtomV) else (b, a)
            if isinstance(y, AnyV):
                return y.t == self.to_val(x)
            return BoolVal(False)
        if isinstance(a, AnyV) or isinstance(b, AnyV):
            x, y = (a, b) if isinstance(a, AnyV) else (b, a)
            if getattr(x, "is_atom", False) and isinstance(y, AnyV):
                return x.t == y.t
            if isinstance(y, (StrV, BytV)):      # a string equals strings only, by content
                return x.t == self.to_val(y)
            if isinstance(y, TupV):
                n = len(y.items)
                rec = {2: Val.is_vt2, 3: Val.is_vt3}.get(n)
                if rec is None:
                    raise Unsupported("tuple comparison")
                acc = {2: [Val.t20, Val.t21], 3: [Val.t30, Val.t31, Val.t32]}[n]
                return And([rec(x.t)] + [self.eq(self.mk(f(x.t)), w) for f, w in zip(acc, y.items)])
            return py_eq(self.to_val(a), self.to_val(b))
        if isinstance(a, (SliceV,)) or isinstance(b, SliceV):
            raise Unsupported("slice ==")
        if type(a) != type(b):
            return BoolVal(False)
        if isinstance(a, FltV):
            return py_eq(self.to_val(a), self.to_val(b))
        if isinstance(a, (FnV, ClsV)):
            return BoolVal(a is b)
        raise Unsupported("== on %s" % type(a).__name__)

    def identical(self, a, b):
        if isinstance(a, NoneT) and isinstance(b, NoneT):
            return BoolVal(True)
        if isinstance(a, AnyV) or isinstance(b, AnyV):
            x, y = (a, b) if isinstance(a, AnyV) else (b, a)
            if isinstance(y, (NoneT, RefV, AnyV, AtomV, BoolV)):
                return x.t == self.to_val(y)
            if isinstance(y, TupV):
                return x.t == self.to_val(y)      # see assumptions: identity of tuples follows their content
            raise Unsupported("is on values")
        if isinstance(a, NoneT) or isinstance(b, NoneT):
            return BoolVal(False)
        if isinstance(a, RefV) and isinstance(b, RefV):
            return a.t == b.t
        if isinstance(a, AtomV) and isinstance(b, AtomV):
            return BoolVal(a.ident == b.ident)
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return a.t == b.t
        if isinstance(a, TupV) and isinstance(b, TupV):
            return self.to_val(a) == self.to_val(b)
        if type(a) != type(b):
            return BoolVal(False)
        if isinstance(a, (ClsV, FnV)):
            return BoolVal(a is b or (isinstance(a, ClsV) and a.name == b.name))
        raise Unsupported("is on %s" % type(a).__name__)

    def real(self, v):
        if isinstance(v, RealV):
            return v.t
        if isinstance(v, IntV):
            return ToReal(v.t)
        raise Unsupported("real")

    def lt(self, a, b, strict=True):
        """a < b (or <=) as z3 Bool; may raise TypeError"""
        if is_chaos(a) or is_chaos(b):
            self.chaos_raise()
            return self.fresh("chaoslt", B)
        if isinstance(a, (IntV, BoolV)) and isinstance(b, (IntV, BoolV)):
            x, y = self.as_int(a), self.as_int(b)
            return x < y if strict else x <= y
        if isinstance(a, (RealV, IntV)) and isinstance(b, (RealV, IntV)):
            x, y = self.real(a), self.real(b)
            return x < y if strict else x <= y
        if isinstance(a, TupV) and isinstance(b, TupV):
            if not a.items or not b.items:
                return BoolVal(len(a.items) < len(b.items) or (not strict and len(a.items) == len(b.items)))
            e = self.eq(a.items[0], b.items[0])
            rest = self.lt(TupV(a.items[1:]), TupV(b.items[1:]), strict)
            return Or(self.lt(a.items[0], b.items[0], True), And(e, rest))
        if isinstance(a, AnyV) or isinstance(b, AnyV):
            if isinstance(a, (IntV, AnyV)) and isinstance(b, (IntV, AnyV)):
                ia = BoolVal(True) if isinstance(a, IntV) else Val.is_vint(a.t)
                ib = BoolVal(True) if isinstance(b, IntV) else Val.is_vint(b.t)
                if self.choose(And(ia, ib)):
                    x = a.t if isinstance(a, IntV) else Val.i(a.t)
                    y = b.t if isinstance(b, IntV) else Val.i(b.t)
                    return x < y if strict else x <= y
            if isinstance(a, IntV) and self.choose(Val.is_vbool(b.t)):
                return self.lt(a, BoolV(Val.b(b.t)), strict)
            if isinstance(b, IntV) and self.choose(Val.is_vbool(a.t)):
                return self.lt(BoolV(Val.b(a.t)), b, strict)
            x, y = self.to_val(a), self.to_val(b)
            if not self.choose(py_cmpok(x, y), "comparable"):
                raise PyExc("TypeError")
            return py_lt(x, y) if strict else py_le(x, y)
        if isinstance(a, (StrV, BytV)) and type(a) == type(b):
            x, y = self.to_val(a), self.to_val(b)
            return py_lt(x, y) if strict else py_le(x, y)
        raise PyExc("TypeError")

    # ---------------------------------------------------------- lists
    def new_list(self, n=None, el=None, kind="list"):
        r = self.alloc(kind)
        self.hput("L.len", r, IntVal(0) if n is None else n)
        self.hput("L.el", r, el if el is not None else K(I, none))
        return RefV(r, kind)

    def list_of(self, vals, kind="list"):
        el = K(I, none)
        for j, v in enumerate(vals):
            el = Store(el, j, self.to_val(v))
        return self.new_list(IntVal(len(vals)), el, kind)

    def llen(self, l):
        return self.hget("L.len", l.t)

    def lel(self, l, i):
        t = Select(self.hget("L.el", l.t), i)
        t = simplify_select(t)
        v = self.mk(t)
        if isinstance(v, AnyV):
            self.bound_loaded(t, "L.el")
        return v

    def is_listlike(self, v):
        return isinstance(v, RefV) and "list" in self.prog.mro(v.kind)

    def view(self, v):
        """view of any iterable"""
        if is_chaos(v):
            self.chaos_raise()
            n = self.nonneg(self.fresh("chaosn", I))
            return View(n, lambda i: self.chaos())
        if isinstance(v, View):
            return v
        if isinstance(v, IterV):
            if conc(v.pos) == 0:
                if v.view.oneshot:
                    pass
                return v.view
            p = v.pos
            return View(lambda: v.view.n() - p, lambda i: v.view.at(p + i))
        if isinstance(v, TupV):
            items = v.items

            def at(i):
                c = conc(i)
                if c is None:
                    raise Unsupported("symbolic index into a static sequence")
                return items[c]
            return View(len(items), at, tag="static")
        if isinstance(v, StaticSet):
            return self.view(TupV(v.items))
        if isinstance(v, AnyV):
            v = self.resolve(v)
        if isinstance(v, RefV):
            k = v.kind
            if k == "object":
                k = self.refine_kind(v, ["list", "NodeLayerCollection", "NodeSpan", "NodeCollection", "dict", "set", "TextSpan",
                                         "Text", "deque"])
                if k is None:
                    raise Unsupported("iteration over an unknown object")
            k = self.settle(v).kind
            m = self.prog.find_method(k, "__iter__")
            if m is not None and m.qual != "model.NodeList.__iter__":
                return self.view(self.call(FnV(m, None, v), [], {}))
            mro = self.prog.mro(k)
            if "list" in mro:
                return View(lambda: self.llen(v), lambda i: self.lel(v, i), live=True, tag=("list", v))
            if "dict" in mro:
                return self.dict_view(v, "keys")
            if k == "set":
                return self.set_view(v)
            if k == "deque":
                return View(lambda: self.llen(v) - self.hget("L.lo", v.t), lambda i: self.lel(v, self.hget("L.lo", v.t) + i), live=True)
        if isinstance(v, (StrV, BytV)):
            s = v.t
            if isinstance(v, StrV):
                return View(sq_len(s), lambda i: StrV(sq_slice(s, i, i + 1)))
            return View(sq_len(s), lambda i: IntV(sq_at(s, i)))
        if isinstance(v, GenV):
            return self.view(self.run_gen(v))
        raise PyExc("TypeError")

    def dict_view(self, d, what):
        """items in insertion order; facts about the enumeration are assumed from the dict representation"""
        self.dict_facts(d)
        n, key = self.hget("D.n", d.t), self.hget("D.key", d.t)
        mp = self.hget("D.map", d.t)

        vk = getattr(d, "valkind", None)

        def val_of(vt):
            if vk is None:
                return self.mk(vt)
            v = self.mk(vt)
            if isinstance(v, RefV) and v.kind != "object":
                return v
            self.assume(Val.is_vref(vt))
            return self.refv(simplify(Val.r(vt)), vk)

        def key_of(kt):
            v = self.mk(kt)
            if vk is None or not isinstance(v, AnyV):
                return v
            self.assume(Val.is_vstr(kt))
            return StrV(simplify(Val.s(kt)), None)

        def at(i):
            kt = simplify_select(Select(key, i))
            vt = simplify_select(Select(mp, kt))
            if what != "values":
                self.bound_loaded(kt, "D.key")
            if what != "keys":
                self.bound_loaded(vt, "D.map")
            if what == "keys":
                return key_of(kt)
            if what == "values":
                return val_of(vt)
            return TupV([key_of(kt), val_of(vt)])
        return View(n, at, tag=("dict", d, what))

    def dict_facts(self, d):
        n, key, dom = self.hget("D.n", d.t), self.hget("D.key", d.t), self.hget("D.dom", d.t)
        idx = self.fresh_fn("didx", Val, I)
        x = Const("x", Val)
        j = Int("j")
        self.assume(n >= 0)
        self.assume(FA([j], Implies(And(0 <= j, j < n), And(Select(dom, Select(key, j)), idx(Select(key, j)) == j)), [Select(key, j)]))
        self.assume(FA([x], Implies(Select(dom, x), And(0 <= idx(x), idx(x) < n, Select(key, idx(x)) == x)), [Select(dom, x)]))
        return idx

    def set_view(self, s):
        mem = self.hget("S.mem", s.t)
        n = self.fresh("setn", I)
        en = self.fresh("setenum", IV)
        idx = self.fresh_fn("setidx", Val, I)
        x, j = Const("x", Val), Int("j")
        self.last_set = (mem, n, en, idx)
        self.set_views = getattr(self, "set_views", [])[-3:] + [self.last_set]
        self.assume(n >= 0, n == setcard(mem))      # the number of members depends on nothing else
        self.assume(FA([j], Implies(And(0 <= j, j < n), And(Select(mem, Select(en, j)), idx(Select(en, j)) == j)), [Select(en, j)]))
        self.assume(FA([x], Implies(Select(mem, x), And(0 <= idx(x), idx(x) < n, Select(en, idx(x)) == x)), [Select(mem, x)]))

        def at(i):
            t = simplify_select(Select(en, i))
            self.bound_loaded(t, "S.mem")
            return self.mk(t)
        return View(n, at, tag=("set", s, en, idx))

    def to_list(self, v, kind="list"):
        """new list with the elements of an iterable"""
        if isinstance(v, TupV):
            return self.list_of(v.items, kind)
        w = self.consume(v)
        n = w.n()
        if w.tag == "static":
            return self.list_of([w.at(IntVal(j)) for j in range(conc(n))], kind)
        if isinstance(w.tag, tuple) and w.tag[0] == "list":
            src = w.tag[1]
            return self.new_list(n, self.hget("L.el", src.t), kind)
        if isinstance(w.tag, tuple) and w.tag[0] == "arr":
            return self.new_list(n, w.tag[1], kind)
        return self.map_list(w, lambda x: x, kind)

    def consume(self, v):
        w = self.view(v)
        if w.oneshot:
            if w.used:
                return View(0, lambda i: NONE, tag="static")
            w.used = True
        return w

    def comp_eval(self, w, body, what="comprehension"):
        """evaluate body(x) for a generic element; returns (i, n, [(conds, value)], su) after ruling out exceptions;
        su replaces the constants introduced for the generic element by functions of i"""
        i = self.fresh("ci", I)
        n = w.n()
        base_serial = self.serial

        def run():
            self.assume(0 <= i, i < n)
            v = body(w.at(i))
            return v
        outs = self.local(run)
        top = self.serial
        self.serial += 1
        exc, vals = [], []
        h0 = self.heap
        for conds, (k, v), heap, clos in outs:
            if any(heap.term(c).get_id() != h0.term(c).get_id() for c in heap.c):
                raise Unsupported("side effects inside a %s" % what)
            if clos:
                raise Unsupported("closure created inside a %s" % what)
            (exc if k == "exc" else vals).append((conds[2:], v))
        subs = self.skolem(i, [(c, None) for c, _ in exc + vals], base_serial, [])
        known = {i.get_id()} | set(c.get_id() for c, _ in subs)

        def su(f):
            for c in new_consts([f], base_serial):
                if c.get_id() not in known and max_serial(c) <= top:
                    known.add(c.get_id())
                    subs.append((c, self.fresh_fn("sk", I, c.sort())(i)))
            return substitute(f, *subs) if subs else f
        if exc:
            for conds, e in exc:
                cond = And(conds) if conds else BoolVal(True)
                flag = self.fresh("raises", B)
                if self.choose(flag, "element raises"):
                    sk = self.fresh("ei", I)
                    self.assume(0 <= sk, sk < n)
                    self.assume(substitute(su(cond), (i, sk)))
                    raise PyExc(e.kind)
                pt = self._elem_pattern(w, i)
                self.assume(FA([i], Implies(And(0 <= i, i < n), Not(su(cond))), [pt] if pt is not None else None))
        vals = [([su(c) for c in conds], v) for conds, v in vals]
        return i, n, vals, su

    def skolem(self, i, vals, base_serial, terms):
        """replace constants introduced while evaluating the generic element by functions of i"""
        consts = {}
        for conds, _ in vals:
            for c in new_consts(conds, base_serial):
                consts[c.get_id()] = c
        for t in terms:
            for c in new_consts([t], base_serial):
                consts[c.get_id()] = c
        consts.pop(i.get_id(), None)
        subs = []
        for c in consts.values():
            f = self.fresh_fn("sk_" + c.decl().name().split("!")[0], I, c.sort())
            subs.append((c, f(i)))
        return subs

    def map_list(self, w, fn, kind="list"):
        i, n, vals, su = self.comp_eval(w, fn)
        raw = [v for _, v in vals]
        vals = [(c, su(self.to_val(v))) for c, v in vals]
        tvs = [t for _, t in vals]
        if tvs and all(t.eq(tvs[0]) for t in tvs) and not new_consts([tvs[0]], -1):
            return self.new_list(n, K(I, tvs[0]), kind)
        arr = self.fresh("mapel", IV)
        self.note_elkind(arr, raw)
        r = self.new_list(n, arr, kind)
        el = self.hget("L.el", r.t)
        self.last_map = arr
        for conds, tv in vals:
            self.assume(FA([i], Implies(And([0 <= i, i < n] + gconds(conds)), Select(el, i) == tv), [Select(el, i)]))
        # one of the cases applies to each element
        alls = Or([And(gconds(c)) if gconds(c) else BoolVal(True) for c, _ in vals]) if vals else BoolVal(False)
        if not is_true(simplify(alls)):
            self.assume(FA([i], Implies(And(0 <= i, i < n), alls), [Select(el, i)]))
        return r

    def _side(self, i, n, conds, subs):
        pass

    def filter_list(self, w, cond, fn, kind="list"):
        """[fn(x) for x in w if cond(x)]"""
        return self.filter_multi(w, cond, lambda x: (fn(x),), kind)[0]

    def nothing_dropped(self):
        """a consequence of order-preserving selection, stated on request: a filter that keeps as many as there were keeps each in its place"""
        ix, rk, cnt, _, _, n = self.last_filter
        j = Int("j")
        self.assume(FA([j], Implies(And(cnt == n, 0 <= j, j < n), And(ix(j) == j, rk(j) == j)), [ix(j)]))
        self.assume(FA([j], Implies(And(cnt == n, 0 <= j, j < n), And(ix(j) == j, rk(j) == j)), [rk(j)]))
        return ix, rk

    def filter_multi(self, w, cond, fn, kind="list", width=1):
        """[fn(x) for x in w if cond(x)] where fn returns a tuple of `width` values; one list per component"""
        def body(x):
            if self.branch(cond(x)):
                return (True, fn(x))
            return (False, None)
        i, n, vals, su = self.comp_eval(w, body)
        tv = [(conds, [su(self.to_val(z)) for z in kv[1]]) for conds, kv in vals if kv[0]]
        drop = [conds for conds, kv in vals if not kv[0]]
        cnt = self.fresh("fn", I)
        els = [self.fresh("filtel", IV) for _ in range(width)]
        self.serial += 1
        ix = Function("fidx!%d" % self.serial, I, I)
        rk = Function("frank!%d" % self.serial, I, I)
        keepf = Or([And(gconds(c)) if gconds(c) else BoolVal(True) for c, _ in tv]) if tv else BoolVal(False)
        dropf = Or([And(gconds(c)) if gconds(c) else BoolVal(True) for c in drop]) if drop else BoolVal(False)
        j, k = Int("j"), Int("k")
        A = self.assume
        A(cnt >= 0, cnt <= n)
        A(FA([j], Implies(And(0 <= j, j < cnt), And(0 <= ix(j), ix(j) < n, substitute(keepf, (i, ix(j))), rk(ix(j)) == j)), [ix(j)]))
        for el in els:
            A(FA([j], Implies(And(0 <= j, j < cnt), And(0 <= ix(j), ix(j) < n, substitute(keepf, (i, ix(j))), rk(ix(j)) == j)), [Select(el, j)]))
        A(FA([j, k], Implies(And(0 <= j, j < k, k < cnt), ix(j) < ix(k)), [(ix(j), ix(k))]))
        A(FA([j, k], Implies(And(0 <= j, j < k, k < cnt), ix(j) < ix(k)), [(Select(els[0], j), Select(els[0], k))]))
        for conds, ts in tv:
            g = gconds(conds)
            for el, t in zip(els, ts):
                A(FA([j], Implies(And([0 <= j, j < cnt] + [substitute(c, (i, ix(j))) for c in g]),
                                  Select(el, j) == substitute(t, (i, ix(j)))), [Select(el, j)]))
        rkf = Implies(And(0 <= i, i < n, keepf), And(0 <= rk(i), rk(i) < cnt, ix(rk(i)) == i))
        pats = [rk(i)]
        probe = w.at(i) if True else None
        A(FA([i], rkf, [rk(i)]))
        pt = self._elem_pattern(w, i)
        if pt is not None:
            A(FA([i], rkf, [pt]))
        if width > 1:
            for conds, ts in tv:
                g = gconds(conds)
                for el, t in zip(els, ts):
                    A(FA([i], Implies(And([0 <= i, i < n] + g), Select(el, rk(i)) == t), [rk(i)]))
        # every element is kept or dropped by one of the explored cases
        tot = Implies(And(0 <= i, i < n), Or(keepf, dropf))
        A(FA([i], tot, [rk(i)]))
        if pt is not None:
            A(FA([i], tot, [pt]))
        A(Implies(cnt == 0, FA([i], Implies(And(0 <= i, i < n), Not(keepf)), [pt] if pt is not None else None)))
        # as many kept as there are: every element is kept; otherwise some element (the witness) is dropped
        A(Implies(cnt == n, FA([i], Implies(And(0 <= i, i < n), keepf), [pt] if pt is not None else [rk(i)])))
        sk = self.fresh("dropped", I)
        A(Implies(cnt < n, And(0 <= sk, sk < n, Not(substitute(keepf, (i, sk))), substitute(dropf, (i, sk)))))
        for c_, el in enumerate(els):
            self.note_elkind(el, [kv[1][c_] for _, kv in vals if kv[0]])
        rs = [self.new_list(cnt, el, kind) for el in els]
        self.last_filter = (ix, rk, cnt, i, keepf, n)
        return rs

    def _elem_pattern(self, w, i):
        try:
            npc = len(self.pc)
            v = w.at(i)
            del self.pc[npc:]
            t = self.to_val(v)
            # find a select / function application term mentioning i
            st = [t]
            while st:
                e = st.pop()
                if is_app(e) and e.decl().kind() in (Z3_OP_SELECT, Z3_OP_UNINTERPRETED) and e.num_args() and mentions(e, i) \
                        and any(mentions(c, i) for c in e.children()):
                    return e
                st.extend(e.children())
        except (Unsupported, PyExc, Infeasible):
            pass
        return None

    def sorted_list(self, w, keyfn=None, reverse=False):
        if reverse:
            raise Unsupported("reverse sort")
        src = w if isinstance(w, RefV) else self.to_list(w)
        n = self.llen(src)
        sel = self.hget("L.el", src.t)
        el = self.fresh("sorted", IV)
        self.serial += 1
        p = Function("perm!%d" % self.serial, I, I)
        q = Function("pinv!%d" % self.serial, I, I)
        i, j = self.fresh("si", I), self.fresh("sj", I)
        bs = self.serial
        # key order for two generic elements
        holder = {}

        def run():
            self.assume(0 <= i, i < n, 0 <= j, j < n)
            a = self.mk(Select(sel, i))
            b = self.mk(Select(sel, j))
            self.bound_loaded(Select(sel, i), "L.el")
            self.bound_loaded(Select(sel, j), "L.el")
            ka = self.call(keyfn, [a], {}) if keyfn is not None else a
            kb = self.call(keyfn, [b], {}) if keyfn is not None else b
            return BoolV(self.lt(kb, ka)), BoolV(self.lt(ka, kb)), ka
        outs = self.local(run)
        exc = [(c[6:], v[1]) for c, v, h, cl in outs if v[0] == "exc"]
        ok = [(c, v[1]) for c, v, h, cl in outs if v[0] == "val"]
        h0 = self.heap
        for c, v, h, cl in outs:
            if any(h.term(cc).get_id() != h0.term(cc).get_id() for cc in h.c):
                raise Unsupported("side effects inside a sort key")
        if exc:
            flag = self.fresh("sortfails", B)
            for conds, e in exc:
                if self.choose(self.fresh("sortraises", B), "sort key raises"):
                    raise PyExc(e.kind)
            for conds, e in exc:
                vs = [i, j]
                if [c for c in new_consts(conds, bs) if c.get_id() not in (i.get_id(), j.get_id())]:
                    raise Unsupported("sort key introduces unknowns")
                self.assume(FA(vs, Implies(And(0 <= i, i < n, 0 <= j, j < n), Not(And(conds))) if conds else BoolVal(True), [(Select(sel, i), Select(sel, j))]))
        x, y = Int("x"), Int("y")
        A = self.assume
        A(FA([x], Implies(And(0 <= x, x < n), And(0 <= p(x), p(x) < n, q(p(x)) == x, Select(el, x) == Select(sel, p(x)))), [p(x)]))
        A(FA([x], Implies(And(0 <= x, x < n), And(0 <= p(x), p(x) < n, q(p(x)) == x, Select(el, x) == Select(sel, p(x)))), [Select(el, x)]))
        A(FA([x], Implies(And(0 <= x, x < n), And(0 <= q(x), q(x) < n, p(q(x)) == x)), [q(x)]))
        A(FA([x], Implies(And(0 <= x, x < n), And(0 <= q(x), q(x) < n, p(q(x)) == x)), [Select(sel, x)]))
        for conds, (ba, ab, ka) in ok:
            cs = gconds(conds)
            if new_consts(cs + [ba.t, ab.t], bs):
                raise Unsupported("sort key introduces unknowns")
            f = And(Not(ba.t), Implies(Not(ab.t), i < j))
            g = Implies(And([0 <= x, x < y, y < n] + [substitute(c, (i, p(x)), (j, p(y))) for c in cs]),
                        And(Not(substitute(ba.t, (i, p(x)), (j, p(y)))),
                            Implies(Not(substitute(ab.t, (i, p(x)), (j, p(y)))), p(x) < p(y))))
            A(FA([x, y], g, [(Select(el, x), Select(el, y)), (p(x), p(y))]))
        if sel.get_id() in self.elkind:
            self.elkind[el.get_id()] = (el, self.elkind[sel.get_id()][1])
        r = self.new_list(n, el)
        self.last_sort = (p, q, sel, n)
        self.sorts = getattr(self, "sorts", [])
        return r

    # ---------------------------------------------------------- dicts and sets
    def new_dict(self, kind="dict"):
        r = self.alloc(kind)
        self.init_dict(r)
        return RefV(r, kind)

    def init_dict(self, r):
        self.hput("D.dom", r, K(Val, BoolVal(False)))
        self.hput("D.map", r, K(Val, none))
        self.hput("D.n", r, IntVal(0))
        self.hput("D.key", r, K(I, none))

    def dict_has(self, d, key):
        return simplify_select(Select(self.hget("D.dom", d.t), self.to_key(key)))

    def to_key(self, key):
        if isinstance(key, RefV) and key.kind in ("list", "dict", "set"):
            raise PyExc("TypeError")
        return self.to_val(key)

    def dict_get(self, d, key):
        t = simplify_select(Select(self.hget("D.map", d.t), self.to_key(key)))
        if getattr(d, "valfn", None) is not None:
            return d.valfn(self, self.named(t, "dval"))
        v = self.mk(t)
        if getattr(d, "valkind", None) is not None and not (isinstance(v, RefV) and v.kind != "object"):
            self.bound_loaded(t, "D.map")
            self.assume(Val.is_vref(t))
            return self.refv(simplify(Val.r(t)), d.valkind)
        if isinstance(v, AnyV):
            self.bound_loaded(t, "D.map")
        return v

    def dict_set(self, d, key, val):
        k = self.to_key(key)
        vk = getattr(d, "valkind", None)
        if vk is not None and not (isinstance(val, RefV) and vk in self.prog.mro(val.kind)):
            raise Unsupported("value of another type stored in a dict of %s" % vk)
        tv = self.to_val(val)
        dom = self.hget("D.dom", d.t)
        has = simplify_select(Select(dom, k))
        n = self.hget("D.n", d.t)
        self.hput("D.key", d.t, If(has, self.hget("D.key", d.t), Store(self.hget("D.key", d.t), n, k)) if not is_const_bool(has)
                  else (self.hget("D.key", d.t) if is_true(simplify(has)) else Store(self.hget("D.key", d.t), n, k)))
        self.hput("D.n", d.t, simplify(If(has, n, n + 1)))
        self.hput("D.dom", d.t, Store(dom, k, BoolVal(True)))
        self.hput("D.map", d.t, Store(self.hget("D.map", d.t), k, tv))

    def dict_del(self, d, key):
        k = self.to_key(key)
        if not self.choose(self.dict_has(d, key), "key present"):
            raise PyExc("KeyError")
        idx = self.dict_facts(d)
        n, ky = self.hget("D.n", d.t), self.hget("D.key", d.t)
        nk = self.fresh("dkeys", IV)
        j = Int("j")
        p = idx(k)
        self.assume(FA([j], Implies(And(0 <= j, j < p), Select(nk, j) == Select(ky, j)), [Select(nk, j)]))
        self.assume(FA([j], Implies(And(p <= j, j < n - 1), Select(nk, j) == Select(ky, j + 1)), [Select(nk, j)]))
        self.hput("D.key", d.t, nk)
        self.hput("D.n", d.t, n - 1)
        self.hput("D.dom", d.t, Store(self.hget("D.dom", d.t), k, BoolVal(False)))

    def new_set(self):
        r = self.alloc("set")
        self.hput("S.mem", r, K(Val, BoolVal(False)))
        return RefV(r, "set")

    def set_has(self, s, x):
        return simplify_select(Select(self.hget("S.mem", s.t), self.to_key(x)))

    def set_of(self, v):
        """set(iterable)"""
        s = self.new_set()
        if isinstance(v, (TupV, StaticSet)):
            for x in v.items:
                self.hput("S.mem", s.t, Store(self.hget("S.mem", s.t), self.to_key(x), BoolVal(True)))
            return s
        if isinstance(v, RefV) and v.kind == "set":
            self.hput("S.mem", s.t, self.hget("S.mem", v.t))
            return s
        w = self.consume(v)
        mem = self.fresh("setmem", VB)
        wit = self.fresh_fn("swit", Val, I)
        if isinstance(w.tag, tuple) and w.tag[0] == "dict" and w.tag[2] == "keys":
            self.hput("S.mem", s.t, self.hget("D.dom", w.tag[1].t))
            return s
        lst = self.to_list(w)
        n, el = self.llen(lst), self.hget("L.el", lst.t)
        x, j = Const("x", Val), Int("j")
        self.assume(FA([j], Implies(And(0 <= j, j < n), Select(mem, Select(el, j))), [Select(el, j)]))
        self.assume(FA([x], Implies(Select(mem, x), And(0 <= wit(x), wit(x) < n, Select(el, wit(x)) == x)), [Select(mem, x)]))
        self.hput("S.mem", s.t, mem)
        return s

    # ---------------------------------------------------------- len
    def len_(self, v):
        if isinstance(v, (StrV, BytV)):
            return IntV(len(v.lit) if v.lit is not None else sq_len(v.t))
        if isinstance(v, TupV):
            return IntV(len(v.items))
        if isinstance(v, (StaticDict, StaticSet)):
            return IntV(len(v.items))
        if isinstance(v, AnyV):
            v = self.resolve(v)
            return self.len_(v)
        if isinstance(v, RefV):
            if v.kind == "object":
                self.refine_kind(v, ["list", "dict", "set", "NodeCollection", "TextSpan", "Text", "deque"])
            mro = self.prog.mro(self.settle(v).kind)
            m = self.prog.find_method(v.kind, "__len__")
            if "list" in mro:
                return IntV(self.nonneg(self.llen(v)))
            if m is not None:
                r = self.call(FnV(m, None, v), [], {})
                if not self.choose(self.as_int(r) >= 0):
                    raise PyExc("ValueError")
                return r
            if "dict" in mro:
                return IntV(self.nonneg(self.hget("D.n", v.t)))
            if v.kind == "set":
                w = self.set_view(v)
                return IntV(w.n())
            if v.kind == "deque":
                return IntV(self.llen(v) - self.hget("L.lo", v.t))
        if isinstance(v, View):
            return IntV(v.n())
        raise PyExc("TypeError")

    def nonneg(self, t):
        if not is_int_value(t):
            self.assume(t >= 0)
        return t

    # ---------------------------------------------------------- slices
    def slice_bounds(self, sl, n):
        """python slice.indices with step 1: clamped (lo, hi)"""
        def clamp(x, default):
            if isinstance(x, NoneT):
                return default
            t = self.as_int(x)
            c = conc(t)
            if c is not None and c == 0:
                return IntVal(0)
            return simplify(If(t < 0, If(t + n < 0, IntVal(0), t + n), If(t > n, n, t)))
        if not isinstance(sl.step, NoneT):
            st = self.as_int(sl.step)
            if conc(st) != 1:
                raise Unsupported("slice step")
        lo_, hi_ = sl.lo, sl.hi
        if isinstance(lo_, AnyV):
            lo_ = self.resolve(lo_)
        if isinstance(hi_, AnyV):
            hi_ = self.resolve(hi_)
        lo = clamp(lo_, IntVal(0))
        hi = clamp(hi_, n)
        return lo, hi


def flt_of_real(t):
    return _fr(t)


_fr = Function("flt_of_real", RealSort(), Flt)


def is_const_bool(t):
    s = simplify(t)
    return is_true(s) or is_false(s)


def simplify_select(t):
    return simplify(t)


def gconds(conds):
    """the part of a generic element's path condition that guards it (all of it)"""
    return list(conds)


_ms_cache = {}


def max_serial(t):
    k = t.get_id()
    if k in _ms_cache and _ms_cache[k][0].eq(t):
        return _ms_cache[k][1]
    best = 0
    st = [t]
    seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if is_quantifier(e):
            st.append(e.body())
            continue
        if is_app(e):
            nm = e.decl().name()
            if "!" in nm:
                try:
                    best = max(best, int(nm.rsplit("!", 1)[1]))
                except ValueError:
                    pass
            st.extend(e.children())
    _ms_cache[k] = (t, best)
    return best


def new_consts(fs, base):
    """0-ary constants with serial > base"""
    out = {}
    st = list(fs)
    seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if is_quantifier(e):
            st.append(e.body())
            continue
        if is_app(e):
            if e.num_args() == 0 and "!" in e.decl().name() and e.decl().kind() == Z3_OP_UNINTERPRETED:
                try:
                    if int(e.decl().name().rsplit("!", 1)[1]) > base:
                        out[e.get_id()] = e
                except ValueError:
                    pass
            st.extend(e.children())
    return list(out.values())


def mentions(t, c):
    st = [t]
    seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(c):
            return True
        if is_quantifier(e):
            st.append(e.body())
        elif is_app(e):
            st.extend(e.children())
    return False
