"""Semantics of the Python builtins and builtin methods used by docria (trusted, cross-checked by the concrete suites)."""
import re
import z3
from z3 import *
from .sorts import *
from .sorts import FA
from .engine import *

BUILTINS = {"len", "range", "zip", "map", "filter", "list", "set", "dict", "tuple", "sorted", "min", "max", "sum", "any", "all",
            "iter", "next", "int", "str", "bool", "float", "bytes", "isinstance", "callable", "enumerate", "reversed", "repr",
            "id", "hash", "type", "print", "bytearray", "frozenset", "super", "open", "object", "deque", "defaultdict",
            "BytesIO", "abs", "slice"}

KIND_BY_ATTR = {}

PYTYPES = {"int", "str", "bool", "float", "bytes", "list", "dict", "tuple", "set"}

isspace_s = Function("isspace_s", Sq, B)
sq_find = Function("sq_find", Sq, Sq, I, I, I)
sq_html = Function("sq_html_escape", Sq, Sq)
int_of = Function("int_of", Val, I)


def kw(kwargs, name, default=None):
    return kwargs.get(name, default)


def call_builtin(E, f, args, kwargs):
    name = f.name
    if name in E.builtin_hooks:
        return E.builtin_hooks[name](E, f, args, kwargs)
    fn = globals().get("b_" + name.replace(".", "__"))
    if fn is None and f.self_ is not None:
        fn = globals().get("m_" + name.replace(".", "__"))
    if fn is None:
        raise Unsupported("builtin %s" % name)
    if any(isinstance(a, tuple) for a in args) and name not in ("object.__init__", "list.__init__"):
        raise Unsupported("star argument to builtin %s" % name)
    return fn(E, f.self_, args, kwargs)


# ---------------------------------------------------------------- functions
def b_len(E, s, a, k):
    return E.len_(a[0])


def b_range(E, s, a, k):
    xs = [E.as_int(x) for x in a]
    if len(xs) == 1:
        lo, hi, st = IntVal(0), xs[0], 1
    else:
        lo, hi = xs[0], xs[1]
        st = 1
        if len(xs) == 3:
            st = conc(xs[2])
            if st not in (1, -1):
                raise Unsupported("range step")
    d = simplify(hi - lo) if st == 1 else simplify(lo - hi)
    c = conc(d)
    n = IntVal(max(c, 0)) if c is not None else If(d > 0, d, IntVal(0))
    if c is not None and conc(lo) is not None and c <= 10:
        return View(n, lambda i: IntV(simplify(lo + i * st)), tag="static")
    return View(n, lambda i: IntV(simplify(lo + i * st)), tag=("range", lo, st))


def b_zip(E, s, a, k):
    ws = [E.consume(x) for x in a]

    def n():
        r = ws[0].n()
        for w in ws[1:]:
            m = w.n()
            r = If(r <= m, r, m)
        return simplify(r)
    live = any(w.live for w in ws)
    return View(n, lambda i: TupV([w.at(i) for w in ws]), live=live)


def b_enumerate(E, s, a, k):
    w = E.consume(a[0])
    st = E.as_int(a[1]) if len(a) > 1 else (E.as_int(k["start"]) if "start" in k else IntVal(0))
    return View(lambda: w.n(), lambda i: TupV([IntV(simplify(st + i)), w.at(i)]), live=w.live, tag="static" if w.tag == "static" else None)


def b_reversed(E, s, a, k):
    w = E.consume(a[0])
    n = w.n()
    return View(n, lambda i: w.at(simplify(n - 1 - i)), tag="static" if w.tag == "static" else None)


def b_map(E, s, a, k):
    if len(a) != 2:
        raise Unsupported("map with several iterables")
    fn, w = a[0], E.consume(a[1])
    if w.tag == "static":
        return IterV(E.view(E.list_of([E.call(fn, [w.at(IntVal(j))], {}) for j in range(conc(w.n()))])))
    return IterV(E.view(E.map_list(w, lambda x: E.call(fn, [x], {}))))


def b_filter(E, s, a, k):
    fn, w = a
    w = E.consume(w)
    cond = (lambda x: x) if isinstance(fn, NoneT) else (lambda x: E.call(fn, [x], {}))
    l = E.filter_list(w, cond, lambda x: x)
    return IterV(E.view(l))


def b_none_ne(E, s, a, k):
    return BoolV(Not(E.identical(a[0], NONE)))


def b_list(E, s, a, k):
    if not a:
        return E.new_list()
    return E.to_list(a[0])


def b_tuple(E, s, a, k):
    if not a:
        return TupV([])
    if isinstance(a[0], TupV):
        return a[0]
    w = E.consume(a[0])
    c = conc(w.n())
    if c is not None and c <= 10:
        return TupV([w.at(IntVal(j)) for j in range(c)])
    if isinstance(a[0], View):
        return a[0]
    raise Unsupported("tuple()")


def b_set(E, s, a, k):
    if not a:
        return E.new_set()
    return E.set_of(a[0])


b_frozenset = b_set


def b_dict(E, s, a, k):
    if not a:
        d = E.new_dict()
    else:
        src = a[0]
        if isinstance(src, AnyV):
            src = E.resolve(src)
        if isinstance(src, RefV) and "dict" in E.prog.mro(src.kind):
            d = E.new_dict()
            for c in ("D.dom", "D.map", "D.n", "D.key"):
                E.hput(c, d.t, E.hget(c, src.t))
        else:
            d = dict_from_pairs(E, src)
    for kk, v in k.items():
        if kk == "**":
            dict_update(E, d, v)
        else:
            E.dict_set(d, E.const(kk), v)
    return d


def dict_from_pairs(E, src):
    w = E.consume(src)
    c = conc(w.n())
    if c is not None and c <= 10:
        d = E.new_dict()
        for j in range(c):
            kv = E.unpack(w.at(IntVal(j)), 2)
            E.dict_set(d, kv[0], kv[1])
        return d
    # pairs are materialised; requires distinct keys to be described exactly, otherwise the last one wins
    kk = E.map_list(w, lambda x: E.unpack(x, 2)[0])
    vv = E.map_list(w, lambda x: E.unpack(x, 2)[1])
    return dict_from_lists(E, kk, vv)


def dict_from_lists(E, kk, vv):
    n = E.llen(kk)
    d = E.new_dict()
    dom, mp, key = E.fresh("dcdom", VB), E.fresh("dcmap", VV), E.fresh("dckey", IV)
    cnt = E.fresh("dcn", I)
    ke, ve = E.hget("L.el", kk.t), E.hget("L.el", vv.t)
    last = E.fresh_fn("dclast", Val, I)
    j, x = Int("j"), Const("x", Val)
    E.assume(cnt >= 0, cnt <= n)
    E.assume(FA([j], Implies(And(0 <= j, j < n), And(Select(dom, Select(ke, j)), last(Select(ke, j)) >= j)), [Select(ke, j)]))
    E.assume(FA([x], Implies(Select(dom, x), And(0 <= last(x), last(x) < n, Select(ke, last(x)) == x, Select(mp, x) == Select(ve, last(x)))),
                [Select(dom, x)]))
    E.assume(FA([x], Implies(Select(dom, x), And(0 <= last(x), last(x) < n, Select(ke, last(x)) == x, Select(mp, x) == Select(ve, last(x)))),
                [Select(mp, x)]))
    a, b = Ints("a b")
    distinct = FA([a, b], Implies(And(0 <= a, a < b, b < n), Select(ke, a) != Select(ke, b)), [(Select(ke, a), Select(ke, b))])
    E.assume(Implies(distinct, And(cnt == n, FA([j], Implies(And(0 <= j, j < n), Select(key, j) == Select(ke, j)), [Select(key, j)]))))
    E.hput("D.dom", d.t, dom)
    E.hput("D.map", d.t, mp)
    E.hput("D.n", d.t, cnt)
    E.hput("D.key", d.t, key)
    E.last_dict = (kk, vv, last)
    E.last_dict_ref = d.t
    return d


def b_defaultdict(E, s, a, k):
    d = E.new_dict()
    E.defaults = getattr(E, "defaults", {})
    E.closures.append(a[0])
    E.dd = getattr(E, "dd", [])
    E.dd.append((d.t, a[0]))
    return d


def b_deque(E, s, a, k):
    if a:
        l = E.to_list(a[0], "deque")
    else:
        l = E.new_list(kind="deque")
    E.hput("L.lo", l.t, IntVal(0))
    return l


def b_sorted(E, s, a, k):
    key = k.get("key")
    if isinstance(key, NoneT):
        key = None
    if "reverse" in k:
        raise Unsupported("reverse sort")
    return E.sorted_list(E.to_list(a[0]), key)


def minmax(E, a, k, ismin):
    if "key" in k:
        raise Unsupported("min/max key")
    if len(a) == 1:
        v = a[0]
        if isinstance(v, TupV):
            return minmax(E, v.items, k, ismin)
        w = E.consume(v)
        n = w.n()
        c = conc(n)
        if c is not None and 0 < c <= 6:
            return minmax(E, [w.at(IntVal(j)) for j in range(c)], {}, ismin)
        if not E.choose(n > 0, "nonempty"):
            if "default" in k:
                return k["default"]
            raise PyExc("ValueError")
        l = E.to_list(w)
        el = E.hget("L.el", l.t)
        r, wit, j = E.fresh("minmax", I), E.fresh("mmwit", I), Int("j")
        E.assume(0 <= wit, wit < n, Select(el, wit) == Val.vint(r))
        E.assume(FA([j], Implies(And(0 <= j, j < n), (r <= Val.i(Select(el, j))) if ismin else (r >= Val.i(Select(el, j)))), [Select(el, j)]))
        return IntV(r)
    if all(isinstance(x, (IntV, BoolV, AnyV)) for x in a):
        r = E.as_int(a[0])
        for x in a[1:]:
            t = E.as_int(x)
            r = If(t < r, t, r) if ismin else If(t > r, t, r)
        return IntV(simplify(r))
    raise Unsupported("min/max")


def b_min(E, s, a, k):
    return minmax(E, a, k, True)


def b_max(E, s, a, k):
    return minmax(E, a, k, False)


def b_sum(E, s, a, k):
    w = E.consume(a[0])
    n = w.n()
    c = conc(n)
    if c is not None and c <= 10:
        r = IntVal(0)
        for j in range(c):
            r = r + E.as_int(w.at(IntVal(j)))
        return IntV(simplify(r))
    # sum of ones is the length
    i = E.fresh("sumi", I)
    npc = len(E.pc)
    v = w.at(i)
    cv = conc(v.t) if isinstance(v, IntV) else None
    if cv is not None:
        del E.pc[npc:]
        return IntV(n * cv)
    if isinstance(v, AnyV):
        s_ = Solver()
        s_.set("timeout", 500)
        for f in E.pc:
            s_.add(f)
        s_.add(0 <= i, i < n, v.t != Val.vint(1))
        if s_.check() == unsat:
            del E.pc[npc:]
            return IntV(n)
        s_ = Solver()
        s_.set("timeout", 500)
        for f in E.pc:
            s_.add(f)
        s_.add(0 <= i, i < n, Not(And(Val.is_vint(v.t), Val.i(v.t) >= 0)))
        if s_.check() == unsat:
            del E.pc[npc:]
            tot = E.fresh("sum", I)
            l = E.to_list(w)
            el = E.hget("L.el", l.t)
            j = Int("j")
            E.assume(tot >= 0)
            E.assume(FA([j], Implies(And(0 <= j, j < n), tot >= Val.i(Select(el, j))), [Select(el, j)]))
            wit = E.fresh("sumwit", I)
            E.assume(Implies(tot > 0, And(0 <= wit, wit < n, Val.i(Select(el, wit)) > 0)))
            return IntV(tot)
    raise Unsupported("sum")


def quant(E, a, isall):
    w = E.consume(a[0])
    n = w.n()
    c = conc(n)
    if c is not None and c <= 10:
        for j in range(c):
            t = E.branch(w.at(IntVal(j)))
            if isall and not t:
                return BoolV(False)
            if not isall and t:
                return BoolV(True)
        return BoolV(isall)
    i, n, vals, su = E.comp_eval(w, lambda x: BoolV(E.truth(x)))
    cases = su(Or([And(c + [v.t]) for c, v in vals])) if vals else BoolVal(False)
    b = E.fresh("quant", B)
    wit = E.fresh("qwit", I)
    pt = E._elem_pattern(w, i)
    if isall:
        E.assume(Implies(b, FA([i], Implies(And(0 <= i, i < n), cases), [pt] if pt is not None else None)))
        E.assume(Implies(Not(b), And(0 <= wit, wit < n, Not(substitute(cases, (i, wit))))))
    else:
        E.assume(Implies(Not(b), FA([i], Implies(And(0 <= i, i < n), Not(cases)), [pt] if pt is not None else None)))
        E.assume(Implies(b, And(0 <= wit, wit < n, substitute(cases, (i, wit)))))
    return BoolV(b)


def b_all(E, s, a, k):
    return quant(E, a, True)


def b_any(E, s, a, k):
    return quant(E, a, False)


def b_iter(E, s, a, k):
    v = a[0]
    if isinstance(v, IterV):
        return v
    if isinstance(v, View) and v.oneshot:
        return v
    if isinstance(v, (IntV, BoolV, NoneT, FltV, RealV)):
        raise PyExc("TypeError")
    return IterV(E.view(v))


def b_next(E, s, a, k):
    it = a[0]
    if isinstance(it, GenV):
        it = IterV(E.run_gen(it))
    if isinstance(it, View):
        it = IterV(it)
    if not isinstance(it, IterV):
        if isinstance(it, RefV) and it.kind in getattr(E, "next_hooks", {}):
            try:
                return E.next_hooks[it.kind](E, it)
            except PyExc as e:
                if e.kind == "StopIteration" and len(a) > 1:
                    return a[1]
                raise
        if isinstance(it, RefV):
            m = E.prog.find_method(it.kind, "__next__")
            if m:
                try:
                    return E.call(FnV(m, None, it), [], {})
                except PyExc as e:
                    if e.kind == "StopIteration" and len(a) > 1:
                        return a[1]
                    raise
        raise Unsupported("next on %s" % type(it).__name__)
    w = it.view
    if E.choose(it.pos < w.n(), "next"):
        if E.loopstack:
            raise Unsupported("iterator advanced inside a loop")
        v = w.at(it.pos)
        it.pos = simplify(it.pos + 1)
        return v
    if len(a) > 1:
        return a[1]
    raise PyExc("StopIteration")


def b_int(E, s, a, k):
    if not a:
        return IntV(0)
    v = a[0]
    if isinstance(v, AnyV):
        v = E.resolve(v)
    if isinstance(v, (IntV, BoolV)):
        return IntV(E.as_int(v))
    if isinstance(v, RealV):
        # truncation towards zero
        r = E.fresh("trunc", I)
        E.assume(Implies(v.t >= 0, And(ToReal(r) <= v.t, v.t < ToReal(r) + 1)))
        E.assume(Implies(v.t < 0, And(ToReal(r) >= v.t, v.t > ToReal(r) - 1)))
        return IntV(r)
    if isinstance(v, RefV):
        m = E.prog.find_method(v.kind, "__int__")
        if m:
            return E.call(FnV(m, None, v), [], {})
        raise PyExc("TypeError")
    if isinstance(v, (StrV, FltV)):
        if E.choose(E.fresh("intok", B)):
            return IntV(int_of(E.to_val(v)))
        raise PyExc("ValueError")
    raise PyExc("TypeError")


def b_str(E, s, a, k):
    if not a:
        return E.const("")
    v = a[0]
    if isinstance(v, AnyV):
        if E.choose(Val.is_vstr(v.t)):
            return StrV(Val.s(v.t))
        return StrV(to_str(v.t))
    if isinstance(v, StrV):
        return v
    if isinstance(v, RefV):
        m = E.prog.find_method(v.kind, "__str__")
        if m:
            return E.call(FnV(m, None, v), [], {})
    return StrV(to_str(E.to_val(v)))


def b_repr(E, s, a, k):
    return StrV(E.fresh("repr", Sq))


def b_bool(E, s, a, k):
    return BoolV(simplify(E.truth(a[0]))) if a else BoolV(False)


def b_float(E, s, a, k):
    v = a[0]
    if isinstance(v, AnyV):
        v = E.resolve(v)
    if isinstance(v, FltV):
        return v
    if isinstance(v, (IntV, BoolV)):
        return FltV(flt_of_int(E.as_int(v)))
    if isinstance(v, RealV):
        return v
    if isinstance(v, StrV):
        raise PyExc("ValueError")
    raise PyExc("TypeError")


def b_bytes(E, s, a, k):
    v = a[0]
    if isinstance(v, AnyV):
        v = E.resolve(v)
    if isinstance(v, BytV):
        return v
    if isinstance(v, RefV) and v.kind == "bytearray":
        return BytV(E.hget("F.#bytes", v.t))
    if isinstance(v, RefV) and v.kind == "list":
        n = conc(E.llen(v))
        if n == 1:
            x = E.as_int(E.lel(v, IntVal(0)))
            if not E.choose(And(0 <= x, x < 256)):
                raise PyExc("ValueError")
            r = E.fresh("byte", Sq)
            E.assume(sq_len(r) == 1, sq_at(r, 0) == x)
            return BytV(r)
    raise Unsupported("bytes()")


def b_bytearray(E, s, a, k):
    r = E.alloc("bytearray")
    if not a:
        E.hput("F.#bytes", r, sq_empty)
    else:
        n = E.as_int(a[0])
        if not E.choose(n >= 0):
            raise PyExc("ValueError")
        z = E.fresh("zeros", Sq)
        E.assume(sq_len(z) == n)
        E.hput("F.#bytes", r, z)
    return RefV(r, "bytearray")


def b_abs(E, s, a, k):
    t = E.as_int(a[0])
    return IntV(If(t < 0, -t, t))


def b_id(E, s, a, k):
    return IntV(E.force_ref(a[0]).t)


def b_hash(E, s, a, k):
    return IntV(E.fresh("hash", I))


def b_type(E, s, a, k):
    raise Unsupported("type()")


def b_print(E, s, a, k):
    return NONE


def b_callable(E, s, a, k):
    v = a[0]
    if isinstance(v, (FnV, ClsV, BuiltinV, OpaqueFn)):
        return BoolV(True)
    if isinstance(v, RefV):
        return BoolV(E.prog.find_method(v.kind, "__call__") is not None) if v.kind != "object" else BoolV(E.fresh("callable", B))
    if isinstance(v, AnyV):
        h = getattr(E, "callable_hook", None)
        if h:
            return h(E, v)
        return BoolV(E.fresh("callable", B))
    return BoolV(False)


def b_isinstance(E, s, a, k):
    v, c = a
    if isinstance(c, TupV):
        r = [b_isinstance(E, s, [v, x], k).t for x in c.items]
        return BoolV(simplify(Or(r)))
    name = c.name if isinstance(c, (ClsV, BuiltinV)) else None
    if name is None:
        raise Unsupported("isinstance with a dynamic class")
    name = name.split(".")[-1]
    return BoolV(simplify(isinst(E, v, name)))


def isinst(E, v, name):
    T, F_ = BoolVal(True), BoolVal(False)
    if is_chaos(v):
        return E.fresh("chaosis", B)
    if isinstance(v, AnyV):
        t = v.t
        if name == "int":
            return Or(Val.is_vint(t), Val.is_vbool(t))
        if name == "str":
            return Val.is_vstr(t)
        if name == "bool":
            return Val.is_vbool(t)
        if name == "float":
            return Val.is_vflt(t)
        if name == "bytes":
            return Val.is_vbyt(t)
        if name == "tuple":
            return Or(Val.is_vt2(t), Val.is_vt3(t))
        if name == "slice":
            return F_
        if name in E.prog.class_ids:
            return And(Val.is_vref(t), E.is_cls(Val.r(t), name))
        if name in ("IOBase", "RawIOBase"):
            return And(Val.is_vref(t), E.fresh("isio", B))
        raise Unsupported("isinstance %s" % name)
    if isinstance(v, BoolV):
        return BoolVal(name in ("bool", "int", "object"))
    if isinstance(v, IntV):
        return BoolVal(name in ("int", "object"))
    if isinstance(v, StrV):
        return BoolVal(name in ("str", "object"))
    if isinstance(v, BytV):
        return BoolVal(name in ("bytes", "object"))
    if isinstance(v, (FltV, RealV)):
        return BoolVal(name in ("float", "object"))
    if isinstance(v, TupV):
        return BoolVal(name in ("tuple", "object"))
    if isinstance(v, SliceV):
        return BoolVal(name in ("slice", "object"))
    if isinstance(v, NoneT):
        return BoolVal(name in ("NoneType", "object"))
    if isinstance(v, RefV):
        if name in PYTYPES - {"list", "dict", "set"} or name in ("slice",):
            return F_
        if name in ("IOBase", "RawIOBase") and name not in E.prog.class_ids:
            h = getattr(E, "io_hook", None)
            return BoolVal(v.kind in ("BytesIO", "_BoundaryWriter", "_BoundaryReader")) if v.kind != "object" else BoolVal(False)
        if name not in E.prog.class_ids:
            return F_
        if v.kind != "object" and v.kind in E.prog.subclasses(name):
            return T
        if v.kind != "object" and name not in E.prog.subclasses(v.kind):
            # could a common subclass exist?
            if not set(E.prog.subclasses(name)) & set(E.prog.subclasses(v.kind)):
                return F_
        return E.is_cls(v.t, name)
    if isinstance(v, (StaticDict,)):
        return BoolVal(name == "dict")
    if isinstance(v, View):
        return BoolVal(name in ("list", "tuple")) if v.tag == "tuple" else F_
    return F_


def b_object____init__(E, s, a, k):
    return NONE


def b_list____init__(E, s, a, k):
    obj = a[0] if s is None else s
    rest = a[1:] if s is None else a
    if rest and isinstance(rest[0], tuple) and rest[0][0] == "*view":
        raise Unsupported("star args to list")
    if rest:
        l = E.to_list(rest[0])
        E.hput("L.len", obj.t, E.hget("L.len", l.t))
        E.hput("L.el", obj.t, E.hget("L.el", l.t))
    else:
        E.hput("L.len", obj.t, IntVal(0))
    return NONE


def b_list____getitem__(E, s, a, k):
    obj, ix = (a if s is None else [s] + a)
    return raw_getitem(E, obj, ix)


def b_list____iter__(E, s, a, k):
    obj = a[0] if s is None else s
    return IterV(View(lambda: E.llen(obj), lambda i: E.lel(obj, i), live=True, tag=("list", obj)))


def b_list____repr__(E, s, a, k):
    return StrV(E.fresh("repr", Sq))


def b_dict____init__(E, s, a, k):
    if a:
        dict_update(E, s, a[0])
    for kk, v in k.items():
        if kk == "**":
            dict_update(E, s, v)
        else:
            E.dict_set(s, E.const(kk), v)
    return NONE


def dict_update(E, d, src):
    if isinstance(src, AnyV):
        src = E.resolve(src)
    if isinstance(src, RefV) and "dict" in E.prog.mro(src.kind):
        n0 = E.hget("D.n", d.t)
        if conc(n0) == 0:
            for c in ("D.dom", "D.map", "D.n", "D.key"):
                E.hput(c, d.t, E.hget(c, src.t))
            return
        # general merge
        od, om, on, ok = [E.hget(c, d.t) for c in ("D.dom", "D.map", "D.n", "D.key")]
        sd, sm, sn, sk_ = [E.hget(c, src.t) for c in ("D.dom", "D.map", "D.n", "D.key")]
        dom, mp, key, n = E.fresh("udom", VB), E.fresh("umap", VV), E.fresh("ukey", IV), E.fresh("un", I)
        x = Const("x", Val)
        E.assume(FA([x], Select(dom, x) == Or(Select(od, x), Select(sd, x)), [Select(dom, x)]))
        E.assume(FA([x], Select(mp, x) == If(Select(sd, x), Select(sm, x), Select(om, x)), [Select(mp, x)]))
        j = Int("j")
        E.assume(n >= on, n <= on + sn)
        E.assume(FA([j], Implies(And(0 <= j, j < on), Select(key, j) == Select(ok, j)), [Select(key, j)]))
        E.assume(Implies(sn == 0, n == on))
        E.hput("D.dom", d.t, dom)
        E.hput("D.map", d.t, mp)
        E.hput("D.key", d.t, key)
        E.hput("D.n", d.t, n)
        return
    if isinstance(src, StaticDict):
        for kk, v in src.items:
            E.dict_set(d, kk, v)
        return
    raise Unsupported("dict update from %s" % type(src).__name__)


# ---------------------------------------------------------------- subscripts
def raw_getitem(E, o, ix):
    if isinstance(ix, AnyV) and not (isinstance(o, RefV) and "dict" in E.prog.mro(o.kind)):
        ix = E.resolve(ix)
    if isinstance(o, TupV):
        if isinstance(ix, (IntV, BoolV)):
            c = conc(E.as_int(ix))
            if c is None:
                n = len(o.items)
                t = E.as_int(ix)
                for j in range(n):
                    if E.choose(Or(t == j, t == j - n)):
                        return o.items[j]
                raise PyExc("IndexError")
            if not -len(o.items) <= c < len(o.items):
                raise PyExc("IndexError")
            return o.items[c]
        if isinstance(ix, SliceV):
            lo, hi = E.slice_bounds(ix, IntVal(len(o.items)))
            cl, ch = conc(lo), conc(hi)
            if cl is None or ch is None:
                raise Unsupported("tuple slice")
            return TupV(o.items[cl:ch])
        raise PyExc("TypeError")
    if isinstance(o, (StrV, BytV)):
        n = sq_len(o.t) if o.lit is None else IntVal(len(o.lit))
        if isinstance(ix, SliceV):
            lo, hi = E.slice_bounds(ix, n)
            if E.choose(lo <= hi, "slice order"):
                return type(o)(simplify(sq_slice(o.t, lo, hi)))
            return E.const("" if isinstance(o, StrV) else b"")
        if isinstance(ix, (IntV, BoolV)):
            t = E.as_int(ix)
            if not E.choose(And(-n <= t, t < n), "index in range"):
                raise PyExc("IndexError")
            p = simplify(If(t < 0, t + n, t))
            return StrV(sq_slice(o.t, p, p + 1)) if isinstance(o, StrV) else IntV(sq_at(o.t, p))
        raise PyExc("TypeError")
    if isinstance(o, StaticDict):
        for kk, v in o.items:
            if E.choose(E.eq(ix, kk), "static key"):
                return v
        raise PyExc("KeyError")
    if isinstance(o, RefV):
        mro = E.prog.mro(o.kind)
        if "list" in mro or o.kind == "deque":
            n = E.llen(o)
            if isinstance(ix, SliceV):
                lo, hi = E.slice_bounds(ix, n)
                ln = simplify(If(hi > lo, hi - lo, IntVal(0)))
                el = E.fresh("slice", IV)
                j = Int("j")
                src = E.hget("L.el", o.t)
                E.assume(FA([j], Implies(And(0 <= j, j < ln), Select(el, j) == Select(src, lo + j)), [Select(el, j)]))
                return E.new_list(ln, el)
            if not isinstance(ix, (IntV, BoolV)):
                raise PyExc("TypeError")
            t = E.as_int(ix)
            if not E.choose(And(-n <= t, t < n), "index in range"):
                raise PyExc("IndexError")
            p = t if conc(t) is not None and conc(t) >= 0 else simplify(If(t < 0, t + n, t))
            return E.lel(o, p)
        if "dict" in mro:
            if not E.choose(E.dict_has(o, ix), "key present"):
                for dt, fac in getattr(E, "dd", []):
                    if dt.eq(o.t):
                        v = E.call(fac, [], {})
                        E.dict_set(o, ix, v)
                        return v
                raise PyExc("KeyError")
            return E.dict_get(o, ix)
        if o.kind == "bytearray":
            return raw_getitem(E, BytV(E.hget("F.#bytes", o.t)), ix)
        raise Unsupported("subscript of %s" % o.kind)
    if isinstance(o, NoneT):
        raise PyExc("TypeError")
    if isinstance(o, View):
        t = E.as_int(ix)
        n = o.n()
        if not E.choose(And(-n <= t, t < n), "index in range"):
            raise PyExc("IndexError")
        return o.at(simplify(If(t < 0, t + n, t)))
    raise Unsupported("subscript of %s" % type(o).__name__)


def raw_setitem(E, o, ix, v):
    if isinstance(ix, AnyV) and not (isinstance(o, RefV) and "dict" in E.prog.mro(o.kind)):
        ix = E.resolve(ix)
    if isinstance(o, RefV):
        mro = E.prog.mro(o.kind)
        if "list" in mro:
            if isinstance(ix, SliceV):
                raise Unsupported("slice assignment")
            n = E.llen(o)
            t = E.as_int(ix)
            if not E.choose(And(-n <= t, t < n), "index in range"):
                raise PyExc("IndexError")
            p = simplify(If(t < 0, t + n, t))
            E.hput("L.el", o.t, Store(E.hget("L.el", o.t), p, E.to_val(v)))
            return
        if "dict" in mro:
            E.dict_set(o, ix, v)
            return
        if o.kind == "bytearray" and isinstance(ix, SliceV):
            cur = E.hget("F.#bytes", o.t)
            n = sq_len(cur)
            lo, hi = E.slice_bounds(ix, n)
            hi = simplify(If(hi < lo, lo, hi))
            src = E.force(v, BytV).t
            new = sq_cat(sq_cat(sq_slice(cur, IntVal(0), lo), src), sq_slice(cur, hi, n))
            E.hput("F.#bytes", o.t, new)
            return
    raise Unsupported("item assignment")


def raw_delitem(E, o, ix):
    if isinstance(o, RefV):
        mro = E.prog.mro(o.kind)
        if "dict" in mro:
            E.dict_del(o, ix)
            return
        if "list" in mro and isinstance(ix, SliceV):
            n = E.llen(o)
            lo, hi = E.slice_bounds(ix, n)
            hi = simplify(If(hi < lo, lo, hi))
            if is_true(simplify(hi == n)):
                E.hput("L.len", o.t, lo)
                return
            el = E.fresh("delslice", IV)
            src = E.hget("L.el", o.t)
            j = Int("j")
            E.assume(FA([j], Implies(And(0 <= j, j < lo), Select(el, j) == Select(src, j)), [Select(el, j)]))
            E.assume(FA([j], Implies(And(lo <= j, j < n - (hi - lo)), Select(el, j) == Select(src, j + (hi - lo))), [Select(el, j)]))
            E.hput("L.el", o.t, el)
            E.hput("L.len", o.t, simplify(n - (hi - lo)))
            return
    raise Unsupported("del item")


# ---------------------------------------------------------------- methods
LIST_M = {"append", "extend", "reverse", "pop", "sort", "insert", "index", "count", "clear", "popleft", "appendleft", "copy", "remove"}
DICT_M = {"get", "items", "keys", "values", "setdefault", "update", "pop", "clear", "copy"}
SET_M = {"add", "remove", "discard", "update", "difference", "intersection", "union", "intersection_update", "difference_update",
         "clear", "pop", "issubset", "copy"}
STR_M = {"find", "isspace", "join", "split", "lower", "format", "strip", "startswith", "endswith", "encode", "decode"}
IO_M = {"write", "read", "tell", "getvalue", "getbuffer", "seek", "close"}


def builtin_method(E, o, a):
    if isinstance(o, RefV):
        mro = E.prog.mro(o.kind)
        if ("list" in mro or o.kind == "deque") and a in LIST_M:
            return BuiltinV("list." + a, o)
        if "dict" in mro and a in DICT_M:
            return BuiltinV("dict." + a, o)
        if o.kind == "set" and a in SET_M:
            return BuiltinV("set." + a, o)
        if o.kind in E_external(E):
            return BuiltinV("%s.%s" % (o.kind, a), o)
        if a == "__getitem__" and "list" in mro:
            return BuiltinV("list.__getitem__", o)
        return None
    if isinstance(o, (StrV, BytV)):
        return BuiltinV("str." + a, o)
    if isinstance(o, (StaticDict,)) and a in DICT_M:
        return BuiltinV("sdict." + a, o)
    if isinstance(o, SliceV):
        if a == "start":
            return o.lo
        if a == "stop":
            return o.hi
        if a == "step":
            return o.step
        if a == "indices":
            return BuiltinV("slice.indices", o)
    return None


def E_external(E):
    return getattr(E, "external_kinds", ())


def m_slice__indices(E, s, a, k):
    n = E.as_int(a[0])
    lo, hi = E.slice_bounds(s, n)
    return TupV([IntV(lo), IntV(hi), IntV(1)])


def m_list__append(E, s, a, k):
    n = E.llen(s)
    E.hput("L.el", s.t, Store(E.hget("L.el", s.t), n, E.to_val(a[0])))
    E.hput("L.len", s.t, simplify(n + 1))
    return NONE


def list_extend(E, s, src):
    w = E.consume(src)
    n, m = E.llen(s), w.n()
    c = conc(m)
    if c is not None and c <= 10:
        for j in range(c):
            m_list__append(E, s, [w.at(IntVal(j))], {})
        return
    l = E.to_list(w)
    sel = E.hget("L.el", l.t)
    old = E.hget("L.el", s.t)
    el = E.fresh("ext", IV)
    j = Int("j")
    E.assume(FA([j], Implies(And(0 <= j, j < n), Select(el, j) == Select(old, j)), [Select(el, j)]))
    E.assume(FA([j], Implies(And(n <= j, j < n + m), Select(el, j) == Select(sel, j - n)), [Select(el, j)]))
    E.hput("L.el", s.t, el)
    E.hput("L.len", s.t, simplify(n + m))


def m_list__extend(E, s, a, k):
    list_extend(E, s, a[0])
    return NONE


def m_list__reverse(E, s, a, k):
    n, old = E.llen(s), E.hget("L.el", s.t)
    el = E.fresh("rev", IV)
    j = Int("j")
    E.assume(FA([j], Implies(And(0 <= j, j < n), Select(el, j) == Select(old, n - 1 - j)), [Select(el, j)]))
    E.hput("L.el", s.t, el)
    return NONE


def m_list__pop(E, s, a, k):
    if a and not (isinstance(a[0], IntV) and conc(a[0].t) == -1):
        raise Unsupported("pop(index)")
    n = E.llen(s)
    lo = E.hget("L.lo", s.t) if s.kind == "deque" else IntVal(0)
    if not E.choose(n > lo, "pop nonempty"):
        raise PyExc("IndexError")
    v = E.lel(s, simplify(n - 1))
    E.hput("L.len", s.t, simplify(n - 1))
    return v


def m_list__popleft(E, s, a, k):
    n, lo = E.llen(s), E.hget("L.lo", s.t)
    if not E.choose(n > lo, "pop nonempty"):
        raise PyExc("IndexError")
    v = E.lel(s, lo)
    E.hput("L.lo", s.t, simplify(lo + 1))
    return v


def m_list__sort(E, s, a, k):
    key = k.get("key")
    if isinstance(key, NoneT):
        key = None
    r = E.sorted_list(s, key)
    E.hput("L.el", s.t, E.hget("L.el", r.t))
    return NONE


def m_list__copy(E, s, a, k):
    return E.to_list(s)


def m_list__clear(E, s, a, k):
    E.hput("L.len", s.t, IntVal(0))
    return NONE


def m_dict__get(E, s, a, k):
    d = a[1] if len(a) > 1 else NONE
    if E.choose(E.dict_has(s, a[0]), "key present"):
        return E.dict_get(s, a[0])
    return d


def b_Node__get(E, s, a, k):
    return m_dict__get(E, a[0], a[1:], k)


def m_dict__setdefault(E, s, a, k):
    if E.choose(E.dict_has(s, a[0]), "key present"):
        return E.dict_get(s, a[0])
    d = a[1] if len(a) > 1 else NONE
    E.dict_set(s, a[0], d)
    return d


def m_dict__items(E, s, a, k):
    return E.dict_view(s, "items")


def m_dict__keys(E, s, a, k):
    return E.dict_view(s, "keys")


def m_dict__values(E, s, a, k):
    return E.dict_view(s, "values")


def m_dict__update(E, s, a, k):
    if a:
        dict_update(E, s, a[0])
    for kk, v in k.items():
        if kk == "**":
            dict_update(E, s, v)
        else:
            E.dict_set(s, E.const(kk), v)
    return NONE


def m_sdict__get(E, s, a, k):
    for kk, v in s.items:
        if E.choose(E.eq(a[0], kk), "static key"):
            return v
    return a[1] if len(a) > 1 else NONE


def m_sdict__items(E, s, a, k):
    return TupV([TupV([x, y]) for x, y in s.items])


def m_set__add(E, s, a, k):
    E.hput("S.mem", s.t, Store(E.hget("S.mem", s.t), E.to_key(a[0]), BoolVal(True)))
    return NONE


def m_set__remove(E, s, a, k):
    if not E.choose(E.set_has(s, a[0]), "in set"):
        raise PyExc("KeyError")
    E.hput("S.mem", s.t, Store(E.hget("S.mem", s.t), E.to_key(a[0]), BoolVal(False)))
    return NONE


def m_set__discard(E, s, a, k):
    E.hput("S.mem", s.t, Store(E.hget("S.mem", s.t), E.to_key(a[0]), BoolVal(False)))
    return NONE


def set_op(E, x, y, op):
    r = E.new_set()
    xm, ym = E.hget("S.mem", x.t), E.hget("S.mem", y.t)
    m = E.fresh("setop", VB)
    v_ = Const("x", Val)
    g = {"difference": And(Select(xm, v_), Not(Select(ym, v_))), "intersection": And(Select(xm, v_), Select(ym, v_)),
         "union": Or(Select(xm, v_), Select(ym, v_))}[op]
    E.assume(FA([v_], Select(m, v_) == g, [Select(m, v_)]))
    E.last_setop = m
    E.hput("S.mem", r.t, m)
    return r


def as_set(E, v):
    return v if isinstance(v, RefV) and v.kind == "set" else E.set_of(v)


def m_set__difference(E, s, a, k):
    return set_op(E, s, as_set(E, a[0]), "difference")


def m_set__intersection(E, s, a, k):
    return set_op(E, s, as_set(E, a[0]), "intersection")


def m_set__union(E, s, a, k):
    return set_op(E, s, as_set(E, a[0]), "union")


def m_set__intersection_update(E, s, a, k):
    r = set_op(E, s, as_set(E, a[0]), "intersection")
    E.hput("S.mem", s.t, E.hget("S.mem", r.t))
    return NONE


def m_set__update(E, s, a, k):
    r = set_op(E, s, as_set(E, a[0]), "union")
    E.hput("S.mem", s.t, E.hget("S.mem", r.t))
    return NONE


def b_str__isspace(E, s, a, k):
    v = a[0] if s is None else s
    v = E.force(v, StrV)
    # a one character string is blank iff its character is
    return BoolV(isspace_s(v.t))


m_str__isspace = b_str__isspace


def m_str__find(E, s, a, k):
    sub = E.force(a[0], StrV).t
    n = sq_len(s.t)
    sl = SliceV(a[1] if len(a) > 1 else NONE, a[2] if len(a) > 2 else NONE, NONE)
    # start beyond the end finds nothing, even the empty string
    if len(a) > 1 and not isinstance(a[1], NoneT):
        st = E.as_int(a[1])
        if not E.choose(st <= n, "start within"):
            return IntV(-1)
    lo, hi = E.slice_bounds(sl, n)
    r = E.fresh("find", I)
    E.assume(r == sq_find(s.t, sub, lo, hi))
    return IntV(r)


def m_str__join(E, s, a, k):
    l = E.to_list(a[0]) if not (isinstance(a[0], RefV) and E.is_listlike(a[0])) else a[0]
    n, el = E.llen(l), E.hget("L.el", l.t)
    if s.lit == "":
        return StrV(sq_join(el, n))
    return StrV(E.fresh("joined", Sq))


def m_str__format(E, s, a, k):
    if s.lit is not None and not k:
        out, auto = [], 0
        for p in re.split(r"(\{\d*\})", s.lit):
            if re.fullmatch(r"\{\d*\}", p):
                j = int(p[1:-1]) if len(p) > 2 else auto
                auto += 1
                if j >= len(a):
                    raise PyExc("IndexError")
                out.append(a[j])
            elif "{" in p or "}" in p:
                break
            else:
                out.append(p)
        else:
            return E.format_parts(out)
    return StrV(E.fresh("fmt", Sq))


def m_str__lower(E, s, a, k):
    return StrV(E.fresh("lower", Sq))


SPACE_AXIOMS = [
    FA([s], Implies(sq_len(s) == 1, isspace_s(s) == isspace1(sq_at(s, 0))), [isspace_s(s)]),
    Not(isspace_s(sq_empty)),
]
