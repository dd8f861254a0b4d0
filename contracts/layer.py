"""Layer representation invariant, counting lemmas and symbolic layers."""
from .common import *

R = lambda v: Val.r(v)
VR = lambda r: Val.vref(r)


def nn(v):
    return If(v == none, IntVal(0), IntVal(1))


_A, _B2 = Const("A", IV), Const("B", IV)
_i, _j, _n, _a, _b = Ints("i j n a b")
_v = Const("v", Val)

CNT_AXIOMS = [
    FA([_A, _n], Implies(_n <= 0, cntnn(_A, _n) == 0), [cntnn(_A, _n)]),
    FA([_A, _n], Implies(_n >= 0, And(0 <= cntnn(_A, _n), cntnn(_A, _n) <= _n)), [cntnn(_A, _n)]),
    FA([_A, _i, _v, _n], Implies(And(0 <= _i, _i < _n), cntnn(Store(_A, _i, _v), _n) == cntnn(_A, _n) + nn(_v) - nn(Select(_A, _i))),
       [cntnn(Store(_A, _i, _v), _n)]),
    FA([_A, _i, _v, _n], Implies(Or(_i < 0, _i >= _n), cntnn(Store(_A, _i, _v), _n) == cntnn(_A, _n)), [cntnn(Store(_A, _i, _v), _n)]),
    FA([_A, _a, _b], Implies(And(0 <= _a, _a <= _b), And(cntnn(_A, _a) <= cntnn(_A, _b), cntnn(_A, _b) - cntnn(_A, _a) <= _b - _a)),
       [(cntnn(_A, _a), cntnn(_A, _b))]),
    FA([_A, _a, _b], Implies(And(0 <= _a, _a < _b, Select(_A, _a) != none), cntnn(_A, _a) < cntnn(_A, _b)), [(cntnn(_A, _a), cntnn(_A, _b))]),
    FA([_A, _i, _n], Implies(And(0 <= _i, _i < _n, Select(_A, _i) != none), cntnn(_A, _n) >= 1), [(cntnn(_A, _n), Select(_A, _i))]),
    FA([_A, _i, _n], Implies(And(0 <= _i, _i < _n, Select(_A, _i) == none), cntnn(_A, _n) < _n), [(cntnn(_A, _n), Select(_A, _i))]),
]


def unfold(A, k):
    """definition of cntnn at k (k >= 0)"""
    return Implies(k >= 0, cntnn(A, k + 1) == cntnn(A, k) + nn(Select(A, k)))


def congr(A, B, n):
    """cntnn only depends on which of the first n entries are None (lemma, proved by induction in the lemma units)"""
    q = Int("q")
    return Implies(FA([q], Implies(And(0 <= q, q < n), (Select(A, q) == none) == (Select(B, q) == none)), [Select(A, q)]),
                   cntnn(A, n) == cntnn(B, n))


def lemma_units(prop):
    """the counting lemmas used as axioms above, each proved by induction from the recursive definition"""
    c = Function("cnt_def", IV, I, I)

    def step(A, k):
        return Implies(k >= 0, c(A, k + 1) == c(A, k) + nn(Select(A, k)))

    def base(A, k):
        return Implies(k <= 0, c(A, k) == 0)

    def induct(E, name, P, A, extra=()):
        k = E.fresh("k", I)
        E.check(name + " (base)", Implies(And([base(x, IntVal(0)) for x in A]), P(IntVal(0))))
        E.check(name + " (step)", Implies(And([k >= 0, P(k)] + [step(x, k) for x in A] + [base(x, IntVal(0)) for x in A] + list(extra)), P(k + 1)))

    @unit(prop, "lemmas on counting attached nodes", [])
    def _(E):
        A = E.fresh("A", IV)
        Bb = E.fresh("B", IV)
        i, a = E.fresh("i", I), E.fresh("a", I)
        v = E.fresh("v", Val)
        induct(E, "0 <= cnt <= n", lambda n: And(0 <= c(A, n), c(A, n) <= n), [A])
        S = Store(A, i, v)
        # the definition at Store(A,i,v) and at A
        induct(E, "update inside / outside", lambda n: And(Implies(And(0 <= i, i < n), c(S, n) == c(A, n) + nn(v) - nn(Select(A, i))),
                                                       Implies(Or(i < 0, i >= n), c(S, n) == c(A, n))), [A, S])
        k = E.fresh("k", I)
        mono = lambda n: Implies(And(0 <= a, a <= n), And(c(A, a) <= c(A, n), c(A, n) - c(A, a) <= n - a))
        E.check("monotone (base)", Implies(base(A, IntVal(0)), mono(IntVal(0))))
        E.check("monotone (step)", Implies(And(k >= 0, mono(k), step(A, k), step(A, a)), mono(k + 1)))
        strict = lambda n: Implies(And(0 <= a, a < n, Select(A, a) != none), c(A, a) < c(A, n))
        E.check("strictly monotone (base)", strict(IntVal(0)))
        E.check("strictly monotone (step)", Implies(And(k >= 0, strict(k), step(A, k), mono(k)), strict(k + 1)))
        one = lambda n: Implies(And(0 <= i, i < n, Select(A, i) != none), c(A, n) >= 1)
        E.check("positive (base)", one(IntVal(0)))
        E.check("positive (step)", Implies(And(k >= 0, one(k), step(A, k), c(A, k) >= 0), one(k + 1)))
        less = lambda n: Implies(And(0 <= i, i < n, Select(A, i) == none), c(A, n) < n)
        E.check("gap (base)", less(IntVal(0)))
        E.check("gap (step)", Implies(And(k >= 0, less(k), step(A, k), c(A, k) <= k), less(k + 1)))
        q = Int("q")
        same = lambda n: FA([q], Implies(And(0 <= q, q < n), (Select(A, q) == none) == (Select(Bb, q) == none)), [Select(A, q)])
        cg = lambda n: Implies(same(n), c(A, n) == c(Bb, n))
        E.check("congruence (base)", Implies(And(base(A, IntVal(0)), base(Bb, IntVal(0))), cg(IntVal(0))))
        E.check("congruence (step)", Implies(And(k >= 0, cg(k), step(A, k), step(Bb, k)), cg(k + 1)))
        full = lambda n: Implies(FA([q], Implies(And(0 <= q, q < n), Select(A, q) != none), [Select(A, q)]), c(A, n) == n)
        E.check("full (base)", Implies(base(A, IntVal(0)), full(IntVal(0))))
        E.check("full (step)", Implies(And(k >= 0, full(k), step(A, k)), full(k + 1)))
        # an order preserving enumeration of the non-None positions has cnt elements
        f, g = E.fresh_fn("f", I, I), E.fresh_fn("g", I, I)
        n, m = E.fresh("n", I), E.fresh("m", I)
        j, l = Ints("j l")
        E.assume(0 <= n, 0 <= m)
        E.assume(FA([j], Implies(And(0 <= j, j < m), And(0 <= f(j), f(j) < n, Select(A, f(j)) != none)), [f(j)]))
        E.assume(FA([j], Implies(And(0 <= j, j < n, Select(A, j) != none), And(0 <= g(j), g(j) < m, f(g(j)) == j)), [g(j)]))
        E.assume(FA([j, l], Implies(And(0 <= j, j < l, l < m), f(j) < f(l)), [(f(j), f(l))]))
        cc = lambda k: c(A, k)
        PP = lambda k: And(0 <= cc(k), cc(k) <= m, FA([j], Implies(And(0 <= j, j < cc(k)), f(j) < k), [f(j)]),
                           FA([j], Implies(And(cc(k) <= j, j < m), f(j) >= k), [f(j)]))
        E.check("enumeration (base)", Implies(base(A, IntVal(0)), PP(IntVal(0))))
        E.check("enumeration (step)", Implies(And(0 <= k, k < n, PP(k), step(A, k), seen(g(k)), seen(f(cc(k))), seen(f(g(k)))), PP(k + 1)))
        E.check("enumeration (rank)", Implies(And(0 <= k, k < n, PP(k), PP(k + 1), step(A, k), Select(A, k) != none, seen(g(k)), seen(f(cc(k))), seen(f(g(k)))), g(k) == cc(k)))
        E.check("enumeration (conclusion)", Implies(And(PP(n), seen(f(cc(n)))), cc(n) == m))


def enum_count(E, A, n, name="enumeration"):
    """after filter(is not None, A[0..n)): the number of kept elements is cntnn(A, n) (lemma 'enumeration')"""
    ix, rk, cnt, i, keepf, m = E.last_filter
    j = E.fresh("j", I)
    E.check("%s keeps exactly the attached nodes" % name,
            And(m == n, Implies(And(0 <= j, j < n), substitute(keepf, (i, j)) == (Select(A, j) != none))))
    E.assume(cnt == cntnn(A, n))


def enum_rank(E, A, n, x, name="enumeration"):
    """after filter(is not None, A[0..n)): the kept element x is at position cntnn(A, x) (lemma 'enumeration (rank)')"""
    ix, rk, cnt, i, keepf, m = E.last_filter
    j = E.fresh("j", I)
    E.check("%s keeps exactly the attached nodes" % name, And(m == n, Implies(And(0 <= j, j < n), substitute(keepf, (i, j)) == (Select(A, j) != none))))
    E.assume(Implies(And(0 <= x, x < n, Select(A, x) != none), rk(x) == cntnn(A, x)))


def as_node(E, v):
    """the value is a node (obligation); returns it as a node reference"""
    t = E.to_val(v)
    E.check("element is a node", And(Val.is_vref(t), E.is_cls(R(t), "Node")))
    return RefV(R(t), "Node")


def elem(L, q):
    """element q of the sequence a loop runs over, as a value"""
    t = L.E.to_val(L.view.at(q))
    if is_app(t) and t.decl().kind() == Z3_OP_SELECT and t.arg(1).eq(q):
        return Select(L.E.named(t.arg(0), "seq"), q)
    return t


# ---------------------------------------------------------------- layers
class LV:
    """view of a layer in a heap"""
    def __init__(self, E, layer, heap=None):
        h = heap or E.heap
        self.nodecls = E.prog.class_ids["Node"]
        self.h, self.t = h, layer.t if isinstance(layer, SV) else layer
        self.lst = h.sel("F._nodes", self.t)
        self.n = h.sel("L.len", self.lst)
        self.el = E.named(h.sel("L.el", self.lst), "el")
        self.IDS, self.COLL = E.named(h.term("F._id"), "ids"), E.named(h.term("F.collection"), "coll")
        self.num = h.sel("F.num", self.t)

    def id(self, x):
        return Select(self.IDS, x)

    def coll(self, x):
        return Select(self.COLL, x)

    def att(self, x):
        return And(cls(x) == self.nodecls, self.coll(x) == VR(self.t))


def layer_wf(E, layer, heap=None, alloc=None):
    """representation invariant as a list of named formulas"""
    v = LV(E, layer, heap)
    i, x = Int("i"), Int("x")
    e = Select(v.el, i)
    al = alloc if alloc is not None else v.h.alloc
    return [
        ("entries", And(v.n >= 0, FA([i], Implies(And(0 <= i, i < v.n, e != none),
                                                  And(Val.is_vref(e), R(e) > 0, R(e) < v.h.alloc, E.is_cls(R(e), "Node"), v.id(R(e)) == i, v.att(R(e)))), [e]))),
        ("attached nodes look themselves up", FA([x], Implies(And(0 < x, x < al, v.att(x)),
                                                              And(0 <= v.id(x), v.id(x) < v.n, Select(v.el, v.id(x)) == VR(x))), [v.coll(x)])),
        ("num counts the attached nodes", v.num == cntnn(v.el, v.n)),
    ]


def sym_layer(E, name="layer", wf=True):
    L = sym_ref(E, "NodeLayerCollection", name)
    h = E.heap
    for a, k in (("_nodes", "list"), ("_default_values", "dict"), ("_schema", "NodeLayerSchema"), ("fieldtypes", "dict")):
        t = h.sel("F." + ATTRS.key(E.prog, "NodeLayerCollection", a), L.t)
        E.assume(t > 0, t < h.alloc, E.is_cls(t, k))
    if wf:
        for nm, f in layer_wf(E, L):
            E.assume(f)
    return L


def other_layer(E, L, name="other"):
    M = sym_layer(E, name)
    h = E.heap
    E.assume(M.t != L.t, h.sel("F._nodes", M.t) != h.sel("F._nodes", L.t))
    return M


def check_wf(E, L, what=""):
    for nm, f in layer_wf(E, L):
        E.check("%sinvariant: %s" % (what, nm), f)


def check_other(E, M, old, what=""):
    """another layer is left exactly as it was"""
    a, b = LV(E, M, old), LV(E, M)
    i, x = E.fresh("i", I), E.fresh("x", I)
    E.check(what + "frame: other layer's list untouched", And(b.lst == a.lst, b.n == a.n, b.num == a.num, Implies(And(0 <= i, i < a.n), Select(b.el, i) == Select(a.el, i))))
    E.check(what + "frame: other layer's nodes stay attached with the same index",
            Implies(And(0 < x, x < old.alloc, a.att(x)), And(b.att(x), b.id(x) == a.id(x))))
    E.check(what + "frame: no node moves to another layer", Implies(And(0 < x, x < old.alloc, Not(a.att(x))), Not(b.att(x))))


def check_order(E, L, old, what=""):
    """nodes attached before and after keep their relative order"""
    a, b = LV(E, L, old), LV(E, L)
    x, y = E.fresh("x", I), E.fresh("y", I)
    E.check(what + "order of the remaining nodes is kept",
            Implies(And(0 < x, x < old.alloc, 0 < y, y < old.alloc, a.att(x), a.att(y), b.att(x), b.att(y)),
                    (b.id(x) < b.id(y)) == (a.id(x) < a.id(y))))


def compact_summary(E, args, kw):
    """contract of NodeLayerCollection.compact (proved in C02)"""
    L = args[0]
    a = LV(E, L)
    for nm, f in layer_wf(E, L):
        E.check("compact requires: " + nm, f)
    E.hput("L.el", a.lst, E.fresh("cel", IV))
    E.hput("L.len", a.lst, cntnn(a.el, a.n))
    oi, ni = E.hwild("F._id")
    b = LV(E, L)
    x, q = Ints("x q")
    E.assume(FA([x], Implies(Not(a.att(x)), Select(ni, x) == Select(oi, x)), [Select(ni, x)]))
    E.assume(FA([x], Implies(And(0 < x, x < E.heap.alloc, a.att(x)), Select(ni, x) == cntnn(a.el, Select(oi, x))), [Select(ni, x)]))
    E.assume(FA([q], Implies(And(0 <= q, q < b.n), Select(b.el, q) != none), [Select(b.el, q)]))
    y = Int("y")
    E.assume(FA([x, y], Implies(And(0 < x, x < E.heap.alloc, 0 < y, y < E.heap.alloc, a.att(x), a.att(y)), (Select(ni, x) < Select(ni, y)) == (Select(oi, x) < Select(oi, y))),
                [(Select(ni, x), Select(ni, y))]))
    for nm, f in layer_wf(E, L):
        E.assume(f)
    return NONE


class PV:
    """layer whose nodes are listed at given positions, whatever their stored index"""
    def __init__(self, E, layer, pos, heap=None):
        self.v, self.pos = LV(E, layer, heap), pos

    def wf(self, E, alloc=None):
        v = self.v
        i, x = Int("i"), Int("x")
        e = Select(v.el, i)
        al = v.h.alloc if alloc is None else alloc
        return [("entries", And(v.n >= 0, FA([i], Implies(And(0 <= i, i < v.n, e != none),
                                                          And(Val.is_vref(e), R(e) > 0, R(e) < al, E.is_cls(R(e), "Node"), self.pos(R(e)) == i, v.att(R(e)))), [e]))),
                ("attached nodes are listed", FA([x], Implies(And(0 < x, x < al, v.att(x)), And(0 <= self.pos(x), self.pos(x) < v.n, Select(v.el, self.pos(x)) == VR(x))), [v.coll(x)])),
                ("num counts the attached nodes", v.num == cntnn(v.el, v.n))]


def compact_any_summary(E, args, kw):
    """contract of NodeLayerCollection.compact for any stored indices (proved in C02); E.unit_x['pos'] gives the position of a node"""
    L = args[0]
    pos = E.unit_x["pos"]
    p = PV(E, L, pos)
    for nm, f in p.wf(E):
        E.check("compact requires: " + nm, f)
    a = p.v
    if E.choose(a.n == a.num):
        return NONE
    E.hput("L.el", a.lst, E.fresh("cel", IV))
    E.hput("L.len", a.lst, cntnn(a.el, a.n))
    oi, ni = E.hwild("F._id")
    b = LV(E, L)
    x, q = Ints("x q")
    E.assume(FA([x], Implies(Not(a.att(x)), Select(ni, x) == Select(oi, x)), [Select(ni, x)]))
    E.assume(FA([x], Implies(And(0 < x, x < E.heap.alloc, a.att(x)), Select(ni, x) == cntnn(a.el, pos(x))), [Select(ni, x)]))
    E.assume(FA([q], Implies(And(0 <= q, q < b.n), Select(b.el, q) != none), [Select(b.el, q)]))
    for nm, f in layer_wf(E, L):
        E.assume(f)
    return NONE


def iter_summary(E, args, kw):
    """contract of NodeLayerCollection.__iter__ (proved in C02): the attached nodes in index order; E.last_rank maps a node to its position"""
    L = args[0]
    v = LV(E, L)
    for nm, f in layer_wf(E, L):
        E.check("iteration requires: " + nm, f)
    arr = E.fresh("nodes", IV)
    rk = E.fresh_fn("noderank", I, I)
    j, k, x = Ints("j k x")
    n = v.num
    al = v.h.alloc
    e = Select(arr, j)
    E.assume(n >= 0, n <= v.n)
    E.assume(FA([j], Implies(And(0 <= j, j < n), And(Val.is_vref(e), R(e) > 0, R(e) < al, v.att(R(e)), rk(R(e)) == j)), [e]))
    E.assume(FA([j, k], Implies(And(0 <= j, j < k, k < n), v.id(R(Select(arr, j))) < v.id(R(Select(arr, k)))), [(e, Select(arr, k))]))
    E.assume(FA([x], Implies(And(0 < x, x < al, v.att(x)), And(0 <= rk(x), rk(x) < n, Select(arr, rk(x)) == VR(x))), [rk(x)]))
    E.assume(FA([x], Implies(And(0 < x, x < al, v.att(x)), And(0 <= rk(x), rk(x) < n, Select(arr, rk(x)) == VR(x))), [v.coll(x)]))
    E.assume(FA([x], Implies(And(0 < x, x < al, v.att(x)), rk(x) == cntnn(v.el, v.id(x))), [rk(x)]))
    E.last_rank, E.last_nodes = rk, arr

    def at(q):
        return RefV(R(Select(arr, q)), "Node")
    return IterV(View(n, at, tag=("rank", rk)))
