"""C02: layer bookkeeping survives any history of edits."""
from .layer import *

P = "C02"
Q = "model.NodeLayerCollection."
lemma_units(P)
AX = lambda E: CNT_AXIOMS


# ---------------------------------------------------------------- observers
@unit(P, "NodeLayerCollection.__len__", Q + "__len__", axioms=AX)
def _(E):
    L = sym_layer(E)
    v = LV(E, L)
    o = call(E, Q + "__len__", [L])
    no_exc(E, o)
    E.check("len is the number of attached nodes", o.val.t == cntnn(v.el, v.n))
    cover(E, "end")


@unit(P, "NodeLayerCollection.__iter__", Q + "__iter__", axioms=AX)
def _(E):
    L = sym_layer(E)
    v = LV(E, L)
    E.last_filter = None
    o = call(E, Q + "__iter__", [L])
    no_exc(E, o)
    if E.last_filter is not None:
        enum_count(E, v.el, v.n)
    w = E.view(o.val)
    m = w.n()
    E.check("yields as many nodes as are attached", m == v.num)
    j, k, x = E.fresh("j", I), E.fresh("k", I), E.fresh("x", I)
    at = lambda q: E.to_val(w.at(q))
    E.assume(0 <= j, j < m)
    e = at(j)
    E.check("yields attached nodes", And(Val.is_vref(e), v.att(R(e))))
    E.assume(j < k, k < m)
    e2 = at(k)
    E.check("in index order, hence each at most once", v.id(R(e)) < v.id(R(e2)))
    cover(E, "end")


@unit(P, "NodeLayerCollection.__iter__ (complete)", Q + "__iter__", axioms=AX)
def _(E):
    L = sym_layer(E)
    v = LV(E, L)
    x = E.fresh("x", I)
    E.assume(0 < x, x < E.heap.alloc, v.att(x))
    E.last_filter = None
    o = call(E, Q + "__iter__", [L])
    no_exc(E, o)
    w = E.view(o.val)
    at = lambda q: E.to_val(w.at(q))
    if E.last_filter is not None:
        wit = E.last_filter[1](v.id(x))
        enum_rank(E, v.el, v.n, v.id(x))
    else:
        wit = v.id(x)
    E.check("every attached node is yielded", And(0 <= wit, wit < w.n(), at(wit) == VR(x)))
    E.check("its position is the number of attached nodes before it", wit == cntnn(v.el, v.id(x)))
    cover(E, "end")


@unit(P, "index lookup", [Q + "__getitem__", "model.Node.i"], axioms=AX)
def _(E):
    L = sym_layer(E)
    v = LV(E, L)
    x = sym_ref(E, "Node", "x")
    E.assume(v.att(x.t))
    i = call(E, "model.Node.i", [x])
    no_exc(E, i)
    o = call(E, Q + "__getitem__", [L, i.val])
    no_exc(E, o)
    E.check("layer[node.i] is the node", E.to_val(o.val) == VR(x.t))
    cover(E, "end")


# ---------------------------------------------------------------- construction
@unit(P, "NodeLayerCollection.__init__", Q + "__init__", axioms=AX)
def _(E):
    sch = sym_ref(E, "NodeLayerSchema", "schema")
    E.summaries[Q + "_update_default_values"] = lambda E, a, k: NONE
    x = E.fresh("x", I)
    E.assume(FA([Int("z")], Implies(Val.is_vref(E.heap.sel("F.collection", Int("z"))),
                                    R(E.heap.sel("F.collection", Int("z"))) < E.heap.alloc), [E.heap.sel("F.collection", Int("z"))]))
    try:
        o = Out(E.construct("NodeLayerCollection", [sch], {}))
    except PyExc as e:
        E.check("constructor does not fail", BoolVal(False))
        return
    E.check("empty", LV(E, o.val).num == 0)
    check_wf(E, o.val)
    cover(E, "end")


# ---------------------------------------------------------------- add
def validate_summary(E, args, kw):
    """contract of validate (proved in C07): may reject, changes nothing"""
    if E.choose(E.fresh("validate_raises", B)):
        raise PyExc("AssertionError" if E.choose(E.fresh("which", B)) else "OpaqueError")
    return BoolV(E.fresh("validated", B))


def check_added(E, L, old, x, what=""):
    """the nodes attached before stay attached at their index"""
    a, b = LV(E, L, old), LV(E, L)
    E.check(what + "nodes attached before stay where they are", Implies(And(0 < x, x < old.alloc, a.att(x)), And(b.att(x), b.id(x) == a.id(x))))


@unit(P, "NodeLayerCollection.add(**fields)", Q + "add", axioms=AX)
def _(E):
    E.summaries[Q + "validate"] = validate_summary
    L = sym_layer(E)
    M = other_layer(E, L)
    kw = sym_ref(E, "dict", "kwargs")
    x = E.fresh("x", I)
    old = E.heap.copy()
    o = call(E, Q + "add", [L], {"**": kw})
    a, b = LV(E, L, old), LV(E, L)
    check_other(E, M, old)
    if o.raised:
        check_wf_old(E, L, old)
        E.check("a rejected node changes nothing", And(b.n == a.n, b.num == a.num, b.lst == a.lst))
        return
    E.assume(unfold(b.el, a.n))
    check_wf(E, L)
    E.check("returns a new attached node at the end", And(o.val.t >= old.alloc, b.att(o.val.t), b.id(o.val.t) == a.n))
    E.check("one more node", b.num == a.num + 1)
    check_added(E, L, old, x)
    E.check("no other node is attached", Implies(And(0 < x, x < old.alloc, Not(a.att(x))), Not(b.att(x))))
    cover(E, "end")


def check_wf_old(E, L, old, what=""):
    """invariant restricted to nodes the caller can reach (allocated before the call)"""
    for nm, f in layer_wf(E, L, alloc=old.alloc):
        E.check("%sinvariant: %s" % (what, nm), f)


def adding_inv(start):
    """invariant of a loop that appends nodes one by one"""
    def inv(E, L):
        s = L.var("self")
        a, b = LV(E, s, L.entry), LV(E, s)
        x = Int("x")
        out = [("wf " + nm, f) for nm, f in layer_wf(E, s)]
        out += [("in range", L.i <= L.n), ("length", And(b.n == a.n + L.i, b.num == a.num + L.i, b.lst == a.lst)),
                ("attached before", FA([x], Implies(a.att(x), And(b.att(x), b.id(x) == a.id(x))), [b.coll(x)])),
                ("others", FA([x], Implies(And(a.coll(x) != none, Not(a.att(x))), And(b.coll(x) == a.coll(x), b.id(x) == a.id(x))), [b.coll(x)])),
                ("only unbound nodes get bound", FA([x], Implies(And(a.coll(x) == none), Or(b.coll(x) == none, b.att(x))), [b.coll(x)])),
                ("unbound unchanged", FA([x], Implies(b.coll(x) == none, And(a.coll(x) == none, b.id(x) == a.id(x))), [b.coll(x)])),
                ("new nodes in order", FA([x], Implies(And(b.att(x), Not(a.att(x))), b.id(x) >= a.n), [b.coll(x)])),
                ("new entries", FA([x], Implies(And(a.n <= x, x < b.n), And(Select(b.el, x) == E.to_val(L.view.at(x - a.n)), Val.is_vref(Select(b.el, x)), a.coll(R(Select(b.el, x))) == none)), [Select(b.el, x)])),
                ("old entries", FA([x], Implies(And(0 <= x, x < a.n), Select(b.el, x) == Select(a.el, x)), [Select(b.el, x)])),
                ]
        return out

    def hints(E, L, where):
        s = L.var("self")
        b = LV(E, s)
        if where == "body":
            E.assume(unfold(b.el, b.n))

    def after(E, L2, L1):
        s = L2.var("self")
        b = LV(E, s)
        E.assume(unfold(b.el, b.n - 1))
    return LoopSpec(inv, hints=hints, after=after)


def sym_values(E, name):
    """an arbitrary finite sequence of values handed in by the caller (not one of the layer's own lists)"""
    l = sym_ref(E, "list", name)
    E.assume(E.llen(l) >= 0)
    return l


def use_validate(E):
    E.summaries[Q + "validate"] = validate_summary


@unit(P, "NodeLayerCollection.add(*nodes)", Q + "add", axioms=AX, setup=use_validate, loops={Q + "add": [adding_inv("args")]})
def _(E):
    L = sym_layer(E)
    M = other_layer(E, L)
    l = sym_values(E, "args")
    v = LV(E, L)
    E.assume(l.t != v.lst, l.t != LV(E, M).lst, E.llen(l) > 0)
    x = E.fresh("x", I)
    old = E.heap.copy()
    view = E.view(l)
    o = call(E, Q + "add", [L, ("*view", View(view.n(), view._at))])
    a, b = LV(E, L, old), LV(E, L)
    check_other(E, M, old)
    check_wf(E, L)
    check_added(E, L, old, x)
    if o.raised:
        E.check("raises only for a value that is no node or a node bound to a layer", BoolVal(o.exc in ("AssertionError", "ValueError", "AttributeError")))
        return
    i = E.fresh("i", I)
    n, el = old.sel("L.len", l.t), old.sel("L.el", l.t)
    E.check("all added", And(b.num == a.num + n, b.n == a.n + n))
    E.assume(0 <= i, i < n)
    E.check("the arguments are stored at the end", Select(b.el, a.n + i) == Select(el, i))
    E.check("each argument was an unattached node", And(Val.is_vref(Select(el, i)), a.coll(R(Select(el, i))) == none))
    E.check("the arguments follow in order", And(b.att(R(Select(el, i))), b.id(R(Select(el, i))) == a.n + i))
    E.check("nothing else is attached", Implies(And(0 < x, x < old.alloc, b.att(x), Not(a.att(x))), And(0 <= b.id(x) - a.n, b.id(x) - a.n < n, Select(el, b.id(x) - a.n) == VR(x))))
    cover(E, "end")


# ---------------------------------------------------------------- add_many
AM = Q + "add_many"


def const_inv(bind=None):
    """the loop does not touch the layer bookkeeping"""
    def inv(E, L):
        s = L.var("self")
        a, b = LV(E, s, L.entry), LV(E, s)
        return []
    return LoopSpec(inv, bind=bind)


BOOK = ("F._nodes", "F.num", "F._id", "F.collection", "L.len", "L.el")


def same_book(E, h1, h2, alloc=None):
    """lists, counters and node bookkeeping are identical for everything allocated in h1"""
    x, i = Ints("x i")
    al = h1.alloc
    g = lambda h, c: lambda r: h.sel(c, r)
    out = []
    for c in BOOK:
        if h1.term(c).eq(h2.term(c)):
            continue
        out.append(FA([x], Implies(And(0 < x, x < al), h1.sel(c, x) == h2.sel(c, x)), [h2.sel(c, x)]))
    return And(out) if out else BoolVal(True)


def many_specs():
    return [adding_inv("nodes"), const_inv(), const_inv(lambda E, L, x: as_node(E, x)), const_inv()]


@unit(P, "NodeLayerCollection.add_many", AM, axioms=AX, setup=use_validate, loops={AM: many_specs()})
def _(E):
    L = sym_layer(E)
    M = other_layer(E, L)
    l = sym_values(E, "nodes")
    v = LV(E, L)
    E.assume(l.t != v.lst, l.t != LV(E, M).lst)
    x = E.fresh("x", I)
    fill, full = BoolV(E.fresh("fill", B)), BoolV(E.fresh("full", B))
    old = E.heap.copy()
    o = call(E, AM, [L, l, fill, full])
    a, b = LV(E, L, old), LV(E, L)
    check_other(E, M, old)
    check_wf_old(E, L, old)
    check_added(E, L, old, x)
    if o.raised:
        return
    i = E.fresh("i", I)
    n, el = old.sel("L.len", l.t), old.sel("L.el", l.t)
    E.check("all added", And(b.num == a.num + n, b.n == a.n + n))
    E.assume(0 <= i, i < n)
    E.check("the arguments are stored at the end", Select(b.el, a.n + i) == Select(el, i))
    E.check("the arguments follow in order", And(b.att(R(Select(el, i))), b.id(R(Select(el, i))) == a.n + i))
    E.check("nothing else is attached", Implies(And(0 < x, x < old.alloc, b.att(x), Not(a.att(x))), And(0 <= b.id(x) - a.n, b.id(x) - a.n < n, Select(el, b.id(x) - a.n) == VR(x))))
    cover(E, "end")


# ---------------------------------------------------------------- compact
CP = Q + "compact"


def compact_inv():
    def inv(E, L):
        s = L.var("self")
        a, b = LV(E, s, L.entry), LV(E, s)
        q, x = Ints("q x")
        k, i = L.i, L.int("i")
        c0 = lambda z: cntnn(a.el, z)
        return [("range", And(b.lst == a.lst, b.n == a.n, b.num == a.num, L.n == a.n, k <= L.n)),
                ("write position", And(i == c0(k), 0 <= i, i <= k)),
                ("kept entries moved down", FA([q], Implies(And(0 <= q, q < k, Select(a.el, q) != none),
                                                           And(Select(b.el, c0(q)) == Select(a.el, q), b.id(R(Select(a.el, q))) == c0(q))), [Select(a.el, q)])),
                ("written entries", FA([q], Implies(And(0 <= q, q < i), And(Val.is_vref(Select(b.el, q)), b.att(R(Select(b.el, q))), R(Select(b.el, q)) > 0,
                                                                            R(Select(b.el, q)) < L.entry.alloc, b.id(R(Select(b.el, q))) == q, a.id(R(Select(b.el, q))) < k)), [Select(b.el, q)])),
                ("rest of the list", FA([q], Implies(And(k <= q, q < a.n), And(Select(b.el, q) == Select(a.el, q))), [Select(b.el, q)])),
                ("index of later nodes", FA([x], Implies(Or(Not(a.att(x)), a.id(x) >= k), b.id(x) == a.id(x)), [b.id(x)])),
                ]

    def hints(E, L, where):
        s = L.var("self")
        a = LV(E, s, L.entry)
        if where == "body":
            E.assume(unfold(a.el, L.i))
    return LoopSpec(inv, hints=hints)


def wf_facts(E, L):
    pass


@unit(P, "NodeLayerCollection.compact", CP, axioms=AX, loops={CP: [compact_inv()]})
def _(E):
    L = sym_layer(E)
    M = other_layer(E, L)
    old = E.heap.copy()
    x = E.fresh("x", I)
    o = call(E, CP, [L])
    no_exc(E, o)
    a, b = LV(E, L, old), LV(E, L)
    check_compact(E, L, old, a, b, x)
    check_other(E, M, old)
    cover(E, "end")


def compact_any_inv():
    def inv(E, L):
        s = L.var("self")
        a, b = LV(E, s, L.entry), LV(E, s)
        P_ = E.unit_x["pos"]
        q, x = Ints("q x")
        k, i = L.i, L.int("i")
        c0 = lambda z: cntnn(a.el, z)
        return [("range", And(b.lst == a.lst, b.n == a.n, b.num == a.num, L.n == a.n, k <= L.n)),
                ("write position", And(i == c0(k), 0 <= i, i <= k)),
                ("kept entries moved down", FA([q], Implies(And(0 <= q, q < k, Select(a.el, q) != none),
                                                           And(Select(b.el, c0(q)) == Select(a.el, q), b.id(R(Select(a.el, q))) == c0(q))), [Select(a.el, q)])),
                ("written entries", FA([q], Implies(And(0 <= q, q < i), And(Val.is_vref(Select(b.el, q)), b.att(R(Select(b.el, q))), R(Select(b.el, q)) > 0,
                                                                            R(Select(b.el, q)) < L.entry.alloc, b.id(R(Select(b.el, q))) == q, P_(R(Select(b.el, q))) < k)), [Select(b.el, q)])),
                ("rest of the list", FA([q], Implies(And(k <= q, q < a.n), And(Select(b.el, q) == Select(a.el, q))), [Select(b.el, q)])),
                ("index of later nodes", FA([x], Implies(Or(Not(a.att(x)), P_(x) >= k), b.id(x) == a.id(x)), [b.id(x)])),
                ]

    def hints(E, L, where):
        if where == "body":
            E.assume(unfold(LV(E, L.var("self"), L.entry).el, L.i))
    return LoopSpec(inv, hints=hints)


@unit([P, "C06", "C07"], "NodeLayerCollection.compact with any stored indices", CP, axioms=AX, loops={CP: [compact_any_inv()]})
def _(E):
    L = sym_layer(E, wf=False)
    pos = E.fresh_fn("pos", I, I)
    E.unit_x = {"pos": pos}
    p = PV(E, L, pos)
    for nm, f in p.wf(E):
        E.assume(f)
    M = other_layer(E, L)
    old = E.heap.copy()
    x, q = E.fresh("x", I), E.fresh("q", I)
    o = call(E, CP, [L])
    no_exc(E, o)
    a, b = LV(E, L, old), LV(E, L)
    E.check("nothing happens without gaps", Implies(a.n == a.num, And(b.n == a.n, b.el == a.el, Implies(And(0 < x, x < old.alloc), b.id(x) == a.id(x)))))
    E.check("attached nodes are the same", Implies(And(0 < x, x < old.alloc), b.att(x) == a.att(x)))
    E.check("no other index changes", Implies(Not(a.att(x)), b.id(x) == a.id(x)))
    E.assume(a.n != a.num)
    E.check("no gaps left", And(b.n == cntnn(a.el, a.n), b.num == a.num))
    E.check("every entry is attached", Implies(And(0 <= q, q < b.n), Select(b.el, q) != none))
    E.check("new index is the rank", Implies(And(0 < x, x < old.alloc, a.att(x)), b.id(x) == cntnn(a.el, pos(x))))
    for nm, f in layer_wf(E, L):
        if nm.startswith("num"):
            full_count(E, b.el, b.n)
        E.check("invariant: " + nm, f)
    i = E.fresh("i", I)
    A, Bm = LV(E, M, old), LV(E, M)
    E.check("other layer's list untouched", And(Bm.lst == A.lst, Bm.n == A.n, Bm.num == A.num, Bm.el == A.el))
    cover(E, "end")


def check_compact(E, L, old, a, b, x):
    q = E.fresh("q", I)
    E.check("attached nodes are the same", Implies(And(0 < x, x < old.alloc), b.att(x) == a.att(x)))
    E.check("no gaps left", And(b.n == cntnn(a.el, a.n), b.num == a.num))
    E.check("every entry is attached", Implies(And(0 <= q, q < b.n), Select(b.el, q) != none))
    E.check("new index is the rank", Implies(And(0 < x, x < old.alloc, a.att(x)), b.id(x) == cntnn(a.el, a.id(x))))
    # all entries are attached, so cntnn(el, n) == n
    for nm, f in layer_wf(E, L):
        if nm.startswith("num"):
            full_count(E, b.el, b.n)
        E.check("invariant: " + nm, f)
    check_order(E, L, old)


def full_count(E, A, n):
    """no None among the first n entries => cntnn(A, n) == n  (lemma 'full', proved by induction)"""
    q = E.fresh("q", I)
    E.check("no gap", Implies(And(0 <= q, q < n), Select(A, q) != none))
    E.assume(Implies(n >= 0, cntnn(A, n) == n))


# ---------------------------------------------------------------- sort
ST = Q + "sort"


def key_fn(E):
    """an arbitrary pure key function: may fail on any node, keys need not be comparable"""
    kf = Function("user_key", Val, Val)

    def fn(E, args, kw):
        if E.choose(Function("key_fails", Val, B)(E.to_val(args[0]))):
            raise PyExc("OpaqueError")
        return AnyV(kf(E.to_val(args[0])))
    return OpaqueFn("key", fn), kf


def use_compact(E):
    E.summaries[CP] = compact_summary


def sort_inv():
    def inv(E, L):
        s = L.var("self")
        a, b = LV(E, s, L.entry), LV(E, s)
        q, x = Ints("q x")
        return [("list and counter unchanged", And(b.lst == a.lst, b.n == a.n, b.num == a.num, b.el == a.el, L.i <= a.n, L.n == a.n)),
                ("indices assigned", FA([q], Implies(And(0 <= q, q < L.i), b.id(R(Select(a.el, q))) == q), [Select(a.el, q)])),
                ("not yet assigned", FA([q], Implies(And(L.i <= q, q < a.n), b.id(R(Select(a.el, q))) == a.id(R(Select(a.el, q)))), [Select(a.el, q)])),
                ("other nodes", FA([x], Implies(Not(a.att(x)), b.id(x) == a.id(x)), [b.id(x)]))]
    return LoopSpec(inv, bind=lambda E, L, x: TupV([x.items[0], as_node(E, x.items[1])]))


def spec_lt(a, b):
    """v < w on arbitrary comparable values: the integer order on ints, otherwise whatever the values' own < says"""
    return If(And(Val.is_vint(a), Val.is_vint(b)), Val.i(a) < Val.i(b), py_lt(a, b))


@unit(P, "NodeLayerCollection.sort", ST, axioms=AX, setup=use_compact, loops={ST: [sort_inv()]})
def _(E):
    L = sym_layer(E)
    M = other_layer(E, L)
    key, kf = key_fn(E)
    old = E.heap.copy()
    x, y = E.fresh("x", I), E.fresh("y", I)
    o = call(E, ST, [L, key])
    a, b = LV(E, L, old), LV(E, L)
    E.check("attached nodes are the same", Implies(And(0 < x, x < old.alloc), b.att(x) == a.att(x)))
    check_other(E, M, old)
    if o.raised:
        check_wf_full(E, L)
        check_order(E, L, old)
        E.check("same number of nodes", b.num == a.num)
        return
    check_wf_full(E, L)
    E.check("same number of nodes, no gaps", And(b.num == a.num, b.n == b.num))
    at = And(0 < x, x < old.alloc, 0 < y, y < old.alloc, a.att(x), a.att(y))
    E.assume(at)
    E.check("entries", And(Select(b.el, b.id(x)) == VR(x), Select(b.el, b.id(y)) == VR(y), 0 <= b.id(x), b.id(x) < b.n, 0 <= b.id(y), b.id(y) < b.n))
    p = E.last_sort[0]
    E.check("rank", And(a.id(x) == a.id(x), (p(b.id(x)) < p(b.id(y))) == (a.id(x) < a.id(y))))
    E.check("ordered by the key", Implies(And(at, b.id(x) < b.id(y)), Not(spec_lt(kf(VR(y)), kf(VR(x))))))
    E.check("stable", Implies(And(at, a.id(x) < a.id(y), Not(spec_lt(kf(VR(x)), kf(VR(y)))), Not(spec_lt(kf(VR(y)), kf(VR(x))))), b.id(x) < b.id(y)))
    cover(E, "end")


def check_wf_full(E, L, what=""):
    """invariant of a layer without gaps"""
    for nm, f in layer_wf(E, L):
        if nm.startswith("num"):
            b = LV(E, L)
            full_count(E, b.el, b.n)
        E.check(what + "invariant: " + nm, f)


# ---------------------------------------------------------------- remove
RM = Q + "remove"


def remove_inv():
    def inv(E, L):
        s = L.var("self")
        a, b = LV(E, s, L.entry), LV(E, s)
        q, x = Ints("q x")
        x0 = E.unit_x
        out = [("wf " + nm, f) for nm, f in layer_wf(E, s)]
        out += [("in range", L.i <= L.n),
                ("list", And(b.lst == a.lst, b.n == a.n)),
                ("indices", FA([x], b.id(x) == a.id(x), [b.id(x)])),
                ("nodes are only detached", FA([x], Or(b.coll(x) == a.coll(x), And(a.att(x), b.coll(x) == none)), [b.coll(x)])),
                ("entries are only cleared", FA([q], Implies(And(0 <= q, q < a.n), Or(Select(b.el, q) == Select(a.el, q), Select(b.el, q) == none)), [Select(b.el, q)])),
                ("requested nodes are detached", FA([q], Implies(And(0 <= q, q < L.i), Or(elem(L, q) == none, And(Val.is_vref(elem(L, q)), a.att(R(elem(L, q))), Not(b.att(R(elem(L, q))))))), [elem(L, q)])),
                ("other nodes stay", Implies(FA([q], Implies(And(0 <= q, q < L.i), elem(L, q) != VR(x0)), [elem(L, q)]), b.coll(x0) == a.coll(x0))),
                ]
        return out
    return LoopSpec(inv)


@unit(P, "NodeLayerCollection.remove(node)", [RM, "model.Node.detach", Q + "__delitem__"], axioms=AX, setup=use_compact, loops={RM: [remove_inv()]})
def _(E):
    L = sym_layer(E)
    M = other_layer(E, L)
    x = sym_ref(E, "Node", "x")
    y = E.fresh("y", I)
    c = LV(E, L).coll(x.t)
    E.assume(Or(c == none, And(Val.is_vref(c), R(c) > 0, R(c) < E.heap.alloc, E.is_cls(R(c), "NodeLayerCollection"))))
    old = E.heap.copy()
    which = E.choose_n(3)
    if which == 0:
        o = call(E, RM, [L, x])
    elif which == 1:
        o = call(E, Q + "__delitem__", [L, x])
    else:
        E.assume(c == VR(L.t))
        o = call(E, "model.Node.detach", [x])
    a, b = LV(E, L, old), LV(E, L)
    check_wf(E, L)
    check_other(E, M, old)
    check_order(E, L, old)
    if o.raised:
        E.check("a foreign node is refused", And(BoolVal(o.exc == "ValueError"), Not(a.att(x.t))))
        E.check("refusal changes nothing", And(b.n == a.n, b.num == a.num, b.coll(y) == a.coll(y), b.id(y) == a.id(y)))
        cover(E, "refused")
        return
    E.check("was attached, is detached now", And(a.att(x.t), b.coll(x.t) == none))
    d = call(E, "model.Node.is_dangling", [x])
    no_exc(E, d)
    E.check("is_dangling", E.to_val(d.val) == Val.vbool(BoolVal(True)))
    E.check("all others stay", Implies(And(0 < y, y < old.alloc, y != x.t), b.att(y) == a.att(y)))
    E.check("one node less", b.num == a.num - 1)
    cover(E, "end")


@unit(P, "NodeLayerCollection.remove(iterable)", [RM, Q + "__iter__"], axioms=AX, setup=use_compact, loops={RM: [remove_inv()]})
def _(E):
    L = sym_layer(E)
    M = other_layer(E, L)
    v = LV(E, L)
    x, i = E.fresh("x", I), E.fresh("i", I)
    E.unit_x = x
    old = E.heap.copy()
    l = sym_values(E, "nodes")
    E.assume(l.t != v.lst, l.t != LV(E, M).lst)
    o = call(E, RM, [L, l])
    n, el = old.sel("L.len", l.t), old.sel("L.el", l.t)
    a, b = LV(E, L, old), LV(E, L)
    check_wf(E, L)
    check_other(E, M, old)
    check_order(E, L, old)
    q = Int("q")
    if o.raised:
        E.check("raises ValueError only", BoolVal(o.exc == "ValueError"))
        E.check("nodes not asked for stay", Implies(And(0 < x, x < old.alloc, FA([q], Implies(And(0 <= q, q < n), Select(el, q) != VR(x)), [Select(el, q)])), b.att(x) == a.att(x)))
        cover(E, "refused")
        return
    E.assume(0 <= i, i < n)
    e = Select(el, i)
    E.check("every requested node was attached and is detached now", Or(e == none, And(Val.is_vref(e), a.att(R(e)), b.coll(R(e)) == none)))
    E.check("nodes not asked for stay", Implies(And(0 < x, x < old.alloc, FA([q], Implies(And(0 <= q, q < n), Select(el, q) != VR(x)), [Select(el, q)])), b.att(x) == a.att(x)))
    cover(E, "end")


def remove_all_inv():
    base = remove_inv()

    def inv(E, L):
        s = L.var("self")
        a, b = LV(E, s, L.entry), LV(E, s)
        q, x = Ints("q x")
        rk = E.last_filter[1] if E.last_filter is not None else (lambda z: z)
        out = [f for f in base.inv(E, L) if f[0] not in ("requested nodes are detached", "other nodes stay")]
        out += [("the first nodes are detached", FA([x], Implies(And(0 < x, x < L.entry.alloc, a.att(x)), And(b.att(x) == (rk(a.id(x)) >= L.i), rk(a.id(x)) < L.n, 0 <= rk(a.id(x)), elem(L, L.n) == elem(L, L.n))), [b.coll(x)])),
                ("the rest is unvisited", FA([q], Implies(And(L.i <= q, q < L.n), And(Val.is_vref(elem(L, q)), 0 < R(elem(L, q)), R(elem(L, q)) < L.entry.alloc, E.is_cls(R(elem(L, q)), "Node"),
                                                                                     b.att(R(elem(L, q))), rk(a.id(R(elem(L, q)))) == q)), [elem(L, q)]))]
        return out
    return LoopSpec(inv)


@unit(P, "NodeLayerCollection.remove(the layer itself)", [RM, Q + "__iter__"], axioms=AX, setup=use_compact, loops={RM: [remove_all_inv()]})
def _(E):
    L = sym_layer(E)
    M = other_layer(E, L)
    x = E.fresh("x", I)
    E.unit_x = x
    old = E.heap.copy()
    E.last_filter = None
    o = call(E, RM, [L, L])
    a, b = LV(E, L, old), LV(E, L)
    no_exc(E, o)
    check_wf(E, L)
    check_other(E, M, old)
    if E.last_filter is not None:
        j = E.last_filter[1](a.id(x))
        E.check("x is visited", Implies(And(0 < x, x < old.alloc, a.att(x)), And(j == j, 0 <= j)))
    E.check("every node is detached", Implies(And(0 < x, x < old.alloc), Not(b.att(x))))
    cover(E, "end")


# ---------------------------------------------------------------- retain
RT = Q + "retain"


def smem(E, ref, v, heap=None):
    return Select((heap or E.heap).sel("S.mem", ref), v)


def retain_specs():
    def inv1(E, L):
        s = L.var("self")
        S = L.ref("retained")
        v = LV(E, s)
        q = Int("q")
        x0 = E.unit_x
        return [("in range", L.i <= L.n),
                ("collected are attached", FA([q], Implies(And(0 <= q, q < L.i), And(Val.is_vref(elem(L, q)), v.coll(R(elem(L, q))) == VR(s.t), smem(E, S, elem(L, q)))), [elem(L, q)])),
                ("nothing else is collected", Implies(FA([q], Implies(And(0 <= q, q < L.i), elem(L, q) != VR(x0)), [elem(L, q)]), Not(smem(E, S, VR(x0)))))]

    def inv2(E, L):
        s = L.var("self")
        S = L.ref("retained")
        a, b = LV(E, s, L.entry), LV(E, s)
        q, r, x = Ints("q r x")
        i, k = L.i, L.int("k")
        mem = lambda z: smem(E, S, VR(z), L.entry)
        c = lambda z: cntnn(a.el, z)
        e = lambda z: Select(b.el, z)
        return [("range", And(b.lst == a.lst, b.n == a.n, L.n == a.n, i <= a.n, 0 <= k, k <= i)),
                ("counter", b.num == k + c(a.n) - c(i)),
                ("kept entries", FA([q], Implies(And(0 <= q, q < k), And(Val.is_vref(e(q)), 0 < R(e(q)), R(e(q)) < L.entry.alloc, a.att(R(e(q))), b.att(R(e(q))),
                                                                         b.id(R(e(q))) == q, a.id(R(e(q))) < i, mem(R(e(q))))), [e(q)])),
                ("kept entries in order", FA([q, r], Implies(And(0 <= q, q < r, r < k), a.id(R(e(q))) < a.id(R(e(r)))), [(e(q), e(r))])),
                ("decided nodes", FA([x], Implies(And(0 < x, x < L.entry.alloc, a.att(x), a.id(x) < i),
                                                  If(mem(x), And(b.att(x), 0 <= b.id(x), b.id(x) < k, e(b.id(x)) == VR(x)), b.coll(x) == none)), [b.coll(x)])),
                ("undecided nodes", FA([x], Implies(Or(x <= 0, x >= L.entry.alloc, Not(a.att(x)), a.id(x) >= i), And(b.coll(x) == a.coll(x), b.id(x) == a.id(x))), [b.coll(x)])),
                ("rest of the list", FA([q], Implies(And(i <= q, q < a.n), e(q) == Select(a.el, q)), [e(q)]))]

    def hints2(E, L, where):
        if where == "body":
            E.assume(unfold(LV(E, L.var("self"), L.entry).el, L.i))
    return [LoopSpec(inv1), LoopSpec(inv2, hints=hints2)]


@unit(P, "NodeLayerCollection.retain", RT, axioms=AX, loops={RT: retain_specs()})
def _(E):
    L = sym_layer(E)
    M = other_layer(E, L)
    v = LV(E, L)
    x, y = E.fresh("x", I), E.fresh("y", I)
    E.unit_x = x
    old = E.heap.copy()
    l = sym_values(E, "nodes")
    E.assume(l.t != v.lst, l.t != LV(E, M).lst)
    o = call(E, RT, [L, l])
    n, el = old.sel("L.len", l.t), old.sel("L.el", l.t)
    a, b = LV(E, L, old), LV(E, L)
    check_other(E, M, old)
    q = Int("q")
    if o.raised:
        for nm, f in layer_wf(E, L, alloc=old.alloc):
            E.check("invariant: " + nm, f)
        E.check("a foreign element changes nothing", And(b.n == a.n, b.num == a.num, b.el == a.el, b.coll(y) == a.coll(y), b.id(y) == a.id(y)))
        cover(E, "refused")
        return
    absent = FA([q], Implies(And(0 <= q, q < n), Select(el, q) != VR(x)), [Select(el, q)])
    i = E.fresh("i", I)
    E.check("nodes not listed are detached", Implies(And(0 < x, x < old.alloc, absent), Not(b.att(x))))
    E.check("no gaps, counted", And(b.num == b.n))
    for nm, f in layer_wf(E, L, alloc=old.alloc):
        if nm.startswith("num"):
            full_count(E, b.el, b.n)
        E.check("invariant: " + nm, f)
    E.check("no node is added", Implies(And(0 < y, y < old.alloc, Not(a.att(y))), Not(b.att(y))))
    check_order(E, L, old)
    E.assume(0 <= i, i < n)
    e = Select(el, i)
    E.check("every listed node was attached and stays attached", And(Val.is_vref(e), a.coll(R(e)) == VR(L.t), b.coll(R(e)) == VR(L.t)))
    cover(E, "end")
