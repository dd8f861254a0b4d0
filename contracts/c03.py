"""C03: neighbour and node span navigation skip gaps exactly."""
from .layer import *

P = "C03"
Q = "model.NodeLayerCollection."
N = "model.Node."
S = "model.NodeSpan."
lemma_units(P)
AX = lambda E: CNT_AXIOMS


def sym_node(E, L, name):
    """an attached node of the layer"""
    x = sym_ref(E, "Node", name)
    E.assume(LV(E, L).att(x.t))
    return x


def val(E, o):
    return E.to_val(o.val)


# ---------------------------------------------------------------- neighbours
def left_inv():
    def inv(E, L):
        s = L.var("self")
        v = LV(E, s)
        q = Int("q")
        at0 = L.view.at(IntVal(0)).t
        cur = L.view.at(L.i).t
        return [("passed entries are gaps", FA([q], Implies(And(cur < q, q <= at0), Select(v.el, q) == none), [Select(v.el, q)]))]
    return LoopSpec(inv)


def right_inv():
    def inv(E, L):
        s = L.var("self")
        v = LV(E, s)
        q = Int("q")
        at0 = L.view.at(IntVal(0)).t
        cur = L.view.at(L.i).t
        return [("passed entries are gaps", FA([q], Implies(And(at0 <= q, q < cur), Select(v.el, q) == none), [Select(v.el, q)]))]
    return LoopSpec(inv)


def neighbour(side):
    q = Q + side

    @unit(P, "%s neighbour" % side, [q, N + side, N + "i"], axioms=AX, loops={q: [left_inv() if side == "left" else right_inv()]})
    def _(E):
        L = sym_layer(E)
        v = LV(E, L)
        x = sym_node(E, L, "x")
        y = E.fresh("y", I)
        E.last_filter = None
        if E.choose_n(2):
            o = call(E, q, [L, x])
        else:
            o = call(E, N + side, [x])
        no_exc(E, o)
        r = val(E, o)
        beyond = (lambda a, b: v.id(a) < v.id(b)) if side == "left" else (lambda a, b: v.id(a) > v.id(b))
        is_y = And(0 < y, y < E.heap.alloc, v.att(y), beyond(y, x.t))
        E.assume(seen(v.id(y)))
        if E.last_filter is not None:
            rk = E.last_filter[1]
            k = v.id(y) - v.id(x.t) - 1 if side == "right" else v.id(x.t) - 1 - v.id(y)
            E.assume(seen(rk(k)), seen(rk(v.id(y))))
        E.check("None only at the end", Implies(And(r == none, is_y), And(BoolVal(False), Select(v.el, v.id(y)) == none)))
        E.check("an attached node on that side", Implies(r != none, And(Val.is_vref(r), v.att(R(r)), beyond(R(r), x.t))))
        E.check("the nearest one", Implies(And(r != none, is_y, y != R(r)), beyond(y, R(r))))
        cover(E, "end")

    @unit(P, "%s neighbour of a foreign node" % side, [q], axioms=AX, loops={q: [left_inv() if side == "left" else right_inv()]})
    def _(E):
        L = sym_layer(E)
        x = sym_ref(E, "Node", "x")
        E.assume(Not(LV(E, L).att(x.t)))
        o = call(E, q, [L, x])
        E.check("refused", BoolVal(o.exc == "AssertionError"))
        cover(E, "end")


neighbour("left")
neighbour("right")


def outermost(side):
    @unit(P, "layer.%s()" % side, Q + side, axioms=AX)
    def _(E):
        L = sym_layer(E)
        v = LV(E, L)
        y = E.fresh("y", I)
        E.last_filter = None
        o = call(E, Q + side, [L])
        no_exc(E, o)
        r = val(E, o)
        is_y = And(0 < y, y < E.heap.alloc, v.att(y))
        E.check("y is an entry", Implies(is_y, And(Select(v.el, v.id(y)) == VR(y), 0 <= v.id(y), v.id(y) < v.n)))
        if E.last_filter is not None:
            rk = E.last_filter[1]
            E.assume(seen(rk(v.id(y))), seen(rk(v.n - 1 - v.id(y))))
        E.check("None only when empty", Implies(r == none, Not(is_y)))
        E.check("attached", Implies(r != none, And(Val.is_vref(r), v.att(R(r)))))
        E.check("outermost", Implies(And(r != none, is_y), v.id(R(r)) <= v.id(y) if side == "first" else v.id(y) <= v.id(R(r))))
        cover(E, "end")


outermost("first")
outermost("last")


# ---------------------------------------------------------------- iteration between two nodes
def range_result(E, L, lo, hi, val_, what=""):
    """the value iterates exactly the attached nodes with index lo..hi, in order"""
    v = LV(E, L)
    w = E.view(val_)
    m = w.n()
    j, k, y = E.fresh("j", I), E.fresh("k", I), E.fresh("y", I)
    at = lambda q: E.to_val(w.at(q))
    e, e2 = at(j), at(k)
    inr = And(0 <= j, j < m)
    E.check(what + "yields attached nodes inside the bounds", Implies(inr, And(Val.is_vref(e), v.att(R(e)), lo <= v.id(R(e)), v.id(R(e)) <= hi)))
    E.check(what + "in layer order, each once", Implies(And(inr, j < k, k < m), And(seen(v.id(R(e))) == seen(v.id(R(e))), v.id(R(e)) < v.id(R(e2)))))
    is_y = And(0 < y, y < E.heap.alloc, v.att(y), lo <= v.id(y), v.id(y) <= hi)
    E.check("y is an entry", Implies(is_y, And(Select(v.el, v.id(y)) == VR(y), 0 <= v.id(y), v.id(y) < v.n)))
    if E.last_filter is None:
        raise Unsupported("iteration is not a filter")
    pos = E.last_filter[1](v.id(y) - lo)
    E.check(what + "every attached node inside the bounds is yielded", Implies(is_y, And(0 <= pos, pos < m, at(pos) == VR(y))))


@unit(P, "NodeLayerCollection.iter_nodespan", Q + "iter_nodespan", axioms=AX)
def _(E):
    L = sym_layer(E)
    x, y = sym_node(E, L, "x"), sym_node(E, L, "y")
    v = LV(E, L)
    E.last_filter = None
    o = call(E, Q + "iter_nodespan", [L, x, y])
    if o.raised:
        E.check("only for nodes out of order", And(BoolVal(o.exc == "AssertionError"), v.id(x.t) > v.id(y.t)))
        cover(E, "refused")
        return
    E.check("in order", v.id(x.t) <= v.id(y.t))
    range_result(E, L, v.id(x.t), v.id(y.t), o.val)
    cover(E, "end")


@unit(P, "Node.iter_span", [N + "iter_span", Q + "iter_nodespan"], axioms=AX)
def _(E):
    L = sym_layer(E)
    x, y = sym_node(E, L, "x"), sym_node(E, L, "y")
    v = LV(E, L)
    E.last_filter = None
    o = call(E, N + "iter_span", [x, y])
    no_exc(E, o)
    a, b = v.id(x.t), v.id(y.t)
    range_result(E, L, If(a <= b, a, b), If(a <= b, b, a), o.val)
    cover(E, "end")


def sym_nodespan(E, L):
    x, y = sym_node(E, L, "x"), sym_node(E, L, "y")
    E.assume(LV(E, L).id(x.t) <= LV(E, L).id(y.t))
    s = sym_ref(E, "NodeSpan", "span")
    E.assume(E.heap.sel("F.NodeSpan.left", s.t) == x.t, E.heap.sel("F.NodeSpan.right", s.t) == y.t)
    return s, x, y


@unit(P, "NodeSpan.__init__", S + "__init__", axioms=AX)
def _(E):
    L = sym_layer(E)
    x, y = sym_node(E, L, "x"), sym_node(E, L, "y")
    v = LV(E, L)
    try:
        o = Out(E.construct("NodeSpan", [x, y], {}))
    except PyExc as e:
        E.check("refused only when out of order", And(BoolVal(e.kind == "AssertionError"), v.id(x.t) > v.id(y.t)))
        cover(E, "refused")
        return
    E.check("in order", v.id(x.t) <= v.id(y.t))
    E.check("end points", And(E.heap.sel("F.NodeSpan.left", o.val.t) == x.t, E.heap.sel("F.NodeSpan.right", o.val.t) == y.t))
    for nm, t in (("first", x), ("last", y)):
        r = call(E, S + nm, [o.val])
        no_exc(E, r)
        E.check(nm, val(E, r) == VR(t.t))
    cover(E, "end")


@unit(P, "NodeSpan.__iter__", [S + "__iter__", N + "iter_span", Q + "iter_nodespan"], axioms=AX)
def _(E):
    L = sym_layer(E)
    s, x, y = sym_nodespan(E, L)
    v = LV(E, L)
    E.last_filter = None
    o = call(E, S + "__iter__", [s])
    no_exc(E, o)
    range_result(E, L, v.id(x.t), v.id(y.t), o.val)
    cover(E, "end")


@unit(P, "NodeSpan.__len__", [S + "__len__", S + "__iter__"], axioms=AX)
def _(E):
    L = sym_layer(E)
    s, x, y = sym_nodespan(E, L)
    v = LV(E, L)
    E.last_filter = None
    o = call(E, S + "__len__", [s])
    no_exc(E, o)
    n = E.as_int(o.val)
    if E.last_filter is None:
        raise Unsupported("length is not computed by iteration")
    ix, rk, cnt, i, keepf, m = E.last_filter
    q = E.fresh("q", I)
    lo, hi = v.id(x.t), v.id(y.t)
    E.check("ranges over the entries between the end points", m == hi - lo + 1)
    E.check("counts exactly the attached nodes among them", Implies(And(0 <= q, q < m), substitute(keepf, (i, q)) == (Select(v.el, lo + q) != none)))
    E.check("length is the number of attached nodes in the span", n == cnt)
    cover(E, "end")


@unit(P, "NodeSpan.text / textspan", [S + "text", S + "textspan", "model.TextSpan.text_to", "model.TextSpan.span_to"], axioms=AX)
def _(E):
    L = sym_layer(E)
    s, x, y = sym_nodespan(E, L)
    field = sym_str(E, "field")
    h = E.heap
    a, b = sym_span(E, "a"), sym_span(E, "b")
    T = h.sel("F.TextSpan.text", a.t)
    E.assume(T == h.sel("F.TextSpan.text", b.t))
    for nd, sp in ((x, a), (y, b)):
        k = E.to_val(field)
        E.assume(Select(h.sel("D.dom", nd.t), k), Select(h.sel("D.map", nd.t), k) == VR(sp.t))
    st = text_of(E, a.t)
    lo, hi = F(E, "_start", a), F(E, "_stop", b)
    ordered = lo <= hi
    if E.choose_n(2):
        o = call(E, S + "text", [s, field])
        if o.raised:
            E.check("text: only for end points out of order", Not(ordered))
            cover(E, "refused")
            return
        E.check("text from the first start to the last stop", Implies(ordered, E.to_val(o.val) == Val.vstr(sq_slice(st, lo, hi))))
    else:
        o = call(E, S + "textspan", [s, field])
        if o.raised:
            E.check("textspan: only for end points out of order", Not(ordered))
            cover(E, "refused")
            return
        r = o.val
        E.check("span from the first start to the last stop", And(F(E, "_start", r) == lo, F(E, "_stop", r) == hi, E.heap.sel("F.TextSpan.text", r.t) == T))
    cover(E, "end")
