"""C17: queries return exactly the nodes that satisfy the predicate, in order; field predicates mean their expression."""
import ast
from .layer import *

P = "C17"
Q = "model.NodeCollectionQuery."
FC = "model.NodeFieldCollection."
NC = "model.NodeCollection."
lemma_units(P)
AX = lambda E: CNT_AXIOMS
ATTRS.table.update({"NodeLambdaPredicate.fields": "any", "NodeFieldCollection.field": "any", "fld": "any", "eq": "any", "neq": "any", "result": "list",
                    "NodeFieldCollection.collection": "any", "NodeCollectionQuery.collection": "any"})

pval = Function("predicate_holds", Val, B)          # what a caller supplied predicate returns for a node (or a field value)


def predicate():
    return OpaqueFn("predicate", lambda E, args, kw: BoolV(pval(E.to_val(args[0]))))


def holds(E, v):
    return pval(v)


# ---------------------------------------------------------------- collections
def sym_list(E, kind, name):
    L = sym_ref(E, kind, name)
    h = E.heap
    n = h.sel("L.len", L.t)
    el = E.named(h.sel("L.el", L.t), "src")
    q = Int("q")
    E.assume(n >= 0, FA([q], Implies(And(0 <= q, q < n), And(Val.is_vref(Select(el, q)), R(Select(el, q)) > 0, R(Select(el, q)) < h.alloc,
                                                              E.is_cls(R(Select(el, q)), "Node"))), [Select(el, q)]))
    return L, n, el


def typed_fields(E, r, kind):
    h = E.heap
    t = h.sel("F." + ATTRS.key(E.prog, kind, "fieldtypes"), r.t)
    E.assume(t > 0, t < h.alloc, E.is_cls(t, "dict"))
    return RefV(t, "dict")


def sym_collection(E, k):
    """a collection and the sequence of its nodes: (object, n, el, attached layer or None)"""
    if k == 0:
        L, n, el = sym_list(E, "NodeList", "list")
        typed_fields(E, L, "NodeList")
        return L, n, el, None
    if k == 1:
        q = sym_ref(E, "NodeCollectionQuery", "query")
        res, n, el = sym_list(E, "list", "res")
        E.hput("F." + ATTRS.key(E.prog, "NodeCollectionQuery", "result"), q.t, res.t)
        typed_fields(E, q, "NodeCollectionQuery")
        return q, n, el, None
    L = sym_layer(E)
    v = LV(E, L)
    return L, v.n, v.el, L


KINDS = ["NodeList", "query result", "layer"]


def result_list(E, q):
    h = E.heap
    t = h.sel("F." + ATTRS.key(E.prog, "NodeCollectionQuery", "result"), q.t)
    return h.sel("L.len", t), E.named(h.sel("L.el", t), "res")


def check_filtered(E, n, el, layer, m, out, filters):
    """out[0..m) is exactly the sequence of nodes in el[0..n) that satisfy the predicate"""
    if not filters:
        raise Unsupported("result not computed by a filter")
    h = E.heap
    j, k, i = E.fresh("j", I), E.fresh("k", I), E.fresh("i", I)
    e, f, s = Select(out, j), Select(out, k), Select(el, i)

    def ix(t):
        for fl in reversed(filters):
            t = fl[0](t)
        return t

    def rk(t):
        for fl in filters:
            t = fl[1](t)
        return t
    inj, ink = And(0 <= j, j < m), And(0 <= k, k < m)
    src = lambda t: And(0 <= ix(t), ix(t) < n)
    E.assume(seen(ix(j)), seen(ix(k)), seen(rk(i)))
    E.check("results come from the collection", Implies(inj, And(src(j), e == Select(el, ix(j)), e != none)))
    E.check("results satisfy the predicate", Implies(inj, holds(E, e)))
    E.check("collection order, once each", Implies(And(inj, ink, j < k), ix(j) < ix(k)))
    E.check("every node satisfying the predicate is returned", Implies(And(0 <= i, i < n, s != none, holds(E, s)), And(0 <= rk(i), rk(i) < m, Select(out, rk(i)) == s)))


def spy_filters(E):
    """collect the witnesses of every filter performed"""
    E.filters = []
    if not hasattr(E, "_fl0"):
        E._fl0 = E.filter_list

        def wrapped(w, cond, fn, kind="list"):
            E.last_filter = None
            r = E._fl0(w, cond, fn, kind)
            if E.last_filter is not None:
                E.filters.append(E.last_filter)
            return r
        E.filter_list = wrapped


for k, kn in enumerate(KINDS):
    def mk(k, kn):
        @unit(P, "query over a %s" % kn, [Q + "__init__", NC + "__getitem__"] + ([] if k != 2 else ["model.NodeLayerCollection.__iter__", "model.NodeLayerCollection.__getitem__"]),
              axioms=AX)
        def _(E):
            C, n, el, layer = sym_collection(E, k)
            E.assume(FA([Int("q")], Implies(And(0 <= Int("q"), Int("q") < n), seen(Int("q"))), [Select(el, Int("q"))]))
            spy_filters(E)
            try:
                q = E.getitem(C, predicate())
            except PyExc as e:
                no_exc(E, Out(None, e.kind))
            if not isinstance(q, RefV) or q.kind != "NodeCollectionQuery":
                raise Unsupported("query object")
            m, out = result_list(E, q)
            check_filtered(E, n, el, layer, m, out, E.filters)
            ln = call(E, Q + "__len__", [q])
            no_exc(E, ln)
            E.check("len", ln.val.t == m)
            it = call(E, Q + "__iter__", [q])
            no_exc(E, it)
            w = E.view(it.val)
            j = E.fresh("j", I)
            E.check("iteration yields the results", And(w.n() == m, Implies(And(0 <= j, j < m), E.to_val(w.at(j)) == Select(out, j))))
            cover(E, "end")

        @unit(P, "refresh of a query over a %s" % kn, [Q + "update"], axioms=AX)
        def _(E):
            C, n, el, layer = sym_collection(E, k)
            q = sym_ref(E, "NodeCollectionQuery", "q")
            E.hput("F." + ATTRS.key(E.prog, "NodeCollectionQuery", "collection"), q.t, VR(C.t))
            p = predicate()
            E.hput("F.predicate", q.t, E.to_val(p))
            E.assume(q.t != C.t)
            E.assume(cls(C.t) == E.prog.class_ids[C.kind])
            spy_filters(E)
            o = call(E, Q + "update", [q])
            no_exc(E, o)
            m, out = result_list(E, q)
            check_filtered(E, n, el, layer, m, out, E.filters)
            cover(E, "end")
    mk(k, kn)


# ---------------------------------------------------------------- field predicates
def sym_node_value(E):
    """a node, a field name and node.get(field)"""
    n = sym_ref(E, "Node", "n")
    E.assume(cls(n.t) == E.prog.class_ids["Node"])
    f = sym_str(E, "field")
    has = Select(E.heap.sel("D.dom", n.t), E.to_val(f))
    if E.choose(has, "field present"):
        v = E.dict_get(n, f)
    else:
        v = NONE
    return n, f, v


def sym_fc(E, f, collection=None):
    c = collection or sym_ref(E, "NodeLayerCollection", "coll")
    try:
        return E.construct("NodeFieldCollection", [c, f], {})
    except PyExc as e:
        no_exc(E, Out(None, e.kind))


def same_outcome(E, got, want, what):
    if got.raised or want.raised:
        E.check(what + ": raises exactly when the expression does", BoolVal(got.exc == want.exc))
        return
    E.check(what, E.truth(got.val) == E.truth(want.val))


OPS = [("__eq__", ast.Eq, "=="), ("__ne__", ast.NotEq, "!="), ("__lt__", ast.Lt, "<"), ("__le__", ast.LtE, "<="),
       ("__gt__", ast.Gt, ">"), ("__ge__", ast.GtE, ">=")]
for meth, op, sym in OPS:
    def mk(meth, op, sym):
        @unit(P, "field %s value" % sym, [FC + meth], axioms=AX)
        def _(E):
            n, f, v = sym_node_value(E)
            other = sym_any(E, "other")
            ty = E.choose_n(4)
            if ty == 0:
                other = sym_int(E, "other_i")
            elif ty == 1:
                other = sym_str(E, "other_s")
            elif ty == 2:
                other = NONE
            fc = sym_fc(E, f)
            p = call(E, FC + meth, [fc, other])
            no_exc(E, p)
            want = outcome(E, lambda: E.compare(op(), v, other))
            got = outcome(E, lambda: E.call(p.val, [n]))
            same_outcome(E, got, want, "node satisfies it exactly when n.get(field) %s value" % sym)
            cover(E, "end")
    mk(meth, op, sym)


@unit(P, "field is None / has a value", [FC + "is_none", FC + "has_value", FC + "filter"], axioms=AX)
def _(E):
    n, f, v = sym_node_value(E)
    fc = sym_fc(E, f)
    for nme, want in (("is_none", E.to_val(v) == none), ("has_value", E.to_val(v) != none)):
        p = call(E, FC + nme, [fc])
        no_exc(E, p)
        r = outcome(E, lambda: E.call(p.val, [n]))
        no_exc(E, r)
        E.check(nme, E.truth(r.val) == want)
    cover(E, "end")


@unit(P, "field filter with a user function", [FC + "filter"], axioms=AX)
def _(E):
    n, f, v = sym_node_value(E)
    fc = sym_fc(E, f)
    p = call(E, FC + "filter", [fc, predicate()])
    no_exc(E, p)
    r = outcome(E, lambda: E.call(p.val, [n]))
    no_exc(E, r)
    E.check("exactly when fn(n.get(field)) is true", E.truth(r.val) == holds(E, E.to_val(v)))
    cover(E, "end")


@unit(P, "field is any of the given values", [FC + "is_any"], axioms=AX)
def _(E):
    n, f, v = sym_node_value(E)
    fc = sym_fc(E, f)
    items = sym_ref(E, "list", "items")
    m, el = E.heap.sel("L.len", items.t), E.named(E.heap.sel("L.el", items.t), "items")
    E.assume(m >= 0)
    p = call(E, FC + "is_any", [fc, ("*view", E.view(items))])
    no_exc(E, p)
    r = outcome(E, lambda: E.call(p.val, [n]))
    no_exc(E, r)
    t = E.truth(r.val)
    i = E.fresh("i", I)
    q = Int("q")
    E.check("a value among the items satisfies it", Implies(And(0 <= i, i < m, Select(el, i) == E.to_val(v)), t))
    E.check("a value not among the items does not", Implies(And(t, FA([q], Implies(And(0 <= q, q < m), Select(el, q) != E.to_val(v)), [Select(el, q)])), BoolVal(False)))
    cover(E, "end")


@unit(P, "field covered by / intersected by a range", [FC + "covered_by", FC + "intersected_by"], axioms=AX)
def _(E):
    n, f, v = sym_node_value(E)
    s = sym_span(E, "span")
    E.assume(E.to_val(v) == VR(s.t))
    c = sym_layer(E, "coll", wf=False)
    E.assume(c.t != n.t)
    ft = typed_fields(E, c, "NodeLayerCollection")
    dt = sym_ref(E, "DataType", "dt")
    E.assume(Select(E.heap.sel("D.dom", ft.t), E.to_val(f)), Select(E.heap.sel("D.map", ft.t), E.to_val(f)) == VR(dt.t))
    is_span = E.heap.sel("F.typename", dt.t) == E.to_val(E.atom_of("DataTypeEnum", "SPAN"))
    E.assume(is_span)
    lo, hi = sym_int(E, "lo"), sym_int(E, "hi")
    fc = sym_fc(E, f, c)
    a, b = F(E, "_start", s), F(E, "_stop", s)
    if E.choose_n(2):
        p = call(E, FC + "covered_by", [fc, lo, hi])
        want = And(lo.t <= a, b <= hi.t)
    else:
        p = call(E, FC + "intersected_by", [fc, lo, hi])
        want = And(lo.t < b, a < hi.t)
    no_exc(E, p)
    r = outcome(E, lambda: E.call(p.val, [n]))
    no_exc(E, r)
    E.check("exactly when the span is contained / intersects", E.truth(r.val) == want)
    cover(E, "end")


# ---------------------------------------------------------------- combinations
pv2 = Function("predicate_holds_for", Val, Val, B)


def any_call(E, f, args, kw):
    E.calls.append((f.t, E.to_val(args[0])))
    return BoolV(pv2(f.t, E.to_val(args[0])))


for kind, meth, sem in (("NodePredicateAnd", "__and__", And), ("NodePredicateOr", "__or__", Or), ("NodePredicateInvert", "__invert__", None)):
    def mk(kind, meth, sem):
        @unit(P, "predicate %s" % meth, ["query.%s.__call__" % kind, "query.NodePredicate." + meth], axioms=AX)
        def _(E):
            E.any_call = any_call
            E.calls = []
            n = sym_ref(E, "Node", "n")
            p = sym_ref(E, "NodePredicateOr", "p")
            q = sym_any(E, "q")
            r = call(E, "query.NodePredicate." + meth, [p, q] if sem else [p])
            no_exc(E, r)
            h = E.heap
            if not isinstance(r.val, RefV):
                raise Unsupported("combined predicate")
            # replace the operands by arbitrary callables
            if sem:
                ok = And(h.sel("F.lft", r.val.t) == VR(p.t), h.sel("F.rgt", r.val.t) == q.t)
            else:
                ok = h.sel("F.pred", r.val.t) == VR(p.t)
            E.check("operands", ok)
            a, b = sym_any(E, "a"), sym_any(E, "b")
            o = E.construct(r.val.kind, [a, b] if sem else [a], {})
            x = outcome(E, lambda: E.call(o, [n]))
            no_exc(E, x)
            va, vb = pv2(a.t, VR(n.t)), pv2(b.t, VR(n.t))
            E.check("truth value", E.truth(x.val) == (sem(va, vb) if sem else Not(va)))
            if sem and len(E.calls) > 1:
                E.check("second operand only evaluated when needed", va if sem is And else Not(va))
            cover(E, "end")
    mk(kind, meth, sem)


fn_multi = Function("fn_of_values", IV, I, Val)


@unit(P, "layer.filter(*fields, fn=)", ["model.NodeLayerCollection.filter", "query.NodeLambdaPredicate.__call__"], axioms=AX)
def _(E):
    n = sym_ref(E, "Node", "n")
    E.assume(cls(n.t) == E.prog.class_ids["Node"])
    L = sym_ref(E, "NodeLayerCollection", "layer")
    k = E.choose_n(4)
    fields = [sym_str(E, "f%d" % j) for j in range(k)]
    got = []

    def body(E, args, kw):
        if any(isinstance(a, tuple) for a in args):
            if len(args) != 1:
                raise Unsupported("mixed")
            w = E.view(args[0][1])
            c = conc(w.n())
            if c is None:
                raise Unsupported("number of values")
            args = [w.at(IntVal(j)) for j in range(c)]
        got.append([E.to_val(a) for a in args])
        return AnyV(E.fresh("ret", Val))
    fn = OpaqueFn("fn", body)
    p = call(E, "model.NodeLayerCollection.filter", [L] + fields, {"fn": fn})
    no_exc(E, p)
    r = outcome(E, lambda: E.call(p.val, [n]))
    no_exc(E, r)
    E.check("fn called once with one value per field", BoolVal(len(got) == 1 and len(got[0]) == k))
    if len(got) == 1 and len(got[0]) == k:
        for f, g in zip(fields, got[0]):
            kf = E.to_val(f)
            E.check("value of the field", g == If(Select(E.heap.sel("D.dom", n.t), kf), Select(E.heap.sel("D.map", n.t), kf), none))
    cover(E, "end")


# ---------------------------------------------------------------- field access
for k, kn in enumerate(KINDS):
    def mk(k, kn):
        @unit(P, "field values of a %s" % kn, [FC + "__iter__", FC + "to_list", FC + "__len__", FC + "__init__"], axioms=AX)
        def _(E):
            C, n, el, layer = sym_collection(E, k)
            E.assume(cls(C.t) == E.prog.class_ids[C.kind])
            f = sym_str(E, "field")
            E.assume(FA([Int("q")], Implies(And(0 <= Int("q"), Int("q") < n), seen(Int("q"))), [Select(el, Int("q"))]))
            ft = typed_fields(E, C, C.kind)
            E.assume(Select(E.heap.sel("D.dom", ft.t), E.to_val(f)))
            spy_filters(E)
            try:
                fc = E.getitem(C, f)
            except PyExc as e:
                no_exc(E, Out(None, e.kind))
            if not isinstance(fc, RefV) or fc.kind != "NodeFieldCollection":
                E.check("field access gives the field's values", BoolVal(False))
                return
            o = call(E, FC + "to_list", [fc])
            no_exc(E, o)
            w = E.view(o.val)
            m = w.n()
            h = E.heap
            get = lambda x: If(Select(h.sel("D.dom", R(x)), E.to_val(f)), Select(h.sel("D.map", R(x)), E.to_val(f)), none)
            j, i = E.fresh("j", I), E.fresh("i", I)
            if layer is None or not E.filters:
                E.check("one value per node", m == n)
                E.check("values in order", Implies(And(0 <= j, j < m), E.to_val(w.at(j)) == get(Select(el, j))))
            else:
                ixf, rkf = E.filters[0][0], E.filters[0][1]
                E.assume(seen(ixf(j)), seen(rkf(i)))
                E.check("values come from the nodes in order", Implies(And(0 <= j, j < m), And(0 <= ixf(j), ixf(j) < n, Select(el, ixf(j)) != none, E.to_val(w.at(j)) == get(Select(el, ixf(j))))))
                E.check("order", Implies(And(0 <= j, j < i, i < m), ixf(j) < ixf(i)))
                E.check("every node's value", Implies(And(0 <= i, i < n, Select(el, i) != none), And(0 <= rkf(i), rkf(i) < m, ixf(rkf(i)) == i)))
            if layer is None:
                ln = call(E, FC + "__len__", [fc])
                no_exc(E, ln)
                E.check("len", ln.val.t == n)
            else:
                ln = call(E, FC + "__len__", [fc])
                no_exc(E, ln)
                E.check("len", ln.val.t == LV(E, layer).num)
            cover(E, "end")
    mk(k, kn)
