"""C19: schema edits keep nodes and schema consistent."""
from .layer import *
from .c18 import sym_fields, fields_typed, sym_typed_layer, default_of, check_defaults, dom, dmap, node_field, opt_is, update_defaults_summary

P = "C19"
Q = "model.NodeLayerCollection."
D = "model.Document."
AX = lambda E: CNT_AXIOMS


def use_iter(E):
    E.summaries[Q + "__iter__"] = iter_summary
    E.summaries[Q + "_update_default_values"] = update_defaults_summary


def rank_of(L):
    tag = L.view.tag
    if not (isinstance(tag, tuple) and tag[0] == "rank"):
        raise Unsupported("the loop does not run over the layer")
    return tag[1]


def heaps(E, e, h):
    return (E.named(e.term("D.dom"), "dom0"), E.named(e.term("D.map"), "map0"), E.named(h.term("D.dom"), "dom1"), E.named(h.term("D.map"), "map1"))


def set_spec():
    """after i nodes: exactly the first i nodes have the field set"""
    def inv(E, L):
        s = L.var("self")
        e, h = L.entry, E.heap
        v = LV(E, s, e)
        rk = rank_of(L)
        x, k = Int("x"), Const("k", Val)
        d0, m0, d1, m1 = heaps(E, e, h)
        key, val = L.val("name"), L.val("defaultvalue")
        old = And(0 < x, x < e.alloc)
        hit = And(v.att(x), rk(x) < L.i, k == key)
        return [("set", FA([x, k], Implies(old, Select(Select(d1, x), k) == Or(Select(Select(d0, x), k), hit)), [Select(Select(d1, x), k)])),
                ("values", FA([x, k], Implies(old, Select(Select(m1, x), k) == If(hit, val, Select(Select(m0, x), k))), [Select(Select(m1, x), k)]))]
    return [LoopSpec(inv)]


def del_spec():
    def inv(E, L):
        s = L.var("self")
        e, h = L.entry, E.heap
        v = LV(E, s, e)
        rk = rank_of(L)
        x, k = Int("x"), Const("k", Val)
        d0, m0, d1, m1 = heaps(E, e, h)
        key = L.val("name")
        old = And(0 < x, x < e.alloc)
        hit = And(v.att(x), rk(x) < L.i, k == key)
        return [("removed", FA([x, k], Implies(old, Select(Select(d1, x), k) == And(Select(Select(d0, x), k), Not(hit))), [Select(Select(d1, x), k)])),
                ("values", FA([x, k], Implies(And(old, Not(hit)), Select(Select(m1, x), k) == Select(Select(m0, x), k)), [Select(Select(m1, x), k)]))]
    return [LoopSpec(inv)]


def rank_seen(E):
    """the deciding comprehension: make its index function available for arbitrary keys"""
    if E.last_filter is not None:
        E.assume(seen(E.last_filter[1](E.fresh("r", I))))


def frame_nodes(E, L, old, except_key=None):
    v = LV(E, L, old)
    x, k = E.fresh("x", I), E.fresh("k", Val)
    dv = old.sel("F._default_values", L.t)
    h0, v0 = node_field(E, x, k, old)
    h1, v1 = node_field(E, x, k)
    return x, k, h0, v0, h1, v1, v


@unit(P, "add_field", [Q + "add_field", "model.NodeLayerSchema.add"], axioms=AX, setup=use_iter, loops={Q + "add_field": set_spec()})
def _(E):
    L, s, ft = sym_typed_layer(E, wf=True)
    name = sym_str(E, "name")
    dt = sym_ref(E, "DataType", "dtype")
    o_ = E.heap.sel("F.options", dt.t)
    E.assume(o_ > 0, o_ < E.heap.alloc, cls(o_) == E.prog.class_ids["dict"], o_ != ft.t)
    init = BoolV(E.fresh("init", B))
    old = E.heap.copy()
    key = E.to_val(name)
    exists = Select(dom(E, ft.t), key)
    x0, k0 = E.fresh("x", I), E.fresh("k", Val)
    E.last_filter = None
    o = call(E, Q + "add_field", [L, name, dt, init])
    h = E.heap
    if o.raised:
        E.check("rejected only when the field exists", exists)
        E.check("a rejected field changes nothing", And(node_field(E, x0, k0)[0] == node_field(E, x0, k0, old)[0], node_field(E, x0, k0)[1] == node_field(E, x0, k0, old)[1],
                                                       h.sel("F._default_values", L.t) == old.sel("F._default_values", L.t)))
        cover(E, "rejected")
        return
    E.check("an existing field is rejected", Not(exists))
    E.check("the schema object stays", And(h.sel("F._schema", L.t) == s.t, h.sel("F." + ATTRS.key(E.prog, "NodeLayerSchema", "fields"), s.t) == ft.t))
    E.check("the schema gains exactly this field", Select(dom(E, ft.t), k0) == Or(Select(dom(E, ft.t, old), k0), k0 == key))
    E.check("with the given type", Select(dmap(E, ft.t), key) == VR(dt.t))
    E.check("other types stay", Implies(k0 != key, Select(dmap(E, ft.t), k0) == Select(dmap(E, ft.t, old), k0)))
    check_defaults(E, L, ft.t)
    v = LV(E, L, old)
    dflt = default_of(E, dt.t, old)
    E.assume(0 < x0, x0 < old.alloc, x0 != ft.t)
    h0, v0 = node_field(E, x0, k0, old)
    h1, v1 = node_field(E, x0, k0)
    hit = And(init.t, dflt != none, v.att(x0), k0 == key)
    E.check("existing nodes get the default of the new field when requested, nothing else changes", h1 == Or(h0, hit))
    E.check("existing nodes get the declared default, other values stay", v1 == If(hit, dflt, v0))
    b = LV(E, L)
    E.check("the nodes of the layer stay", And(b.lst == v.lst, b.n == v.n, b.num == v.num, b.att(x0) == v.att(x0), b.id(x0) == v.id(x0)))
    cover(E, "added")


@unit(P, "remove_field", [Q + "remove_field"], axioms=AX, setup=use_iter, loops={Q + "remove_field": del_spec()})
def _(E):
    L, s, ft = sym_typed_layer(E, wf=True)
    name = sym_str(E, "name")
    leave = BoolV(E.fresh("leave", B))
    old = E.heap.copy()
    key = E.to_val(name)
    exists = Select(dom(E, ft.t), key)
    x0, k0 = E.fresh("x", I), E.fresh("k", Val)
    E.last_filter = None
    o = call(E, Q + "remove_field", [L, name, leave])
    no_exc(E, o)
    h = E.heap
    r = E.truth(o.val)
    E.check("reports whether the field existed", r == exists)
    h0, v0 = node_field(E, x0, k0, old)
    h1, v1 = node_field(E, x0, k0)
    E.check("without the field nothing changes", Implies(Not(exists), And(h0 == h1, v0 == v1, h.sel("F._default_values", L.t) == old.sel("F._default_values", L.t))))
    E.assume(exists)
    E.check("the schema object stays", And(h.sel("F._schema", L.t) == s.t, h.sel("F." + ATTRS.key(E.prog, "NodeLayerSchema", "fields"), s.t) == ft.t))
    E.check("the schema loses exactly this field", Select(dom(E, ft.t), k0) == And(Select(dom(E, ft.t, old), k0), k0 != key))
    E.check("other types stay", Implies(k0 != key, Select(dmap(E, ft.t), k0) == Select(dmap(E, ft.t, old), k0)))
    check_defaults(E, L, ft.t)
    v = LV(E, L, old)
    E.assume(0 < x0, x0 < old.alloc, x0 != ft.t)
    hit = And(Not(leave.t), v.att(x0), k0 == key)
    E.check("attached nodes lose the field unless told otherwise, nothing else changes", h1 == And(h0, Not(hit)))
    E.check("other values stay", Implies(Not(hit), v1 == v0))
    b = LV(E, L)
    E.check("the nodes of the layer stay", And(b.lst == v.lst, b.n == v.n, b.num == v.num, b.att(x0) == v.att(x0), b.id(x0) == v.id(x0)))
    cover(E, "removed")


# ---------------------------------------------------------------- removing a layer
@unit(P, "remove_layer of an unknown layer", [D + "remove_layer"], axioms=AX)
def _(E):
    doc = sym_ref(E, "Document", "doc")
    name = sym_str(E, "name")
    ld = E.heap.sel("F." + ATTRS.key(E.prog, "Document", "_layers"), doc.t)
    E.assume(ld > 0, ld < E.heap.alloc, cls(ld) == E.prog.class_ids["dict"], Not(Select(dom(E, ld), E.to_val(name))))
    old = E.heap.copy()
    o = call(E, D + "remove_layer", [doc, name, BoolV(E.fresh("cascade", B))])
    no_exc(E, o)
    x, k = E.fresh("x", I), E.fresh("k", Val)
    E.check("reports failure", Not(E.truth(o.val)))
    E.assume(0 < x, x < old.alloc)
    E.check("changes nothing", And(node_field(E, x, k)[0] == node_field(E, x, k, old)[0], node_field(E, x, k)[1] == node_field(E, x, k, old)[1]))
    cover(E, "end")
