"""C07: values outside a declared field type never pass validation or encoding."""
from .layer import *
from .c02 import adding_inv, const_inv
from .c18 import sym_typed_layer, fields_typed, typed_formula, opt_is, ENUM, sym_fields

P = "C07"
Q = "model.NodeLayerCollection."
AX = lambda E: CNT_AXIOMS
seenb = Function("seenb", B, B)
LAYERKEY = lambda E: E.to_val(E.const("layer"))
CTXKEY = lambda E: E.to_val(E.const("context"))


def tn(E, name):
    return E.to_val(E.atom_of("DataTypeEnum", name))


# ---------------------------------------------------------------- what a type accepts (the specification)
def opt(E, dt, key, h):
    return Select(h.sel("D.map", h.sel("F.options", dt)), key)


def name_of(E, L, h):
    return Val.vstr(h.sel("F." + ATTRS.key(E.prog, "NodeLayerSchema", "name"), h.sel("F._schema", L)))


def in_layer(E, n, name, h):
    """node n is attached to a layer of the given name"""
    c = h.sel("F.collection", n)
    return And(c != none, name_of(E, R(c), h) == name)


def integer(v, lo, hi):
    return Or(Val.is_vbool(v), And(Val.is_vint(v), lo <= Val.i(v), Val.i(v) < hi))


def sym_dt(E, cname):
    d = sym_ref(E, cname, "dt")
    h = E.heap
    E.assume(cls(d.t) == E.prog.class_ids[cname])
    o = h.sel("F.options", d.t)
    E.assume(o > 0, o < h.alloc, cls(o) == E.prog.class_ids["dict"])
    return d


def pure(E, h0):
    x = E.fresh("obj", I)
    for c in sorted(set(E.heap.c)):
        if not E.heap.term(c).eq(h0.term(c)):
            E.check("validation changes nothing (%s)" % c, Implies(And(0 < x, x < h0.alloc), E.heap.sel(c, x) == h0.sel(c, x)))


def run_valid(E, d, v):
    h0 = E.heap.copy()
    try:
        r = E.call(E.getattr_(d, "is_valid"), [v])
        if isinstance(r, GenV):
            r = E.run_gen(r)
        o = Out(r)
    except PyExc as e:
        o = Out(None, e.kind)
    pure(E, h0)
    return o


def check_valid(E, o, ok):
    if o.raised:
        E.check("an accepted value does not raise (%s)" % o.exc, Not(ok))
        cover(E, "raises")
        return
    t = E.truth(o.val)
    E.check("accepted only if it belongs to the type", Implies(t, ok))
    E.check("accepted if it belongs to the type", Implies(ok, t))
    cover(E, "end")


SCALARS = {
    "DataTypeBool": lambda v: Val.is_vbool(v),
    "DataTypeInt32": lambda v: integer(v, -2 ** 31, 2 ** 31),
    "DataTypeInt64": lambda v: integer(v, -2 ** 63, 2 ** 63),
    "DataTypeFloat": lambda v: Val.is_vflt(v),
    "DataTypeString": lambda v: And(Val.is_vstr(v), sq_len(Val.s(v)) < 2 ** 31),
    "DataTypeBinary": lambda v: And(Val.is_vbyt(v), sq_len(Val.y(v)) < 2 ** 31),
}


def scalar_unit(cname):
    @unit(P, "%s accepts exactly its values" % cname[8:].lower(), "model.%s.is_valid" % cname, axioms=AX)
    def _(E):
        d = sym_dt(E, cname)
        v = sym_any(E, "value")
        check_valid(E, run_valid(E, d, v), SCALARS[cname](v.t))


for _c in SCALARS:
    scalar_unit(_c)


def node_ok(E, n):
    """a node handed in by a caller: attached to a layer with a schema, or to none"""
    h = E.heap
    c = h.sel("F.collection", n)
    sch = h.sel("F._schema", R(c))
    return And(n > 0, n < h.alloc, Or(c == none, And(Val.is_vref(c), R(c) > 0, R(c) < h.alloc, cls(R(c)) == E.prog.class_ids["NodeLayerCollection"],
                                                     sch > 0, sch < h.alloc, E.is_cls(sch, "NodeLayerSchema"), h.sel("F._id", n) >= 0)))


@unit(P, "text span type accepts exactly spans of its text", "model.DataTypeTextspan.is_valid", axioms=AX)
def _(E):
    d = sym_dt(E, "DataTypeTextspan")
    h = E.heap
    E.assume(Select(h.sel("D.dom", h.sel("F.options", d.t)), CTXKEY(E)))
    v = sym_any(E, "value")
    is_sp = And(Val.is_vref(v.t), E.is_cls(R(v.t), "TextSpan"))
    t = h.sel("F.TextSpan.text", R(v.t))
    E.assume(Implies(is_sp, And(t > 0, t < h.alloc, E.is_cls(t, "Text"))))
    ok = And(is_sp, Val.vstr(h.sel("F." + ATTRS.key(E.prog, "Text", "name"), t)) == opt(E, d.t, CTXKEY(E), h))
    check_valid(E, run_valid(E, d, v), ok)


@unit(P, "node reference type accepts exactly attached nodes of its layer", "model.DataTypeNoderef.is_valid", axioms=AX)
def _(E):
    d = sym_dt(E, "DataTypeNoderef")
    h = E.heap
    E.assume(Select(h.sel("D.dom", h.sel("F.options", d.t)), LAYERKEY(E)))
    v = sym_any(E, "value")
    is_n = And(Val.is_vref(v.t), E.is_cls(R(v.t), "Node"))
    E.assume(Implies(is_n, node_ok(E, R(v.t))))
    check_valid(E, run_valid(E, d, v), And(is_n, in_layer(E, R(v.t), opt(E, d.t, LAYERKEY(E), h), h)))


@unit(P, "node span type accepts exactly ordered spans of its layer", "model.DataTypeNodespan.is_valid", axioms=AX)
def _(E):
    d = sym_dt(E, "DataTypeNodespan")
    h = E.heap
    E.assume(Select(h.sel("D.dom", h.sel("F.options", d.t)), LAYERKEY(E)))
    v = sym_any(E, "value")
    is_s = And(Val.is_vref(v.t), E.is_cls(R(v.t), "NodeSpan"))
    l, r = h.sel("F.NodeSpan.left", R(v.t)), h.sel("F.NodeSpan.right", R(v.t))
    E.assume(Implies(is_s, And(node_ok(E, l), node_ok(E, r), E.is_cls(l, "Node"), E.is_cls(r, "Node"))))
    nm = opt(E, d.t, LAYERKEY(E), h)
    ok = And(is_s, in_layer(E, l, nm, h), in_layer(E, r, nm, h), h.sel("F._id", l) <= h.sel("F._id", r))
    check_valid(E, run_valid(E, d, v), ok)


@unit(P, "node list type accepts exactly lists of attached nodes of its layer", "model.DataTypeNoderefList.is_valid", axioms=AX)
def _(E):
    d = sym_dt(E, "DataTypeNoderefList")
    h = E.heap
    E.assume(Select(h.sel("D.dom", h.sel("F.options", d.t)), LAYERKEY(E)))
    if E.choose_n(2) == 0:
        v = sym_any(E, "value")
        E.assume(Not(And(Val.is_vref(v.t), Or(E.is_cls(R(v.t), "list"), E.is_cls(R(v.t), "NodeCollection")))))
        check_valid(E, run_valid(E, d, v), BoolVal(False))
        return
    l = sym_ref(E, "list", "nodes")
    n, el = h.sel("L.len", l.t), E.named(h.sel("L.el", l.t), "src")
    E.assume(n >= 0, cls(l.t) == E.prog.class_ids["list"])
    q = Int("q")
    e = Select(el, q)
    isn = lambda v: And(Val.is_vref(v), E.is_cls(R(v), "Node"))
    E.assume(FA([q], Implies(And(0 <= q, q < n, isn(e)), node_ok(E, R(e))), [e]))
    E.last_map = None
    nm = opt(E, d.t, LAYERKEY(E), h)
    o = run_valid(E, d, l)
    i = E.fresh("i", I)
    if o.raised:
        E.check("a list never raises (%s)" % o.exc, BoolVal(False))
        return
    t = E.truth(o.val)
    E.assume(seen(R(Select(el, i))))
    if getattr(E, "last_map", None) is not None:
        E.assume(seenv(Select(E.last_map, i)))
    E.check("accepted only if every node belongs to the layer", Implies(And(t, 0 <= i, i < n), And(isn(Select(el, i)), in_layer(E, R(Select(el, i)), nm, h))))
    good = FA([q], Implies(And(0 <= q, q < n), And(isn(e), in_layer(E, R(e), nm, h))), [e])
    E.check("accepted if every node belongs to the layer", Implies(good, t))
    cover(E, "end")


# ---------------------------------------------------------------- validating a node
okv = Function("accepted", I, Val, B)         # accepted(type, value): the value belongs to the type (is_valid contracts above)


def is_valid_summary(E, o):
    """contract of DataType*.is_valid (units above): true exactly for values of the type; may raise for others; changes nothing"""
    def body(E, args, kw):
        v = E.to_val(args[0])
        if E.choose(okv(o.t, v)):
            return BoolV(BoolVal(True))
        if E.choose(E.fresh("is_valid_raises", B)):
            raise PyExc("OpaqueError")
        if isinstance(args[0], AnyV):
            args[0].info = "chaos"          # what the error message is built from does not matter
        return BoolV(BoolVal(False))
    return OpaqueFn("is_valid", body)


def use_is_valid(E):
    E.attr_hooks[("DataType", "is_valid")] = is_valid_summary


def accepted(E, h, n, ft, k):
    """field k of node n is absent, not declared, or has a value of its declared type"""
    fd, fm = h.sel("D.dom", ft), h.sel("D.map", ft)
    return Implies(And(Select(fd, k), Select(h.sel("D.dom", n), k)), okv(R(Select(fm, k)), Select(h.sel("D.map", n), k)))


def validate_specs():
    def inv(E, L):
        s, n = L.var("self"), L.var("node")
        h = L.entry
        ft = h.sel("F." + ATTRS.key(E.prog, "NodeLayerSchema", "fields"), h.sel("F._schema", s.t))
        q = Int("q")
        key = Select(h.sel("D.key", ft), q)
        return [("in range", L.i <= L.n), ("fields seen are accepted", FA([q], Implies(And(0 <= q, q < L.i), accepted(E, h, n.t, ft, key)), [key]))]
    return [LoopSpec(inv), LoopSpec(lambda E, L: [("in range", L.i <= L.n)])]


@unit(P, "validate accepts exactly nodes whose fields all belong to their type", Q + "validate", axioms=AX, setup=use_is_valid, loops={Q + "validate": validate_specs()})
def _(E):
    L, s, ft = sym_typed_layer(E)
    n = sym_ref(E, "Node", "node")
    h = E.heap
    E.assume(h.sel("F.collection", n.t) == VR(L.t), n.t != ft.t)
    E.dict_facts(ft)
    h0 = E.heap.copy()
    o = call(E, Q + "validate", [L, n])
    pure(E, h0)
    k = E.fresh("key", Val)
    x = Const("k", Val)
    fd = h0.sel("D.dom", ft.t)
    allok = FA([x], accepted(E, h0, n.t, ft.t, x), [Select(fd, x)])
    if o.raised:
        E.check("a valid node does not raise (%s)" % o.exc, Not(allok))
        cover(E, "raises")
        return
    t = E.truth(o.val)
    E.assume(seenb(Select(fd, k)))
    E.check("accepted only if every field belongs to its type", Implies(t, accepted(E, h0, n.t, ft.t, k)))
    E.check("accepted if every field belongs to its type", Implies(allok, t))
    cover(E, "end")


# ---------------------------------------------------------------- adding nodes
def validate_contract(E, args, kw):
    """contract of validate (proved above): true exactly if every declared field present has a value of its type, otherwise false or an error"""
    L, n = args
    h = E.heap
    ft = h.sel("F." + ATTRS.key(E.prog, "NodeLayerSchema", "fields"), h.sel("F._schema", L.t))
    E.check("validation requires an attached node", h.sel("F.collection", n.t) == VR(L.t))
    x = Const("k", Val)
    fd, nd = h.sel("D.dom", ft), h.sel("D.dom", n.t)
    ok = E.fresh("valid", B)
    w = E.fresh("badfield", Val)
    good = accepted(E, h, n.t, ft, x)
    E.assume(FA([x], Implies(ok, good), [Select(fd, x)]), FA([x], Implies(ok, good), [Select(nd, x)]))
    E.assume(Implies(Not(ok), Not(accepted(E, h, n.t, ft, w))))
    E.validated = (n.t, ok, w, h.copy())
    if E.choose(ok):
        return BoolV(BoolVal(True))
    if E.choose(E.fresh("validate_raises", B)):
        raise PyExc("AssertionError")
    return BoolV(BoolVal(False))


def use_validate_contract(E):
    E.summaries[Q + "validate"] = validate_contract


@unit(P, "add(**fields) adds exactly the valid nodes", Q + "add", axioms=AX, setup=use_validate_contract)
def _(E):
    L, s, ft = sym_typed_layer(E)
    kw = sym_ref(E, "dict", "kwargs")
    h0 = E.heap.copy()
    dv = h0.sel("F._default_values", L.t)
    E.assume(kw.t != dv, kw.t != ft.t, dv != ft.t)
    x = E.fresh("key", Val)
    # the fields the node gets: the keywords, otherwise the defaults (C18)
    fd, fm = h0.sel("D.dom", ft.t), h0.sel("D.map", ft.t)
    val = lambda k: If(Select(h0.sel("D.dom", kw.t), k), Select(h0.sel("D.map", kw.t), k), Select(h0.sel("D.map", dv), k))
    has = lambda k: Or(Select(h0.sel("D.dom", kw.t), k), Select(h0.sel("D.dom", dv), k))
    good = lambda k: Implies(And(Select(fd, k), has(k)), okv(R(Select(fm, k)), val(k)))
    E.validated = None
    o = call(E, Q + "add", [L], {"**": kw})
    if o.raised:
        w = E.validated[2] if E.validated else x
        E.check("only an invalid node is rejected (%s)" % o.exc, Not(good(w)))
        cover(E, "raises")
        return
    E.assume(seenb(Select(fd, x)))
    E.check("every field of an added node has a value of its type", good(x))
    E.check("the value set is the value validated", Implies(Select(E.heap.sel("D.dom", o.val.t), x), Select(E.heap.sel("D.map", o.val.t), x) == val(x)))
    cover(E, "end")


def valid_many_specs():
    def second(E, L):
        s = L.var("self")
        h = L.entry
        ft = h.sel("F." + ATTRS.key(E.prog, "NodeLayerSchema", "fields"), h.sel("F._schema", s.t))
        fd = h.sel("D.dom", ft)
        b = LV(E, s, h)
        start = L.int("start_pos")
        q, k = Int("q"), Const("k", Val)
        nd = R(Select(b.el, q))
        return [("in range", L.i <= L.n), ("nodes seen are valid", FA([q, k], Implies(And(start <= q, q < start + L.i), accepted(E, h, nd, ft, k)), [[Select(b.el, q), Select(fd, k)]]))]
    return [adding_inv("nodes"), LoopSpec(second, bind=lambda E, L, x: as_node(E, x)), const_inv(lambda E, L, x: as_node(E, x)), const_inv()]


@unit(P, "add_many with validation adds only valid nodes", Q + "add_many", axioms=AX, setup=use_validate_contract, loops={Q + "add_many": valid_many_specs()})
def _(E):
    L, s, ft = sym_typed_layer(E, wf=True)
    h0 = E.heap.copy()
    dv = h0.sel("F._default_values", L.t)
    E.assume(cls(dv) == E.prog.class_ids["dict"], dv != ft.t)
    E.dict_facts(RefV(dv, "dict"))
    l = sym_ref(E, "list", "nodes")
    n, el = h0.sel("L.len", l.t), h0.sel("L.el", l.t)
    E.assume(n >= 0, l.t != LV(E, L).lst)
    fill = BoolV(E.fresh("fill", B))
    i, k = E.fresh("i", I), E.fresh("k", Val)
    E.assume(0 <= i, i < n)
    o = call(E, Q + "add_many", [L, l, fill, BoolV(BoolVal(True))])
    if o.raised:
        return
    fd = h0.sel("D.dom", ft.t)
    a = LV(E, L, h0)
    E.assume(seenb(Select(fd, k)), seen(R(Select(LV(E, L).el, a.n + i))))
    nd = R(Select(el, i))
    E.check("every field given has a value of its type", accepted(E, h0, nd, ft.t, k))
    cover(E, "end")


@unit(P, "Node.is_valid tells exactly whether the node is valid", "model.Node.is_valid", axioms=AX, setup=use_validate_contract)
def _(E):
    L, s, ft = sym_typed_layer(E)
    n = sym_ref(E, "Node", "node")
    h = E.heap
    E.assume(h.sel("F.collection", n.t) == VR(L.t), n.t != ft.t)
    noexc = BoolV(E.fresh("noexcept", B))
    k = E.fresh("key", Val)
    o = call(E, "model.Node.is_valid", [n], {"noexcept": noexc})
    w = E.validated[2]
    fd = h.sel("D.dom", ft.t)
    E.assume(seenb(Select(fd, k)))
    if o.raised:
        E.check("errors are only raised on request", Not(noexc.t))
        E.check("a valid node does not raise", Not(accepted(E, h, n.t, ft.t, w)))
        return
    t = E.truth(o.val)
    E.check("true only if every field belongs to its type", Implies(t, accepted(E, h, n.t, ft.t, k)))
    E.check("false only if some field does not", Implies(Not(t), Not(accepted(E, h, n.t, ft.t, w))))
    cover(E, "end")
