"""C18: declared defaults are filled exactly; inferred types accept their value; merging picks the widest numeric type."""
from .layer import *
from .c02 import validate_summary, adding_inv, const_inv

P = "C18"
Q = "model.NodeLayerCollection."
T = "model.DataTypes."
AX = lambda E: CNT_AXIOMS
ENUM = ["UNKNOWN", "I32", "I64", "F64", "BOOL", "STRING", "BINARY", "NODEREF", "NODEREF_MANY", "SPAN", "EXT", "NODEREF_SPAN"]
DEFKEY = lambda E: E.to_val(E.const("default"))


# ---------------------------------------------------------------- schemas
def dom(E, d, h=None):
    return (h or E.heap).sel("D.dom", d)


def dmap(E, d, h=None):
    return (h or E.heap).sel("D.map", d)


def default_of(E, dt, h=None):
    """the declared default of a type: its 'default' option, None without one"""
    h = h or E.heap
    o = h.sel("F.options", dt)
    return If(Select(h.sel("D.dom", o), DEFKEY(E)), Select(h.sel("D.map", o), DEFKEY(E)), none)


def sym_fields(E, r, attr, kind):
    """the schema dictionary of an object: field names to types"""
    h = E.heap
    t = h.sel("F." + ATTRS.key(E.prog, kind, attr), r.t)
    E.assume(t > 0, t < h.alloc, cls(t) == E.prog.class_ids["dict"])      # created by NodeLayerSchema.__init__
    fields_typed(E, t)
    return RefV(t, "dict")


def typed_formula(E, t, h):
    """every field has a DataType with an options dictionary"""
    k = Const("k", Val)
    d, m = h.sel("D.dom", t), E.named(h.sel("D.map", t), "ftypes")
    v = Select(m, k)
    opt = h.sel("F.options", R(v))
    return FA([k], Implies(Select(d, k), And(Val.is_vref(v), R(v) > 0, R(v) < h.alloc, E.is_cls(R(v), "DataType"),
                                             opt > 0, opt < h.alloc, cls(opt) == E.prog.class_ids["dict"], opt != t)), [v])


def update_defaults_summary(E, args, kw):
    """contract of NodeLayerCollection._update_default_values (proved in C18)"""
    L = args[0]
    h = E.heap
    ft = h.sel("F." + ATTRS.key(E.prog, "NodeLayerSchema", "fields"), h.sel("F._schema", L.t))
    E.check("default computation requires typed fields", typed_formula(E, ft, h))
    nd = E.new_dict()
    D, M = E.fresh("ddom", VB), E.fresh("dmap", VV)
    x = Const("x", Val)
    fd, fm = E.named(h.sel("D.dom", ft), "fdom"), E.named(h.sel("D.map", ft), "ftypes")
    dt = R(Select(fm, x))
    has = And(Select(fd, x), default_of(E, dt, h) != none)
    E.assume(FA([x], Select(D, x) == has, [Select(D, x)]), FA([x], Select(D, x) == has, [Select(fd, x)]))
    E.assume(FA([x], Implies(has, Select(M, x) == default_of(E, dt, h)), [Select(M, x)]))
    E.hput("D.dom", nd.t, D)
    E.hput("D.map", nd.t, M)
    E.hput("D.n", nd.t, E.nonneg(E.fresh("dn", I)))
    E.hput("D.key", nd.t, E.fresh("dkey", IV))
    E.setfield(L, "_default_values", nd)
    return NONE


def fields_typed(E, t):
    h = E.heap
    k = Const("k", Val)
    d, m = h.sel("D.dom", t), E.named(h.sel("D.map", t), "ftypes")
    v = Select(m, k)
    opt = h.sel("F.options", R(v))
    E.assume(FA([k], Implies(Select(d, k), And(Val.is_vstr(k), Val.is_vref(v), R(v) > 0, R(v) < h.alloc, E.is_cls(R(v), "DataType"),
                                               opt > 0, opt < h.alloc, cls(opt) == E.prog.class_ids["dict"], opt != t)), [v]))
    E.assume(FA([k], Implies(Select(d, k), Val.is_vref(v)), [Select(d, k)]))


def sym_typed_layer(E, name="layer", wf=False):
    L = sym_layer(E, name, wf=wf)
    h = E.heap
    s = h.sel("F._schema", L.t)
    ft = sym_fields(E, RefV(s, "NodeLayerSchema"), "fields", "NodeLayerSchema")
    E.assume(h.sel("F." + ATTRS.key(E.prog, "NodeLayerCollection", "fieldtypes"), L.t) == ft.t)
    return L, RefV(s, "NodeLayerSchema"), ft


def check_defaults(E, L, ft, what=""):
    h = E.heap
    x = E.fresh("key", Val)
    dv = h.sel("F._default_values", L.t)
    fd, fm = h.sel("D.dom", ft), h.sel("D.map", ft)
    has = And(Select(fd, x), default_of(E, R(Select(fm, x)), h) != none)
    if getattr(E, "last_filter", None) is not None:
        idx = E.dict_facts(RefV(ft, "dict"))
        E.assume(seen(E.last_filter[1](idx(x))))
    E.check(what + "a default for every field that declares one", Implies(has, Select(h.sel("D.dom", dv), x)))
    E.check(what + "a default for no other field", Implies(Select(h.sel("D.dom", dv), x), has))
    E.check(what + "the declared default", Implies(And(has, Select(h.sel("D.dom", dv), x)), Select(h.sel("D.map", dv), x) == default_of(E, R(Select(fm, x)), h)))


@unit(P, "defaults of a layer follow its schema", [Q + "_update_default_values", "model.DataType.default"], axioms=AX)
def _(E):
    L, s, ft = sym_typed_layer(E)
    x = E.fresh("x", Val)
    E.last_filter = None
    o = call(E, Q + "_update_default_values", [L])
    no_exc(E, o)
    h = E.heap
    check_defaults(E, L, ft.t)
    y = E.fresh("y", I)
    cover(E, "end")


# ---------------------------------------------------------------- adding nodes
def node_field(E, n, k, h=None):
    h = h or E.heap
    return Select(h.sel("D.dom", n), k), Select(h.sel("D.map", n), k)


@unit(P, "add(**fields) fills in exactly the missing defaults", [Q + "add"], axioms=AX)
def _(E):
    E.summaries[Q + "validate"] = validate_summary
    L, s, ft = sym_typed_layer(E)
    kw = sym_ref(E, "dict", "kwargs")
    x = E.fresh("key", Val)
    h0 = E.heap.copy()
    dv = h0.sel("F._default_values", L.t)
    E.assume(kw.t != dv)
    o = call(E, Q + "add", [L], {"**": kw})
    if o.raised:
        return
    h = E.heap
    hk, vk = node_field(E, kw.t, x, h0)
    hd, vd = node_field(E, dv, x, h0)
    hn, vn = node_field(E, o.val.t, x)
    E.check("a field is set exactly when it was given or has a default", hn == Or(hk, hd))
    E.check("given fields keep their value", Implies(hk, vn == vk))
    E.check("other fields get the declared default", Implies(And(hd, Not(hk)), vn == vd))
    E.check("the stored defaults do not change", And(h.sel("F._default_values", L.t) == dv, node_field(E, dv, x)[0] == hd, node_field(E, dv, x)[1] == vd))
    cover(E, "end")


def fill_specs():
    def outer(E, L):
        s = L.var("self")
        e, h = L.entry, E.heap
        v = LV(E, s, e)
        x, k = Int("x"), Const("k", Val)
        start = L.int("start_pos")
        dv = e.sel("F._default_values", s.t)
        d0, m0 = E.named(e.term("D.dom"), "dom0"), E.named(e.term("D.map"), "map0")
        d1, m1 = E.named(h.term("D.dom"), "dom1"), E.named(h.term("D.map"), "map1")
        dd, dm = Select(d0, dv), Select(m0, dv)
        done = And(v.att(x), x > 0, x < e.alloc, start <= v.id(x), v.id(x) < start + L.i)
        old = And(0 < x, x < e.alloc)
        return [("filled", FA([x, k], Implies(old, Select(Select(d1, x), k) == Or(Select(Select(d0, x), k), And(done, Select(dd, k)))), [Select(Select(d1, x), k)])),
                ("values", FA([x, k], Implies(old, Select(Select(m1, x), k) == If(And(done, Select(dd, k), Not(Select(Select(d0, x), k))), Select(dm, k), Select(Select(m0, x), k))),
                              [Select(Select(m1, x), k)]))]

    def inner(E, L):
        e, h = L.entry, E.heap
        n = L.var("n")
        s = L.var("self")
        dv = e.sel("F._default_values", s.t)
        x, k = Int("x"), Const("k", Val)
        tag = L.view.tag
        if not (isinstance(tag, tuple) and tag[0] == "set"):
            raise Unsupported("missing keys are not a set")
        mem, idx = e.sel("S.mem", tag[1].t), tag[3]
        d0, m0 = E.named(e.term("D.dom"), "dom0"), E.named(e.term("D.map"), "map0")
        d1, m1 = E.named(h.term("D.dom"), "dom1"), E.named(h.term("D.map"), "map1")
        dm = Select(m0, dv)
        old = And(0 < x, x < e.alloc)
        done = lambda kk: And(x == n.t, Select(mem, kk), idx(kk) < L.i)
        return [("filled", FA([x, k], Implies(old, Select(Select(d1, x), k) == Or(Select(Select(d0, x), k), done(k))), [Select(Select(d1, x), k)])),
                ("values", FA([x, k], Implies(old, Select(Select(m1, x), k) == If(done(k), Select(dm, k), Select(Select(m0, x), k))), [Select(Select(m1, x), k)]))]
    return [adding_inv("nodes"), const_inv(), LoopSpec(outer, bind=lambda E, L, x: as_node(E, x)), LoopSpec(inner)]


def use_validate(E):
    E.summaries[Q + "validate"] = validate_summary


@unit(P, "add_many fills in exactly the missing defaults", [Q + "add_many"], axioms=AX, setup=use_validate, loops={Q + "add_many": fill_specs()})
def _(E):
    L = sym_layer(E)
    h0 = E.heap
    dv = h0.sel("F._default_values", L.t)
    E.assume(cls(dv) == E.prog.class_ids["dict"])
    E.dict_facts(RefV(dv, "dict"))
    l = sym_ref(E, "list", "nodes")
    n, el = h0.sel("L.len", l.t), h0.sel("L.el", l.t)
    E.assume(n >= 0, l.t != LV(E, L).lst)
    fill, full = BoolV(E.fresh("fill", B)), BoolV(E.fresh("full", B))
    old = E.heap.copy()
    o = call(E, Q + "add_many", [L, l, fill, full])
    if o.raised:
        return
    i, k, x = E.fresh("i", I), E.fresh("k", Val), E.fresh("x", I)
    E.assume(0 <= i, i < n)
    nd = R(Select(el, i))
    b = LV(E, L)
    a = LV(E, L, old)
    E.check("the arguments are stored at the end", Select(b.el, a.n + i) == Select(el, i))
    E.check("the arguments are attached", And(b.att(nd), b.id(nd) == a.n + i))
    hd, vd = node_field(E, dv, k, old)
    h1, v1 = node_field(E, nd, k, old)
    h2, v2 = node_field(E, nd, k)
    E.check("a field is set exactly when it was set before or default filling has a default", h2 == Or(h1, And(fill.t, hd)))
    E.check("fields that were set keep their value", Implies(h1, v2 == v1))
    E.check("missing fields get the declared default", Implies(And(fill.t, hd, Not(h1)), v2 == vd))
    E.check("dictionaries of other objects do not change", Implies(And(0 < x, x < old.alloc, Not(And(b.att(x), b.id(x) >= LV(E, L, old).n))),
                                                         And(node_field(E, x, k)[0] == node_field(E, x, k, old)[0], node_field(E, x, k)[1] == node_field(E, x, k, old)[1])))
    cover(E, "end")


# ---------------------------------------------------------------- type inference
ATTRS.table.update({"spantype": "DataType"})


def opt_is(E, dt, key, val, h=None):
    h = h or E.heap
    o = h.sel("F.options", dt)
    k = E.to_val(E.const(key))
    return And(Select(h.sel("D.dom", o), k), Select(h.sel("D.map", o), k) == val)


def text_wf(E, t):
    """established by Text.__init__ (unit below)"""
    st = E.heap.sel("F.spantype", t)
    o = E.heap.sel("F.options", st)
    E.assume(st > 0, st < E.heap.alloc, cls(st) == E.prog.class_ids["DataTypeTextspan"], o > 0, o < E.heap.alloc, cls(o) == E.prog.class_ids["dict"])
    E.assume(opt_is(E, st, "context", Val.vstr(E.heap.sel("F." + ATTRS.key(E.prog, "Text", "name"), t))))


def layer_type_wf(E, L):
    """established by NodeLayerCollection.__init__ (unit below)"""
    st = E.heap.sel("F.nodetype", L)
    o = E.heap.sel("F.options", st)
    E.assume(st > 0, st < E.heap.alloc, cls(st) == E.prog.class_ids["DataTypeNoderef"], o > 0, o < E.heap.alloc, cls(o) == E.prog.class_ids["dict"])
    E.assume(opt_is(E, st, "layer", Val.vstr(E.heap.sel("F." + ATTRS.key(E.prog, "NodeLayerSchema", "name"), E.heap.sel("F._schema", L)))))


def check_type(E, r, v, typename):
    no_exc(E, r)
    if not (isinstance(r.val, RefV) and "DataType" in E.prog.mro(r.val.kind)):
        raise Unsupported("type object")
    h = E.heap
    tn = h.sel("F.typename", r.val.t)
    E.check("declares %s" % typename, tn == E.to_val(E.atom_of("DataTypeEnum", typename)))
    try:
        ok = E.truth(E.call(E.getattr_(r.val, "is_valid"), [v]))
    except PyExc as e:
        no_exc(E, Out(None, e.kind))
    E.check("the inferred type accepts the value", ok)
    cover(E, typename)


@unit(P, "type of a string, bool, float or bytes", [T + "typeof", T + "string", T + "bool", T + "float64"], axioms=AX)
def _(E):
    k = E.choose_n(4)
    if k == 0:
        v = sym_str(E, "s")
        E.assume(sq_len(v.t) < 2 ** 31)
        tn = "STRING"
    elif k == 1:
        v = BoolV(E.fresh("b", B))
        tn = "BOOL"
    elif k == 2:
        v = FltV(E.fresh("f", Flt))
        tn = "F64"
    else:
        v = BytV(E.fresh("y", Sq))
        E.assume(sq_len(v.t) < 2 ** 31)
        tn = "BINARY"
    check_type(E, call(E, T + "typeof", [v]), v, tn)


@unit(P, "type of an integer", [T + "typeof", T + "int64", T + "int32"], axioms=AX)
def _(E):
    v = sym_int(E, "i")
    E.assume(-2 ** 63 <= v.t, v.t < 2 ** 63)
    k = E.choose_n(2)
    if k == 0:
        check_type(E, call(E, T + "typeof", [v]), v, "I64")
        return
    ct = sym_ref(E, "DataType", "comparetype")
    h = E.heap
    i32 = h.sel("F.typename", ct.t) == E.to_val(E.atom_of("DataTypeEnum", "I32"))
    fits = And(-2 ** 31 <= v.t, v.t < 2 ** 31)
    small = E.choose(And(i32, fits), "fits int32")
    check_type(E, call(E, T + "typeof", [v, ct]), v, "I32" if small else "I64")


@unit(P, "type of a text span", [T + "typeof", "model.Text.__init__"], axioms=AX)
def _(E):
    if E.choose_n(2) == 0:
        nm, tx = sym_str(E, "name"), sym_str(E, "txt")
        try:
            t = E.construct("Text", [nm, tx], {})
        except PyExc as e:
            no_exc(E, Out(None, e.kind))
        h = E.heap
        st = h.sel("F.spantype", t.t)
        E.check("a text declares its own span type", And(cls(st) == E.prog.class_ids["DataTypeTextspan"], opt_is(E, st, "context", E.to_val(nm)), h.sel("F." + ATTRS.key(E.prog, "Text", "name"), t.t) == nm.t))
        cover(E, "text")
        return
    s = sym_span(E, "span")
    text_wf(E, E.heap.sel("F.TextSpan.text", s.t))
    E.assume(E.heap.sel("F.typename", E.heap.sel("F.spantype", E.heap.sel("F.TextSpan.text", s.t))) == E.to_val(E.atom_of("DataTypeEnum", "SPAN")))
    check_type(E, call(E, T + "typeof", [s]), s, "SPAN")


def attached_node(E, name):
    n = sym_ref(E, "Node", name)
    c = E.heap.sel("F.collection", n.t)
    E.assume(Val.is_vref(c), R(c) > 0, R(c) < E.heap.alloc, cls(R(c)) == E.prog.class_ids["NodeLayerCollection"])
    sch = E.heap.sel("F._schema", R(c))
    E.assume(sch > 0, sch < E.heap.alloc, E.is_cls(sch, "NodeLayerSchema"))
    return n, R(c)


@unit(P, "type of an attached node", [T + "typeof", Q + "__init__"], axioms=AX)
def _(E):
    if E.choose_n(2) == 0:
        sch = sym_ref(E, "NodeLayerSchema", "schema")
        E.summaries[Q + "_update_default_values"] = lambda E, a, k: NONE
        try:
            L = E.construct("NodeLayerCollection", [sch], {})
        except PyExc as e:
            no_exc(E, Out(None, e.kind))
        h = E.heap
        st = h.sel("F.nodetype", L.t)
        E.check("a layer declares its own reference type", And(cls(st) == E.prog.class_ids["DataTypeNoderef"], opt_is(E, st, "layer", Val.vstr(h.sel("F." + ATTRS.key(E.prog, "NodeLayerSchema", "name"), sch.t))),
                                                           h.sel("F._schema", L.t) == sch.t, h.sel("F.typename", st) == E.to_val(E.atom_of("DataTypeEnum", "NODEREF"))))
        cover(E, "layer")
        return
    n, L = attached_node(E, "n")
    layer_type_wf(E, L)
    E.assume(E.heap.sel("F.typename", E.heap.sel("F.nodetype", L)) == E.to_val(E.atom_of("DataTypeEnum", "NODEREF")))
    check_type(E, call(E, T + "typeof", [n]), n, "NODEREF")


@unit(P, "type of a node span", [T + "typeof", T + "nodespan"], axioms=AX)
def _(E):
    s = sym_ref(E, "NodeSpan", "span")
    h = E.heap
    E.assume(cls(s.t) == E.prog.class_ids["NodeSpan"])
    l, r = h.sel("F.NodeSpan.left", s.t), h.sel("F.NodeSpan.right", s.t)
    n, L = attached_node(E, "n")
    m, M = attached_node(E, "m")
    E.assume(n.t == l, m.t == r, L == M)
    # established by NodeSpan.__init__ (C03): ends attached to one layer, in order
    E.assume(0 <= h.sel("F._id", l), h.sel("F._id", l) <= h.sel("F._id", r))
    check_type(E, call(E, T + "typeof", [s]), s, "NODEREF_SPAN")


@unit(P, "type of a list of nodes", [T + "typeof", T + "noderef_many"], axioms=AX)
def _(E):
    l = sym_ref(E, "list", "nodes")
    h = E.heap
    E.assume(cls(l.t) == E.prog.class_ids["list"])
    n, el = h.sel("L.len", l.t), E.named(h.sel("L.el", l.t), "src")
    E.assume(n > 0)
    q = Int("q")
    x, L = attached_node(E, "first")
    E.assume(Select(el, 0) == VR(x.t))
    e = Select(el, q)
    E.assume(FA([q], Implies(And(0 <= q, q < n), And(Val.is_vref(e), R(e) > 0, R(e) < h.alloc, cls(R(e)) == E.prog.class_ids["Node"])), [e]))
    same = FA([q], Implies(And(0 <= q, q < n), h.sel("F.collection", R(e)) == VR(L)), [e])
    o = call(E, T + "typeof", [l])
    if o.raised:
        E.check("nodes of one layer are storable", Not(same))
        return
    i = E.fresh("i", I)
    E.assume(seen(i))
    check_type(E, o, l, "NODEREF_MANY")


# ---------------------------------------------------------------- merging types
PRIO = {"BOOL": 0, "I32": 1, "I64": 2, "F64": 3}


@unit(P, "cast_up keeps the wider numeric type", ["model.DataType.cast_up", "model.DataType.cast_up_possible"], axioms=AX)
def _(E):
    a, b = E.choose_n(len(ENUM)), E.choose_n(len(ENUM))
    A, Bn = ENUM[a], ENUM[b]
    x, y = sym_ref(E, "DataType", "a"), sym_ref(E, "DataType", "b")
    h = E.heap
    E.assume(h.sel("F.typename", x.t) == E.to_val(E.atom_of("DataTypeEnum", A)), h.sel("F.typename", y.t) == E.to_val(E.atom_of("DataTypeEnum", Bn)))
    p = call(E, "model.DataType.cast_up_possible", [x, y])
    no_exc(E, p)
    ok = A == Bn or (A in PRIO and Bn in PRIO)
    E.check("possible exactly for equal or two numeric types", E.truth(p.val) == BoolVal(ok))
    if ok and A in PRIO:
        r = call(E, "model.DataType.cast_up", [x, y])
        no_exc(E, r)
        t = E.to_val(r.val)
        if PRIO[A] > PRIO[Bn]:
            E.check("the wider type", t == VR(x.t))
        elif PRIO[A] < PRIO[Bn]:
            E.check("the wider type", t == VR(y.t))
        else:
            E.check("one of the equal types", Or(t == VR(x.t), t == VR(y.t)))
    cover(E, "end")
