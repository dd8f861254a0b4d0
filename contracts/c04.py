"""C04: MessagePack encoding round-trips every document."""
from .c08 import *
from . import c06

P = "C04"
CO = "codec.Codec."
AX = lambda E: MSG_AXIOMS
nodecls = lambda E: E.prog.class_ids["Node"]
VR = Val.vref
R = lambda v: Val.r(v)


# ---------------------------------------------------------------- decoding one layer
class Cols:
    """the stored columns of one layer, as delivered by the unpacker"""
    def __init__(self, E):
        fn = lambda n, *s: E.fresh_fn(n, *s)
        self.E = E
        self.N, self.C = E.fresh("N", I), E.fresh("C", I)
        self.cname, self.cidx = fn("cname", I, Sq), fn("cidx", Sq, I)
        self.ty = fn("ty", I, I)            # DataType object of column c
        self.span = fn("span", I, B)
        self.data, self.el, self.len = fn("data", I, I), fn("dataEl", I, IV), fn("dataLen", I, I)
        self.ctx = fn("ctx", I, Sq)
        self.text, self.off = fn("textof", I, I), fn("off", I, I, I)     # text object and offset of boundary k, per column

    def facts(self):
        E = self.E
        c, j = Ints("c j")
        inr = And(0 <= c, c < self.C)
        a, b = Select(self.el(c), 2 * j), Select(self.el(c), 2 * j + 1)
        out = [self.N >= 0, self.C >= 0]
        out += [FA([c], Implies(inr, And(self.cidx(self.cname(c)) == c, self.len(c) == If(self.span(c), 2 * self.N, self.N))), [p]) for p in (self.cname(c), self.len(c))]
        return out

    def has(self, c, j):
        return Select(self.el(c), If(self.span(c), 2 * j, j)) != none

    def value(self, h, c, j, v):
        """v (in heap h) is the decoded value of column c for node j"""
        a, b = Select(self.el(c), 2 * j), Select(self.el(c), 2 * j + 1)
        r = Val.r(v)
        return If(self.span(c), And(Val.is_vref(v), r > 0, r < h.alloc, cls(r) == self.E.prog.class_ids["TextSpan"], h.sel("F.TextSpan.text", r) == self.text(c),
                                    h.sel("F._start", r) == self.off(c, Val.i(a)), h.sel("F._stop", r) == self.off(c, Val.i(b))), v == Select(self.el(c), j))


def col_next(E, u):
    """N, then for every column a flag and its values"""
    k = E.unit_x["cols"]
    q = E.named(E.hget("F.#up", u.t), "q")
    E.hput("F.#up", u.t, q + 1)
    if E.choose(q == 0, "number of nodes"):
        return IntV(k.N)
    c = E.named((q - 1) / 2, "c")
    E.check("a stored column is read", And(0 <= c, c < k.C, Or(q == 1 + 2 * c, q == 2 + 2 * c)))
    if E.choose(q == 1 + 2 * c, "encoding flag"):
        return BoolV(False)
    l = E.refv(k.data(c), "list")
    E.assume(E.heap.sel("L.len", l.t) == k.len(c), E.heap.sel("L.el", l.t) == k.el(c), seen(c))
    return l


def nd(el, j):
    return Val.r(Select(el, j))


def node_list(E, k, h, lst, upto, keys=True):
    """the list of new nodes: the j-th has id j, is unattached and (unless said otherwise) empty"""
    j = Int("j")
    el = h.sel("L.el", lst)
    e = Select(el, j)
    r = Val.r(e)
    x = And(Val.is_vref(e), r >= E.unit_x["alloc0"], r < h.alloc, cls(r) == nodecls(E), h.sel("F._id", r) == j, h.sel("F.collection", r) == none)
    out = [("list", And(lst > 0, lst < h.alloc, h.sel("L.len", lst) == upto)), ("nodes", FA([j], Implies(And(0 <= j, j < upto), x), [e]))]
    if keys:
        kk = Const("kk", Val)
        out.append(("no fields yet", FA([j, kk], Implies(And(0 <= j, j < upto), Not(Select(h.sel("D.dom", r), kk))), [Select(h.sel("D.dom", r), kk)])))
    return out


def comp_spec():
    def inv(E, L):
        return node_list(E, E.unit_x["cols"], E.heap, L.ref("$comp"), L.i) + [("range", L.i <= L.n)]
    return LoopSpec(inv)


def columns_done(E, k, h, lst, upto):
    j, c = Ints("j c")
    kk = Const("kk", Val)
    el = h.sel("L.el", lst)
    r = nd(el, j)
    dom, mp = h.sel("D.dom", r), h.sel("D.map", r)
    key = Val.vstr(k.cname(c))
    inr = And(0 <= j, j < k.N, 0 <= c, c < upto)
    return [("fields set", FA([j, c], Implies(inr, Select(dom, key) == k.has(c, j)), [(Select(el, j), k.cname(c))])),
            ("values", FA([j, c], Implies(And(inr, k.has(c, j)), k.value(h, c, j, Select(mp, key))), [(Select(el, j), k.cname(c))])),
            ("no other fields", FA([j, kk], Implies(And(0 <= j, j < k.N, Select(dom, kk)),
                                                   And(Val.is_vstr(kk), 0 <= k.cidx(Val.s(kk)), k.cidx(Val.s(kk)) < upto, k.cname(k.cidx(Val.s(kk))) == Val.s(kk))), [Select(dom, kk)]))]


def col_loop():
    def inv(E, L):
        k = E.unit_x["cols"]
        h = E.heap
        lst = L.ref("nodes")
        u = E.unit_x["u"]
        x = Int("x")
        frame = [("other dictionaries (%s)" % q, FA([x], Implies(And(0 < x, x < E.unit_x["alloc0"]), Select(h.term(q), x) == Select(E.unit_x["h0"].term(q), x)), [Select(h.term(q), x)])) for q in ("D.dom", "D.map")]
        return frame + [("range", And(L.i <= L.n, L.n == k.C)), ("position", And(h.sel("F.#up", u.t) == 1 + 2 * L.i))] + node_list(E, k, h, lst, k.N, keys=False) + columns_done(E, k, h, lst, L.i)

    def hints(E, L, where):
        k = E.unit_x["cols"]
        E.assume(seen(k.cidx(k.cname(L.i))), seen(k.len(L.i)))
        E.unit_x["ci"] = L.i
        if where == "body":
            E.assume(*E.unit_x["inst"](L.i))
    return LoopSpec(inv, hints=hints)


def fill_loop(span):
    """after i nodes: exactly their values in this column are added"""
    def inv(E, L):
        k = E.unit_x["cols"]
        c = E.unit_x["ci"]
        h, e = E.heap, L.entry
        lst = L.ref("nodes")
        el = e.sel("L.el", lst)
        key = Val.vstr(k.cname(c))
        x, kk = Int("x"), Const("kk", Val)
        d0, m0, d1, m1 = E.named(e.term("D.dom"), "dom0"), E.named(e.term("D.map"), "map0"), E.named(h.term("D.dom"), "dom1"), E.named(h.term("D.map"), "map1")
        # x is node j of the list: j = its id
        j = e.sel("F._id", x)
        isnode = And(0 <= j, j < k.N, Select(el, j) == VR(x))
        hit = And(isnode, j < L.i, k.has(c, j), kk == key)
        old = And(0 < x, x < e.alloc)
        return [("range", And(L.i <= L.n, L.n == k.N)),
                ("set", FA([x, kk], Implies(old, Select(Select(d1, x), kk) == Or(Select(Select(d0, x), kk), hit)), [Select(Select(d1, x), kk)])),
                ("values", FA([x, kk], Implies(old, If(hit, k.value(h, c, j, Select(Select(m1, x), kk)), Select(Select(m1, x), kk) == Select(Select(m0, x), kk))), [Select(Select(m1, x), kk)])),
                ("spans", BoolVal(True))]

    def hints(E, L, where):
        el = L.entry.sel("L.el", L.ref("nodes"))
        E.assume(seenv(Select(el, L.i)))
        if where == "body":
            E.assume(*E.unit_x["inst2"](E.unit_x["ci"], L.i))
    return LoopSpec(inv, hints=hints)


def unreachable(E, a, k):
    raise Unsupported("embedded documents")


def setup_layer(E):
    setup_doc(E)
    E.next_hooks = {"Unpacker": col_next}
    E.builtin_hooks["Unpacker.__next__"] = lambda E, f_, a, k: col_next(E, f_.self_)
    E.summaries[MC + "decode"] = unreachable
    E.builtin_hooks["logging.warning"] = lambda E, f_, a, k: NONE


@unit(P, "decoding a layer creates every node with exactly its stored fields", [MC + "decode_layer"], axioms=AX, setup=setup_layer,
      loops={MC + "decode_layer": [col_loop(), fill_loop(False), None, None, fill_loop(True)], MC + "decode_layer#comp": [comp_spec()]})
def _(E):
    u = sym_ref(E, "Unpacker", "unpacker")
    doc = sym_ref(E, "Document", "doc")
    name = sym_str(E, "typename")
    k = Cols(E)
    h = E.heap
    E.unit_x = dict(cols=k, u=u, alloc0=h.alloc, h0=E.heap.copy())
    E.assume(*k.facts())
    E.assume(h.sel("F.#up", u.t) == 0)
    sch = sym_ref(E, "list", "layerschema")
    off = sym_ref(E, "dict", "text2offsets")
    off.valfn = dict_of_ints
    el = h.sel("L.el", sch.t)
    c, j = Ints("c j")
    SPAN, EXT = E.to_val(E.atom_of("DataTypeEnum", "SPAN")), E.to_val(E.atom_of("DataTypeEnum", "EXT"))
    e = Select(el, c)
    t = k.ty(c)
    opt = h.sel("F.options", t)
    CTX = E.to_val(E.const("context"))
    kctx = Val.vstr(k.ctx(c))
    txt = h.sel("F.Document._texts", doc.t)
    tdom, tmap = h.sel("D.dom", txt), h.sel("D.map", txt)
    od = Val.r(Select(h.sel("D.map", off.t), kctx))
    a, b = Select(k.el(c), 2 * j), Select(k.el(c), 2 * j + 1)
    cls_ = lambda r, n: And(r > 0, r < h.alloc, cls(r) == E.prog.class_ids[n])
    inr = And(0 <= c, c < k.C)
    tn = h.sel("F.typename", t)
    # ground instances of the precondition for the column at hand
    E.unit_x["inst"] = lambda i: [Implies(And(0 <= i, i < k.C), z3.substitute(q, (c, i))) for q in (
        Select(el, c) == Val.vt2(Val.vstr(k.cname(c)), VR(t)), tn != EXT, (tn == SPAN) == k.span(c), cls_(t, "DataType"))]
    E.assume(txt > 0, txt < h.alloc, cls(txt) == E.prog.class_ids["dict"])
    E.assume(h.sel("L.len", sch.t) == k.C,
             FA([c], Implies(inr, And(e == Val.vt2(Val.vstr(k.cname(c)), VR(t)), cls_(t, "DataType"), tn != EXT, (tn == SPAN) == k.span(c), cls_(k.data(c), "list"), cls_(opt, "dict"))), [e]))
    # span columns refer to an existing text whose boundaries are known, and to increasing boundaries
    sctx = Implies(And(inr, k.span(c)), And(Select(h.sel("D.dom", opt), CTX), Select(h.sel("D.map", opt), CTX) == kctx, Select(tdom, kctx), Select(tmap, kctx) == VR(k.text(c)), cls_(k.text(c), "Text"),
                                                        Select(h.sel("D.dom", off.t), kctx), Select(h.sel("D.map", off.t), kctx) == VR(od), cls_(od, "dict")))
    for p in (k.span(c), k.ctx(c)):
        E.assume(FA([c], sctx, [p]))
    sval = Implies(And(inr, k.span(c), 0 <= j, j < k.N, a != none),
                                And(Val.is_vint(a), Val.is_vint(b), Select(h.sel("D.dom", od), a), Select(h.sel("D.map", od), a) == Val.vint(k.off(c, Val.i(a))), Select(h.sel("D.dom", od), b),
                                    Select(h.sel("D.map", od), b) == Val.vint(k.off(c, Val.i(b))), k.off(c, Val.i(a)) <= k.off(c, Val.i(b))))
    E.assume(FA([c, j], sval, [Select(k.el(c), 2 * j)]))
    inst0 = E.unit_x["inst"]
    E.unit_x["inst"] = lambda i: inst0(i) + [z3.substitute(sctx, (c, i))]
    E.unit_x["inst2"] = lambda i, l: [z3.substitute(sval, (c, i), (j, l))]
    o = call(E, MC + "decode_layer", [u, doc, name, off, sch])
    no_exc(E, o)
    E.check("a list of nodes", BoolVal(isinstance(o.val, RefV)))
    for n, f_ in node_list(E, k, E.heap, o.val.t, k.N, keys=False) + columns_done(E, k, E.heap, o.val.t, k.C):
        E.check("decoded: " + n, f_)
    cover(E, "end")


# ---------------------------------------------------------------- encoding one value
def enc(E, name):
    """the real encoder Codec.encoders[name]"""
    t = E.getattr_(ClsV("Codec"), "encoders")
    return E.getitem(t, E.atom_of("DataTypeEnum", name))


def appended(E, l, h0, n):
    """n entries were appended to list l, everything before is kept; returns the new entries"""
    h = E.heap
    q = E.fresh("q", I)
    n0 = h0.sel("L.len", l.t)
    E.check("%d value(s) appended" % n, h.sel("L.len", l.t) == n0 + n)
    E.check("earlier values are kept", Implies(And(0 <= q, q < n0), Select(h.sel("L.el", l.t), q) == Select(h0.sel("L.el", l.t), q)))
    return [Select(h.sel("L.el", l.t), n0 + j) for j in range(n)]


def simple_encoder(name, kind):
    @unit([P, "C05"], "a %s value is stored as itself, an absent one as nil" % name, ["codec.Codec.encoders"], axioms=AX)
    def _(E):
        l = sym_ref(E, "list", "column")
        v = NONE if E.choose_n(2) == 0 else {"int": lambda: sym_int(E, "v"), "bool": lambda: BoolV(E.fresh("v", B)), "str": lambda: sym_str(E, "v"),
                                             "byt": lambda: BytV(E.fresh("v", Sq)), "flt": lambda: FltV(E.fresh("v", Flt))}[kind]()
        h0 = E.heap.copy()
        f_ = enc(E, name)
        o = outcome(E, lambda: E.call(f_, [l, v], {}))
        no_exc(E, o)
        x, = appended(E, l, h0, 1)
        E.check("the value itself", x == E.to_val(v))
        cover(E, "end")


for _n, _k in (("I32", "int"), ("I64", "int"), ("BOOL", "bool"), ("STRING", "str"), ("BINARY", "byt"), ("F64", "flt")):
    simple_encoder(_n, _k)


def is_new_list(E, h0, v):
    h = E.heap
    return And(Val.is_vref(v), R(v) >= h0.alloc, R(v) < h.alloc, cls(R(v)) == E.prog.class_ids["list"])


@unit([P, "C05"], "a node reference is stored as the index of its node", ["codec.Codec.encoders", "model.Node.i"], axioms=AX)
def _(E):
    l = sym_ref(E, "list", "column")
    v = NONE if E.choose_n(2) == 0 else sym_ref(E, "Node", "target")
    h0 = E.heap.copy()
    if isinstance(v, RefV):
        E.assume(h0.sel("F._id", v.t) >= 0)
    o = outcome(E, lambda: E.call(enc(E, "NODEREF"), [l, v], {}))
    no_exc(E, o)
    x, = appended(E, l, h0, 1)
    E.check("nil or the index", x == (none if v is NONE else Val.vint(h0.sel("F._id", v.t))))
    cover(E, "end")


@unit([P, "C05"], "a node span is stored as its first index and its distance", ["codec.Codec.encoders", "model.Node.i"], axioms=AX)
def _(E):
    l = sym_ref(E, "list", "column")
    v = NONE if E.choose_n(2) == 0 else sym_ref(E, "NodeSpan", "nodespan")
    h0 = E.heap.copy()
    a, b = h0.sel("F.NodeSpan.left", v.t) if v is not NONE else None, h0.sel("F.NodeSpan.right", v.t) if v is not NONE else None
    if v is not NONE:
        for r in (a, b):
            E.assume(r > 0, r < h0.alloc, cls(r) == nodecls(E), h0.sel("F._id", r) >= 0)
    o = outcome(E, lambda: E.call(enc(E, "NODEREF_SPAN"), [l, v], {}))
    no_exc(E, o)
    h = E.heap
    x, = appended(E, l, h0, 1)
    if v is NONE:
        E.check("nil", x == none)
    else:
        el = h.sel("L.el", R(x))
        E.check("index and distance", And(is_new_list(E, h0, x), h.sel("L.len", R(x)) == 2, Select(el, 0) == Val.vint(h0.sel("F._id", a)), Select(el, 1) == Val.vint(h0.sel("F._id", b) - h0.sel("F._id", a))))
    cover(E, "end")


def many_comp():
    def inv(E, L):
        h, h0 = E.heap, E.unit_x["h0"]
        r = L.ref("$comp")
        q = Int("q")
        el, el0 = E.named(h.sel("L.el", r), "out"), E.named(h0.sel("L.el", E.unit_x["v"]), "nodes")
        return [("range", And(L.i <= L.n)), ("length", h.sel("L.len", r) == L.i),
                ("indices", FA([q], Implies(And(0 <= q, q < L.i), Select(el, q) == Val.vint(h0.sel("F._id", R(Select(el0, q))))), [Select(el, q)]))]
    return LoopSpec(inv, bind=lambda E, L, x: as_node(E, x))


@unit([P, "C05"], "a reference list is stored as the indices of its nodes", ["codec.Codec.encoders", "model.Node.i"], axioms=AX, loops={"codec.Codec.encoders#comp": [many_comp()]})
def _(E):
    l = sym_ref(E, "list", "column")
    v = NONE if E.choose_n(2) == 0 else sym_ref(E, "list", "nodes")
    h0 = E.heap.copy()
    E.unit_x = dict(h0=h0, v=v.t if v is not NONE else None)
    if v is not NONE:
        E.assume(v.t != l.t)
        el0, n = E.named(h0.sel("L.el", v.t), "nodes"), h0.sel("L.len", v.t)
        q = Int("q")
        e = Select(el0, q)
        E.assume(FA([q], Implies(And(0 <= q, q < n), And(Val.is_vref(e), R(e) > 0, R(e) < h0.alloc, cls(R(e)) == nodecls(E), h0.sel("F._id", R(e)) >= 0)), [e]))
    o = outcome(E, lambda: E.call(enc(E, "NODEREF_MANY"), [l, v], {}))
    no_exc(E, o)
    h = E.heap
    x, = appended(E, l, h0, 1)
    if v is NONE:
        E.check("nil", x == none)
    else:
        q = E.fresh("q", I)
        E.check("empty list like an absent one", (x == none) == (n == 0))
        E.check("all indices in order", Implies(n > 0, And(is_new_list(E, h0, x), h.sel("L.len", R(x)) == n,
                                                           Implies(And(0 <= q, q < n), Select(h.sel("L.el", R(x)), q) == Val.vint(h0.sel("F._id", R(Select(el0, q))))))))
    cover(E, "end")


@unit([P, "C05"], "a text span is stored as the ranks of its offsets", ["codec._codec_encode_span", "model.TextSpan.start", "model.TextSpan.stop"], axioms=AX)
def _(E):
    l = sym_ref(E, "list", "column")
    om = sym_ref(E, "dict", "offset_mapping")
    om.valfn = int_value
    v = NONE if E.choose_n(2) == 0 else sym_ref(E, "TextSpan", "span")
    h0 = E.heap.copy()
    dom_, mp = h0.sel("D.dom", om.t), h0.sel("D.map", om.t)
    k = lambda a: Val.vint(h0.sel("F." + a, v.t))
    if v is not NONE:
        for a in ("_start", "_stop"):
            E.assume(Select(dom_, k(a)), Val.is_vint(Select(mp, k(a))))
    g = E.call(enc(E, "SPAN"), [om], {})
    o = outcome(E, lambda: E.call(g, [l, v], {}))
    no_exc(E, o)
    x, y = appended(E, l, h0, 2)
    E.check("two nils or both ranks", And(x == none, y == none) if v is NONE else And(x == Select(mp, k("_start")), y == Select(mp, k("_stop"))))
    cover(E, "end")
