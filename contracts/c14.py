"""C14: span translation maps every span by its mapping interval's shift."""
from .layer import *

P = "C14"
Q = "algorithm.span_translate"
AX = lambda E: CNT_AXIOMS
ATTRS.table.update({"Document._layers": "dict:NodeLayerCollection"})
GH1 = ("evk", "evn", "ms", "me")
GH2 = ("evk", "evn", "rs", "re")


def slice_of_text(E, args, kw):
    """contract of Text.__getitem__(slice) (proved in C01): a span of this text, with exactly these bounds when they lie inside the text in order"""
    t, sl = args
    if not isinstance(sl, SliceV) or isinstance(sl.lo, NoneT) or isinstance(sl.hi, NoneT):
        raise Unsupported("subscript of a text")
    lo, hi = E.as_int(sl.lo), E.as_int(sl.hi)
    n = sq_len(E.heap.sel("F.Text.text", t.t))
    r = RefV(E.alloc("TextSpan"), "TextSpan")
    a, b = E.fresh("start", I), E.fresh("stop", I)
    E.assume(Implies(And(0 <= lo, lo <= hi, hi <= n), And(a == lo, b == hi)))
    E.setfield(r, "text", t)
    for f, x in (("_start", a), ("_stop", b), ("start_offset", a), ("stop_offset", b)):
        E.setfield(r, f, IntV(x))
    return r


class Z:
    """what the specification talks about: mapping intervals [a, b) -> t (m in 0..nm), spans [s, e) to translate (k in 0..nk), in the state before"""
    def __init__(self, E):
        self.E = E

    def layers(self, E, L1, L2):
        self.L1, self.L2 = L1, L2
        self.it = []

        def it(E, args, kw):
            r = iter_summary(E, args, kw)
            self.it.append((r.view, E.last_rank))
            return r
        E.summaries["model.NodeLayerCollection.__iter__"] = it

    def node1(self, m):
        return self.it[0][0].at(m).t

    def node2(self, k):
        return self.it[1][0].at(k).t

    def field(self, x, name):
        return Val.r(Select(Select(self.MAP, x), name))

    def a(self, m):
        return Select(self.START, self.field(self.node1(m), self.src1))

    def b(self, m):
        return Select(self.STOP, self.field(self.node1(m), self.src1))

    def t(self, m):
        return Select(self.START, self.field(self.node1(m), self.tgt1))

    def inc1(self, m):
        return self.a(m) < self.b(m)

    def s(self, k):
        return Select(self.START, self.field(self.node2(k), self.src2))

    def e(self, k):
        return Select(self.STOP, self.field(self.node2(k), self.src2))

    def inc2(self, k):
        return Not(Select(Select(self.DOM, self.node2(k)), self.tgt2))

    def event(self, kind, n):
        if len(self.it) < 2:
            return Val.vt2(Val.vt2(Val.vint(If(kind == 0, self.a(n), self.b(n))), Val.vint(If(kind == 0, IntVal(0), IntVal(-1)))), Val.vt2(Val.vint(0), VR(self.node1(n))))
        pos = If(kind == 0, self.a(n), If(kind == 1, self.b(n), If(kind == 2, self.s(n), self.e(n) - 1)))
        mark = If(kind == 0, IntVal(0), If(kind == 1, IntVal(-1), If(kind == 2, IntVal(1), IntVal(2))))
        return Val.vt2(Val.vt2(Val.vint(pos), Val.vint(mark)), Val.vt2(Val.vint(If(kind < 2, IntVal(0), IntVal(1))), VR(If(kind < 2, self.node1(n), self.node2(n)))))

    def events(self, E, L, i1, i2):
        lst = L.ref("mapping_in_source")
        n, el = E.heap.sel("L.len", lst), E.named(E.heap.sel("L.el", lst), "ev")
        evk, evn = E.ghost["evk"], E.ghost["evn"]
        r, m = Ints("r m")
        kd, ix = Select(evk, r), Select(evn, r)

        def inv(name, kind, top, inc):
            g = Select(E.ghost[name], m)
            return ("%s recorded" % name, FA([m], Implies(And(0 <= m, m < top, inc(m)), And(0 <= g, g < n, Select(evk, g) == kind, Select(evn, g) == m)), [g]))
        bounds = [And(kd >= 0, kd <= 1, 0 <= ix, ix < i1, self.inc1(ix))] + ([And(kd >= 2, kd <= 3, 0 <= ix, ix < i2, self.inc2(ix))] if i2 is not None else [])
        back = lambda names: And([Implies(kd == j, Select(E.ghost[g], ix) == r) for j, g in enumerate(names)])
        out = [("count", n >= 0), ("inverse", FA([r], Implies(And(0 <= r, r < n), back(("ms", "me") if i2 is None else ("ms", "me", "rs", "re"))), [kd])), ("events", FA([r], Implies(And(0 <= r, r < n), And(Or(bounds), Select(el, r) == self.event(kd, ix))), [Select(el, r)])),
               ("kinds", FA([r], Implies(And(0 <= r, r < n), Or(bounds)), [kd])),
               inv("ms", 0, i1, self.inc1), inv("me", 1, i1, self.inc1)]
        if i2 is not None:
            out += [inv("rs", 2, i2, self.inc2), inv("re", 3, i2, self.inc2)]
        return out


def record(E, L1, L2, z, ks, names):
    """ghost: positions of the events appended in this iteration"""
    lst = L2.ref("mapping_in_source")
    n = E.heap.sel("L.len", lst)
    n0, i = E.unit_x["n0"], L1.i
    app = n > n0
    st = lambda g, *pairs: E.gset(g, If(app, _stores(E.ghost[g], pairs), E.ghost[g]))
    st("evk", (n0, IntVal(ks[0])), (n0 + 1, IntVal(ks[1])))
    st("evn", (n0, i), (n0 + 1, i))
    st(names[0], (i, n0))
    st(names[1], (i, n0 + 1))


def _stores(a, pairs):
    for k, v in pairs:
        a = Store(a, k, v)
    return a


def loop1(E, L):
    return [("range", L.i <= L.n)] + E.unit_x["z"].events(E, L, L.i, None)


def loop2(E, L):
    z = E.unit_x["z"]
    return [("range", L.i <= L.n)] + z.events(E, L, z.it[0][0].n(), L.i)


def hints_n0(E, L, where):
    if where == "body":
        E.unit_x["n0"] = E.heap.sel("L.len", L.ref("mapping_in_source"))


def hints2(E, L, where):
    hints_n0(E, L, where)
    if where == "exit":
        E.shape_list(L.var("mapping_in_source"), (("int", "int"), ("int", "node")))


class M:
    """state of the sweep"""
    def __init__(self, E, L):
        self.z = E.unit_x["z"]
        self.p, self.q = E.last_sort[:2]
        self.nm, self.nk = self.z.it[0][0].n(), self.z.it[1][0].n()
        self.evk, self.evn = E.ghost["evk"], E.ghost["evn"]
        self.cur, self.c1, self.c2 = E.ghost["cur"], E.ghost["c1"], E.ghost["c2"]
        h = E.heap
        self.DOM, self.MAP = E.named(h.term("D.dom"), "dom"), E.named(h.term("D.map"), "map")
        self.START, self.STOP, self.TEXT = (E.named(h.term("F." + x), x) for x in ("_start", "_stop", "TextSpan.text"))
        self.alloc = h.alloc

    def rank(self, E, g, m):
        return self.q(Select(E.ghost[g], m))

    def lo(self, k):
        c, z = Select(self.c1, k), self.z
        return z.s(k) - z.a(c) + z.t(c)

    def hi(self, k):
        c, z = Select(self.c2, k), self.z
        return z.e(k) - 1 - z.a(c) + z.t(c) + 1

    def inside(self, m, pos):
        z = self.z
        return And(0 <= m, m < self.nm, z.a(m) <= pos, pos < z.b(m))

    def result(self, E, k):
        z = self.z
        x = z.node2(k)
        v = Select(Select(self.MAP, x), z.tgt2)
        n = sq_len(E.unit_x["h0"].sel("F.Text.text", z.text))
        return And(Select(Select(self.DOM, x), z.tgt2), Val.is_vref(v), R(v) > 0, R(v) < self.alloc, cls(R(v)) == E.prog.class_ids["TextSpan"], Select(self.TEXT, R(v)) == z.text,
                   Implies(And(0 <= self.lo(k), self.lo(k) <= self.hi(k), self.hi(k) <= n), And(Select(self.START, R(v)) == self.lo(k), Select(self.STOP, R(v)) == self.hi(k))))


def loop3(E, L):
    st = M(E, L)
    z = st.z
    i = L.i
    m, m2, k, x = Ints("m m2 k x")
    key = Const("key", Val)
    act, actt = E.to_val(L.var("active_interval_start")), E.to_val(L.var("active_interval_target_start"))
    off = L.ref("remap_start_offsets")
    od, om = E.named(E.heap.sel("D.dom", off), "odom"), E.named(E.heap.sel("D.map", off), "omap")
    IDS = E.unit_x["h0"].term("F._id")
    idk = lambda k: Val.vint(Select(IDS, z.node2(k)))
    cur = st.cur
    r_ = lambda g, m: st.rank(E, g, m)
    ok1 = lambda m: And(0 <= m, m < st.nm, z.inc1(m))
    ok2 = lambda k: And(0 <= k, k < st.nk, z.inc2(k))
    trans = lambda x: And(z.att2(x), Not(Select(Select(z.DOM, x), z.tgt2)))
    hit = And(trans(x), key == z.tgt2)
    pats = lambda g, m: [Select(E.ghost[g], m)]
    return [
        ("range", And(0 <= i, i <= L.n)),
        ("active interval", Or(And(cur == -1, act == none), And(ok1(cur), act == Val.vint(z.a(cur)), actt == Val.vint(z.t(cur)), r_("ms", cur) < i, r_("me", cur) >= i))),
        ("opened intervals are closed but one", FA([m], Implies(And(ok1(m), r_("ms", m) < i, m != cur), r_("me", m) < i), pats("ms", m))),
        ("opened intervals are disjoint", FA([m, m2], Implies(And(ok1(m), ok1(m2), m != m2, r_("ms", m) < i, r_("ms", m2) < i), Or(z.b(m) <= z.a(m2), z.b(m2) <= z.a(m))),
                                             [(Select(E.ghost["ms"], m), Select(E.ghost["ms"], m2))])),
        ("first characters", FA([k], Implies(And(ok2(k), r_("rs", k) < i), And(st.inside(Select(st.c1, k), z.s(k)), Select(od, idk(k)), Select(om, idk(k)) == Val.vint(st.lo(k)))), pats("rs", k))),
        ("last characters", FA([k], Implies(And(ok2(k), r_("re", k) < i), And(st.inside(Select(st.c2, k), z.e(k) - 1), r_("rs", k) < i, st.result(E, k))), pats("re", k))),
        ("other fields", FA([x, key], Implies(And(0 < x, x < z.alloc, Not(hit)), And(Select(Select(st.DOM, x), key) == Select(Select(z.DOM, x), key),
                                                                                    Select(Select(st.MAP, x), key) == Select(Select(z.MAP, x), key))), [Select(Select(st.MAP, x), key)])),
        ("other fields (presence)", FA([x, key], Implies(And(0 < x, x < z.alloc, Not(hit)), Select(Select(st.DOM, x), key) == Select(Select(z.DOM, x), key)), [Select(Select(st.DOM, x), key)])),
        ("old spans", FA([x], Implies(And(0 < x, x < z.alloc), And(Select(st.START, x) == Select(z.START, x), Select(st.STOP, x) == Select(z.STOP, x))), [Select(st.START, x)])),
    ]


def hints3(E, L, where):
    st = M(E, L)
    z = st.z
    if where == "body":
        E.unit_x["i"], E.unit_x["st"] = L.i, st
        x = R(Val.t21(Val.t21(Select(E.hget("L.el", L.ref("mapping_in_source")), L.i))))
        v = Select(Select(st.MAP, x), z.tgt1)
        E.check("target span of a mapping node", Implies(Select(st.evk, st.p(L.i)) <= 1, And(Select(Select(st.DOM, x), z.tgt1), Val.is_vref(v), R(v) > 0, cls(R(v)) == E.prog.class_ids["TextSpan"], R(v) < z.alloc)))
        r = st.p(L.i)
        kind, n, cur = Select(st.evk, r), Select(st.evn, r), E.ghost["cur"]
        pos = If(kind == 0, z.a(n), If(kind == 1, z.b(n), If(kind == 2, z.s(n), z.e(n) - 1)))
        E.check("current event", And(0 <= kind, kind <= 3, st.q(r) == L.i, Implies(kind == 0, Select(E.ghost["ms"], n) == r), Implies(kind == 1, Select(E.ghost["me"], n) == r),
                                     Implies(kind == 2, Select(E.ghost["rs"], n) == r), Implies(kind == 3, Select(E.ghost["re"], n) == r)))
        E.check("its interval was opened before", Implies(kind == 1, st.rank(E, "ms", n) < L.i))
        E.check("its span was started before", Implies(kind == 3, st.rank(E, "rs", n) < L.i))
        E.check("the active interval is not over", Implies(cur != -1, And(0 <= cur, cur < st.nm, z.a(cur) <= pos, pos <= z.b(cur), Implies(kind != 1, pos < z.b(cur)))))
        E.check("ended interval is the active one", Implies(kind == 1, cur == n))
    else:
        E.unit_x["last"] = st


def after3(E, L2, L1):
    st = E.unit_x["st"]
    r = st.p(E.unit_x["i"])
    kind, n = Select(st.evk, r), Select(st.evn, r)
    E.gset("c1", If(kind == 2, Store(st.c1, n, st.cur), st.c1))
    E.gset("c2", If(kind == 3, Store(st.c2, n, st.cur), st.c2))
    E.gset("cur", If(kind == 0, n, If(kind == 1, IntVal(-1), st.cur)))


@unit(P, "span_translate", [Q], axioms=AX, loops={Q: [LoopSpec(loop1, hints=hints_n0, after=lambda E, L2, L1: record(E, L1, L2, None, (0, 1), ("ms", "me")), ghosts=GH1),
                                                    LoopSpec(loop2, hints=hints2, after=lambda E, L2, L1: record(E, L1, L2, None, (2, 3), ("rs", "re")), ghosts=GH2),
                                                    LoopSpec(loop3, hints=hints3, after=after3, ghosts=("cur", "c1", "c2"))]})
def _(E):
    span = E.to_val(E.atom_of("DataTypeEnum", "SPAN"))
    doc = sym_ref(E, "Document", "doc")
    L1, L2 = sym_layer(E, "mapping"), sym_layer(E, "remap")
    ld, td = sym_ref(E, "dict", "layers"), sym_ref(E, "dict", "texts")
    h = E.heap
    E.assume(L1.t != L2.t, cls(ld.t) == E.prog.class_ids["dict"], cls(td.t) == E.prog.class_ids["dict"], ld.t != td.t)
    E.assume(E.heap.sel("F." + ATTRS.key(E.prog, "Document", "_layers"), doc.t) == ld.t)
    E.assume(E.heap.sel("F." + ATTRS.key(E.prog, "Document", "_texts"), doc.t) == td.t)
    n1, n2, tgt1, src1, src2, tgt2, ctx = (sym_str(E, x) for x in ("mapping_name", "remap_name", "target", "source", "source_remap", "target_remap", "context"))
    V = E.to_val
    has = lambda d, k: Select(E.heap.sel("D.dom", d), V(k))
    get = lambda d, k: Select(E.heap.sel("D.map", d), V(k))
    E.assume(has(ld.t, n1), has(ld.t, n2), get(ld.t, n1) == VR(L1.t), get(ld.t, n2) == VR(L2.t), src2.t != tgt2.t)
    spans = []
    dicts = [ld.t, td.t]
    for L, fs in ((L1, (tgt1, src1)), (L2, (src2, tgt2))):
        sch, ft = sym_ref(E, "NodeLayerSchema", "schema"), sym_ref(E, "dict", "fields")
        E.assume(cls(ft.t) == E.prog.class_ids["dict"])
        dicts.append(ft.t)
        E.assume(E.heap.sel("F._schema", L.t) == sch.t)
        E.assume(E.heap.sel("F." + ATTRS.key(E.prog, "NodeLayerSchema", "fields"), sch.t) == ft.t)
        for f in fs:
            dt, op = sym_ref(E, "DataType", "dt"), sym_ref(E, "dict", "options")
            E.assume(has(ft.t, f), get(ft.t, f) == VR(dt.t), cls(op.t) == E.prog.class_ids["dict"])
            E.assume(E.heap.sel("F.options", dt.t) == op.t)
            dicts.append(op.t)
            spans.append((dt, op))
    dt0, op0 = spans[0]
    text = sym_ref(E, "Text", "text")
    E.assume(has(op0.t, StrV(E.lit("context"), "context")), get(op0.t, StrV(E.lit("context"), "context")) == V(ctx), has(td.t, ctx), get(td.t, ctx) == VR(text.t))
    h = E.heap
    typed = And([h.sel("F.typename", d.t) == span for d, o in spans])
    z = Z(E)
    z.layers(E, L1, L2)
    z.DOM, z.MAP, z.START, z.STOP = (E.named(h.term(c), c.split(".")[-1]) for c in ("D.dom", "D.map", "F._start", "F._stop"))
    z.alloc = h.alloc
    z.src1, z.tgt1, z.src2, z.tgt2 = V(src1), V(tgt1), V(src2), V(tgt2)
    z.text = text.t
    v1, v2 = LV(E, L1), LV(E, L2)
    z.att2 = v2.att
    x = Int("x")

    def is_span(x, name):
        v = Select(Select(z.MAP, x), name)
        return And(Select(Select(z.DOM, x), name), Val.is_vref(v), R(v) > 0, R(v) < h.alloc, cls(R(v)) == E.prog.class_ids["TextSpan"], Select(z.START, R(v)) <= Select(z.STOP, R(v)))
    node = And(0 < x, x < h.alloc)
    E.assume(FA([x], Implies(And(node, v1.att(x)), And(is_span(x, z.tgt1), is_span(x, z.src1))), [v1.coll(x)]))
    E.assume(FA([x], Implies(And(node, v2.att(x), Not(Select(Select(z.DOM, x), z.tgt2))), And(is_span(x, z.src2), Select(z.START, z.field(x, z.src2)) < Select(z.STOP, z.field(x, z.src2)))), [v2.coll(x)]))
    for g in GH1 + ("rs", "re", "c1", "c2"):
        E.ghost[g] = K(I, IntVal(0))
    E.ghost["cur"] = IntVal(-1)
    E.summaries["model.Text.__getitem__"] = slice_of_text
    h0 = E.heap.copy()
    E.unit_x = {"z": z, "h0": h0}
    o = call(E, Q, [doc, n1, TupV([tgt1, src1]), n2, TupV([src2, tgt2])])
    m, m2, k, k2 = (E.fresh(c, I) for c in ("m", "m2", "k", "k2"))
    if o.raised:
        E.check("only rejections by assertion", BoolVal(o.exc == "AssertionError"))
        if "st" not in E.unit_x or "i" not in E.unit_x:
            E.check("fields that are not spans are rejected", Not(typed))
            cover(E, "not spans")
            return
        st = E.unit_x["st"]
        i = E.unit_x["i"]
        r = st.p(i)
        kind, n = Select(st.evk, r), Select(st.evn, r)
        pos = If(kind == 2, z.s(n), z.e(n) - 1)
        E.assume(0 <= m, m < st.nm, z.inc1(m), seen(Select(E.ghost["ms"], m)), seen(Select(E.ghost["me"], m)))
        cur = st.cur
        E.check("rejected because of overlapping intervals or a gap at the end of a span to translate",
                Or(And(kind == 0, cur != n, 0 <= cur, cur < st.nm, z.a(n) < z.b(cur), z.a(cur) < z.b(n)), And(kind >= 2, z.inc2(n), Not(st.inside(m, pos)))))
        cover(E, "rejected")
        return
    st = E.unit_x["last"]
    E.check("only span fields are accepted", typed)
    g = E.ghost
    E.assume(0 <= k, k < st.nk, 0 <= m, m < st.nm, 0 <= m2, m2 < st.nm)
    E.assume(*[seen(Select(g[y], z_)) for y, z_ in (("ms", m), ("ms", m2), ("rs", k), ("re", k))])
    E.check("overlapping mapping intervals are rejected", Implies(And(m != m2, z.inc1(m), z.inc1(m2)), Or(z.b(m) <= z.a(m2), z.b(m2) <= z.a(m))))
    E.check("both ends lie in mapping intervals", Implies(z.inc2(k), And(st.inside(Select(st.c1, k), z.s(k)), st.inside(Select(st.c2, k), z.e(k) - 1))))
    E.check("translated by the shifts of these intervals", Implies(z.inc2(k), st.result(E, k)))
    y, key = E.fresh("y", I), E.fresh("key", Val)
    E.check("nothing else changes, already translated spans included", Implies(And(0 < y, y < z.alloc, Not(And(v2.att(y), Not(Select(Select(z.DOM, y), z.tgt2)), key == z.tgt2))),
            And(Select(Select(E.heap.term("D.dom"), y), key) == Select(Select(z.DOM, y), key), Select(Select(E.heap.term("D.map"), y), key) == Select(Select(z.MAP, y), key))))
    cover(E, "end")
