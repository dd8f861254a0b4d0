"""C06: text segmentation used for storage is lossless and covers all span ends."""
from .layer import *

P = "C06"
P4 = ["C06", "C04"]
AX = lambda E: CNT_AXIOMS + SEQ_AXIOMS
psum = Function("psum", IV, I, I)        # psum(A, k): total length of the strings A[0..k)


def psum_def(A, k):
    return And(psum(A, 0) == 0, Implies(k >= 0, psum(A, k + 1) == psum(A, k) + sq_len(sq_of(Select(A, k)))))


def join_def(A, k):
    return And(sq_join(A, 0) == sq_empty, Implies(k >= 0, sq_join(A, k + 1) == sq_cat(sq_join(A, k), sq_of(Select(A, k)))))


def cuts(off, m, n):
    """off[0..m) are increasing offsets from 0 to n"""
    a, b = Ints("a b")
    o = lambda i: Val.i(Select(off, i))
    return And(m >= 1, o(0) == 0, o(m - 1) == n,
               FA([a], Implies(And(0 <= a, a < m), And(Val.is_vint(Select(off, a)), 0 <= o(a), o(a) <= n)), [Select(off, a)]),
               FA([a, b], Implies(And(0 <= a, a <= b, b < m), o(a) <= o(b)), [(Select(off, a), Select(off, b))]))


def sym_text_obj(E, name="text"):
    t = sym_ref(E, "Text", name)
    return t, E.heap.sel("F.Text.text", t.t)


def seg_spec():
    def inv(E, L):
        out = L.ref("output")
        s, off = L.var("self"), L.var("offsets")
        h = E.heap
        n, el = h.sel("L.len", out), E.named(h.sel("L.el", out), "segs")
        o = E.named(h.sel("L.el", off.t), "offs")
        q = Int("q")
        st = h.sel("F.Text.text", s.t)
        return [("in range", L.i <= L.n), ("one segment per step", n == L.i), ("new list", out < h.alloc),
                ("segments", FA([q], Implies(And(0 <= q, q < L.i), Select(el, q) == Val.vstr(sq_slice(st, Val.i(Select(o, q)), Val.i(Select(o, q + 1))))), [Select(el, q)]))]

    def hints(E, L, where):
        off = L.var("offsets")
        o = E.named(E.heap.sel("L.el", off.t), "offs")
        E.assume(seenv(Select(o, L.i)), seenv(Select(o, L.i + 1)))
    return LoopSpec(inv, hints=hints)


@unit(P4, "Text.compile cuts the text at the offsets", "model.Text.compile", axioms=AX, loops={"model.Text.compile": [seg_spec()]})
def _(E):
    t, st = sym_text_obj(E)
    off = sym_ref(E, "list", "offsets")
    h = E.heap
    m = h.sel("L.len", off.t)
    o = E.named(h.sel("L.el", off.t), "offs")
    E.assume(cls(off.t) == E.prog.class_ids["list"], cuts(o, m, sq_len(st)))
    E.shape_list(off, "int")
    r = call(E, "model.Text.compile", [t, off])
    no_exc(E, r)
    n, el = E.llen(r.val), E.hget("L.el", r.val.t)
    i = E.fresh("i", I)
    E.check("one segment between each two cuts", n == m - 1)
    E.check("segment i is the text between cut i and cut i+1", Implies(And(0 <= i, i < n), Select(el, i) == Val.vstr(sq_slice(st, Val.i(Select(o, i)), Val.i(Select(o, i + 1))))))
    E.check("the offsets are unchanged", And(h.sel("L.el", off.t) == E.heap.sel("L.el", off.t), h.sel("L.len", off.t) == E.heap.sel("L.len", off.t)))
    cover(E, "end")


@unit(P4, "segments between the cuts join to the text and their lengths sum to the cuts", [], axioms=AX)
def _(E):
    """lemma over the contract of Text.compile, by induction over the number of segments"""
    A, off = E.fresh("A", IV), E.fresh("off", IV)
    st = E.fresh("st", Sq)
    m, k = E.fresh("m", I), E.fresh("k", I)
    o = lambda i: Val.i(Select(off, i))
    q = Int("q")
    E.assume(cuts(off, m, sq_len(st)))
    E.assume(FA([q], Implies(And(0 <= q, q < m - 1), Select(A, q) == Val.vstr(sq_slice(st, o(q), o(q + 1)))), [Select(A, q)]))
    PP = lambda k: And(sq_join(A, k) == sq_slice(st, 0, o(k)), psum(A, k) == o(k))
    E.check("no segment", Implies(And(join_def(A, IntVal(0)), psum_def(A, IntVal(0)), sq_slice(st, 0, 0) == sq_slice(st, 0, 0)), PP(IntVal(0))))
    E.assume(seenv(Select(off, k)), seenv(Select(off, k + 1)), seenv(Select(A, k)))
    E.check("one more segment", Implies(And(0 <= k, k < m - 1, PP(k), join_def(A, k), psum_def(A, k)), PP(k + 1)))
    E.check("all segments", Implies(PP(m - 1), sq_join(A, m - 1) == st))


# ---------------------------------------------------------------- reading the segments back
CO = "codec.MsgpackCodec.compute_text_offsets"


def text_dict(E):
    """the decoded texts: name to list of strings"""
    d = sym_ref(E, "dict", "texts")
    d.valkind = "list"
    h = E.heap
    x, q = Const("x", Val), Int("q")
    v = Select(h.sel("D.map", d.t), x)
    E.assume(FA([x], Implies(Select(h.sel("D.dom", d.t), x), And(Val.is_vstr(x), Val.is_vref(v), R(v) > 0, R(v) < h.alloc, cls(R(v)) == E.prog.class_ids["list"], h.sel("L.len", R(v)) >= 0)), [v]))
    LE = E.named(h.term("L.el"), "allel")
    E.assume(FA([x, q], Implies(And(Select(h.sel("D.dom", d.t), x), 0 <= q, q < h.sel("L.len", R(v))), Val.is_vstr(Select(Select(LE, R(v)), q))), [Select(Select(LE, R(v)), q)]))
    E.dict_facts(d)
    return d


def table_is(E, h, r, el, m, what=""):
    """dictionary r maps 0..m to the prefix sums of the lengths of el"""
    x, q = Const("x", Val), Int("q")
    return And(FA([x], Select(h.sel("D.dom", r), x) == And(Val.is_vint(x), 0 <= Val.i(x), Val.i(x) <= m), [Select(h.sel("D.dom", r), x)]),
               FA([x], Implies(And(Val.is_vint(x), 0 <= Val.i(x), Val.i(x) <= m), Select(h.sel("D.map", r), x) == Val.vint(psum(el, Val.i(x)))), [Select(h.sel("D.map", r), x)]))


def off_specs():
    def outer(E, L):
        d = L.var("texts")
        t2o = L.ref("text2offsets")
        doc = L.var("doc")
        e, h = L.entry, E.heap
        q = Int("q")
        key = Select(e.sel("D.key", d.t), q)
        seg = R(Select(e.sel("D.map", d.t), key))
        dts = e.sel("F." + ATTRS.key(E.prog, "Document", "_texts"), doc.t)
        tx = R(Select(h.sel("D.map", dts), key))
        tab = R(Select(h.sel("D.map", t2o), key))
        x = Int("x")
        return [("in range", L.i <= L.n),
                ("segments unchanged", And([FA([x], Implies(And(0 < x, x < e.alloc), h.sel(c, x) == e.sel(c, x)), [h.sel(c, x)]) for c in ("L.len", "L.el") if not h.term(c).eq(e.term(c))] or [BoolVal(True)])),
                ("done tables", FA([q], Implies(And(0 <= q, q < L.i), And(Select(h.sel("D.dom", t2o), key), Val.is_vref(Select(h.sel("D.map", t2o), key)), tab >= e.alloc, tab < h.alloc, tab != t2o, tab != dts,
                                                                      table_is(E, h, tab, e.sel("L.el", seg), e.sel("L.len", seg)))), [key])),
                ("done texts", FA([q], Implies(And(0 <= q, q < L.i), And(Select(h.sel("D.dom", dts), key), Val.is_vref(Select(h.sel("D.map", dts), key)), tx >= e.alloc, tx < h.alloc,
                                                                     h.sel("F.Text.text", tx) == sq_join(e.sel("L.el", seg), e.sel("L.len", seg)))), [key])),
                ("nothing else", And(h.sel("F." + ATTRS.key(E.prog, "Document", "_texts"), doc.t) == dts, t2o >= 0, t2o != dts, t2o < h.alloc,
                                     h.sel("D.dom", d.t) == e.sel("D.dom", d.t), h.sel("D.map", d.t) == e.sel("D.map", d.t), h.sel("D.key", d.t) == e.sel("D.key", d.t)))]

    def inner(E, L):
        out = L.ref("offsets")
        t = L.var("text")
        h = E.heap
        el = E.named(L.entry.sel("L.el", t.t), "segs")
        n, o = h.sel("L.len", out), E.named(h.sel("L.el", out), "offs")
        q, x = Int("q"), Int("x")
        e = L.entry
        return [("in range", L.i <= L.n), ("one offset per segment", n == L.i), ("position", L.int("pos") == psum(el, L.i)),
                ("offsets so far", FA([q], Implies(And(0 <= q, q < L.i), Select(o, q) == Val.vint(psum(el, q))), [Select(o, q)])),
                ("other lists unchanged", And([FA([x], Implies(And(0 < x, x < e.alloc, x != out), h.sel(c, x) == e.sel(c, x)), [h.sel(c, x)]) for c in ("L.len", "L.el") if not h.term(c).eq(e.term(c))] or [BoolVal(True)])),
                ("distinct", And(out != t.t, out < h.alloc))]

    def ihints(E, L, where):
        t = L.var("text")
        el = E.named(L.entry.sel("L.el", t.t), "segs")
        E.assume(psum_def(el, L.i))
        E.assume(psum_def(L.entry.sel("L.el", t.t), L.i))

    def ibind(E, L, x):
        t = E.to_val(x)
        E.check("segments are strings", Val.is_vstr(t))
        return StrV(Val.s(t))
    def after(E, L2, L):
        if getattr(E, "last_dict", None) is None:
            return
        kk, vv, last = E.last_dict
        h = E.heap
        seg = R(E.to_val(E.unpack(L.view.at(L.i), 2)[1]))
        el, m = L.entry.sel("L.el", seg), L.entry.sel("L.len", seg)
        r = E.last_dict_ref
        dom, mp, ke = h.sel("D.dom", r), h.sel("D.map", r), h.sel("L.el", kk.t)
        inr = lambda x: And(Val.is_vint(x), 0 <= Val.i(x), Val.i(x) <= m)
        hint = lambda x: [seenv(Select(ke, Val.i(x))), seenv(Select(h.sel("L.el", vv.t), Val.i(x)))]
        generalise(E, "the table has exactly the ranks", [Val], lambda x: Select(dom, x) == inr(x), lambda x: [Select(dom, x)], hint)
        generalise(E, "the table maps rank to offset", [Val], lambda x: Implies(inr(x), Select(mp, x) == Val.vint(psum(el, Val.i(x)))), lambda x: [Select(mp, x)], hint)
        E.assume(seenv(E.to_val(RefV(r, "dict"))))

    return [LoopSpec(outer, after=after), LoopSpec(inner, hints=ihints, pre=lambda E, L: ihints(E, L, "pre"), bind=ibind)]


@unit(P4, "decoding restores each text and maps every rank to its offset", [CO, "model.Document.add_text", "model.Text.__init__"], axioms=AX, loops={CO: off_specs()})
def _(E):
    doc = sym_ref(E, "Document", "doc")
    h0 = E.heap
    d = text_dict(E)
    dts = h0.sel("F." + ATTRS.key(E.prog, "Document", "_texts"), doc.t)
    E.assume(dts > 0, dts < h0.alloc, dts != d.t, cls(dts) == E.prog.class_ids["dict"])
    old = E.heap.copy()
    r = call(E, CO, [doc, d])
    no_exc(E, r)
    h = E.heap
    k = E.fresh("name", Val)
    E.assume(Select(old.sel("D.dom", d.t), k))
    seg = R(Select(old.sel("D.map", d.t), k))
    el, m = old.sel("L.el", seg), old.sel("L.len", seg)
    E.check("an offset table for the text", And(Select(h.sel("D.dom", r.val.t), k), Val.is_vref(Select(h.sel("D.map", r.val.t), k))))
    tab = R(Select(h.sel("D.map", r.val.t), k))
    x = E.fresh("rank", I)
    E.check("the table has every rank", Implies(And(0 <= x, x <= m), Select(h.sel("D.dom", tab), Val.vint(x))))
    E.check("rank x maps to the length of the first x segments", Implies(And(0 <= x, x <= m), Select(h.sel("D.map", tab), Val.vint(x)) == Val.vint(psum(el, x))))
    tx = R(Select(h.sel("D.map", dts), k))
    E.check("the text is the concatenation of its segments", And(Select(h.sel("D.dom", dts), k), Val.is_vref(Select(h.sel("D.map", dts), k)), h.sel("F.Text.text", tx) == sq_join(el, m)))
    cover(E, "end")
