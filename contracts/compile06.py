"""C06 through Document.compile: the cut set of a text."""
from .compile07 import *

P6 = "C06"
cutat = Function("cutat", I, I, Val, B)      # positions of interest (instantiation only)


class Cuts:
    """an arbitrary text (number tq), an arbitrary span field value that refers to it, an arbitrary set of offsets closed under the property"""
    def __init__(self, E):
        W = self.W = E.unit_x["W"]
        self.r = r = E.unit_x["R"] = Rigid(E)
        h = E.heap
        self.tq = E.fresh("tq", I)
        E.assume(0 <= self.tq, self.tq < W.nt)
        self.key = Select(W.tkey, self.tq)
        E.assume(seenv(self.key), seenb(Select(Select(W.DOM, W.dt), self.key)))
        t = R(Select(Select(W.MAP, W.dt), self.key))
        self.len = sq_len(h.sel("F.Text.text", t))
        self.START, self.STOP = E.named(h.term("F._start"), "START"), E.named(h.term("F._stop"), "STOP")
        v = r.value
        self.ctx = lambda d: Select(Select(W.MAP, Select(W.OPT, d)), CTXKEY(E))
        self.refers = And(r.decl, r.present, W.isspan(r.d0), self.ctx(r.d0) == self.key)
        self.a, self.b = Val.vint(Select(self.START, R(v))), Val.vint(Select(self.STOP, R(v)))
        E.assume(seenv(v))
        # iscut: any predicate that holds of the offsets the property names
        q, x, k = Int("q"), Int("x"), Const("k", Val)
        d = R(Select(Select(W.MAP, W.ft(q)), k))
        val = Select(Select(W.MAP, x), k)
        z = Int("z")
        E.assume(iscut(0), iscut(self.len), self.len >= 0, FA([z], Implies(iscut(z), And(0 <= z, z <= self.len)), [iscut(z)]))      # span ends lie within their text
        E.assume(FA([q, x, k], Implies(And(0 <= q, q < W.nl, Select(Select(W.DOM, W.ft(q)), k), W.isspan(d), self.ctx(d) == self.key, W.attached(x, q), Select(Select(W.DOM, x), k)),
                                       And(iscut(Select(self.START, R(val))), iscut(Select(self.STOP, R(val))))), [cutat(q, x, k)]))

    def closed(self, mem):
        v = Const("v", Val)
        return FA([v], Implies(Select(mem, v), And(Val.is_vint(v), iscut(Val.i(v)))), [Select(mem, v)])


def gathered(done):
    def inv(E, L):
        c = E.unit_x["C"]
        mem = E.named(E.heap.sel("S.mem", E.unit_x["ts0"]), "cuts")
        return [("only cuts", c.closed(mem)), ("ends of the span", Implies(And(c.refers, done(E, L)), And(Select(mem, c.a), Select(mem, c.b))))]
    return inv


def before_layer(E, L):
    return E.unit_x["R"].q0 < E.unit_x["li"]


def layers6():
    def pre(E, L):
        u = E.unit_x
        c, W = u["C"], u["W"]
        TM = E.named(E.heap.sel("D.map", L.ref("text_offsets")), "TM")
        u["TOr"] = L.ref("text_offsets")
        u["ts"] = lambda k: R(Select(TM, k))
        u["ts0"] = E.named(u["ts"](c.key), "ts0")
        E.assume(seenv(Select(TM, c.key)))

    def after(E, L2, L1):
        u = E.unit_x
        r = u["R"]
        E.assume(seenb(Select(Select(r.W.DOM, r.W.ft(r.q0)), r.f0)), seen(u["fidx8"](r.f0)))
    s = outer(gathered(lambda E, L: E.unit_x["R"].q0 < L.i), after=after)
    s.pre = pre
    return s


def fields6():
    def pre(E, L):
        u = E.unit_x
        r = u["R"]
        u["fidx8"] = E.dict_facts(L.view.tag[1])
        E.assume(seenb(Select(Select(r.W.DOM, r.W.ft(r.q0)), r.f0)))

    def bind(E, L, x):
        u = E.unit_x
        u["i8"] = L.i
        u["rk9"] = None
        return None

    def after(E, L2, L1):
        u = E.unit_x
        r, c, W = u["R"], u["C"], u["W"]
        k = E.to_val(L2.var("field"))
        E.check("the field in question", Implies(And(r.decl, r.q0 == u["li"], u["fidx8"](r.f0) == L1.i), r.f0 == k))
        if u["rk9"] is not None:
            E.assume(seen(u["rk9"](r.x0)), seenv(Select(W.COLL, r.x0)))
            E.check("the node in question was visited", Implies(And(r.present, r.q0 == u["li"]), And(0 <= u["rk9"](r.x0), u["rk9"](r.x0) < u["n9"])))
    return LoopSpec(simple(gathered(lambda E, L: Or(before_layer(E, L), And(E.unit_x["R"].q0 == E.unit_x["li"], E.unit_x["fidx8"](E.unit_x["R"].f0) < L.i)))), pre=pre, bind=bind, after=after)


def done9(E, L):
    u = E.unit_x
    r = u["R"]
    f = u["fidx8"](r.f0)
    return Or(before_layer(E, L), And(r.q0 == u["li"], Or(f < u["i8"], And(f == u["i8"], u["rk9"](r.x0) < L.i))))


def nodes6():
    def then(E, L, n, v):
        u = E.unit_x
        c, W, r = u["C"], u["W"], u["R"]
        k = E.to_val(L.var("field"))
        d = R(Select(Select(W.MAP, W.ft(u["li"])), k))
        cx = c.ctx(d)
        E.assume(cutat(u["li"], n.t, k), seenb(Select(Select(W.DOM, W.dt), cx)), seenv(Select(W.tkey, W.tidx(cx))), seenv(c.key), seenv(v))
        E.check("a declared span field", And(Select(Select(W.DOM, W.ft(u["li"])), k), W.isspan(d)))
        off = L.ref("offsets")
        E.check("the set of its text", And(off == u["ts"](cx), (off == u["ts0"]) == (cx == c.key)))
        E.check("this is the node in question", Implies(And(r.present, r.q0 == u["li"], u["rk9"](r.x0) == L.i), r.x0 == n.t))
    s = spans_of(gathered(done9), then=then)
    pre0 = s.pre

    def pre(E, L):
        pre0(E, L)
        E.unit_x["n9"] = L.n
    s.pre = pre
    return s


def result(E, M):
    """the entry of the text in question: offsets to ranks, sorted offsets"""
    u = E.unit_x
    c, h = u["C"], E.heap
    v = Select(h.sel("D.map", M), c.key)
    d, s = R(Val.t20(v)), R(Val.t21(v))
    S, n = E.named(Select(E.named(h.term("L.el"), "LEL"), s), "offs"), h.sel("L.len", s)
    DOM, MP = E.named(h.sel("D.dom", d), "rdom"), E.named(h.sel("D.map", d), "rmap")
    j, k, a = Int("j"), Int("k"), Const("a", Val)
    o = lambda i: Val.i(Select(S, i))
    rank = lambda a: Val.i(Select(MP, a))
    return [("the text has an entry", And(Select(h.sel("D.dom", M), c.key), Val.is_vt2(v), Val.is_vref(Val.t20(v)), Val.is_vref(Val.t21(v)), d > 0, d < h.alloc, s > 0, s < h.alloc, d != M,
                                          cls(d) == E.prog.class_ids["dict"], cls(s) == E.prog.class_ids["list"])),
            ("from the start to the end", And(n >= 1, o(0) == 0, o(n - 1) == c.len)),
            ("only cuts in the list", FA([j], Implies(And(0 <= j, j < n), And(Val.is_vint(Select(S, j)), iscut(o(j)), Select(DOM, Select(S, j)), Select(MP, Select(S, j)) == Val.vint(j))), [Select(S, j)])),
            ("increasing", FA([j, k], Implies(And(0 <= j, j < k, k < n), o(j) < o(k)), [(Select(S, j), Select(S, k))])),
            ("ranks", FA([a], Implies(Select(DOM, a), And(0 <= rank(a), rank(a) < n, Select(S, rank(a)) == a)), [Select(DOM, a)])),
            ("the ends of the span have a rank", Implies(c.refers, And(Select(DOM, c.a), Select(DOM, c.b))))]


def texts6():
    def pre(E, L):
        u = E.unit_x
        u["mem10"] = E.named(E.heap.sel("S.mem", u["ts0"]), "mem10")
        u["n10"] = L.n

    def inv(E, L):
        u = E.unit_x
        c = u["C"]
        return [rng(L), ("all texts", L.n == u["W"].nt), ("not touched yet", Implies(L.i <= c.tq, E.heap.sel("S.mem", u["ts0"]) == u["mem10"]))] + \
            [(nm, Implies(c.tq < L.i, f)) for nm, f in result(E, L.ref("text_offset_mapping"))]

    def bind(E, L, x):
        u = E.unit_x
        W, c = u["W"], u["C"]
        E.assume(seenv(Select(W.tkey, L.i)), seenv(c.key), seenb(Select(Select(W.DOM, W.dt), Select(W.tkey, L.i))))
        E.check("one text, one set", And(Implies(L.i != c.tq, And(Select(W.tkey, L.i) != c.key, u["ts"](Select(W.tkey, L.i)) != u["ts0"])), Implies(L.i == c.tq, u["ts"](Select(W.tkey, L.i)) == u["ts0"])))
        return None

    def after(E, L2, L1):
        u = E.unit_x
        W, c = u["W"], u["C"]
        p, q, sel, n = E.last_sort
        M = L2.ref("text_offset_mapping")
        h = E.heap
        v = Select(h.sel("D.map", M), Select(W.tkey, L1.i))
        s = R(Val.t21(v))
        S, d = E.named(h.sel("L.el", s), "S6"), R(Val.t20(v))
        DOM, MP = E.named(h.sel("D.dom", d), "rdom6"), E.named(h.sel("D.map", d), "rmap6")
        kk, vv, last = E.last_dict
        ke, ve = E.hget("L.el", kk.t), E.hget("L.el", vv.t)
        G = L1.i == c.tq
        o = lambda i: Val.i(Select(S, i))
        mem = E.named(h.sel("S.mem", u["ts0"]), "mem6")
        views = E.set_views[-2:]
        E.check("the entry of this text", And(Val.is_vt2(v), h.sel("L.len", s) == n, d == E.last_dict_ref))
        a = lambda *t: [seenv(x) for x in t]
        generalise(E, "members of this text", [Val], lambda x: Implies(And(G, Select(mem, x)), And(Val.is_vint(x), iscut(Val.i(x)))), lambda x: [Select(mem, x)], lambda x: [seenb(Select(u["mem10"], x))])
        generalise(E, "listed offsets are members", [I], lambda j: Implies(And(G, 0 <= j, j < n), And(Select(mem, Select(S, j)), Val.is_vint(Select(S, j)), iscut(o(j)))), lambda j: [Select(S, j)],
                   lambda j: [seen(p(j)), seenb(Select(mem, Select(S, j)))] + a(Select(sel, p(j))) + [seenv(Select(w[2], p(j))) for w in views])
        generalise(E, "listed offsets increase", [I, I], lambda j, k: Implies(And(G, 0 <= j, j < k, k < n), o(j) < o(k)), lambda j, k: [(Select(S, j), Select(S, k))],
                   lambda j, k: [seen(p(j)), seen(p(k)), seen(q(p(j))), seen(q(p(k)))] + a(Select(S, j), Select(S, k), Select(sel, p(j)), Select(sel, p(k))) + [seenv(Select(w[2], p(z))) for w in views for z in (j, k)])
        E.check("as many ranks as offsets", And(E.llen(kk) == n, E.llen(vv) == n))
        ix, rk = E.nothing_dropped()
        place = lambda j: [seen(ix(j)), seen(rk(j))] + a(Select(ke, j), Select(ve, j), Select(S, j))
        generalise(E, "pairs: in place", [I], lambda j: Implies(And(0 <= j, j < n), And(ix(j) == j, rk(j) == j)), lambda j: [Select(S, j)], place)
        generalise(E, "pairs: keys", [I], lambda j: Implies(And(G, 0 <= j, j < n), Select(ke, j) == Select(S, j)), lambda j: [Select(ke, j)], place)
        generalise(E, "pairs: values", [I], lambda j: Implies(And(G, 0 <= j, j < n), Select(ve, j) == Val.vint(j)), lambda j: [Select(ve, j)], place)
        J = E.fresh("J", I)
        x = Select(S, J)
        inr = And(G, 0 <= J, J < n)
        E.assume(seen(last(x)), *a(Select(ke, J), Select(ke, last(x)), Select(ve, last(x)), Select(S, last(x)), Select(MP, x), x))
        E.assume(seenb(Select(DOM, x)))
        E.check("a listed offset is a key", Implies(inr, And(Select(DOM, x), 0 <= last(x), last(x) < n, Select(ke, last(x)) == x)))
        E.check("its last position", Implies(inr, And(Select(S, last(x)) == x, last(x) == J)))
        E.check("its rank", Implies(inr, Select(MP, x) == Val.vint(J)))
        jj = Int("jj")
        y = Select(S, jj)
        E.assume(FA([jj], Implies(And(G, 0 <= jj, jj < n), And(Select(DOM, y), last(y) == jj, Select(MP, y) == Val.vint(jj))), [y]))

        def listed(x):
            return Implies(And(G, Select(mem, x)), Select(DOM, x))
        generalise(E, "every member is listed", [Val], listed, lambda x: [Select(mem, x)],
                   lambda x: [y for w in views for y in [seen(q(w[3](x))), seen(p(q(w[3](x))))] + a(Select(w[2], w[3](x)), Select(sel, w[3](x)), Select(S, q(w[3](x))))])
        generalise(E, "only listed offsets", [Val], lambda x: Implies(And(G, Select(DOM, x)), And(0 <= last(x), last(x) < n, Select(S, last(x)) == x, Select(MP, x) == Val.vint(last(x)))), lambda x: [Select(DOM, x)],
                   lambda x: a(Select(ke, last(x)), Select(ve, last(x)), Select(MP, x)))
        zero, end = Val.vint(0), Val.vint(c.len)
        E.assume(*a(Select(S, 0), Select(S, n - 1), Select(S, last(zero)), Select(S, last(end))))
        E.assume(seenb(Select(mem, zero)), seenb(Select(mem, end)), seenb(Select(DOM, zero)), seenb(Select(DOM, end)))
        E.check("0 and the length are members", Implies(G, And(Select(mem, zero), Select(mem, end), Select(DOM, zero), Select(DOM, end))))
        E.check("the list starts at 0", Implies(G, And(n >= 1, o(0) == 0)))
        E.check("the list ends at the length", Implies(G, o(n - 1) == c.len))
        E.assume(seenb(Select(mem, c.a)), seenb(Select(mem, c.b)), seenb(Select(u["mem10"], c.a)), seenb(Select(u["mem10"], c.b)))
        E.check("the ends of the span are members", Implies(And(G, c.refers), And(Select(mem, c.a), Select(mem, c.b), Select(DOM, c.a), Select(DOM, c.b))))
    return LoopSpec(inv, pre=pre, bind=bind, after=after)


@unit(P6, "Document.compile cuts every text at 0, at its end and at the ends of its spans, nowhere else", DC, axioms=AX, setup=use,
      loops={DC: [LoopSpec(simple(shapes), bind=lambda E, L, x: E.unit_x["W"].bind_layer(E, L, x)), LoopSpec(simple(shapes)), LoopSpec(simple(), bind=bind_triple), LoopSpec(simple(), bind=bind_triple),
                  layers6(), renumbering(), validating(gathered(before_layer)), fields6(), nodes6(), texts6()], DC + "#comp": [texts_spec(), None]})
def _(E):
    E.unit_x = {}
    W = E.unit_x["W"] = World(E)
    E.last_rank = None
    c = E.unit_x["C"] = Cuts(E)
    o = call(E, DC, [W.doc])
    if o.raised:
        return
    for nm, f in result(E, o.val.t):
        E.check("result: " + nm, f)
    cover(E, "end")
