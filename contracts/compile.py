"""Document.compile (validation, renumbering and cut collection before storage) under contract: C02, C06, C07."""
from .c07 import *
from .c07 import Q as LQ
from .c18 import typed_formula

DC = "model.Document.compile"
AX = lambda E: CNT_AXIOMS + SEQ_AXIOMS
iscut = Function("iscut", I, B)          # an arbitrary set of offsets that is closed under the span ends of the text


class World:
    """a document with any number of layers; rigid names for what compile never changes"""
    def __init__(self, E):
        self.E = E
        h = self.h0 = E.heap.copy()
        self.doc = sym_ref(E, "Document", "doc")
        self.dl = h.sel("F." + ATTRS.key(E.prog, "Document", "_layers"), self.doc.t)
        self.dt = h.sel("F." + ATTRS.key(E.prog, "Document", "_texts"), self.doc.t)
        for d in (self.dl, self.dt):
            E.assume(d > 0, d < h.alloc, cls(d) == E.prog.class_ids["dict"])
        E.assume(self.dl != self.dt)
        self.alloc0 = h.alloc
        self.lidxv = E.dict_facts(RefV(self.dl, "dict"))
        self.tidx = E.dict_facts(RefV(self.dt, "dict"))
        self.nl, self.nt = h.sel("D.n", self.dl), h.sel("D.n", self.dt)
        self.key = E.named(h.sel("D.key", self.dl), "lkeys")
        self.tkey = E.named(h.sel("D.key", self.dt), "tkeys")
        mp = E.named(h.sel("D.map", self.dl), "lmap")
        f = lambda nm: E.fresh_fn(nm, I, I)
        self.lay, self.lst, self.ft, self.lidx, self.lstidx = f("lay"), f("lst"), f("ft"), f("lidx"), f("lstidx")
        q, x = Int("q"), Int("x")
        sch = h.sel("F._schema", self.lay(q))
        MAP, DOM, OPT = E.named(h.term("D.map"), "DMAP"), E.named(h.term("D.dom"), "DDOM"), E.named(h.term("F.options"), "OPTS")
        self.MAP, self.DOM, self.OPT = MAP, DOM, OPT
        fkey = "F." + ATTRS.key(E.prog, "NodeLayerSchema", "fields")
        facts = And(Select(mp, Select(self.key, q)) == VR(self.lay(q)), Val.is_vstr(Select(self.key, q)), self.lay(q) > 0, self.lay(q) < h.alloc,
                    cls(self.lay(q)) == E.prog.class_ids["NodeLayerCollection"], h.sel("F._nodes", self.lay(q)) == self.lst(q), self.lst(q) > 0, self.lst(q) < h.alloc,
                    cls(self.lst(q)) == E.prog.class_ids["list"], sch > 0, sch < h.alloc, cls(sch) == E.prog.class_ids["NodeLayerSchema"], h.sel(fkey, sch) == self.ft(q),
                    self.ft(q) > 0, self.ft(q) < h.alloc, cls(self.ft(q)) == E.prog.class_ids["dict"], self.lidx(self.lay(q)) == q, self.lstidx(self.lst(q)) == q,
                    h.sel("L.len", self.lst(q)) >= 0)
        E.assume(FA([q], Implies(And(0 <= q, q < self.nl), facts), [self.lay(q), self.lst(q), Select(self.key, q), self.ft(q)]))
        k = Const("k", Val)
        v = Select(Select(MAP, self.ft(q)), k)
        E.assume(FA([q, k], Implies(And(0 <= q, q < self.nl, Select(Select(DOM, self.ft(q)), k)),
                                    And(Val.is_vstr(k), Val.is_vref(v), R(v) > 0, R(v) < h.alloc, E.is_cls(R(v), "DataType"), Select(OPT, R(v)) > 0, Select(OPT, R(v)) < h.alloc,
                                        cls(Select(OPT, R(v))) == E.prog.class_ids["dict"])), [v]))
        # types name their target (their constructors do); spans accepted by a span type are spans of its text (is_valid, proved in C07)
        TY = E.named(h.term("F.typename"), "TYPENAMES")
        opts = Select(OPT, R(v))
        isref = Or([Select(TY, R(v)) == tn(E, t) for t in ("NODEREF", "NODEREF_MANY", "NODEREF_SPAN")])
        isspan = Select(TY, R(v)) == tn(E, "SPAN")
        has = lambda key: And(Select(Select(DOM, opts), key), Val.is_vstr(Select(Select(MAP, opts), key)))
        E.assume(FA([q, k], Implies(And(0 <= q, q < self.nl, Select(Select(DOM, self.ft(q)), k)), And(Implies(isref, has(LAYERKEY(E))), Implies(isspan, has(CTXKEY(E))))), [v]))
        d, w = Int("d"), Const("w", Val)
        txt = h.sel("F.TextSpan.text", R(w))
        E.assume(FA([d, w], Implies(And(okv(d, w), Select(TY, d) == tn(E, "SPAN")), And(Val.is_vref(w), R(w) > 0, R(w) < h.alloc, cls(R(w)) == E.prog.class_ids["TextSpan"])), [okv(d, w)]))
        self.TY, self.isref, self.isspan = TY, lambda d: Or([Select(TY, d) == tn(E, t) for t in ("NODEREF", "NODEREF_MANY", "NODEREF_SPAN")]), lambda d: Select(TY, d) == tn(E, "SPAN")
        E.assume(FA([x], Implies(x >= h.alloc, Select(h.term("F.collection"), x) == none), [Select(h.term("F.collection"), x)]))
        self.IDS0 = E.named(h.term("F._id"), "ids0")
        self.LEL0, self.LLEN0 = E.named(h.term("L.el"), "lel0"), E.named(h.term("L.len"), "llen0")
        self.COLL = E.named(h.term("F.collection"), "coll0")
        self.NUM = E.named(h.term("F.num"), "num0")
        for nm, g in self.dw(E.heap):
            E.assume(g)

    def name(self, q):
        """the layer's own name (its schema's)"""
        h = self.h0
        return Val.vstr(h.sel("F." + ATTRS.key(self.E.prog, "NodeLayerSchema", "name"), h.sel("F._schema", self.lay(q))))

    def attached(self, x, q):
        return And(0 < x, x < self.alloc0, cls(x) == self.E.prog.class_ids["Node"], Select(self.COLL, x) == VR(self.lay(q)))

    def isnode(self, x):
        return And(0 < x, x < self.alloc0, cls(x) == self.E.prog.class_ids["Node"])

    def owner(self, x):
        """index of the layer of node x (any number for other objects)"""
        return self.lidx(R(Select(self.COLL, x)))

    def owned(self, x):
        o = self.owner(x)
        return And(0 <= o, o < self.nl, self.attached(x, o))

    def dw(self, h):
        """every layer of the document satisfies the representation invariant"""
        E = self.E
        q, i, x = Ints("q i x")
        LEL, LLEN, IDS = E.named(h.term("L.el"), "lel"), E.named(h.term("L.len"), "llen"), E.named(h.term("F._id"), "ids")
        el = Select(LEL, self.lst(q))
        n = Select(LLEN, self.lst(q))
        e = Select(el, i)
        o = self.owner(x)
        inr = And(0 <= q, q < self.nl)
        return [("entries", FA([q, i], Implies(And(inr, 0 <= i, i < n, e != none), And(Val.is_vref(e), self.attached(R(e), q), Select(IDS, R(e)) == i)), [e])),
                ("attached nodes look themselves up", FA([x], Implies(self.owned(x), And(0 <= Select(IDS, x), Select(IDS, x) < Select(LLEN, self.lst(o)), Select(Select(LEL, self.lst(o)), Select(IDS, x)) == VR(x))),
                                                         [Select(self.COLL, x)])),
                ("counted", FA([q], Implies(inr, And(n >= 0, Select(self.NUM, self.lay(q)) == cntnn(el, n))), [self.lay(q)]))]

    # loop pieces
    def at_layer(self, E, i):
        E.assume(seen(self.lay(i)))
        return RefV(self.lay(i), "NodeLayerCollection")

    def bind_layer(self, E, L, x):
        w = self.at_layer(E, L.i)
        E.check("layer %s" % "value", E.to_val(x) == E.to_val(w))
        return w

    def bind_item(self, E, L, x):
        w = self.at_layer(E, L.i)
        k, v = E.unpack(x, 2)
        E.check("layer item", E.to_val(v) == E.to_val(w))
        return TupV([k, w])


def rng(L):
    return ("range", And(0 <= L.i, L.i <= L.n))


def shape_inv(E, s):
    """members of the set of references are (target, (layer, field)) triples"""
    mem = E.heap.sel("S.mem", s)
    x = Const("m", Val)
    return FA([x], Implies(Select(mem, x), And(Val.is_vt2(x), Val.is_vt2(Val.t21(x)), Val.is_vstr(Val.t20(Val.t21(x))), Val.is_vstr(Val.t21(Val.t21(x))))), [Select(mem, x)])


def bind_triple(E, L, x):
    t = E.to_val(x)
    s = L.view.tag[1]
    E.assume(seenb(Select(E.heap.sel("S.mem", s.t), t)))
    E.check("a reference", And(Val.is_vt2(t), Val.is_vt2(Val.t21(t)), Val.is_vstr(Val.t20(Val.t21(t))), Val.is_vstr(Val.t21(Val.t21(t)))))
    return TupV([AnyV(Val.t20(t)), TupV([StrV(Val.s(Val.t20(Val.t21(t)))), StrV(Val.s(Val.t21(Val.t21(t))))])])


def texts_spec():
    """{k: set() for k in texts}: one new empty set per text"""
    def inv(E, L):
        W = E.unit_x["W"]
        h = E.heap
        r = L.ref("$comp")
        q, p, x = Int("q"), Int("p"), Const("x", Val)
        key = Select(W.tkey, q)
        ts = lambda z: R(Select(h.sel("D.map", r), Select(W.tkey, z)))
        return [rng(L), ("new", And(r >= W.alloc0, r < h.alloc, L.n == W.nt)),
                ("keys", FA([x], Select(h.sel("D.dom", r), x) == And(Select(Select(W.DOM, W.dt), x), 0 <= W.tidx(x), W.tidx(x) < L.i), [Select(h.sel("D.dom", r), x)])),
                ("sets", FA([q], Implies(And(0 <= q, q < L.i), And(Val.is_vref(Select(h.sel("D.map", r), key)), ts(q) >= W.alloc0, ts(q) < h.alloc)), [key])),
                ("sets are different", FA([q, p], Implies(And(0 <= q, q < p, p < L.i), ts(q) < ts(p)), [(Select(W.tkey, q), Select(W.tkey, p))])),
                ("empty", FA([q, x], Implies(And(0 <= q, q < L.i), Not(Select(Select(h.term("S.mem"), ts(q)), x))), [Select(Select(h.term("S.mem"), ts(q)), x)]))]

    def after(E, L2, L1):
        W = E.unit_x["W"]
        E.assume(seenb(Select(Select(W.DOM, W.dt), Select(W.tkey, L1.i))))
    return LoopSpec(inv, after=after)


def simple(*extra):
    def inv(E, L):
        out = [rng(L)]
        for e in extra:
            out += e(E, L)
        return out
    return inv


def compile_specs(l1, l2, l3, l4, l5, l6, l7, l8, l9, l10, l11=None):
    return [l1, l2, l3, l4, l5, l6, l7, l8, l9, l10]


def wf5(E, L):
    """between layers: every layer satisfies its invariant; D.* of old objects are untouched by construction"""
    W = E.unit_x["W"]
    return W.dw(E.heap)


def renumbering():
    """for idref, n in zip(range(len(v)), v): n._id = idref"""
    def pre(E, L):
        E.unit_x["rk"] = E.last_rank
        E.unit_x["ids5"] = E.named(E.heap.term("F._id"), "ids5")
        ids = E.unit_x["ids5"]
        E.unit_x["pos"] = lambda x: Select(ids, x)

    def inv(E, L):
        W = E.unit_x["W"]
        rk = E.unit_x["rk"]
        ids = E.unit_x["ids5"]
        now = E.named(E.heap.term("F._id"), "ids")
        li = E.unit_x["li"]
        x = Int("x")
        return [rng(L), ("indices", FA([x], Select(now, x) == If(And(W.attached(x, li), rk(x) < L.i), rk(x), Select(ids, x)), [Select(now, x)]))]

    def bind(E, L, x):
        k, n = E.unpack(x, 2)
        return TupV([k, as_node(E, n)])
    return LoopSpec(inv, pre=pre, bind=bind)


def outer(extra=lambda E, L: [], post=None, after=None):
    def inv(E, L):
        return [rng(L), ("all layers", And(L.n == E.unit_x["W"].nl))] + wf5(E, L) + extra(E, L)

    def bind(E, L, x):
        W = E.unit_x["W"]
        E.unit_x["li"] = L.i
        r = W.bind_item(E, L, x)
        generalise(E, "nodes of this layer", [I], lambda x: Implies(W.attached(x, L.i), And(W.owner(x) == L.i, W.owned(x))), lambda x: [Select(W.COLL, x)], lambda x: [seen(W.lay(L.i))])
        return r
    return LoopSpec(inv, bind=bind, hints=post, after=after)


def validating(extra=lambda E, L: [], after=None):
    """for n in v: validate, no undeclared fields"""
    def pre(E, L):
        E.unit_x["rk7"], E.unit_x["nodes7"] = E.last_rank, E.last_nodes
        W = E.unit_x["W"]
        E.unit_x["ids6"] = now = E.heap.term("F._id")
        ids, li = E.unit_x["ids5"], E.unit_x["li"]
        now = E.named(now, "ids")
        generalise(E, "only nodes of this layer got an index", [I], lambda x: Implies(And(W.isnode(x), Not(W.attached(x, li))), Select(now, x) == Select(ids, x)), lambda x: [Select(now, x)])

    def inv(E, L):
        W = E.unit_x["W"]
        j, k = Int("j"), Const("k", Val)
        e = Select(E.unit_x["nodes7"], j)
        f = W.ft(E.unit_x["li"])
        good = Implies(And(Select(Select(W.DOM, f), k), Select(Select(W.DOM, R(e)), k)), okv(R(Select(Select(W.MAP, f), k)), Select(Select(W.MAP, R(e)), k)))
        return [rng(L), ("valid so far", FA([j, k], Implies(And(0 <= j, j < L.i), good), [[e, Select(Select(W.DOM, f), k)]]))] + extra(E, L)
    def bind(E, L, x):
        n = as_node(E, x)
        E.unit_x["n7"] = n.t
        return n

    def then(E, L2, L1):
        u = E.unit_x
        W, n, f = u["W"], u["n7"], u["W"].ft(u["li"])
        dn, df = Select(W.DOM, n), Select(W.DOM, f)
        generalise(E, "this node is valid", [Val], lambda k: Implies(And(Select(df, k), Select(dn, k)), okv(R(Select(Select(W.MAP, f), k)), Select(Select(W.MAP, n), k))),
                   lambda k: [Select(df, k), Select(dn, k)], lambda k: [seenb(Select(df, k)), seenb(Select(dn, k))])
        E.check("this node", Select(u["nodes7"], L1.i) == VR(n))
        if after is not None:
            after(E, L2, L1)
    return LoopSpec(inv, pre=pre, bind=bind, after=then)


def spans_of(extra=lambda E, L: [], after=None, then=lambda E, L, n, v: None):
    """for n in v: offset_add(n[field].start) ..."""
    def pre(E, L):
        E.unit_x["rk9"], E.unit_x["nodes9"] = E.last_rank, E.last_nodes

    def inv(E, L):
        return [rng(L)] + extra(E, L)

    def bind(E, L, x):
        W = E.unit_x["W"]
        n = as_node(E, x)
        f = W.ft(E.unit_x["li"])
        k = E.to_val(L.var("field"))
        E.assume(seen(E.unit_x["rk7"](n.t)), seenb(Select(Select(W.DOM, f), k)), seenb(Select(Select(W.DOM, n.t), k)))
        v = Select(Select(W.MAP, n.t), k)
        E.check("node was validated", And(0 <= E.unit_x["rk7"](n.t), Select(E.unit_x["nodes7"], E.unit_x["rk7"](n.t)) == VR(n.t)))
        E.check("a span field of a valid node has a span", Implies(Select(Select(W.DOM, n.t), k), And(Val.is_vref(v), R(v) > 0, R(v) < W.alloc0, cls(R(v)) == E.prog.class_ids["TextSpan"])))
        then(E, L, n, v)
        return n
    return LoopSpec(inv, pre=pre, bind=bind, after=after)


def use(E):
    E.reuse_mods = True
    E.summaries[LQ + "__iter__"] = iter_summary
    E.summaries[LQ + "compact"] = compact_any_summary
    E.summaries[LQ + "validate"] = validate_contract


# ---------------------------------------------------------------- C02: indices after compiling
def renum_outer():
    def extra(E, L):
        W = E.unit_x["W"]
        ids = E.named(E.heap.term("F._id"), "ids")
        x, q = Ints("x q")
        LL, LE = E.named(E.heap.term("L.len"), "llen"), E.named(E.heap.term("L.el"), "lel")
        rank = lambda x: cntnn(Select(W.LEL0, W.lst(W.owner(x))), Select(W.IDS0, x))
        return [("index of a node is its rank", FA([x], Implies(And(W.owned(x), W.owner(x) < L.i), Select(ids, x) == rank(x)), [Select(ids, x)])),
                ("index of later nodes", FA([x], Implies(And(W.isnode(x), Not(And(W.owned(x), W.owner(x) < L.i))), Select(ids, x) == Select(W.IDS0, x)), [Select(ids, x)])),
                ("no gaps", FA([q], Implies(And(0 <= q, q < L.i), Select(LL, W.lst(q)) == Select(W.NUM, W.lay(q))), [W.lst(q)])),
                ("later layers", FA([q], Implies(And(L.i <= q, q < W.nl), And(Select(LL, W.lst(q)) == Select(W.LLEN0, W.lst(q)), Select(LE, W.lst(q)) == Select(W.LEL0, W.lst(q)))), [W.lst(q)])),
                ("other lists", FA([x], Implies(And(0 < x, x < W.alloc0, Not(And(0 <= W.lstidx(x), W.lstidx(x) < W.nl, W.lst(W.lstidx(x)) == x))),
                                                And(Select(LL, x) == Select(W.LLEN0, x), Select(LE, x) == Select(W.LEL0, x))), [Select(LL, x), Select(LE, x)]))]
    def after(E, L2, L1):
        W = E.unit_x["W"]
        ids = E.named(E.heap.term("F._id"), "ids")
        x = E.fresh("x", I)
        later = And(W.isnode(x), Not(And(W.owned(x), W.owner(x) < L1.i + 1)))
        E.assume(seenv(Select(W.COLL, x)), seen(Select(ids, x)), seen(Select(E.unit_x["ids5"], x)))
        E.check("a node of no layer so far", Implies(later, And(Not(And(W.owned(x), W.owner(x) < L1.i)), Not(W.attached(x, L1.i)))))
        E.check("its index before", Implies(later, Select(E.unit_x["ids5"], x) == Select(W.IDS0, x)))
        E.check("indices stay", Select(ids, x) == Select(E.unit_x["ids6"], x))
        E.assume(seen(Select(E.unit_x["ids6"], x)))
        E.check("its index now", Implies(later, Select(ids, x) == Select(W.IDS0, x)))
        y = Int("y")
        E.assume(FA([y], Implies(And(W.isnode(y), Not(And(W.owned(y), W.owner(y) < L1.i + 1))), Select(ids, y) == Select(W.IDS0, y)), [Select(ids, y)]))
    return outer(extra, after=after)


ids_stay = lambda E, L: [("indices stay", E.heap.term("F._id") == E.unit_x["ids6"])]
shapes = lambda E, L: [("shape", And(shape_inv(E, L.ref("referenced_layers")), shape_inv(E, L.ref("referenced_texts"))))]
TRIV = lambda: LoopSpec(simple())


@unit("C02", "Document.compile renumbers the nodes of every layer in order and changes nothing else", DC, axioms=AX, setup=use,
      loops={DC: [LoopSpec(simple(shapes), bind=lambda E, L, x: E.unit_x["W"].bind_layer(E, L, x)),
                  LoopSpec(simple(shapes)),
                  LoopSpec(simple(), bind=bind_triple), LoopSpec(simple(), bind=bind_triple),
                  renum_outer(), renumbering(), validating(ids_stay), LoopSpec(simple(ids_stay)), spans_of(ids_stay), TRIV()], DC + "#comp": [texts_spec(), None]})
def _(E):
    E.unit_x = {}
    W = E.unit_x["W"] = World(E)
    E.last_rank = None
    x, y, q, i = E.fresh("x", I), E.fresh("y", I), E.fresh("q", I), E.fresh("i", I)
    o = call(E, DC, [W.doc])
    h = E.heap
    for nm, g in W.dw(h):
        E.check("invariant of every layer%s: %s" % (" after a failure" if o.raised else "", nm), g)
    E.check("the document keeps its layers and texts", And([h.sel(c, r) == W.h0.sel(c, r) for r in (W.dl, W.dt) for c in ("D.map", "D.dom", "D.key", "D.n")] + [
        h.sel("F." + ATTRS.key(E.prog, "Document", "_layers"), W.doc.t) == W.dl, h.sel("F." + ATTRS.key(E.prog, "Document", "_texts"), W.doc.t) == W.dt]))
    E.check("no node changes its fields (%s)" % ("failure" if o.raised else "success"), Implies(And(0 < x, x < W.alloc0), And([h.sel(c, x) == W.h0.sel(c, x) for c in ("D.map", "D.dom")])))
    if o.raised:
        if o.exc == "SchemaValidationError":
            cover(E, "raises")
        return
    E.check("no node changes its layer", h.sel("F.collection", x) == W.h0.sel("F.collection", x))
    E.assume(seen(W.lst(q)), seen(W.lay(q)))
    ids = E.named(h.term("F._id"), "ids")
    E.check("no gaps are left", Implies(And(0 <= q, q < W.nl), h.sel("L.len", W.lst(q)) == cntnn(Select(W.LEL0, W.lst(q)), Select(W.LLEN0, W.lst(q)))))
    E.check("every index is the rank among the attached nodes", Implies(W.owned(x), Select(ids, x) == cntnn(Select(W.LEL0, W.lst(W.owner(x))), Select(W.IDS0, x))))
    E.check("order is kept", Implies(And(W.attached(x, q), W.attached(y, q), 0 <= q, q < W.nl), (Select(ids, x) < Select(ids, y)) == (Select(W.IDS0, x) < Select(W.IDS0, y))))
    E.check("nodes of no layer keep their index", Implies(And(W.isnode(x), Not(W.owned(x))), Select(ids, x) == Select(W.IDS0, x)))
    cover(E, "end")
