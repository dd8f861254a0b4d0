"""C12: grouping by span assigns exactly the intersecting (or covered) nodes."""
from .layer import *

seenb = Function("seenb", B, B)

P = "C12"
Q = "algorithm.group_by_span"
AX = lambda E: []
VI = ArraySort(Val, I)


@unit(P, "the cover test: the group span contains the whole span", ["algorithm.is_covered_by", "model.TextSpan.start", "model.TextSpan.stop"])
def _(E):
    a, b = sym_span(E, "span"), sym_span(E, "group")
    r = call(E, "algorithm.is_covered_by", [a, b])
    no_exc(E, r)
    h = E.heap
    E.check("contained", E.truth(r.val) == And(h.sel("F._start", b.t) <= h.sel("F._start", a.t), h.sel("F._stop", a.t) <= h.sel("F._stop", b.t)))
    cover(E, "end")


pair = Function("pair", Val, Val, B)
evpos = Function("evpos", I, B)          # positions of interest (instantiation only)
lay, node = Val.t20, Val.t21          # a key is (layer name or None for groups, node)
key2 = Val.vt2


class W:
    """the inputs: groups gn(0..ng), layers tl(0..nt) with nodes ln(t, 0..nn(t)); ok(key): that node has a span, s(key)..e(key) is its span"""
    def __init__(self, E):
        self.E = E
        self.G, self.LN = sym_ref(E, "list", "group_nodes"), sym_ref(E, "dict", "layer_nodes")
        h = E.heap
        E.assume(cls(self.G.t) == E.prog.class_ids["list"], cls(self.LN.t) == E.prog.class_ids["dict"])
        self.LN.valkind = "list"
        self.gfield = sym_str(E, "group_span_field")
        self.LSF = sym_ref(E, "dict", "layer_span_field")
        E.assume(cls(self.LSF.t) == E.prog.class_ids["dict"], self.LSF.t != self.LN.t)
        self.LSF.valfn = lambda E, t: (E.assume(Val.is_vstr(t)), StrV(simplify(Val.s(t)), None))[1]
        h = self.h0 = E.heap.copy()
        self.alloc0 = h.alloc
        self.ng, self.nt = h.sel("L.len", self.G.t), h.sel("D.n", self.LN.t)
        E.assume(self.ng >= 0)
        self.tidx = E.dict_facts(self.LN)
        self.tdom, self.tmap, self.tkey = E.named(h.sel("D.dom", self.LN.t), "tdom"), E.named(h.sel("D.map", self.LN.t), "tmap"), E.named(h.sel("D.key", self.LN.t), "tkey")
        self.sdom, self.smap = E.named(h.sel("D.dom", self.LSF.t), "sdom"), E.named(h.sel("D.map", self.LSF.t), "smap")
        gel = E.named(h.sel("L.el", self.G.t), "gel")
        LEL, LLEN = E.named(h.term("L.el"), "LEL0"), E.named(h.term("L.len"), "LLEN0")
        self.DOM, self.MAP = E.named(h.term("D.dom"), "DOM0"), E.named(h.term("D.map"), "MAP0")
        self.START, self.STOP = E.named(h.term("F._start"), "START"), E.named(h.term("F._stop"), "STOP")
        self.gn, self.tl, self.nn = E.fresh_fn("gn", I, I), E.fresh_fn("tl", I, I), E.fresh_fn("nn", I, I)
        self.ln = E.fresh_fn("ln", I, I, I)
        self.pos = E.fresh_fn("pos", Val, I)
        self.ok = E.fresh_fn("ok", Val, B)
        i, t = Ints("i t")
        k = Const("k", Val)
        nodecls = E.prog.class_ids["Node"]
        isnode = lambda x: And(x > 0, x < h.alloc, cls(x) == nodecls)
        E.assume(FA([i], Implies(And(0 <= i, i < self.ng), And(Select(gel, i) == VR(self.gn(i)), isnode(self.gn(i)), self.pos(self.kg(i)) == i)), [self.gn(i), Select(gel, i)]))
        E.assume(FA([t], Implies(And(0 <= t, t < self.nt), And(Val.is_vstr(Select(self.tkey, t)), Select(self.tmap, Select(self.tkey, t)) == VR(self.tl(t)), self.tl(t) > 0, self.tl(t) < h.alloc,
                                                               cls(self.tl(t)) == E.prog.class_ids["list"], self.nn(t) >= 0, Select(LLEN, self.tl(t)) == self.nn(t))), [self.tl(t)]))
        E.assume(FA([t, i], Implies(And(0 <= t, t < self.nt, 0 <= i, i < self.nn(t)), And(Select(Select(LEL, self.tl(t)), i) == VR(self.ln(t, i)), isnode(self.ln(t, i)), self.pos(self.kn(t, i)) == i)),
                    [self.ln(t, i), Select(Select(LEL, self.tl(t)), i)]))
        fv = self.value
        self.has = lambda k: And(Select(Select(self.DOM, R(node(k))), self.fld(k)), fv(k) != none)
        grp = And(lay(k) == none, self.pos(k) < self.ng, node(k) == VR(self.gn(self.pos(k))))
        t_ = self.tidx(lay(k))
        lyr = And(Val.is_vstr(lay(k)), Select(self.tdom, lay(k)), self.pos(k) < self.nn(t_), node(k) == VR(self.ln(t_, self.pos(k))))
        E.assume(FA([k], self.ok(k) == And(Val.is_vt2(k), 0 <= self.pos(k), Or(grp, lyr), self.has(k)), [self.ok(k)]))
        # precondition: the field of a node is absent, None or a span
        E.assume(FA([k], Implies(self.ok(k), And(Val.is_vref(node(k)), isnode(R(node(k))), Val.is_vref(fv(k)), R(fv(k)) > 0, R(fv(k)) < h.alloc, cls(R(fv(k))) == E.prog.class_ids["TextSpan"], self.s(k) <= self.e(k))), [self.ok(k)]))

    def kg(self, i):
        return key2(none, VR(self.gn(i)))

    def kn(self, t, i):
        return key2(Select(self.tkey, t), VR(self.ln(t, i)))

    def fld(self, k):
        return If(lay(k) == none, self.E.to_val(self.gfield), Select(self.smap, lay(k)))

    def value(self, k):
        return Select(Select(self.MAP, R(node(k))), self.fld(k))

    def s(self, k):
        return Select(self.START, R(self.value(k)))

    def e(self, k):
        return Select(self.STOP, R(self.value(k)))

    def begin(self, k):
        z = self.s(k) == self.e(k)
        return key2(key2(Val.vint(self.s(k)), Val.vint(If(z, IntVal(3), If(lay(k) == none, IntVal(0), IntVal(1))))), k)

    def end(self, k):
        z = self.s(k) == self.e(k)
        return key2(key2(Val.vint(self.e(k)), Val.vint(If(z, IntVal(4), If(lay(k) == none, IntVal(-2), IntVal(-1))))), k)

    def overlap(self, g, x):
        """half-open intersection; a zero-length span is the position"""
        zg, zx = self.s(g) == self.e(g), self.s(x) == self.e(x)
        return If(zg, If(zx, self.s(g) == self.s(x), And(self.s(x) <= self.s(g), self.s(g) < self.e(x))),
                  If(zx, And(self.s(g) <= self.s(x), self.s(x) < self.e(g)), And(self.s(g) < self.e(x), self.s(x) < self.e(g))))

    def inside(self, g, x):
        return And(self.s(g) <= self.s(x), self.e(x) <= self.e(g))


# ---------------------------------------------------------------- phase 1: collecting the events
def done(w, k, gi, ti, ni):
    """key k was already turned into events: first gi groups, first ti layers and ni nodes of layer ti"""
    t = w.tidx(lay(k))
    return And(w.ok(k), If(lay(k) == none, w.pos(k) < gi, Or(t < ti, And(t == ti, w.pos(k) < ni))))


def collected(E, L, gi, ti, ni):
    w = E.unit_x["w"]
    lst = L.ref("node_list")
    n, el = E.heap.sel("L.len", lst), E.named(E.heap.sel("L.el", lst), "ev")
    ST = E.ghost["ST"]
    j, k = Int("j"), Const("k", Val)
    e = Select(el, j)
    kk = node(e)
    r = Select(ST, kk)
    return [("range", And(0 <= L.i, L.i <= L.n)), ("count", n >= 0),
            ("every event", FA([j], Implies(And(0 <= j, j < n), And(done(w, kk, gi, ti, ni), 0 <= r, r + 1 < n, Or(And(j == r, e == w.begin(kk)), And(j == r + 1, e == w.end(kk))))), [e])),
            ("every span", FA([k], Implies(done(w, k, gi, ti, ni), And(0 <= Select(ST, k), Select(ST, k) + 1 < n, Select(el, Select(ST, k)) == w.begin(k), Select(el, Select(ST, k) + 1) == w.end(k))), [Select(ST, k), w.ok(k)]))]


def record(E, L2, k, n0):
    n = E.heap.sel("L.len", L2.ref("node_list"))
    ST = E.ghost["ST"]
    E.gset("ST", If(n > n0, Store(ST, k, n0), ST))
    E.assume(w_seen(E, k))


def w_seen(E, k):
    return seenb(E.unit_x["w"].ok(k))


def loop1():
    def bind(E, L, x):
        w = E.unit_x["w"]
        E.check("a group", E.to_val(x) == VR(w.gn(L.i)))
        k = w.kg(L.i)
        E.assume(seenb(w.ok(k)))
        E.unit_x["n0"] = E.heap.sel("L.len", L.ref("node_list"))
        return RefV(w.gn(L.i), "Node")
    return LoopSpec(lambda E, L: collected(E, L, L.i, IntVal(0), IntVal(0)), bind=bind,
                    after=lambda E, L2, L1: record(E, L2, E.unit_x["w"].kg(L1.i), E.unit_x["n0"]), ghosts=("ST",))


def loop2():
    def bind(E, L, x):
        w = E.unit_x["w"]
        E.unit_x["t"] = L.i
        a, v = E.unpack(x, 2)
        E.assume(seen(w.tl(L.i)))
        E.check("a layer", And(E.to_val(a) == Select(w.tkey, L.i), E.to_val(v) == VR(w.tl(L.i))))
        return TupV([StrV(Val.s(Select(w.tkey, L.i))), RefV(w.tl(L.i), "list")])

    def inv(E, L):
        w = E.unit_x["w"]
        t = Int("t")
        return collected(E, L, w.ng, L.i, IntVal(0)) + [("span fields known", FA([t], Implies(And(0 <= t, t < L.i), Select(w.sdom, Select(w.tkey, t))), [Select(w.tkey, t)]))]
    def hints(E, L, where):
        if where == "exit":
            E.shape_list(L.var("node_list"), (("int", "int"), ("any", "node")))
    return LoopSpec(inv, bind=bind, hints=hints)


def loop3():
    def bind(E, L, x):
        w, t = E.unit_x["w"], E.unit_x["t"]
        E.assume(seen(w.ln(t, L.i)))
        E.check("a node of the layer", E.to_val(x) == VR(w.ln(t, L.i)))
        k = w.kn(t, L.i)
        E.assume(seenb(w.ok(k)))
        E.unit_x["n0"] = E.heap.sel("L.len", L.ref("node_list"))
        return RefV(w.ln(t, L.i), "Node")
    return LoopSpec(lambda E, L: collected(E, L, E.unit_x["w"].ng, E.unit_x["t"], L.i), bind=bind,
                    after=lambda E, L2, L1: record(E, L2, E.unit_x["w"].kn(E.unit_x["t"], L1.i), E.unit_x["n0"]), ghosts=("ST",))


# ---------------------------------------------------------------- phase 2: the sorted events, one group of one event each
def sorted_events(E):
    """the sorted events: key k starts at position S(k) and ends at T(k)"""
    w = E.unit_x["w"]
    p, q, sel, m = E.last_sort
    ST = E.ghost["ST"]
    el = E.named(E.hget("L.el", E.unit_x["ev"]), "sortedev")
    S, T = E.fresh_fn("S", Val, I), E.fresh_fn("T", Val, I)
    k, x = Const("k", Val), Int("x")
    E.assume(FA([k], And(S(k) == q(Select(ST, k)), T(k) == q(Select(ST, k) + 1)), [S(k), T(k)]))      # definition
    w.S, w.T, w.el, w.m = S, T, el, m
    okp = lambda k: Implies(w.ok(k), And(0 <= S(k), S(k) < T(k), T(k) < m, Select(el, S(k)) == w.begin(k), Select(el, T(k)) == w.end(k)))
    hint = lambda k: [seen(Select(ST, k)), seenb(w.ok(k)), seen(p(S(k))), seen(p(T(k))), seenv(Select(sel, Select(ST, k))), seenv(Select(sel, Select(ST, k) + 1)), seenv(Select(el, S(k))), seenv(Select(el, T(k)))]
    generalise(E, "every span starts and ends in the sorted events", [Val], okp, lambda k: [w.ok(k), S(k), T(k)], hint)

    def evp(x):
        e = Select(el, x)
        kk = node(e)
        return Implies(And(0 <= x, x < m), And(w.ok(kk), Or(And(x == S(kk), e == w.begin(kk)), And(x == T(kk), e == w.end(kk)))))
    generalise(E, "every sorted event starts or ends a span", [I], evp, lambda x: [evpos(x)], lambda x: [seen(p(x)), seenv(Select(el, x)), seenv(Select(sel, p(x))), seen(q(p(x)))])

    # the order of two events is the order of their positions (then of their kinds)
    before = lambda a, b: (S(a) < T(b)) == Or(w.s(a) < w.e(b), And(w.s(a) == w.e(b), w.s(b) == w.e(b)))
    rigid = [E.unit_x["g"], E.unit_x["x"]]
    for a, b in (rigid, rigid[::-1]):
        E.assume(seenb(w.ok(a)), seenb(w.ok(b)), seenv(Select(el, S(a))), seenv(Select(el, T(b))), seen(p(S(a))), seen(p(T(b))))
        E.check("a span starts before another one ends", Implies(And(w.ok(a), w.ok(b)), before(a, b)))
    g, x = rigid
    E.check("they meet when they overlap", Implies(And(w.ok(g), w.ok(x)), And(S(g) < T(x), S(x) < T(g)) == w.overlap(g, x)))

    def starts(a, b):
        return Implies(And(w.ok(a), w.ok(b), S(a) < S(b)), w.s(a) <= w.s(b))
    generalise(E, "events are in the order of their positions", [Val, Val], starts, lambda a, b: [pair(a, b)],
               lambda a, b: [seenb(w.ok(a)), seenb(w.ok(b)), seenv(Select(el, S(a))), seenv(Select(el, S(b))), seen(p(S(a))), seen(p(S(b)))])
    return w


def loop4():
    def pre(E, L):
        E.unit_x["ev"] = L.ref("node_list")
        sorted_events(E)
        E.unit_x["A1"] = E.heap.alloc

    def inv(E, L):
        w = E.unit_x["w"]
        A1 = E.unit_x["A1"]
        h = E.heap
        r = L.ref("node_list_groups")
        el = E.named(h.sel("L.el", r), "groups")
        j = Int("j")
        e = Select(el, j)
        return [("range", And(0 <= L.i, L.i <= L.n, L.n == w.m)), ("count", h.sel("L.len", r) == L.i),
                ("one event each", FA([j], Implies(And(0 <= j, j < L.i), And(Val.is_vref(e), R(e) >= A1, R(e) < h.alloc, cls(R(e)) == E.prog.class_ids["list"],
                                                                           h.sel("L.len", R(e)) == 1, Select(h.sel("L.el", R(e)), 0) == Select(w.el, j))), [e]))]
    return LoopSpec(inv, pre=pre)


# ---------------------------------------------------------------- phase 3: the sweep
class Sweep:
    def __init__(self, E, L, cur=None):
        self.E, self.w = E, E.unit_x["w"]
        h = self.h = E.heap
        self.ON, self.OG = E.named(h.sel("S.mem", L.ref("open_nodes")), "ON"), E.named(h.sel("S.mem", L.ref("open_groups")), "OG")
        gr = L.ref("groups")
        self.gdom, self.gmap = E.named(h.sel("D.dom", gr), "gdom"), E.named(h.sel("D.map", gr), "gmap")
        self.DMAP, self.DDOM = E.named(h.term("D.map"), "DMAP"), E.named(h.term("D.dom"), "DDOM")
        self.LEL, self.LLEN = E.named(h.term("L.el"), "LEL"), E.named(h.term("L.len"), "LLEN")
        self.GL = L.ref("group_list")
        self.g, self.x = E.unit_x["g"], E.unit_x["x"]
        self.l0, self.g0 = lay(self.x), node(self.g)

    def gd(self, v):
        return R(Select(self.gmap, v))

    def lst(self, v, l):
        return R(Select(Select(self.DMAP, self.gd(v)), l))

    def r0(self):
        return self.lst(self.g0, self.l0)

    def met(self, a, b, k):
        """both were opened before k, while the other was still open"""
        w = self.w
        return And(w.ok(a), w.ok(b), w.S(a) < k, w.S(b) < k, w.S(a) < w.T(b), w.S(b) < w.T(a))

    def sets(self, k):
        w = self.w
        a, v = Const("a", Val), Const("v", Val)
        kv = key2(none, v)
        return [("open nodes", FA([a], Select(self.ON, a) == And(w.ok(a), lay(a) != none, w.S(a) < k, w.T(a) >= k), [Select(self.ON, a), w.ok(a)])),
                ("open groups", FA([v], Select(self.OG, v) == And(w.ok(kv), w.S(kv) < k, w.T(kv) >= k), [Select(self.OG, v), w.ok(kv)]))]

    def groups(self, k, but=None):
        """the groups started before event k (one more: but)"""
        w, h, E = self.w, self.h, self.E
        v, l = Const("v", Val), Const("l", Val)
        kv = key2(none, v)
        A2 = E.unit_x["A2"]
        m = Select(Select(self.DMAP, self.gd(v)), l)
        started = Select(self.gdom, v)
        isg = And(w.ok(kv), w.S(kv) < k)
        if but is not None:
            isg = Or(isg, v == but)
        return [("started groups", FA([v], started == isg, [started, w.ok(kv)])),
                ("dictionary of a group", FA([v], Implies(started, And(Val.is_vref(Select(self.gmap, v)), self.gd(v) >= A2, self.gd(v) < h.alloc, cls(self.gd(v)) == E.prog.class_ids["dict"])), [started, Select(self.gmap, v)])),
                ("a group has exactly the layers", FA([v, l], Implies(started, Select(Select(self.DDOM, self.gd(v)), l) == Select(w.tdom, l)), [(started, Select(Select(self.DDOM, self.gd(v)), l)), (started, Select(w.tdom, l))])),
                ("a list per group and layer", FA([v, l], Implies(And(started, Select(w.tdom, l)), And(Val.is_vref(m), R(m) >= A2, R(m) < h.alloc, cls(R(m)) == E.prog.class_ids["list"], Select(self.LLEN, R(m)) >= 0)), [m, (started, Select(w.tdom, l))])),
                ("every list belongs to one group and layer", FA([v, l], Implies(And(started, Select(w.tdom, l)), Select(E.ghost["OWN"], R(m)) == key2(l, v)), [m, (started, Select(w.tdom, l))]))]

    def elements(self, bound):
        """everything in the lists satisfies bound(group node value, layer, element)"""
        w = self.w
        v, l, j = Const("v", Val), Const("l", Val), Int("j")
        r = self.lst(v, l)
        e = Select(Select(self.LEL, r), j)
        return [("elements", FA([v, l, j], Implies(And(Select(self.gdom, v), Select(w.tdom, l), 0 <= j, j < Select(self.LLEN, r)), bound(v, l, e)), [e]))]

    def rigid(self, there, P):
        """x is in the list of g exactly when `there`, once, at position P"""
        w = self.w
        j = Int("j")
        r = self.r0()
        el, n = Select(self.LEL, r), Select(self.LLEN, r)
        on = Select(self.gdom, self.g0)
        return [("the node in question is there", Implies(And(on, there), And(0 <= P, P < n, Select(el, P) == node(self.x)))),
                ("the node in question is there once", FA([j], Implies(And(on, 0 <= j, j < n, Select(el, j) == node(self.x)), And(there, j == P)), [Select(el, j)]))]

    def frame(self):
        E = self.E
        A2, H2 = E.unit_x["A2"], E.unit_x["H2"]
        r = Int("r")
        return [("older lists", FA([r], Implies(And(0 < r, r < A2, r != self.GL), And(Select(self.LEL, r) == Select(H2[0], r), Select(self.LLEN, r) == Select(H2[1], r))), [Select(self.LEL, r), Select(self.LLEN, r)]))]

    def order(self, k):
        """the result list: one entry per started group, ordered by the position of its start"""
        w = self.w
        j, i = Ints("j i")
        el, n = self.E.named(Select(self.LEL, self.GL), "glist"), Select(self.LLEN, self.GL)
        e = Select(el, j)
        v = lay(e)
        kj = key2(none, v)
        PG = self.E.ghost["PG"]
        return [("entries of the result", And(n >= 0, FA([j], Implies(And(0 <= j, j < n), And(Val.is_vt2(e), Select(self.gdom, v), w.ok(kj), w.S(kj) < k, node(e) == Select(self.gmap, v))), [e]))),
                ("order of the result", FA([i, j], Implies(And(0 <= i, i < j, j < n), w.S(key2(none, lay(Select(el, i)))) < w.S(kj)), [(Select(el, i), e)])),
                ("the group in question is listed", Implies(Select(self.gdom, self.g0), And(0 <= PG, PG < n, Select(el, PG) == key2(self.g0, Select(self.gmap, self.g0)))))]

    def state(self, k):
        w = self.w
        return self.sets(k) + self.groups(k) + self.elements(lambda v, l, e: self.met(key2(none, v), key2(l, e), k)) + self.rigid(self.met(self.g, self.x, k), self.E.ghost["P"]) + self.frame() + self.order(k)


def a_list(E, t):
    E.check("a list", And(Val.is_vref(t), cls(R(t)) == E.prog.class_ids["list"]))
    return RefV(simplify(R(t)), "list")


def a_dict(E, t):
    E.check("a dictionary", And(Val.is_vref(t), cls(R(t)) == E.prog.class_ids["dict"]))
    d = RefV(simplify(R(t)), "dict")
    d.valfn = a_list
    return d


def loop5():
    def pre(E, L):
        L.var("groups").valfn = a_dict
        E.unit_x["A2"] = E.heap.alloc
        E.unit_x["H2"] = (E.named(E.heap.term("L.el"), "LEL2"), E.named(E.heap.term("L.len"), "LLEN2"))
        E.unit_x["NG"] = L.ref("node_list_groups")

    def inv(E, L):
        w = E.unit_x["w"]
        k = L.int("k")
        return [("position", And(0 <= k, k <= w.m))] + Sweep(E, L).state(k)

    def hints(E, L, where):
        w = E.unit_x["w"]
        if where == "body":
            k = E.unit_x["k"] = L.int("k")
            E.shape_list(RefV(E.unit_x["NG"], "list"), "ref:list")
            NG = RefV(E.unit_x["NG"], "list")
            r = E.lel(NG, simplify(If(k < 0, k + E.llen(NG), k))).t
            E.check("the current events", And(E.hget("L.len", r) == 1, Select(E.hget("L.el", r), 0) == Select(w.el, k), r < E.unit_x["A2"]))
            kk = E.unit_x["kk"] = node(Select(w.el, k))
            E.assume(seenb(evpos(k)), seenb(w.ok(kk)), seen(w.S(kk)), seen(w.T(kk)))
            E.shape_list(RefV(r, "list"), (("int", "int"), ("any", "node")))
            E.unit_x["start"] = w.S(kk) == k
            E.check("current event", And(w.ok(kk), Or(And(w.S(kk) == k, w.T(kk) > k), And(w.T(kk) == k, w.S(kk) < k)), E.is_cls(R(node(kk)), "Node")))
    return LoopSpec(inv, pre=pre, hints=hints)


def one_event(starting):
    """for _, (layer, node) in nodes: the one event of this position"""
    def inv(E, L):
        k = E.unit_x["k"]
        return [("range", And(0 <= L.i, L.i <= L.n, L.n == 1)), ("start" if starting else "stop", E.unit_x["start"] if starting else Not(E.unit_x["start"]))] + Sweep(E, L).state(k + L.i)

    def bind(E, L, x):
        w = E.unit_x["w"]
        kk = E.unit_x["kk"]
        a, b = E.unpack(x, 2)
        E.check("the event", And(L.i == 0, E.to_val(b) == kk))
        return TupV([a, TupV([AnyV(lay(kk)), RefV(R(node(kk)), "Node")])])
    return LoopSpec(inv, bind=bind)


def to_open_groups():
    """for open_group in open_groups: groups[open_group][layer].append(node)"""
    def pre(E, L):
        u = E.unit_x
        u["I7"] = L.view.tag[3]
        u["S7"] = Sweep(E, L)
        u["P7"] = E.ghost["P"]

    def inv(E, L):
        w, u = E.unit_x["w"], E.unit_x
        k, kk, idx = u["k"], u["kk"], u["I7"]
        st = Sweep(E, L)
        g, x = st.g, st.x
        hit = And(kk == x, Select(st.OG, st.g0), idx(st.g0) < L.i)
        s = st.sets(k)
        old = u["S7"]
        r = old.r0()
        there = Or(st.met(g, x, k), hit)
        P = E.ghost["P"]
        return [("range", And(0 <= L.i, L.i <= L.n)), s[1]] + st.groups(k) + st.elements(lambda v, l, e: st.met(key2(none, v), key2(l, e), k + 1)) + st.rigid(there, P) + st.frame() + st.order(k)

    def bind(E, L, x):
        u = E.unit_x
        w = u["w"]
        st = Sweep(E, L)
        v = E.to_val(x)
        kv = key2(none, v)
        E.assume(seenb(Select(st.OG, v)), seenb(w.ok(kv)), seenb(Select(st.gdom, v)), seen(w.S(kv)), seen(w.T(kv)), seenb(Select(w.tdom, lay(u["kk"]))))
        E.assume(seenv(Select(w.el, w.T(kv))))
        E.check("another position", Implies(w.ok(kv), w.T(kv) != u["k"]))
        E.check("an open group", And(Select(st.gdom, v), w.ok(kv), w.S(kv) < u["k"], w.T(kv) > u["k"], Select(w.tdom, lay(u["kk"]))))
        m = Select(Select(st.DMAP, st.gd(v)), lay(u["kk"]))
        E.assume(seenv(m))
        u["len7"] = Select(st.LLEN, R(m))
        u["v7"] = v
        return None

    def after(E, L2, L1):
        u = E.unit_x
        st = Sweep(E, L2)
        E.gset("P", If(And(u["kk"] == st.x, u["v7"] == st.g0), u["len7"], E.ghost["P"]))
    return LoopSpec(inv, pre=pre, bind=bind, after=after, ghosts=("P",))


def empty_lists():
    """{k: [] for k in layer_nodes.keys()}"""
    def pre(E, L):
        E.unit_x["S8"] = Sweep(E, L)
        E.unit_x["A8"], E.unit_x["OWN8"] = E.heap.alloc, E.ghost["OWN"]

    def inv(E, L):
        w = E.unit_x["w"]
        h = E.heap
        r = L.ref("$comp")
        dom, mp, LLEN = E.named(h.sel("D.dom", r), "cdom"), E.named(h.sel("D.map", r), "cmap"), E.named(h.term("L.len"), "LLEN")
        a, r_ = Const("a", Val), Int("r")
        ra = R(Select(mp, a))
        return [("range", And(0 <= L.i, L.i <= L.n, L.n == w.nt)), ("keys", FA([a], Select(dom, a) == And(Select(w.tdom, a), w.tidx(a) < L.i), [Select(dom, a), Select(w.tdom, a)])),
                ("lists", FA([a], Implies(Select(dom, a), And(Val.is_vref(Select(mp, a)), ra >= E.unit_x["A8"], ra < h.alloc, cls(ra) == E.prog.class_ids["list"], Select(LLEN, ra) == 0)), [Select(dom, a), Select(mp, a)])),
                ("they belong to the group", FA([a], Implies(Select(dom, a), Select(E.ghost["OWN"], ra) == key2(a, node(E.unit_x["kk"]))), [Select(dom, a), Select(mp, a)])),
                ("older lists keep their group", FA([r_], Implies(r_ < E.unit_x["A8"], Select(E.ghost["OWN"], r_) == Select(E.unit_x["OWN8"], r_)), [Select(E.ghost["OWN"], r_)]))]

    def after(E, L2, L1):
        w = E.unit_x["w"]
        key = Select(w.tkey, L1.i)
        E.gset("OWN", Store(E.ghost["OWN"], R(Select(E.heap.sel("D.map", L2.ref("$comp")), key)), key2(key, node(E.unit_x["kk"]))))
    return LoopSpec(inv, pre=pre, after=after, ghosts=("OWN",))


def from_open_nodes():
    """for open_layer, open_node in open_nodes: group_dict[open_layer].append(open_node)"""
    def pre(E, L):
        u = E.unit_x
        L.var("group_dict").valfn = a_list
        st = Sweep(E, L)
        u["I9"] = L.view.tag[3]
        old, w = u["S8"], u["w"]

        def same(v, l):
            r = old.lst(v, l)
            return Implies(And(Select(old.gdom, v), Select(w.tdom, l), v != node(u["kk"])), And(Select(st.gdom, v), st.gd(v) == old.gd(v), st.lst(v, l) == r, r < u["A8"], Select(st.LEL, r) == Select(old.LEL, r), Select(st.LLEN, r) == Select(old.LLEN, r)))
        generalise(E, "lists of earlier groups are untouched", [Val, Val], same, lambda v, l: [(Select(st.gdom, v), Select(w.tdom, l)), Select(Select(st.DMAP, st.gd(v)), l)])
        generalise(E, "lists of the new group are empty", [Val], lambda l: Implies(Select(w.tdom, l), Select(st.LLEN, st.lst(node(u["kk"]), l)) == 0), lambda l: [Select(w.tdom, l), Select(Select(st.DMAP, st.gd(node(u["kk"]))), l)])
        el = lambda s_, v, l, j: Select(Select(s_.LEL, s_.lst(v, l)), j)
        av, al, aj = E.fresh("av", Val), E.fresh("al", Val), E.fresh("aj", I)
        k, v0 = u["k"], node(u["kk"])
        inr = And(Select(st.gdom, av), Select(w.tdom, al), 0 <= aj, aj < Select(st.LLEN, st.lst(av, al)))
        good = lambda s_, v, l, j: s_.met(key2(none, v), key2(l, el(s_, v, l, j)), k + 1)
        E.check("a list of an earlier group", Implies(inr, av != v0))
        E.assume(seenb(Select(old.gdom, av)))
        E.check("a group from before", Implies(inr, Select(old.gdom, av)))
        E.check("the same element", Implies(inr, And(el(st, av, al, aj) == el(old, av, al, aj), aj < Select(old.LLEN, old.lst(av, al)))))
        E.check("element as before", Implies(inr, good(old, av, al, aj)))
        E.check("elements then", Implies(inr, good(st, av, al, aj)))
        V, L_, J = Const("V", Val), Const("L_", Val), Int("J")
        E.assume(FA([V, L_, J], Implies(And(Select(st.gdom, V), Select(w.tdom, L_), 0 <= J, J < Select(st.LLEN, st.lst(V, L_))), good(st, V, L_, J)), [el(st, V, L_, J)]))
        q, r0, x0, P0 = E.fresh("q", I), st.r0(), st.x, E.ghost["P"]
        inr = And(Select(st.gdom, st.g0), 0 <= q, q < Select(st.LLEN, r0), Select(Select(st.LEL, r0), q) == node(x0))
        E.assume(seenv(el(old, st.g0, st.l0, q)), seenv(el(st, st.g0, st.l0, q)), seenb(Select(st.gdom, st.g0)), seenb(Select(w.tdom, st.l0)), seenb(Select(old.gdom, st.g0)))
        E.check("not the new group", Implies(inr, And(u["kk"] != st.g, Select(old.gdom, st.g0))))
        E.check("the same element as before", Implies(inr, And(el(old, st.g0, st.l0, q) == node(x0), q < Select(old.LLEN, old.r0()))))
        E.check("there already", Implies(inr, And(st.met(st.g, x0, k), q == P0)))
        E.assume(FA([J], Implies(And(Select(st.gdom, st.g0), 0 <= J, J < Select(st.LLEN, r0), Select(Select(st.LEL, r0), J) == node(x0)), And(u["kk"] != st.g, st.met(st.g, x0, k), J == P0)), [Select(Select(st.LEL, r0), J)]))
        E.check("the group is new", And(Not(Select(old.gdom, node(u["kk"]))), Select(st.gdom, node(u["kk"]))))
        E.gset("PG", If(u["kk"] == st.g, Select(st.LLEN, st.GL) - 1, E.ghost["PG"]))

    def inv(E, L):
        w, u = E.unit_x["w"], E.unit_x
        k, kk, idx = u["k"], u["kk"], u["I9"]
        st = Sweep(E, L)
        g, x = st.g, st.x
        there = If(kk == g, And(Select(st.ON, x), idx(x) < L.i), st.met(g, x, k))
        return [("range", And(0 <= L.i, L.i <= L.n)), st.sets(k)[0], st.sets(k + 1)[1]] + st.groups(k + 1) + st.elements(lambda v, l, e: st.met(key2(none, v), key2(l, e), k + 1)) + \
            st.rigid(there, E.ghost["P"]) + st.frame() + st.order(k + 1)

    def bind(E, L, x):
        u = E.unit_x
        w = u["w"]
        st = Sweep(E, L)
        t = E.to_val(x)
        E.assume(seenb(Select(st.ON, t)), seenb(w.ok(t)), seen(w.S(t)), seen(w.T(t)), seenb(Select(st.gdom, node(u["kk"]))), seenb(Select(w.tdom, lay(t))))
        E.check("an open node", And(Val.is_vt2(t), w.ok(t), w.S(t) < u["k"], w.T(t) > u["k"], Val.is_vstr(lay(t)), Select(w.tdom, lay(t)), E.is_cls(R(node(t)), "Node")))
        m = Select(Select(st.DMAP, st.gd(node(u["kk"]))), lay(t))
        E.check("its list", And(Val.is_vref(m), cls(R(m)) == E.prog.class_ids["list"], L.ref("group_dict") == st.gd(node(u["kk"]))))
        kk = u["kk"]
        E.check("the group and the open node", And(kk == key2(none, node(kk)), t == key2(lay(t), VR(R(node(t)))), st.met(key2(none, node(kk)), key2(lay(t), VR(R(node(t)))), u["k"] + 1), Select(E.ghost["OWN"], R(m)) == key2(lay(t), node(kk))))
        u["len9"], u["t9"], u["st9"], u["r9"] = Select(st.LLEN, R(m)), t, st, R(m)
        av, al, aj = u["any9"] = E.fresh("av", Val), E.fresh("al", Val), E.fresh("aj", I)
        e = Select(Select(st.LEL, st.lst(av, al)), aj)
        E.assume(seenv(e))
        E.check("any element", Implies(And(Select(st.gdom, av), Select(w.tdom, al), 0 <= aj, aj < Select(st.LLEN, st.lst(av, al))), st.met(key2(none, av), key2(al, e), u["k"] + 1)))
        return TupV([StrV(Val.s(lay(t))), RefV(R(node(t)), "Node")])

    def after(E, L2, L1):
        u = E.unit_x
        st = Sweep(E, L2)
        old, r, n, l0, v0, x, k = u["st9"], u["r9"], u["len9"], lay(u["t9"]), node(u["kk"]), node(u["t9"]), u["k"]
        appended(E, st, old, r, n, l0, v0, x)
        el = lambda s_, v, l, j: Select(Select(s_.LEL, s_.lst(v, l)), j)
        w = u["w"]
        new = lambda j: Implies(And(0 <= j, j <= n), And(el(st, v0, l0, j) == If(j == n, x, el(old, v0, l0, j)), st.met(key2(none, v0), key2(l0, el(st, v0, l0, j)), k + 1)))
        E.assume(seenb(Select(old.gdom, v0)), seenb(Select(st.gdom, v0)), seenb(Select(w.tdom, l0)))
        E.check("it is the list of this layer", And(st.lst(v0, l0) == r, old.lst(v0, l0) == r, Select(st.LLEN, r) == n + 1))
        generalise(E, "the elements of the list", [I], new, lambda j: [el(st, v0, l0, j)], lambda j: [seenv(el(old, v0, l0, j))])
        av, al, aj = u["any9"]
        inr = And(Select(st.gdom, av), Select(w.tdom, al), 0 <= aj, aj < Select(st.LLEN, st.lst(av, al)))
        good = lambda s_, v, l, j: s_.met(key2(none, v), key2(l, el(s_, v, l, j)), k + 1)
        here = And(av == v0, al == l0)
        E.assume(seenv(el(old, av, al, aj)), seenv(el(st, av, al, aj)), seenb(Select(old.gdom, av)), seenb(Select(st.gdom, av)), seenb(Select(w.tdom, al)), seen(old.lst(av, al)))
        E.check("elements of the list", Implies(And(inr, here), good(st, v0, l0, aj)))
        E.check("element as before", Implies(And(inr, Not(here)), And(el(st, av, al, aj) == el(old, av, al, aj), Select(old.gdom, av), aj < Select(old.LLEN, old.lst(av, al)))))
        E.check("other elements", Implies(And(inr, Not(here)), good(old, av, al, aj)))
        E.check("elements then", Implies(inr, good(st, av, al, aj)))
        V, L_, J = Const("V", Val), Const("L_", Val), Int("J")
        E.assume(FA([V, L_, J], Implies(And(Select(st.gdom, V), Select(w.tdom, L_), 0 <= J, J < Select(st.LLEN, st.lst(V, L_))), good(st, V, L_, J)), [el(st, V, L_, J)]))
        g, x0, idx, P0 = st.g, st.x, u["I9"], E.ghost["P"]
        E.gset("P", If(And(u["kk"] == g, u["t9"] == x0), n, P0))
        there = lambda i: If(u["kk"] == g, And(Select(st.ON, x0), idx(x0) < i), st.met(g, x0, k))
        q, r0 = E.fresh("q", I), st.r0()
        mine = And(st.g0 == v0, st.l0 == l0)
        inr = And(Select(st.gdom, st.g0), 0 <= q, q < Select(st.LLEN, r0), Select(Select(st.LEL, r0), q) == node(x0))
        E.assume(seenv(el(old, st.g0, st.l0, q)), seenv(el(st, st.g0, st.l0, q)), seenb(Select(st.gdom, st.g0)), seenb(Select(w.tdom, st.l0)))
        E.check("a list is touched by its own node", And(key2(none, st.g0) == g, key2(st.l0, node(x0)) == x0, Implies(u["t9"] == x0, And(st.l0 == l0, x == node(x0), idx(x0) == L1.i, Select(st.ON, x0)))))
        E.check("new element of the list", Implies(And(inr, mine, q == n), And(u["t9"] == x0, u["kk"] == g)))
        E.check("old element of the list", Implies(And(inr, mine, q < n), And(el(old, st.g0, st.l0, q) == node(x0), there(L1.i), q == P0, u["t9"] != x0)))
        E.check("element of another list", Implies(And(inr, Not(mine)), And(el(old, st.g0, st.l0, q) == node(x0), q < Select(old.LLEN, old.r0()))))
        E.check("there already", Implies(And(inr, Not(mine)), And(there(L1.i), q == P0)))
        E.check("once", Implies(inr, And(there(L1.i + 1), q == E.ghost["P"])))
        E.assume(FA([J], Implies(And(Select(st.gdom, st.g0), 0 <= J, J < Select(st.LLEN, r0), Select(Select(st.LEL, r0), J) == node(x0)), And(there(L1.i + 1), J == E.ghost["P"])), [Select(Select(st.LEL, r0), J)]))
    return LoopSpec(inv, pre=pre, bind=bind, after=after, ghosts=("P",))


def appended(E, st, old, r, n, l0, v0, x):
    """the list r of group v0 and layer l0 got x at position n, every other list is as before"""
    w = E.unit_x["w"]
    E.check("the new element", And(Select(st.LLEN, r) == n + 1, Select(Select(st.LEL, r), n) == x))

    def other(v, l):
        m = old.lst(v, l)
        return Implies(And(Select(st.gdom, v), Select(w.tdom, l), Not(And(v == v0, l == l0))), And(Select(old.gdom, v), st.lst(v, l) == m, m != r, Select(st.LEL, m) == Select(old.LEL, m), Select(st.LLEN, m) == Select(old.LLEN, m)))
    generalise(E, "every other list is untouched", [Val, Val], other, lambda v, l: [(Select(st.gdom, v), Select(w.tdom, l)), Select(Select(st.DMAP, st.gd(v)), l)],
               lambda v, l: [seenv(Select(E.ghost["OWN"], old.lst(v, l))), seenb(Select(old.gdom, v))])
    generalise(E, "the elements before it are untouched", [I], lambda j: Implies(And(0 <= j, j < n), Select(Select(st.LEL, r), j) == Select(Select(old.LEL, r), j)), lambda j: [Select(Select(st.LEL, r), j)])


# ---------------------------------------------------------------- phase 4: keeping covered nodes, phase 5: dropping empty groups
class Result:
    """the entries of a result list: (group, dictionary)"""
    def __init__(self, E, ref):
        self.E, self.w = E, E.unit_x["w"]
        h = self.h = E.heap
        self.DMAP, self.DDOM = E.named(h.term("D.map"), "DMAP"), E.named(h.term("D.dom"), "DDOM")
        self.LEL, self.LLEN = E.named(h.term("L.el"), "LEL"), E.named(h.term("L.len"), "LLEN")
        self.ref = ref
        self.el, self.n = E.named(Select(self.LEL, ref), "rlist"), Select(self.LLEN, ref)
        self.g, self.x = E.unit_x["g"], E.unit_x["x"]
        self.l0, self.g0 = lay(self.x), node(self.g)

    def lst(self, j, l):
        return R(Select(Select(self.DMAP, R(node(Select(self.el, j)))), l))

    def entry(self, j, rel):
        """entry j is a group with its lists; their elements satisfy rel(group key, node key)"""
        w, h, E = self.w, self.h, self.E
        e = Select(self.el, j)
        kj = key2(none, lay(e))
        l, i = Const("l", Val), Int("i")
        m = Select(Select(self.DMAP, R(node(e))), l)
        x = Select(Select(self.LEL, R(m)), i)
        return [("group", And(Val.is_vt2(e), w.ok(kj), Val.is_vref(node(e)), R(node(e)) > 0, R(node(e)) < h.alloc, cls(R(node(e))) == E.prog.class_ids["dict"])),
                ("layers", FA([l], Select(Select(self.DDOM, R(node(e))), l) == Select(w.tdom, l), [Select(Select(self.DDOM, R(node(e))), l)])),
                ("lists", FA([l], Implies(Select(w.tdom, l), And(Val.is_vref(m), R(m) > 0, R(m) < h.alloc, cls(R(m)) == E.prog.class_ids["list"], Select(self.LLEN, R(m)) >= 0)), [m])),
                ("elements", FA([l, i], Implies(And(Select(w.tdom, l), 0 <= i, i < Select(self.LLEN, R(m))), And(w.ok(key2(l, x)), rel(kj, key2(l, x)))), [x]))]

    def sorted(self):
        i, j = Ints("i j")
        w = self.w
        f = lambda q: w.S(key2(none, lay(Select(self.el, q))))
        return ("ordered by the start of their spans", FA([i, j], Implies(And(0 <= i, i < j, j < self.n), f(i) < f(j)), [(Select(self.el, i), Select(self.el, j))]))


def fast(E):
    E.reuse_mods = True


@unit(P, "group_by_span: the sweep", [Q, "algorithm.is_covered_by", "model.TextSpan.start", "model.TextSpan.stop"], axioms=AX, setup=fast,
      loops={Q: [loop1(), loop2(), loop3(), loop4(), loop5(), one_event(True), to_open_groups(), from_open_nodes(), one_event(False), None],
             Q + "#comp": [empty_lists(), None, None, None]})
def _(E):
    w = W(E)
    E.ghost["ST"] = K(Val, IntVal(0))
    E.ghost["OWN"] = K(I, none)
    E.ghost["P"], E.ghost["PG"] = IntVal(-1), IntVal(-1)
    g0, l0, x0 = (E.fresh(c, Val) for c in ("g0", "l0", "x0"))
    g, x = key2(none, g0), key2(l0, x0)
    E.assume(w.ok(g), Val.is_vstr(l0), Select(w.tdom, l0), seenb(w.ok(x)))
    E.unit_x = {"w": w, "g": g, "x": x}
    o = call(E, Q, [w.G, w.LN, StrV(E.lit("intersect"), "intersect"), w.gfield, w.LSF, E.const(True)])
    h = E.heap
    if o.raised:
        if "t" not in E.unit_x:
            E.check("no %s" % o.exc, BoolVal(False))
            return
        E.check("only a layer without a span field is rejected", And(BoolVal(o.exc == "KeyError"), Not(Select(w.sdom, Select(w.tkey, E.unit_x["t"])))))
        cover(E, "rejected")
        return
    r = o.val.t
    el, n, PG = E.named(h.sel("L.el", r), "result"), h.sel("L.len", r), E.ghost["PG"]
    i, j = E.fresh("i", I), E.fresh("j", I)
    e = Select(el, j)
    kj, ki = key2(none, lay(e)), key2(none, lay(Select(el, i)))
    inr = And(0 <= i, i < j, j < n)
    E.assume(seenv(e), seenv(Select(el, i)), pair(ki, kj), seenb(w.ok(g)), seenb(w.ok(x)), seenb(Select(w.tdom, l0)))
    E.check("every entry belongs to a group with a span", Implies(And(0 <= j, j < n), And(Val.is_vt2(e), w.ok(kj))))
    E.check("a group is listed once", Implies(inr, ki != kj))
    E.check("groups are in the order of their spans", Implies(inr, w.s(ki) <= w.s(kj)))
    E.assume(seen(w.S(g)), seen(w.T(g)))
    E.check("a group with a span is listed", And(0 <= PG, PG < n, lay(Select(el, PG)) == g0))
    d = R(node(Select(el, PG)))
    l = E.fresh("l", Val)
    E.assume(seenb(Select(w.tdom, l)), seenb(Select(h.sel("D.dom", d), l)))
    E.check("its dictionary has exactly the layers", And(cls(d) == E.prog.class_ids["dict"], Select(h.sel("D.dom", d), l) == Select(w.tdom, l)))
    m = R(Select(h.sel("D.map", d), l0))
    E.check("a list for every layer", And(cls(m) == E.prog.class_ids["list"], h.sel("L.len", m) >= 0))
    q, q2, at = E.fresh("q", I), E.fresh("q2", I), E.ghost["P"]
    mel, mn = h.sel("L.el", m), h.sel("L.len", m)
    E.assume(seenv(Select(mel, q)), seenv(Select(mel, q2)), seenv(Select(mel, at)))
    E.check("an intersecting node is in it", Implies(And(w.ok(x), w.overlap(g, x)), And(0 <= at, at < mn, Select(mel, at) == node(x))))
    has = lambda q: And(0 <= q, q < mn, Select(mel, q) == node(x))
    E.check("only intersecting nodes are in it", Implies(has(q), And(w.ok(x), w.overlap(g, x))))
    E.check("once", Implies(And(has(q), has(q2)), q == q2))
    cover(E, "end")
