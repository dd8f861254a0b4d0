"""C13: overlap resolution keeps disjoint segments and drops only dominated ones."""
from .common import *

P = "C13"
Q = "algorithm.dominant_right"
# the 2n events of n segments: event r belongs to segment sg(r); md(r) = 0 opens it, 1 closes it; e0/e1 are the inverse maps
sg, md, e0, e1 = (Function(x, I, I) for x in ("ev_seg", "ev_mode", "ev_open", "ev_close"))
_r, _m = Ints("r m")
EVENTS = [
    FA([_r], And(2 * sg(_r) + md(_r) == _r, 0 <= md(_r), md(_r) <= 1), [sg(_r)]),
    FA([_r], And(2 * sg(_r) + md(_r) == _r, 0 <= md(_r), md(_r) <= 1), [md(_r)]),
    FA([_m], And(e0(_m) == 2 * _m, sg(e0(_m)) == _m, md(e0(_m)) == 0), [e0(_m)]),
    FA([_m], And(e1(_m) == 2 * _m + 1, sg(e1(_m)) == _m, md(e1(_m)) == 1), [e1(_m)]),
]
AX = lambda E: EVENTS


class Seg:
    """segments of the input: half-open [st, sp), occupying the positions st..en (a zero-length segment occupies its position)"""
    def __init__(self, n, src):
        self.n, self.src = n, src

    def at(self, m):
        return Select(self.src, m)

    def st(self, m):
        return Val.i(Val.t30(self.at(m)))

    def sp(self, m):
        return Val.i(Val.t31(self.at(m)))

    def data(self, m):
        return Val.t32(self.at(m))

    def ln(self, m):
        return self.sp(m) - self.st(m)

    def en(self, m):
        return If(self.st(m) == self.sp(m), self.st(m), self.sp(m) - 1)

    def wf(self):
        q = Int("q")
        e = self.at(q)
        return FA([q], Implies(And(0 <= q, q < self.n), And(Val.is_vt3(e), Val.is_vint(Val.t30(e)), Val.is_vint(Val.t31(e)), self.st(q) <= self.sp(q))), [e])

    def overlap(self, a, b):
        return And(self.st(a) <= self.en(b), self.st(b) <= self.en(a))

    def dominated(self, a, b):
        """a loses against b"""
        return And(0 <= b, b < self.n, a != b, self.overlap(a, b), Or(self.ln(b) > self.ln(a), And(self.ln(b) == self.ln(a), self.st(b) >= self.st(a))))

    def event(self, r):
        m = sg(r)
        off = If(md(r) == 0, self.st(m), self.en(m))
        return Val.vt2(Val.vt2(Val.vint(off), Val.vint(md(r))), self.at(m))


def loop1(E, L):
    s = E.unit_x["seg"]
    lst = L.ref("segment_list")
    n, el = E.heap.sel("L.len", lst), E.named(E.heap.sel("L.el", lst), "ev")
    r = Int("r")
    return [("length", And(n == 2 * L.i, L.i <= L.n)), ("events", FA([r], Implies(And(0 <= r, r < n), Select(el, r) == s.event(r)), [Select(el, r)]))]


class Y:
    def __init__(self, E, L):
        self.s = s = E.unit_x["seg"]
        p, q, sel, n2 = E.last_sort
        self.p, self.n2 = p, n2
        self.r0 = lambda m: q(e0(m))
        self.r1 = lambda m: q(e1(m))
        h = E.heap
        out = L.ref("segment_output")
        self.c, self.out = h.sel("L.len", out), E.named(h.sel("L.el", out), "out")
        self.kept, self.at, self.by, self.dom, self.cur = (E.ghost[x] for x in ("kept", "at", "by", "dom", "cur"))

    def inv(self, i, opn):
        s, k, m = self.s, Int("k"), Int("m")
        seg = lambda x: And(0 <= x, x < s.n)
        src = Select(self.by, k)
        o = self.cur
        return [
            ("open", Or(And(Val.is_none(opn), o == -1), And(seg(o), opn == s.at(o), self.r0(o) < i, self.r1(o) >= i))),
            ("output comes from closed segments", FA([k], Implies(And(0 <= k, k < self.c), And(seg(src), Select(self.out, k) == s.data(src), self.r1(src) < i,
                                                                                     Select(self.kept, src), Select(self.at, src) == k)), [src])),
            ("kept segments are in the output", FA([m], Implies(And(seg(m), Select(self.kept, m)), And(0 <= Select(self.at, m), Select(self.at, m) < self.c, Select(self.by, Select(self.at, m)) == m)),
                                                  [Select(self.at, m)])),
            ("left to right", FA([k, m], Implies(And(0 <= k, k < m, m < self.c), s.en(src) < s.st(Select(self.by, m))), [(src, Select(self.by, m))])),
            ("open is behind", FA([k], Implies(And(0 <= k, k < self.c, o != -1), s.en(src) < s.st(o)), [src])),
            ("dropped are dominated", FA([m], Implies(And(seg(m), self.r0(m) < i, Not(Select(self.kept, m)), m != o), s.dominated(m, Select(self.dom, m))), [Select(self.dom, m)])),
            ("count", self.c >= 0),
        ]


def loop2(E, L):
    return Y(E, L).inv(L.i, E.to_val(L.var("open_node")))


def hints1(E, L, where):
    if where == "exit":
        E.shape_list(L.var("segment_list"), (("int", "int"), ("int", "int", "any")))


def hints2(E, L, where):
    if where == "body":
        opn = E.to_val(L.var("open_node"))
        E.check("the open segment", Or(opn == none, E.shape_pred(opn, ("int", "int", "any"))))
        E.unit_x["open0"], E.unit_x["c0"], E.unit_x["i"] = E.to_val(L.var("open_node")), Y(E, L).c, L.i


def after2(E, L2, L1):
    """ghost record of what this event did"""
    y = Y(E, L2)
    s = y.s
    i = E.unit_x["i"]
    m = sg(y.p(i))
    opening = md(y.p(i)) == 0
    o = E.unit_x["cur0"] = y.cur
    open1 = E.to_val(L2.var("open_node"))
    took = And(opening, Or(o == -1, s.ln(o) <= s.ln(m)))
    emitted = y.c > E.unit_x["c0"]
    E.gset("dom", If(opening, If(o == -1, y.dom, If(took, Store(y.dom, o, m), Store(y.dom, m, o))),
                     If(And(emitted, o != m), Store(y.dom, o, m), y.dom)))
    E.gset("kept", If(emitted, Store(y.kept, m, BoolVal(True)), y.kept))
    E.gset("at", If(emitted, Store(y.at, m, E.unit_x["c0"]), y.at))
    E.gset("by", If(emitted, Store(y.by, E.unit_x["c0"], m), y.by))
    E.gset("cur", If(took, m, If(emitted, IntVal(-1), o)))


@unit(P, "dominant_right", [Q], axioms=AX, loops={Q: [LoopSpec(loop1, hints=hints1), LoopSpec(loop2, hints=hints2, after=after2, ghosts=("kept", "at", "by", "dom", "cur"))]})
def _(E):
    segs = sym_ref(E, "list", "segments")
    h = E.heap
    n, el = h.sel("L.len", segs.t), E.named(h.sel("L.el", segs.t), "segs")
    s = Seg(n, el)
    E.assume(n >= 0, s.wf())
    E.unit_x = {"seg": s}
    E.shape_list(segs, ("int", "int", "any"))
    E.ghost["kept"] = K(I, BoolVal(False))
    E.ghost["at"] = E.ghost["by"] = E.ghost["dom"] = K(I, IntVal(0))
    E.ghost["cur"] = IntVal(-1)
    o = call(E, Q, [segs])
    no_exc(E, o)

    class LL:
        def ref(self, n):
            return o.val.t
    y = Y(E, LL())
    k, k2, m = E.fresh("k", I), E.fresh("k2", I), E.fresh("m", I)
    src = lambda k: Select(y.by, k)
    E.assume(0 <= k, k < y.c)
    E.check("the result holds data of given segments", And(0 <= src(k), src(k) < n, Select(y.out, k) == s.data(src(k))))
    E.assume(k < k2, k2 < y.c)
    E.check("left to right without overlap", And(s.en(src(k)) < s.st(src(k2)), Not(s.overlap(src(k), src(k2)))))
    E.check("each segment at most once", src(k) != src(k2))
    E.assume(0 <= m, m < n)
    E.assume(EVENTS[2] if False else e0(m) == 2 * m, y.r0(m) == y.r0(m))
    E.check("a segment is kept or dominated by an overlapping one", Or(And(Select(y.kept, m), 0 <= Select(y.at, m), Select(y.at, m) < y.c, src(Select(y.at, m)) == m),
                                                                   s.dominated(m, Select(y.dom, m))))
    cover(E, "end")


@unit(P, "dominant_right_span", ["algorithm.dominant_right_span"], axioms=AX)
def _(E):
    """hands dominant_right exactly the spans of the nodes that have the field, with the node as data"""
    nodes = sym_ref(E, "list", "nodes")
    h = E.heap
    n, el = h.sel("L.len", nodes.t), E.named(h.sel("L.el", nodes.t), "nodes")
    f = Val.vstr(sym_str(E, "field").t) if E.choose_n(2) else None
    name = E.to_val(StrV(E.lit("text"), "text")) if f is None else f
    DOM, MAP = h.term("D.dom"), h.term("D.map")
    START, STOP = h.term("F._start"), h.term("F._stop")
    q = Int("q")
    ref = Val.r(Select(el, q))
    has = lambda r: Select(Select(DOM, r), name)
    sp = lambda r: Val.r(Select(Select(MAP, r), name))
    E.assume(n >= 0, FA([q], Implies(And(0 <= q, q < n), And(Val.is_vref(Select(el, q)), ref > 0, ref < h.alloc, E.is_cls(ref, "Node"),
        Implies(has(ref), And(Val.is_vref(Select(Select(MAP, ref), name)), sp(ref) > 0, sp(ref) < h.alloc, cls(sp(ref)) == E.prog.class_ids["TextSpan"],
                              Select(START, sp(ref)) <= Select(STOP, sp(ref)))))), [Select(el, q)]))
    E.shape_list(nodes, "node")
    got = {}

    def dom(E, args, kw):
        got["segs"] = args[0]
        return got.setdefault("result", sym_ref(E, "list", "result"))
    E.summaries[Q] = dom
    o = call(E, "algorithm.dominant_right_span", [nodes] if f is None else [nodes, StrV(Val.s(f))])
    no_exc(E, o)
    ix, rk, cnt = E.last_filter[:3]
    segs = got["segs"]
    m, ev = E.llen(segs), E.hget("L.el", segs.t)
    E.check("the result is the resolution of these segments", BoolVal(o.val is got["result"]))
    j, p = E.fresh("j", I), E.fresh("p", I)
    r = lambda x: Val.r(Select(el, x))
    at = lambda x: Val.vt3(Val.vint(Select(START, sp(r(x)))), Val.vint(Select(STOP, sp(r(x)))), Select(el, x))
    E.check("every segment is the span of a node", Implies(And(0 <= j, j < m), And(0 <= ix(j), ix(j) < n, has(r(ix(j))), Select(ev, j) == at(ix(j)))))
    E.check("every node with a span is a segment", Implies(And(0 <= p, p < n, Select(el, p) == Select(el, p), has(r(p))), And(0 <= rk(p), rk(p) < m, Select(ev, rk(p)) == at(p))))
    E.check("segments are well formed", Implies(And(0 <= j, j < m), Val.i(Val.t30(Select(ev, j))) <= Val.i(Val.t31(Select(ev, j)))))
    cover(E, "end")
