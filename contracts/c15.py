"""C15: token alignment yields ordered spans that match their tokens."""
from .common import *
from .layer import R, VR

P = "C15"
Q = "algorithm.sequence_to_textspans"
find = BF.sq_find

_s, _t = Consts("s t", Sq)
_lo, _hi, _q = Ints("lo hi q")
_r = find(_s, _t, _lo, _hi)
_dom = And(0 <= _lo, _lo <= _hi, _hi <= sq_len(_s))
FIND_AXIOMS = [          # str.find (trusted builtin): the first occurrence inside [lo, hi)
    FA([_s, _t, _lo, _hi], Implies(_dom, Or(_r == -1, And(_lo <= _r, _r + sq_len(_t) <= _hi, sq_slice(_s, _r, _r + sq_len(_t)) == _t))), [_r]),
    FA([_s, _t, _lo, _hi, _q], Implies(And(_dom, _lo <= _q, _q + sq_len(_t) <= _hi, Or(_r == -1, _q < _r)), sq_slice(_s, _q, _q + sq_len(_t)) != _t),
       [(_r, sq_slice(_s, _q, _q + sq_len(_t)))]),
]
AX = lambda E: FIND_AXIOMS


def text_slice_summary(E, args, kw):
    """contract of Text.__getitem__(slice) for bounds inside the text (proved in C01)"""
    t, sl = args
    if not isinstance(sl, SliceV) or isinstance(sl.lo, NoneT) or isinstance(sl.hi, NoneT):
        raise Unsupported("subscript of a text")
    lo, hi = E.as_int(sl.lo), E.as_int(sl.hi)
    n = sq_len(E.heap.sel("F.Text.text", t.t))
    E.check("slice inside the text", And(0 <= lo, lo <= hi, hi <= n))
    r = RefV(E.alloc("TextSpan"), "TextSpan")
    E.setfield(r, "text", t)
    for a, x in (("_start", lo), ("_stop", hi), ("start_offset", lo), ("stop_offset", hi)):
        E.setfield(r, a, IntV(x))
    return r


NOCLOSER = Function("nocloser", I, I, I, BoolSort())
RULE = Function("rule", I, I, I, I, I, I, I, BoolSort())        # abbreviation of X.rule (unfolded where it is needed)


class X:
    """the quantities of the specification in the current state of a frame"""
    def __init__(self, E, L, h=None):
        h = h or E.heap
        self.E = E
        u = E.unit_x
        self.so, self.raw, self.m, self.tok, self.k, self.text = u["so"], u["raw"], u["m"], u["tok"], u["k"], u["text"]
        self.n = sq_len(self.raw)
        self.out = L.ref("output")
        self.len = h.sel("L.len", self.out)
        self.el = E.named(h.sel("L.el", self.out), "out")
        self.START, self.STOP, self.TEXT = E.named(h.term("F._start"), "starts"), E.named(h.term("F._stop"), "stops"), E.named(h.term("F.TextSpan.text"), "texts")
        self.alloc = h.alloc

    def ref(self, q):
        return R(Select(self.el, q))

    def start(self, q):
        return Select(self.START, self.ref(q))

    def stop(self, q):
        return Select(self.STOP, self.ref(q))

    def before(self, q):
        """end of the previous match, counted in the requested range"""
        return If(q == 0, IntVal(0), self.stop(q - 1) - self.so)

    def first(self, q, p):
        return find(self.raw, Val.s(Select(self.tok, q)), p, self.n)

    def tl(self, q):
        return sq_len(Val.s(Select(self.tok, q)))

    def zero(self, q, p):
        return And(self.start(q) == self.so + p, self.stop(q) == self.so + p)

    def at(self, q, p):
        """token q matched at p"""
        return And(self.start(q) == self.so + p, self.stop(q) == self.so + p + self.tl(q))

    def closer(self, q, j, p):
        """token q+j occurs strictly before token q"""
        c = self.first(q + j, p)
        return And(c != -1, c < self.first(q, p))

    def rule(self, q, p, j):
        """the documented rule for the token q at which the search starts (p: end of the previous match, j: tokens skipped)"""
        loc = self.first(q, p)
        nocloser = lambda top: NOCLOSER(q, p, top)
        plain = And(j == 0, If(loc == -1, self.zero(q, p), And(self.at(q, loc), nocloser(If(self.k < self.m - 1 - q, self.k, self.m - 1 - q)))))
        skip = And(1 <= j, j <= self.k, q + j < self.m, loc != -1, self.closer(q, j, p), nocloser(j - 1), self.at(q + j, self.first(q + j, p)))
        return Or(plain, skip)

    def abbrev(self, q, j):
        return RULE(q, self.before(q), j, self.start(q), self.stop(q), self.start(q + j), self.stop(q + j))

    def abbrev_def(self, q, j):
        return self.abbrev(q, j) == self.rule(q, self.before(q), j)

    def nocloser_def(self, q, p, top):
        """one step of the definition of NOCLOSER(q, p, top): none of the tokens q+1 .. q+top occurs strictly before token q behind position p"""
        return And(NOCLOSER(q, p, 0), Implies(top > 0, NOCLOSER(q, p, top) == And(NOCLOSER(q, p, top - 1), Not(self.closer(q, top, p)))))

    def basic(self, i):
        q = Int("q")
        e = Select(self.el, q)
        r = self.ref(q)
        ins = And(0 <= q, q < i)
        return [
            ("spans", FA([q], Implies(ins, And(Val.is_vref(e), r > 0, r < self.alloc, cls(r) == self.E.prog.class_ids["TextSpan"], Select(self.TEXT, r) == self.text)), [e])),
            ("bounds", FA([q], Implies(ins, And(self.so <= self.start(q), self.start(q) <= self.stop(q), self.stop(q) <= self.so + self.n)), [e])),
            ("ordered", FA([q], Implies(And(0 < q, q < i), self.stop(q - 1) <= self.start(q)), [e])),
            ("non-empty spans match their token", FA([q], Implies(And(ins, self.start(q) < self.stop(q)),
                                                                sq_slice(self.raw, self.start(q) - self.so, self.stop(q) - self.so) == Val.s(Select(self.tok, q))), [e])),
        ]


def ghosts(E):
    return E.ghost["head"], E.ghost["jump"], E.ghost["next"]


def outer_inv(E, L):
    x = X(E, L)
    i, pos = L.int("i"), L.int("pos")
    hd, jp, nx = ghosts(E)
    q, z = Ints("q z")
    p = x.before(q)
    e = Select(x.el, q)
    out = [("range", And(0 <= i, i <= x.m, 0 <= pos, pos <= x.n, x.len == i, pos == x.before(i))), ("first search", Select(hd, 0))] + x.basic(i)
    out += [
        ("current", Implies(i < x.m, Select(hd, i))),
        ("jumps", FA([q], Implies(And(0 <= q, q < i, Select(hd, q)), And(0 <= Select(jp, q), q + Select(jp, q) < i)), [Select(hd, q)])),
        ("heads", FA([q], Implies(And(0 <= q, q < i, Select(hd, q)), x.abbrev(q, Select(jp, q))), [Select(hd, q)])),
        ("next head", FA([q], Implies(And(0 <= q, q < i, Select(hd, q)), And(Select(nx, q) == q + Select(jp, q) + 1, Implies(Select(nx, q) < x.m, Select(hd, Select(nx, q))))), [Select(nx, q)])),
        ("skipped", FA([q, z], Implies(And(0 <= q, q < i, Select(hd, q), q <= z, z < q + Select(jp, q)), x.zero(z, p)), [(Select(hd, q), Select(x.el, z))])),
        ("no heads ahead", FA([q], Implies(q > i, Not(Select(hd, q))), [Select(hd, q)])),
    ]
    return out


def outer_hints(E, L, where):
    if where == "body":
        x = X(E, L)
        E.assume(x.nocloser_def(L.int("i"), L.int("pos"), IntVal(0)))
        E.unit_x["h0"] = E.heap.copy()
        E.unit_x["i0"], E.unit_x["p0"] = L.int("i"), L.int("pos")


def outer_after(E, L2, L1):
    i0, i1 = E.unit_x["i0"], L2.int("i")
    hd, jp, nx = ghosts(E)
    E.gset("jump", Store(jp, i0, i1 - i0 - 1))
    E.gset("next", Store(nx, i0, i1))
    E.gset("head", Store(hd, i1, BoolVal(True)))
    x, x1 = X(E, L2), X(E, L1, E.unit_x["h0"])
    q = Int("q")
    E.assume(x.abbrev_def(i0, i1 - i0 - 1))
    E.check("this search follows the rule", x.rule(i0, x.before(i0), i1 - i0 - 1))
    E.check("earlier spans unchanged", FA([q], Implies(And(0 <= q, q < i0), And(Select(x.el, q) == Select(x1.el, q), x.start(q) == x1.start(q), x.stop(q) == x1.stop(q))), [Select(x.el, q)]))


def cand_inv(E, L):
    x0, x = X(E, L, L.entry), X(E, L)
    i, pos = L.int("i"), L.int("pos")
    jj, q = Ints("jj q")
    return [("position", And(i == E.unit_x["i0"], pos == E.unit_x["p0"])), ("none closer so far", NOCLOSER(i, pos, L.i)),
            ("nothing found", Not(E.truth(L.var("found_closer")))),
            ("output", And(x.len == x0.len, FA([q], Implies(And(0 <= q, q < x.len), And(Select(x.el, q) == Select(x0.el, q), x.start(q) == x0.start(q), x.stop(q) == x0.stop(q))), [Select(x.el, q)])))] + x.basic(i)


def cand_hints(E, L, where):
    if where == "body":
        E.assume(X(E, L).nocloser_def(L.int("i"), L.int("pos"), L.i + 1))


def fill_inv(E, L):
    x0, x = X(E, L, L.entry), X(E, L)
    i, pos = L.int("i"), L.int("pos")
    q = Int("q")
    return [("length", And(x.len == i + L.i, L.i <= L.n)),
            ("earlier output", FA([q], Implies(And(0 <= q, q < i), And(Select(x.el, q) == Select(x0.el, q), x.start(q) == x0.start(q), x.stop(q) == x0.stop(q))), [Select(x.el, q)])),
            ("skipped tokens", FA([q], Implies(And(i <= q, q < i + L.i), x.zero(q, pos)), [Select(x.el, q)]))] + x.basic(i + L.i)


def outer_variant(E, L):
    return X(E, L).m - L.int("i")


@unit(P, "sequence_to_textspans", [Q], axioms=AX,
      loops={Q: [LoopSpec(outer_inv, variant=outer_variant, hints=outer_hints, after=outer_after, ghosts=("head", "jump", "next")), LoopSpec(cand_inv, hints=cand_hints), LoopSpec(fill_inv)]})
def _(E):
    E.summaries["model.Text.__getitem__"] = text_slice_summary
    t = sym_text(E)
    full = E.heap.sel("F.Text.text", t.t)
    toks = sym_ref(E, "list", "tokens")
    h = E.heap
    m, el = h.sel("L.len", toks.t), E.named(h.sel("L.el", toks.t), "toks")
    q = Int("q")
    E.assume(m >= 0, FA([q], Implies(And(0 <= q, q < m), Val.is_vstr(Select(el, q))), [Select(el, q)]))
    so, k = sym_int(E, "start"), sym_int(E, "k")
    E.assume(0 <= so.t, so.t <= sq_len(full), k.t >= 0)
    if E.choose_n(2):
        stop = sym_int(E, "stop")
        E.assume(so.t <= stop.t, stop.t <= sq_len(full))
        hi = stop.t
    else:
        stop, hi = NONE, sq_len(full)
    raw = sq_slice(full, so.t, hi)
    E.unit_x = {"so": so.t, "raw": raw, "m": m, "tok": el, "k": k.t, "text": t.t}
    E.ghost["head"] = Store(K(I, BoolVal(False)), 0, BoolVal(True))
    E.ghost["jump"] = E.ghost["next"] = K(I, IntVal(0))
    old = E.heap.copy()
    o = call(E, Q, [toks, t, so, stop, k])
    no_exc(E, o)

    class LL:
        def ref(self, n):
            return o.val.t
    x = X(E, LL())
    E.check("one span per token", x.len == m)
    i, j = E.fresh("i", I), E.fresh("j", I)
    E.assume(0 <= i, i < m)
    for nm, f in x.basic(m):
        E.check("result: " + nm, f)
    E.check("string of a non-empty span is its token", Implies(x.start(i) < x.stop(i), sq_slice(full, x.start(i), x.stop(i)) == Val.s(Select(el, i))))
    E.check("inside the requested range", And(so.t <= x.start(i), x.stop(i) <= hi))
    hd, jp, nx = ghosts(E)
    E.assume(Select(hd, i))
    E.assume(x.abbrev_def(i, Select(jp, i)))
    E.check("documented rule at every search", x.rule(i, x.before(i), Select(jp, i)))
    E.check("the tokens skipped by a search get zero length at its position", Implies(And(i <= j, j < i + Select(jp, i)), x.zero(j, x.before(i))))
    E.check("where the next search starts", Select(nx, i) == i + Select(jp, i) + 1)
    E.check("the next search starts behind", Implies(i + Select(jp, i) + 1 < m, Select(hd, i + Select(jp, i) + 1)))
    cover(E, "end")
