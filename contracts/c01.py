"""C01: text spans denote exactly the requested range of the text."""
from .common import *

P = "C01"


def check_new_span(E, o, textref, lo, hi, what):
    """the result is a well formed span of the text with offsets lo..hi"""
    if not isinstance(o.val, RefV) or o.val.kind != "TextSpan":
        E.check("%s: returns a TextSpan" % what, BoolVal(False))
        raise PathEnd()
    h = E.heap
    r = o.val.t
    E.check("%s: result refers to the text" % what, h.sel("F.TextSpan.text", r) == textref)
    E.check("%s: start" % what, h.sel("F._start", r) == lo)
    E.check("%s: stop" % what, h.sel("F._stop", r) == hi)
    E.check("%s: offsets ordered and inside the text" % what, span_wf(E, r))


@unit(P, "Text.__getitem__(slice)", "model.Text.__getitem__")
def _(E):
    t = sym_text(E)
    st = E.heap.sel("F.Text.text", t.t)
    n = sq_len(st)
    lo, hi = opt_int(E, "lo"), opt_int(E, "hi")
    old = E.heap.copy()
    o = call(E, "model.Text.__getitem__", [t, SliceV(lo, hi, NONE)])
    l, h = py_clamp(lo, n, IntVal(0)), py_clamp(hi, n, n)
    if o.raised:
        E.check("rejects only ranges of negative length", And(h < l, BoolVal(o.exc == "DataValidationError")))
        return
    E.check("negative length is rejected", l <= h)
    check_new_span(E, o, t.t, l, h, "slice")
    cover(E, "returns")
    s = call(E, "model.TextSpan.__str__", [o.val])
    no_exc(E, s)
    E.check("its string is text[start:stop]", s.val.t == sq_slice(st, l, h))


@unit(P, "Text.__getitem__(pair)", "model.Text.__getitem__")
def _(E):
    t = sym_text(E)
    st = E.heap.sel("F.Text.text", t.t)
    n = sq_len(st)
    a, b = sym_int(E, "a"), sym_int(E, "b")
    o = call(E, "model.Text.__getitem__", [t, TupV([a, b])])
    ok = And(0 <= a.t, a.t <= b.t, b.t <= n)
    if o.raised:
        E.check("rejects only pairs of negative length or outside the text", And(Not(ok), BoolVal(o.exc == "DataValidationError")))
        return
    E.check("pairs of negative length or outside the text are rejected", ok)
    check_new_span(E, o, t.t, a.t, b.t, "pair")
    cover(E, "returns")


@unit(P, "Text.__getitem__(index)", "model.Text.__getitem__")
def _(E):
    t = sym_text(E)
    st = E.heap.sel("F.Text.text", t.t)
    n = sq_len(st)
    a = sym_int(E, "a")
    o = call(E, "model.Text.__getitem__", [t, a])
    ok = And(-n <= a.t, a.t < n)
    if o.raised:
        E.check("IndexError only outside", And(Not(ok), BoolVal(o.exc == "IndexError")))
        return
    E.check("outside raises", ok)
    p = If(a.t < 0, a.t + n, a.t)
    E.check("the character", E.to_val(o.val) == Val.vstr(sq_slice(st, p, p + 1)))
    cover(E, "returns")


@unit(P, "TextSpan.__getitem__(slice)", "model.TextSpan.__getitem__")
def _(E):
    sp = sym_span(E)
    h0 = E.heap.copy()
    s0, e0 = h0.sel("F._start", sp.t), h0.sel("F._stop", sp.t)
    n = e0 - s0
    lo, hi = opt_int(E, "lo"), opt_int(E, "hi")
    o = call(E, "model.TextSpan.__getitem__", [sp, SliceV(lo, hi, NONE)])
    l, h = py_clamp(lo, n, IntVal(0)), py_clamp(hi, n, n)
    if o.raised:
        E.check("rejects only ranges of negative length", And(h < l, BoolVal(o.exc == "DataValidationError")))
        return
    E.check("negative length is rejected", l <= h)
    check_new_span(E, o, h0.sel("F.TextSpan.text", sp.t), s0 + l, s0 + h, "slice of a span")
    cover(E, "returns")
    own = call(E, "model.TextSpan.__str__", [sp])
    s = call(E, "model.TextSpan.__str__", [o.val])
    no_exc(E, s)
    E.check("its string is str(span)[start:stop]", s.val.t == sq_slice(own.val.t, l, h))


@unit(P, "TextSpan.__getitem__(pair)", "model.TextSpan.__getitem__")
def _(E):
    sp = sym_span(E)
    h0 = E.heap.copy()
    s0, e0 = h0.sel("F._start", sp.t), h0.sel("F._stop", sp.t)
    a, b = sym_int(E, "a"), sym_int(E, "b")
    n = sq_len(text_of(E, sp.t))
    o = call(E, "model.TextSpan.__getitem__", [sp, TupV([a, b])])
    ok = And(0 <= a.t + s0, a.t <= b.t, b.t + s0 <= n)
    if o.raised:
        E.check("rejects only pairs of negative length or outside the text", And(Not(ok), BoolVal(o.exc == "DataValidationError")))
        return
    E.check("pairs of negative length or outside the text are rejected", ok)
    check_new_span(E, o, h0.sel("F.TextSpan.text", sp.t), s0 + a.t, s0 + b.t, "pair of a span")
    cover(E, "returns")


@unit(P, "TextSpan.__getitem__(index)", "model.TextSpan.__getitem__")
def _(E):
    sp = sym_span(E)
    own = call(E, "model.TextSpan.__str__", [sp])
    n = sq_len(own.val.t)
    a = sym_int(E, "a")
    o = call(E, "model.TextSpan.__getitem__", [sp, a])
    ok = And(-n <= a.t, a.t < n)
    if o.raised:
        E.check("IndexError only outside", And(Not(ok), BoolVal(o.exc == "IndexError")))
        return
    E.check("outside raises", ok)
    p = If(a.t < 0, a.t + n, a.t)
    E.check("the character", E.to_val(o.val) == Val.vstr(sq_slice(own.val.t, p, p + 1)))
    cover(E, "returns")


@unit(P, "TextSpan accessors", ["model.TextSpan.__len__", "model.TextSpan.__str__", "model.TextSpan.start", "model.TextSpan.stop"])
def _(E):
    sp = sym_span(E)
    s0, e0 = F(E, "_start", sp), F(E, "_stop", sp)
    o = call(E, "model.TextSpan.__str__", [sp])
    no_exc(E, o)
    E.check("str is text[start:stop]", o.val.t == sq_slice(text_of(E, sp.t), s0, e0))
    n = call(E, "model.TextSpan.__len__", [sp])
    no_exc(E, n)
    E.check("len is the length of the string", n.val.t == sq_len(o.val.t))
    a, b = call(E, "model.TextSpan.start", [sp]), call(E, "model.TextSpan.stop", [sp])
    no_exc(E, a)
    no_exc(E, b)
    E.check("start", a.val.t == s0)
    E.check("stop", b.val.t == e0)
    i = call(E, "model.TextSpan.__iter__", [sp])
    no_exc(E, i)
    w = E.view(i.val)
    j = E.fresh("j", I)
    E.check("iterates over all characters", w.n() == sq_len(o.val.t))
    E.assume(0 <= j, j < w.n())
    E.check("iterates over its characters", E.to_val(w.at(j)) == Val.vstr(sq_slice(o.val.t, j, j + 1)))
    cover(E, "end")


@unit(P, "TextSpan.__init__", "model.TextSpan.__init__")
def _(E):
    t = sym_text(E)
    a, b = sym_int(E, "a"), sym_int(E, "b")
    E.assume(0 <= a.t, b.t <= sq_len(E.heap.sel("F.Text.text", t.t)))
    try:
        o = Out(E.construct("TextSpan", [t, a, b], {}))
    except PyExc as e:
        E.check("rejects only negative length", a.t > b.t)
        return
    check_new_span(E, o, t.t, a.t, b.t, "constructor")
    E.check("start_offset/stop_offset", And(F(E, "start_offset", o.val) == a.t, F(E, "stop_offset", o.val) == b.t))
    cover(E, "end")


def two_spans(E):
    a, b = sym_span(E, "left"), sym_span(E, "right")
    E.assume(E.heap.sel("F.TextSpan.text", a.t) == E.heap.sel("F.TextSpan.text", b.t))
    return a, b


@unit(P, "TextSpan.span_to / text_to", ["model.TextSpan.span_to", "model.TextSpan.text_to"])
def _(E):
    a, b = two_spans(E)
    st = text_of(E, a.t)
    s, e = F(E, "_start", a), F(E, "_stop", b)
    o = call(E, "model.TextSpan.text_to", [a, b])
    no_exc(E, o)
    E.check("text_to", o.val.t == spec_slice(st, s, e))
    o = call(E, "model.TextSpan.span_to", [a, b])
    if o.raised:
        E.check("span_to rejects only negative length", And(e < s, BoolVal(o.exc == "DataValidationError")))
        return
    E.check("negative length is rejected", s <= e)
    check_new_span(E, o, E.heap.sel("F.TextSpan.text", a.t), s, e, "span_to")
    cover(E, "end")


@unit(P, "TextSpan.covered_by / intersected_by", ["model.TextSpan.covered_by", "model.TextSpan.intersected_by"])
def _(E):
    a = sym_span(E, "a")
    s, e = F(E, "_start", a), F(E, "_stop", a)
    if E.choose_n(2) == 0:
        b = sym_span(E, "b")
        l, h = F(E, "_start", b), F(E, "_stop", b)
        arg = b
    else:
        x, y = sym_int(E, "x"), sym_int(E, "y")
        l, h = x.t, y.t
        arg = TupV([x, y])
    c = call(E, "model.TextSpan.covered_by", [a, arg])
    i = call(E, "model.TextSpan.intersected_by", [a, arg])
    no_exc(E, c)
    no_exc(E, i)
    E.check("covered_by is interval containment", E.truth(c.val) == And(l <= s, e <= h))
    E.check("intersected_by is interval intersection", E.truth(i.val) == And(s < h, l < e))
    # containment / intersection as sets of positions
    p = E.fresh("p", I)
    E.check("covered: every position is inside", Implies(And(E.truth(c.val), s <= p, p < e), And(l <= p, p < h)))
    E.check("not covered: an end is outside", Implies(And(Not(E.truth(c.val))), Or(s < l, h < e)))
    E.check("intersected by position (non empty)", Implies(And(s <= p, p < e, l <= p, p < h), E.truth(i.val)))
    cover(E, "end")


def space_at(E, st, k):
    return isspace1(sq_at(st, k))


def trim_loops():
    k = Int("k")

    def fwd(E, L):
        sp = L.var("self")
        st, s, e = text_of(E, sp.t), F(E, "_start", sp), F(E, "_stop", sp)
        ns = L.int("new_start")
        return [("new_start counts the blanks", And(ns == s + L.i, ns <= e)),
                ("prefix is blank", FA([k], Implies(And(s <= k, k < ns), space_at(E, st, k)), [sq_at(st, k)]))]

    def bwd(E, L):
        sp = L.var("self")
        st, s, e = text_of(E, sp.t), F(E, "_start", sp), F(E, "_stop", sp)
        ns = L.int("new_stop")
        return [("new_stop counts the blanks", And(ns == e - L.i, ns >= s)),
                ("suffix is blank", FA([k], Implies(And(ns <= k, k < e), space_at(E, st, k)), [sq_at(st, k)]))]
    return {"model.TextSpan._trim_offsets": [LoopSpec(fwd), LoopSpec(bwd)]}


def trim_spec(E, st, s, e, a, b):
    """[a,b) is the stripped part of [s,e): blanks outside, no blank at its ends; an empty span at s when nothing is left"""
    k = Int("k")
    p = E.fresh("p", I)
    E.check("trim stays inside", And(s <= a, a <= b, b <= e))
    E.check("everything removed on the left is blank", Implies(And(a < b, s <= p, p < a), space_at(E, st, p)))
    E.check("everything removed on the right is blank", Implies(And(a < b, b <= p, p < e), space_at(E, st, p)))
    E.check("first kept character is not blank", Implies(a < b, Not(space_at(E, st, a))))
    E.check("last kept character is not blank", Implies(a < b, Not(space_at(E, st, b - 1))))
    E.check("empty only if everything is blank", Implies(And(a == b, s <= p, p < e), space_at(E, st, p)))


@unit(P, "TextSpan.trim", ["model.TextSpan.trim", "model.TextSpan._trim_offsets"], loops=trim_loops())
def _(E):
    sp = sym_span(E)
    st, s, e = text_of(E, sp.t), F(E, "_start", sp), F(E, "_stop", sp)
    old = E.heap.copy()
    o = call(E, "model.TextSpan.trim", [sp])
    no_exc(E, o)
    r = o.val
    E.check("returns a span of the same text", And(E.is_cls(r.t, "TextSpan"), E.heap.sel("F.TextSpan.text", r.t) == old.sel("F.TextSpan.text", sp.t)))
    E.check("receiver unchanged", And(F(E, "_start", sp) == s, F(E, "_stop", sp) == e))
    trim_spec(E, st, s, e, F(E, "_start", r), F(E, "_stop", r))
    cover(E, "end")


@unit(P, "TextSpan.trim_", ["model.TextSpan.trim_", "model.TextSpan._trim_offsets"], loops=trim_loops())
def _(E):
    sp = sym_span(E)
    other = sym_span(E, "other")
    E.assume(other.t != sp.t)
    st, s, e = text_of(E, sp.t), F(E, "_start", sp), F(E, "_stop", sp)
    old = E.heap.copy()
    o = call(E, "model.TextSpan.trim_", [sp])
    no_exc(E, o)
    E.check("returns the receiver", o.val.t == sp.t)
    E.check("same text", E.heap.sel("F.TextSpan.text", sp.t) == old.sel("F.TextSpan.text", sp.t))
    E.check("other spans unchanged", And(F(E, "_start", other) == old.sel("F._start", other.t), F(E, "_stop", other) == old.sel("F._stop", other.t)))
    trim_spec(E, st, s, e, F(E, "_start", sp), F(E, "_stop", sp))
    cover(E, "end")
