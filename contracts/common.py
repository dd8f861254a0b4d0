"""Shared contract vocabulary: attribute types, symbolic objects, representation predicates."""
import z3
from z3 import *
from pyver.sorts import *
from pyver.sorts import FA
from pyver.engine import *
from pyver.engine import ATTRS
from pyver.interp import LoopSpec
from pyver.unit import unit, UNITS
from pyver import builtin_fns as BF

# declared types of attributes (assumption on objects handed in by callers)
ATTRS.table.update({
    # Node
    "_id": "int", "collection": "?NodeLayerCollection",
    # layers
    "_schema": "NodeLayerSchema", "_nodes": "list", "num": "int", "_default_values": "dict", "nodetype": "DataType",
    "fieldtypes": "dict:DataType", "NodeLayerSchema.fields": "dict:DataType",
    # document
    "Document._layers": "dict:NodeLayerCollection", "Document._texts": "dict:Text", "Document.props": "dict",
    # schema
    "fields": "dict", "name": "str",
    # text
    "Text.text": "str", "TextSpan.text": "Text", "_start": "int", "_stop": "int", "start_offset": "int", "stop_offset": "int", "offset": "int", "_refcnt": "int",
    "spantype": "DataType",
    # types
    "typename": "atom", "options": "dict", "nativetype": "any",
    "#bytes": "byt",
    # node span
    "NodeSpan.left": "Node", "NodeSpan.right": "Node",
})


seen = Function("seen", I, B)          # mentions a term so that quantifiers are instantiated with it; carries no meaning

seenv = Function("seenv", Val, B)


class Out:
    """outcome of a call under contract"""
    def __init__(self, val=None, exc=None):
        self.val, self.exc = val, exc

    @property
    def raised(self):
        return self.exc is not None


def call(E, qual, args, kwargs=None, self_=None):
    """execute the real function"""
    f = E.prog.funcs.get(qual)
    if f is None:
        raise Unsupported("function %s not found" % qual)
    try:
        v = E.call(FnV(f, None, self_), list(args), dict(kwargs or {}))
        if isinstance(v, GenV):
            v = E.run_gen(v)
        return Out(v)
    except PyExc as e:
        return Out(None, e.kind)


def outcome(E, fn):
    try:
        return Out(fn())
    except PyExc as e:
        return Out(None, e.kind)


def cover(E, name):
    E.covers.setdefault(name, [])
    if len(E.covers[name]) < 6:
        E.covers[name].append(list(E.pc))


def no_exc(E, o, name="no exception"):
    if o.raised:
        E.check("%s (%s)" % (name, o.exc), BoolVal(False))
        raise PathEnd()


def sym_int(E, name):
    return IntV(E.fresh(name, I))


def sym_str(E, name):
    return StrV(E.fresh(name, Sq))


def sym_ref(E, kind, name):
    r = E.fresh(name, I)
    if str(E.heap.alloc) == "alloc0":
        E.fresh_refs[r.get_id()] = (r, "old")
    return E.refv(r, kind)


def sym_any(E, name, info=None):
    t = E.fresh(name, Val)
    E.assume(Implies(Val.is_vref(t), And(Val.r(t) > 0, Val.r(t) < E.heap.alloc)))
    return AnyV(t, info)


def distinct_new(E, *refs):
    for a in range(len(refs)):
        for b in range(a):
            E.assume(refs[a].t != refs[b].t)


def generalise(E, name, sorts, body, pats, hints=None):
    """proves body for arbitrary values and assumes it for all"""
    fr = [E.fresh("any", so) for so in sorts]
    if hints:
        E.assume(*hints(*fr))
    E.check(name, body(*fr))
    bv = [Const("g%d" % i, so) for i, so in enumerate(sorts)]
    E.assume(FA(bv, body(*bv), pats(*bv)))


def is_int(E, v):
    return isinstance(v, IntV)


def F(E, a, ref, heap=None):
    return (heap or E.heap).sel("F." + a, ref.t if isinstance(ref, SV) else ref)


# ---------------------------------------------------------------- texts and spans
def text_of(E, sp, heap=None):
    """the string a span refers to"""
    h = heap or E.heap
    return h.sel("F.Text.text", h.sel("F.TextSpan.text", sp))


def span_wf(E, sp, heap=None):
    h = heap or E.heap
    a, b = h.sel("F._start", sp), h.sel("F._stop", sp)
    return And(0 <= a, a <= b, b <= sq_len(text_of(E, sp, h)))


def sym_text(E, name="text"):
    return sym_ref(E, "Text", name)


def sym_span(E, name="span"):
    s = sym_ref(E, "TextSpan", name)
    E.assume(E.heap.sel("F.TextSpan.text", s.t) > 0, E.heap.sel("F.TextSpan.text", s.t) < E.heap.alloc)
    E.assume(E.is_cls(E.heap.sel("F.TextSpan.text", s.t), "Text"))
    E.assume(sq_len(text_of(E, s.t)) >= 0)
    E.assume(span_wf(E, s.t))
    return s


def opt_int(E, name):
    """None or any integer"""
    if E.choose_n(2) == 0:
        return NONE
    return IntV(E.fresh(name, I))


def py_clamp(x, n, default):
    """specification of slice.indices for one bound (step 1)"""
    if isinstance(x, NoneT):
        return default
    t = x.t
    return If(t >= 0, If(t <= n, t, n), If(t + n >= 0, t + n, IntVal(0)))


def spec_slice(st, lo, hi):
    """the string st[lo:hi] for 0 <= lo, hi <= len"""
    return If(lo <= hi, sq_slice(st, lo, hi), sq_empty)
