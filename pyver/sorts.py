"""Logic of the verifier: z3 sorts, the universal value datatype, immutable sequences and their axioms."""
import z3
from z3 import *

I = IntSort()
B = BoolSort()
Sq = DeclareSort("Sq")      # immutable sequences of ints: str and bytes
Flt = DeclareSort("Flt")    # floats are opaque

_V = Datatype("Val")
_V.declare("none")
_V.declare("vbool", ("v_b", B))
_V.declare("vint", ("v_i", I))
_V.declare("vflt", ("v_f", Flt))
_V.declare("vstr", ("v_s", Sq))
_V.declare("vbyt", ("v_y", Sq))
_V.declare("vref", ("v_r", I))
_V.declare("vatom", ("v_a", I))
_V.declare("vt2", ("v_t20", _V), ("v_t21", _V))
_V.declare("vt3", ("v_t30", _V), ("v_t31", _V), ("v_t32", _V))
Val = _V.create()
for _n in ("b", "i", "f", "s", "y", "r", "a", "t20", "t21", "t30", "t31", "t32"):
    setattr(Val, _n, getattr(Val, "v_" + _n))

IV = ArraySort(I, Val)
VB = ArraySort(Val, B)
setcard = Function("setcard", VB, I)      # number of members of a (finite) set
VV = ArraySort(Val, Val)
VI = ArraySort(Val, I)

none = Val.none
is_none = lambda v: Val.is_none(v)

# ---- immutable sequences
sq_len = Function("sq_len", Sq, I)
sq_at = Function("sq_at", Sq, I, I)
sq_slice = Function("sq_slice", Sq, I, I, Sq)
sq_cat = Function("sq_cat", Sq, Sq, Sq)
sq_empty = Const("sq_empty", Sq)
sq_join = Function("sq_join", IV, I, Sq)      # concatenation of vstr/vbyt payloads of el[0..n)
sq_of = Function("sq_of", Val, Sq)            # payload of a vstr / vbyt
isspace1 = Function("isspace1", I, B)
to_str = Function("to_str", Val, Sq)
flt_of_int = Function("flt_of_int", I, Flt)

cls = Function("cls", I, I)                    # class tag of a reference

# counting the non-None entries of a list prefix
cntnn = Function("cntnn", IV, I, I)

# opaque python comparisons on arbitrary values
py_eq = Function("py_eq", Val, Val, B)
py_lt = Function("py_lt", Val, Val, B)
py_le = Function("py_le", Val, Val, B)
py_cmpok = Function("py_cmpok", Val, Val, B)

s, t, u = Consts("s t u", Sq)
a, b, c, d, i, j, k, n, m = Ints("a b c d i j k n m")
A_ = Const("A_", IV)
v, w = Consts("v w", Val)


def has_ite(p):
    st = list(p) if isinstance(p, (list, tuple)) else [p]
    seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() in (Z3_OP_ITE, Z3_OP_AND, Z3_OP_OR, Z3_OP_NOT, Z3_OP_IMPLIES, Z3_OP_EQ):
                return True
            st.extend(e.children())
    return False


def FA(vs, body, pats=None, qid=""):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pats and any(has_ite(p) for p in pats):
        pats = [p for p in pats if not has_ite(p)]
    if pats:
        return ForAll(vs, body, patterns=[p if not isinstance(p, (list, tuple)) else MultiPattern(*p) for p in pats], qid=qid)
    return ForAll(vs, body, qid=qid)


SEQ_AXIOMS = [
    FA([s], sq_len(s) >= 0, [sq_len(s)]),
    sq_len(sq_empty) == 0,
    FA([s], Implies(sq_len(s) == 0, s == sq_empty), [sq_len(s)]),
    FA([s, a, b], Implies(And(0 <= a, a <= b, b <= sq_len(s)), sq_len(sq_slice(s, a, b)) == b - a), [sq_slice(s, a, b)]),
    FA([s, a, b, i], Implies(And(0 <= a, a <= b, b <= sq_len(s), 0 <= i, i < b - a),
                             sq_at(sq_slice(s, a, b), i) == sq_at(s, a + i)), [sq_at(sq_slice(s, a, b), i)]),
    FA([s, a, b], Implies(And(a == 0, b == sq_len(s)), sq_slice(s, a, b) == s), [sq_slice(s, a, b)]),
    FA([s, a, b, c, d], Implies(And(0 <= a, a <= b, b <= sq_len(s), 0 <= c, c <= d, d <= b - a),
                                sq_slice(sq_slice(s, a, b), c, d) == sq_slice(s, a + c, a + d)),
       [sq_slice(sq_slice(s, a, b), c, d)]),
    FA([s, t], sq_len(sq_cat(s, t)) == sq_len(s) + sq_len(t), [sq_cat(s, t)]),
    FA([s, a, b, c], Implies(And(0 <= a, a <= b, b <= c, c <= sq_len(s)),
                             sq_cat(sq_slice(s, a, b), sq_slice(s, b, c)) == sq_slice(s, a, c)),
       [sq_cat(sq_slice(s, a, b), sq_slice(s, b, c))]),
    FA([s], sq_cat(sq_empty, s) == s, [sq_cat(sq_empty, s)]),
    FA([s], sq_cat(s, sq_empty) == s, [sq_cat(s, sq_empty)]),
    FA([s, t, i], Implies(And(0 <= i, i < sq_len(s)), sq_at(sq_cat(s, t), i) == sq_at(s, i)), [sq_at(sq_cat(s, t), i)]),
    FA([s, t, i], Implies(And(sq_len(s) <= i, i < sq_len(s) + sq_len(t)), sq_at(sq_cat(s, t), i) == sq_at(t, i - sq_len(s))),
       [sq_at(sq_cat(s, t), i)]),
    FA([s], sq_of(Val.vstr(s)) == s, [Val.vstr(s)]),
    FA([s], sq_of(Val.vbyt(s)) == s, [Val.vbyt(s)]),
]


def uses(fs, *names):
    """does any of the formulas mention one of the function symbols"""
    seen = set()
    stack = list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            if e.decl().name() in names:
                return True
            stack.extend(e.children())
    return False
