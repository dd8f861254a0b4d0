"""C20: printed tables are complete up to announced truncation and escape content."""
from .common import *

P = "C20"
AX = lambda E: SEQ_AXIOMS
R = lambda v: Val.r(v)
ATTRS.table.update({"_max_rows": "any", "_max_columns": "any", "_max_column_width": "any", "_max_display_width": "any",
                    "Table.body": "list", "Table.header": "TableRow", "TableRow.elems": "list", "TableRow.index": "any", "TableCell.text": "str", "TableCell.html": "str"})


def sym_options(E):
    """the print options object: every setting unlimited or within the range the setters accept"""
    o = sym_ref(E, "PrintOptions", "options")
    h = E.heap
    for a, lo in (("_max_rows", 1), ("_max_columns", 1), ("_max_column_width", 7), ("_max_display_width", 11)):
        v = h.sel("F." + a, o.t)
        E.assume(Or(v == none, And(Val.is_vint(v), Val.i(v) >= lo)))
    E.globals_hooks["options"] = lambda E: o
    return o


def limit(E, o):
    """(unlimited, the longest text printed unchanged)"""
    h = E.heap
    w, d = h.sel("F._max_column_width", o.t), h.sel("F._max_display_width", o.t)
    m = Val.i(w) - 5
    return w == none, If(And(d != none, Val.i(d) - 5 < m), Val.i(d) - 5, m)


def shown(E, o, s):
    """what is printed for the text s"""
    un, m = limit(E, o)
    part = m / 2
    n = sq_len(s)
    dots = E.const(" ... ").t
    return If(Or(un, n <= m), s, E.cat(sq_slice(s, 0, part), dots, sq_slice(s, n - part, n)))


@unit(P, "truncate keeps what fits, otherwise prefix and suffix around an ellipsis within the limit", "printout.truncate", axioms=AX)
def _(E):
    o = sym_options(E)
    s = sym_str(E, "text")
    E.assume(sq_len(s.t) >= 0)
    r = call(E, "printout.truncate", [s])
    no_exc(E, r)
    un, m = limit(E, o)
    n = sq_len(s.t)
    E.check("printed text", r.val.t == shown(E, o, s.t))
    E.check("within the limit", Implies(Not(un), sq_len(r.val.t) <= m + 5))
    E.check("prefix and suffix are not empty", Implies(And(Not(un), n > m), And(m / 2 >= 1, n - m / 2 > m / 2)))
    cover(E, "end")


# ---------------------------------------------------------------- choosing the rows
row_of = {"text": Function("text_row", Val, I, Val), "html": Function("html_row", Val, I, Val)}


def format_summary(kind):
    """contract of format_text / format_html: the cells depend only on the row and its index (proved below)"""
    def f(E, args, kw):
        a = dict(zip(("self", "row", "index"), args), **kw)
        return AnyV(row_of[kind](E.to_val(a["row"]), E.as_int(a["index"])))
    return f


def compile_unit(kind):
    @unit(P, "%s rows: all of them, or exactly the first and last half of the limit around one ellipsis" % kind, "printout.Table._compile_" + kind,
          setup=lambda E: E.summaries.__setitem__("printout.Table.format_" + kind, format_summary(kind)))
    def _(E):
        o = sym_options(E)
        t = sym_ref(E, "Table", "table")
        h = E.heap
        body = h.sel("F.Table.body", t.t)
        E.assume(body > 0, body < h.alloc, cls(body) == E.prog.class_ids["list"], h.sel("L.len", body) >= 0)
        el, n = E.named(h.sel("L.el", body), "rows"), h.sel("L.len", body)
        hd = Val.vref(h.sel("F.Table.header", t.t))
        E.assume(h.sel("F.Table.header", t.t) > 0)
        mr = h.sel("F._max_rows", o.t)
        r = call(E, "printout.Table._compile_" + kind, [t])
        no_exc(E, r)
        fn = row_of[kind]
        head, out = E.unpack(r.val, 2)
        m = E.llen(out)
        oe = E.heap.sel("L.el", out.t)
        j = E.fresh("j", I)
        part = Val.i(mr) / 2
        cut = And(mr != none, n > Val.i(mr))
        E.check("header row", E.to_val(head) == fn(hd, 0))
        E.check("all rows without truncation", Implies(Not(cut), m == n))
        E.check("row j in order", Implies(And(Not(cut), 0 <= j, j < n), Select(oe, j) == fn(Select(el, j), j)))
        E.check("truncated to the limit", Implies(cut, m == 2 * part + 1))
        E.check("first half", Implies(And(cut, 0 <= j, j < part), Select(oe, j) == fn(Select(el, j), j)))
        E.check("one ellipsis row", Implies(cut, Select(oe, part) == none))
        E.check("last half with its original indices", Implies(And(cut, part < j, j < m), Select(oe, j) == fn(Select(el, n - m + j), n - m + j)))
        E.check("the rows themselves are unchanged", And(E.heap.sel("L.el", body) == el, E.heap.sel("L.len", body) == n))
        cover(E, "end")


compile_unit("text")
compile_unit("html")


# ---------------------------------------------------------------- formatting one row
trunc = Function("trunc", Sq, Sq)        # result of truncate under the current options (contract above)
esc = Function("html_escape", Sq, Sq)
clean = Function("clean", Sq, B)         # built from literals and escaped text only


def str_of(v):
    return If(Val.is_vstr(v), Val.s(v), to_str(v))


def trunc_summary(E, a, k):
    return StrV(trunc(E.force(a[0], StrV).t))


def text_cell(E, h, v):
    cell = And(Val.is_vref(v), cls(R(v)) == E.prog.class_ids["TableCell"])
    return If(cell, trunc(h.sel("F.TableCell.text", R(v))), trunc(str_of(v)))


def html_cell_ok(E, h, v, s):
    cell = And(Val.is_vref(v), cls(R(v)) == E.prog.class_ids["TableCell"])
    return If(cell, s == h.sel("F.TableCell.html", R(v)), Or(s == esc(trunc(str_of(v))), And(Val.is_vstr(v), urn(Val.s(v)), clean(s))))


urn = Function("is_urn", Sq, B)


def h_escape(E, f, a, k):
    if k or len(a) > 1:
        q = k.get("quote", a[1] if len(a) > 1 else None)
        if not (isinstance(q, BoolV) and is_true(simplify(q.t))):
            return StrV(E.fresh("partly_escaped", Sq))
    s = E.force(a[0], StrV).t
    E.assume(clean(esc(s)))
    return StrV(esc(s))


def h_fullmatch(E, f, a, k):
    s = E.force(a[0], StrV).t
    if E.choose(urn(s), "urn"):
        return E.refv(E.fresh("match", I), "object")
    return NONE


def h_split(E, f, a, k):
    """str.split(sep, 2) of a matched urn: three parts; split(sep, 1): one or two"""
    n = E.as_int(a[1])
    if E.unit_x.get("split3") is not None and is_int_value(simplify(n)) and simplify(n).as_long() == 2:
        return E.list_of([StrV(E.fresh("part", Sq)) for _ in range(3)])
    return E.list_of([StrV(E.fresh("part", Sq)) for _ in range(E.choose_n(2) + 1)])


def setup_format(E):
    E.summaries["printout.truncate"] = trunc_summary
    E.globals_hooks["escape"] = lambda E: BuiltinV("html.escape")
    E.builtin_hooks["html.escape"] = h_escape
    E.external_kinds = set(getattr(E, "external_kinds", ())) | {"Pattern"}
    E.globals_hooks["URN_MATCH"] = lambda E: RefV(E.unit_x["urnre"], "Pattern")
    E.builtin_hooks["Pattern.fullmatch"] = h_fullmatch
    E.builtin_hooks["str.split"] = h_split
    old = E.format_parts

    def fp(parts):
        r = old(parts)
        t = r.t
        ps = []

        def flat(x):
            if is_app(x) and x.decl().eq(sq_cat):
                flat(x.arg(0))
                flat(x.arg(1))
            else:
                ps.append(x)
        flat(t)
        E.assume(Implies(And([BoolVal(True)] + [clean(p) for p in ps if E.litof(p) is None]), clean(t)))       # definition of clean
        return r
    E.format_parts = fp


def row_loop(kind):
    def inv(E, L):
        h, x = E.heap, E.unit_x
        out = L.ref("output")
        q = Int("q")
        el = E.named(h.sel("L.el", out), "out")
        ce = E.named(x["el"], "cells")
        e = Select(el, q)
        p = Select(ce, q - 1)
        good = e == Val.vstr(text_cell(E, x["h0"], p)) if kind == "text" else And(Val.is_vstr(e), html_cell_ok(E, x["h0"], p, Val.s(e)))
        return [("range", L.i <= L.n), ("one entry per cell", h.sel("L.len", out) == L.i + 1), ("index first", Select(el, 0) == x["first"](kind)),
                ("cells so far", FA([q], Implies(And(1 <= q, q <= L.i), good), [e])),
                ("new list", And(out >= x["h0"].alloc, out < h.alloc))]
    return LoopSpec(inv)


def format_unit(kind):
    Q = "printout.Table.format_" + kind

    @unit(P, "a %s row has its index and every cell exactly once, in order%s" % (kind, ", data escaped" if kind == "html" else ""), [Q] + (["printout.urn_link_wikidata", "printout.urn_link_wikipedia"] if kind == "html" else []),
          setup=setup_format, loops={Q: [row_loop(kind)]})
    def _(E):
        t = sym_ref(E, "Table", "table")
        row = sym_ref(E, "TableRow", "row")
        ix = sym_int(E, "index")
        h = E.heap
        el_ = h.sel("F.TableRow.elems", row.t)
        E.assume(el_ > 0, el_ < h.alloc, cls(el_) == E.prog.class_ids["list"], h.sel("L.len", el_) >= 0)
        el, n = E.named(h.sel("L.el", el_), "cells"), h.sel("L.len", el_)
        q = Int("q")
        c_ = Select(el, q)
        E.assume(FA([q], Implies(And(Val.is_vref(c_)), And(R(c_) > 0, R(c_) < h.alloc)), [c_]))
        ri = h.sel("F.TableRow.index", row.t) if h.term("F.TableRow.index").sort().range() == Val else h.sel("F.index", row.t)
        named = str_of(ri)

        def first(k):
            return If(ri != none, Val.vstr(named if k == "text" else esc(named)), Val.vstr(to_str(Val.vint(ix.t))))
        E.unit_x = dict(h0=E.heap.copy(), el=el, first=first, urnre=E.fresh("re", I), split3=True)
        r = call(E, Q, [t, row, ix])
        no_exc(E, r)
        out = r.val
        oe, m = E.heap.sel("L.el", out.t), E.llen(out)
        E.check("index and one entry per cell", m == n + 1)
        E.check("the index: named, or the position", Select(oe, 0) == first(kind))
        j = E.fresh("j", I)
        v, s = Select(el, j), Select(oe, j + 1)
        inr = And(0 <= j, j < n)
        if kind == "text":
            E.check("cell j is printed (truncated when too long)", Implies(inr, s == Val.vstr(text_cell(E, E.unit_x["h0"], v))))
        else:
            E.check("cell j is printed with its data escaped", Implies(inr, And(Val.is_vstr(s), html_cell_ok(E, E.unit_x["h0"], v, Val.s(s)))))
        cover(E, "end")


format_unit("text")
format_unit("html")


# ---------------------------------------------------------------- print options
@unit(P, "print options only take unlimited or sufficiently large values", ["printout.PrintOptions.%s.setter" % a for a in ("max_rows", "max_columns", "max_column_width", "max_display_width")])
def _(E):
    a, lo = [("max_rows", 1), ("max_columns", 1), ("max_column_width", 7), ("max_display_width", 11)][E.choose_n(4)]
    o = sym_ref(E, "PrintOptions", "options")
    v = NONE if E.choose_n(2) == 0 else sym_int(E, "value")
    h0 = E.heap.copy()
    r = outcome(E, lambda: E.setattr_(o, a, v))
    now = E.heap.sel("F._" + a, o.t)
    if r.raised:
        E.check("only values that are too small are rejected", BoolVal(r.exc == "ValueError" and v is not NONE) if v is NONE else And(BoolVal(r.exc == "ValueError"), v.t < lo))
        E.check("nothing is changed then", now == h0.sel("F._" + a, o.t))
    else:
        E.check("the value is stored", now == E.to_val(v))
        E.check("values that are too small are rejected", BoolVal(True) if v is NONE else v.t >= lo)
    for b in ("_max_rows", "_max_columns", "_max_column_width", "_max_display_width"):
        if b != "_" + a:
            E.check("%s is kept" % b, E.heap.sel("F." + b, o.t) == h0.sel("F." + b, o.t))
    cover(E, "end")
