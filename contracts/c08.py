"""C08: partial reading of an encoded document agrees with full decoding."""
from .msgio import *

P = "C08"
MD = "codec.MsgpackDocument."
MC = "codec.MsgpackCodec."
AX = lambda E: MSG_AXIOMS
MAGIC = lambda E: E.const(b"DM_1").t

# maps in the token stream
mapn = Function("mapn", Sq, I, I)      # entries of the map at a position
hdr = Function("hdr", Sq, I, I)        # bytes of its header


class Sections:
    """where the parts of an encoded document are (rigid functions of its bytes)"""
    def __init__(self, E, X):
        self.E, self.X = E, X
        n = lambda s: E.fresh(s, I)
        self.PS, self.PSZ, self.PE, self.SE, self.TS, self.TSZ, self.TE, self.nt = [n(s) for s in ("PS", "PSZ", "PE", "SE", "TS", "TSZ", "TE", "ntypes")]
        fn = lambda s, *a: E.fresh_fn(s, *a)
        self.LP, self.LS, self.LL = fn("LP", I, I), fn("LS", I, I), fn("LL", I, I)
        self.tname, self.tidx = fn("tname", I, Sq), fn("tidx", Sq, I)
        self.fields = fn("fieldsof", I, Val)

    def facts(self):
        X, j = self.X, Int("j")
        out = [sq_len(X) >= 4, sq_slice(X, 0, 4) == MAGIC(self.E), ok(X, 4), tokval(X, 4) == Val.vint(self.PSZ), self.PS == 4 + wd(X, 4), self.PSZ >= 0, self.PE == self.PS + self.PSZ,
               ok(X, self.PS), self.PS + wd(X, self.PS) == self.PE, self.PE <= self.SE, ok(X, self.SE), tokval(X, self.SE) == Val.vint(self.TSZ), self.TS == self.SE + wd(X, self.SE),
               ok(X, self.TS), self.TSZ == wd(X, self.TS), self.TE == self.TS + self.TSZ, self.LP(0) == self.TE, self.nt >= 0]
        body = Implies(And(0 <= j, j < self.nt), And(ok(X, self.LP(j)), tokval(X, self.LP(j)) == Val.vint(self.LL(j)), self.LS(j) == self.LP(j) + wd(X, self.LP(j)),
                                                   self.LL(j) >= 0, self.LP(j + 1) == self.LS(j) + self.LL(j), self.tidx(self.tname(j)) == j))
        return out + [FA([j], body, [p]) for p in (self.LP(j), self.tname(j), self.LL(j), self.LS(j))]


def pair(a, b):
    return TupV([IntV(a), IntV(b)])


def f(E, d, a, h=None):
    return (h or E.heap).sel("F." + a, d)


def prop_ok(E, s, d, h=None):
    return f(E, d, "MsgpackDocument._prop", h) == E.to_val(pair(s.PS, s.PSZ))


def texts_ok(E, s, d, h=None):
    return f(E, d, "MsgpackDocument._texts", h) == E.to_val(pair(s.TS, s.TSZ))


def types_list_ok(E, s, l, h=None):
    h = h or E.heap
    j = Int("j")
    el = h.sel("L.el", l)
    return And(l > 0, l < h.alloc, cls(l) == E.prog.class_ids["list"], h.sel("L.len", l) == s.nt,
               FA([j], Implies(And(0 <= j, j < s.nt), Select(el, j) == Val.vstr(s.tname(j))), [Select(el, j)]))


def schema_dict_ok(E, s, dd, h=None):
    h = h or E.heap
    j = Int("j")
    dom, mp = h.sel("D.dom", dd), h.sel("D.map", dd)
    k = Val.vstr(s.tname(j))
    return And(dd > 0, dd < h.alloc, cls(dd) == E.prog.class_ids["dict"],
               FA([j], Implies(And(0 <= j, j < s.nt), And(Select(dom, k), Select(mp, k) == s.fields(j))), [s.tname(j)]))


def schema_ok(E, s, d, h=None):
    v = f(E, d, "MsgpackDocument._schema", h)
    l, dd = Val.r(Val.t20(v)), Val.r(Val.t21(v))
    return And(Val.is_vt2(v), Val.is_vref(Val.t20(v)), Val.is_vref(Val.t21(v)), types_list_ok(E, s, l, h), schema_dict_ok(E, s, dd, h))


def layers_ok(E, s, d, upto=None, h=None, ref=None):
    h = h or E.heap
    j = Int("j")
    v = f(E, d, "MsgpackDocument._layers", h) if ref is None else None
    r = ref if ref is not None else Val.r(v)
    dom, mp = h.sel("D.dom", r), h.sel("D.map", r)
    k = Val.vstr(s.tname(j))
    n = s.nt if upto is None else upto
    fact = FA([j], Implies(And(0 <= j, j < n), And(Select(dom, k), Select(mp, k) == E.to_val(pair(s.LS(j), s.LL(j))))), [s.tname(j)])
    kk = Const("kk", Val)
    only = FA([kk], Implies(Select(dom, kk), And(Val.is_vstr(kk), 0 <= s.tidx(Val.s(kk)), s.tidx(Val.s(kk)) < n, s.tname(s.tidx(Val.s(kk))) == Val.s(kk))), [Select(dom, kk)])
    return [And(r > 0, r < h.alloc, cls(r) == E.prog.class_ids["dict"]) if ref is None else BoolVal(True), Val.is_vref(v) if v is not None else BoolVal(True), fact, only]


def inv(E, s, d, h=None):
    """everything cached so far is right"""
    h = h or E.heap
    rs = f(E, d, "_read_state", h)
    raw = f(E, d, "rawdata", h)
    return [("raw data", And(raw > 0, raw < h.alloc, cls(raw) == E.prog.class_ids["RawIO"], h.sel("F.#data", raw) == s.X)),
            ("state", And(0 <= rs, rs <= 3)), ("properties", Implies(rs >= 1, prop_ok(E, s, d, h))), ("texts", Implies(rs >= 2, texts_ok(E, s, d, h))),
            ("schema", Implies(rs >= 2, schema_ok(E, s, d, h))), ("layers", Implies(rs >= 3, And(*layers_ok(E, s, d, h=h))))]


def known(E, s, d, k, h=None):
    """the parts a caller asking for state k relies on"""
    out = [("properties", prop_ok(E, s, d, h))]
    if k >= 2:
        out += [("texts", texts_ok(E, s, d, h)), ("schema", schema_ok(E, s, d, h))]
    if k >= 3:
        out += [("layers %d" % i, t) for i, t in enumerate(layers_ok(E, s, d, h=h))]
    return out


def stays(E, s, d, h0):
    """a part that was located stays located"""
    same = lambda a: f(E, d, "MsgpackDocument." + a) == f(E, d, "MsgpackDocument." + a, h0)
    return [("properties", Or(same("_prop"), prop_ok(E, s, d))), ("texts", Or(same("_texts"), texts_ok(E, s, d))), ("schema", Or(same("_schema"), schema_ok(E, s, d))),
            ("layers", Or(same("_layers"), And(*layers_ok(E, s, d))))]


def check_all(E, name, items):
    for n, t in items:
        E.check("%s: %s" % (name, n), t)


def tuple_hook(attr, kinds):
    def hook(E, o):
        t = E.named(E.heap.sel("F.MsgpackDocument." + attr, o.t), "tup")
        if not E.choose(Val.is_vt2(t), attr + " is known"):
            return AnyV(t)
        a, b = Val.t20(t), Val.t21(t)
        if kinds is None:
            if not E.choose(And(Val.is_vint(a), Val.is_vint(b)), attr + " holds integers"):
                raise PathEnd()
            return TupV([IntV(Val.i(a)), IntV(Val.i(b))])
        return TupV([E.refv(Val.r(a), kinds[0]), E.refv(Val.r(b), kinds[1])])
    return hook


def int_pair(E, t):
    a, b = Val.t20(t), Val.t21(t)
    E.check("the entry is a pair of integers", And(Val.is_vt2(t), Val.is_vint(a), Val.is_vint(b)))
    return TupV([IntV(Val.i(a)), IntV(Val.i(b))])


def int_value(E, t):
    E.check("the entry is an integer", Val.is_vint(t))
    return IntV(Val.i(t))


def dict_of_ints(E, t):
    E.check("the entry is a dictionary", And(Val.is_vref(t), cls(Val.r(t)) == E.prog.class_ids["dict"]))
    r = E.refv(Val.r(t), "dict")
    r.valfn = int_value
    return r


def dict_hook(E, o):
    t = E.named(E.heap.sel("F.MsgpackDocument._layers", o.t), "lay")
    if not E.choose(Val.is_vref(t), "layers are known"):
        return AnyV(t)
    r = E.refv(Val.r(t), "dict")
    r.valfn = int_pair
    return r


def u_read_bytes(E, f_, a, k):
    u = f_.self_
    n = E.as_int(a[0])
    d = E.hget("F.#data", E.hget("F.#src", u.t))
    p = upos(E, u.t)
    E.hput("F.#up", u.t, E.hget("F.#up", u.t) + n)
    return BytV(sq_slice(d, p, p + n))


def u_skip(E, f_, a, k):
    u = f_.self_
    d = E.hget("F.#data", E.hget("F.#src", u.t))
    p = upos(E, u.t)
    if p.eq(IntVal(0)):
        p = IntVal(0)
    if not E.choose(ok(d, p), "complete value"):
        raise PyExc("OpaqueError")
    E.hput("F.#up", u.t, E.hget("F.#up", u.t) + wd(d, p))
    E.hput("F.#pos", E.hget("F.#src", u.t), E.nonneg(E.fresh("ahead", I)))
    return NONE


def u_map_header(E, f_, a, k):
    u = f_.self_
    d = E.hget("F.#data", E.hget("F.#src", u.t))
    p = upos(E, u.t)
    E.assume(hdr(d, p) > 0, mapn(d, p) >= 0)
    E.hput("F.#up", u.t, E.hget("F.#up", u.t) + hdr(d, p))
    E.hput("F.#pos", E.hget("F.#src", u.t), E.nonneg(E.fresh("ahead", I)))
    return IntV(mapn(d, p))


def at(E, name, u, s, pos, raw=None):
    """the unpacker handed to a decoder reads the document's bytes at this position"""
    h = E.heap
    src = h.sel("F.#src", u.t)
    E.check(name + " (source)", And(h.sel("F.#data", src) == s.X))
    E.check(name + " (position)", upos(E, u.t) == pos)


def advance(E, u, pos):
    E.hput("F.#up", u.t, pos - E.hget("F.#base", u.t))
    E.hput("F.#pos", E.hget("F.#src", u.t), E.nonneg(E.fresh("ahead", I)))


def s_schema(E, a, k):
    s = E.unit_x["s"]
    at(E, "the schema is read where it is stored", a[0], s, s.PE)
    advance(E, a[0], s.SE)
    l = E.new_list() if hasattr(E, "new_list") else RefV(E.alloc("list"), "list")
    d = E.new_dict()
    l = RefV(E.alloc("list"), "list")
    el = E.fresh("types", IV)
    j = Int("j")
    E.hput("L.el", l.t, el)
    E.hput("L.len", l.t, s.nt)
    dom, mp = E.fresh("sdom", ArraySort(Val, B)), E.fresh("smap", ArraySort(Val, Val))
    E.hput("D.dom", d.t, dom)
    E.hput("D.map", d.t, mp)
    E.assume(types_list_ok(E, s, l.t), schema_dict_ok(E, s, d.t))
    return TupV([l, d])


def setup_doc(E):
    setup_msg(E)
    E.builtin_hooks.update({"Unpacker.read_bytes": u_read_bytes, "Unpacker.skip": u_skip, "Unpacker.read_map_header": u_map_header,
                            "msgpack.Unpacker": lambda E, f_, a, k: new_unpacker(E, a, k)})
    E.attr_hooks[("MsgpackDocument", "_prop")] = tuple_hook("_prop", None)
    E.attr_hooks[("MsgpackDocument", "_texts")] = tuple_hook("_texts", None)
    E.attr_hooks[("MsgpackDocument", "_schema")] = tuple_hook("_schema", ("list", "dict"))
    E.attr_hooks[("MsgpackDocument", "_layers")] = dict_hook
    E.summaries[MC + "decode_schema"] = s_schema


def sym_doc(E):
    d = sym_ref(E, "MsgpackDocument", "doc")
    raw = E.heap.sel("F.rawdata", d.t)
    X = E.named(E.heap.sel("F.#data", raw), "X")
    s = Sections(E, X)
    E.assume(*s.facts())
    E.assume(*[t for _, t in inv(E, s, d.t)])
    E.unit_x = dict(s=s, d=d)
    return d, s


def layer_loop():
    def binv(E, L):
        s, d = E.unit_x["s"], E.unit_x["d"]
        u, lm = L.ref("unpacker"), L.ref("layer_mapping")
        h = E.heap
        e = L.entry
        raw = f(E, d.t, "rawdata", e)
        x = Int("x")
        out = [("position", And(L.int("start_pos") == s.LP(L.i), h.sel("F.#base", u) == s.LP(L.i), h.sel("F.#up", u) == 0, h.sel("F.#src", u) == raw, u < h.alloc, u > 0,
                                cls(u) == E.prog.class_ids["Unpacker"])),
               ("raw data", h.sel("F.#data", raw) == s.X), ("range", And(L.i <= L.n, L.n == s.nt)),
               ("object", And(*[f(E, d.t, a, h) == f(E, d.t, a, e) for a in ("rawdata", "_read_state", "MsgpackDocument._prop", "MsgpackDocument._texts", "MsgpackDocument._schema",
                                                                                    "MsgpackDocument._layers")]))]
        lo = layers_ok(E, s, d.t, upto=L.i, ref=lm)
        out += [("layers before", lo[2]), ("no other layers", lo[3])]
        return out

    def hints(E, L, where):
        s = E.unit_x["s"]
        E.assume(seen(s.LP(L.i)), seen(s.LS(L.i)))
        E.assume(seen(s.tidx(s.tname(L.i))))
    return [LoopSpec(binv, hints=hints)]


for _k in (1, 2, 3):
    def _mk(k):
        @unit(P, "locating the parts of a document, whatever was located before (state %d)" % k, [MD + "_parse_state"], axioms=AX, setup=setup_doc, loops={MD + "_parse_state": layer_loop()})
        def _(E):
            d, s = sym_doc(E)
            ref0 = E.heap.sel("F.ref", d.t)
            h0 = E.heap.copy()
            o = call(E, MD + "_parse_state", [d, IntV(IntVal(k))])
            no_exc(E, o)
            check_all(E, "parts stay located", stays(E, s, d.t, h0))
            check_all(E, "still right", inv(E, s, d.t))
            check_all(E, "located", known(E, s, d.t, k))
            E.check("same data", f(E, d.t, "rawdata") == E.unit_x.get("raw", f(E, d.t, "rawdata")))
            cover(E, "end")
    _mk(_k)


# ---------------------------------------------------------------- reading the parts
def s_parse(E, a, k):
    """contract of _parse_state (proved above)"""
    d, st = a[0], a[1]
    s = E.unit_x["s"]
    k = z3.simplify(E.as_int(st))
    if not z3.is_int_value(k):
        raise Unsupported("state")
    k = k.as_long()
    E.check("the handle is intact when parts are located", And(*[t for _, t in inv(E, s, d.t)]))
    h0 = E.heap.copy()
    l, dd, ly = E.alloc("list"), E.alloc("dict"), E.alloc("dict")
    for at_, new in (("_prop", None), ("_texts", None), ("_schema", Val.vt2(Val.vref(l), Val.vref(dd))), ("_layers", Val.vref(ly))):
        v = E.fresh(at_, Val)
        old = E.heap.sel("F.MsgpackDocument." + at_, d.t)
        if new is not None:
            E.assume(Or(v == old, v == new))
        E.hput("F.MsgpackDocument." + at_, d.t, v)
    E.hput("F._read_state", d.t, E.fresh("rs", I))
    E.hput("F.#pos", f(E, d.t, "rawdata"), E.nonneg(E.fresh("anywhere", I)))
    E.assume(*[t for _, t in inv(E, s, d.t)])
    E.assume(*[t for _, t in known(E, s, d.t, k)])
    E.assume(*[t for _, t in stays(E, s, d.t, h0)])
    return NONE


def same_star(E, a, want):
    """the selection is passed on unchanged"""
    got = a[1:] if isinstance(a, list) else list(a)[1:]
    if want is None:
        E.check("everything is read", BoolVal(len(got) == 0))
    else:
        E.check("the selection is passed on", BoolVal(len(got) == 1 and isinstance(got[0], tuple) and got[0][1] is want))


def part_decoder(name, pos):
    def fn(E, a, k):
        s = E.unit_x["s"]
        at(E, "%s are read where they are stored" % name, a[0], s, pos(s))
        same_star(E, a, E.unit_x["sel"])
        advance(E, a[0], pos(s) + wd(s.X, pos(s)))
        r = E.new_dict()
        E.ghost[name] = r.t
        return r
    return fn


def sym_sel(E):
    if E.choose_n(2) == 0:
        E.unit_x["sel"] = None
        return []
    l = sym_ref(E, "list", "selection")
    E.unit_x["sel"] = l
    return [("*view", l)]


def setup_parts(E):
    setup_doc(E)
    E.summaries[MD + "_parse_state"] = s_parse
    E.summaries[MC + "decode_property"] = part_decoder("properties", lambda s: s.PS)
    E.summaries[MC + "decode_texts"] = part_decoder("texts", lambda s: s.TS)


for _nm in ("properties", "texts"):
    def _mk2(nm):
        @unit(P, "%s are read from their own section" % nm, [MD + nm], axioms=AX, setup=setup_parts)
        def _(E):
            d, s = sym_doc(E)
            sel = sym_sel(E)
            o = call(E, MD + nm, [d] + sel)
            no_exc(E, o)
            E.check("what was read is returned", BoolVal(isinstance(o.val, RefV) and nm in E.ghost) if nm not in E.ghost or not isinstance(o.val, RefV) else o.val.t == E.ghost[nm])
            check_all(E, "the handle stays right", inv(E, s, d.t))
            cover(E, "all" if not sel else "selection")
    _mk2(_nm)


@unit(P, "the schema is the stored one", [MD + "schema"], axioms=AX, setup=setup_parts)
def _(E):
    d, s = sym_doc(E)
    o = call(E, MD + "schema", [d])
    no_exc(E, o)
    v = o.val
    E.check("types and fields", BoolVal(isinstance(v, TupV) and len(v.items) == 2))
    E.check("types in order", types_list_ok(E, s, v.items[0].t))
    E.check("fields of every type", schema_dict_ok(E, s, v.items[1].t))
    check_all(E, "the handle stays right", inv(E, s, d.t))
    cover(E, "end")


@unit(P, "the binary form is the original data", [MD + "binary"], axioms=AX, setup=setup_parts)
def _(E):
    d, s = sym_doc(E)
    o = call(E, MD + "binary", [d])
    no_exc(E, o)
    E.check("identical bytes", E.force(o.val, BytV).t == s.X)
    check_all(E, "the handle stays right", inv(E, s, d.t))
    cover(E, "end")


@unit(P, "creating a handle over encoded bytes", [MD + "__init__"], axioms=AX, setup=setup_doc)
def _(E):
    X = E.fresh("X", Sq)
    s = Sections(E, X)
    E.assume(*s.facts())
    ref = sym_any(E, "ref")
    d = E.construct("MsgpackDocument", [BytV(X), ref], {})
    check_all(E, "nothing is located yet", inv(E, s, d.t))
    E.check("reference", f(E, d.t, "ref") == ref.t)
    cover(E, "end")


@unit(P, "other data is rejected", [MD + "__init__"], axioms=AX, setup=setup_doc)
def _(E):
    X = E.fresh("X", Sq)
    E.assume(Or(sq_len(X) < 4, sq_slice(X, 0, 4) != MAGIC(E)))
    E.assume(sq_len(MAGIC(E)) == 4)
    try:
        E.construct("MsgpackDocument", [BytV(X)], {})
    except PyExc as e:
        E.check("ValueError (%s)" % e.kind, BoolVal(e.kind == "ValueError"))
        cover(E, "end")
        return
    E.check("rejected", BoolVal(False))


@unit(P, "a pickled and restored handle is a fresh handle over the same data", [MD + "__getstate__", MD + "__setstate__"], axioms=AX, setup=setup_doc)
def _(E):
    d, s = sym_doc(E)
    ref0 = f(E, d.t, "ref")
    o = call(E, MD + "__getstate__", [d])
    no_exc(E, o)
    n = RefV(E.alloc("MsgpackDocument"), "MsgpackDocument")
    o2 = call(E, MD + "__setstate__", [n, o.val])
    no_exc(E, o2)
    E.check("its own buffer", f(E, n.t, "rawdata") != f(E, d.t, "rawdata"))
    check_all(E, "restored", inv(E, s, n.t))
    check_all(E, "original", inv(E, s, d.t))
    E.check("reference", f(E, n.t, "ref") == ref0)
    cover(E, "end")


# ---------------------------------------------------------------- selective decoding of maps
class MapAt:
    """the entries of the map stored at a position"""
    def __init__(self, E, X, p):
        fn = lambda n, *s: E.fresh_fn(n, *s)
        self.X, self.p = X, p
        self.key, self.KP, self.VP, self.idx = fn("key", I, Val), fn("KP", I, I), fn("VP", I, I), fn("kidx", Val, I)
        self.n = mapn(X, p)
        self.h = hdr(X, p)

    def facts(self):
        X, i = self.X, Int("i")
        KP, VP = self.KP, self.VP
        body = Implies(And(0 <= i, i < self.n), And(ok(X, KP(i)), tokval(X, KP(i)) == self.key(i), VP(i) == KP(i) + wd(X, KP(i)), ok(X, VP(i)), KP(i + 1) == VP(i) + wd(X, VP(i)),
                                                  self.idx(self.key(i)) == i, Val.is_vstr(self.key(i))))
        return [ok(X, self.p), self.n >= 0, self.h > 0, KP(0) == self.p + self.h, KP(self.n) == self.p + wd(X, self.p)] + [FA([i], body, [q]) for q in (KP(i), VP(i), self.key(i))]


def selected(E, m, r, sel, upto, h=None):
    """dict r holds exactly the selected entries before upto"""
    h = h or E.heap
    i, k = Int("i"), Const("k", Val)
    dom, mp = h.sel("D.dom", r), h.sel("D.map", r)
    ins = lambda v: Select(sel, v)
    return [("selected entries", FA([i], Implies(And(0 <= i, i < upto), And(Select(dom, m.key(i)) == ins(m.key(i)), Implies(ins(m.key(i)), Select(mp, m.key(i)) == tokval(m.X, m.VP(i))))), [m.key(i)])),
            ("no other entries", FA([k], Implies(Select(dom, k), And(0 <= m.idx(k), m.idx(k) < upto, m.key(m.idx(k)) == k)), [Select(dom, k)]))]


def select_loop(out):
    def binv(E, L):
        x = E.unit_x
        m, u = x["m"], x["u"]
        h = E.heap
        r = L.ref(out)
        ps = h.sel("S.mem", L.ref("prop_keys"))
        return [("position", upos(E, u.t) == m.KP(L.i)), ("source", And(h.sel("F.#src", u.t) == x["src"].t, h.sel("F.#data", x["src"].t) == m.X, h.sel("F.#base", u.t) == x["base"])),
                ("range", And(L.i <= L.n, L.n == m.n))] + selected(E, m, r, ps, L.i)

    def hints(E, L, where):
        m = E.unit_x["m"]
        E.assume(seen(m.KP(L.i)), seen(m.idx(m.key(L.i))))
    return [LoopSpec(binv, hints=hints)]


for _nm, _out in (("decode_property", "output"), ("decode_texts", "texts")):
    def _mk3(nm, out):
        @unit(P, "%s returns the map, or exactly its selected entries" % nm, [MC + nm], axioms=AX, setup=setup_doc, loops={MC + nm: select_loop(out)})
        def _(E):
            src = sym_ref(E, "RawIO", "src")
            u = sym_ref(E, "Unpacker", "unpacker")
            h = E.heap
            X = E.named(h.sel("F.#data", src.t), "X")
            E.assume(h.sel("F.#src", u.t) == src.t)
            base = E.named(h.sel("F.#base", u.t), "base")
            p = E.fresh("p", I)
            E.assume(upos(E, u.t) == p, p >= 0)
            m = MapAt(E, X, p)
            E.assume(*m.facts())
            if E.choose_n(2) == 0:
                E.unit_x = dict(m=m, u=u, src=src, base=base)
                o = call(E, MC + nm, [u])
                no_exc(E, o)
                E.check("the stored map", E.to_val(o.val) == tokval(X, p))
                cover(E, "all")
            else:
                l = sym_ref(E, "list", "selection")
                n, el = h.sel("L.len", l.t), h.sel("L.el", l.t)
                E.assume(n > 0)
                j = Int("j")
                E.assume(FA([j], Implies(And(0 <= j, j < n), Val.is_vstr(Select(el, j))), [Select(el, j)]))
                sel = E.fresh("sel", ArraySort(Val, B))
                E.unit_x = dict(m=m, u=u, src=src, base=base)
                o = call(E, MC + nm, [u, ("*view", l)])
                no_exc(E, o)
                r = o.val
                E.check("a dictionary", BoolVal(isinstance(r, RefV)))
                dom, mp = E.heap.sel("D.dom", r.t), E.heap.sel("D.map", r.t)
                i, jj, k = E.fresh("i", I), E.fresh("j", I), E.fresh("k", Val)
                E.assume(seen(m.idx(m.key(i))), seenv(Select(el, jj)))
                E.check("a selected entry is returned with its value",
                        Implies(And(0 <= i, i < m.n, 0 <= jj, jj < n, Select(el, jj) == m.key(i)), And(Select(dom, m.key(i)), Select(mp, m.key(i)) == tokval(X, m.VP(i)))))
                E.check("nothing else is returned", Implies(Select(dom, k), And(0 <= m.idx(k), m.idx(k) < m.n, m.key(m.idx(k)) == k,
                                                                              Exists([j], And(0 <= j, j < n, Select(el, j) == k)))))
                cover(E, "selection")
            E.check("reading continues behind the map", upos(E, u.t) == p + wd(X, p))
    _mk3(_nm, _out)


# ---------------------------------------------------------------- the whole document
Dec = Function("Dec", I, I, B)          # Dec(r, j): r is the node list decoded from the section of layer j


def s_offsets(E, a, k):
    x = E.unit_x
    E.check("texts go to the decoded document", And(E.to_val(a[0]) == Val.vref(x["doc"]) if "doc" in x else BoolVal(True), E.to_val(a[1]) == Val.vref(E.ghost["texts"])))
    r = E.new_dict()
    x["offsets"] = r.t
    x.setdefault("doc", a[0].t)
    return r


def s_layer(E, a, k):
    x = E.unit_x
    s = x["s"]
    if len(a) != 5:
        raise Unsupported("field selection")
    u, doc, name, off, ls = a
    name = E.force(name, StrV)
    j = s.tidx(name.t)
    E.assume(seen(j), seen(s.LS(j)))
    E.check("a layer of the document", And(0 <= j, j < s.nt, s.tname(j) == name.t))
    at(E, "a layer is read where it is stored", u, s, s.LS(j))
    E.check("decoded into the document with its offsets and fields", And(E.to_val(doc) == Val.vref(x["doc"]), E.to_val(off) == Val.vref(x["offsets"]), E.to_val(ls) == s.fields(j)))
    advance(E, u, s.LP(j + 1))
    r = RefV(E.alloc("list"), "list")
    E.assume(Dec(r.t, j))
    return r


def s_commit(E, a, k):
    x = E.unit_x
    s = x["s"]
    doc, types, schema, nodes = a
    E.check("committed to the decoded document", E.to_val(doc) == Val.vref(x["doc"]))
    E.check("schema of every layer", schema_dict_ok(E, s, schema.t))
    h = E.heap
    n, el = h.sel("L.len", types.t), h.sel("L.el", types.t)
    j = Int("j")
    if x.get("sel0") is None:
        E.check("all layers, in order", types_list_ok(E, s, types.t))
    else:
        n0, el0 = x["sel0"]
        E.check("the selected layers", And(n == n0, FA([j], Implies(And(0 <= j, j < n), Select(el, j) == Select(el0, j)), [Select(el, j)])))
    i = E.fresh("i", I)
    E.assume(seenv(Select(el, i)))
    key = Select(el, i)
    v = Select(h.sel("D.map", nodes.t), key)
    E.check("nodes of every layer", Implies(And(0 <= i, i < n), And(Select(h.sel("D.dom", nodes.t), key), Val.is_vref(v), Dec(Val.r(v), s.tidx(Val.s(key))))))
    x["committed"] = True
    return NONE


def nodes_loop(handle):
    def binv(E, L):
        x = E.unit_x
        s = x["s"]
        h, e = E.heap, L.entry
        nodes = L.ref("all_nodes")
        j = Int("j")
        el = e.sel("L.el", L.ref("layer_set" if handle else "types"))
        key = Select(el, j)
        v = Select(h.sel("D.map", nodes), key)
        out = [("range", L.i <= L.n),
               ("layers before", FA([j], Implies(And(0 <= j, j < L.i), And(Select(h.sel("D.dom", nodes), key), Val.is_vref(v), Val.r(v) < h.alloc, Dec(Val.r(v), s.tidx(Val.s(key))))), [key]))]
        if handle:
            d = x["d"]
            raw = f(E, d.t, "rawdata", e)
            out += [("handle", And(h.sel("F.#data", raw) == s.X, *[f(E, d.t, a, h) == f(E, d.t, a, e) for a in (
                "rawdata", "_read_state", "MsgpackDocument._prop", "MsgpackDocument._texts", "MsgpackDocument._schema", "MsgpackDocument._layers")]))]
        else:
            u = L.ref("unpacker")
            src = e.sel("F.#src", u)
            out += [("position", And(h.sel("F.#src", u) == src, h.sel("F.#data", src) == s.X, upos(E, u, h) == s.LP(L.i), h.sel("F.#base", u) == e.sel("F.#base", u)))]
        return out

    def hints(E, L, where):
        s = E.unit_x["s"]
        key = Select(L.entry.sel("L.el", L.ref("layer_set" if handle else "types")), L.i)
        E.assume(seen(s.LP(L.i)), seen(s.LS(L.i)), seenv(key), seen(s.tidx(Val.s(key))))
    return [LoopSpec(binv, hints=hints)]


def setup_whole(E):
    setup_parts(E)
    E.summaries[MC + "compute_text_offsets"] = s_offsets
    E.summaries[MC + "decode_layer"] = s_layer
    E.summaries["codec.Codec.commit_layers"] = s_commit


@unit(P, "document() decodes every selected layer from its own section", [MD + "document"], axioms=AX, setup=setup_whole, loops={MD + "document": nodes_loop(True)})
def _(E):
    d, s = sym_doc(E)
    E.unit_x["sel"] = None
    args = []
    if E.choose_n(2):
        l = sym_ref(E, "list", "selection")
        n, el = E.heap.sel("L.len", l.t), E.heap.sel("L.el", l.t)
        j = Int("j")
        ix = s.tidx(Val.s(Select(el, j)))
        E.assume(n > 0, FA([j], Implies(And(0 <= j, j < n), And(Val.is_vstr(Select(el, j)), 0 <= ix, ix < s.nt, s.tname(ix) == Val.s(Select(el, j)))), [Select(el, j)]))
        args = [("*view", l)]
        E.unit_x["sel0"] = (n, el)
    o = call(E, MD + "document", [d] + args)
    no_exc(E, o)
    E.check("the decoded document is returned", E.to_val(o.val) == Val.vref(E.unit_x["doc"]))
    E.check("it was completed", BoolVal(E.unit_x.get("committed", False)))
    E.check("its properties", E.heap.sel("F.Document.props", o.val.t) == E.ghost["properties"])
    check_all(E, "the handle stays right", inv(E, s, d.t))
    cover(E, "selection" if args else "all")


@unit(P, "decode() decodes every layer from the same section", [MC + "decode"], axioms=AX, setup=setup_whole, loops={MC + "decode": nodes_loop(False)})
def _(E):
    X = E.fresh("X", Sq)
    s = Sections(E, X)
    E.assume(*s.facts())
    E.unit_x = dict(s=s, sel=None)
    o = call(E, MC + "decode", [BytV(X)])
    no_exc(E, o)
    E.check("the decoded document is returned", E.to_val(o.val) == Val.vref(E.unit_x["doc"]))
    E.check("it was completed", BoolVal(E.unit_x.get("committed", False)))
    E.check("its properties", E.heap.sel("F.Document.props", o.val.t) == E.ghost["properties"])
    cover(E, "end")
