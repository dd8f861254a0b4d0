"""C18 companion: defaults, type inference and type merging against independent oracles."""
import warnings
from .lib import *
from docria.model import Document, Node, NodeSpan, NodeList, DataTypes as T, DataTypeEnum as E, NodeLayerCollection, NodeLayerSchema

warnings.simplefilter("ignore")
# name -> (declared type maker, default)
DEFS = {
    "i32": lambda: (T.int32, 0), "i32f": lambda: (T.int32(), 0), "i32none": lambda: (T.int32(None), None), "i32seven": lambda: (T.int32(7), 7), "i32neg": lambda: (T.int32(-1), -1), "i32zero": lambda: (T.int32(0), 0),
    "i64": lambda: (T.int64(), 0), "i64none": lambda: (T.int64(None), None), "i64big": lambda: (T.int64(2 ** 40), 2 ** 40), "i64one": lambda: (T.int64(1), 1),
    "f": lambda: (T.float64(), 0.0), "fnone": lambda: (T.float64(None), None), "fhalf": lambda: (T.float64(0.5), 0.5),
    "s": lambda: (T.string(), ""), "snone": lambda: (T.string(None), None), "sx": lambda: (T.string("x y"), "x y"),
    "b": lambda: (T.bool(), False), "bnone": lambda: (T.bool(None), None), "btrue": lambda: (T.bool(True), True), "bfalse": lambda: (T.bool(False), False),
    "bin": lambda: (T.binary, None), "span": lambda: (T.span("main"), None), "ref": lambda: (T.noderef("L"), None), "refs": lambda: (T.noderef_many("L"), None), "ns": lambda: (T.nodespan("L"), None),
}
VALUE = {"i": lambda r: r.choice([0, 1, -5, 2 ** 31 - 1, -2 ** 31]), "f": lambda r: r.choice([0.0, 1.5, -2.0]), "s": lambda r: r.choice(["", "a", "xx"]), "b": lambda r: r.choice([True, False])}


def kindof(k):
    return "b" if k in ("b", "bnone", "btrue", "bfalse") else "i" if k[0] == "i" else "f" if k[0] == "f" else "s" if k in ("s", "snone", "sx") else None


MISSING = "<missing>"


def same(a, b):
    return type(a) is type(b) and a == b


def gen_defaults(rng, tier):
    names = list(DEFS)
    for k in names:
        yield {"fields": [k], "nodes": [[["kw"], {}], [["pre"], {}]], "late": None, "fill": True, "full": True}
    while True:
        fs = rng.sample(names, rng.randrange(0, 7))
        nodes = []
        for _ in range(rng.randrange(1, 6)):
            nodes.append([[rng.choice(["kw", "bulk", "bulk", "pre"])], {f: VALUE[kindof(f)](rng) for f in fs if kindof(f) and rng.random() < .5}])
        late = rng.choice([None, None] + [n for n in names if n not in fs])
        yield {"fields": fs, "nodes": nodes, "late": late, "fill": rng.random() < .7, "full": rng.random() < .7, "removed": rng.choice(fs) if fs and rng.random() < .3 else None}


def run_defaults(p):
    d = Document()
    d.add_text("main", "some text here")
    decl = {f: DEFS[f]() for f in p["fields"]}
    L = d.add_layer("L", **{f: t for f, (t, _) in decl.items()})
    dflt = {f: v for f, (_, v) in decl.items() if v is not None}
    if p.get("late"):
        t, v = DEFS[p["late"]]()
        L.add_field(p["late"], t() if callable(t) else t, init_with_default=False)
        if v is not None:
            dflt[p["late"]] = v
    if p.get("removed"):
        L.remove_field(p["removed"])
        dflt.pop(p["removed"], None)
    allf = list(p["fields"]) + ([p["late"]] if p.get("late") else [])
    drop = p.get("removed")
    live = [f for f in allf if f != drop]
    pend, want = [], []
    for (how,), vals in p["nodes"]:
        vals = {f: v for f, v in vals.items() if f != drop}
        if how == "kw":
            n = L.add(**vals)
            want.append((n, vals, True))
        elif how == "pre":
            n = Node(dict(vals))
            L.add(n)
            want.append((n, vals, False))
        else:
            n = Node(dict(vals))
            pend.append((n, vals))
    if pend:
        L.add_many([n for n, _ in pend], default_fill=p["fill"], full_validation=p["full"])
        want += [(n, v, p["fill"]) for n, v in pend]
    for n, vals, filled in want:
        for f in live:
            exp = vals.get(f, dflt.get(f, MISSING) if filled else MISSING)
            got = n[f] if f in n else MISSING
            expect(same(got, exp), "field %s of a node given %r (default filling %s): got %r expected %r", f, vals, filled, got, exp)
        expect(set(n.keys()) <= set(live), "unexpected fields %r", sorted(n.keys()))
    # a node created now does not share state with the defaults
    n1 = L.add()
    for f in list(n1.keys()):
        n1[f] = None
    n2 = L.add()
    expect_eq({f: n2[f] for f in n2.keys()}, {f: dflt[f] for f in live if f in dflt}, "defaults after a node was modified")
    return bool(dflt)


# ---------------------------------------------------------------- inference
def mkdoc():
    d = Document()
    t = d.add_text("main", "The quick brown fox")
    d.add_text("other", "second text")
    L = d.add_layer("L", ref=T.noderef("L"))
    M = d.add_layer("M", ref=T.noderef("L"))
    for k in range(6):
        L.add()
        M.add()
    return d


def value(d, v):
    k = v[0]
    if k == "v":
        return v[1]
    if k == "flt":
        return float(v[1])
    if k == "bin":
        return bytes(v[1])
    if k == "span":
        return d.text[v[1]][v[2]:v[3]]
    if k == "node":
        return list(d[v[1]])[v[2]]
    if k == "ns":
        ns = list(d[v[1]])
        return NodeSpan(ns[v[2]], ns[v[3]])
    if k == "nodes":
        return [list(d[a])[b] for a, b in v[1]]
    if k == "nodelist":
        return NodeList([list(d[a])[b] for a, b in v[1]])


def gen_typeof(rng, tier):
    fixed = [["v", ""], ["v", "abc"], ["v", True], ["v", False], ["v", 0], ["v", 1], ["v", -1], ["v", 2 ** 31 - 1], ["v", 2 ** 31], ["v", -2 ** 31], ["v", -2 ** 31 - 1], ["v", 2 ** 63 - 1], ["v", -2 ** 63],
             ["flt", 0.0], ["flt", 1.5], ["flt", "inf"], ["bin", []], ["bin", [0, 255]], ["span", "main", 0, 3], ["span", "other", 2, 2], ["node", "L", 0], ["node", "M", 3], ["ns", "L", 0, 0], ["ns", "M", 1, 4],
             ["nodes", [["L", 0]]], ["nodes", [["L", 2], ["L", 0], ["L", 2]]], ["nodes", [["M", 1], ["M", 5]]], ["nodelist", [["L", 1], ["L", 3]]], ["nodes", [["L", 0], ["M", 0]]]]
    for v in fixed:
        for cmp in (None, "i32", "i64", "refs"):
            yield {"v": v, "cmp": cmp}
    while True:
        r = rng.random()
        if r < .3:
            v = ["v", rng.choice([1, -1]) * rng.randrange(2 ** rng.randrange(1, 63))]
        elif r < .6:
            l = rng.choice("LM")
            v = ["nodes", [[l if rng.random() < .95 else rng.choice("LM"), rng.randrange(6)] for _ in range(rng.randrange(1, 6))]]
        elif r < .8:
            a = sorted(rng.randrange(6) for _ in range(2))
            v = ["ns", rng.choice("LM")] + a
        else:
            a = sorted(rng.randrange(12) for _ in range(2))
            v = ["span", rng.choice(["main", "other"])] + [min(x, 11) for x in a]
        yield {"v": v, "cmp": rng.choice([None, "i32", "i64", "refs"])}


CMP = {"i32": lambda: T.int32(), "i64": lambda: T.int64(), "refs": lambda: T.noderef_many("L")}
ENUMOF = {str: E.STRING, bool: E.BOOL, float: E.F64, bytes: E.BINARY}


def run_typeof(p):
    d = mkdoc()
    v = value(d, p["v"])
    ct = CMP[p["cmp"]]() if p["cmp"] else None
    k = p["v"][0]
    if k in ("nodes", "nodelist") and len({a for a, _ in p["v"][1]}) > 1:
        raises((ValueError,), lambda: T.typeof(v, ct), "type of nodes of two layers")
        return True
    t = T.typeof(v, ct)
    expect(t.is_valid(v), "inferred type %r does not accept %r", t, v)
    if type(v) in ENUMOF:
        expect_eq(t.typename, ENUMOF[type(v)], "type of %s" % short(v))
    elif type(v) is int:
        exp = E.I32 if p["cmp"] == "i32" and -2 ** 31 <= v < 2 ** 31 else E.I64
        expect_eq(t.typename, exp, "type of %d compared to %s" % (v, p["cmp"]))
    else:
        expect_eq(t.typename, {"span": E.SPAN, "node": E.NODEREF, "ns": E.NODEREF_SPAN, "nodes": E.NODEREF_MANY, "nodelist": E.NODEREF_MANY}[k], "type of %s" % k)
        # storable under that type in a layer, and nothing of another layer or text is
        N = d.add_layer("N", f=t)
        N.add(f=v)
        other = {"span": ["span", "other" if p["v"][1] == "main" else "main", 0, 1], "node": ["node", "M" if p["v"][1] == "L" else "L", 0],
                 "ns": ["ns", "M" if p["v"][1] == "L" else "L", 0, 1]}.get(k) or ["nodes", [["M" if p["v"][1][0][0] == "L" else "L", 0]]]
        expect(not t.is_valid(value(d, other)), "inferred type %r also accepts %r", t, value(d, other))
    return True


# ---------------------------------------------------------------- merging
MT = {"b": lambda: T.bool(), "bt": lambda: T.bool(True), "i32": lambda: T.int32(), "i32n": lambda: T.int32(None), "i64": lambda: T.int64(), "i64s": lambda: T.int64(7), "f": lambda: T.float64(), "fn": lambda: T.float64(None),
      "s": lambda: T.string(), "sx": lambda: T.string("x"), "bin": lambda: T.binary, "refL": lambda: T.noderef("L0"), "span": lambda: T.span("main")}
ORDER = {E.BOOL: 0, E.I32: 1, E.I64: 2, E.F64: 3}


def gen_merge(rng, tier):
    names = list(MT)
    for a in names:
        for b in names:
            yield {"layers": [{"f": a}, {"f": b}], "order": [0, 1]}
    for a in ("b", "i32", "i64", "f", "s"):
        for b in ("b", "i32", "i64", "f"):
            for c in ("b", "i32", "i64", "f", "bin"):
                yield {"layers": [{"f": a, "g": c}, {"f": b}, {"f": c, "g": "i32"}], "order": [2, 0, 1, 0]}
    while True:
        nl = rng.randrange(1, 5)
        num = rng.random() < .7
        pool = [x for x in names if MT[x]().typename in ORDER] if num else names
        yield {"layers": [{f: rng.choice(pool) for f in rng.sample("fgh", rng.randrange(0, 4))} for _ in range(nl)], "order": [rng.randrange(nl) for _ in range(rng.randrange(0, 7))]}


def run_merge(p):
    d = Document()
    d.add_text("main", "text")
    Ls = [d.add_layer("L%d" % i, **{f: MT[t]() for f, t in l.items()}) for i, l in enumerate(p["layers"])]
    nodes = [Ls[i].add() for i in p["order"]]
    used = sorted(set(p["order"]))
    want, bad = {}, False
    for f in "fgh":
        ts = [MT[p["layers"][i][f]]().typename for i in used if f in p["layers"][i]]
        if not ts:
            continue
        if len(set(ts)) == 1:
            want[f] = ts[0]
        elif all(t in ORDER for t in ts):
            want[f] = max(ts, key=ORDER.get)
        else:
            bad = True
    if bad:
        raises((ValueError, AssertionError), lambda: NodeList(nodes), "merging incompatible types %r" % p["layers"])
        return True
    nl = NodeList(nodes)
    expect(list(nl) == nodes and len(nl) == len(nodes), "nodes of the list")
    expect_eq({f: t.typename for f, t in nl.fieldtypes.items()}, want, "merged types")
    for i in used:        # a merge does not touch the schemas
        expect_eq({f: t.typename for f, t in Ls[i].schema.fields.items()}, {f: MT[t]().typename for f, t in p["layers"][i].items()}, "layer schema after a merge")
    return len(used) > 1


def gen_pairs(rng, tier):
    ks = ["b", "i32", "i64", "f", "s", "bin", "refL", "span"]
    for a in ks:
        for b in ks:
            yield {"a": a, "b": b}


def run_pairs(p):
    a, b = MT[p["a"]](), MT[p["b"]]()
    num = a.typename in ORDER and b.typename in ORDER
    expect_eq(bool(a.cast_up_possible(b)), num or a.typename == b.typename, "cast_up_possible(%s, %s)" % (p["a"], p["b"]))
    if num:
        r = a.cast_up(b)
        expect_eq(r.typename, max((a.typename, b.typename), key=ORDER.get), "cast_up(%s, %s)" % (p["a"], p["b"]))
    return True


FAMILIES = [
    Family("defaults", gen_defaults, run_defaults, 2, "layers with random defaults; keyword add, bulk add, plain add; fields added or removed in between"),
    Family("typeof", gen_typeof, run_typeof, 1, "inferred type accepts the value, has the expected kind and rejects a value of another layer or text"),
    Family("pairs", gen_pairs, run_pairs, .3, "all pairs of types"),
    Family("merge", gen_merge, run_merge, 1.5, "node lists over several layers: widest numeric type or rejection"),
]
