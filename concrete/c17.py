"""C17 companion: random layers, random predicate expressions, python expressions on the field values as the oracle."""
import warnings
from .lib import *
from docria.model import Document, Node, NodeSpan, NodeList, DataTypes as T

warnings.simplefilter("ignore")
VALS = {"i": [None, -3, 0, 1, 2, 7], "s": [None, "", "a", "ab", "b"], "d": [None, 0.5, -1.0, 2.0], "b": [None, True, False]}
OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
FNS = {"truthy": lambda v: bool(v), "isstr": lambda v: isinstance(v, str), "never": lambda v: False, "always": lambda v: True, "repr2": lambda v: len(repr(v)) % 2 == 0}
FN2 = {"same": lambda a, b: a is None and b is None or str(a) == str(b), "firstnone": lambda a, *r: a is None, "anynone": lambda *a: any(x is None for x in a)}


def gexpr(rng, depth):
    if depth and rng.random() < 0.55:
        o = rng.choice(["and", "or", "not"])
        return [o, gexpr(rng, depth - 1)] + ([gexpr(rng, depth - 1)] if o != "not" else [])
    k = rng.choice(["cmp", "cmp", "cmp", "none", "has", "any", "fn", "multi", "cov", "int", "lay"])
    f = rng.choice(list(VALS))
    if k == "cmp":
        o = rng.choice(list(OPS))
        return ["cmp", f, o, rng.choice([v for v in VALS[f] if v is not None or o in ("==", "!=")])]
    if k in ("none", "has"):
        return [k, f]
    if k == "any":
        return ["any", f, [rng.choice(VALS[f]) for _ in range(rng.randrange(0, 4))]]
    if k == "fn":
        return ["fn", f, rng.choice(list(FNS))]
    if k == "multi":
        return ["multi", [rng.choice(list(VALS)) for _ in range(2 if rng.random() < .7 else 3)], rng.choice(list(FN2)[1:])] if rng.random() < .6 else \
               ["multi", [rng.choice(list(VALS)) for _ in range(2)], "same"]
    if k in ("cov", "int"):
        a = rng.randrange(0, 20)
        return [k, a, a + rng.randrange(0, 8)]
    return ["lay", rng.choice(["span", "noi"])]


def build_pred(C, e):
    k = e[0]
    if k == "and":
        return build_pred(C, e[1]) & build_pred(C, e[2])
    if k == "or":
        return build_pred(C, e[1]) | build_pred(C, e[2])
    if k == "not":
        return ~build_pred(C, e[1])
    if k == "cmp":
        return OPS[e[2]](C[e[1]], e[3])
    if k == "none":
        return C[e[1]].is_none()
    if k == "has":
        return C[e[1]].has_value()
    if k == "any":
        return C[e[1]].is_any(*e[2])
    if k == "fn":
        return C[e[1]].filter(FNS[e[2]])
    if k == "multi":
        return C0.filter(*e[1], fn=FN2[e[2]])
    if k == "cov":
        return C["t"].covered_by(e[1], e[2])
    if k == "int":
        return C["t"].intersected_by(e[1], e[2])
    if k == "lay":
        if e[1] == "span":
            return C["t"].filter(lambda s: s.start % 2 == 0)
        return C["i"].filter(lambda v: not v)


C0 = None


def ev(n, e):
    k = e[0]
    if k == "and":
        return bool(ev(n, e[1]) and ev(n, e[2]))
    if k == "or":
        return bool(ev(n, e[1]) or ev(n, e[2]))
    if k == "not":
        return not ev(n, e[1])
    if k == "cmp":
        return bool(OPS[e[2]](n.get(e[1]), e[3]))
    if k == "none":
        return n.get(e[1]) is None
    if k == "has":
        return n.get(e[1]) is not None
    if k == "any":
        return any(n.get(e[1]) == x and not (n.get(e[1]) is None and x is not None) for x in e[2])
    if k == "fn":
        return bool(FNS[e[2]](n.get(e[1])))
    if k == "multi":
        return bool(FN2[e[2]](*[n.get(f) for f in e[1]]))
    if k == "cov":
        return e[1] <= n["t"].start and n["t"].stop <= e[2]
    if k == "int":
        return e[1] < n["t"].stop and n["t"].start < e[2]
    if k == "lay":
        return n["t"].start % 2 == 0 if e[1] == "span" else not n.get("i")


def oracle(nodes, e):
    out = []
    for n in nodes:
        if ev(n, e):
            out.append(n)
    return out


def gnode(rng):
    d = {}
    for f in VALS:
        if rng.random() < 0.85:
            d[f] = rng.choice(VALS[f])
    a = rng.randrange(0, 18)
    d["t"] = [a, a + rng.randrange(1, 5)]
    return d


def gen(rng, tier):
    while True:
        n = rng.randrange(0, 14)
        yield {"nodes": [gnode(rng) for _ in range(n)], "gone": [k for k in range(n) if rng.random() < .3], "via": rng.choice(["layer", "layer", "list", "query", "span"]),
               "e": gexpr(rng, rng.randrange(0, 4)), "e2": gexpr(rng, rng.randrange(0, 2)),
               "edit": [rng.choice(["drop", "set", "add"]), rng.randrange(0, 20), gnode(rng)]}


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def mk(doc, d):
    d = dict(d)
    if "t" in d:
        d["t"] = doc.maintext[d["t"][0]:d["t"][1]]
    return d


def addn(L, d):
    n = Node(**d)
    L.add(n)
    return n


def outcome(fn):
    try:
        return fn(), None
    except (TypeError, AttributeError) as x:
        return None, type(x)


def run(p):
    global C0
    doc = Document()
    doc.maintext = "The quick brown fox jumps"
    L = doc.add_layer("a", i=T.int32(), s=T.string, d=T.float64, b=T.bool, t=T.span())
    C0 = L
    nodes = [addn(L, mk(doc, d)) for d in p["nodes"]]
    for k in p["gone"]:
        nodes[k].detach()
    alive = [n for k, n in enumerate(nodes) if k not in p["gone"]]
    if p["via"] == "layer":
        C = L
    elif p["via"] == "list":
        alive = alive[::-1] + alive[:2]
        if not alive:
            return False
        C = NodeList(alive, fieldtypes=L.fieldtypes)
    elif p["via"] == "query":
        C = L[lambda n: True]
    else:
        if len(alive) < 2:
            return False
        alive = alive[:-1]
        C = NodeSpan(alive[0], alive[-1])
    for f in list(VALS) + ["t"]:
        expect(same(list(C[f]), [n.get(f) for n in alive]), "field values of %s via %s", f, p["via"])
        expect(same(C[f].to_list(), [n.get(f) for n in alive]), "field to_list of %s", f)
        expect_eq(len(C[f]), len(alive), "len of field")
    want, err = outcome(lambda: oracle(alive, p["e"]))
    q, err2 = outcome(lambda: C[build_pred(C, p["e"])])
    expect(err == err2, "query of %s over %s nodes: raises %s, expression raises %s", p["e"], len(alive), err2, err)
    if err:
        return True
    expect(same(q, want), "query %s via %s", p["e"], p["via"])
    expect_eq(len(q), len(want), "len of query")
    expect(same(q, want), "second iteration of a query")
    for f in ("i", "t"):
        expect(same(list(q[f]), [n.get(f) for n in want]), "field of a query")
    w2, err = outcome(lambda: oracle(want, p["e2"]))
    q2, err2 = outcome(lambda: q[build_pred(q, p["e2"])])
    expect(err == err2, "query of a query raises %s, expression raises %s", err2, err)
    if not err:
        expect(same(q2, w2), "query of a query %s / %s", p["e"], p["e2"])
    # edits, then refresh
    if p["via"] == "layer":
        op, k, d = p["edit"]
        if op == "drop" and alive:
            alive.pop(k % len(alive)).detach()
        elif op == "set" and alive:
            alive[k % len(alive)].update(mk(doc, d))
        elif op == "add":
            alive.append(addn(L, mk(doc, d)))
        expect(same(q.result if hasattr(q, "result") else q, want), "query result changed before a refresh")
        want3, err = outcome(lambda: oracle(alive, p["e"]))
        r, err2 = outcome(lambda: q.update())
        expect(err == err2, "refresh raises %s, expression raises %s", err2, err)
        if not err:
            expect(same(q, want3), "refreshed query %s after %s", p["e"], p["edit"])
            expect_eq(len(q), len(want3), "len of refreshed query")
    return len(alive) > 0


FAMILIES = [Family("queries", gen, run, 1.0, "random layers up to 13 nodes with gaps, predicate expressions up to depth 3")]
