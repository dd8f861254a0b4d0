"""C12 companion: grouping by span against the interval definition."""
import itertools
from .lib import *
from docria.model import Document, DataTypes as T
from docria.algorithm import group_by_span, is_covered_by


def inter(g, x):
    """half-open intersection; a zero-length span is the position it stands at"""
    if g[0] == g[1]:
        return x[0] <= g[0] < x[1] if x[0] < x[1] else x[0] == g[0]
    if x[0] == x[1]:
        return g[0] <= x[0] < g[1]
    return x[0] < g[1] and g[0] < x[1]


def gen_small(rng, tier):
    iv = [(a, b) for a in range(0, 4) for b in range(a, 4)]
    for g in iv:
        for x in iv:
            for cover in (0, 1):
                yield {"groups": [list(g)], "layers": {"a": [list(x)]}, "cover": cover, "empty": 1}
    for g, h, x, y in itertools.product(iv, repeat=4):
        if rng.random() < (.25 if tier == "quick" else 1):
            yield {"groups": [list(g), list(h)], "layers": {"a": [list(x)], "b": [list(y)]}, "cover": rng.randrange(2), "empty": rng.randrange(2)}


def gen_rand(rng, tier):
    while True:
        w = rng.choice([3, 6, 12, 40, 300])
        big = 1 if rng.random() < .93 else rng.choice([5, 30])

        def spans(n):
            out = []
            for _ in range(n):
                a = rng.randrange(0, w)
                out.append(None if rng.random() < .08 else [a, min(w, a + rng.choice([0, 0, 1, 1, 2, 3, rng.randrange(0, w)]))])
            return out
        yield {"groups": spans(rng.randrange(0, 7 * big)), "layers": {"L%d" % k: spans(rng.randrange(0, 10 * big)) for k in range(rng.randrange(0, 4))}, "cover": rng.randrange(2),
               "empty": rng.randrange(2), "w": w, "names": rng.randrange(2), "gname": rng.choice(["text", "pos"]), "lists": rng.randrange(3), "defaults": rng.random() < .3,
               "unset": rng.random() < .5, "dups": rng.random() < .2}


def run(p):
    doc = Document()
    doc.maintext = "x" * p.get("w", 4)
    gname = p.get("gname", "text")
    names = {k: ("f_" + k if p.get("names") else "text") for k in p["layers"]}
    G = doc.add_layer("groups", **{gname: T.span(), "v": T.int32()})

    def fill(L, name, spans):
        out = []
        for k, s in enumerate(spans):
            f = {"v": 0 if p.get("dups") else k}
            if s is not None:
                f[name] = doc.maintext[s[0]:s[1]]
            node = L.add(**f)
            if s is None and not p.get("unset"):
                node[name] = None
            out.append(node)
        return out
    gn = fill(G, gname, p["groups"])
    ln = {}
    arg = {}
    for k, spans in p["layers"].items():
        L = doc.add_layer(k, **{names[k]: T.span(), "v": T.int32()})
        ln[k] = fill(L, names[k], spans)
        arg[k] = [L, list(L), iter(list(L))][p.get("lists", 0)]
    kw = {}
    if p.get("names") or not p.get("defaults"):
        kw["layer_span_field"] = dict(names)
    if gname != "text":
        kw["group_span_field"] = gname
    if p["cover"]:
        kw["resolution"] = "cover"
    elif not p.get("defaults"):
        kw["resolution"] = "intersect"
    if not (p["empty"] and p.get("defaults")):
        kw["include_empty_groups"] = bool(p["empty"])
    if arg and isinstance(next(iter(arg.values())), type(iter([]))) is False:
        before = {k: [dict(n) for n in v] for k, v in ln.items()}
    else:
        before = None
    got = group_by_span(G if p.get("lists", 0) == 0 else list(G), arg, **kw)
    want = {}
    for k, s in enumerate(p["groups"]):
        if s is None:
            continue
        w = {}
        for L, spans in p["layers"].items():
            w[L] = [j for j, x in enumerate(spans) if x is not None and inter(s, x) and (not p["cover"] or (s[0] <= x[0] and x[1] <= s[1]))]
        if p["empty"] or any(w.values()):
            want[k] = w
    seen = []
    for g, content in got:
        ks = [k for k, n in enumerate(gn) if n is g]
        expect_eq(len(ks), 1, "a group node")
        k = ks[0]
        expect(k not in seen, "group %d once", k)
        seen.append(k)
        expect(k in want, "group %d %s not expected in %s", k, p["groups"][k], p)
        expect_eq(sorted(content), sorted(p["layers"]), "layers of a group")
        for L, nodes in content.items():
            idx = [[j for j, n in enumerate(ln[L]) if n is x] for x in nodes]
            expect(all(len(x) == 1 for x in idx), "nodes of layer %s", L)
            expect_eq(sorted(x[0] for x in idx), want[k][L], "group %s, layer %s with spans %s" % (p["groups"][k], L, p["layers"][L]))
    expect_eq(sorted(seen), sorted(want), "groups of %s" % p)
    st = [p["groups"][k][0] for k in seen]
    expect_eq(st, sorted(st), "groups ordered by start")
    if before is not None:
        for k, v in ln.items():
            expect(all(dict(a) == b for a, b in zip(v, before[k])), "nodes unchanged")
    return bool(p["groups"]) and bool(p["layers"])


def run_cov(p):
    doc = Document()
    doc.maintext = "y" * 6
    a, b = doc.maintext[p["a"][0]:p["a"][1]], doc.maintext[p["b"][0]:p["b"][1]]
    expect_eq(bool(is_covered_by(a, b)), p["b"][0] <= p["a"][0] and p["a"][1] <= p["b"][1], "is_covered_by %s" % p)
    return True


def gen_cov(rng, tier):
    iv = [(a, b) for a in range(0, 5) for b in range(a, 5)]
    for a, b in itertools.product(iv, repeat=2):
        yield {"a": a, "b": b}


FAMILIES = [
    Family("small", gen_small, run, 1.5, "one or two groups x one or two layers of one span, all intervals over 4 positions"),
    Family("random", gen_rand, run, 2.0, "up to 6 groups, 3 layers of up to 9 spans, absent/None spans, custom fields, iterators, cover and empty-group options"),
    Family("covered by", gen_cov, run_cov, 0.3, "all pairs of intervals"),
]
