"""C14 companion: span translation against the definition (position -> mapping interval -> shift)."""
import itertools
from .lib import *
from docria.model import Document, DataTypes as T
from docria.algorithm import span_translate

N_SRC, N_TGT = 12, 60


def make(p):
    doc = Document()
    doc.add_text("src", "".join(chr(97 + k % 26) for k in range(p.get("src", N_SRC))))
    doc.add_text("tgt", "".join(chr(65 + k % 26) for k in range(p.get("tgt", N_TGT))))
    swap = p.get("same")
    m = doc.add_layer("map", t=T.span("tgt"), s=T.span("src"))
    r = doc.add_layer("items", a=T.span("src"), b=T.span("tgt"), w=T.string)
    src, tgt = doc.text["src"], doc.text["tgt"]
    for a, b, t in p["map"]:
        m.add(s=src[a:b], t=tgt[t:t + max(b - a, p.get("tlen", b - a))])
    nodes = []
    for k, (a, b) in enumerate(p["spans"]):
        f = {"a": src[a:b], "w": "w%d" % k}
        if k in p.get("done", []):
            f["b"] = tgt[3:5]
        nodes.append(r.add(**f))
    for k in p.get("drop", []):
        if k < len(nodes):
            r.remove(nodes[k])
    return doc, m, r, nodes


def want(p, k):
    """expected (lo, hi), None (must be rejected) or "any" (shifts are inconsistent with the text)"""
    a, b = p["spans"][k]
    out = []
    for c in (a, b - 1):
        inside = [t - x for x, y, t in p["map"] if x <= c < y]
        if not inside:
            return None
        out.append(c + inside[0])
    lo, hi = out[0], out[1] + 1
    return (lo, hi) if 0 <= lo <= hi <= p.get("tgt", N_TGT) else "any"


def run(p):
    doc, m, r, nodes = make(p)
    solid = [x for x in p["map"] if x[0] < x[1]]
    overlapping = any(x[0] < y[1] and y[0] < x[1] for x, y in itertools.combinations(solid, 2))
    todo = [k for k in range(len(nodes)) if k not in p.get("done", []) and k not in p.get("drop", [])]
    exp = {k: want(p, k) for k in todo}
    before = [(k, n["a"].start, n["a"].stop, n["w"], "b" in n and (n["b"].start, n["b"].stop)) for k, n in enumerate(nodes)]
    mb = [(x["s"].start, x["s"].stop, x["t"].start, x["t"].stop) for x in m]

    def go():
        span_translate(doc, "map", ("t", "s"), "items", ("a", "b"))
    if any(e == "any" for e in exp.values()):
        return False
    if overlapping or any(e is None for e in exp.values()):
        raises((AssertionError, ValueError), go, "overlapping mapping or gap %s %s" % (p["map"], p["spans"]))
        for k in range(len(nodes)):
            if k not in todo:
                expect_eq(("b" in nodes[k]) and (nodes[k]["b"].start, nodes[k]["b"].stop), before[k][4], "untouched node")
        return True
    go()
    for k, n in enumerate(nodes):
        expect_eq((n["a"].start, n["a"].stop, n["w"]), before[k][1:4], "source span unchanged")
        if k in todo:
            expect("b" in n, "node %d of %s is translated", k, p)
            b = n["b"]
            expect_eq((b.start, b.stop), exp[k], "span %s under %s" % (p["spans"][k], p["map"]))
            expect(b.text is doc.text["tgt"], "refers to the target text")
            expect_eq(str(b), str(doc.text["tgt"])[exp[k][0]:exp[k][1]], "string")
        else:
            expect_eq("b" in n and (n["b"].start, n["b"].stop), before[k][4], "not translated again")
    expect_eq([(x["s"].start, x["s"].stop, x["t"].start, x["t"].stop) for x in m], mb, "mapping unchanged")
    again = [(n["b"].start, n["b"].stop) if "b" in n else None for n in nodes]
    go()
    expect_eq([(n["b"].start, n["b"].stop) if "b" in n else None for n in nodes], again, "second run changes nothing")
    return True


def gen_small(rng, tier):
    iv = [(a, b) for a in range(0, 5) for b in range(a, 5)]
    for ms in itertools.chain([()], ((x,) for x in iv), itertools.product(iv, repeat=2)):
        for s in [(0, 1), (0, 2), (1, 2), (1, 4), (2, 3), (2, 4), (0, 4)]:
            yield {"map": [[a, b, 10 * (k + 1)] for k, (a, b) in enumerate(ms)], "spans": [list(s)]}


def gen_rand(rng, tier):
    while True:
        n = rng.choice([6, 12, 20])
        cuts = sorted(rng.sample(range(n + 1), rng.randrange(2, min(n, 7))))
        ivs = [[a, b] for a, b in zip(cuts, cuts[1:])]
        if rng.random() < .3:
            ivs = [x for x in ivs if rng.random() < .8] or ivs
        t, out = rng.randrange(0, 5), []
        for a, b in ivs:
            out.append([a, b, t])
            t += (b - a) + rng.choice([0, 0, 1, 3])
        if rng.random() < .2 and out:
            x = rng.randrange(0, n)
            out.append([x, x + rng.choice([0, 0, 1, 2]), 40])
        if rng.random() < .2:
            x = rng.randrange(0, n)
            out.append([x, x, 20])
        rng.shuffle(out)
        out = [x for x in out if x[1] <= n]
        spans = []
        for _ in range(rng.randrange(1, 8)):
            if rng.random() < .8 and out:
                i, j = sorted([rng.choice(out), rng.choice(out)])
                if i[0] < i[1] and j[0] < j[1]:
                    spans.append([rng.randrange(i[0], i[1]), rng.randrange(j[0], j[1]) + 1])
                    spans[-1].sort()
                    if spans[-1][0] == spans[-1][1]:
                        spans.pop()
                    continue
            a = rng.randrange(0, n)
            spans.append([a, rng.randrange(a + 1, n + 1)])
        k = len(spans)
        yield {"map": out, "spans": spans, "src": n, "tgt": 80, "done": [x for x in range(k) if rng.random() < .15], "drop": [x for x in range(k) if rng.random() < .1],
               "tlen": rng.choice([0, 0, 0, 2])}


def run_types(p):
    doc = Document()
    doc.add_text("src", "abcdef")
    doc.add_text("tgt", "ABCDEF")
    ty = [T.span("tgt"), T.span("src"), T.span("src"), T.span("tgt")]
    ty[p["bad"]] = T.int32 if p["t"] == 0 else T.string
    doc.add_layer("map", t=ty[0], s=ty[1])
    doc.add_layer("items", a=ty[2], b=ty[3])
    raises(AssertionError, lambda: span_translate(doc, "map", ("t", "s"), "items", ("a", "b")), "field %d is not a span" % p["bad"])
    return True


FAMILIES = [
    Family("small", gen_small, run, 1.0, "up to two mapping intervals within 5 positions (empty ones included) x one span"),
    Family("random", gen_rand, run, 1.5, "up to 8 shuffled mapping intervals with gaps, overlaps, empty intervals, up to 7 spans, some translated, some removed"),
    Family("types", lambda rng, tier: ({"bad": b, "t": t} for b in range(4) for t in range(2)), run_types, 0.1, "a field that is no span"),
]
