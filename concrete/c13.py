"""C13 companion: dominant right resolution against the definition."""
import itertools
from .lib import *
from docria.model import Document, DataTypes as T
from docria.algorithm import dominant_right, dominant_right_span


def gen(rng, tier):
    spans = [(a, b) for a in range(0, 5) for b in range(a, 5)]
    for n in range(0, 4):
        for c in itertools.product(spans, repeat=n):
            yield {"segs": [list(x) for x in c]}
    while True:
        n = rng.randrange(2, 14)
        w = rng.choice([4, 8, 20, 60])
        segs = []
        for _ in range(n):
            a = rng.randrange(0, w)
            b = a + rng.choice([0, 1, 2, 3, rng.randrange(0, w)])
            segs.append([a, b])
        yield {"segs": segs}


def en(s):
    return max(s[0], s[1] - 1)


def overlap(a, b):
    return a[0] <= en(b) and b[0] <= en(a)


def check(segs, kept):
    expect_eq(len(set(kept)), len(kept), "each segment at most once for %s" % segs)
    for a, b in zip(kept, kept[1:]):
        expect(en(segs[a]) < segs[b][0], "ordered and disjoint: %s of %s", kept, segs)
    for m in range(len(segs)):
        if m not in kept:
            ok = False
            for d in range(len(segs)):
                if d != m and overlap(segs[m], segs[d]):
                    lm, ld = segs[m][1] - segs[m][0], segs[d][1] - segs[d][0]
                    if ld > lm or (ld == lm and segs[d][0] >= segs[m][0]):
                        ok = True
            expect(ok, "segment %d of %s dropped without a dominating one (kept %s)", m, segs, kept)


def run(p):
    segs = p["segs"]
    data = [object() for _ in segs]
    back = {id(x): k for k, x in enumerate(data)}
    got = dominant_right([(a, b, x) for (a, b), x in zip(segs, data)])
    expect(all(id(x) in back for x in got), "data of given segments")
    check(segs, [back[id(x)] for x in got])
    return len(segs) > 1


def run_dup(p):
    segs = p["segs"]
    s = "s"
    got = dominant_right([(a, b, s) for a, b in segs])
    expect(all(x == s for x in got) and len(got) <= len(segs), "shared data")
    free = [m for m in range(len(segs)) if not any(d != m and overlap(segs[m], segs[d]) for d in range(len(segs)))]
    expect(len(got) >= max(len(free), 1 if segs else 0), "segments lost for %s", segs)
    return len(segs) > 1


def gen_span(rng, tier):
    while True:
        n = rng.randrange(0, 10)
        segs = []
        for _ in range(n):
            a = rng.randrange(0, 12)
            segs.append([a, min(14, a + rng.randrange(0, 5))] if rng.random() < 0.8 else None)
        yield {"segs": segs, "field": rng.choice(["text", "pos"]), "kw": rng.random() < 0.5}


def run_span(p):
    doc = Document()
    doc.maintext = "x" * 14
    L = doc.add_layer("a", **{p["field"]: T.span(), "v": T.int32()})
    nodes = []
    for k, s in enumerate(p["segs"]):
        f = {"v": k}
        if s is not None:
            f[p["field"]] = doc.maintext[s[0]:s[1]]
        nodes.append(L.add(**f))
    src = iter(L) if p["kw"] else L
    got = list(dominant_right_span(src, p["field"]) if p["field"] != "text" else dominant_right_span(src))
    idx = []
    for x in got:
        k = [i for i, y in enumerate(nodes) if y is x]
        expect_eq(len(k), 1, "result is a given node")
        idx.append(k[0])
    expect(all(p["segs"][k] is not None for k in idx), "nodes without the field are not segments")
    have = [k for k, s in enumerate(p["segs"]) if s is not None]
    check([p["segs"][k] for k in have], [have.index(k) for k in idx])
    return len(have) > 1


FAMILIES = [Family("segments", gen, run, 2.0, "all lists of up to 3 segments over 5 positions, random larger ones"),
            Family("shared data", gen, run_dup, 0.5, "equal data for all segments"),
            Family("nodes", gen_span, run_span, 1.0, "layers with and without spans")]
