"""C06 companion: text segmentation at span ends."""
import itertools
from .lib import *
from .docs import *
from docria.codec import MsgpackCodec, Codec
from docria.model import Document, DataTypes as T


def check(doc):
    want = {}
    for t in doc.texts:
        want[t] = {0, len(str(doc.text[t]))}
    for L in doc.layers.values():
        for f, ty in L.schema.fields.items():
            if ty.typename.name == "SPAN":
                for n in L:
                    if n.get(f) is not None:
                        want[ty.options["context"]] |= {n[f].start, n[f].stop}
    for rnd in range(2):
        maps = doc.compile()
        expect_eq(sorted(maps), sorted(want), "texts")
        for t, cuts in want.items():
            m, offs = maps[t]
            expect_eq(list(offs), sorted(cuts), "cuts of text %s" % t)
            expect_eq(dict(m), {c: k for k, c in enumerate(sorted(cuts))}, "ranks")
            s = str(doc.text[t])
            segs = doc.text[t].compile(offs)
            expect_eq("".join(segs), s, "segments join to the text")
            expect_eq(segs, [s[a:b] for a, b in zip(offs, offs[1:])], "segments")
            acc = 0
            for k, c in enumerate(offs):
                expect_eq(acc, c, "length of the first %d segments" % k)
                acc += len(segs[k]) if k < len(segs) else 0
    d2 = Document()
    texts = {t: doc.text[t].compile(maps[t][1]) for t in want}
    off2 = MsgpackCodec.compute_text_offsets(d2, texts)
    for t in want:
        expect_eq(dict(off2[t]), {k: c for k, c in enumerate(sorted(want[t]))}, "decoded offsets of %s" % t)
        expect_eq(str(d2.text[t]), str(doc.text[t]), "decoded text")
    enc = Codec.encode(doc, None)[0]
    expect_eq(enc, texts, "stored segments")
    return True


def gen(rng, tier):
    while True:
        yield {"seed": rng.randrange(1 << 40), "size": rng.choice([.3, 1, 3])}


def run(p):
    doc = build(p["seed"], p["size"], kinds=["span", "i32", "span"])
    check(doc)
    return bool(doc.texts)


def gen_small(rng, tier):
    for n in range(0, 5):
        iv = [(a, b) for a in range(n + 1) for b in range(a, n + 1)]
        for k in range(0, 3):
            for c in itertools.product(iv, repeat=k):
                yield {"n": n, "spans": c, "drop": 0}
                if k:
                    yield {"n": n, "spans": c, "drop": 1}


def run_small(p):
    doc = Document()
    doc.maintext = "ab日\U0001F600e"[:p["n"]]
    A = doc.add_layer("a", text=T.span())
    B = doc.add_layer("b", pos=T.span(), text=T.span())
    nodes = []
    for k, (x, y) in enumerate(p["spans"]):
        nodes.append(A.add(text=doc.maintext[x:y]) if k % 2 == 0 else B.add(**{("pos" if x else "text"): doc.maintext[x:y]}))
    if p["drop"]:
        nodes[0].collection.remove(nodes[0])
    check(doc)
    return True


FAMILIES = [Family("small", gen_small, run_small, 1.0, "texts up to 4 characters with up to 2 spans, one removed"), Family("documents", gen, run, 1.0, "random documents with several texts and span fields")]
