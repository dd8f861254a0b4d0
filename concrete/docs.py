"""Random documents and their canonical form (an independent description of everything a document holds)."""
import random
from docria.model import Document, DataTypes as T, Node, NodeSpan, TextSpan, DataTypeEnum, NodeList

WORDS = ["", "a", "b", "åäö", "日本語", "\U0001F600", "x\ny", "\u0000", "tab\t", "'\"<&>", "longer word " * 3]


def rtext(r, n):
    return "".join(r.choice("abc åäö\n日\U0001F600.") for _ in range(n))


def rprop(r, d=0):
    k = r.randrange(8 if d < 2 else 6)
    return [None, True, r.choice([r.randrange(-2**40, 2**40), 2**53 + 1, 2**63 - 1, -2**63]), r.choice([0.5, -1e300, 3.0, -0.0, 0.1, 1e16 + 2]), r.choice(WORDS), r.randrange(-40, 300),
            [rprop(r, d + 1) for _ in range(r.randrange(3))] if k == 6 else None, {r.choice(WORDS): rprop(r, d + 1) for _ in range(r.randrange(3))} if k == 7 else None][k]


KINDS = ["i32", "i64", "f64", "bool", "str", "bin", "ref", "many", "nspan", "span"]


def build(seed, size=1.0, json_ok=True, kinds=None, removed=True, sync=False):
    """a valid random document"""
    r = random.Random("doc/%s" % seed)
    big = random.Random("big/%s" % seed).random() < .05 and size >= 1
    doc = Document()
    for _ in range(r.randrange(4)):
        doc.props[r.choice(WORDS + ["k1", "k2", "id"])] = rprop(r)
    texts = r.sample(["main", "alt", "t3"], r.randrange(0, 3))
    for t in texts:
        doc.add_text(t, rtext(r, r.choice([0, 1, 3, 12, 40] if not big else [300, 1000, 70000])))
    names = r.sample(["tok", "sent", "ent", "empty"], r.randrange(0, 5))
    if big and r.random() < .3:
        names += ["l%d" % k for k in range(18)]
        r.shuffle(names)
    kinds = [k for k in (kinds or KINDS) if (json_ok is False or k != "bin") and (texts or k != "span")] or ["i32"]
    spec = {}
    for nm in names:
        fs = {}
        for _ in range(r.randrange(0, 5) if not big or r.random() < .7 else 18):
            k = r.choice(kinds)
            fs["f%d%s" % (len(fs), r.choice(["", "å", " x"]))] = (k, r.choice(names) if k in ("ref", "many", "nspan") else r.choice(texts) if k == "span" else r.randrange(3))
        if texts and "span" in kinds and r.random() < .4:
            fs["text"] = ("span", r.choice(texts))
        spec[nm] = fs
    D = {"i32": (None, 7, 0), "i64": (None, -5, 0), "f64": (None, 2.5, 0.0), "bool": (None, True, False), "str": (None, "dflt", "")}

    def dtype(k, a):
        if k in D:
            return {"i32": T.int32, "i64": T.int64, "f64": T.float64, "bool": T.bool, "str": T.string}[k](D[k][a])
        return {"bin": lambda: T.binary, "ref": lambda: T.noderef(a), "many": lambda: T.noderef_many(a), "nspan": lambda: T.nodespan(a), "span": lambda: T.span(a)}[k]()
    from docria.model import NodeLayerSchema
    layers = {nm: doc.add_layer(nm, **{f: dtype(k, a) for f, (k, a) in fs.items()}) for nm, fs in spec.items()}
    for nm in names:
        n = 0 if nm == "empty" else r.choice([0, 1, 2, 5, int(8 * size), int(20 * size)] if not big or len(names) > 5 else [17, 40, 300])
        layers[nm].add_many([Node() for _ in range(n)], default_fill=False)
    if removed:
        for nm in names:
            for n in list(layers[nm]):
                if r.random() < .15:
                    layers[nm].remove(n)
    live = {nm: list(layers[nm]) for nm in names}
    for nm in names:
        for n in live[nm]:
            for f, (k, a) in spec[nm].items():
                if r.random() < .2:
                    continue
                v = value(r, doc, live, k, a)
                if v is not None:
                    n[f] = v
    return doc


def value(r, doc, live, k, a):
    if k == "i32":
        return r.choice([0, 1, -1, 2**31 - 1, -2**31, 255, 256, 65535, 65536, -32769, r.randrange(-500, 500)])
    if k == "i64":
        return r.choice([0, 2**63 - 1, -2**63, 2**32, 2**53 + 1, -2**53 - 1, 2**31, 10**15 + 7, r.randrange(-500, 500), r.getrandbits(62)])
    if k == "f64":
        return r.choice([0.0, -0.0, -0.5, 1e308, 5e-324, 3.25, 0.1, 1 / 3, 1e16 + 2, float(2**53), -7.0, float("inf"), float("nan"), r.random()])
    if k == "bool":
        return r.random() < .5
    if k == "str":
        return r.choice(WORDS) if r.random() < .97 else rtext(r, r.choice([256, 300, 70000]))
    if k == "bin":
        return r.choice([b"", b"\x00\xff", b"abc", b"abc ", b"\xc3\xa5", bytes(range(256))])
    if k == "span":
        t = doc.text[a]
        n = len(str(t))
        x = r.randrange(0, n + 1)
        return t[x:r.randrange(x, n + 1)]
    ns = live[a]
    if k == "many":
        return [r.choice(ns) for _ in range(r.randrange(4) if r.random() < .95 else r.choice([16, 20, 300]))] if ns else r.choice([None, []])
    if not ns:
        return None
    if k == "ref":
        return r.choice(ns)
    i = r.randrange(len(ns))
    return NodeSpan(ns[i], ns[r.randrange(i, len(ns))])


def canon_value(v, index):
    if isinstance(v, TextSpan):
        return ("span", v.text.name, v.start, v.stop, str(v))
    if isinstance(v, NodeSpan):
        return ("nspan", index[id(v.left)], index[id(v.right)])
    if isinstance(v, Node):
        return ("ref", index[id(v)])
    if isinstance(v, (list, tuple)) or type(v).__name__ == "NodeList":
        vs = tuple(canon_value(x, index) for x in v)
        return ("many", vs) if vs else None
    if isinstance(v, float):
        return ("f", repr(v))
    return (type(v).__name__, v)


def canon_type(t):
    return (t.typename.name, tuple(sorted((k, canon_opt(v)) for k, v in t.options.items())))


def canon_opt(v):
    return (type(v).__name__, repr(v))


def canon_props(v):
    if isinstance(v, dict):
        return ("d", tuple((k, canon_props(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ("l", tuple(canon_props(x) for x in v))
    return (type(v).__name__, repr(v))


def canon(doc, ids=True):
    index = {}
    for nm, L in doc.layers.items():
        for k, n in enumerate(list(L)):
            index[id(n)] = (nm, k)
    out = {"props": canon_props(doc.props), "texts": [(t, str(doc.text[t]), doc.text[t].name) for t in doc.texts], "layers": []}
    for nm, L in doc.layers.items():
        fs = [(f, canon_type(t)) for f, t in L.schema.fields.items()]
        nodes = []
        for n in L:
            d = {}
            for f in n:
                c = canon_value(n[f], index)
                if c is not None and n[f] is not None:
                    d[f] = c
            nodes.append(tuple(sorted(d.items())))
        out["layers"].append((nm, L.name, L.schema.name, fs, len(L), nodes))
    return out


def integrity(doc, expect):
    """objects of a decoded document belong to that document"""
    for nm, L in doc.layers.items():
        for k, n in enumerate(list(L)):
            expect(n.collection is L, "node belongs to its layer")
            expect(n.i == k, "node index %s is %s", n.i, k)
            expect(L[k] is n, "index looks up the node")
            for f in n:
                v = n[f]
                for x in ([v] if isinstance(v, Node) else [v.left, v.right] if isinstance(v, NodeSpan) else v if isinstance(v, list) else []):
                    if isinstance(x, Node):
                        expect(x.collection is doc.layers[x.collection.name], "reference into the document")
                if isinstance(v, TextSpan):
                    expect(v.text is doc.text[v.text.name], "span of the document's text")
