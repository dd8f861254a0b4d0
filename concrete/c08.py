"""C08 companion: partial reading agrees with full decoding, in any order, repeatedly, also after pickling."""
import pickle
from io import BytesIO
from .lib import *
from .docs import *
from docria.codec import MsgpackCodec, MsgpackDocument
from docria.model import Document, DataTypes as T


def closure(schema, names):
    out = set(names)
    while True:
        more = {t.options["layer"] for n in out for f, t in schema[n] if "layer" in t.options} - out
        if not more:
            return out
        out |= more


def gen(rng, tier):
    while True:
        yield {"seed": rng.randrange(1 << 40), "size": rng.choice([.3, 1, 2]), "ops": [[rng.choice(["props", "prop", "schema", "texts", "text", "doc", "layers", "layers", "binary", "pickle", "copy"]), rng.randrange(1000)]
                                                                                    for _ in range(rng.randrange(1, 9))], "src": rng.randrange(3)}


def run(p):
    doc = build(p["seed"], p["size"], json_ok=False)
    data = MsgpackCodec.encode(doc)
    full = MsgpackCodec.decode(data)
    want = canon(full)
    types = {nm: (fs, n, nodes) for nm, _, _, fs, n, nodes in want["layers"]}
    m = MsgpackDocument(data if p["src"] == 0 else BytesIO(data) if p["src"] == 1 else doc, ref=("r", 1))
    segs = {t: None for t in full.texts}
    for op, k in p["ops"]:
        r = random.Random(k)
        if op == "props":
            expect_eq(canon_props(m.properties()), want["props"], "properties")
        elif op == "prop":
            ks = [x for x in list(full.props) + ["nope"] if r.random() < .5] or ["nope"]
            got = m.properties(*ks)
            expect_eq(sorted((a, canon_props(b)) for a, b in got.items()), sorted((a, canon_props(full.props[a])) for a in ks if a in full.props), "properties %s" % ks)
        elif op == "schema":
            ts, sch = m.schema()
            expect_eq(list(ts), [x[0] for x in want["layers"]], "layer names")
            for t in ts:
                expect_eq([(f, canon_type(ty)) for f, ty in sch[t]], types[t][0], "fields of %s" % t)
        elif op == "texts":
            got = m.texts()
            expect_eq([(t, "".join(s)) for t, s in got.items()], [(t, s) for t, s, _ in want["texts"]], "texts")
        elif op == "text":
            ks = [x for x in list(full.texts) + ["nope"] if r.random() < .5] or ["nope"]
            got = m.texts(*ks)
            expect_eq(sorted((t, "".join(s)) for t, s in got.items()), sorted((t, s) for t, s, _ in want["texts"] if t in ks), "texts %s" % ks)
        elif op == "doc":
            d = m.document()
            expect_eq(canon(d), want, "document")
            integrity(d, expect)
        elif op == "layers":
            sch = {nm: list(full.layers[nm].schema.fields.items()) for nm in types}
            sel = [x for x in types if r.random() < .5]
            if not sel:
                continue
            sel = closure(sch, sel)
            order = [x for x in types if x in sel]
            r.shuffle(order)
            d = m.document(*order)
            got = canon(d)
            expect_eq(got["props"], want["props"], "properties")
            expect_eq(got["texts"], want["texts"], "texts")
            expect_eq(sorted(x[0] for x in got["layers"]), sorted(order), "layers")
            for x in got["layers"]:
                expect_eq((x[3], x[4], x[5]), types[x[0]], "layer %s of %s" % (x[0], order))
            integrity(d, expect)
        elif op == "binary":
            expect_eq(m.binary(), data, "binary")
        elif op == "pickle":
            m2 = pickle.loads(pickle.dumps(m))
            expect_eq(m2.ref, m.ref, "ref of the restored handle")
            expect_eq(m2.binary(), data, "binary of the restored handle")
            m = m2
        else:
            m2 = pickle.loads(pickle.dumps(m))
            expect_eq(canon(m2.document()), want, "restored handle")
            expect_eq(canon_props(m.properties()), want["props"], "properties after pickling")
    expect_eq(m.binary(), data, "binary at the end")
    return True


def gen_col(rng, tier):
    while True:
        yield {"seed": rng.randrange(1 << 40), "pick": rng.randrange(1 << 20)}


def run_col(p):
    """selected fields of a layer, the others skipped"""
    doc = build(p["seed"], 1.0, json_ok=False)
    data = MsgpackCodec.encode(doc)
    full = MsgpackCodec.decode(data)
    r = random.Random(p["pick"])
    m = MsgpackDocument(data)
    types, schema = m.schema()
    texts = m.texts()
    d = Document()
    off = MsgpackCodec.compute_text_offsets(d, texts)
    import msgpack
    u = msgpack.Unpacker(BytesIO(data[4:]), raw=False)
    u.skip()
    u.skip()
    u.skip()
    for t in types:
        for _ in range(next(u)):
            u.skip()
            args = next(u)
            u.skip()
            if args:
                u.skip()
    u.skip()
    u.skip()
    pos = {}
    for t in types:
        u.skip()
        pos[t] = u.tell() + 4
        u.skip()
        for _ in schema[t]:
            u.skip()
            u.skip()
    for t in types:
        fs = [f for f, ty in schema[t]]
        sel = [f for f in fs if r.random() < .5]
        if not sel:
            continue
        nodes = MsgpackCodec.decode_layer(msgpack.Unpacker(BytesIO(data[pos[t]:]), raw=False), d, t, off, schema[t], *sel)
        src = list(full.layers[t])
        expect_eq(len(nodes), len(src), "nodes of %s" % t)
        plain = {f for f, ty in schema[t] if ty.typename.name not in ("NODEREF", "NODEREF_MANY", "NODEREF_SPAN")}
        for a, b in zip(nodes, src):
            expect_eq(sorted(f for f in a), sorted(f for f in b if f in sel), "fields present")
            for f in a:
                if f in plain:
                    expect_eq(canon_value(a[f], {}), canon_value(b[f], {}), "field %s" % f)
    return True


def gen_bad(rng, tier):
    yield from ({"b": b} for b in ("", "DM", "DM_2xxxx", "XXXXxxxx"))


def run_bad(p):
    b = p["b"].encode()
    raises(Exception, lambda: MsgpackDocument(b), "no magic")
    raises(Exception, lambda: MsgpackCodec.decode(b + b"\x00" * 8), "no magic")
    return True


FAMILIES = [Family("reads", gen, run, 3.0, "random documents x random sequences of up to 8 partial reads"),
            Family("fields", gen_col, run_col, .6, "selected fields of a layer"),
            Family("magic", gen_bad, run_bad, .1, "wrong magic")]
