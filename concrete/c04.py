"""C04 companion: MessagePack round trip."""
from io import BytesIO
from .lib import *
from .docs import *
from docria.codec import MsgpackCodec, MsgpackDocument


def gen(rng, tier):
    k = 0
    while True:
        yield {"seed": rng.randrange(1 << 40), "size": rng.choice([.3, 1, 1, 3 if tier == "quick" else 40]), "kinds": [KINDS[k % len(KINDS)]] if k < 2 * len(KINDS) else None, "how": k % 4}
        k += 1


def run(p):
    doc = build(p["seed"], p["size"], json_ok=False, kinds=p["kinds"])
    want = canon(doc)
    data = MsgpackCodec.encode(doc)
    expect_eq(canon(doc), want, "encoding leaves the document as it was")
    expect(isinstance(data, bytes) and data[:4] == b"DM_1", "magic")
    h = p["how"]
    if h == 1:
        d2 = MsgpackCodec.decode(BytesIO(data))
    elif h == 2:
        d2 = MsgpackDocument(data).document()
    elif h == 3:
        m = MsgpackDocument(doc)
        expect_eq(m.binary(), data, "binary")
        d2 = m.document()
    else:
        d2 = MsgpackCodec.decode(data)
    got = canon(d2)
    for part in ("props", "texts"):
        expect_eq(got[part], want[part], part)
    expect_eq([x[0] for x in got["layers"]], [x[0] for x in want["layers"]], "layers")
    for a, b in zip(got["layers"], want["layers"]):
        expect_eq(a[3], b[3], "fields of %s" % b[0])
        expect_eq(a[:3] + a[4:5], b[:3] + b[4:5], "layer %s" % b[0])
        expect_eq(a[5], b[5], "nodes of %s" % b[0])
    integrity(d2, expect)
    expect_eq(MsgpackCodec.encode(d2), data, "encoded again")
    return bool(want["layers"])


def gen_raw(rng, tier):
    """typed column values at the edges of the wire format"""
    for v in [0, 1, -1, 127, 128, 255, 256, -32, -33, -128, -129, 65535, 65536, -32768, -32769, 2**31 - 1, -2**31, 2**31, 2**32 - 1, 2**32, 2**63 - 1, -2**63]:
        yield {"k": "i64", "v": v}
    for n in (0, 1, 15, 16, 31, 32, 255, 256, 65535, 65536):
        yield {"k": "str", "v": "s" * n}
        yield {"k": "bin", "n": n}
        yield {"k": "nodes", "n": n}
        yield {"k": "props", "n": n}
        yield {"k": "text", "n": n}
    for n in (1, 15, 16, 17, 300):
        yield {"k": "fields", "n": n}
        yield {"k": "layers", "n": n}


def run_raw(p):
    doc = Document()
    k = p["k"]
    n = p.get("n", 0)
    doc.maintext = "t" * (n if k == "text" else 3)
    L = doc.add_layer("a", x=T.int64, s=T.string, b=T.binary, r=T.noderef("a"), t=T.span())
    f = {}
    if k == "i64":
        f["x"] = p["v"]
    elif k == "str":
        f["s"] = p["v"]
    elif k == "bin":
        f["b"] = bytes(x % 256 for x in range(n))
    L.add(**f)
    if k == "nodes":
        for j in range(n):
            L.add(x=j, r=L[j // 2])
    elif k == "props":
        for j in range(n):
            doc.props["p%d" % j] = j
    elif k == "text":
        for j in range(0, min(n, 400)):
            L.add(t=doc.maintext[j:n])
    elif k == "fields":
        M = doc.add_layer("m", **{"f%d" % j: T.int32() for j in range(n)})
        M.add(**{"f%d" % j: j for j in range(n)})
    elif k == "layers":
        for j in range(n):
            doc.add_layer("l%d" % j, x=T.noderef("a")).add(x=L[0])
    want = canon(doc)
    data = MsgpackCodec.encode(doc)
    d2 = MsgpackCodec.decode(data)
    expect(canon(d2) == want, "round trip of %s", p if n == 0 else (k, n))
    expect(canon(MsgpackDocument(data).document()) == want, "round trip (handle) of %s", (k, n))
    expect(MsgpackCodec.encode(d2) == data, "encoded again")
    integrity(d2, expect)
    return True


FAMILIES = [Family("documents", gen, run, 3.0, "random documents over all field types, removed nodes, self/forward/backward references"),
            Family("wire edges", gen_raw, run_raw, 1.0, "integer, string, array and map sizes at the wire format's switching points")]
