"""C05 companion: JSON round trip."""
import json
from .lib import *
from .docs import *
from docria.codec import JsonCodec, MsgpackCodec

JK = [k for k in KINDS if k != "bin"]


def gen(rng, tier):
    k = 0
    while True:
        yield {"seed": rng.randrange(1 << 40), "size": rng.choice([.3, 1, 1, 3 if tier == "quick" else 40]), "kinds": [JK[k % len(JK)]] if k < 2 * len(JK) else None, "how": k % 3}
        k += 1


def run(p):
    doc = build(p["seed"], p["size"], kinds=p["kinds"])
    want = canon(doc)
    data = JsonCodec.encode(doc)
    expect(isinstance(data, str), "text")
    obj = JsonCodec.encode_object(doc)
    expect_eq(json.loads(data), json.loads(json.dumps(obj)), "object form")
    expect_eq(canon(doc), want, "encoding leaves the document as it was")
    d2 = JsonCodec.decode(data) if p["how"] else JsonCodec.decode_object(json.loads(json.dumps(obj)))
    got = canon(d2)
    for part in ("props", "texts"):
        expect_eq(got[part], want[part], part)
    expect_eq([x[0] for x in got["layers"]], [x[0] for x in want["layers"]], "layers")
    for a, b in zip(got["layers"], want["layers"]):
        expect_eq(a[3], b[3], "fields of %s" % b[0])
        expect_eq(a[:3] + a[4:5], b[:3] + b[4:5], "layer %s" % b[0])
        expect_eq(a[5], b[5], "nodes of %s" % b[0])
    integrity(d2, expect)
    expect_eq(canon(MsgpackCodec.decode(MsgpackCodec.encode(doc))), got, "MessagePack decodes alike")
    expect_eq(JsonCodec.encode(d2), data, "encoded again")
    expect_eq(MsgpackCodec.encode(d2), MsgpackCodec.encode(doc), "MessagePack of the decoded document")
    return bool(want["layers"])


def run_bad(p):
    raises(Exception, lambda: JsonCodec.decode(p["s"]), "not a document: %s" % p["s"])
    return True


FAMILIES = [Family("documents", gen, run, 3.0, "random documents over all field types except binary"),
            Family("no documents", lambda rng, tier: ({"s": s} for s in ("[]", "{}", "1", "{\"a\": 1}", "")), run_bad, .1, "rejected inputs")]
