"""C09 companion: written collections read back."""
import io
import os
import shutil
import tempfile
from .lib import *
from .files import *
from docria.collection import (MsgpackDocumentWriter, MsgpackDocumentReader, TarMsgpackWriter, TarMsgpackReader, MsgpackDocumentIO, DocumentIO, get_codec, register_codec,
                               unregister_codec, _BoundaryWriter, _BoundaryReader)

CODECS = ["none", "zip", "bzip2", "zipsq", "lzma", "lz4", "zstd", "zstd:high"]


def gen(rng, tier):
    for b in (0, 1, 2, 3, 128):
        for n in range(0, 6):
            yield {"n": n, "block": b, "codec": "none", "flush": [], "pad": 0, "io": "mem", "obj": 0}
            yield {"n": n, "block": b, "codec": "zip", "flush": list(range(0, n, 2)), "pad": 3, "io": "mem", "obj": 2}
    for n, b in ((300, 128), (257, 256), (600, 300), (70, 7)):
        yield {"n": n, "block": b, "codec": "none", "flush": [], "pad": 0, "io": "default" if b == 128 else "boundary", "obj": 2}
    yield {"n": 3, "block": 2, "codec": "zip", "flush": [], "pad": 200000, "io": "boundary", "obj": 2}
    while True:
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 40] if rng.random() < .95 else [130, 270])
        yield {"n": n, "block": rng.choice([0, 1, 1, 2, 3, 4, 7, 128, max(1, n), n + 1]), "codec": rng.choice(CODECS), "flush": [k for k in range(n + 1) if rng.random() < .2],
               "pad": rng.choice([0, 0, 10, 300, 5000] if n < 100 else [0, 200]), "io": rng.choice(["mem", "mem", "path", "boundary", "default"]), "obj": rng.randrange(3), "seed": rng.randrange(1 << 30),
               "stop": rng.random() < .3}


def run(p):
    codec = get_codec(p["codec"], no_except=True)
    if codec is None:
        return False
    docs = [small(p.get("seed", 0), k, p["pad"]) for k in range(p["n"])]
    data = [MsgpackCodec.encode(d) for d in docs]
    tmp = tempfile.mkdtemp() if p["io"] in ("path", "default") else None
    try:
        return go(p, codec, docs, data, tmp)
    finally:
        if tmp:
            shutil.rmtree(tmp)


def go(p, codec, docs, data, tmp):
    out = Keep()
    path = tmp and os.path.join(tmp, "x.docria")
    raw = out
    if p["io"] == "boundary":
        raw = _BoundaryWriter(out, 12)
    w = MsgpackDocumentWriter(path) if p["io"] == "default" else MsgpackDocumentWriter(path or raw, p["block"], codec)
    for k, d in enumerate(docs):
        if k in p["flush"]:
            w.flush()
        m = d if (p["obj"] == 0 or p["obj"] == 2 and k % 2) else MsgpackDocument(data[k])
        w.write(m)
    if len(docs) in p["flush"]:
        w.flush()
    want = data
    if p.get("stop") and p["io"] == "mem":
        # cut off without closing: at least everything up to the last explicit flush
        stored = out.getvalue()
        k = sum(1 for d in MsgpackDocumentReader(io.BytesIO(stored)))
        expect(max(p["flush"], default=0) <= k <= len(data), "%d documents stored, flushed after %s", k, p["flush"])
        want = data[:k]
    else:
        w.close()
        stored = open(path, "rb").read() if tmp else out.saved

    def reader():
        if p["io"] == "boundary":
            return MsgpackDocumentReader(_BoundaryReader(io.BytesIO(stored)))
        if tmp:
            return [MsgpackDocumentReader, MsgpackDocumentIO.read][p["n"] % 2](path)
        return [MsgpackDocumentReader, MsgpackDocumentIO.readfile][p["n"] % 2](io.BytesIO(stored))
    with reader() as r:
        got = [d.binary() for d in r]
        expect_eq(len(got), len(want), "number of documents")
        for k, (a, b) in enumerate(zip(got, want)):
            expect(a == b, "document %d is byte-identical", k)
        expect(next(r, None) is None, "stays at the end")
    r = reader()
    blocks = list(r.blocks())
    got2 = [d.binary() for b in blocks for d in b]
    expect(got2 == want, "blocks hold the same documents")
    got3 = [d.binary() for b in blocks for _, d in b.documents()]
    expect(got3 == want, "documents() of the blocks")
    pos = [b.position for b in blocks]
    expect_eq(pos, sorted(set(pos)), "block positions grow")
    r.close()
    return len(want) > 0


def run_tar(p):
    tmp = tempfile.mkdtemp()
    try:
        path = os.path.join(tmp, "x.tar")
        docs = [small(p["seed"], k, p["pad"]) for k in range(p["n"])]
        data = [MsgpackCodec.encode(d) for d in docs]
        kw = {}
        if p["root"]:
            kw["rootdir"] = "root"
        if p["fmt"]:
            kw["docformat"] = "d%d.bin"
        with TarMsgpackWriter(path, mode="w|" + p["z"], **kw) as w:
            for k, d in enumerate(docs):
                w.write(d if k % 2 == p["obj"] else MsgpackDocument(data[k]))
        with TarMsgpackReader(path, mode="r|" + p["z"]) as r:
            got = [d.binary() for d in r]
        expect_eq(len(got), len(data), "number of documents")
        expect(got == data, "tar container returns the documents in order")
        return p["n"] > 0
    finally:
        shutil.rmtree(tmp)


def gen_tar(rng, tier):
    for n in (0, 1, 2, 3, 11, 25):
        for z in ("gz", "", "bz2", "xz"):
            yield {"n": n, "z": z, "root": n % 2, "fmt": 0 if n != 11 else 1, "obj": n % 2, "pad": 700 if n == 3 else 0, "seed": 1}
    while True:
        yield {"n": rng.randrange(0, 14), "z": rng.choice(["gz", "", "bz2"]), "root": rng.randrange(2), "fmt": rng.randrange(2), "obj": rng.randrange(2), "pad": rng.choice([0, 200, 600]),
               "seed": rng.randrange(1 << 30)}


def run_codec(p):
    c = get_codec(p["codec"], no_except=True)
    if c is None:
        return False
    for n in (0, 1, 5, 1000, 70000):
        b = random.Random(n).randbytes(n)
        expect(get_codec(p["codec"]).decompress(c.compress(b)) == b, "codec %s restores %d bytes", p["codec"], n)
        expect(get_codec(c.name).decompress(c.compress(b)) == b, "codec %s restores %d bytes under its stored name", p["codec"], n)
    return True


def run_reg(p):
    raises(Exception, lambda: get_codec("nope"), "unknown codec")
    raises(Exception, lambda: register_codec("zip", lambda x: x, lambda x: x), "registering twice")
    register_codec("vp_rev", lambda b: bytes(b)[::-1], lambda b: bytes(b)[::-1])
    try:
        p2 = {"n": 5, "block": 2, "codec": "vp_rev", "flush": [1], "pad": 4, "io": "mem", "obj": 2}
        run(p2)
    finally:
        unregister_codec("vp_rev")
    return True


def run_doc(p):
    tmp = tempfile.mkdtemp()
    try:
        path = os.path.join(tmp, "x.docria")
        docs = [small(1, k, 3) for k in range(p["n"])]
        with DocumentIO.write(path, num_docs_per_block=2) as w:
            for d in docs:
                w.write(d)
        with DocumentIO.read(path) as r:
            expect_eq([d.props["id"] for d in r], ["doc%d" % k for k in range(p["n"])], "decoded documents")
        return True
    finally:
        shutil.rmtree(tmp)


FAMILIES = [Family("collections", gen, run, 3.0, "up to 40 documents x block sizes x codecs x flush placements x memory/path/boundary-marked storage, closed or cut off"),
            Family("tar", gen_tar, run_tar, 1.0, "tar containers, compressions, root folder, name formats"),
            Family("codecs", lambda rng, tier: ({"codec": c} for c in CODECS), run_codec, .3, "all registered codecs"),
            Family("registry", lambda rng, tier: iter([{"x": 0}]), run_reg, .1, "own codecs"),
            Family("documents", lambda rng, tier: ({"n": n} for n in range(5)), run_doc, .1, "deprecated document reader")]
