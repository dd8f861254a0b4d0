"""C10 companion: fetching by reference and index search."""
import io
import os
import shutil
import tempfile
from .lib import *
from .files import *
from docria.collection import (MsgpackDocumentWriter, MsgpackDocumentReader, DocumentFileIndex, DocumentIndex, build_msgpack_fileindex, build_msgpack_directory_fileindex, get_codec,
                               _BoundaryWriter, _BoundaryReader)


def store(p, docs, out):
    raw = _BoundaryWriter(out, 12) if p.get("boundary") else out
    w = MsgpackDocumentWriter(raw, p["block"], get_codec(p.get("codec", "none")))
    data = []
    for k, d in enumerate(docs):
        if k in p["flush"]:
            w.flush()
        b = MsgpackCodec.encode(d)
        data.append(b)
        w.write(MsgpackDocument(b))
    w.close()
    return data


def gen(rng, tier):
    while True:
        n = rng.choice([1, 2, 3, 5, 9, 17] if rng.random() < .95 else [140, 300])
        yield {"n": n, "block": rng.choice([1, 2, 3, 5, 128]), "flush": [k for k in range(n) if rng.random() < .15], "codec": rng.choice(["none", "zip", "none"]),
               "boundary": rng.random() < .2, "pad": rng.choice([0, 5, 40, 300, 2000]), "seed": rng.randrange(1 << 30), "ops": [[rng.choice(["next", "next", "get", "get", "get", "blk", "readblock"]), rng.randrange(1000)] for _ in range(rng.randrange(1, 16))]}


def run(p):
    docs = [small(p["seed"], k, p["pad"]) for k in range(p["n"])]
    out = Keep()
    data = store(p, docs, out)

    def reader():
        return MsgpackDocumentReader(_BoundaryReader(io.BytesIO(out.saved)) if p["boundary"] else io.BytesIO(out.saved))
    refs = [d.ref for d in reader()]
    expect_eq(len(refs), len(data), "all read")
    expect_eq(len(set(refs)), len(refs), "references are distinct")
    brefs = [d.ref for b in reader().blocks() for d in b]
    expect_eq(brefs, refs, "blocks give the same references")
    for b in reader().blocks():
        for pos, d in b.documents():
            expect_eq(d.ref[1], pos, "position in the block")
            expect_eq(d.ref[0], b.position, "position of the block")
            b2 = reader()
            expect(b2.get(d.ref).binary() == d.binary(), "reference of a block's document")
    r = reader()
    seq = 0          # next document in sequence, None when unknown after jumps
    log, mixed = [], False
    for op, k in p["ops"]:
        log.append(op)
        if op == "get":
            j = k % len(refs)
            d = r.get(refs[j])
            expect(d.binary() == data[j], "get of document %d after %s", j, log)
            expect_eq(d.ref, refs[j], "reference of the fetched document after %s" % log)
            seq = j + 1
        elif op == "next":
            d = next(r, None)
            if d is None:
                continue
            js = [j for j in range(len(data)) if data[j] == d.binary()]
            expect(js, "a document of the collection after %s", log)
            if not mixed and seq is not None and seq < len(data):
                expect_eq(js[0], seq, "sequential reading goes on after %s" % log)
            expect_eq(d.ref, refs[js[0]], "reference of document %d after %s" % (js[0], log))
            expect(reader().get(d.ref).binary() == d.binary(), "reference fetches it")
            seq = js[0] + 1
        elif op == "readblock":
            b = r.readblock()
            mixed = True
            if b is not None:
                for pos, d in b.documents():
                    js = [j for j in range(len(data)) if data[j] == d.binary()]
                    expect_eq(d.ref, refs[js[0]], "reference from a block after %s" % log)
        else:
            j = k % len(refs)
            r.seek(refs[j][0])
            b = r.readblock()
            b.seek(refs[j][1])
            expect(next(b).binary() == data[j], "block and position lead to document %d after %s", j, log)
            mixed = True
    return True


VALS = ["a", "b", 1, 2, True, None, 1.5, ""]


def gen_search(rng, tier):
    while True:
        n = rng.choice([0, 1, 3, 6, 12, 24])
        names = ["p", "q", "r s"]
        yield {"n": n, "block": rng.choice([1, 2, 3, 128]), "flush": [k for k in range(n) if rng.random() < .1],
               "docs": [{x: rng.randrange(len(VALS)) for x in names if rng.random() < .8} for _ in range(n)],
               "indexed": [x for x in names if rng.random() < .85], "conds": [{x: rng.randrange(len(VALS)) for x in names if rng.random() < .5} for _ in range(5)],
               "files": rng.choice([1, 1, 2, 3]), "mode": rng.randrange(3), "seed": rng.randrange(1000)}


def run_search(p):
    tmp = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        files = {}
        for f in range(p["files"]):
            docs = []
            for k, pr in enumerate(p["docs"]):
                d = small(p["seed"], k, 3)
                for x, v in pr.items():
                    d.props[x] = VALS[(v + f) % len(VALS)]
                d.props["uid"] = "%d/%d" % (f, k)
                docs.append(d)
            name = "f%d.docria" % f
            with open(name, "wb") as out:
                store(p, docs, out)
            files[name] = [dict(d.props) for d in docs]
        idx = DocumentIndex(tmp)
        for name in files:
            one = (DocumentFileIndex.build if p["mode"] else build_msgpack_fileindex)(name, *p["indexed"])
            check(p, one, [files[name]])
            idx.add(one)
        check(p, idx, [files[n] for n in files])
        idx.save("idx.pickle")
        check(p, DocumentIndex.load("idx.pickle"), [files[n] for n in files])
        return p["n"] > 0
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def check(p, idx, files):
    for c in p["conds"]:
        conds = {x: VALS[v] for x, v in c.items()}
        want = []
        for f in files:
            want.append([d["uid"] for d in f if all(x in p["indexed"] and x in d and d[x] == v for x, v in conds.items())] if conds else [])
        for lazy in (False, True):
            got = [d.properties()["uid"] if lazy else d.props["uid"] for d in idx.search(conds, lazy=lazy)]
            expect_eq(sorted(got), sorted(x for w in want for x in w), "hits of %s (lazy=%s)" % (conds, lazy))
            for w in want:
                expect_eq([x for x in got if x in w], w, "file order of %s" % conds)
    # two searches at once
    cs = [{x: VALS[v] for x, v in c.items()} for c in p["conds"]]
    for a in cs[:2]:
        g1, g2 = idx.search(a, lazy=True), idx.search(a)
        out = []
        for x, y in zip(g1, g2):
            expect_eq(x.properties()["uid"], y.props["uid"], "parallel searches")


def gen_dir(rng, tier):
    yield {"workers": 1, "n": 4}
    if tier != "quick":
        yield {"workers": 2, "n": 7}


def run_dir(p):
    import contextlib
    tmp = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        want = []
        for f in ("a.docria", "b.docria", "c.docria.xz"):
            with open(f, "wb") as out:
                docs = [small(1, k, 3) for k in range(p["n"])]
                for d in docs:
                    d.props["uid"] = "%s/%s" % (f, d.props["id"])
                    d.props["even"] = d.props["n"] % 2 == 0
                    if d.props["even"]:
                        want.append(d.props["uid"])
                store({"block": 2, "flush": []}, docs, out)
        with open(os.devnull, "w") as nul, contextlib.redirect_stderr(nul):
            idx = build_msgpack_directory_fileindex(tmp, "even", num_workers=p["workers"], basepath=tmp)
        expect_eq(sorted(d.props["uid"] for d in idx.search({"even": True})), sorted(want), "directory index")
        idx.save("i")
        expect_eq(sorted(d.props["uid"] for d in DocumentIndex.load("i").search({"even": True})), sorted(want), "reloaded directory index")
        return True
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def run_base(p):
    """an index whose base path is not the working directory"""
    tmp = tempfile.mkdtemp()
    try:
        docs = [small(1, k, 3) for k in range(3)]
        path = os.path.join(tmp, "x.docria")
        with open(path, "wb") as out:
            store({"block": 2, "flush": []}, docs, out)
        idx = DocumentIndex(tmp if p["case"] == "elsewhere" else os.getcwd())
        idx.add(DocumentFileIndex.build(path, "id"))
        got = [d.props["id"] for d in idx.search({"id": "doc1"})]
        expect_eq(got, ["doc1"], "search with base path %s" % p["case"])
        return True
    finally:
        shutil.rmtree(tmp)


FAMILIES = [Family("fetching", gen, run, 2.0, "collections x sequences of get/next/readblock/seek on one reader"),
            Family("search", gen_search, run_search, 2.0, "up to 3 files of 24 documents x conjunctions over up to 3 properties, lazy or decoded, saved and reloaded"),
            Family("directory", gen_dir, run_dir, .1, "directory index"),
            Family("base path", lambda rng, tier: ({"case": c} for c in ("cwd", "elsewhere")), run_base, .1, "base path other than the working directory")]
