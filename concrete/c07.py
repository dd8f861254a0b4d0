"""C07 companion: values of every kind against every declared field type."""
import itertools
from .lib import *
from .docs import *
from docria.codec import MsgpackCodec, JsonCodec
from docria.model import Document, DataTypes as T, Node, NodeSpan, TextSpan, NodeList

TYPES = ["i32", "i64", "f64", "bool", "str", "bin", "ref", "many", "nspan", "span"]


def dt(k, how):
    none = how == 1
    return {"i32": lambda: T.int32(None if none else how * 3), "i64": lambda: T.int64(None if none else how * 3), "f64": lambda: T.float64(None if none else how * 1.5),
            "bool": lambda: T.bool(None if none else how == 2), "str": lambda: T.string(None if none else "d" * how), "bin": lambda: T.binary, "ref": lambda: T.noderef("t"),
            "many": lambda: T.noderef_many("t"), "nspan": lambda: T.nodespan("t"), "span": lambda: T.span("main")}[k]()


class W:
    """a document with target layers and every sort of value"""
    def __init__(self, gap=False):
        self.doc = d = Document()
        d.add_text("main", "hello world")
        d.add_text("other", "hello other")
        self.t, self.u = d.add_layer("t", v=T.int32), d.add_layer("u", v=T.int32)
        n = [self.t.add(v=k) for k in range(4)]
        m = [self.u.add(v=k) for k in range(3)]
        dead = self.t.add(v=9)
        if gap:
            self.t.remove(self.t.add(v=7))
            n.append(self.t.add(v=8))
        self.t.remove(dead)
        self.free = Node(v=1)
        mt, ot = d.text["main"], d.text["other"]
        # value -> the field types it belongs to (None: unspecified)
        big, huge = 2 ** 31, 2 ** 63
        ints = lambda v: [k for k, b in (("i32", big), ("i64", huge)) if -b <= v < b]
        V = [(v, ints(v)) for v in (0, 1, -1, 300, big - 1, big, -big, -big - 1, huge - 1, huge, -huge, -huge - 1, 10 ** 30)]
        V += [(v, ["f64"]) for v in (0.0, -2.5, 1e300, float("inf"))]
        V += [(True, ["bool"]), (False, ["bool"])]
        V += [(s, ["str"]) for s in ("", "abc", "日本", "0", "t", "main")]
        V += [(b, ["bin"]) for b in (b"", b"\x00a")]
        V += [(n[0], ["ref"]), (n[-1], ["ref"]), (m[0], []), (dead, []), (self.free, [])]
        V += [([], ["many"]), ([n[0]], ["many"]), ([n[1], n[0], n[1]], ["many"]), ([m[0]], []), ([n[0], m[0]], []), ([m[0], n[0]], []), ([n[0], dead], []), ([dead], []),
              ([n[0], self.free], []), ([1], []), ([n[0], None], []), (["t"], [])]
        V += [(NodeSpan(n[0], n[0]), ["nspan"]), (NodeSpan(n[0], n[-1]), ["nspan"]), (NodeSpan(n[1], n[2]), ["nspan"]), (NodeSpan(m[0], m[1]), [])]
        x = NodeSpan(n[1], n[2])
        x.left, x.right = n[2], n[1]
        y = NodeSpan(n[1], n[2])
        y.right = dead
        z = NodeSpan(n[1], n[2])
        z.left = m[0]
        w = NodeSpan(n[1], n[2])
        w.right = m[2]
        q = NodeSpan(n[1], n[2])
        q.left = dead
        V += [(x, []), (y, []), (z, []), (w, []), (q, [])]
        V += [(mt[0:5], ["span"]), (mt[3:3], ["span"]), (mt[0:11], ["span"]), (ot[0:5], []), (ot[0:0], [])]
        # objects of other kinds that look like nodes, node spans or text spans
        duck = type("Duck", (), {"collection": self.t, "i": 0, "_id": 0, "left": n[0], "right": n[1], "start": 0, "stop": 1, "text": mt, "__iter__": lambda s: iter([n[0]])})()
        V += [(duck, []), ([duck], []), ([n[0], duck], []), (self.t["v"], []), (mt, [])]
        V += [(None, []), ({}, []), ((1, 2), []), (object(), []), (1j, [])]
        self.V = V

    def ok(self, j, k):
        v, ks = self.V[j]
        if k in ("i32", "i64") and isinstance(v, bool):
            return None
        if k == "many" and isinstance(v, (tuple, NodeSpan)):
            return None
        return k in ks


NV = len(W().V)


def gen(rng, tier):
    for j in range(NV):
        for k in TYPES:
            for how in (0, 1, 2):
                for route in ("add", "many", "many_fill", "encode", "encode_extra", "json", "second"):
                    if how and route not in ("add", "encode") and rng.random() < (.7 if tier == "quick" else 0):
                        continue
                    yield {"v": j, "k": k, "how": how, "route": route, "gap": rng.random() < .3}


def run(p):
    w = W(p["gap"])
    k, v = p["k"], w.V[p["v"]][0]
    ok = w.ok(p["v"], k)
    if ok is None:
        return False
    d = w.doc
    L = d.add_layer("x", f=dt(k, p["how"]), g=T.string(None))
    r = p["route"]
    what = "%s into %s via %s" % (short(v, 60), k, r)
    if r in ("add", "many", "many_fill"):
        def go():
            if r == "add":
                L.add(f=v, g="g")
            else:
                L.add_many([Node(g="g"), Node(f=v)] if k in ("i32",) else [Node(f=v), Node(g="u")], default_fill=r == "many_fill")
        if not ok:
            raises(Exception, go, what)
            if r == "add":
                expect_eq(len(L), 0, "rejected node is not in the layer")
        else:
            go()
            expect_eq(len(L), 1 if r == "add" else 2, "accepted")
            expect(any(n.get("f") is v or n.get("f") == v for n in L), "stored: %s", what)
        return True
    n0 = L.add(g="first")
    n = L.add(g="x") if r == "second" else n0
    n["f"] = v
    kw = {"extra_fields_ok": True} if r == "encode_extra" else {}

    def enc():
        if r == "json":
            if k == "bin" and ok:
                raise ValueError()
            return JsonCodec.encode(d)
        return MsgpackCodec.encode(d, **kw)
    if not ok:
        raises(Exception, enc, "encoding " + what)
        raises(Exception, lambda: d.compile(**kw), "compiling " + what)
    elif r == "json" and (k == "bin" or isinstance(v, float) and v == float("inf")):
        return False
    else:
        enc()
    return True


def gen_bare(rng, tier):
    yield from ({"c": c, "r": r} for c in ("extra", "extra_ok", "extra_last", "nolayer", "nolayer_many", "nolayer_span", "notext", "later", "fine", "extra_bad", "two_extra", "extra_ok_none") for r in ("msgpack", "json", "compile"))


def run_bare(p):
    c = p["c"]
    d = Document()
    d.add_text("main", "abc")
    t = d.add_layer("t", v=T.int32)
    x = d.add_layer("x", f=T.int32, r=T.noderef("t"), s=T.span("main"))
    ns = [x.add(f=k) for k in range(3)]
    bad = True
    kw = {}
    if c == "extra":
        ns[1]["zzz"] = 3
    elif c == "extra_last":
        ns[2]["zzz"] = None
    elif c == "two_extra":
        t.add(v=1)["u"] = "x"
    elif c == "extra_ok":
        ns[1]["zzz"] = 3
        kw, bad = {"extra_fields_ok": True}, False
    elif c == "extra_ok_none":
        kw, bad = {"extra_fields_ok": True}, False
    elif c == "extra_bad":
        ns[1]["zzz"] = 3
        ns[1]["f"] = "no int"
        kw = {"extra_fields_ok": True}
    elif c == "nolayer":
        d.add_layer("y", r=T.noderef("missing"))
    elif c == "nolayer_many":
        d.add_layer("y", a=T.int32, r=T.noderef_many("missing"))
    elif c == "nolayer_span":
        d.add_layer("y", r=T.nodespan("missing"))
    elif c == "notext":
        d.add_layer("y", r=T.span("missing"))
    elif c == "later":
        d.add_layer("y", r=T.noderef("z"), s=T.nodespan("z"), m=T.noderef_many("z"))
        d.add_layer("z", v=T.int32)
        bad = False
    else:
        bad = False

    def go():
        if p["r"] == "msgpack":
            return MsgpackCodec.encode(d, **kw)
        if p["r"] == "json" and not kw:
            return JsonCodec.encode(d)
        return d.compile(**kw)
    if bad:
        raises(Exception, go, "%s must be rejected" % c)
    else:
        go()
    return True


def gen_doc(rng, tier):
    while True:
        yield {"seed": rng.randrange(1 << 40)}


def run_doc(p):
    """valid random documents are accepted whatever route put the values there"""
    doc = build(p["seed"], 1.0, json_ok=False)
    for L in doc.layers.values():
        for n in L:
            expect(L.validate(n), "a valid node validates")
    doc.compile()
    return True


FAMILIES = [Family("values", gen, run, 3.0, "60 values of every sort x 10 field types x routes (add, add_many, encode, compile, extra fields allowed, second node)", case_timeout=30),
            Family("schema", gen_bare, run_bare, .5, "undeclared fields, references to missing layers and texts"),
            Family("documents", gen_doc, run_doc, .5, "random valid documents")]
