"""C19 companion: random histories of schema edits against a plain model of documents."""
import warnings
from .lib import *
from docria.model import Document, Node, DataTypes as T, NodeLayerSchema
from docria import model

warnings.simplefilter("ignore")
TYPES = {"i": (lambda: T.int32(), 0), "i7": (lambda: T.int32(7), 7), "inone": (lambda: T.int32(None), None), "s": (lambda: T.string(), ""), "sx": (lambda: T.string("x"), "x"), "b": (lambda: T.bool(), False),
         "bt": (lambda: T.bool(True), True), "f": (lambda: T.float64(1.5), 1.5), "bin": (lambda: T.binary, None), "span": (lambda: T.span("main"), None)}
REF = {"ref": T.noderef, "refs": T.noderef_many, "ns": T.nodespan}
LAYERS = ["A", "B", "C", "D"]
FIELDS = ["p", "q", "r", "s"]


def mktype(t):
    return REF[t[0]](t[1]) if isinstance(t, list) else TYPES[t][0]()


def dflt(t):
    return None if isinstance(t, list) else TYPES[t][1]


def rtype(rng):
    return [rng.choice(list(REF)), rng.choice(LAYERS)] if rng.random() < .45 else rng.choice(list(TYPES))


def gen(rng, tier):
    # all single-field reference graphs over two layers
    for k in REF:
        for t in ("A", "B"):
            for casc in (False, True):
                yield {"layers": {"A": {"p": [k, t]}, "B": {"p": [k, "A"], "q": "i"}}, "nodes": [["A", {}], ["B", {"q": 1}]], "ops": [["rml", "A", casc], ["rml", "A", casc], ["rml", "B", casc]]}
    while True:
        ls = rng.sample(LAYERS, rng.randrange(1, 5))
        layers = {l: {f: rtype(rng) for f in rng.sample(FIELDS, rng.randrange(0, 5))} for l in ls}
        nodes = [[rng.choice(ls), {f: rng.choice([0, 1, "x"]) for f in FIELDS if rng.random() < .3}] for _ in range(rng.randrange(0, 8))]
        ops = []
        for _ in range(rng.randrange(1, 9)):
            r = rng.random()
            l = rng.choice(LAYERS)
            if r < .3:
                ops.append(["add", l, rng.choice(FIELDS), rtype(rng), rng.random() < .7])
            elif r < .55:
                ops.append(["rm", l, rng.choice(FIELDS), rng.random() < .4])
            elif r < .75:
                ops.append(["rml", l, rng.random() < .6])
            elif r < .85:
                ops.append(["node", l])
            elif r < .92:
                ops.append(["drop", l, rng.randrange(4)])
            else:
                ops.append(["bulk", l])
        yield {"layers": layers, "nodes": nodes, "ops": ops}


class M:
    """the model: layer -> {fields: {name: type}, nodes: [(real node, dict)]}"""


def run(p):
    d = Document()
    d.add_text("main", "text")
    m = {}
    every = []
    for l, fs in p["layers"].items():
        d.add_layer(l, **{f: mktype(t) for f, t in fs.items()})
        m[l] = {"f": {f: (t, None) for f, t in fs.items()}, "n": []}
    for l, fs in p["nodes"]:
        n = Node(dict(fs))
        d[l].add(n)
        rec = [n, dict(fs)]
        m[l]["n"].append(rec)
        every.append(rec)
    handles = {l: d[l] for l in d.layers}

    def defaults(l):
        return {f: dflt(t) for f, (t, _) in m[l]["f"].items() if dflt(t) is not None}

    for op in p["ops"]:
        k, l = op[0], op[1]
        if k == "rml":
            refs = [(x, f) for x in m if x != l for f, (t, _) in m[x]["f"].items() if isinstance(t, list) and t[1] == l]
            if l in m and refs and not op[2]:
                raises((model.DataValidationError,), lambda: d.remove_layer(l), "removing layer %s referred to by %r" % (l, refs))
            else:
                r = d.remove_layer(l, fieldcascade=op[2])
                expect(bool(r) == (l in m) and r in (True, False), "remove_layer(%s, %r) reported %r, layer present: %r", l, op[2], r, l in m)
                if l in m:
                    for x, f in refs:
                        del m[x]["f"][f]
                        for rec in m[x]["n"]:
                            rec[1].pop(f, None)
                    del m[l]
        elif l not in m:
            continue
        elif k == "add":
            _, _, f, t, init = op
            if f in m[l]["f"]:
                raises((model.SchemaValidationError, ValueError), lambda: d[l].add_field(f, mktype(t), init_with_default=init), "adding an existing field")
            else:
                d[l].add_field(f, mktype(t), init_with_default=init)
                m[l]["f"][f] = (t, None)
                if init and dflt(t) is not None:
                    for rec in m[l]["n"]:
                        rec[1][f] = dflt(t)
        elif k == "rm":
            _, _, f, leave = op
            r = d[l].remove_field(f, leave_data=leave)
            expect(r in (True, False) and bool(r) == (f in m[l]["f"]), "remove_field(%s.%s) reported %r", l, f, r)
            if f in m[l]["f"]:
                del m[l]["f"][f]
                if not leave:
                    for rec in m[l]["n"]:
                        rec[1].pop(f, None)
        elif k == "node":
            n = d[l].add()
            rec = [n, defaults(l)]
            m[l]["n"].append(rec)
            every.append(rec)
        elif k == "bulk":
            n = Node({})
            d[l].add_many([n], full_validation=False)
            rec = [n, defaults(l)]
            m[l]["n"].append(rec)
            every.append(rec)
        elif k == "drop" and m[l]["n"]:
            rec = m[l]["n"].pop(op[2] % len(m[l]["n"]))
            d[l].remove(rec[0])
        # ------------------------------------------------ compare
        expect_eq(list(d.layers.keys()), list(m.keys()), "layers after %r" % op)
        for x in m:
            L = d[x]
            expect(L is handles[x], "layer object %s was replaced", x)
            expect_eq({f: t.typename for f, t in L.schema.fields.items()}, {f: mktype(t).typename for f, (t, _) in m[x]["f"].items()}, "schema of %s after %r" % (x, op))
            for f, (t, _) in m[x]["f"].items():
                expect(L.schema.fields[f] == mktype(t), "type of %s.%s after %r", x, f, op)
            expect(set(L.schema.fields) == set(L.fieldtypes), "field types of layer %s", x)
            expect([id(n) for n in L] == [id(r[0]) for r in m[x]["n"]], "nodes of layer %s after %r", x, op)
            fresh = L.add()
            expect_eq({f: fresh[f] for f in fresh.keys()}, defaults(x), "a new node of %s after %r" % (x, op))
            L.remove(fresh)
            L.compact()
        for n, vals in every:
            got = {f: n[f] for f in n.keys()}
            expect(got == vals and all(type(got[f]) is type(vals[f]) for f in got), "node fields after %r: got %r expected %r", op, got, vals)
    return True


FAMILIES = [Family("history", gen, run, 1, "random histories of add_field, remove_field, remove_layer over random layer reference graphs, with nodes added and removed in between; also all reference kinds over two layers")]
