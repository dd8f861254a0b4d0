"""C02 companion: random edit histories over two layers against plain python lists."""
from .lib import *
from docria.model import Document, Node, DataTypes as T, NodeLayerCollection
from docria.codec import MsgpackCodec


class Boom(Exception):
    pass


def mkdoc():
    doc = Document()
    doc.add_layer("a", v=T.int32(), w=T.int32(default=7))
    doc.add_layer("b", v=T.int32(), w=T.int32())
    return doc


def observe(layers, model, removed, what):
    for nm, L in layers.items():
        m = model[nm]
        got = list(L)
        expect(len(got) == len(m) and all(x is y for x, y in zip(got, m)), "%s: layer %s holds %s, expected %s", what, nm, [n["v"] for n in got], [n["v"] for n in m])
        expect_eq(len(L), len(m), "%s: len of %s" % (what, nm))
        ids = [n.i for n in m]
        expect(all(x < y for x, y in zip(ids, ids[1:])), "%s: indices out of order in %s: %s", what, nm, ids)
        for n in m:
            expect(n.collection is L and not n.is_dangling() and n in L, "%s: node %s of %s is not attached", what, n["v"], nm)
            expect(L[n.i] is n, "%s: layer[node.i] is not the node", what)
            expect(L[n] is n, "%s: layer[node] is not the node", what)
        expect(L.first() is (m[0] if m else None) and L.last() is (m[-1] if m else None), "%s: first/last of %s", what, nm)
        sl = L[0:max(ids) + 1] if ids else []
        expect(len(sl) == len(m) and all(x is y for x, y in zip(sl, m)), "%s: slice of %s", what, nm)
    for n in removed:
        expect(n.is_dangling() and n.collection is None and all(n not in L for L in layers.values()), "%s: removed node still attached", what)


def state(layers):
    return {nm: [(id(n), n.i) for n in L] for nm, L in layers.items()}


OPS = ["add", "addn", "addmany", "addgen", "addbad", "addbound", "addmanybad", "rm", "rmlist", "rmgen", "rmall", "rmforeign", "rmbadlist", "rmnone", "del", "detach",
       "retain", "retaingen", "retainforeign", "retainempty", "sort", "sortdup", "sortfail", "compact", "compile", "encode", "readd", "rmmost", "rmdangling", "rminvalid", "rmtwice", "addpart"]


def step(doc, layers, model, removed, op, nm, r, counter):
    L, m = layers[nm], model[nm]
    other = "b" if nm == "a" else "a"

    def new():
        counter[0] += 1
        return Node(v=r % 5 * 1000 + counter[0])

    def pick(k):
        return m[k % len(m)] if m else None

    def subset(mask):
        return [n for i, n in enumerate(m) if (mask >> (i % 13)) & 1]

    def gone(ns):
        for n in ns:
            m[:] = [x for x in m if x is not n]
            removed.append(n)

    def unchanged(fn, exc, what):
        before = state(layers)
        raises(exc, fn, what)
        expect_eq(state(layers), before, what + " must change nothing")
    if op == "add":
        counter[0] += 1
        n = L.add(v=counter[0])
        m.append(n)
        if nm == "a":
            expect_eq(n["w"], 7, "default filled")
    elif op == "addn":
        ns = [new() for _ in range(r % 4 + 1)]
        L.add(*ns)
        m.extend(ns)
    elif op in ("addmany", "addgen"):
        ns = [new() for _ in range(r % 9)]
        L.add_many(ns if op == "addmany" else (x for x in ns), default_fill=bool(r & 1), full_validation=bool(r & 2))
        m.extend(ns)
        if nm == "a" and r & 1:
            for n in ns:
                expect_eq(n.get("w"), 7, "default filled")
    elif op == "addbad":
        before = state(layers)
        raises((AssertionError, ValueError), lambda: L.add(v="text"), "add with a bad value")
        expect_eq(state(layers), before, "rejected add")
        raises((AssertionError, ValueError), lambda: L.add(5), "add of a non-node")
        expect_eq(state(layers), before, "rejected add")
    elif op == "addbound":
        for n in [pick(r)] + model[other][:1]:
            if n is not None:
                unchanged(lambda: L.add(n), AssertionError, "adding a bound node")
                unchanged(lambda: L.add_many([n]), AssertionError, "adding a bound node")
    elif op == "addpart":
        ns = [new(), new()]
        raises((AssertionError, ValueError), lambda: L.add(ns[0], ns[1], 17), "add of a non-node")
        m.extend(n for n in ns if n.collection is L)
    elif op == "addmanybad":
        ns = [new() for _ in range(3)]
        raises((AssertionError, ValueError), lambda: L.add_many(ns + [None]), "add_many of a non-node")
        m.extend(n for n in ns if n.collection is L)
        expect(all(n.collection in (None, L) for n in ns), "partly added nodes")
    elif op in ("rm", "del", "detach", "rmtwice"):
        n = pick(r)
        if n is not None:
            if op == "rm":
                L.remove(n)
            elif op == "del":
                del L[n]
            elif op == "detach":
                n.detach()
            else:
                L.remove(n)
                raises((ValueError, AttributeError), lambda: L.remove(n), "removing twice")
            gone([n])
    elif op in ("rmlist", "rmgen", "rmnone"):
        ns = subset(r)
        if op == "rmnone":
            L.remove([None] + ns + [None])
        else:
            L.remove(ns if op == "rmlist" else (x for x in ns))
        gone(ns)
    elif op == "rmmost":
        ns = [n for i, n in enumerate(m) if i % 7 != r % 7]
        L.remove(ns)
        gone(ns)
    elif op == "rmall":
        ns = list(m)
        L.remove(L)
        gone(ns)
    elif op == "rmforeign":
        if model[other]:
            unchanged(lambda: L.remove(model[other][0]), ValueError, "removing a node of another layer")
    elif op == "rmdangling":
        unchanged(lambda: L.remove(Node(v=1)), ValueError, "removing a dangling node")
    elif op == "rminvalid":
        unchanged(lambda: L.remove(17), ValueError, "removing a number")
        unchanged(lambda: L.remove(["x"]), ValueError, "removing a string")
    elif op == "rmbadlist":
        if model[other]:
            ns = subset(r)
            raises(ValueError, lambda: L.remove(ns + [model[other][0]]), "removing a node of another layer")
            gone([n for n in ns if n.collection is None])
    elif op in ("retain", "retaingen"):
        ns = subset(r)
        rest = [n for n in m if not any(n is x for x in ns)]
        ns2 = list(reversed(ns)) + ns[:1]
        L.retain(ns2 if op == "retain" else (x for x in ns2))
        gone(rest)
    elif op == "retainempty":
        if r % 3 == 0:
            ns = list(m)
            L.retain([])
            gone(ns)
    elif op == "retainforeign":
        if model[other]:
            unchanged(lambda: L.retain(subset(r) + [model[other][0]]), ValueError, "retaining a node of another layer")
        unchanged(lambda: L.retain(5), ValueError, "retaining a number")
    elif op in ("sort", "sortdup"):
        key = (lambda n: -n["v"]) if op == "sort" else (lambda n: n["v"] % 3)
        L.sort(key)
        m.sort(key=key)
    elif op == "sortfail":
        if len(m) > 1:
            bad = pick(r)

            def key(n):
                if n is bad:
                    raise Boom()
                return -n["v"]
            before = [id(n) for n in L]
            raises(Boom, lambda: L.sort(key), "sort with a failing key")
            expect_eq([id(n) for n in L], before, "failed sort keeps the order")
            raises(TypeError, lambda: L.sort(lambda n: "x" if n is bad else 1), "sort with incomparable keys")
            expect_eq([id(n) for n in L], before, "failed sort keeps the order")
    elif op == "compact":
        L.compact()
        expect_eq([n.i for n in m], list(range(len(m))), "indices after compact")
    elif op == "compile":
        doc.compile()
        expect_eq([n.i for n in m], list(range(len(m))), "indices after compile")
    elif op == "encode":
        MsgpackCodec.encode(doc)
    elif op == "readd":
        if removed:
            n = removed.pop(r % len(removed))
            L.add(n)
            m.append(n)


def gen_hist(rng, tier):
    for op in OPS:
        for nm in "ab":
            for r in (0, 1, 5, 0x5a5, 0x1fff):
                yield {"n": [20, 3], "ops": [["rm", nm, 1], [op, nm, r], ["rm", nm, 0], [op, nm, r + 1]]}
    while True:
        k = rng.choice([1, 3, 6, 15, 40])
        yield {"n": [rng.choice([0, 1, 4, 16, 17, 20, 40]), rng.choice([0, 2, 5])],
               "ops": [[rng.choice(OPS), rng.choice("aab"), rng.randrange(8192)] for _ in range(k)]}


def run_hist(p):
    doc = mkdoc()
    layers = {"a": doc["a"], "b": doc["b"]}
    model = {"a": [], "b": []}
    removed = []
    counter = [0]
    for nm, n in zip("ab", p["n"]):
        for _ in range(n):
            step(doc, layers, model, removed, "add", nm, 0, counter)
    for k, (op, nm, r) in enumerate(p["ops"]):
        step(doc, layers, model, removed, op, nm, r, counter)
        observe(layers, model, removed, "after step %d %s(%s)" % (k, op, nm))


FAMILIES = [Family("history", gen_hist, run_hist, 1.0, "edit histories of 1-40 operations on two layers of 0-40 nodes")]
