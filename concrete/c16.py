"""C16 companion: traversals of random graphs against textbook definitions."""
import itertools
from .lib import *
from docria.model import Document, NodeList, NodeSpan, DataTypes as T
from docria.algorithm import bfs, dfs, dfs_leaves, children_of


def gen(rng, tier):
    for n in (1, 2, 3):
        nodes = list(range(n))
        lists = [list(c) for k in range(0, 3) for c in itertools.product(nodes, repeat=k)]
        if n == 3:
            lists = [[], [0], [1], [2], [1, 2], [2, 1], [1, 1], [2, 0]]
        for adj in itertools.product(lists, repeat=n):
            yield {"adj": [list(a) for a in adj], "start": 0, "filt": None}
    for w in (5, 30, 70, 120):
        yield {"adj": [list(range(1, w + 1))] + [[w + k] for k in range(1, w + 1)] + [[] for _ in range(w)], "start": 0, "filt": None}
    yield {"adj": [[k + 1] for k in range(150)] + [[]], "start": 0, "filt": None}
    while True:
        if rng.random() < 0.1:
            n = rng.randrange(60, 200)
            adj = [[rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 2, 40]))] for _ in range(n)]
            adj[0] += rng.sample(range(n), n // 2)
            yield {"adj": adj, "start": 0, "filt": rng.choice([None, 2])}
            continue
        n = rng.randrange(2, 25)
        dens = rng.choice([1, 2, 4, 8])
        adj = [[rng.randrange(n) for _ in range(rng.randrange(0, dens + 1))] for _ in range(n)]
        if rng.random() < 0.3:
            adj = [[c for c in a if c > k] for k, a in enumerate(adj)]
        yield {"adj": adj, "start": rng.randrange(n), "filt": rng.choice([None, None, 2, 3])}


def build(p):
    doc = Document()
    doc.maintext = "x"
    L = doc.add_layer("g", v=T.int32(), to=T.noderef_many("g"))
    nodes = [L.add(v=k) for k in range(len(p["adj"]))]
    for k, a in enumerate(p["adj"]):
        if a:
            nodes[k]["to"] = NodeList([nodes[j] for j in a])
    return L, nodes


def run(p):
    adj, s, filt = p["adj"], p["start"], p["filt"]
    L, nodes = build(p)
    idx = lambda it: [x["v"] for x in it]
    keep = (lambda k: True) if filt is None else (lambda k: k % filt == 0)
    pred = () if filt is None else (lambda n: n["v"] % filt == 0,)
    dist = {s: 0}
    level = [s]
    while level:
        nxt = []
        for u in level:
            for w in adj[u]:
                if w not in dist:
                    dist[w] = dist[u] + 1
                    nxt.append(w)
        level = nxt
    order = []

    def visit(u):
        if u in order:
            return
        order.append(u)
        for w in adj[u]:
            visit(w)
    visit(s)
    one_shot = lambda n: iter([nodes[j] for j in adj[n["v"]]])
    for ch in (children_of(L, "to"), one_shot):
        got = list(bfs(nodes[s], ch, *pred))
        expect_eq(sorted((n["v"], d) for d, n in got), sorted((k, d) for k, d in dist.items() if keep(k)), "bfs of %s" % p)
        expect(all(a[0] <= b[0] for a, b in zip(got, got[1:])), "bfs depths of %s", p)
        expect_eq(idx(dfs(nodes[s], ch, *pred)), [k for k in order if keep(k)], "dfs of %s" % p)
        expect_eq(idx(dfs_leaves(nodes[s], ch, *pred)), [k for k in order if keep(k) and not adj[k]], "dfs_leaves of %s" % p)
    return len(dist) > 1


def gen_children(rng, tier):
    while True:
        n = rng.randrange(1, 7)
        fields = [[rng.choice(["one", "many"]), None] for _ in range(rng.randrange(1, 5))]
        vals = []
        for _ in range(n):
            row = []
            for kind, _x in fields:
                if rng.random() < 0.3:
                    row.append(None)
                elif kind == "one":
                    row.append(rng.randrange(n))
                else:
                    row.append([rng.randrange(n) for _ in range(rng.randrange(0, 4))])
            vals.append(row)
        yield {"fields": [f[0] for f in fields], "vals": vals, "order": rng.sample(range(len(fields)), len(fields)), "many": rng.choice([True, False])}


def run_children(p):
    doc = Document()
    doc.maintext = "x"
    names = ["f%d" % k for k in range(len(p["fields"]))]
    L = doc.add_layer("g", v=T.int32(), **{nm: (T.noderef("g") if k == "one" else T.noderef_many("g")) for nm, k in zip(names, p["fields"])})
    nodes = [L.add(v=k) for k in range(len(p["vals"]))]
    for n, row in zip(nodes, p["vals"]):
        for nm, v in zip(names, row):
            if isinstance(v, list):
                n[nm] = NodeList([nodes[j] for j in v])
            elif v is not None:
                n[nm] = nodes[v]
    use = p["order"] if p["many"] else p["order"][:1]
    ch = children_of(L, *[names[k] for k in use])
    for _ in range(2):
        for n, row in zip(nodes, p["vals"]):
            want = []
            for k in use:
                v = row[k]
                want += [] if v is None else v if isinstance(v, list) else [v]
            expect_eq([x["v"] for x in ch(n)], want, "children %s of %s" % (use, p))
    raises(ValueError, lambda: children_of(L, "v"), "children of an int field")
    if use:
        raises(ValueError, lambda: children_of(L, names[use[0]], "v"), "children of an int field among others")
    raises(ValueError, lambda: children_of(L), "children of no field")


FAMILIES = [Family("graphs", gen, run, 2.0, "all graphs of up to 2 nodes and many of 3, random ones up to 24 (some up to 200) nodes, cyclic and with repeated edges"),
            Family("fields", gen_children, run_children, 1.0, "1 to 4 reference fields")]
