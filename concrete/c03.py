"""C03 companion: every gap pattern of small layers, and random larger ones, against python lists."""
from .lib import *
from docria.model import Document, Node, NodeSpan, DataTypes as T


def build(n, gone):
    doc = Document()
    doc.maintext = "x" * (3 * n + 3)
    L = doc.add_layer("a", text=T.span())
    other = doc.add_layer("b", v=T.int32())
    nodes = [L.add(text=doc.maintext[3 * k:3 * k + 2]) for k in range(n)]
    for k in gone:
        nodes[k].detach()
    alive = [k for k in range(n) if k not in gone]
    return doc, L, nodes, alive, other


def gen(rng, tier):
    for n in range(0, 7):
        for mask in range(1 << n):
            yield {"n": n, "gone": [k for k in range(n) if mask >> k & 1]}
    while True:
        n = rng.randrange(7, 45)
        dens = rng.choice([0.1, 0.5, 0.9])
        yield {"n": n, "gone": [k for k in range(n) if rng.random() < dens]}


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def run(p):
    n, gone = p["n"], set(p["gone"])
    doc, L, nodes, alive, other = build(n, gone)
    m = [nodes[k] for k in alive]
    expect(L.first() is (m[0] if m else None), "first of %s", p)
    expect(L.last() is (m[-1] if m else None), "last of %s", p)
    for i, x in enumerate(m):
        l, r = (m[i - 1] if i else None), (m[i + 1] if i + 1 < len(m) else None)
        expect(x.left is l and L.left(x) is l, "left of node %d of %d in %s", i, len(m), p)
        expect(x.right is r and L.right(x) is r, "right of node %d of %d in %s", i, len(m), p)
    f = other.add(v=1)
    raises(AssertionError, lambda: L.left(f), "left of a foreign node")
    raises(AssertionError, lambda: L.right(f), "right of a foreign node")
    for k in gone:
        raises((AssertionError, AttributeError), lambda: L.left(nodes[k]), "left of a removed node")
    step = 1 if len(m) < 8 else max(1, len(m) // 6)
    for i in range(0, len(m), step):
        for j in range(i, len(m), step):
            x, y = m[i], m[j]
            want = m[i:j + 1]
            expect(same(x.iter_span(y), want), "iter_span %d..%d in %s", i, j, p)
            expect(same(y.iter_span(x), want), "iter_span %d..%d reversed in %s", i, j, p)
            expect(same(L.iter_nodespan(x, y), want), "iter_nodespan %d..%d in %s", i, j, p)
            s = NodeSpan(x, y)
            expect(same(s, want), "NodeSpan %d..%d in %s", i, j, p)
            expect_eq(len(s), len(want), "len(NodeSpan)")
            expect(s.first() is x and s.last() is y, "end points of NodeSpan")
            a, b = x["text"].start, y["text"].stop
            expect_eq(s.text(), doc.maintext.text[a:b], "NodeSpan.text")
            ts = s.textspan()
            expect_eq((ts.start, ts.stop), (a, b), "NodeSpan.textspan")
            if j > i:
                raises(AssertionError, lambda: NodeSpan(y, x), "NodeSpan out of order")
    if m:
        raises((AssertionError, AttributeError), lambda: NodeSpan(f, m[0]) if f.i <= m[0].i else NodeSpan(m[0], f), "NodeSpan over two layers")
    # spans keep their meaning after edits between the end points
    if len(m) > 3:
        s = NodeSpan(m[0], m[-1])
        m[1].detach()
        expect(same(s, [m[0]] + m[2:]), "NodeSpan after a removal")
        expect_eq(len(s), len(m) - 1, "len(NodeSpan) after a removal")
        L.compact()
        expect(same(s, [m[0]] + m[2:]), "NodeSpan after compaction")


FAMILIES = [Family("gaps", gen, run, 1.0, "all gap patterns up to 6 nodes, random up to 44 nodes")]
