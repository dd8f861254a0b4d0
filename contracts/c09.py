"""C09: what is written to a collection is what is read back (writer side; the reader side is shared with C10)."""
from .c10 import *
from .msgio import _s, _t

P = "C09"
WR = "collection.MsgpackDocumentWriter."
AX = lambda E: MSG_AXIOMS


class Claims(Layout):
    """the layout facts as single named claims, for writing states"""
    def __init__(self, E, F, nb, N, fns, H):
        self.E, self.F, self.nb, self.N, self.H = E, F, nb, N, H
        self.bpos, self.first, self.buf, self.blk, self.dpos, self.D = fns


def sym_layout(E, F):
    lay = Layout(E, F, "w")
    E.assume(*lay.facts())
    return lay


def pending(E, lay, X, m):
    """documents N .. N+m-1 wait in the current block's buffer"""
    i = Int("i")
    N = lay.N
    body = Implies(And(N <= i, i < N + m), And(lay.blk(i) == lay.nb, ok(X, lay.dpos(i)), tokval(X, lay.dpos(i)) == Val.vbyt(lay.D(i)), lay.dpos(i) >= 0, Implies(i == N, lay.dpos(i) == 0),
                                               If(i + 1 < N + m, And(lay.dpos(i + 1) == lay.dpos(i) + wd(X, lay.dpos(i)), lay.blk(i + 1) == lay.nb),
                                                  sq_len(X) == lay.dpos(i) + wd(X, lay.dpos(i)))))
    return [m >= 0, Implies(m == 0, sq_len(X) == 0)] + [FA([i], body, [p]) for p in (lay.dpos(i), lay.blk(i), lay.D(i))]


def check_pending(E, lay, X, m, name):
    out = pending(E, lay, X, m)
    E.check(name + ": no documents, no bytes", And(out[0], out[1]))
    E.check(name + ": the waiting documents", out[2])


def check_layout(E, lay, name):
    f = lay.facts()
    E.check(name + ": extent", And(*f[:7]))
    E.check(name + ": blocks", f[7])
    E.check(name + ": block positions ascend", f[10])
    E.check(name + ": documents", f[11])
    E.check(name + ": block of a document", f[14])


def sym_writer(E):
    kind = ["RawIO", "_BoundaryWriter"][E.choose_n(2)]
    out = sym_ref(E, kind, "outputio")
    w = sym_ref(E, "MsgpackDocumentWriter", "writer")
    E.assume(E.heap.sel("F.outputio", w.t) == out.t)
    h = E.heap
    cb = h.sel("F.currentblock", w.t)
    E.assume(cb > 0, cb < h.alloc, cb != out.t, cls(cb) == E.prog.class_ids["RawIO"])
    F = E.named(h.sel("F.#data", out.t), "file")
    X = E.named(h.sel("F.#data", cb), "buffer")
    m = E.named(h.sel("F.current_block_count", w.t), "m")
    lay = sym_layout(E, F)
    E.assume(*pending(E, lay, X, m))
    return w, out, lay, X, m


def setup_writer(E):
    setup_msg(E)
    # C11: the boundary writer carries the payload unchanged; a split adds nothing to it
    E.summaries["collection._BoundaryWriter.write"] = lambda E, a, k: bw_write(E, a)
    E.summaries["collection._BoundaryWriter.split"] = lambda E, a, k: NONE
    E.summaries["collection._BoundaryWriter.close"] = lambda E, a, k: NONE


def bw_write(E, a):
    s, x = a[0], E.force(a[1], BytV)
    E.hput("F.#data", s.t, sq_cat(E.hget("F.#data", s.t), x.t))
    return IntV(sq_len(x.t))


def grown(E, lay, X, m, F2):
    """the layout in which the waiting documents form the last block"""
    fn = lambda n, *s: E.fresh_fn(n + "_2", *s)
    b = Int("b")
    bpos, first, buf = fn("bpos", I, I), fn("first", I, I), fn("buf", I, Sq)
    nb, N = lay.nb, lay.N
    E.assume(FA([b], bpos(b) == If(b == nb + 1, sq_len(F2), lay.bpos(b)), [bpos(b)]),
             FA([b], first(b) == If(b == nb + 1, N + m, lay.first(b)), [first(b)]),
             FA([b], buf(b) == If(b == nb, X, lay.buf(b)), [buf(b)]))
    E.assume(seen(lay.bpos(nb)), seen(lay.first(nb)))
    return Claims(E, F2, nb + 1, N + m, (bpos, first, buf, lay.blk, lay.dpos, lay.D), lay.H)


def with_doc(E, lay, m, data, X2, X):
    """the documents with one more waiting at the end"""
    fn = lambda n, *s: E.fresh_fn(n + "_1", *s)
    i = Int("i")
    blk, dpos, D = fn("blk", I, I), fn("dpos", I, I), fn("doc", I, Sq)
    k = lay.N + m
    E.assume(FA([i], blk(i) == If(i == k, lay.nb, lay.blk(i)), [blk(i)]), FA([i], dpos(i) == If(i == k, sq_len(X), lay.dpos(i)), [dpos(i)]),
             FA([i], D(i) == If(i == k, data, lay.D(i)), [D(i)]))
    E.assume(seen(lay.blk(k - 1)), seen(blk(k)))
    return Claims(E, lay.F, lay.nb, lay.N, (lay.bpos, lay.first, lay.buf, blk, dpos, D), lay.H)


def state(E, w):
    h = E.heap
    return h.sel("F.#data", h.sel("F.outputio", w.t)), h.sel("F.#data", h.sel("F.currentblock", w.t)), h.sel("F.current_block_count", w.t)


def separate_w(E, w, out):
    h = E.heap
    cb = h.sel("F.currentblock", w.t)
    return And(h.sel("F.outputio", w.t) == out.t, cb > 0, cb < h.alloc, cb != out.t)


def check_flushed(E, w, out, lay, X, m):
    """the file now holds everything written"""
    F2, X2, m2 = state(E, w)
    E.check("the writer keeps its file and an own buffer", separate_w(E, w, out))
    E.check("nothing waits", And(m2 == 0, sq_len(X2) == 0))
    if E.choose(m == 0, "nothing was waiting"):
        E.check("the file is unchanged", F2 == lay.F)
        cover(E, "nothing to flush")
        return
    check_layout(E, grown(E, lay, X, m, F2), "the file holds one more block, with the waiting documents in order")
    cover(E, "flushed")


@unit(P, "flush stores the waiting documents as the next block", [WR + "flush"], axioms=AX, setup=setup_writer)
def _(E):
    w, out, lay, X, m = sym_writer(E)
    o = call(E, WR + "flush", [w])
    no_exc(E, o)
    check_flushed(E, w, out, lay, X, m)


@unit(P, "close stores everything", [WR + "close", WR + "flush", WR + "__exit__"], axioms=AX, setup=setup_writer)
def _(E):
    w, out, lay, X, m = sym_writer(E)
    if E.choose_n(2):
        o = call(E, WR + "close", [w])
    else:
        o = call(E, WR + "__exit__", [w, sym_any(E, "et"), sym_any(E, "ev"), sym_any(E, "tb")])
        if not o.raised:
            E.check("errors are not swallowed", Not(E.truth(o.val)) if not isinstance(o.val, NoneT) else BoolVal(True))
    no_exc(E, o)
    check_flushed(E, w, out, lay, X, m)


@unit(P, "write appends one document", [WR + "write", WR + "flush"], axioms=AX, setup=setup_writer)
def _(E):
    w, out, lay, X, m = sym_writer(E)
    if E.choose_n(2):
        doc = sym_ref(E, "MsgpackDocument", "doc")
        raw = E.heap.sel("F.rawdata", doc.t)
        E.assume(raw > 0, raw < E.heap.alloc, cls(raw) == E.prog.class_ids["RawIO"], raw != out.t, raw != E.heap.sel("F.currentblock", w.t))
        data = E.named(E.heap.sel("F.#data", raw), "data")
        cover(E, "encoded document")
    else:
        doc = sym_ref(E, "Document", "doc")
        data = E.fresh("data", Sq)

        def s_encode(E, a, k):
            E.check("the document itself is encoded", a[0].t == doc.t)
            return BytV(data)
        E.summaries["codec.MsgpackCodec.encode"] = s_encode
        cover(E, "document")
    o = call(E, WR + "write", [w, doc])
    no_exc(E, o)
    F2, X2, m2 = state(E, w)
    E.check("the writer keeps its file and an own buffer", separate_w(E, w, out))
    X1 = E.named(sq_cat(X, enc(Val.vbyt(data))), "X1")
    lay1 = with_doc(E, lay, m, data, X1, X)
    if E.choose(m2 == 0, "block full"):
        E.check("empty buffer", sq_len(X2) == 0)
        check_pending(E, lay1, X1, m + 1, "the block to store")
        E.assume(*pending(E, lay1, X1, m + 1))
        E.check("the documents before are unaffected", lay1.facts()[11])
        E.assume(*lay1.facts())
        lay2 = grown(E, lay1, X1, m + 1, F2)
        check_layout(E, lay2, "the file holds the full block")
        cover(E, "flush")
    else:
        E.check("one more document waits", m2 == m + 1)
        E.check("the file is unchanged", F2 == lay.F)
        check_pending(E, lay1, X2, m + 1, "the document waits last")
        E.check("the documents before are unaffected", lay1.facts()[11])
        cover(E, "wait")


@unit(P, "anything but a document is rejected", [WR + "write"], axioms=AX, setup=setup_writer)
def _(E):
    w, out, lay, X, m = sym_writer(E)
    doc = [NONE, sym_int(E, "n"), sym_str(E, "s"), BytV(E.fresh("y", Sq)), sym_ref(E, "Node", "node")][E.choose_n(5)]
    o = call(E, WR + "write", [w, doc])
    E.check("rejected (%s)" % o.exc, BoolVal(o.raised and o.exc == "ValueError"))
    F2, X2, m2 = state(E, w)
    E.check("nothing was stored", And(F2 == lay.F, X2 == X, m2 == m))
    cover(E, "end")


_a, _b = Ints("a_c b_c")
SLICE_CAT = FA([_s, _t, _a, _b], Implies(And(0 <= _a, _a <= _b, _b <= sq_len(_s)), sq_slice(sq_cat(_s, _t), _a, _b) == sq_slice(_s, _a, _b)), [sq_slice(sq_cat(_s, _t), _a, _b)])


@unit(P, "a new collection is empty and readable", [WR + "__init__"], axioms=lambda E: MSG_AXIOMS + [SLICE_CAT], setup=setup_writer)
def _(E):
    kind = ["RawIO", "_BoundaryWriter"][E.choose_n(2)]
    out = sym_ref(E, kind, "outputio")
    E.assume(E.heap.sel("F.#data", out.t) == sq_empty)
    codec = sym_ref(E, "CompressionCodec", "codec")
    E.attr_hooks[("CompressionCodec", "name")] = lambda E, o: StrV(E.ghost["codecname"])
    E.ghost["codecname"] = E.fresh("codecname", Sq)
    E.attr_hooks[("CompressionCodec", "compress")] = lambda E, o: AnyV(E.fresh("compress", Val))
    n = sym_int(E, "n")
    try:
        w = E.construct("MsgpackDocumentWriter", [out, n, codec], {})
    except PyExc as e:
        E.check("a collection can be created (%s)" % e.kind, BoolVal(False))
        return
    F, X, m = state(E, w)
    E.check("the writer keeps its file and an own buffer", separate_w(E, w, out))
    E.check("nothing waits", And(m == 0, sq_len(X) == 0))
    p1 = 4 + wd(F, 4)
    p2 = p1 + wd(F, p1)
    E.check("header: magic", And(sq_len(F) >= 4, sq_slice(F, 0, 4) == E.const(b"Dmf1").t))
    E.check("header: codec name", And(ok(F, 4), tokval(F, 4) == Val.vstr(E.ghost["codecname"])))
    E.check("header: block size", And(ok(F, p1), tokval(F, p1) == Val.vint(n.t)))
    E.check("header: no properties", And(ok(F, p2), tokval(F, p2) == Val.vbool(False)))
    E.check("no blocks follow", p2 + wd(F, p2) == sq_len(F))
    E.check("block size in use", E.heap.sel("F.num_docs_per_block", w.t) == n.t)
    cover(E, "end")
