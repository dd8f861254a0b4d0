"""C10: random access and index search return exactly the right documents."""
from .msgio import *

P = "C10"
RD = "collection.MsgpackDocumentReader."
BK = "collection.MsgpackDocumentBlock."
AX = lambda E: MSG_AXIOMS


# ---------------------------------------------------------------- reader states over a file layout
def sym_source(E):
    """an open collection file with its layout"""
    io = sym_ref(E, "RawIO", "inputio")
    F = E.named(E.heap.sel("F.#data", io.t), "file")
    lay = Layout(E, F)
    E.assume(*lay.facts())
    return io, lay


def block_ok(E, lay, k, b, h=None):
    """block object k is block b of the file, at any position"""
    h = h or E.heap
    d = h.sel("F._data", k)
    u = h.sel("F._unpacker", k)
    return And(k > 0, k < h.alloc, cls(k) == E.prog.class_ids["MsgpackDocumentBlock"], h.sel("F._position", k) == lay.bpos(b), 0 <= b, b < lay.nb,
               d > 0, d < h.alloc, h.sel("F.#data", d) == lay.buf(b), u > 0, u < h.alloc, h.sel("F.#src", u) == d, cls(u) == E.prog.class_ids["Unpacker"],
               h.sel("F.#base", u) == h.sel("F._dataread", k), h.sel("F.#up", u) >= 0)


def block_at(E, lay, k, b, i, h=None):
    """... and reads document i next"""
    h = h or E.heap
    return And(block_ok(E, lay, k, b, h), lay.first(b) <= i, i <= lay.first(b + 1), upos(E, h.sel("F._unpacker", k), h) == lay.cur(b, i))


def reader_ok(E, lay, r, io, h=None):
    h = h or E.heap
    u = h.sel("F.unpacker", r)
    return And(h.sel("F.inputio", r) == io, h.sel("F.#data", io) == lay.F, u > 0, u < h.alloc, h.sel("F.#src", u) == io, cls(u) == E.prog.class_ids["Unpacker"],
               h.sel("F.#base", u) == h.sel("F.dataread", r), h.sel("F.#up", u) >= 0)


def stream_at(E, lay, r, b, h=None):
    """the reader's stream is at the start of block b (or at the end)"""
    h = h or E.heap
    return And(0 <= b, b <= lay.nb, upos(E, h.sel("F.unpacker", r), h) == lay.bpos(b))


def blk_of(E, r, h=None):
    return (h or E.heap).sel("F.block", r)


def cached(E, lay, r, b, h=None):
    """the cached block, if any, is block b"""
    v = blk_of(E, r, h)
    return Or(v == none, And(Val.is_vref(v), block_ok(E, lay, Val.r(v), b, h)))


def seq_state(E, lay, r, b, i, h=None):
    """sequential reading continues with document i: from the cached block b, or from the stream at block b"""
    v = blk_of(E, r, h)
    return Or(And(v == none, stream_at(E, lay, r, b, h), i == lay.first(b)),
              And(Val.is_vref(v), block_at(E, lay, Val.r(v), b, i, h), stream_at(E, lay, r, b + 1, h)))


def sym_reader(E):
    io, lay = sym_source(E)
    r = sym_ref(E, "MsgpackDocumentReader", "reader")
    E.assume(reader_ok(E, lay, r.t, io.t))
    return r, io, lay


def separate(E, r, io, h=None):
    """the cached block's buffer is not the file itself"""
    h = h or E.heap
    v = blk_of(E, r, h)
    return Implies(Val.is_vref(v), And(h.sel("F._data", Val.r(v)) != io, h.sel("F._unpacker", Val.r(v)) != h.sel("F.unpacker", r)))


def doc_is(E, v, data, h=None):
    """a document handle over exactly these bytes"""
    h = h or E.heap
    raw = h.sel("F.rawdata", v.t)
    return h.sel("F.#data", raw) == data


MAGIC = lambda E: E.const(b"DM_1").t


def docs_magic(E, lay):
    """stored documents start with the document header (what MsgpackDocument requires)"""
    i = Int("i")
    E.assume(FA([i], Implies(And(0 <= i, i < lay.N), And(sq_len(lay.D(i)) >= 4, sq_slice(lay.D(i), 0, 4) == MAGIC(E))), [lay.D(i)]))


def ref_is(E, v, a, b):
    t = E.to_val(E.getfield(v, "ref"))
    return And(t == E.to_val(TupV([IntV(a), IntV(b)])))


@unit(P, "readblock returns the block the stream is at", [RD + "readblock", BK + "__init__"], axioms=AX, setup=setup_reader)
def _(E):
    r, io, lay = sym_reader(E)
    b = E.fresh("b", I)
    E.assume(stream_at(E, lay, r.t, b))
    blk0 = blk_of(E, r.t)
    o = call(E, RD + "readblock", [r])
    no_exc(E, o)
    E.check("the reader stays on the file", reader_ok(E, lay, r.t, io.t))
    E.check("the cached block is not touched", blk_of(E, r.t) == blk0)
    if isinstance(o.val, NoneT):
        E.check("no block only at the end", b == lay.nb)
        E.check("the stream stays at the end", stream_at(E, lay, r.t, b))
        cover(E, "end of file")
        return
    E.check("a block only before the end", b < lay.nb)
    E.check("the block at the stream position, at its first document", block_at(E, lay, o.val.t, b, lay.first(b)))
    E.check("the stream moves to the next block", stream_at(E, lay, r.t, b + 1))
    cover(E, "block")


@unit(P, "the reference of a document fetches that document", [RD + "get", RD + "seek", RD + "readblock", BK + "seek", BK + "__next__", BK + "tell", "codec.MsgpackDocument.__init__"], axioms=AX, setup=setup_reader)
def _(E):
    r, io, lay = sym_reader(E)
    docs_magic(E, lay)
    c, i = E.fresh("c", I), E.fresh("i", I)
    E.assume(cached(E, lay, r.t, c), separate(E, r.t, io.t))
    E.assume(0 <= i, i < lay.N, seen(lay.blk(i)), seen(lay.bpos(lay.blk(i))))
    ref = TupV([IntV(lay.bpos(lay.blk(i))), IntV(lay.dpos(i))])
    o = call(E, RD + "get", [r, ref])
    no_exc(E, o)
    b = lay.blk(i)
    E.check("the document of the reference", doc_is(E, o.val, lay.D(i)))
    E.check("it carries the same reference", ref_is(E, o.val, lay.bpos(b), lay.dpos(i)))
    E.check("the reader stays on the file", reader_ok(E, lay, r.t, io.t))
    v = blk_of(E, r.t)
    E.check("its block is cached, reading on after the document", And(Val.is_vref(v), block_at(E, lay, Val.r(v), b, i + 1)))
    E.check("the cached block has its own buffer", separate(E, r.t, io.t))
    cover(E, "end")


# ---------------------------------------------------------------- sequential reading
def next_spec():
    def inv(E, L):
        r = L.var("self")
        lay, io, i, b = E.unit_x["lay"], E.unit_x["io"], E.unit_x["i"], E.ghost["b"]
        return [("the reader stays on the file", reader_ok(E, lay, r.t, io.t)), ("own buffer", separate(E, r.t, io.t)),
                ("reading continues with the same document", And(seq_state(E, lay, r.t, b, i), blk_of(E, r.t) == none)),
                ("in range", And(0 <= b, b <= lay.nb))]

    def pre(E, L):
        E.gset("b", If(Val.is_vref(E.unit_x["block0"]), E.unit_x["b"] + 1, E.unit_x["b"]))

    def hints(E, L, where):
        b, lay = E.ghost["b"], E.unit_x["lay"]
        E.assume(seen(lay.bpos(b)), seen(lay.first(b)), seen(lay.blk(E.unit_x["i"])), seen(lay.first(b + 1)))

    def after(E, L2, L1):
        E.gset("b", E.ghost["b"] + 1)
    return LoopSpec(inv, variant=lambda E, L: E.unit_x["lay"].nb - E.ghost["b"], pre=pre, hints=hints, after=after, ghosts=("b",))


@unit(["C10", "C09"], "sequential reading returns the next document of the file", [RD + "__next__", RD + "readblock", BK + "__init__", BK + "tell", "codec.MsgpackDocument.__init__"],
      axioms=AX, setup=setup_reader, loops={RD + "__next__": [next_spec()]})
def _(E):
    r, io, lay = sym_reader(E)
    docs_magic(E, lay)
    b, i = E.fresh("b", I), E.fresh("i", I)
    E.assume(0 <= i, i <= lay.N, seq_state(E, lay, r.t, b, i), separate(E, r.t, io.t))
    E.assume(seen(lay.blk(i)), seen(lay.bpos(b)), seen(lay.bpos(b + 1)), seen(lay.blk(i + 1)))
    E.unit_x = dict(lay=lay, io=io, i=i, b=b, block0=blk_of(E, r.t))
    E.ghost["b"] = b
    o = call(E, RD + "__next__", [r])
    E.check("the reader stays on the file", reader_ok(E, lay, r.t, io.t))
    E.check("the cached block has its own buffer", separate(E, r.t, io.t))
    if o.raised:
        E.check("stops (%s) only after the last document" % o.exc, And(BoolVal(o.exc == "StopIteration"), i == lay.N))
        E.check("stays at the end", seq_state(E, lay, r.t, lay.nb, i))
        cover(E, "end of file")
        return
    E.check("before the end", i < lay.N)
    c = lay.blk(i)
    E.check("the next document, byte for byte", doc_is(E, o.val, lay.D(i)))
    E.check("its reference names the block and position it was read from", ref_is(E, o.val, lay.bpos(c), lay.dpos(i)))
    E.check("reading continues with the following document", seq_state(E, lay, r.t, c, i + 1))
    cover(E, "document")


@unit(["C10", "C09"], "iterating a block returns its documents in order", [BK + "__next__", BK + "tell"], axioms=AX, setup=setup_reader)
def _(E):
    io, lay = sym_source(E)
    docs_magic(E, lay)
    k = sym_ref(E, "MsgpackDocumentBlock", "block")
    b, i = E.fresh("b", I), E.fresh("i", I)
    E.assume(block_at(E, lay, k.t, b, i), seen(lay.blk(i)), seen(lay.bpos(b)), seen(lay.blk(i + 1)))
    o = call(E, BK + "__next__", [k])
    if o.raised:
        E.check("stops (%s) only at the end of the block" % o.exc, And(BoolVal(o.exc == "StopIteration"), i == lay.first(b + 1)))
        E.check("stays there", block_at(E, lay, k.t, b, i))
        cover(E, "end of block")
        return
    E.check("before the end of the block", i < lay.first(b + 1))
    E.check("the next document, byte for byte", doc_is(E, o.val, lay.D(i)))
    E.check("its reference names the block and position it was read from", ref_is(E, o.val, lay.bpos(b), lay.dpos(i)))
    E.check("iteration continues with the following document", block_at(E, lay, k.t, b, i + 1))
    cover(E, "document")


@unit(["C10", "C09"], "opening a collection positions the reader at its first block", [RD + "__init__"], axioms=AX, setup=setup_msg)
def _(E):
    io = sym_ref(E, "RawIO", "inputio")
    F = E.named(E.heap.sel("F.#data", io.t), "file")
    lay = Layout(E, F)
    E.assume(*lay.facts())
    E.assume(E.heap.sel("F.#pos", io.t) == 0)
    # header: magic, codec name, documents per block, flag
    p1 = 4 + wd(F, 4)
    p2 = p1 + wd(F, p1)
    E.assume(sq_len(F) >= 4, sq_slice(F, 0, 4) == E.const(b"Dmf1").t, ok(F, 4), Val.is_vstr(tokval(F, 4)), ok(F, p1), Val.is_vint(tokval(F, p1)), ok(F, p2), tokval(F, p2) == Val.vbool(False),
             lay.H == p2 + wd(F, p2))
    E.summaries["collection.get_codec"] = lambda E, a, k: RefV(E.alloc("CompressionCodec"), "CompressionCodec")
    E.attr_hooks[("CompressionCodec", "decompress")] = lambda E, o: AnyV(E.fresh("decompress", Val))
    try:
        r = E.construct("MsgpackDocumentReader", [io], {})
    except PyExc as e:
        E.check("a valid file opens (%s)" % e.kind, BoolVal(False))
        return
    E.check("the reader is on the file", reader_ok(E, lay, r.t, io.t))
    E.check("reading starts with the first document", seq_state(E, lay, r.t, IntVal(0), IntVal(0)))
    cover(E, "end")
