"""Trusted contract of msgpack: a packed value is self-delimiting, and an unpacker returns the values of a stream in order.

ok(s, p): a complete packed value starts at byte p of s; tokval(s, p) is that value, wd(s, p) > 0 its number of bytes.
"""
from .streams import *
from . import streams

ok = Function("ok", Sq, I, B)
tokval = Function("tokval", Sq, I, Val)
wd = Function("wd", Sq, I, I)
enc = Function("enc", Val, Sq)
comp = Function("comp", Sq, Sq)
decomp = Function("decomp", Sq, Sq)

_s, _t = Consts("s_m t_m", Sq)
_p = Int("p_m")
_v = Const("v_m", Val)
MSG_AXIOMS = SEQ_AXIOMS + [
    FA([_v], And(ok(enc(_v), 0), tokval(enc(_v), 0) == _v, wd(enc(_v), 0) == sq_len(enc(_v)), sq_len(enc(_v)) > 0), [enc(_v)]),
    FA([_s, _p], Implies(ok(_s, _p), And(0 <= _p, wd(_s, _p) > 0, _p + wd(_s, _p) <= sq_len(_s))), [ok(_s, _p)]),
    # more bytes at the end do not change complete values
    FA([_s, _t, _p], Implies(And(ok(_s, _p)), And(ok(sq_cat(_s, _t), _p), tokval(sq_cat(_s, _t), _p) == tokval(_s, _p), wd(sq_cat(_s, _t), _p) == wd(_s, _p))),
       [ok(sq_cat(_s, _t), _p)]),
    FA([_s, _t, _p], Implies(And(ok(_s, _p)), And(ok(sq_cat(_s, _t), _p), tokval(sq_cat(_s, _t), _p) == tokval(_s, _p), wd(sq_cat(_s, _t), _p) == wd(_s, _p))),
       [(sq_cat(_s, _t), ok(_s, _p))]),
    # a value appended to a stream is found at its end
    FA([_s, _t], Implies(ok(_t, 0), And(ok(sq_cat(_s, _t), sq_len(_s)), tokval(sq_cat(_s, _t), sq_len(_s)) == tokval(_t, 0), wd(sq_cat(_s, _t), sq_len(_s)) == wd(_t, 0))),
       [sq_cat(_s, _t)]),
    FA([_s], decomp(comp(_s)) == _s, [comp(_s)]),
]

ATTRS.table.update({
    "#src": "RawIO", "#base": "int", "#up": "int", "packer": "Packer", "unpacker": "Unpacker", "_unpacker": "Unpacker", "_data": "RawIO", "currentblock": "RawIO",
    "current_block_count": "int", "num_docs_per_block": "int", "block": "?MsgpackDocumentBlock", "_position": "int", "_dataread": "int", "dataread": "int", "rawdata": "RawIO",
    "ref": "any", "_lastblockpos": "int", "num_doc_per_block": "any", "advanced": "any", "codec_name": "any",
    "MsgpackDocument._schema": "any", "MsgpackDocument._texts": "any", "MsgpackDocument._layers": "any", "MsgpackDocument._prop": "any", "_read_state": "int",
    "MsgpackDocumentWriter.codec": "any", "MsgpackDocumentReader.codec": "any",
})


def upos(E, u, h=None):
    h = h or E.heap
    return h.sel("F.#base", u) + h.sel("F.#up", u)


def new_unpacker(E, args, kw):
    src = args[0]
    u = RefV(E.alloc("Unpacker"), "Unpacker")
    E.hput("F.#src", u.t, src.t)
    E.hput("F.#base", u.t, E.hget("F.#pos", src.t))
    E.hput("F.#up", u.t, IntVal(0))
    return u


def new_bytesio(E, args, kw):
    d = RefV(E.alloc("RawIO"), "RawIO")
    E.hput("F.#data", d.t, E.force(args[0], BytV).t if args else sq_empty)
    E.hput("F.#pos", d.t, IntVal(0))
    return d


def u_next(E, u):
    src = E.hget("F.#src", u.t)
    d = E.hget("F.#data", src)
    p = upos(E, u.t)
    E.hput("F.#pos", src, E.nonneg(E.fresh("ahead", I)))       # reads ahead
    if E.choose(p >= sq_len(d), "end of stream"):
        raise PyExc("StopIteration")
    if getattr(E, "expect_bytes", False):
        E.check("a complete byte string is stored at the position read", And(ok(d, p), Val.is_vbyt(tokval(d, p))))
    elif not E.choose(ok(d, p), "complete value"):
        raise PyExc("OpaqueError")
    up = E.hget("F.#up", u.t)
    E.hput("F.#up", u.t, up + wd(d, p))
    v = tokval(d, p)
    if getattr(E, "expect_bytes", False) or E.choose(Val.is_vbyt(v), "bytes value"):
        return BytV(Val.y(v))
    return E.mk(v)


def b_unext(E, f, a, k):
    return u_next(E, f.self_)


def b_getvalue(E, f, a, k):
    return BytV(E.hget("F.#data", f.self_.t))


def b_pack(E, f, a, k):
    return BytV(enc(E.to_val(a[0])))


def setup_msg(E):
    streams.setup(E)
    E.external_kinds = ("RawIO", "Unpacker", "Packer")
    E.builtin_hooks.update({
        "Unpacker.__next__": b_unext, "Unpacker.tell": lambda E, f, a, k: IntV(E.hget("F.#up", f.self_.t)),
        "Packer.pack": b_pack, "RawIO.getvalue": b_getvalue,
    })
    E.globals_hooks["Unpacker"] = lambda E: OpaqueFn("Unpacker", new_unpacker)
    E.globals_hooks["Packer"] = lambda E: OpaqueFn("Packer", lambda E, a, k: RefV(E.alloc("Packer"), "Packer"))
    E.globals_hooks["BytesIO"] = lambda E: OpaqueFn("BytesIO", new_bytesio)
    E.next_hooks = {"Unpacker": u_next}
    E.attr_hooks[("MsgpackDocumentReader", "codec")] = lambda E, o: OpaqueFn("decompress", lambda E, a, k: BytV(decomp(E.force(a[0], BytV).t)))
    E.attr_hooks[("MsgpackDocumentWriter", "codec")] = lambda E, o: OpaqueFn("compress", lambda E, a, k: BytV(comp(E.force(a[0], BytV).t)))


def setup_reader(E):
    setup_msg(E)
    E.expect_bytes = True          # blocks and documents are byte strings: an obligation at every read


# ---------------------------------------------------------------- the file layout
class Layout:
    """content of a collection file: blocks and the documents inside them (rigid functions of the file)"""
    def __init__(self, E, F, tag="f"):
        self.E, self.F = E, F
        fn = lambda n, *s: E.fresh_fn("%s_%s" % (n, tag), *s)
        self.nb, self.N, self.H = E.fresh("nblocks", I), E.fresh("ndocs", I), E.fresh("header", I)
        self.bpos, self.first = fn("bpos", I, I), fn("first", I, I)
        self.buf = fn("buf", I, Sq)
        self.blk, self.dpos = fn("blk", I, I), fn("dpos", I, I)
        self.D = fn("doc", I, Sq)

    def dend(self, i):
        return self.dpos(i) + wd(self.buf(self.blk(i)), self.dpos(i))

    def cur(self, b, i):
        """position inside block b from which document i is read next"""
        return If(i < self.first(b + 1), self.dpos(i), sq_len(self.buf(b)))

    def facts(self):
        F, b, i, c = self.F, Int("b"), Int("i"), Int("c")
        inb = And(0 <= b, b < self.nb)
        ind = And(0 <= i, i < self.N)
        bi = self.blk(i)
        bf = self.buf(bi)
        out = [self.nb >= 0, self.N >= 0, self.H >= 4, self.bpos(0) == self.H, self.bpos(self.nb) == sq_len(F), self.first(0) == 0, self.first(self.nb) == self.N]
        for pat in (self.bpos(b), self.first(b), self.buf(b)):
            out.append(FA([b], Implies(inb, And(ok(F, self.bpos(b)), tokval(F, self.bpos(b)) == Val.vbyt(comp(self.buf(b))), self.bpos(b + 1) == self.bpos(b) + wd(F, self.bpos(b)),
                                                0 <= self.first(b), self.first(b) <= self.first(b + 1), self.first(b + 1) <= self.N,
                                                Implies(self.first(b) == self.first(b + 1), sq_len(self.buf(b)) == 0))), [pat]))
        out.append(FA([b, c], Implies(And(0 <= b, b < c, c <= self.nb), self.bpos(b) < self.bpos(c)), [(self.bpos(b), self.bpos(c))]))
        for pat in (self.blk(i), self.dpos(i), self.D(i)):
            out.append(FA([i], Implies(ind, And(0 <= bi, bi < self.nb, self.first(bi) <= i, i < self.first(bi + 1),
                                            ok(bf, self.dpos(i)), tokval(bf, self.dpos(i)) == Val.vbyt(self.D(i)),
                                            self.dpos(i) >= 0, Implies(i == self.first(bi), self.dpos(i) == 0),
                                            If(i + 1 < self.first(bi + 1), And(self.dpos(i + 1) == self.dend(i), self.blk(i + 1) == bi), sq_len(bf) == self.dend(i)))), [pat]))
        # the block of a document
        out.append(FA([b, i], Implies(And(inb, self.first(b) <= i, i < self.first(b + 1)), self.blk(i) == b), [(self.first(b), self.blk(i))]))
        return out
