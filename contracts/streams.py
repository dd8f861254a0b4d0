"""External byte streams (trusted contract): a sink appends what is written, a source returns the requested bytes in full."""
from .common import *

ATTRS.table.update({"#data": "byt", "#pos": "int", "inputio": "RawIO", "outputio": "RawIO", "boundary": "int", "written": "int",
                    "lastsplit": "int", "seg": "int", "_BoundaryReader.offset": "int"})

be32 = Function("be32", I, Sq)                 # big endian two's complement
mark = Function("mark", Sq, I, Sq)             # mark(s, p) = s[p:p+4]
t_, s_ = Consts("t_ s_", Sq)
p_, v_ = Ints("p_ v_")
BE_AXIOMS = [
    FA([v_], sq_len(be32(v_)) == 4, [be32(v_)]),
    FA([s_, t_, p_], Implies(And(0 <= p_, p_ + 4 <= sq_len(s_)), mark(sq_cat(s_, t_), p_) == mark(s_, p_)), [mark(sq_cat(s_, t_), p_)]),
    FA([s_, t_, p_], Implies(And(p_ == sq_len(s_), sq_len(t_) == 4), mark(sq_cat(s_, t_), p_) == t_), [mark(sq_cat(s_, t_), p_)]),
]


def h_write(E, f, a, k):
    s = f.self_
    x = E.force(a[0], BytV)
    E.hput("F.#data", s.t, sq_cat(E.hget("F.#data", s.t), x.t))
    return IntV(sq_len(x.t))


def h_read(E, f, a, k):
    s = f.self_
    d, p = E.hget("F.#data", s.t), E.hget("F.#pos", s.t)
    n = E.as_int(a[0]) if a else IntVal(-1)
    ln = sq_len(d)
    avail = If(p < ln, ln - p, IntVal(0))
    k_ = If(Or(n < 0, n > avail), avail, n)
    r = E.fresh("rd", Sq)
    lo = E.fresh("rdpos", I)
    cnt = E.fresh("rdlen", I)
    E.assume(lo == p, cnt == k_, Implies(p <= ln, r == sq_slice(d, lo, lo + cnt)), sq_len(r) == cnt)
    E.hput("F.#pos", s.t, lo + cnt)
    return BytV(r)


def h_seek(E, f, a, k):
    s = f.self_
    p = E.as_int(a[0])
    E.hput("F.#pos", s.t, p)
    return IntV(p)


def h_tell(E, f, a, k):
    return IntV(E.hget("F.#pos", f.self_.t))


def h_pack(E, f, a, k):
    if a[0].lit != ">i":
        raise Unsupported("struct format")
    v = E.as_int(a[1])
    if not E.choose(And(v >= -0x80000000, v < 0x80000000), "fits"):
        raise PyExc("StructError")
    return BytV(be32(v))


def setup(E):
    E.external_kinds = ("RawIO",)
    E.builtin_hooks.update({"RawIO.write": h_write, "RawIO.read": h_read, "RawIO.seek": h_seek, "RawIO.tell": h_tell,
                            "struct.pack": h_pack, "RawIOBase.__init__": lambda E, f, a, k: NONE, "RawIO.seekable": lambda E, f, a, k: BoolV(E.fresh("seekable", B)),
                            "RawIO.close": lambda E, f, a, k: NONE})
    for nme, c in (("SEEK_SET", 0), ("SEEK_CUR", 1), ("SEEK_END", 2)):
        E.globals_hooks[nme] = lambda E, c=c: IntV(c)
