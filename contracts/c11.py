"""C11: boundary marked streams.

Abstract state: the payload P (bytes written so far / to be read).  With B = 2**exponent the underlying stream D is an image of P:
D[0] is the exponent, D[k*B : k*B+4] is marker k, every other position p holds P[p - 1 - 4*(p div B)].
"""
from .streams import *

P = "C11"
W = "collection._BoundaryWriter."
R_ = "collection._BoundaryReader."
AX = lambda E: BE_AXIOMS
EXPS = list(range(12, 31))
CLAMP = lambda d: If(d <= -0x80000000, IntVal(-0x80000000), d)


def plain(p, B):
    """p is a payload position"""
    return And(p >= 1, Or(p < B, p % B >= 4))


def idx(p, B):
    return p - 1 - 4 * (p / B)


def image(D, Pl, n, B):
    """D[0:n] holds the payload Pl at the payload positions"""
    p = Int("p")
    return FA([p], Implies(And(plain(p, B), p < n), sq_at(D, p) == sq_at(Pl, idx(p, B))), [sq_at(D, p)])


def markers(D, S, n, B):
    """marker at every multiple of B below n: distance back to the split point S[p]"""
    p = Int("p")
    return FA([p], Implies(And(p > 0, p % B == 0, p < n), mark(D, p) == be32(CLAMP(Select(S, p) - p))), [mark(D, p)])


def shape(n, B):
    """lengths a stream can have: complete markers, at least one payload byte after a marker"""
    return And(n >= 1, Or(n <= B, n % B == 0, n % B > 4))


def payload_len(n, B):
    return n - 1 - 4 * ((n - 1) / B)


def exponent(E):
    b = EXPS[E.choose_n(len(EXPS), "exponent")]
    return b, IntVal(1 << b)


def sym_writer(E):
    """a writer in any reachable state, its payload and split points"""
    b, B = exponent(E)
    w = sym_ref(E, "_BoundaryWriter", "w")
    io = sym_ref(E, "RawIO", "io")
    Pl = E.fresh("payload", Sq)
    S = E.fresh("splits", ArraySort(I, I))
    n = E.fresh("n", I)
    seg = E.fresh("seg", I)
    split = E.fresh("split", I)
    E.hput("F.boundary", w.t, IntVal(b))
    E.hput("F.outputio", w.t, io.t)
    E.hput("F.written", w.t, n)
    E.hput("F.seg", w.t, seg)
    E.hput("F.lastsplit", w.t, split)
    D = E.fresh("D", Sq)
    E.hput("F.#data", io.t, D)
    E.assume(winv(D, n, seg, split, Pl, S, b, B))
    return b, B, w, io, Pl, S


def winv(D, n, seg, split, Pl, S, b, B):
    return And([f for _, f in winv_parts(D, n, seg, split, Pl, S, b, B)])


def winv_parts(D, n, seg, split, Pl, S, b, B):
    return [("position counts the bytes written", And(sq_len(D) == n, n >= 1)),
            ("stream starts with the exponent", sq_at(D, 0) == b),
            ("markers counted", seg == (n - 1) / B),
            ("complete markers followed by payload", shape(n, B)),
            ("payload length", sq_len(Pl) == payload_len(n, B)),
            ("split point is in the past", And(1 <= split, split <= n)),
            ("payload bytes in place", image(D, Pl, n, B)),
            ("markers in place", markers(D, S, n, B))]


def check_winv(E, w, io, Pl, S, b, B):
    h = E.heap
    D, n, seg, split = h.sel("F.#data", io.t), F(E, "written", w), F(E, "seg", w), F(E, "lastsplit", w)
    E.check("same stream and exponent", And(F(E, "outputio", w) == io.t, F(E, "boundary", w) == b))
    D0 = E.named(D, "Dfin")
    for nm, f in winv_parts(D0, n, seg, split, Pl, S, b, B):
        E.check(nm, f)


@unit(P, "_BoundaryWriter.__init__", W + "__init__", axioms=AX, setup=setup)
def _(E):
    io = sym_ref(E, "RawIO", "io")
    E.assume(E.heap.sel("F.#data", io.t) == sq_empty)
    k = E.choose_n(len(EXPS) + 1, "exponent")
    if k == len(EXPS):
        x = sym_int(E, "b")
        E.assume(Or(x.t < 12, x.t > 30))
        try:
            E.construct("_BoundaryWriter", [io, x], {})
        except PyExc as e:
            E.check("refused", BoolVal(e.kind == "ValueError"))
            E.check("nothing written", E.heap.sel("F.#data", io.t) == sq_empty)
            cover(E, "refused")
            return
        E.check("exponent outside 12..30 is refused", BoolVal(False))
        return
    b, B = EXPS[k], IntVal(1 << EXPS[k])
    o = E.construct("_BoundaryWriter", [io, IntV(b)], {})
    check_winv(E, o, io, sq_empty, E.fresh("S", ArraySort(I, I)), b, B)
    cover(E, "end")


def write_inv(E, L):
    w = L.var("self")
    data = L.var("data")
    b = E.unit_x["b"]
    B, Pl, S0, split0, n0, io = (E.unit_x[k] for k in ("B", "P", "S0", "split", "n0", "io"))
    pos, left, mx = L.int("pos"), L.int("left"), L.int("maxwrite")
    h = E.heap
    D, n, seg = h.sel("F.#data", io.t), F(E, "written", w), F(E, "seg", w)
    p = Int("p")
    return [("progress", And(0 <= pos, 0 <= left, pos + left == sq_len(data.t))),
            ("chunk stays inside the segment", Implies(left > 0, mx == If((seg + 1) * B - n < left, (seg + 1) * B - n, left))),
            ("position", And(sq_len(D) == n, n >= n0, n >= 1)),
            ("segment", Or(And(seg == (n - 1) / B, shape(n, B)), And(left > 0, seg * B + 4 == n, seg >= 1))),
            ("payload position", n == 1 + sq_len(Pl) + pos + 4 * seg),
            ("exponent", sq_at(D, 0) == b),
            ("bytes", FA([p], Implies(And(plain(p, B), p < n), sq_at(D, p) ==
                                      If(idx(p, B) < sq_len(Pl), sq_at(Pl, idx(p, B)), sq_at(data.t, idx(p, B) - sq_len(Pl)))), [sq_at(D, p)])),
            ("markers", FA([p], Implies(And(p > 0, p % B == 0, p < n), mark(D, p) == be32(CLAMP(If(p < n0, Select(S0, p), split0) - p))), [mark(D, p)])),
            ("unchanged", And(F(E, "outputio", w) == io.t, F(E, "boundary", w) == b, F(E, "lastsplit", w) == split0))]


def write_variant(E, L):
    return 2 * L.int("left") + If(L.int("maxwrite") == 0, 1, 0)


@unit(P, "_BoundaryWriter.write", [W + "write", W + "_write_boundary"], axioms=AX, setup=setup,
      loops={W + "write": [LoopSpec(write_inv, write_variant)]})
def _(E):
    b, B, w, io, Pl, S = sym_writer(E)
    data = BytV(E.fresh("data", Sq))
    n0 = F(E, "written", w)
    E.unit_x = dict(b=b, B=B, P=Pl, S0=S, split=F(E, "lastsplit", w), n0=n0, io=io)
    o = call(E, W + "write", [w, data])
    no_exc(E, o)
    P2 = sq_cat(Pl, data.t)
    S2 = E.fresh("splits2", ArraySort(I, I))
    p = Int("p")
    E.assume(FA([p], Select(S2, p) == If(p < n0, Select(S, p), E.unit_x["split"]), [Select(S2, p)]))
    check_winv(E, w, io, P2, S2, b, B)
    cover(E, "end")


@unit(P, "_BoundaryWriter.split", W + "split", axioms=AX, setup=setup)
def _(E):
    b, B, w, io, Pl, S = sym_writer(E)
    o = call(E, W + "split", [w])
    no_exc(E, o)
    check_winv(E, w, io, Pl, S, b, B)
    E.check("split point is the current position", F(E, "lastsplit", w) == F(E, "written", w))
    cover(E, "end")


# ---------------------------------------------------------------- reader
def sym_source(E, b, B):
    """any stream written by the writer, and its payload"""
    io = sym_ref(E, "RawIO", "io")
    D, Pl, N = E.fresh("D", Sq), E.fresh("payload", Sq), E.fresh("N", I)
    E.hput("F.#data", io.t, D)
    E.assume(sq_len(D) == N, shape(N, B), sq_at(D, 0) == b, image(D, Pl, N, B), sq_len(Pl) == payload_len(N, B))
    return io, D, Pl, N


def absolute(o, B):
    """position in the stream of payload byte o"""
    u = o - B + 1
    return If(o < B - 1, o + 1, B + 4 + u + 4 * (u / (B - 4)))


def sym_reader(E):
    b, B = exponent(E)
    io, D, Pl, N = sym_source(E, b, B)
    r = sym_ref(E, "_BoundaryReader", "r")
    off, pos = E.fresh("off", I), E.fresh("pos", I)
    E.hput("F.boundary", r.t, IntVal(b))
    E.hput("F.inputio", r.t, io.t)
    E.hput("F._BoundaryReader.offset", r.t, off)
    E.hput("F.#pos", io.t, pos)
    E.assume(rinv(off, pos, N, B))
    return b, B, r, io, D, Pl, N


def rinv(off, pos, N, B):
    return And(off >= 0, Or(pos == absolute(off, B), And(pos == N, absolute(off, B) >= N)))


def check_rinv(E, r, io, b, B, D, N):
    E.check("reader invariant: the source is positioned at the payload offset", rinv(F(E, "_BoundaryReader.offset", r), E.heap.sel("F.#pos", io.t), N, B))
    E.check("same source", And(F(E, "inputio", r) == io.t, F(E, "boundary", r) == b, E.heap.sel("F.#data", io.t) == D))


@unit(P, "lemma: absolute positions", [R_ + "_to_absolute"], axioms=AX, setup=setup,
      note="absolute(o) is the payload position holding payload byte o, and is monotone")
def _(E):
    b, B, r, io, D, Pl, N = sym_reader(E)
    o = sym_int(E, "o")
    E.assume(o.t >= 0)
    x = call(E, R_ + "_to_absolute", [r, o])
    no_exc(E, x)
    E.check("_to_absolute computes the position of payload byte o", And(plain(x.val.t, B), idx(x.val.t, B) == o.t, x.val.t == absolute(o.t, B)))
    o2 = E.fresh("o2", I)
    E.check("monotone", Implies(And(0 <= o2, o2 < o.t), absolute(o2, B) < x.val.t))
    q = E.fresh("q", I)
    E.check("the only such position", Implies(And(plain(q, B), idx(q, B) == o.t), q == x.val.t))
    cover(E, "end")


@unit(P, "_BoundaryReader.__init__", R_ + "__init__", axioms=AX, setup=setup)
def _(E):
    b, B = exponent(E)
    io, D, Pl, N = sym_source(E, b, B)
    E.hput("F.#pos", io.t, IntVal(0))
    try:
        r = E.construct("_BoundaryReader", [io], {})
    except PyExc as e:
        no_exc(E, Out(None, e.kind))
    E.check("starts at payload offset 0", F(E, "_BoundaryReader.offset", r) == 0)
    check_rinv(E, r, io, b, B, D, N)
    o = call(E, R_ + "tell", [r])
    E.check("tell", o.val.t == 0)
    cover(E, "end")


@unit(P, "_BoundaryReader.__init__ refuses other streams", R_ + "__init__", axioms=AX, setup=setup)
def _(E):
    io = sym_ref(E, "RawIO", "io")
    D = E.heap.sel("F.#data", io.t)
    E.assume(E.heap.sel("F.#pos", io.t) == 0, sq_len(D) >= 1, Or(sq_at(D, 0) < 12, sq_at(D, 0) > 30))
    try:
        E.construct("_BoundaryReader", [io], {})
    except PyExc as e:
        E.check("IOError", BoolVal(e.kind in ("IOError", "OSError")))
        cover(E, "end")
        return
    E.check("refused", BoolVal(False))


@unit(P, "_BoundaryReader.seek / tell", [R_ + "seek", R_ + "tell", R_ + "_to_absolute"], axioms=AX, setup=setup)
def _(E):
    b, B, r, io, D, Pl, N = sym_reader(E)
    o = sym_int(E, "o")
    E.assume(o.t >= 0)
    if E.choose_n(2):
        wh = sym_int(E, "whence")
        E.assume(wh.t != 0)
        x = call(E, R_ + "seek", [r, o, wh])
        E.check("other whence refused", BoolVal(x.exc == "NotImplementedError"))
        check_rinv(E, r, io, b, B, D, N)
        return
    x = call(E, R_ + "seek", [r, o])
    no_exc(E, x)
    E.check("returns the payload offset", x.val.t == o.t)
    E.check("moves to the payload offset", F(E, "_BoundaryReader.offset", r) == o.t)
    check_rinv(E, r, io, b, B, D, N)
    y = call(E, R_ + "tell", [r])
    no_exc(E, y)
    E.check("tell", y.val.t == o.t)
    cover(E, "end")


def read_inv(E, L):
    x = E.unit_x
    B, off, Pl, D = x["B"], x["off"], x["P"], x["D"]
    start, stop, cur = L.int("abs_start_position"), L.int("abs_stop_position"), L.int("current_position")
    rel, op, real = L.int("rel_position"), L.int("output_position"), L.int("real_length")
    ob = E.heap.sel("F.#bytes", L.ref("output"))
    q = Int("q")
    return [("relative position", And(rel == cur - start, cur >= start, start == absolute(off, B), op >= 0, op <= real)),
            ("at a payload position, or done", If(cur < stop, And(plain(cur, B), op == idx(cur, B) - off), op == real)),
            ("buffer length", sq_len(ob) == real),
            ("bytes so far", FA([q], Implies(And(0 <= q, q < op), sq_at(ob, q) == sq_at(Pl, off + q)), [sq_at(ob, q)]))]


def read_variant(E, L):
    return L.int("abs_stop_position") - L.int("current_position")


@unit(P, "_BoundaryReader.read", [R_ + "read", R_ + "_to_absolute"], axioms=AX, setup=setup, loops={R_ + "read": [LoopSpec(read_inv)]})
def _(E):
    b, B, r, io, D, Pl, N = sym_reader(E)
    off = F(E, "_BoundaryReader.offset", r)
    E.unit_x = dict(b=b, B=B, off=off, P=Pl, D=D)
    n = sym_int(E, "n")
    E.assume(n.t >= -1)
    m = sq_len(Pl)
    o = call(E, R_ + "read", [r, n])
    no_exc(E, o)
    want = If(off >= m, IntVal(0), If(Or(n.t < 0, off + n.t > m), m - off, n.t))
    got = E.force(o.val, BytV).t
    q = E.fresh("q", I)
    E.check("number of bytes", sq_len(got) == want)
    E.check("payload bytes", Implies(And(0 <= q, q < want), sq_at(got, q) == sq_at(Pl, off + q)))
    E.check("offset advances by the bytes returned", F(E, "_BoundaryReader.offset", r) == off + want)
    check_rinv(E, r, io, b, B, D, N)
    cover(E, "end")
