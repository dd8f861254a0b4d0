"""C16: graph traversals visit each reachable node once in the documented order."""
from .common import *
from .layer import R, VR

P = "C16"
A = "algorithm."
chn = Function("n_children", Val, I)              # what the caller supplied child function yields for a node
chr_ = Function("child", Val, I, I)
keep = Function("is_result_holds", Val, B)
ch = lambda v, j: Val.vref(chr_(v, j))
II = ArraySort(I, I)


def graph(E):
    """the child function: any function from nodes to finite sequences of nodes"""
    v, j = Const("v", Val), Int("j")
    r = chr_(v, j)
    E.assume(FA([v], chn(v) >= 0, [chn(v)]), FA([v, j], Implies(And(0 <= j, j < chn(v)), And(r > 0, r < E.heap.alloc, E.is_cls(r, "Node"))), [r]))

    def children(E, args, kw):
        n = E.to_val(args[0])
        return View(lambda: chn(n), lambda i: RefV(chr_(n, i), "Node"))
    return OpaqueFn("children", children)


def setup(E, extra=()):
    start = sym_ref(E, "Node", "start")
    c = graph(E)
    filt = E.choose_n(2)
    E.unit_x = {"start": VR(start.t), "keep": (lambda v: keep(v)) if filt else (lambda v: BoolVal(True))}
    res = OpaqueFn("is_result", lambda E, args, kw: BoolV(keep(E.to_val(args[0])))) if filt else NONE
    return start, c, res


# ---------------------------------------------------------------- breadth first
class Bfs:
    def __init__(self, E, L):
        h = E.heap
        u = E.unit_x
        self.start, self.keep = u["start"], u["keep"]
        q = L.ref("queue")
        self.lo, self.hi = h.sel("L.lo", q), h.sel("L.len", q)
        self.el = E.named(h.sel("L.el", q), "queue")
        self.V = E.named(h.sel("S.mem", L.ref("visited")), "visited")
        out = L.ref("$yielded")
        self.c, self.out = h.sel("L.len", out), E.named(h.sel("L.el", out), "out")
        self.at, self.par, self.cj, self.slot, self.of, self.opos = (E.ghost[x] for x in BG)

    def qd(self, r):
        return Val.i(Val.t20(Select(self.el, r)))

    def qn(self, r):
        return Val.t21(Select(self.el, r))

    def inv(self, E, cur=None, jc=None, skip_current=False):
        r, r2, k, k2, j = Ints("r r2 k k2 j")
        v = Const("v", Val)
        lo, hi = self.lo, self.hi
        e = Select(self.el, r)
        pr, V, at = Select(self.par, r), lambda v: Select(self.V, v), lambda v: Select(self.at, v)
        sl = Select(Select(self.slot, v), j)
        of = lambda k: Select(self.of, k)
        done = BoolVal(True) if cur is None else Or(v != cur, j < jc)
        return [
            ("queue", And(0 <= lo, lo <= hi, hi >= 1, Select(self.el, 0) == Val.vt2(Val.vint(0), self.start))),
            ("entries", FA([r], Implies(And(0 <= r, r < hi), E.shape_pred(e, ("int", "node"))), [e])),
            ("depths do not decrease", FA([r, r2], Implies(And(0 <= r, r <= r2, r2 < hi), self.qd(r) <= self.qd(r2)), [(e, Select(self.el, r2))])),
            ("depths ahead", Implies(lo > 0, FA([r], Implies(And(0 <= r, r < hi), self.qd(r) <= self.qd(lo - 1) + 1), [e]))),
            ("origin", FA([r], Implies(And(0 < r, r < hi), And(0 <= pr, pr < r, pr < lo, V(self.qn(pr)), at(self.qn(pr)) == pr, 0 <= Select(self.cj, r), Select(self.cj, r) < chn(self.qn(pr)),
                                                              self.qn(r) == ch(self.qn(pr), Select(self.cj, r)), self.qd(r) == self.qd(pr) + 1)), [pr])),
            ("visited", FA([v], Implies(V(v), And(0 <= at(v), at(v) < lo, self.qn(at(v)) == v)), [V(v)])),
            ("popped", FA([r], Implies(And(0 <= r, r < lo), And(V(self.qn(r)), at(self.qn(r)) <= r)), [e])),
            ("edges", FA([v, j], Implies(And(V(v), 0 <= j, j < chn(v), done), And(0 <= sl, sl < hi, self.qn(sl) == ch(v, j), self.qd(sl) <= self.qd(at(v)) + 1)), [sl])),
            ("output", FA([k], Implies(And(0 <= k, k < self.c), And(0 <= of(k), of(k) < lo, V(self.qn(of(k))), at(self.qn(of(k))) == of(k), Select(self.out, k) == Select(self.el, of(k)),
                                                                  self.keep(self.qn(of(k))))), [of(k)])),
            ("output order", And(self.c >= 0, FA([k, k2], Implies(And(0 <= k, k < k2, k2 < self.c), of(k) < of(k2)), [(of(k), of(k2))]))),
            ("output complete", FA([v], Implies(And(V(v), self.keep(v)), And(0 <= Select(self.opos, v), Select(self.opos, v) < self.c, of(Select(self.opos, v)) == at(v))), [Select(self.opos, v)])),
        ]


BG = ("at", "par", "cj", "slot", "of", "opos")


def bfs_outer(E, L):
    return Bfs(E, L).inv(E)


def bfs_outer_hints(E, L, where):
    if where == "body":
        E.shape_list(L.var("queue"), ("int", "node"))
        E.unit_x["c0"] = Bfs(E, L).c
    else:
        E.unit_x["last"], E.unit_x["out"] = Bfs(E, L), L.ref("$yielded")


def bfs_inner_pre(E, L):
    """the popped node has just been marked visited (and possibly emitted)"""
    b = Bfs(E, L)
    cur = E.to_val(L.var("current_node"))
    E.gset("at", Store(b.at, cur, b.lo - 1))
    emitted = b.c > E.unit_x["c0"]
    E.gset("of", If(emitted, Store(b.of, E.unit_x["c0"], b.lo - 1), b.of))
    E.gset("opos", If(emitted, Store(b.opos, cur, E.unit_x["c0"]), b.opos))


def bfs_inner(E, L):
    b = Bfs(E, L)
    cur = E.to_val(L.var("current_node"))
    d = L.var("current_depth")
    return [("current", And(b.lo >= 1, Select(b.el, b.lo - 1) == Val.vt2(E.to_val(d), cur), Select(b.V, cur), Select(b.at, cur) == b.lo - 1, L.i <= L.n))] + b.inv(E, cur, L.i)


def bfs_inner_hints(E, L, where):
    if where == "body":
        E.unit_x["hi0"] = Bfs(E, L).hi


def bfs_inner_after(E, L2, L1):
    b = Bfs(E, L2)
    cur = E.to_val(L2.var("current_node"))
    hi0, j = E.unit_x["hi0"], L1.i
    pushed = b.hi > hi0
    E.gset("par", If(pushed, Store(b.par, hi0, b.lo - 1), b.par))
    E.gset("cj", If(pushed, Store(b.cj, hi0, j), b.cj))
    E.gset("slot", Store(b.slot, cur, Store(Select(b.slot, cur), j, If(pushed, hi0, Select(b.at, ch(cur, j))))))


@unit(P, "bfs", [A + "bfs"], loops={A + "bfs": [LoopSpec(bfs_outer, hints=bfs_outer_hints, ghosts=BG),
                                               LoopSpec(bfs_inner, pre=bfs_inner_pre, hints=bfs_inner_hints, after=bfs_inner_after, ghosts=("par", "cj", "slot"))]})
def _(E):
    start, c, res = setup(E)
    for g in ("par", "cj", "of"):
        E.ghost[g] = K(I, IntVal(0))
    E.ghost["at"] = E.ghost["opos"] = K(Val, IntVal(0))
    E.ghost["slot"] = K(Val, K(I, IntVal(0)))
    o = call(E, A + "bfs", [start, c, res])
    no_exc(E, o)
    fin = E.unit_x["last"]
    b = fin
    v, j, k, k2 = E.fresh("v", Val), E.fresh("j", I), E.fresh("k", I), E.fresh("k2", I)
    V = lambda v: Select(b.V, v)
    d = lambda v: b.qd(Select(b.at, v))
    E.check("the result is the list of emitted pairs", o.val.t == E.unit_x["out"])
    E.check("nothing left", b.lo == b.hi)
    E.check("start found at depth 0", And(V(b.start), d(b.start) == 0))
    E.assume(V(v), 0 <= j, j < chn(v))
    sl = Select(Select(b.slot, v), j)
    E.check("children of found nodes are found, at most one deeper", And(0 <= sl, V(ch(v, j)), d(ch(v, j)) <= d(v) + 1))
    pr = Select(b.par, Select(b.at, v))
    u = b.qn(pr)
    E.check("found nodes other than the start hang below a found node one level up",
            Implies(v != b.start, And(V(u), d(v) == d(u) + 1, Select(b.at, u) < Select(b.at, v), v == ch(u, Select(b.cj, Select(b.at, v))), 0 <= Select(b.cj, Select(b.at, v)), Select(b.cj, Select(b.at, v)) < chn(u))))
    E.assume(0 <= k, k < k2, k2 < b.c)
    on = lambda k: Val.t21(Select(b.out, k))
    od = lambda k: Val.i(Val.t20(Select(b.out, k)))
    E.check("output holds found nodes that are results, with their depth", And(Select(b.of, k) >= 0, V(on(k)), b.keep(on(k)), od(k) == d(on(k)), Val.is_vt2(Select(b.out, k))))
    E.check("output in non-decreasing depth without repetition", And(Select(b.of, k2) >= 0, od(k) <= od(k2), on(k) != on(k2)))
    E.check("every found result is in the output", Implies(b.keep(v), And(0 <= Select(b.opos, v), Select(b.opos, v) < b.c, on(Select(b.opos, v)) == v)))
    cover(E, "end")


@unit(P, "paths: a closed certificate is the reachable set with shortest distances", [])
def _(E):
    """Induction over the length of a path.  V, d, u, c stand for what the certificate of bfs (and, without d, of dfs) gives."""
    V, d = Function("V", Val, B), Function("d", Val, I)
    up, ci = Function("up", Val, Val), Function("ci", Val, I)
    start = Val.vref(E.fresh("start", I))
    v, j = Const("v", Val), Int("j")
    E.assume(V(start), d(start) == 0, FA([v], chn(v) >= 0, [chn(v)]))
    E.assume(FA([v, j], Implies(And(V(v), 0 <= j, j < chn(v)), And(V(ch(v, j)), d(ch(v, j)) <= d(v) + 1)), [chr_(v, j)]))
    E.assume(FA([v], Implies(And(V(v), v != start), And(V(up(v)), d(v) == d(up(v)) + 1, 0 <= ci(v), ci(v) < chn(up(v)), v == ch(up(v), ci(v)))), [up(v)]))
    E.assume(FA([v], Implies(V(v), d(v) >= 0), [d(v)]))
    # any path from the start: nodes p(0) = start, p(i+1) = child e(i) of p(i)
    p, e = Function("p", I, Val), Function("e", I, I)
    n = E.fresh("n", I)
    E.assume(p(0) == start, n >= 0)
    i = E.fresh("i", I)
    step = And(0 <= e(i), e(i) < chn(p(i)), p(i + 1) == ch(p(i), e(i)))
    E.check("base: the start", And(V(p(0)), d(p(0)) <= 0))
    E.check("step: the next node of a path is found and not deeper than the path is long", Implies(And(0 <= i, V(p(i)), d(p(i)) <= i, step), And(V(p(i + 1)), d(p(i + 1)) <= i + 1)))
    # conversely every found node is reached by a path of its depth: path(v) = path(up(v)) + v
    plen = Function("path_length", Val, I)
    x = E.fresh("x", Val)
    E.assume(plen(start) == 0, V(x), x != start, plen(x) == plen(up(x)) + 1)
    E.check("step: the node before is found and one level up, so the path is as long as the depth", Implies(plen(up(x)) == d(up(x)), And(V(up(x)), d(up(x)) < d(x), plen(x) == d(x), x == ch(up(x), ci(x)))))
    cover(E, "lemma")


# ---------------------------------------------------------------- depth first
DG = ("seq", "pos", "n", "pp", "cj", "slot", "of", "opos")


class Dfs:
    """ghost: seq[0..n) visited nodes in order, pos its inverse; a stack entry r was pushed as child cj[r] of seq[pp[r]];
    slot[i][j]: the stack entry that child j of seq[i] waits in, when it is not visited yet"""
    def __init__(self, E, L):
        h = E.heap
        u = E.unit_x
        self.E, self.start, self.keep = E, u["start"], u["keep"]
        st = L.ref("stack")
        self.m, self.el = h.sel("L.len", st), E.named(h.sel("L.el", st), "stack")
        self.V = E.named(h.sel("S.mem", L.ref("visited")), "visited")
        out = L.ref("$yielded")
        self.c, self.out = h.sel("L.len", out), E.named(h.sel("L.el", out), "out")
        self.seq, self.pos, self.n, self.pp, self.cj, self.slot, self.of, self.opos = (E.ghost[x] for x in DG)

    def order(self):
        """the K-th visited node (K arbitrary) is child vc of the vp-th, all earlier children of that one and all children of later
        visited nodes having been visited before: it is the first unvisited child of the latest visited node that has one"""
        q, z = Ints("q z")
        p, j, k = self.E.ghost["vp"], self.E.ghost["vc"], self.E.unit_x["K"]
        S = lambda i: Select(self.seq, i)
        before = lambda w: And(Select(self.V, w), Select(self.pos, w) < k)
        return [("parent", And(0 <= p, p < k, 0 <= j, j < chn(S(p)), S(k) == ch(S(p), j))),
                ("earlier children", FA([z], Implies(And(0 <= z, z < j), before(ch(S(p), z))), [chr_(S(p), z)])),
                ("children of later nodes", FA([q, z], Implies(And(p < q, q < k, 0 <= z, z < chn(S(q))), before(ch(S(q), z))), [chr_(S(q), z)]))]

    def inv(self):
        r, r2, k, k2, j, i = Ints("r r2 k k2 j i")
        v = Const("v", Val)
        V, pos, S = (lambda v: Select(self.V, v)), (lambda v: Select(self.pos, v)), (lambda i: Select(self.seq, i))
        e = Select(self.el, r)
        pp, cj = (lambda r: Select(self.pp, r)), (lambda r: Select(self.cj, r))
        sl = Select(Select(self.slot, i), j)
        of = lambda k: Select(self.of, k)
        n, m = self.n, self.m
        return [
            ("sizes", And(n >= 0, m >= 0, Implies(n == 0, And(m == 1, Select(self.el, 0) == self.start)), Implies(n > 0, S(0) == self.start))),
            ("stack", FA([r], Implies(And(0 <= r, r < m), self.E.shape_pred(e, "node")), [e])),
            ("visited nodes", FA([v], Implies(V(v), And(0 <= pos(v), pos(v) < n, S(pos(v)) == v)), [V(v)])),
            ("visited sequence", FA([i], Implies(And(0 <= i, i < n), And(V(S(i)), pos(S(i)) == i)), [S(i)])),
            ("origin of stack entries", FA([r], Implies(And(0 <= r, r < m, n > 0), And(0 <= pp(r), pp(r) < n, 0 <= cj(r), cj(r) < chn(S(pp(r))), e == ch(S(pp(r)), cj(r)))), [e])),
            ("order of stack entries", FA([r, r2], Implies(And(0 <= r, r < r2, r2 < m, n > 0), Or(pp(r) < pp(r2), And(pp(r) == pp(r2), cj(r) > cj(r2)))), [(e, Select(self.el, r2))])),
            ("waiting children", FA([i, j], Implies(And(0 <= i, i < n, 0 <= j, j < chn(S(i)), Not(V(ch(S(i), j)))), And(0 <= sl, sl < m, pp(sl) == i, cj(sl) == j)), [chr_(S(i), j)])),
        ] + [("documented order: " + nm, Implies(And(0 < self.E.unit_x["K"], self.E.unit_x["K"] < n), f)) for nm, f in self.order()] + [
            ("output", FA([k], Implies(And(0 <= k, k < self.c), And(0 <= of(k), of(k) < n, Select(self.out, k) == S(of(k)), self.keep(S(of(k))))), [of(k)])),
            ("output order", And(self.c >= 0, FA([k, k2], Implies(And(0 <= k, k < k2, k2 < self.c), of(k) < of(k2)), [(of(k), of(k2))]))),
            ("output complete", FA([i], Implies(And(0 <= i, i < n, self.keep(S(i))), And(0 <= Select(self.opos, i), Select(self.opos, i) < self.c, of(Select(self.opos, i)) == i)), [Select(self.opos, i)])),
        ]


def dfs_inv(E, L):
    return Dfs(E, L).inv()


def dfs_hints(E, L, where):
    x = Dfs(E, L)
    if where == "body":
        E.shape_list(L.var("stack"), "node")
        E.unit_x["c0"], E.unit_x["m0"] = x.c, x.m
        E.last_filter = None
    else:
        E.unit_x["last"], E.unit_x["out"] = x, L.ref("$yielded")


def dfs_after(E, L2, L1):
    if E.last_filter is None:            # the popped node had been visited before
        return
    x = Dfs(E, L2)
    ix, rk, cnt = E.last_filter[:3]
    cur = E.to_val(L2.var("current"))
    n0, m1, c0, k = x.n, E.unit_x["m0"] - 1, E.unit_x["c0"], E.unit_x["K"]
    emitted = x.c > c0
    r, j = Ints("r j")
    E.gset("vp", If(n0 == k, Select(x.pp, m1), E.ghost["vp"]))
    E.gset("vc", If(n0 == k, Select(x.cj, m1), E.ghost["vc"]))
    E.gset("seq", Store(x.seq, n0, cur))
    E.gset("pos", Store(x.pos, cur, n0))
    E.gset("n", n0 + 1)
    pp, cj, row = E.fresh("pp", II), E.fresh("cj", II), E.fresh("row", II)
    E.assume(FA([r], Select(pp, r) == If(r < m1, Select(x.pp, r), n0), [Select(pp, r)]))
    E.assume(FA([r], Select(cj, r) == If(r < m1, Select(x.cj, r), ix(cnt - 1 - (r - m1))), [Select(cj, r)]))
    E.assume(FA([j], Select(row, j) == m1 + cnt - 1 - rk(j), [Select(row, j)]))
    E.gset("pp", pp)
    E.gset("cj", cj)
    E.gset("slot", Store(x.slot, n0, row))
    E.gset("of", If(emitted, Store(x.of, c0, n0), x.of))
    E.gset("opos", If(emitted, Store(x.opos, n0, c0), x.opos))


def dfs_unit(name, leaves):
    @unit(P, name, [A + name], loops={A + name: [LoopSpec(dfs_inv, hints=dfs_hints, after=dfs_after, ghosts=DG + ("vp", "vc"))]})
    def _(E):
        start, c, res = setup(E)
        if leaves:
            k0 = E.unit_x["keep"]
            E.unit_x["keep"] = lambda v: And(chn(v) == 0, k0(v))
        for g in ("pp", "cj", "of", "opos"):
            E.ghost[g] = K(I, IntVal(0))
        E.ghost["seq"], E.ghost["pos"], E.ghost["slot"] = K(I, none), K(Val, IntVal(0)), K(I, K(I, IntVal(0)))
        E.ghost["n"] = E.ghost["vp"] = E.ghost["vc"] = IntVal(0)
        k = E.fresh("K", I)
        E.unit_x["K"] = k
        o = call(E, A + name, [start, c, res])
        no_exc(E, o)
        x = E.unit_x["last"]
        v, j, a, b = E.fresh("v", Val), E.fresh("j", I), E.fresh("a", I), E.fresh("b", I)
        V = lambda v: Select(x.V, v)
        S = lambda i: Select(x.seq, i)
        E.check("the result is the list of emitted nodes", o.val.t == E.unit_x["out"])
        E.check("nothing waiting", And(x.m == 0, x.n > 0))
        E.check("starts at the start", And(S(0) == x.start, V(x.start)))
        E.check("children of visited nodes are visited", Implies(And(V(v), 0 <= j, j < chn(v), S(Select(x.pos, v)) == v), V(ch(v, j))))
        for nm, f in x.order():
            E.check("pre-order, first child first: " + nm, Implies(And(0 < k, k < x.n), f))
        E.check("visited nodes form a sequence without repetition", Implies(And(0 <= a, a < b, b < x.n), And(V(S(a)), S(a) != S(b))))
        E.check("emitted nodes are visited results, in visiting order", Implies(And(0 <= a, a < b, b < x.c), And(
            0 <= Select(x.of, a), Select(x.of, a) < Select(x.of, b), Select(x.of, b) < x.n, Select(x.out, a) == S(Select(x.of, a)), x.keep(S(Select(x.of, a))))))
        E.check("every visited result is emitted", Implies(And(V(v), x.keep(v), S(Select(x.pos, v)) == v),
                                                          And(0 <= Select(x.opos, Select(x.pos, v)), Select(x.opos, Select(x.pos, v)) < x.c, Select(x.out, Select(x.opos, Select(x.pos, v))) == v)))
        cover(E, "end")


dfs_unit("dfs", False)
dfs_unit("dfs_leaves", True)


# ---------------------------------------------------------------- children from reference fields
def child_loop(E, L):
    out, w = L.ref("$yielded"), L.view
    h, h0 = E.heap, L.entry
    n0, el0 = h0.sel("L.len", out), E.named(h0.sel("L.el", out), "out0")
    el = E.named(h.sel("L.el", out), "out")
    q = Int("q")
    return [("length", And(h.sel("L.len", out) == n0 + L.i, L.i <= L.n)),
            ("kept", FA([q], Implies(And(0 <= q, q < n0), Select(el, q) == Select(el0, q)), [Select(el, q)])),
            ("children in order", FA([q], Implies(And(n0 <= q, q < n0 + L.i), Select(el, q) == E.to_val(w.at(q - n0))), [Select(el, q)]))]


def field_type(E, fm, prop, name):
    """a declared field with a type: its DataType object and kind"""
    dt = sym_ref(E, "DataType", name)
    E.assume(Select(fm[0], E.to_val(prop)), Select(fm[1], E.to_val(prop)) == VR(dt.t))
    return dt, E.heap.sel("F.typename", dt.t)


def children_unit(nf):
    @unit(P, "children_of with %d field%s" % (nf, "s" if nf > 1 else ""), [A + "children_of"], loops={A + "children_of": [None, LoopSpec(child_loop), None]})
    def _(E):
        one, many = (E.to_val(E.atom_of("DataTypeEnum", x)) for x in ("NODEREF", "NODEREF_MANY"))
        L = sym_ref(E, "NodeLayerCollection", "layer")
        sch = sym_ref(E, "NodeLayerSchema", "schema")
        ft = sym_ref(E, "dict", "fields")
        E.assume(cls(ft.t) == E.prog.class_ids["dict"])
        E.hput("F._schema", L.t, sch.t)
        E.hput("F." + ATTRS.key(E.prog, "NodeLayerSchema", "fields"), sch.t, ft.t)
        fm = (E.heap.sel("D.dom", ft.t), E.heap.sel("D.map", ft.t))
        props = [sym_str(E, "prop%d" % k) for k in range(nf)]
        nd = sym_ref(E, "Node", "node")
        E.assume(nd.t != ft.t)
        kinds = []
        for k, pr in enumerate(props):
            dt, tn = field_type(E, fm, pr, "type%d" % k)
            c = E.choose_n(3)
            E.assume([tn == one, tn == many, And(tn != one, tn != many)][c])
            kinds.append(c)
        o = call(E, A + "children_of", [L] + props)
        if 2 in kinds:
            E.check("a field that holds no references is refused", BoolVal(o.exc == "ValueError"))
            cover(E, "refused")
            return
        no_exc(E, o)
        parts = []          # (length, element) of what each field contributes
        h = E.heap
        for k, pr in enumerate(props):
            has = Select(h.sel("D.dom", nd.t), E.to_val(pr))
            val = Select(h.sel("D.map", nd.t), E.to_val(pr))
            if not E.choose(has):
                parts.append((IntVal(0), lambda i: none))
            elif kinds[k] == 0:
                E.assume(Val.is_vref(val), R(val) > 0, R(val) < h.alloc, E.is_cls(R(val), "Node"))
                parts.append((IntVal(1), lambda i, val=val: val))
            else:
                E.assume(Val.is_vref(val), R(val) > 0, R(val) < h.alloc, cls(R(val)) == E.prog.class_ids["NodeList"])
                n, el = h.sel("L.len", R(val)), h.sel("L.el", R(val))
                E.assume(n >= 0)
                parts.append((n, lambda i, el=el: Select(el, i)))
        r = outcome(E, lambda: E.to_list(E.call(o.val, [nd], {})))
        no_exc(E, r)
        n, el = E.llen(r.val), E.hget("L.el", r.val.t)
        lo = IntVal(0)
        q = E.fresh("q", I)
        for k, (m, at) in enumerate(parts):
            E.check("field %d in order" % k, Implies(And(lo <= q, q < lo + m), Select(el, q) == at(q - lo)))
            lo = lo + m
        E.check("nothing else", n == lo)
        cover(E, "end")


for _nf in (1, 2, 3):
    children_unit(_nf)
