"""C07 through Document.compile: what is stored was validated."""
from .compile import *

P7 = "C07"


class Rigid:
    """an arbitrary field f0 of an arbitrary layer q0 and an arbitrary node x0"""
    def __init__(self, E):
        W = self.W = E.unit_x["W"]
        self.q0, self.x0, self.f0 = E.fresh("q0", I), E.fresh("x0", I), E.fresh("f0", Val)
        f = W.ft(self.q0)
        self.decl = And(0 <= self.q0, self.q0 < W.nl, Select(Select(W.DOM, f), self.f0))
        self.d0 = R(Select(Select(W.MAP, f), self.f0))
        E.assume(seen(f), seen(W.lay(self.q0)), seenv(Select(Select(W.MAP, f), self.f0)))
        self.present = And(W.attached(self.x0, self.q0), 0 <= self.q0, self.q0 < W.nl, Select(Select(W.DOM, self.x0), self.f0))
        self.value = Select(Select(W.MAP, self.x0), self.f0)

    def triple(self, E, q, k, key):
        W = self.W
        d = R(Select(Select(W.MAP, W.ft(q)), k))
        return Val.vt2(Select(Select(W.MAP, Select(W.OPT, d)), key), Val.vt2(W.name(q), k))


def collected(done):
    """references of the field in question are in the sets once done; everything in the sets is a reference"""
    def inv(E, L):
        W, r = E.unit_x["W"], E.unit_x["R"]
        u = E.unit_x
        out = shapes(E, L)
        d, dn = r.d0, done(E, L)
        for nm, key, cond, var, gh in (("layers", LAYERKEY(E), W.isref, "referenced_layers", "SRCL"), ("texts", CTXKEY(E), W.isspan, "referenced_texts", "SRCT")):
            mem = E.heap.sel("S.mem", L.ref(var))
            t = Const("t", Val)
            q = Select(E.ghost[gh], t)
            k = Val.t21(Val.t21(t))
            f = W.ft(q)
            out += [("referenced %s" % nm, Implies(And(r.decl, cond(d), dn), Select(mem, r.triple(E, r.q0, r.f0, key)))),
                    ("only referenced %s" % nm, FA([t], Implies(Select(mem, t), And(0 <= q, q < W.nl, Select(Select(W.DOM, f), k), cond(R(Select(Select(W.MAP, f), k))),
                                                                                    t == r.triple(E, q, k, key))), [Select(mem, t)]))]
        return out
    return inv


def fields_spec():
    def pre(E, L):
        E.unit_x["fidx"] = E.dict_facts(L.view.tag[1])
        r = E.unit_x["R"]
        E.assume(seenb(Select(Select(r.W.DOM, r.W.ft(r.q0)), r.f0)))

    def after(E, L2, L1):
        u = E.unit_x
        W, r = u["W"], u["R"]
        li = u["li"]
        k = E.to_val(L2.var("field"))
        d = R(Select(Select(W.MAP, W.ft(li)), k))
        E.assume(seenb(Select(Select(W.DOM, W.ft(li)), k)))
        for key, cond, gh in ((LAYERKEY(E), W.isref, "SRCL"), (CTXKEY(E), W.isspan, "SRCT")):
            E.gset(gh, If(cond(d), Store(E.ghost[gh], r.triple(E, li, k, key), li), E.ghost[gh]))
    return LoopSpec(simple(collected(lambda E, L: Or(E.unit_x["R"].q0 < E.unit_x["li"], And(E.unit_x["R"].q0 == E.unit_x["li"], E.unit_x["fidx"](E.unit_x["R"].f0) < L.i)))),
                    pre=pre, after=after, ghosts=("SRCL", "SRCT"))


def layers_spec():
    def bind(E, L, x):
        E.unit_x["li"] = L.i
        return E.unit_x["W"].bind_layer(E, L, x)
    return LoopSpec(simple(collected(lambda E, L: E.unit_x["R"].q0 < L.i)), bind=bind)


def known_targets(key, which, cond):
    """every referenced target exists"""
    def pre(E, L):
        u = E.unit_x
        W, r = u["W"], u["R"]
        u["I" + which] = L.view.tag[3]
        u["mem" + which] = E.heap.sel("S.mem", L.view.tag[1].t)
        E.assume(seenb(Select(u["mem" + which], r.triple(E, r.q0, r.f0, key(E)))))

    def inv(E, L):
        u = E.unit_x
        W, r = u["W"], u["R"]
        t = r.triple(E, r.q0, r.f0, key(E))
        dd = W.dl if which == "l" else W.dt
        return [rng(L), ("target exists", Implies(And(Select(u["mem" + which], t), u["I" + which](t) < L.i), Select(Select(W.DOM, dd), Val.t20(t))))]

    def bind(E, L, x):
        u = E.unit_x
        u["bad"] = (which, E.to_val(x))
        return bind_triple(E, L, x)
    return LoopSpec(inv, pre=pre, bind=bind)


def checked(E, L):
    W, r = E.unit_x["W"], E.unit_x["R"]
    return [("checked nodes", Implies(And(r.present, r.q0 < L.i), And(r.decl, okv(r.d0, r.value))))]


def layer_checked():
    def after(E, L2, L1):
        u = E.unit_x
        W, r = u["W"], u["R"]
        E.assume(seen(u["rk7"](r.x0)), seenv(Select(u["nodes7"], u["rk7"](r.x0))), seenb(Select(Select(W.DOM, W.ft(r.q0)), r.f0)))
        E.check("the node was visited", Implies(And(r.present, r.q0 == L1.i), And(0 <= u["rk7"](r.x0), Select(u["nodes7"], u["rk7"](r.x0)) == VR(r.x0))))
    return outer(checked, after=after)


def declared(E, L):
    W, r = E.unit_x["W"], E.unit_x["R"]
    j = Int("j")
    e = Select(E.unit_x["nodes7"], j)
    return [("declared so far", FA([j], Implies(And(0 <= j, j < L.i, Select(Select(W.DOM, R(e)), r.f0)), Select(Select(W.DOM, W.ft(E.unit_x["li"])), r.f0)), [e]))]


def node_declared():
    return validating(declared, after=lambda E, L2, L1: E.assume(seenb(Select(E.last_setop, E.unit_x["R"].f0))))


@unit(P7, "Document.compile refuses undeclared fields, invalid values and unknown targets", DC, axioms=AX, setup=use,
      loops={DC: [layers_spec(), fields_spec(), known_targets(LAYERKEY, "l", "isref"), known_targets(CTXKEY, "t", "isspan"),
                  layer_checked(), renumbering(), node_declared(), TRIV(), spans_of(), TRIV()], DC + "#comp": [texts_spec(), None]})
def _(E):
    E.unit_x = {}
    W = E.unit_x["W"] = World(E)
    E.last_rank = None
    E.ghost["SRCL"], E.ghost["SRCT"] = K(Val, IntVal(0)), K(Val, IntVal(0))
    r = E.unit_x["R"] = Rigid(E)
    o = call(E, DC, [W.doc])
    u = E.unit_x
    if o.raised:
        if o.exc == "SchemaError":
            which, t = u["bad"]
            q = Select(E.ghost["SRCL" if which == "l" else "SRCT"], t)
            k = Val.t21(Val.t21(t))
            d = R(Select(Select(W.MAP, W.ft(q)), k))
            E.check("only an unknown %s is refused" % ("layer" if which == "l" else "text"),
                    And(0 <= q, q < W.nl, Select(Select(W.DOM, W.ft(q)), k), W.isref(d) if which == "l" else W.isspan(d),
                        Not(Select(Select(W.DOM, W.dl if which == "l" else W.dt), Select(Select(W.MAP, Select(W.OPT, d)), LAYERKEY(E) if which == "l" else CTXKEY(E))))))
            cover(E, "unknown")
        if o.exc == "SchemaValidationError":
            n, f = u["n7"], W.ft(u["li"])
            E.check("a node of the document is refused", And(0 <= u["li"], u["li"] < W.nl, W.attached(n, u["li"])))
            n1, ok, w, hv = E.validated
            mem, cnt, en, idx = getattr(E, "last_set", (None,) * 4)
            bad = Not(accepted(E, hv, n, f, w))
            if en is not None:
                k = Select(en, 0)
                E.assume(seenv(k))
                bad = Or(bad, And(Select(Select(W.DOM, n), k), Not(Select(Select(W.DOM, f), k))))
            E.check("it has an invalid value or an undeclared field", bad)
            cover(E, "refused")
        return
    E.check("every field present is declared", Implies(r.present, r.decl))
    E.check("every value was accepted for its type", Implies(r.present, okv(r.d0, r.value)))
    for key, cond, dd, nm in ((LAYERKEY(E), W.isref(r.d0), W.dl, "layer"), (CTXKEY(E), W.isspan(r.d0), W.dt, "text")):
        E.check("the %s it refers to exists" % nm, Implies(And(r.decl, cond), Select(Select(W.DOM, dd), Select(Select(W.MAP, Select(W.OPT, r.d0)), key))))
    cover(E, "end")
