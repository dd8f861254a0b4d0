"""Interpreter of the Python subset on top of engine.Engine."""
import ast
import re
import z3
from z3 import *
from .sorts import *
from .sorts import FA
from .engine import *
from .engine import _fr
from . import builtin_fns as BF


class LoopSpec:
    """inv(E, L) -> [(name, formula)]; variant(E, L) -> Int term that decreases (while loops)"""
    def __init__(self, inv, variant=None, hints=None, pre=None, after=None, bind=None, ghosts=()):
        self.inv, self.variant, self.hints, self.pre, self.after = inv, variant, hints, pre, after
        self.bind = bind
        self.ghosts = ghosts


class LoopView:
    def __init__(self, E, frame, i, view, entry, ghost_entry, names):
        self.E, self.frame, self.i, self.view, self.entry, self.ghost_entry, self.names = E, frame, i, view, entry, ghost_entry, names
        self.n = None

    def var(self, name):
        name = self.names.get(name, name)
        v = self.E.lookup_var(self.frame, name)
        if v is None or isinstance(v, Undef):
            raise Unsupported("annotation refers to variable %s which is not available" % name)
        return v

    def has(self, name):
        name = self.names.get(name, name)
        v = self.E.lookup_var(self.frame, name)
        return v is not None and not isinstance(v, Undef)

    def int(self, name):
        v = self.var(name)
        if isinstance(v, IntV):
            return v.t
        if isinstance(v, AnyV):
            return Val.i(v.t)
        raise Unsupported("annotation: %s is not an int" % name)

    def ref(self, name):
        v = self.var(name)
        if isinstance(v, RefV):
            return v.t
        if isinstance(v, AnyV):
            return Val.r(v.t)
        raise Unsupported("annotation: %s is not a reference" % name)

    def val(self, name):
        return self.E.to_val(self.var(name))

    def seq(self, name):
        v = self.var(name)
        if isinstance(v, (StrV, BytV)):
            return v.t
        raise Unsupported("annotation: %s is not a string" % name)


class Interp(Engine):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.locals_map = {}         # qual -> {old local name: new local name}
        self.loop_cache = {}
        self.globals_hooks = {}
        self.max_depth = 40
        self.unroll = 10

    def _reset(self, prefix):
        super()._reset(prefix)
        self.yield_hook = None
        self.exc_stack = []

    # ------------------------------------------------------ variables
    def lookup_var(self, frame, name):
        f = frame
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        return None

    def store_var(self, frame, name, v):
        f = frame
        if name in frame.nonlocals:
            f = frame.parent
            while f is not None and name not in f.vars:
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal")
        for lc in self.loopstack:
            if f in lc.frames:
                key = (lc.frames.index(f), name)
                if key not in lc.mods["vars"]:
                    lc.mods["vars"][key] = set()
                    lc.mods["changed"] = True
        f.vars[name] = v

    def load_name(self, frame, name):
        v = self.lookup_var(frame, name)
        if v is not None:
            if isinstance(v, Undef):
                raise Unsupported("variable %s may be unbound" % name)
            return v
        return self.load_global(frame.module, name)

    def load_global(self, module, name):
        if name in self.globals_hooks:
            return self.globals_hooks[name](self)
        b = self.prog.resolve(module, name)
        if b is not None:
            k, p = b
            if k == "func":
                return FnV(p)
            if k == "class":
                return ClsV(p.name)
            if k == "const":
                return self.eval_static(module, name, p)
            if k == "module":
                return ModV(p)
            if k == "import":
                return BuiltinV(p[1])
        if name in BF.BUILTINS:
            return BuiltinV(name)
        if name in EXC_PARENTS or name == "BaseException":
            return ClsV(name)
        raise Unsupported("name %s" % name)

    def eval_static(self, module, name, node):
        key = (module, name)
        fr = Frame(None, module)
        return self.static_value(module, node, fr)

    def static_value(self, module, node, fr):
        if isinstance(node, ast.Dict):
            return StaticDict([(self.static_value(module, k, fr), self.static_value(module, v, fr)) for k, v in zip(node.keys, node.values)])
        if isinstance(node, ast.DictComp) and ast.unparse(node) == "{v: k for k, v in DataType2String.items()}":
            d = self.load_global(module, "DataType2String")
            return StaticDict([(v, k) for k, v in d.items])
        return self.ev(node, fr)

    # ------------------------------------------------------ function calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, OpaqueFn):
            return f.fn(self, args, kwargs)
        if isinstance(f, FnV):
            q = f.func.qual
            if f.self_ is not None:
                args = [f.self_] + list(args)
            if q in self.summaries and not getattr(self, "_under", None) == (q, len(self.callstack)):
                return self.summaries[q](self, args, kwargs)
            return self.inline(f, args, kwargs)
        if isinstance(f, BuiltinV):
            return BF.call_builtin(self, f, args, kwargs)
        if isinstance(f, ClsV):
            return self.construct(f.name, args, kwargs)
        if isinstance(f, RefV):
            if f.kind == "object":
                self.refine_kind(f, ["NodePredicate", "DataType"])
            m = self.prog.find_method(f.kind, "__call__")
            if m is None:
                raise PyExc("TypeError")
            return self.call(FnV(m, None, f), args, kwargs)
        if isinstance(f, AnyV):
            hook = getattr(self, "any_call", None)
            if hook is not None:
                return hook(self, f, args, kwargs)
        raise Unsupported("call of %s" % type(f).__name__)

    def bind_args(self, f, args, kwargs, frame):
        a = f.func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = a.defaults
        args = list(args)
        star = None
        if args and isinstance(args[-1], tuple) and args[-1][0] == "*view":
            star = args.pop()[1]
        vars = frame.vars
        if len(args) > len(names) and a.vararg is None:
            raise PyExc("TypeError")
        for nme, v in zip(names, args):
            vars[nme] = v
        extra = args[len(names):]
        kw = {}
        kwstar = kwargs.pop("**", None) if "**" in kwargs else None
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vars:
                    raise PyExc("TypeError")
                vars[k] = v
            elif a.kwarg is not None:
                kw[k] = v
            else:
                raise PyExc("TypeError")
        for j, nme in enumerate(names):
            if nme not in vars:
                dj = j - (len(names) - len(defaults))
                if dj < 0:
                    raise PyExc("TypeError")
                vars[nme] = self.default_value(f, defaults[dj])
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vars:
                if d is None:
                    raise PyExc("TypeError")
                vars[x.arg] = self.default_value(f, d)
        if a.vararg is not None:
            if star is not None:
                if extra:
                    raise Unsupported("mixed star arguments")
                vars[a.vararg.arg] = star
            else:
                vars[a.vararg.arg] = TupV(extra)
        elif star is not None:
            raise Unsupported("star argument")
        if a.kwarg is not None:
            if kwstar is not None:
                if kw:
                    raise Unsupported("mixed ** arguments")
                vars[a.kwarg.arg] = kwstar
            else:
                d = self.new_dict()
                for k, v in kw.items():
                    self.dict_set(d, self.const(k), v)
                vars[a.kwarg.arg] = d
        elif kwstar is not None:
            raise Unsupported("** argument")

    def default_value(self, f, node):
        fr = Frame(None, f.func.module)
        if f.frame is not None:
            fr.parent = f.frame
        return self.ev(node, fr)

    def inline(self, f, args, kwargs):
        if len(self.callstack) > self.max_depth:
            raise Unsupported("recursion too deep")
        if any(c is f.func for c in self.callstack[-12:]) and sum(1 for c in self.callstack if c is f.func) > 6:
            raise Unsupported("recursion in %s (%s)" % (f.func.qual, " < ".join(c.qual for c in self.callstack[-10:])))
        if f.func.kind == "unsupported":
            raise Unsupported("decorated function %s" % f.func.qual)
        self.inlined.add(f.func.qual if f.func.outer is None else f.func.outer)
        frame = Frame(f.func, f.func.module, f.frame)
        owner = self.owner_of(f.func)
        frame.owner = owner if owner is not None else (self.framestack[-1].owner if getattr(self, "framestack", None) else None)
        self.bind_args(f, args, dict(kwargs), frame)
        if f.func.is_gen:
            return GenV(f.func, frame, frame.owner)
        return self.run_frame(f.func, frame)

    def owner_of(self, func):
        q = func.outer or func.qual
        return q if q in self.loops else None

    def run_frame(self, func, frame):
        self.callstack.append(func)
        self.framestack = getattr(self, "framestack", [])
        depth = len(self.framestack)
        self.framestack.append(frame)
        try:
            node = func.node
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, frame)
            try:
                self.block(node.body, frame)
            except ReturnX as r:
                return r.v
            return NONE
        finally:
            self.callstack.pop()
            del self.framestack[depth:]

    def run_gen(self, g):
        """run a generator body to completion, collecting what it yields (see assumptions)"""
        out = []
        old = self.yield_hook
        self.yield_hook = lambda v: out.append(v)
        lst = None
        if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for l in ast.walk(g.func.node) if isinstance(l, (ast.For, ast.While)) for y in ast.walk(l)):
            # yields inside loops: collected in a list that loop annotations know as "$yielded"
            lst = self.new_list()
            g.frame.vars["$yielded"] = lst
            self.yield_hook = lambda v: BF.m_list__append(self, lst, [v], {})
        marker = len(self.loopstack)
        self.in_gen_loop = False
        try:
            r = self.run_frame(g.func, g.frame)
        finally:
            self.yield_hook = old
        extra = None
        return lst if lst is not None else TupV(out)

    # ------------------------------------------------------ construction
    def construct(self, name, args, kwargs):
        if exc_is(name, "BaseException") or name in EXC_PARENTS:
            return ExcV(name)
        if name in BF.BUILTINS and name not in self.prog.classes:
            return BF.call_builtin(self, BuiltinV(name), args, kwargs)
        h = self.summaries.get("new:" + name)
        if h is not None:
            return h(self, args, kwargs)
        mro = self.prog.mro(name)
        if any(b in ("Enum", "RawIOBase") for b in mro) and name not in ("_BoundaryReader", "_BoundaryWriter"):
            raise Unsupported("construct %s" % name)
        r = self.alloc(name)
        obj = RefV(r, name)
        if "dict" in mro:
            self.init_dict(r)
        if "list" in mro:
            self.hput("L.len", r, IntVal(0))
            self.hput("L.el", r, K(I, none))
        m = self.prog.find_method(name, "__init__")
        if m is not None:
            self.call(FnV(m, None, obj), args, kwargs)
        elif args and "dict" not in mro:
            raise PyExc("TypeError")
        return obj

    # ------------------------------------------------------ attributes
    def getattr_(self, o, a):
        if is_chaos(o):
            self.chaos_raise()
            return self.chaos()
        if isinstance(o, AnyV):
            o = self.resolve(o)
        if isinstance(o, NoneT):
            if a == "__ne__":
                return BuiltinV("none_ne")
            raise PyExc("AttributeError")
        if isinstance(o, ModV):
            return BuiltinV(o.name + "." + a)
        if isinstance(o, BuiltinV) and o.self_ is None:
            return BuiltinV(o.name + "." + a)
        if isinstance(o, ClsV):
            m = self.prog.find_method(o.name, a)
            if m is not None:
                return FnV(m)
            at = self.prog.find_attr(o.name, a)
            if at is not None:
                k, node = at
                if "Enum" in k.bases:
                    return self.atom_of(k.name, a)
                h = self.globals_hooks.get("%s.%s" % (k.name, a))
                if h is not None:
                    return h(self)
                fr = Frame(None, k.module)
                for b in k.attrs:
                    pass
                if isinstance(node, ast.Name) and node.id in k.methods:
                    return FnV(k.methods[node.id])
                if isinstance(node, ast.Name) and node.id in k.attrs:
                    return self.getattr_(o, node.id)
                return self.static_value(k.module, node, fr)
            return BuiltinV("%s.%s" % (o.name, a))
        if isinstance(o, SuperV):
            mro = self.prog.mro(o.self_.kind)
            try:
                start = mro.index(o.cls) + 1
            except ValueError:
                start = 0
            for c in mro[start:]:
                k = self.prog.classes.get(c)
                if k and a in k.methods:
                    return FnV(k.methods[a], None, o.self_)
                if c in ("dict", "list", "object", "Sized", "RawIOBase", "Exception"):
                    return BuiltinV("%s.%s" % (c if c != "Sized" else "object", a), o.self_)
            return BuiltinV("object.%s" % a, o.self_)
        if isinstance(o, RefV):
            key = "%s.%s" % (o.kind, a)
            if o.kind == "object" and not a.startswith("__"):
                k = self.refine_kind(o, self.prog.attr_owners(a))
                if k is None:
                    h = getattr(self, "unknown_attr", None)
                    if h is None:
                        raise PyExc("AttributeError")
                    return h(self, o, a)
            for c in self.prog.mro(o.kind):
                h = self.attr_hooks.get((c, a))
                if h is not None:
                    return h(self, o)
            # virtual dispatch: an overriding subclass may be the dynamic class
            m = self.prog.find_method(o.kind, a)
            if m is not None:
                m = self.dispatch(o, a, m)
                if m.kind == "property":
                    return self.call(FnV(m, None, o), [], {})
                if m.kind == "staticmethod":
                    return FnV(m)
                return FnV(m, None, o)
            b = BF.builtin_method(self, o, a)
            if b is not None:
                return b
            if a in ATTRS.table:
                return self.getfield(o, a)
            at = self.prog.find_attr(o.kind, a)
            if at is not None:
                return self.getattr_(ClsV(at[0].name), a)
            if a == "__class__":
                raise Unsupported("__class__")
            return self.getfield(o, a)
        if isinstance(o, ExcV):
            raise Unsupported("exception attribute")
        b = BF.builtin_method(self, o, a)
        if b is not None:
            return b
        raise PyExc("AttributeError")

    def dispatch(self, o, a, m):
        subs = [c for c in self.prog.subclasses(o.kind) if c != o.kind]
        over = {}
        for c in subs:
            mm = self.prog.find_method(c, a)
            if mm is not m:
                over.setdefault(mm.qual, []).append(c)
        if not over or o.t.decl().name().startswith("new_" + o.kind + "!"):
            return m
        for q, cs in over.items():
            ids = Or([cls(o.t) == self.prog.class_ids[c] for c in cs])
            if self.choose(ids, "dynamic class"):
                return self.prog.funcs[q]
        return m

    def setattr_(self, o, a, v):
        if isinstance(o, AnyV):
            o = self.resolve(o)
        if not isinstance(o, RefV):
            raise PyExc("AttributeError")
        if o.kind == "object" and a in BF.KIND_BY_ATTR:
            self.refine_kind(o, BF.KIND_BY_ATTR[a])
        m = None
        for c in self.prog.mro(o.kind):
            k = self.prog.classes.get(c)
            if k and a + ".setter" in k.methods:
                m = k.methods[a + ".setter"]
                break
        if m is not None:
            self.call(FnV(m, None, o), [v], {})
            return
        mm = self.prog.find_method(o.kind, a)
        if mm is not None and mm.kind == "property":
            raise PyExc("AttributeError")
        self.setfield(o, a, v)

    # ------------------------------------------------------ statements
    def block(self, stmts, frame):
        for s in stmts:
            self.stmt(s, frame)

    def stmt(self, s, frame):
        if frame.func is not None:
            self.cur_line = getattr(s, "lineno", 0)
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s, frame)

    def st_Expr(self, s, frame):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = self.ev(s.value.value, frame) if s.value.value is not None else NONE
            self.do_yield(v)
            return
        if isinstance(s.value, ast.YieldFrom):
            raise Unsupported("yield from")
        self.ev(s.value, frame)

    def do_yield(self, v):
        if self.yield_hook is None:
            raise Unsupported("yield outside a generator under contract")
        self.yield_hook(v)

    def st_Pass(self, s, frame):
        pass

    def st_Import(self, s, frame):
        for a in s.names:
            frame.vars[(a.asname or a.name).split(".")[0]] = ModV(a.name)

    def st_ImportFrom(self, s, frame):
        for a in s.names:
            mod = (s.module or "").replace("docria.", "")
            if mod in self.prog.names:
                frame.vars[a.asname or a.name] = self.load_global(mod, a.name)
            else:
                frame.vars[a.asname or a.name] = BuiltinV((s.module or "") + "." + a.name)

    def st_Global(self, s, frame):
        pass

    def st_Nonlocal(self, s, frame):
        # names that are only read are fine
        for n in s.names:
            frame.nonlocals.add(n)

    def st_FunctionDef(self, s, frame):
        outer = frame.func
        f = Func(s, frame.module, "%s.<locals>.%s" % (outer.qual if outer else frame.module, s.name), None, "plain",
                 outer=(outer.outer or outer.qual) if outer else None)
        self.store_var(frame, s.name, FnV(f, frame))

    def st_Return(self, s, frame):
        raise ReturnX(self.ev(s.value, frame) if s.value is not None else NONE)

    def st_Raise(self, s, frame):
        if s.exc is None:
            if self.exc_stack:
                raise self.exc_stack[-1]
            raise Unsupported("bare raise")
        e = s.exc
        # message expressions are not evaluated (stated in DESIGN.md)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            k = e.func.id
        elif isinstance(e, ast.Name):
            k = e.id
        else:
            raise Unsupported("raise form")
        v = self.lookup_var(frame, k)
        if isinstance(v, ExcV):
            k = v.kind
        if k not in EXC_PARENTS:
            raise Unsupported("raise %s" % k)
        raise PyExc(k, where="line %d" % s.lineno)

    def st_Assert(self, s, frame):
        if not self.branch(self.ev(s.test, frame), "assert"):
            raise PyExc("AssertionError", where="line %d" % s.lineno)

    def st_If(self, s, frame):
        if self.branch(self.ev_cond(s.test, frame), "if"):
            self.block(s.body, frame)
        else:
            self.block(s.orelse, frame)

    def ev_cond(self, node, frame):
        return self.ev(node, frame)

    def st_Assign(self, s, frame):
        v = self.ev(s.value, frame)
        for t in s.targets:
            self.assign(t, v, frame)

    def st_AnnAssign(self, s, frame):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, frame), frame)

    def st_AugAssign(self, s, frame):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(frame, t.id)
            self.assign(t, self.binop(s.op, cur, self.ev(s.value, frame), inplace=True), frame)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, frame)
            if isinstance(o, AnyV):
                o = self.resolve(o)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.binop(s.op, cur, self.ev(s.value, frame), inplace=True))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, frame)
            ix = self.ev_index(t.slice, frame)
            cur = self.getitem(o, ix)
            self.setitem(o, ix, self.binop(s.op, cur, self.ev(s.value, frame), inplace=True))
        else:
            raise Unsupported("augmented assignment")

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            self.store_var(frame, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y, frame)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, frame), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, frame), self.ev_index(t.slice, frame), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, AnyV):
            rec = {2: Val.is_vt2, 3: Val.is_vt3}.get(n)
            if rec is not None and self.choose(rec(v.t), "tuple"):
                acc = {2: [Val.t20, Val.t21], 3: [Val.t30, Val.t31, Val.t32]}[n]
                return [self.mk(simplify(f(v.t))) for f in acc]
            v = self.resolve(v)
        if isinstance(v, TupV):
            if len(v.items) != n:
                raise PyExc("ValueError")
            return v.items
        if isinstance(v, RefV) and self.is_listlike(v):
            if not self.choose(self.llen(v) == n):
                raise PyExc("ValueError")
            return [self.lel(v, IntVal(j)) for j in range(n)]
        if isinstance(v, (NoneT, IntV, BoolV)):
            raise PyExc("TypeError")
        raise Unsupported("unpack %s" % type(v).__name__)

    def st_Delete(self, s, frame):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, frame)
                ix = self.ev_index(t.slice, frame)
                self.delitem(o, ix)
            elif isinstance(t, ast.Name):
                self.store_var(frame, t.id, Undef())
            else:
                raise Unsupported("del")

    def st_Break(self, s, frame):
        raise BreakX()

    def st_Continue(self, s, frame):
        raise ContinueX()

    def st_Try(self, s, frame):
        if s.finalbody:
            raise Unsupported("finally")
        try:
            self.block(s.body, frame)
        except PyExc as e:
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = ["BaseException"]
                elif isinstance(h.type, ast.Tuple):
                    names = [x.id for x in h.type.elts]
                else:
                    names = [h.type.id]
                if any(exc_is(e.kind, nme) for nme in names):
                    if h.name:
                        self.store_var(frame, h.name, ExcV(e.kind))
                    self.exc_stack.append(e)
                    try:
                        self.block(h.body, frame)
                    finally:
                        self.exc_stack.pop()
                    return
            raise
        self.block(s.orelse, frame)

    def st_With(self, s, frame):
        raise Unsupported("with")

    # ------------------------------------------------------ loops
    def loop_list(self, owner):
        """the loops of a function in source order, un-annotated helpers expanded at their calls"""
        if owner in self.loop_cache:
            return self.loop_cache[owner]
        out = []
        seen = []

        def walk(node, func):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.For, ast.While)):
                    if isinstance(ch, ast.For):
                        walk_expr(ch.iter, func)
                    out.append(ch)
                    for st in ch.body + ch.orelse:
                        walk_one(st, func)
                    continue
                walk_one(ch, func, descend_only=True)

        def walk_expr(e, func):
            walk_one(e, func)

        def walk_one(n, func, descend_only=False):
            if isinstance(n, (ast.For, ast.While)):
                if isinstance(n, ast.For):
                    walk_one(n.iter, func)
                else:
                    walk_one(n.test, func)
                out.append(n)
                for st in n.body + n.orelse:
                    walk_one(st, func)
                return
            for ch in ast.iter_child_nodes(n):
                walk_one(ch, func)
            if isinstance(n, ast.Call):
                q = self.callee_name(n, func)
                if q and q not in self.loops and q not in self.summaries and q not in seen:
                    seen.append(q)
                    f = self.prog.funcs[q]
                    for st in f.node.body:
                        walk_one(st, f)

        f = self.prog.funcs[owner]
        seen.append(owner)
        for st in f.node.body:
            walk_one(st, f)
        self.loop_cache[owner] = out
        return out

    def callee_name(self, call, func):
        fn = call.func
        if isinstance(fn, ast.Name):
            b = self.prog.resolve(func.module, fn.id)
            if b and b[0] == "func":
                return b[1].qual
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id == "self" and func.cls:
                m = self.prog.find_method(func.cls, fn.attr)
                if m:
                    return m.qual
            if isinstance(fn.value, ast.Name) and fn.value.id in self.prog.classes:
                m = self.prog.find_method(fn.value.id, fn.attr)
                if m:
                    return m.qual
        return None

    def find_spec(self, node, frame):
        owner = frame.owner
        if owner is None:
            raise Unsupported("loop without invariant at line %d" % node.lineno)
        if getattr(node, "_spec", None) is not None:
            return node._spec
        lst = self.loop_list(owner)
        specs = self.loops[owner]
        if len(lst) != len(specs):
            raise Unsupported("%s: %d loops, %d annotated (restructured)" % (owner, len(lst), len(specs)))
        for k, n in enumerate(lst):
            if n is node:
                sp = specs[k]
                if sp is None:
                    raise Unsupported("loop without invariant at line %d" % node.lineno)
                kind = getattr(sp, "kind", None)
                if kind and kind != type(node).__name__:
                    raise Unsupported("loop kind changed")
                return sp, owner, k
        raise Unsupported("loop not found in %s" % owner)

    def st_For(self, s, frame):
        it = self.ev(s.iter, frame)
        if isinstance(it, GenV) and getattr(it, "view", None) is not None:
            w = it.view
        else:
            w = self.consume(it)
        n = w.n()
        cn = conc(n)
        if getattr(s, "_spec", None) is None and cn is not None and cn <= self.unroll and not w.live and (w.tag == "static" or cn == 0):
            broke = False
            for j in range(cn):
                self.assign(s.target, w.at(IntVal(j)), frame)
                try:
                    self.block(s.body, frame)
                except BreakX:
                    broke = True
                    break
                except ContinueX:
                    pass
            if not broke:
                self.block(s.orelse, frame)
            return
        if w.live and cn is not None and cn <= self.unroll and not self.localmode and not self.has_spec(s, frame):
            # a list of statically known length is iterated position by position
            j = 0
            try:
                while True:
                    cn = conc(w.n())
                    if cn is None or j > self.unroll:
                        raise Unsupported("loop over a list that changes length")
                    if j >= cn:
                        break
                    self.assign(s.target, w.at(IntVal(j)), frame)
                    j += 1
                    try:
                        self.block(s.body, frame)
                    except ContinueX:
                        pass
            except BreakX:
                return
            self.block(s.orelse, frame)
            return
        self.cut_loop(s, frame, w)

    def has_spec(self, node, frame):
        owner = frame.owner
        if owner is None:
            return False
        lst, specs = self.loop_list(owner), self.loops.get(owner) or []
        return any(n is node and k < len(specs) and specs[k] is not None for k, n in enumerate(lst))

    def st_While(self, s, frame):
        self.cut_loop(s, frame, None)

    def seed_mods(self, key):
        """initial write set of a loop; on request (E.reuse_mods) what was found for this loop on other paths, which only forgets more"""
        m = {"heap": {}, "vars": {}, "alloc": False, "ghost": set(), "changed": False}
        if getattr(self, "reuse_mods", False):
            for k, o in list(self.modsets.items()) + list(getattr(self, "old_mods", {}).items()):
                if k[0] == key[0]:
                    m["alloc"] = m["alloc"] or o["alloc"]
                    m["ghost"] |= o["ghost"]
                    for v, sh in o["vars"].items():
                        m["vars"].setdefault(v, set()).update(sh)
                    for c, x in o["heap"].items():
                        y = m["heap"].setdefault(c, {"listed": {}, "fresh": False, "wild": False})
                        y["fresh"] = y["fresh"] or x["fresh"]
                        y["wild"] = y["wild"] or x["wild"]
        return m

    def restart(self, key, stack):
        """the write set of a loop grew: explore again from the outermost loop concerned"""
        for lc in stack:
            if lc.mods["changed"]:
                return Restart(lc.key[1])
        return Restart(key[1])

    def cut_loop(self, s, frame, w):
        if self.localmode:
            raise Unsupported("loop inside a comprehension body")
        spec, owner, k = self.find_spec(s, frame)
        names = self.locals_map.get(owner, {})
        tag = "%s/loop%d" % (owner, k + 1)
        entry = self.heap.copy()
        gentry = dict(self.ghost)
        # frames whose variables may change: the current frame and its parents
        frames = []
        f = frame
        while f is not None:
            frames.append(f)
            f = f.parent
        # fetch the invariant on entry
        if spec.pre is not None:
            L = LoopView(self, frame, IntVal(0), w, entry, gentry, names)
            L.n = w.n() if w is not None else None
            spec.pre(self, L)

        def view(i, gh=None):
            L = LoopView(self, frame, i, w, entry, gentry, names)
            L.n = w.n() if w is not None else None
            return L
        for nm, g in spec.inv(self, view(IntVal(0))):
            self.check("%s:entry:%s" % (tag, nm), g)
        entry_pc = len(self.pc)
        key = (id(s), self.decisions())
        if key not in self.modsets:
            self.modsets[key] = self.seed_mods(key)
        mods = self.modsets[key]
        mods["changed"] = False
        head_serial = self.serial + 1
        # ---- havoc
        oldheap = self.heap.copy()
        if mods["alloc"]:
            na = self.fresh("alloc", I)
            self.assume(na >= oldheap.alloc)
            self.heap.alloc = na
        r_ = Int("r_")
        for comp, m in sorted(mods["heap"].items()):
            oldt = oldheap.term(comp)
            srt = comp_sort(comp)
            if m["wild"]:
                self.heap.c[comp] = self.fresh("H." + comp, ArraySort(I, srt))
            elif m["fresh"]:
                nt = self.fresh("H." + comp, ArraySort(I, srt))
                self.heap.c[comp] = nt
                self.assume(FA([r_], Implies(And([r_ < oldheap.alloc] + [r_ != x for x in m["listed"].values()]),
                                             Select(nt, r_) == Select(oldt, r_)), [Select(nt, r_)]))
            else:
                t = oldt
                for x in m["listed"].values():
                    t = Store(t, x, self.fresh("hv." + comp, srt))
                self.heap.c[comp] = t
            self.heap.ver[comp] = self.heap.alloc
        for (fi, nme), shapes in sorted(mods["vars"].items()):
            fr = frames[fi]
            cur = fr.vars.get(nme)
            if cur is None or isinstance(cur, Undef):
                fr.vars[nme] = Undef()
                continue
            shp = self.shape(cur)
            for x in shapes:
                shp = join_shape(shp, x)
            fr.vars[nme] = self.fresh_of(shp, nme)
        for g in sorted(mods["ghost"] | set(spec.ghosts)):
            if g in self.ghost:
                old = self.ghost[g]
                self.ghost[g] = self.fresh("g_" + g, old.sort())
        i = self.fresh("it", I)
        self.assume(i >= 0)
        if w is not None and not (w.live and "L.len" in mods["heap"]):
            self.assume(i <= w.n())
        L = view(i)
        for nm, g in spec.inv(self, L):
            self.assume(g)
        lc = LoopCtx(key, head_serial, mods, spec)
        lc.frames = frames
        if w is not None:
            go = self.choose(i < w.n(), "for")
        else:
            lc0 = self.loopstack
            self.loopstack = lc0 + [lc]
            try:
                go = self.branch(self.ev(s.test, frame), "while")
            finally:
                self.loopstack = lc0
            if mods["changed"]:
                raise self.restart(key, lc0)
        if go:
            var0 = spec.variant(self, L) if spec.variant else None
            if spec.hints:
                spec.hints(self, L, "body")
            stack = self.loopstack
            self.loopstack = stack + [lc]
            try:
                try:
                    if w is not None:
                        x = w.at(i)
                        if spec.bind is not None:
                            x = spec.bind(self, L, x) or x
                        self.assign(s.target, x, frame)
                    self.block(s.body, frame)
                except ContinueX:
                    pass
                except BreakX:
                    if mods["changed"]:
                        raise self.restart(key, stack)
                    self.loopstack = stack
                    return
                # end of an iteration
                for (fi, nme), shapes in list(mods["vars"].items()):
                    cur = frames[fi].vars.get(nme)
                    if cur is not None and not isinstance(cur, Undef):
                        sh = self.shape(cur)
                        if sh not in shapes:
                            shapes.add(sh)
                            mods["changed"] = True
                if mods["changed"]:
                    raise self.restart(key, stack)
                i2 = simplify(i + 1)
                L2 = view(i2)
                if spec.after is not None:
                    spec.after(self, L2, L)
                for nm, g in spec.inv(self, L2):
                    self.check("%s:preserved:%s" % (tag, nm), g)
                if var0 is not None:
                    v1 = spec.variant(self, L2)
                    self.check("%s:terminates" % tag, And(v1 < var0, var0 >= 0))
                raise PathEnd()
            except (PyExc, ReturnX, PathEnd, Infeasible):
                if mods["changed"]:
                    raise self.restart(key, stack)
                self.loopstack = stack
                raise
            finally:
                self.loopstack = stack
        if w is not None:
            self.assume(i >= w.n())
        if spec.hints:
            spec.hints(self, L, "exit")
        self.block(s.orelse, frame)

    def gset(self, name, term):
        for lc in self.loopstack:
            if name not in lc.mods["ghost"]:
                lc.mods["ghost"].add(name)
                lc.mods["changed"] = True
        self.ghost[name] = term

    def shape(self, v):
        if isinstance(v, NoneT):
            return "none"
        if isinstance(v, IntV):
            return "int"
        if isinstance(v, BoolV):
            return "bool"
        if isinstance(v, StrV):
            return "str"
        if isinstance(v, BytV):
            return "byt"
        if isinstance(v, RefV):
            return ("ref", v.kind)
        if isinstance(v, TupV):
            return ("tup",) + tuple(self.shape(x) for x in v.items)
        if isinstance(v, (FltV, AtomV)):
            return "any"
        if isinstance(v, AnyV):
            return ("any", v.info) if isinstance(v.info, str) else "any"
        if isinstance(v, RealV):
            return "real"
        return ("other", 0)

    def fresh_of(self, sh, name):
        if sh == "none":
            return NONE
        if sh == "int":
            return IntV(self.fresh(name, I))
        if sh == "bool":
            return BoolV(self.fresh(name, B))
        if sh == "str":
            return StrV(self.fresh(name, Sq))
        if sh == "byt":
            return BytV(self.fresh(name, Sq))
        if sh == "real":
            return RealV(self.fresh(name, RealSort()))
        if sh == "any" or isinstance(sh, tuple) and sh[0] == "any":
            t = self.fresh(name, Val)
            self.assume(Implies(Val.is_vref(t), And(Val.r(t) > 0, Val.r(t) < self.heap.alloc)))
            return AnyV(t, sh[1] if isinstance(sh, tuple) else None)
        if sh[0] == "ref":
            return self.refv(self.fresh(name, I), sh[1])
        if sh[0] == "tup":
            return TupV([self.fresh_of(x, name) for x in sh[1:]])
        raise Unsupported("loop variable of unsupported kind: %s" % name)

    # ------------------------------------------------------ expressions
    def ev(self, e, frame):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, frame)

    def ex_Constant(self, e, frame):
        return self.const(e.value)

    def ex_Name(self, e, frame):
        return self.load_name(frame, e.id)

    def ex_Tuple(self, e, frame):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported("starred")
        return TupV([self.ev(x, frame) for x in e.elts])

    def ex_List(self, e, frame):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported("starred")
        return self.list_of([self.ev(x, frame) for x in e.elts])

    def ex_Set(self, e, frame):
        return StaticSet([self.ev(x, frame) for x in e.elts])

    def ex_Dict(self, e, frame):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("**dict")
            self.dict_set(d, self.ev(k, frame), self.ev(v, frame))
        return d

    def ex_Attribute(self, e, frame):
        return self.getattr_(self.ev(e.value, frame), e.attr)

    def ex_IfExp(self, e, frame):
        if self.branch(self.ev(e.test, frame), "ifexp"):
            return self.ev(e.body, frame)
        return self.ev(e.orelse, frame)

    def ex_BoolOp(self, e, frame):
        isand = isinstance(e.op, ast.And)
        v = None
        vals = []
        for j, x in enumerate(e.values):
            v = self.ev(x, frame)
            if j == len(e.values) - 1:
                return v
            t = self.branch(v, "boolop")
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def ex_UnaryOp(self, e, frame):
        v = self.ev(e.operand, frame)
        if isinstance(e.op, ast.Not):
            return BoolV(simplify(Not(self.truth(v))))
        if isinstance(e.op, ast.USub):
            if isinstance(v, RealV):
                return RealV(-v.t)
            return IntV(simplify(-self.as_int(v)))
        if isinstance(e.op, ast.UAdd):
            return IntV(self.as_int(v))
        raise Unsupported("unary")

    def ex_BinOp(self, e, frame):
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return self.format_op(e, frame)
        return self.binop(e.op, self.ev(e.left, frame), self.ev(e.right, frame))

    def format_op(self, e, frame):
        v = self.ev(e.right, frame)
        h = getattr(self, "format_hook", None)
        if h is not None:
            r = h(self, e.left.value, v)
            if r is not None:
                return r
        vs = list(v.items) if isinstance(v, TupV) else [v]
        pieces = re.split(r"(%%|%[sd])", e.left.value)
        out = []
        for p in pieces:
            if p == "%%":
                out.append("%")
            elif p in ("%s", "%d"):
                if not vs or p == "%d" and not isinstance(vs[0], IntV):
                    return StrV(self.fresh("fmt", Sq))
                out.append(vs.pop(0))
            elif "%" in p:
                return StrV(self.fresh("fmt", Sq))
            else:
                out.append(p)
        if vs:
            return StrV(self.fresh("fmt", Sq))
        return self.format_parts(out)

    def ex_JoinedStr(self, e, frame):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            elif isinstance(p, ast.FormattedValue) and p.format_spec is None and p.conversion in (-1, 115):
                out.append(self.ev(p.value, frame))
            else:
                return StrV(self.fresh("fstr", Sq))
        return self.format_parts(out)

    def binop(self, op, a, b, inplace=False):
        if isinstance(a, AnyV):
            a = self.resolve(a)
        if isinstance(b, AnyV):
            b = self.resolve(b)
        if isinstance(op, ast.Add):
            if isinstance(a, (StrV, BytV)) and type(a) == type(b):
                if a.lit is not None and b.lit is not None:
                    return self.const(a.lit + b.lit)
                return type(a)(self.cat(a.t, b.t))
            if isinstance(a, TupV) and isinstance(b, TupV):
                return TupV(a.items + b.items)
            if isinstance(a, RefV) and self.is_listlike(a) and isinstance(b, RefV) and self.is_listlike(b) and not inplace:
                r = self.to_list(a)
                BF.list_extend(self, r, b)
                return r
            if isinstance(a, RefV) and self.is_listlike(a) and inplace:
                BF.list_extend(self, a, b)
                return a
        if isinstance(a, RealV) or isinstance(b, RealV):
            x, y = self.real(a), self.real(b)
            if isinstance(op, ast.Add):
                return RealV(x + y)
            if isinstance(op, ast.Sub):
                return RealV(x - y)
            if isinstance(op, ast.Mult):
                return RealV(x * y)
            if isinstance(op, ast.Div):
                return RealV(x / y)
            raise Unsupported("real op")
        if isinstance(op, ast.Mult) and isinstance(a, (StrV,)) and isinstance(b, IntV):
            return StrV(self.fresh("strmul", Sq))
        if isinstance(a, RefV) and a.kind == "set" and isinstance(b, RefV) and b.kind == "set":
            return BF.set_op(self, a, b, {ast.Sub: "difference", ast.BitAnd: "intersection", ast.BitOr: "union"}.get(type(op)))
        if not isinstance(a, (IntV, BoolV)) or not isinstance(b, (IntV, BoolV)):
            if isinstance(op, (ast.BitAnd, ast.BitOr)) and isinstance(a, RefV):
                m = self.prog.find_method(a.kind, "__and__" if isinstance(op, ast.BitAnd) else "__or__")
                if m:
                    return self.call(FnV(m, None, a), [b], {})
            if isinstance(a, RefV) or isinstance(b, RefV):
                if isinstance(a, RefV) and self.prog.find_method(a.kind, "__index__") or isinstance(b, RefV):
                    raise PyExc("TypeError")
            raise PyExc("TypeError")
        x, y = self.as_int(a), self.as_int(b)
        if isinstance(op, ast.Add):
            return IntV(simplify(x + y))
        if isinstance(op, ast.Sub):
            return IntV(simplify(x - y))
        if isinstance(op, ast.Mult):
            return IntV(simplify(x * y))
        if isinstance(op, ast.FloorDiv) or isinstance(op, ast.Mod):
            c = conc(y)
            if c is None:
                if not self.choose(y > 0, "divisor positive"):
                    if self.choose(y == 0):
                        raise PyExc("ZeroDivisionError")
                    raise Unsupported("negative divisor")
            elif c <= 0:
                if c == 0:
                    raise PyExc("ZeroDivisionError")
                raise Unsupported("negative divisor")
            return IntV(x / y) if isinstance(op, ast.FloorDiv) else IntV(x % y)
        if isinstance(op, ast.LShift):
            c, d = conc(x), conc(y)
            if d is not None:
                return IntV(simplify(x * (1 << d)))
            return IntV(simplify(x * self.pow2(y)))
        if isinstance(op, ast.RShift):
            d = conc(y)
            if d is not None:
                return IntV(x / (1 << d))
            return IntV(x / self.pow2(y))
        if isinstance(op, ast.Pow):
            c, d = conc(x), conc(y)
            if c is not None and d is not None and 0 <= d < 200:
                return IntV(c ** d)
        if isinstance(op, ast.Div):
            if conc(y) in (0,):
                raise PyExc("ZeroDivisionError")
            return RealV(ToReal(x) / ToReal(y))
        raise Unsupported("operator %s" % type(op).__name__)

    def pow2(self, y):
        h = getattr(self, "pow2_hook", None)
        if h is None:
            raise Unsupported("symbolic shift")
        return h(self, y)

    def ex_Compare(self, e, frame):
        left = self.ev(e.left, frame)
        acc = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, frame)
            r = self.compare(op, left, right)
            if len(e.ops) == 1:
                return r
            acc = r.t if acc is None else And(acc, r.t)
            left = right
        return BoolV(simplify(acc))

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return BoolV(simplify(self.identical(a, b)))
        if isinstance(op, ast.IsNot):
            return BoolV(simplify(Not(self.identical(a, b))))
        if isinstance(op, (ast.In, ast.NotIn)):
            t = self.contains(b, a)
            return BoolV(simplify(t if isinstance(op, ast.In) else Not(t)))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            for x, y in ((a, b),):
                if isinstance(x, RefV):
                    m = self.prog.find_method(x.kind, "__eq__" if isinstance(op, ast.Eq) else "__ne__")
                    if m is not None and m.qual.startswith("model.NodeFieldCollection"):
                        return self.call(FnV(m, None, x), [y], {})
            t = self.eq(a, b)
            return BoolV(simplify(t if isinstance(op, ast.Eq) else Not(t)))
        if isinstance(a, RefV):
            mn = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[type(op)]
            m = self.prog.find_method(a.kind, mn)
            if m is not None:
                return self.call(FnV(m, None, a), [b], {})
        h = getattr(self, "cmp_hook", None)
        if h is not None:
            r = h(self, op, a, b)
            if r is not None:
                return r
        if isinstance(op, ast.Lt):
            return BoolV(simplify(self.lt(a, b)))
        if isinstance(op, ast.LtE):
            return BoolV(simplify(self.lt(a, b, False)))
        if isinstance(op, ast.Gt):
            return BoolV(simplify(self.lt(b, a)))
        if isinstance(op, ast.GtE):
            return BoolV(simplify(self.lt(b, a, False)))
        raise Unsupported("comparison")

    def contains(self, c, x):
        if isinstance(c, AnyV):
            c = self.resolve(c)
        if isinstance(c, (StaticSet, TupV)):
            return Or([self.eq(x, y) for y in c.items]) if c.items else BoolVal(False)
        if isinstance(c, StaticDict):
            return Or([self.eq(x, y) for y, _ in c.items]) if c.items else BoolVal(False)
        if isinstance(c, RefV):
            if c.kind == "object":
                self.refine_kind(c, ["Node", "dict", "set", "list", "NodeCollection"])
            self.settle(c)
            m = self.prog.find_method(c.kind, "__contains__")
            if m is not None:
                return self.truth(self.call(FnV(m, None, c), [x], {}))
            mro = self.prog.mro(c.kind)
            if "dict" in mro:
                return self.dict_has(c, x)
            if c.kind == "set":
                return self.set_has(c, x)
            if "list" in mro:
                j = Int("jc")
                n, el = self.llen(c), self.hget("L.el", c.t)
                b = self.fresh("inlist", B)
                wit = self.fresh("inwit", I)
                tx = self.to_val(x)
                self.assume(Implies(b, And(0 <= wit, wit < n, Select(el, wit) == tx)))
                self.assume(Implies(Not(b), FA([j], Implies(And(0 <= j, j < n), Select(el, j) != tx), [Select(el, j)])))
                return b
        if isinstance(c, StrV):
            raise Unsupported("substring test")
        raise PyExc("TypeError")

    def ex_Lambda(self, e, frame):
        outer = frame.func
        f = Func(e, frame.module, "%s.<lambda>" % (outer.qual if outer else frame.module), None, "plain",
                 outer=(outer.outer or outer.qual) if outer else None)
        return FnV(f, frame)

    def ex_Starred(self, e, frame):
        raise Unsupported("starred")

    def ev_index(self, s, frame):
        if isinstance(s, ast.Slice):
            g = lambda x: NONE if x is None else self.ev(x, frame)
            return SliceV(g(s.lower), g(s.upper), g(s.step))
        return self.ev(s, frame)

    def ex_Subscript(self, e, frame):
        o = self.ev(e.value, frame)
        ix = self.ev_index(e.slice, frame)
        return self.getitem(o, ix)

    def getitem(self, o, ix):
        if isinstance(o, AnyV):
            o = self.resolve(o)
        if isinstance(o, RefV):
            if o.kind == "object":
                self.refine_kind(o, ["dict", "list", "NodeCollection", "Text", "TextSpan"])
            self.settle(o)
            m = self.prog.find_method(o.kind, "__getitem__")
            if m is not None:
                m = self.dispatch(o, "__getitem__", m)
                return self.call(FnV(m, None, o), [ix], {})
        return BF.raw_getitem(self, o, ix)

    def setitem(self, o, ix, v):
        if isinstance(o, AnyV):
            o = self.resolve(o)
        if isinstance(o, RefV):
            if o.kind == "object":
                self.refine_kind(o, ["dict", "list"])
            m = self.prog.find_method(o.kind, "__setitem__")
            if m is not None:
                return self.call(FnV(m, None, o), [ix, v], {})
        return BF.raw_setitem(self, o, ix, v)

    def delitem(self, o, ix):
        if isinstance(o, AnyV):
            o = self.resolve(o)
        if isinstance(o, RefV):
            m = self.prog.find_method(o.kind, "__delitem__")
            if m is not None:
                return self.call(FnV(m, None, o), [ix], {})
        return BF.raw_delitem(self, o, ix)

    def ex_Call(self, e, frame):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "super" and not e.args:
            f = frame
            while f.func is None or f.func.cls is None:
                f = f.parent
            return SuperV(f.func.cls, f.vars[f.func.node.args.args[0].arg])
        f = self.ev(fn, frame)
        args = []
        kwargs = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, frame)
                if isinstance(v, TupV):
                    args.extend(v.items)
                else:
                    args.append(("*view", v))
            else:
                if args and isinstance(args[-1], tuple):
                    raise Unsupported("argument after star")
                args.append(self.ev(a, frame) if not isinstance(a, ast.GeneratorExp) else self.genexp(a, frame))
        for k in e.keywords:
            v = self.ev(k.value, frame)
            if k.arg is None:
                if isinstance(v, dict):
                    kwargs.update(v)
                elif isinstance(v, RefV) and v.kind == "dict":
                    n = conc(self.hget("D.n", v.t))
                    if n == 0:
                        continue
                    kwargs["**"] = v
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    # ------------------------------------------------------ comprehensions
    def comp(self, elt, gens, frame, kind="list"):
        if len(gens) != 1:
            raise Unsupported("nested comprehension")
        g = gens[0]
        it = self.ev(g.iter, frame)
        w = self.consume(it)
        sub = Frame(None, frame.module, frame)
        sub.func = None
        sub.owner = frame.owner

        def bind(x):
            fr = Frame(None, frame.module, frame)
            fr.owner = frame.owner
            self.bind_target(g.target, x, fr)
            return fr
        cn = conc(w.n())
        if cn is not None and w.tag == "static":
            out = []
            for j in range(cn):
                fr = bind(w.at(IntVal(j)))
                if all(self.branch(self.ev(c, fr)) for c in g.ifs):
                    out.append(elt(fr))
            return self.list_of(out)

        def cond(x):
            fr = bind(x)
            for c in g.ifs:
                if not self.branch(self.ev(c, fr)):
                    return BoolV(False)
            return BoolV(True)
        if kind == "dict":
            def pair(x):
                fr = bind(x)
                return elt(fr).items
            kv = self.filter_multi(w, cond, pair, width=2)
            return BF.dict_from_lists(self, *kv)
        if g.ifs:
            return self.filter_list(w, cond, lambda x: elt(bind(x)))
        return self.map_list(w, lambda x: elt(bind(x)))

    def bind_target(self, t, x, fr):
        if isinstance(t, ast.Name):
            fr.vars[t.id] = x
        elif isinstance(t, ast.Tuple):
            for a, b in zip(t.elts, self.unpack(x, len(t.elts))):
                self.bind_target(a, b, fr)
        else:
            raise Unsupported("comprehension target")

    def comp_loop(self, e, frame):
        """a comprehension whose element creates objects, executed as the loop it abbreviates, with an annotated invariant"""
        owner = frame.owner
        specs = self.loops.get("%s#comp" % owner) if owner is not None else None
        if not specs or len(e.generators) != 1:
            return None
        lst = self.comp_list(owner)
        if len(lst) != len(specs):
            raise Unsupported("%s: %d comprehensions, %d annotated (restructured)" % (owner, len(lst), len(specs)))
        for k, n in enumerate(lst):
            if n is e and specs[k] is not None:
                break
        else:
            return None
        cache = self.__dict__.setdefault("comp_fors", {})
        if id(e) not in cache:
            g = e.generators[0]
            loc = dict(lineno=e.lineno, col_offset=e.col_offset)
            is_dict = isinstance(e, ast.DictComp)
            if is_dict:
                body = ast.Assign(targets=[ast.Subscript(value=ast.Name(id="$comp", ctx=ast.Load(), **loc), slice=e.key, ctx=ast.Store(), **loc)], value=e.value, **loc)
            else:
                body = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id="$comp", ctx=ast.Load(), **loc), attr="append", ctx=ast.Load(), **loc), args=[e.elt], keywords=[], **loc), **loc)
            for c in reversed(g.ifs):
                body = ast.If(test=c, body=[body], orelse=[], **loc)
            s = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[], **loc)
            s._spec = (specs[k], owner + "#comp", k)
            cache[id(e)] = (e, s)
        s = cache[id(e)][1]
        fr = Frame(None, frame.module, frame)
        fr.owner = owner
        fr.vars["$comp"] = self.new_dict() if isinstance(e, ast.DictComp) else self.list_of([])
        if isinstance(e, ast.DictComp):
            fr.vars["$comp"].kind = "dict"
        self.st_For(s, fr)
        return fr.vars["$comp"]

    def comp_list(self, owner):
        c = self.__dict__.setdefault("comp_lists", {})
        if owner not in c:
            node = self.prog.funcs[owner].node
            c[owner] = sorted([n for n in ast.walk(node) if isinstance(n, (ast.ListComp, ast.DictComp))], key=lambda n: (n.lineno, n.col_offset))
        return c[owner]

    def ex_ListComp(self, e, frame):
        r = self.comp_loop(e, frame)
        if r is not None:
            return r
        return self.comp(lambda fr: self.ev(e.elt, fr), e.generators, frame)

    def genexp(self, e, frame):
        l = self.comp(lambda fr: self.ev(e.elt, fr), e.generators, frame)
        return IterV(self.view(l))

    def ex_GeneratorExp(self, e, frame):
        return self.genexp(e, frame)

    def ex_SetComp(self, e, frame):
        return self.set_of(self.comp(lambda fr: self.ev(e.elt, fr), e.generators, frame))

    def ex_DictComp(self, e, frame):
        r = self.comp_loop(e, frame)
        if r is not None:
            return r
        l = self.comp(lambda fr: TupV([self.ev(e.key, fr), self.ev(e.value, fr)]), e.generators, frame, kind="dict")
        if l.kind == "dict":
            return l
        return BF.dict_from_pairs(self, l)


def join_shape(a, b):
    if a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "tup" and b[0] == "tup" and len(a) == len(b):
        return ("tup",) + tuple(join_shape(x, y) for x, y in zip(a[1:], b[1:]))
    if isinstance(a, tuple) and a[0] == "other" or isinstance(b, tuple) and b[0] == "other":
        return ("other", 0)
    return "any"
