"""Loads /repo's current Python sources: functions, classes, module level names."""
import ast
import os
import hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
MODULES = ["query", "model", "codec", "collection", "algorithm", "printout"]


class Func:
    def __init__(self, node, module, qual, cls=None, kind="plain", outer=None):
        self.node, self.module, self.qual, self.cls, self.kind, self.outer = node, module, qual, cls, kind, outer
        self.is_gen = has_yield(node)

    def __repr__(self):
        return "<Func %s>" % self.qual


def has_yield(node):
    if isinstance(node, ast.Lambda):
        return False
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


class Cls:
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.methods, self.attrs = {}, {}


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.trees, self.src = {}, {}
        self.funcs, self.classes, self.consts = {}, {}, {}
        self.names = {}                       # module -> name -> ("func"/"class"/"const"/"import", payload)
        for m in MODULES:
            path = os.path.join(self.repo, "py/docria", m + ".py")
            with open(path, encoding="utf-8") as f:
                self.src[m] = f.read()
            self.trees[m] = ast.parse(self.src[m])
        for m in MODULES:
            self._load(m)
        self.class_ids = {}
        for i, c in enumerate(["object", "list", "dict", "set", "deque", "tuple", "function", "iterator", "bytearray", "BytesIO", "RawIO", "Unpacker", "Packer",
                               "external"] +
                              list(self.classes)):
            self.class_ids[c] = i + 1

    def _load(self, m):
        ns = self.names[m] = {}
        for st in self.trees[m].body:
            self._load_stmt(m, ns, st)

    def _load_stmt(self, m, ns, st):
        if isinstance(st, ast.FunctionDef):
            f = Func(st, m, "%s.%s" % (m, st.name))
            self.funcs[f.qual] = f
            ns[st.name] = ("func", f)
        elif isinstance(st, ast.ClassDef):
            bases = []
            for b in st.bases:
                bases.append(b.id if isinstance(b, ast.Name) else ast.unparse(b))
            c = Cls(st.name, m, st, bases)
            self.classes[st.name] = c
            ns[st.name] = ("class", c)
            for s in st.body:
                if isinstance(s, ast.FunctionDef):
                    kind = "plain"
                    for d in s.decorator_list:
                        if isinstance(d, ast.Name) and d.id in ("staticmethod", "property", "classmethod"):
                            kind = d.id
                        elif isinstance(d, ast.Attribute) and d.attr == "setter":
                            kind = "setter"
                        else:
                            kind = "unsupported" if not (isinstance(d, ast.Name)) or d.id not in ("staticmethod", "property", "classmethod") else kind
                    q = "%s.%s.%s" % (m, st.name, s.name)
                    if kind == "setter":
                        q += ".setter"
                    f = Func(s, m, q, st.name, kind)
                    self.funcs[q] = f
                    if kind == "setter":
                        c.methods[s.name + ".setter"] = f
                    else:
                        c.methods[s.name] = f
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = s.value
                elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                    c.attrs[s.target.id] = s.value
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    ns[t.id] = ("const", st.value)
        elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
            ns[st.target.id] = ("const", st.value)
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                ns[a.asname or a.name] = ("import", (st.module or "", a.name))
        elif isinstance(st, ast.Import):
            for a in st.names:
                ns[(a.asname or a.name).split(".")[0]] = ("module", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(st, (ast.If, ast.Try)):
            for s in ast.iter_child_nodes(st):
                if isinstance(s, ast.stmt):
                    self._load_stmt(m, ns, s)

    def resolve(self, m, name):
        """module level name -> binding or None"""
        b = self.names[m].get(name)
        seen = 0
        while b and b[0] == "import" and seen < 5:
            seen += 1
            mod, nm = b[1]
            mod = mod.replace("docria.", "").lstrip(".")
            if mod in self.names and nm != "*":
                b = self.names[mod].get(nm)
            else:
                return b
        if b is None and "*" in self.names[m] and m == "model":
            return self.names["query"].get(name)
        return b

    def mro(self, name):
        """linear, depth first left to right without duplicates (enough for this code base)"""
        out = []

        def go(n):
            if n in out:
                return
            out.append(n)
            c = self.classes.get(n)
            if c:
                for b in c.bases:
                    go(b)
        go(name)
        return out

    def subclasses(self, name):
        if name == "object":
            return list(self.class_ids)
        return [c for c in self.class_ids if c == name or name in self.mro(c)]

    def attr_owners(self, a):
        """the most general classes whose instances have the attribute"""
        cache = self.__dict__.setdefault("_owners", {})
        if a in cache:
            return cache[a]
        own = []
        for c, k in self.classes.items():
            if a in k.methods or a in k.attrs:
                own.append(c)
                continue
            for m in k.methods.values():
                args = m.node.args.args
                if not args:
                    continue
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == a and isinstance(n.value, ast.Name) and n.value.id == args[0].arg:
                        own.append(c)
                        break
                else:
                    continue
                break
        for b, t in (("dict", dict), ("list", list), ("set", set)):
            if hasattr(t, a):
                own.append(b)
        own = [c for c in own if not any(d != c and c in self.subclasses(d) for d in own)]
        cache[a] = own
        return own

    def find_method(self, cname, meth):
        for c in self.mro(cname):
            k = self.classes.get(c)
            if k and meth in k.methods:
                return k.methods[meth]
        return None

    def find_attr(self, cname, a):
        for c in self.mro(cname):
            k = self.classes.get(c)
            if k and a in k.attrs:
                return k, k.attrs[a]
        return None

    def fingerprint(self, quals):
        """hash of the normalised syntax trees of a set of functions"""
        h = hashlib.sha256()
        for q in sorted(quals):
            f = self.funcs.get(q)
            h.update(q.encode())
            h.update(b"?" if f is None else norm_dump(f.node).encode())
        return h.hexdigest()


def norm_dump(node):
    class T(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            self.generic_visit(n)
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) \
                    and isinstance(n.body[0].value.value, str):
                n.body = n.body[1:] or [ast.Pass()]
            n.returns = None
            for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
                a.annotation = None
            return n
    return ast.dump(T().visit(ast.parse(ast.unparse(node))))
