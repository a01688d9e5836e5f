"""Source model of /repo: modules, imports, classes, functions (stdlib ast only)."""
import ast
import os


class AnchorError(Exception):
    """A construct the analysis is anchored to cannot be found (exit 2)."""


SKIP_DIRS = {"build", ".git", "tools", "tests", "__pycache__", "configs", "docs", ".github"}


class Func:
    __slots__ = ("module", "cls", "node", "name", "qual", "parent", "locals", "is_static",
                 "is_classmethod", "is_property", "is_gen")

    def __init__(self, module, cls, node, qual, parent):
        self.module, self.cls, self.node, self.qual, self.parent = module, cls, node, qual, parent
        self.name = getattr(node, "name", "<lambda>")
        self.locals = local_names(node)
        decs = [dotted(d.func if isinstance(d, ast.Call) else d) or "" for d in getattr(node, "decorator_list", [])]
        self.is_static = "staticmethod" in decs
        self.is_classmethod = "classmethod" in decs
        self.is_property = any(d in ("property", "cached_property", "functools.cached_property") for d in decs)
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))

    def __repr__(self):
        return f"<Func {self.qual}>"

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def all_params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def where(self, node=None):
        n = node if node is not None else self.node
        return f"{self.module.rel}:{getattr(n, 'lineno', 0)} ({self.qual.split('.', self.module.name.count('.') + 1)[-1]})"


def own_nodes(fn):
    """AST nodes of fn's body, not descending into nested defs / lambdas / classes."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def local_names(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    nonlocal_ = set()
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Nonlocal, ast.Global)):
            nonlocal_.update(n.names)
    return out - nonlocal_


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


class Class:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.qual = f"{module.name}.{node.name}"
        self.methods = {}
        self.assigns = {}
        for s in node.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.assigns[s.target.id] = s.value
        self._mro = None
        self._attr_types = None

    def __repr__(self):
        return f"<Class {self.qual}>"

    @property
    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.node.bases:
                r = self.module.resolve(dotted(b) or "")
                if isinstance(r, Class):
                    for c in r.mro:
                        if c not in out:
                            out.append(c)
            self._mro = out
        return self._mro

    def find(self, name):
        for c in self.mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, cls, name):
        mro = self.mro
        i = mro.index(cls) if cls in mro else -1
        for c in mro[i + 1:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def all_methods(self):
        out = {}
        for c in reversed(self.mro):
            out.update(c.methods)
        return out

    def fields(self):
        """dataclass-like annotated fields in order (own + inherited)."""
        out = []
        for c in reversed(self.mro):
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if "ClassVar" in ast.dump(s.annotation):
                        continue
                    if s.target.id not in out:
                        out.append(s.target.id)
        return out

    @property
    def is_dataclass(self):
        return any((dotted(d.func if isinstance(d, ast.Call) else d) or "").endswith("dataclass")
                   for d in self.node.decorator_list)

    def attr_types(self):
        """attr -> set of project classes assigned by constructor call / annotation."""
        if self._attr_types is not None:
            return self._attr_types
        out = {}
        self._attr_types = out
        for c in self.mro:
            for m in c.methods.values():
                ann = {}
                a = m.node.args
                for p in a.posonlyargs + a.args + a.kwonlyargs:
                    if p.annotation is not None:
                        for k in _ann_classes(m.module, p.annotation):
                            ann.setdefault(p.arg, set()).add(k)
                for n in own_nodes(m.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)):
                        targets = n.targets if isinstance(n, ast.Assign) else [n.target]
                        for t in targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                ks = out.setdefault(t.attr, set())
                                if isinstance(n.value, ast.Name) and n.value.id in ann:
                                    ks |= ann[n.value.id]
                                for v in _value_alts(n.value):
                                    if isinstance(v, ast.Call):
                                        r = m.module.resolve(dotted(v.func) or "")
                                        if isinstance(r, Class):
                                            ks.add(r)
                                if isinstance(n, ast.AnnAssign):
                                    ks |= set(_ann_classes(m.module, n.annotation))
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    out.setdefault(s.target.id, set()).update(_ann_classes(c.module, s.annotation))
        return out


def _value_alts(v):
    if v is None:
        return []
    if isinstance(v, ast.IfExp):
        return _value_alts(v.body) + _value_alts(v.orelse)
    if isinstance(v, ast.BoolOp):
        return [x for e in v.values for x in _value_alts(e)]
    return [v]


def _ann_classes(module, ann):
    out = []
    for n in ast.walk(ann):
        if isinstance(n, (ast.Name, ast.Attribute)):
            r = module.resolve(dotted(n) or "")
            if isinstance(r, Class):
                out.append(r)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            try:
                sub = ast.parse(n.value, mode="eval").body
            except SyntaxError:
                continue
            for k in ast.walk(sub):
                if isinstance(k, (ast.Name, ast.Attribute)):
                    r = module.resolve(dotted(k) or "")
                    if isinstance(r, Class):
                        out.append(r)
    return out


def _inline_tests(tree):
    """`t = <expr>` directly followed by `if t:` / `if not t:`, with no other use of t in the function, is `if <expr>:`"""
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        cnt = None
        for b in ast.walk(fn):
            for f in ("body", "orelse", "finalbody"):
                blk = getattr(b, f, None)
                if not isinstance(blk, list) or len(blk) < 2:
                    continue
                i = 0
                while i + 1 < len(blk):
                    s, t = blk[i], blk[i + 1]
                    if isinstance(t, ast.If) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                        v = s.targets[0].id
                        e = t.test.operand if isinstance(t.test, ast.UnaryOp) and isinstance(t.test.op, ast.Not) else t.test
                        if isinstance(e, ast.Name) and e.id == v:
                            if cnt is None:
                                cnt = {}
                                for x in ast.walk(fn):
                                    if isinstance(x, ast.Name):
                                        cnt[x.id] = cnt.get(x.id, 0) + 1
                            if cnt.get(v) == 2:
                                if e is t.test:
                                    t.test = s.value
                                else:
                                    t.test.operand = s.value
                                del blk[i]
                                continue
                    i += 1


class _DictCalls(ast.NodeTransformer):
    """dict(a=1, **b) is {"a": 1, **b}"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "dict" and not n.args and n.keywords:
            ks = [ast.copy_location(ast.Constant(k.arg), k.value) if k.arg else None for k in n.keywords]
            return ast.copy_location(ast.Dict(ks, [k.value for k in n.keywords]), n)
        return n


def _own_continue(body):
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if isinstance(s, (ast.For, ast.While)) and _own_continue(s.orelse):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if _own_continue(getattr(s, f, None) or []):
                return True
        for h in getattr(s, "handlers", None) or []:
            if _own_continue(h.body):
                return True
        for c in getattr(s, "cases", None) or []:
            if _own_continue(c.body):
                return True
    return False


def _count_loop(fn, blk, i, uses):
    """`i = 0; while i < n: …; i += 1` with i and n otherwise untouched is `for i in range(n): …`"""
    w = blk[i]
    t = w.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and len(w.body) > 1 and not w.orelse):
        return False
    a, b = t.left, t.comparators[0]
    if isinstance(t.ops[0], ast.Gt):
        a, b = b, a
    elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
        return False
    if not isinstance(a, ast.Name):
        return False
    v = a.id
    last = w.body[-1]
    inc = isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == v and isinstance(last.op, ast.Add) \
        and isinstance(last.value, ast.Constant) and last.value.value == 1 and type(last.value.value) is int
    if not inc or _own_continue(w.body):
        return False
    init = None
    for j in range(i - 1, -1, -1):
        s = blk[j]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            if s.targets[0].id == v:
                init = j
                break
            continue
        if isinstance(s, (ast.AnnAssign, ast.Expr)) and not any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(s)):
            continue
        break
    if init is None:
        return False
    inside = [x for s in w.body for x in ast.walk(s) if isinstance(x, ast.Name)]
    if sum(isinstance(x.ctx, (ast.Store, ast.Del)) and x.id == v for x in inside) != 1:
        return False
    total = sum(1 for x in uses() if x.id == v)
    if total != sum(x.id == v for x in inside) + 2:
        return False
    bn = {x.id for x in ast.walk(b) if isinstance(x, ast.Name)}
    if any(isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in bn for x in inside):
        return False
    if not (isinstance(b, (ast.Name, ast.Constant)) or isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "len"):
        return False
    start = blk[init].value
    args = [b] if isinstance(start, ast.Constant) and start.value == 0 else [start, b]
    it = ast.copy_location(ast.Call(ast.copy_location(ast.Name("range", ast.Load()), w), args, []), w)
    blk[i] = ast.copy_location(ast.For(ast.copy_location(ast.Name(v, ast.Store()), w), it, w.body[:-1], [], None), w)
    del blk[init]
    return True


def _loops(tree):
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue

        def uses():
            return [x for x in ast.walk(fn) if isinstance(x, ast.Name)]
        for b in list(ast.walk(fn)):
            for f in ("body", "orelse", "finalbody"):
                blk = getattr(b, f, None)
                if not isinstance(blk, list):
                    continue
                i = 0
                while i < len(blk):
                    if isinstance(blk[i], ast.While) and _count_loop(fn, blk, i, uses):
                        continue
                    i += 1
        for n in ast.walk(fn):
            if isinstance(n, ast.For) and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name) \
                    and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate" and len(n.iter.args) == 1 and not n.iter.keywords:
                v = n.target.elts[0].id
                if sum(1 for x in uses() if x.id == v) == 1:
                    n.target, n.iter = n.target.elts[1], n.iter.args[0]


class Module:
    def __init__(self, project, name, rel, path):
        self.project, self.name, self.rel, self.path = project, name, rel, path
        with open(path, "rb") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, filename=rel)
        _inline_tests(self.tree)
        self.tree = _DictCalls().visit(self.tree)
        _loops(self.tree)
        if project.transform:
            project.transform(self.tree)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.imports = {}
        self.names = {}
        self.funcs = {}
        self.classes = {}
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for al in n.names:
                    if al.asname:
                        self.imports[al.asname] = al.name
                    else:
                        self.imports[al.name.split(".")[0]] = al.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = self._base(n)
                for al in n.names:
                    self.imports[al.asname or al.name] = f"{base}.{al.name}" if base else al.name
        self.assigns = {}
        self._collect(self.tree.body, None, name, None)

    def _base(self, n):
        if not n.level:
            return n.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (n.level - 1)]
        return ".".join(parts + ([n.module] if n.module else []))

    def _collect(self, body, cls, prefix, parent):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(self, cls, s, f"{prefix}.{s.name}", parent)
                self.project.func_of[id(s)] = f
                self.project.all_funcs.append(f)
                if cls is not None and parent is None:
                    # property setters share the getter's name
                    decs = [dotted(d) or "" for d in s.decorator_list]
                    if any(d.endswith(".setter") for d in decs):
                        cls.methods[s.name + ".setter"] = f
                    else:
                        cls.methods[s.name] = f
                elif parent is None:
                    self.funcs[s.name] = f
                self._nested(s, cls, f)
            elif isinstance(s, ast.ClassDef) and parent is None:
                c = Class(self, s)
                self.classes[s.name] = c
                self._collect(s.body, c, c.qual, None)
            elif isinstance(s, (ast.If, ast.Try, ast.With)) and parent is None and cls is None:
                for blk in ("body", "orelse", "finalbody"):
                    self._collect(getattr(s, blk, []) or [], cls, prefix, parent)
                for h in getattr(s, "handlers", []):
                    self._collect(h.body, cls, prefix, parent)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)) and cls is None and parent is None:
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name) and s.value is not None:
                        self.assigns[t.id] = s.value

    def _nested(self, fn, cls, parent):
        for n in own_nodes(fn):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(self, cls, n, f"{parent.qual}.<locals>.{n.name}", parent)
                self.project.func_of[id(n)] = f
                self.project.all_funcs.append(f)
                self._nested(n, cls, f)
            elif isinstance(n, ast.Lambda):
                f = Func(self, cls, n, f"{parent.qual}.<lambda>", parent)
                self.project.func_of[id(n)] = f
                self._nested(n, cls, f)

    def resolve(self, name, _seen=None):
        """dotted name in this module's scope -> Func | Class | Module | external dotted str | None"""
        if not name:
            return None
        head, _, rest = name.partition(".")
        if head in self.classes:
            c = self.classes[head]
            if not rest:
                return c
            if "." not in rest:
                m = c.find(rest)
                if m:
                    return m
            return None
        if head in self.funcs:
            return self.funcs[head] if not rest else None
        if head in self.imports:
            full = self.imports[head] + ("." + rest if rest else "")
            return self.project.lookup(full)
        if head in self.assigns and not rest:
            v = self.assigns[head]
            if isinstance(v, (ast.Name, ast.Attribute)) and dotted(v) and dotted(v) != name:
                return self.resolve(dotted(v))
            return f"{self.name}.{head}"
        if head in self.assigns:
            return f"{self.name}.{name}"
        return name  # builtin or unknown


class Project:
    def __init__(self, root="/repo", transform=None):
        self.root, self.transform = root, transform
        self.modules = {}
        self.func_of = {}
        self.all_funcs = []
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d not in SKIP_DIRS and not d.startswith("."))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, root)
                if rel in ("setup.py",) or f.startswith("test"):
                    continue
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                self.modules[name] = Module(self, name, rel, path)

    def lookup(self, full, depth=0):
        if full in self.modules:
            return self.modules[full]
        parts = full.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.modules:
                if depth > 6:
                    return full
                m = self.modules[mod]
                rest = ".".join(parts[i:])
                head = parts[i]
                if head in m.classes or head in m.funcs or head in m.imports or head in m.assigns:
                    return m.resolve(rest)
                return full
        return full

    def module(self, name):
        if name not in self.modules:
            raise AnchorError(f"module {name} not found in {self.root}")
        return self.modules[name]

    def func(self, path):
        """'pkg.mod:Class.method' or 'pkg.mod:func'"""
        mod, _, q = path.partition(":")
        m = self.module(mod)
        if "." in q:
            c, _, f = q.partition(".")
            k = m.classes.get(c)
            r = k.find(f) if k else None
        else:
            r = m.funcs.get(q)
            if r is None and q in m.imports:
                x = m.resolve(q)
                r = x if isinstance(x, Func) else None
        if r is None:
            raise AnchorError(f"function {path} not found")
        return r

    def cls(self, path):
        mod, _, q = path.partition(":")
        m = self.module(mod)
        c = m.classes.get(q)
        if c is None:
            r = m.resolve(q) if q in m.imports else None
            if isinstance(r, Class):
                return r
            raise AnchorError(f"class {path} not found")
        return c

    def classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def subclasses(self, cls):
        return [c for c in self.classes() if cls in c.mro]

    def methods_named(self, name):
        return [c.methods[name] for c in self.classes() if name in c.methods]
