"""Inlined control-flow graphs with exceptional edges.

A Graph is built for one root function; calls to project functions accepted by the
inline policy are spliced in (parameters become ordinary definitions), `return helper()`
used as a condition is wired directly into the branch, and try/finally/with bodies are
duplicated per continuation, so queries quantify over every normal and failing path.
"""
import ast
from .project import Class, Func, Module, dotted, own_nodes

PURE_BUILTINS = {
    "len", "int", "bool", "str", "bytes", "isinstance", "issubclass", "tuple", "list", "dict", "set",
    "frozenset", "range", "enumerate", "zip", "min", "max", "abs", "sorted", "reversed", "repr",
    "float", "type", "any", "all", "sum", "id", "getattr", "hasattr", "callable", "divmod", "super",
    "ValueError", "RuntimeError", "TypeError", "KeyError", "IndexError", "EOFError", "OSError",
    "NotImplementedError", "FileNotFoundError", "StopIteration", "print",
}


class VarRef(ast.expr):
    _fields = ()

    def __init__(self, key):
        super().__init__()
        self.key = key
        self.lineno = 0
        self.col_offset = 0


class Ctx:
    def __init__(self, cid, func, lexical, cls, depth, callsite=None, caller=None):
        self.id, self.func, self.lexical, self.cls, self.depth = cid, func, lexical, cls, depth
        self.fnbind = {}
        self.types = {}
        self.selfname = None
        self.callsite, self.caller = callsite, caller
        for n in own_nodes(func.node):
            if isinstance(n, ast.FunctionDef):
                f = func.module.project.func_of.get(id(n))
                if f is not None:
                    self.fnbind[n.name] = (f, self)

    def stack(self):
        out, c = [], self
        while c is not None:
            out.append(c.func)
            c = c.caller
        return out


class Node:
    __slots__ = ("id", "kind", "ast", "ctx", "expr", "call", "defs", "stores", "succ", "pred", "note", "body")

    def __init__(self, nid, kind, node, ctx):
        self.id, self.kind, self.ast, self.ctx = nid, kind, node, ctx
        self.expr = None
        self.call = None
        self.defs = []
        self.stores = []
        self.succ = []
        self.pred = []
        self.note = None

    @property
    def line(self):
        return getattr(self.ast, "lineno", 0)

    def where(self):
        return f"{self.ctx.func.module.rel}:{self.line} ({self.ctx.func.qual[len(self.ctx.func.module.name) + 1:]})"

    def __repr__(self):
        return f"<{self.id}:{self.kind}@{self.line}>"


class _Frame:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Graph:
    MAX_NODES = 40000

    def __init__(self, project, root, policy=None, cls=None, max_depth=6, split_calls=True):
        self.project = project
        self.root = root
        self.policy = policy or (lambda f, call, ctx: False)
        self.max_depth = max_depth
        self.nodes = []
        self.subst = {}
        self.inlined = set()
        self.cur = []
        self.frames = []
        self._nctx = 0
        self._nvar = 0
        self.ctxs = []
        ctx = self._ctx(root, None, cls or root.cls, 0)
        self.rootctx = ctx
        self.entry = self.new("entry", root.node, ctx)
        self.cur = [(self.entry, "n")]
        self.exit = Node(-1, "exit", root.node, ctx)
        self.raise_exit = Node(-2, "raise_exit", root.node, ctx)
        self._bind_root(root, ctx)
        fr = _Frame("func", ctx=ctx, mode="root", rets=[], T=[], F=[], retvar=("%ret", 0))
        self.frames.append(fr)
        self.rootret = fr
        if isinstance(root.node, ast.Lambda):
            self.do_return(root.node.body, root.node, ctx)
        else:
            self.body(root.node.body, ctx)
        self.frames.pop()
        ends = self.cur + fr.rets
        for n in (self.exit, self.raise_exit):
            n.id = len(self.nodes)
            self.nodes.append(n)
        for p, l in ends:
            self._edge(p, self.exit, l)
        self._prune()

    # -- plumbing -----------------------------------------------------------
    def _ctx(self, func, lexical, cls, depth, callsite=None, caller=None):
        c = Ctx(self._nctx, func, lexical, cls, depth, callsite, caller)
        self._nctx += 1
        self.ctxs.append(c)
        if func.cls is not None and not func.is_static and func.parent is None and func.params:
            c.selfname = func.params[0]
        self._types(c)
        return c

    def _types(self, c):
        fn = c.func
        a = fn.node.args
        from .project import _ann_classes
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.annotation is not None:
                ks = _ann_classes(fn.module, p.annotation)
                if len(ks) == 1:
                    c.types[p.arg] = ks[0]
        for n in own_nodes(fn.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                    and isinstance(n.value, ast.Call):
                r = fn.module.resolve(dotted(n.value.func) or "")
                if isinstance(r, Class):
                    c.types.setdefault(n.targets[0].id, r)

    def new(self, kind, node, ctx):
        n = Node(len(self.nodes), kind, node, ctx)
        if len(self.nodes) > self.MAX_NODES:
            raise RuntimeError(f"graph of {self.root.qual} too large")
        self.nodes.append(n)
        return n

    @staticmethod
    def _edge(a, b, label):
        a.succ.append((b, label))
        b.pred.append((a, label))

    def add(self, kind, node, ctx, raises=False):
        n = self.new(kind, node, ctx)
        for p, l in self.cur:
            self._edge(p, n, l)
        self.cur = [(n, "n")]
        if raises:
            self.throw(n, "exc")
        return n

    def throw(self, n, label):
        for fr in reversed(self.frames):
            if fr.kind in ("handler", "finally", "with"):
                fr.pending.append((n, label))
                return
        self._edge(n, self.raise_exit, label)

    def _prune(self):
        seen = set()
        st = [self.entry]
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            st.extend(s for s, _ in n.succ)
        self.live = [n for n in self.nodes if n.id in seen]
        for n in self.live:
            n.pred = [(p, l) for p, l in n.pred if p.id in seen]

    def freshvar(self, ctx):
        self._nvar += 1
        return (ctx.id, f"%t{self._nvar}")

    def varkey(self, name, ctx):
        c = ctx
        while c is not None:
            if name in c.func.locals:
                return (c.id, name)
            c = c.lexical
        return None

    def _bind_root(self, f, ctx):
        a = f.node.args
        n = self.add("bind", f.node, ctx)
        ps = f.all_params + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        for i, p in enumerate(ps):
            if p == ctx.selfname and i == 0:
                n.defs.append(((ctx.id, p), ("self",)))
            else:
                n.defs.append(((ctx.id, p), ("param", p)))

    # -- resolution ---------------------------------------------------------
    def recv_class(self, e, ctx):
        """static class of a receiver expression, if known"""
        if isinstance(e, ast.Name):
            c = ctx
            while c is not None:
                if e.id in c.func.locals:
                    if e.id == c.selfname:
                        return c.cls
                    return c.types.get(e.id)
                c = c.lexical
            r = ctx.func.module.resolve(e.id)
            return r if isinstance(r, Class) else None
        if isinstance(e, ast.Attribute):
            k = self.recv_class(e.value, ctx)
            if k is not None:
                ks = k.attr_types().get(e.attr) or set()
                if len(ks) == 1:
                    return next(iter(ks))
        if isinstance(e, ast.Call):
            r = ctx.func.module.resolve(dotted(e.func) or "")
            if isinstance(r, Class):
                return r
        return None

    def resolve_call(self, call, ctx):
        """-> (Func, recv_expr|None, recv_class|None, lexical_ctx|None, bound_ctx) or None"""
        return self.resolve_callable(call.func, ctx)

    def resolve_callable(self, f, ctx):
        if isinstance(f, ast.Lambda):
            fn = self.project.func_of.get(id(f))
            return (fn, None, ctx.cls, ctx, ctx) if fn else None
        if isinstance(f, ast.Name):
            c = ctx
            while c is not None:
                if f.id in c.func.locals:
                    b = c.fnbind.get(f.id)
                    if b is None:
                        return None
                    if len(b) == 2:
                        fn, dctx = b
                        return (fn, None, dctx.cls, dctx, dctx)
                    return b
                c = c.lexical
            r = ctx.func.module.resolve(f.id)
            if isinstance(r, Func):
                return (r, None, r.cls, None, None)
            return None
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                c = ctx
                while c is not None and c.selfname is None:
                    c = c.lexical
                if c is None or c.cls is None:
                    return None
                m = c.cls.find_after(c.func.cls, f.attr)
                if m is None:
                    return None
                return (m, ast.copy_location(ast.Name(id=c.selfname, ctx=ast.Load()), f), c.cls, None, c)
            d = dotted(f)
            if d:
                head = d.split(".")[0]
                islocal = False
                c = ctx
                while c is not None:
                    if head in c.func.locals:
                        islocal = True
                    c = c.lexical
                if not islocal:
                    r = ctx.func.module.resolve(d)
                    if isinstance(r, Func):
                        if r.is_classmethod:
                            return (r, v, r.cls, None, ctx)
                        return (r, None, r.cls, None, None)
            k = self.recv_class(v, ctx)
            if k is not None:
                m = k.find(f.attr)
                if m is not None and not m.is_property:
                    if m.is_static:
                        return (m, None, k, None, None)
                    return (m, v, k, None, ctx)
        return None

    # -- statements ---------------------------------------------------------
    def body(self, stmts, ctx):
        for s in stmts:
            if not self.cur:
                return
            self.stmt(s, ctx)

    def stmt(self, s, ctx):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            n = self.add("stmt", s, ctx, raises=True)
            n.expr = None
            return
        m(s, ctx)

    def s_Expr(self, s, ctx):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        self.ev(v, ctx)
        n = self.add("stmt", s, ctx)
        n.expr = v

    def s_Pass(self, s, ctx):
        pass

    def s_Global(self, s, ctx):
        pass

    s_Nonlocal = s_Import = s_ImportFrom = s_ClassDef = s_Global

    def s_FunctionDef(self, s, ctx):
        f = self.project.func_of.get(id(s))
        n = self.add("stmt", s, ctx)
        k = self.varkey(s.name, ctx)
        if k:
            n.defs.append((k, ("func", f)))

    def _targets(self, n, t, val, ctx):
        if isinstance(t, ast.Name):
            k = self.varkey(t.id, ctx)
            if k:
                n.defs.append((k, val))
            else:
                n.stores.append((t, val, ctx))
        elif isinstance(t, (ast.Tuple, ast.List)):
            # literal tuple on both sides: pairwise
            if val[0] == "expr" and isinstance(val[1], (ast.Tuple, ast.List)) and len(val[1].elts) == len(t.elts) \
                    and not any(isinstance(x, ast.Starred) for x in list(t.elts) + list(val[1].elts)):
                for a, b in zip(t.elts, val[1].elts):
                    self._targets(n, a, ("expr", b, val[2]), ctx)
                return
            for i, a in enumerate(t.elts):
                if isinstance(a, ast.Starred):
                    self._targets(n, a.value, ("item", "*%d" % i, val), ctx)
                else:
                    self._targets(n, a, ("item", i, val), ctx)
        elif isinstance(t, ast.Starred):
            self._targets(n, t.value, val, ctx)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            n.stores.append((t, val, ctx))

    def _ev_target(self, t, ctx):
        if isinstance(t, ast.Subscript):
            self.ev(t.value, ctx)
            self.ev(t.slice, ctx)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, ctx)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self._ev_target(e, ctx)

    def s_Assign(self, s, ctx):
        self.ev(s.value, ctx)
        for t in s.targets:
            self._ev_target(t, ctx)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            r = None
            v = s.value
            if isinstance(v, (ast.Lambda,)):
                r = self.resolve_callable(v, ctx)
            elif isinstance(v, ast.Attribute) and self.recv_class(v.value, ctx) is not None:
                r = self.resolve_callable(v, ctx)
            elif isinstance(v, ast.Name):
                r = self.resolve_callable(v, ctx)
            if r is not None:
                ctx.fnbind[s.targets[0].id] = r
        n = self.add("assign", s, ctx, raises=any(not isinstance(t, ast.Name) for t in s.targets))
        n.expr = s.value
        for t in s.targets:
            self._targets(n, t, ("expr", s.value, ctx), ctx)

    def s_AnnAssign(self, s, ctx):
        if s.value is None:
            return
        self.ev(s.value, ctx)
        n = self.add("assign", s, ctx)
        n.expr = s.value
        self._targets(n, s.target, ("expr", s.value, ctx), ctx)

    def s_AugAssign(self, s, ctx):
        self.ev(s.value, ctx)
        self._ev_target(s.target, ctx)
        n = self.add("assign", s, ctx, raises=not isinstance(s.target, ast.Name))
        n.expr = s.value
        op = type(s.op).__name__
        load = _as_load(s.target)
        self._targets(n, s.target, ("aug", op, load, s.value, ctx), ctx)
        n.note = "aug"

    def s_Delete(self, s, ctx):
        n = self.add("stmt", s, ctx, raises=True)
        for t in s.targets:
            n.stores.append((t, ("del",), ctx))

    def s_Return(self, s, ctx):
        self.do_return(s.value, s, ctx)

    def do_return(self, value, s, ctx):
        fi = max(i for i, f in enumerate(self.frames) if f.kind == "func")
        fr = self.frames[fi]
        between = self.frames[fi + 1:]
        guarded = any(f.kind in ("finally", "with") for f in between)
        if fr.mode == "cond" and not guarded and value is not None:
            T, F = self.cond(value, ctx)
            # record a return marker on each side
            fr.T += T
            fr.F += F
            self.cur = []
            return
        if value is not None:
            self.ev(value, ctx)
        n = self.add("ret", s, ctx)
        n.expr = value
        if fr.mode == "cond":
            n.defs.append((fr.retvar, ("expr", value if value is not None else ast.Constant(None), ctx)))
        elif fr.mode in ("value", "root"):
            n.defs.append((fr.retvar, ("expr", value if value is not None else ast.Constant(None), ctx)))
        self.unwind(fi)
        if fr.mode == "cond":
            c = self.add("cond", s, ctx)
            c.expr = VarRef(fr.retvar)
            fr.T.append((c, "T"))
            fr.F.append((c, "F"))
        else:
            fr.rets += self.cur
        self.cur = []

    def unwind(self, target_index):
        """Run finally/with-exit bodies of frames above target_index (innermost first)."""
        saved = self.frames
        i = len(saved) - 1
        while i > target_index and self.cur:
            f = saved[i]
            self.frames = saved[:i]
            if f.kind == "finally":
                self.body(f.body, f.ctx)
            elif f.kind == "with":
                self.with_exit(f)
            i -= 1
        self.frames = saved

    def s_Raise(self, s, ctx):
        if s.exc is not None:
            self.ev(s.exc, ctx)
        n = self.add("raise", s, ctx)
        n.expr = s.exc
        self.throw(n, "exc")
        self.cur = []

    def s_Assert(self, s, ctx):
        T, F = self.cond(s.test, ctx)
        self.cur = F
        if F:
            n = self.add("raise", s, ctx)
            self.throw(n, "exc")
        self.cur = T

    def s_If(self, s, ctx):
        T, F = self.cond(s.test, ctx)
        self.cur = T
        self.body(s.body, ctx)
        a = self.cur
        self.cur = F
        self.body(s.orelse, ctx)
        self.cur = a + self.cur

    def s_While(self, s, ctx):
        head = self.add("join", s, ctx)
        fr = _Frame("loop", breaks=[], head=head)
        T, F = self.cond(s.test, ctx)
        self.frames.append(fr)
        self.cur = T
        self.body(s.body, ctx)
        for p, l in self.cur:
            self._edge(p, head, l)
        head.body = (head.id, len(self.nodes))
        self.frames.pop()
        self.cur = F
        self.body(s.orelse, ctx)
        self.cur = self.cur + fr.breaks

    def s_For(self, s, ctx):
        self.ev(s.iter, ctx)
        head = self.add("for", s, ctx, raises=True)
        head.expr = s.iter
        fr = _Frame("loop", breaks=[], head=head)
        self.frames.append(fr)
        self.cur = [(head, "it")]
        b = self.add("assign", s, ctx)
        b.note = "loopvar"
        it = s.iter
        # for a, b in zip(x, y) / enumerate(x): keep structure through items
        self._targets(b, s.target, ("elem", it, ctx), ctx)
        self.body(s.body, ctx)
        for p, l in self.cur:
            self._edge(p, head, l)
        head.body = (head.id, len(self.nodes))
        self.frames.pop()
        self.cur = [(head, "done")]
        self.body(s.orelse, ctx)
        self.cur = self.cur + fr.breaks

    def _loopjump(self, s, ctx, which):
        fi = max(i for i, f in enumerate(self.frames) if f.kind == "loop")
        fr = self.frames[fi]
        self.add("stmt", s, ctx)
        self.unwind(fi)
        if which == "break":
            fr.breaks += self.cur
        else:
            for p, l in self.cur:
                self._edge(p, fr.head, l)
        self.cur = []

    def s_Break(self, s, ctx):
        self._loopjump(s, ctx, "break")

    def s_Continue(self, s, ctx):
        self._loopjump(s, ctx, "continue")

    def s_With(self, s, ctx):
        frs = []
        for item in s.items:
            self.ev(item.context_expr, ctx)
            n = self.add("with_enter", s, ctx, raises=True)
            n.expr = item.context_expr
            if item.optional_vars is not None:
                self._targets(n, item.optional_vars, ("with", item.context_expr, ctx), ctx)
            f = _Frame("with", pending=[], item=item, ctx=ctx, stmt=s)
            self.frames.append(f)
            frs.append(f)
        self.body(s.body, ctx)
        for f in reversed(frs):
            self.frames.pop()
            if self.cur:
                self.with_exit(f)
            normal = self.cur
            self.cur = f.pending
            if self.cur:
                n = self.with_exit(f)
                n.note = "exceptional"
                d = dotted(f.item.context_expr.func) if isinstance(f.item.context_expr, ast.Call) else None
                self.throw(n, "exc")
                if d and d.split(".")[-1] == "suppress":
                    normal = normal + self.cur
            self.cur = normal

    def with_exit(self, f):
        n = self.add("with_exit", f.stmt, f.ctx)
        n.expr = f.item.context_expr
        return n

    def s_Try(self, s, ctx):
        fin = None
        if s.finalbody:
            fin = _Frame("finally", pending=[], body=s.finalbody, ctx=ctx)
            self.frames.append(fin)
        if s.handlers:
            h = _Frame("handler", pending=[])
            self.frames.append(h)
            self.body(s.body, ctx)
            self.frames.pop()
            if self.cur:
                self.body(s.orelse, ctx)
            out = self.cur
            self.cur = h.pending
            if self.cur:
                disp = self.add("dispatch", s, ctx)
                total = False
                for hd in s.handlers:
                    names = _handler_names(hd)
                    self.cur = [(disp, "h")]
                    n = self.add("handler", hd, ctx)
                    n.note = names
                    if hd.name:
                        k = self.varkey(hd.name, ctx)
                        if k:
                            n.defs.append((k, ("exc", tuple(names))))
                    self.body(hd.body, ctx)
                    out = out + self.cur
                    if not names or "BaseException" in names:
                        total = True
                        break
                if not total:
                    lab = "excb" if any("Exception" in _handler_names(hd) for hd in s.handlers) else "exc"
                    self.throw(disp, lab)
            self.cur = out
        else:
            self.body(s.body, ctx)
            if self.cur:
                self.body(s.orelse, ctx)
        if fin is not None:
            self.frames.pop()
            normal = self.cur
            if normal:
                self.body(s.finalbody, ctx)
            normal = self.cur
            self.cur = fin.pending
            if self.cur:
                m = self.add("join", s, ctx)
                m.note = "finally-exc"
                self.body(s.finalbody, ctx)
                if self.cur:
                    n = self.add("reraise", s, ctx)
                    self.throw(n, "exc")
            self.cur = normal

    s_TryStar = s_Try

    # -- expressions --------------------------------------------------------
    def cond(self, e, ctx):
        if isinstance(e, ast.BoolOp):
            T, F = [], []
            if isinstance(e.op, ast.And):
                for v in e.values:
                    t, f = self.cond(v, ctx)
                    F += f
                    self.cur = t
                return self.cur, F
            for v in e.values:
                t, f = self.cond(v, ctx)
                T += t
                self.cur = f
            return T, self.cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, ctx)
            return f, t
        if isinstance(e, ast.Constant):
            return (self.cur, []) if e.value else ([], self.cur)
        if isinstance(e, ast.IfExp):
            t, f = self.cond(e.test, ctx)
            self.cur = t
            t1, f1 = self.cond(e.body, ctx)
            self.cur = f
            t2, f2 = self.cond(e.orelse, ctx)
            return t1 + t2, f1 + f2
        if isinstance(e, ast.NamedExpr):
            self.ev(e, ctx)
            return self.cond(e.target, ctx)
        if isinstance(e, ast.Call):
            r = self.can_inline(e, ctx)
            if r is not None and not r[0].is_gen:
                self.ev_args(e, ctx)
                return self.inline(e, ctx, r, "cond")
        self.ev(e, ctx)
        n = self.add("cond", e, ctx)
        n.expr = e
        return [(n, "T")], [(n, "F")]

    def has_inline(self, e, ctx):
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and self.can_inline(n, ctx) is not None:
                return True
        return False

    def can_inline(self, call, ctx):
        if ctx.depth >= self.max_depth:
            return None
        r = self.resolve_call(call, ctx)
        if r is None or r[0] is None:
            return None
        f = r[0]
        if f in ctx.stack():
            return None
        if f.is_property:
            return None
        if any(isinstance(a, ast.Starred) for a in call.args):
            return None
        if not self.policy(f, call, ctx):
            return None
        return r

    def ev_args(self, e, ctx):
        if isinstance(e.func, ast.Attribute):
            self.ev(e.func.value, ctx)
        for a in e.args:
            self.ev(a, ctx)
        for k in e.keywords:
            self.ev(k.value, ctx)

    def ev(self, e, ctx):
        if isinstance(e, (ast.Constant, ast.Name, ast.Lambda, VarRef)) or e is None:
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            self.ev(e.generators[0].iter, ctx)
            # calls inside the comprehension body may run any number of times
            inner = [n for n in _walk_no_lambda(e) if isinstance(n, ast.Call) and not _within(e.generators[0].iter, n)]
            inner = [c for c in inner if not _trivial(c, ctx)]
            if inner:
                j = self.add("join", e, ctx)
                for g in e.generators:
                    self._targets(j, g.target, ("elem", g.iter, ctx), ctx)
                for sub in _walk_no_lambda(e):
                    if sub is not e and isinstance(sub, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                        j2 = self.add("join", sub, ctx)
                        for g in sub.generators:
                            self._targets(j2, g.target, ("elem", g.iter, ctx), ctx)
                for c in inner:
                    r = self.can_inline(c, ctx)
                    if r is not None and not r[0].is_gen:
                        self.inline(c, ctx, r, "value")
                    else:
                        n = self.add("call", c, ctx, raises=True)
                        n.call = c
                        n.note = "comp"
                for p, l in self.cur:
                    self._edge(p, j, l)
                self.cur = self.cur + [(j, "n")]
            return
        if isinstance(e, ast.IfExp):
            t, f = self.cond(e.test, ctx)
            v = self.freshvar(ctx)
            self.cur = t
            self.ev(e.body, ctx)
            n = self.add("assign", e.body, ctx)
            n.defs.append((v, ("expr", e.body, ctx)))
            a = self.cur
            self.cur = f
            self.ev(e.orelse, ctx)
            n = self.add("assign", e.orelse, ctx)
            n.defs.append((v, ("expr", e.orelse, ctx)))
            self.cur = a + self.cur
            self.subst[(ctx.id, id(e))] = v
            return
        if isinstance(e, ast.BoolOp) and any(self._nontrivial(v, ctx) for v in e.values[1:]):
            v = self.freshvar(ctx)
            out = []
            for i, x in enumerate(e.values):
                last = i == len(e.values) - 1
                if last:
                    self.ev(x, ctx)
                    n = self.add("assign", x, ctx)
                    n.defs.append((v, ("expr", x, ctx)))
                    out += self.cur
                else:
                    t, f = self.cond(x, ctx)
                    stop, go = (f, t) if isinstance(e.op, ast.And) else (t, f)
                    self.cur = stop
                    if stop:
                        n = self.add("assign", x, ctx)
                        n.defs.append((v, ("expr", x, ctx)))
                        out += self.cur
                    self.cur = go
            self.cur = out
            self.subst[(ctx.id, id(e))] = v
            return
        if isinstance(e, ast.NamedExpr):
            self.ev(e.value, ctx)
            n = self.add("assign", e, ctx)
            n.expr = e.value
            self._targets(n, e.target, ("expr", e.value, ctx), ctx)
            return
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if isinstance(e, ast.YieldFrom) and isinstance(e.value, ast.Call):
                r = self.can_inline(e.value, ctx)
                if r is not None:
                    self.ev_args(e.value, ctx)
                    self.inline(e.value, ctx, r, "value")
                    return
            if e.value is not None:
                self.ev(e.value, ctx)
            n = self.add("yield", e, ctx, raises=True)
            n.expr = e.value
            return
        if isinstance(e, ast.Call):
            self.ev_args(e, ctx)
            if not isinstance(e.func, (ast.Attribute, ast.Name, ast.Lambda)):
                self.ev(e.func, ctx)
            r = self.can_inline(e, ctx)
            if r is not None and not r[0].is_gen:
                self.inline(e, ctx, r, "value")
            elif not _trivial(e, ctx):
                n = self.add("call", e, ctx, raises=True)
                n.call = e
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, ctx)
            elif isinstance(c, ast.keyword):
                self.ev(c.value, ctx)
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Constant):
            pass

    def _nontrivial(self, e, ctx):
        return any(isinstance(n, ast.Call) and not _trivial(n, ctx) for n in ast.walk(e))

    # -- inlining -----------------------------------------------------------
    def inline(self, call, ctx, r, mode):
        f, recv, cls, lexical, bctx = r
        self.inlined.add(f)
        cn = self.add("call", call, ctx, raises=False)
        cn.call = call
        cn.note = "inlined"
        new = self._ctx(f, lexical, cls, ctx.depth + 1, call, ctx)
        if lexical is not None and new.selfname is None:
            new.cls = lexical.cls
        b = self.add("bind", call, new)
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = [("expr", x, ctx) for x in call.args]
        if new.selfname is not None and not f.is_static:
            if recv is not None:
                args.insert(0, ("expr", recv, bctx if bctx is not None else ctx))
            elif isinstance(call.func, ast.Attribute) or True:
                if f.is_classmethod or f.name == "__init__":
                    args.insert(0, ("opaque", "cls"))
        bound = {}
        for i, v in enumerate(args):
            if i < len(pos):
                bound[pos[i]] = v
            elif a.vararg:
                bound.setdefault(a.vararg.arg, ("opaque", "varargs"))
        names = set(f.all_params)
        star = False
        for k in call.keywords:
            if k.arg is None:
                star = True
            elif k.arg in names:
                bound[k.arg] = ("expr", k.value, ctx)
        defaults = {}
        for p, d in zip(reversed(a.posonlyargs + a.args), reversed(a.defaults)):
            defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        dctx = lexical or new
        for p in f.all_params:
            if p in bound:
                v = bound[p]
            elif star:
                v = ("opaque", f"**{p}")
            elif p in defaults:
                v = ("expr", defaults[p], dctx)
            else:
                v = ("opaque", p)
            b.defs.append(((new.id, p), v))
            if v[0] == "expr":
                vv, vctx = v[1], v[2]
                if isinstance(vv, ast.Call) and dotted(vv.func) in ("partial", "functools.partial") and vv.args \
                        and len(vv.args) == 1 and not vv.keywords:
                    vv = vv.args[0]
                if isinstance(vv, (ast.Lambda, ast.Name, ast.Attribute)):
                    rr = self.resolve_callable(vv, vctx)
                    if rr is not None and rr[0] is not None:
                        new.fnbind[p] = rr
                k = self.recv_class(vv, vctx) if isinstance(vv, (ast.Name, ast.Attribute)) else None
                if k is not None:
                    new.types.setdefault(p, k)
        if a.kwarg:
            b.defs.append(((new.id, a.kwarg.arg), ("opaque", "kwargs")))
        if a.vararg:
            b.defs.append(((new.id, a.vararg.arg), ("opaque", "varargs")))
        rv = self.freshvar(ctx)
        fr = _Frame("func", ctx=new, mode=mode, rets=[], T=[], F=[], retvar=rv)
        self.frames.append(fr)
        if isinstance(f.node, ast.Lambda):
            self.do_return(f.node.body, f.node, new)
        else:
            self.body(f.node.body, new)
        self.frames.pop()
        fall = self.cur
        if mode == "cond":
            return fr.T, fr.F + fall
        if fall:
            self.cur = fall
            n = self.add("ret", f.node, new)
            n.defs.append((rv, ("expr", ast.Constant(None), new)))
            n.note = "implicit"
            fall = self.cur
        self.cur = fall + fr.rets
        self.subst[(ctx.id, id(call))] = rv
        if self.cur:
            e = self.add("callexit", call, ctx)
            e.call = None
        return None


def _as_load(t):
    return t


def _handler_names(h):
    if h.type is None:
        return []
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [(dotted(t) or "?").split(".")[-1] for t in ts]


def _walk_no_lambda(e):
    st = [e]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, ast.Lambda):
            continue
        st.extend(reversed(list(ast.iter_child_nodes(n))))


def _within(root, n):
    return any(x is n for x in ast.walk(root))


def _trivial(call, ctx):
    f = call.func
    if isinstance(f, ast.Name) and f.id in PURE_BUILTINS and f.id not in ctx.func.locals:
        return True
    return False
