"""Cut-point summaries: what one pass between two loop heads (or entry/return) does to variables, attributes and containers.

Every acyclic run of the graph between cut points (entry, loop heads, returns) is walked once.  At a loop head everything the loop's body
may change is forgotten, so a summary holds for every iteration.  Values are provenance terms, kept per run (no joins); integer values are
compared as linear forms, container sizes are tracked as terms, and container operations are logged in order."""
import ast
from .absval import U, ev as aev, truth
from .cfg import VarRef
from .flow import Flow, contains, subterms
from .project import dotted

GROW = {"append": 1, "appendleft": 1, "add": 1}
SHRINK = {"pop": 1, "popleft": 1, "popitem": 1}
BULK = {"extend", "extendleft", "update", "insert", "clear", "remove", "sort", "reverse", "rotate", "setdefault"}
MUT = set(GROW) | set(SHRINK) | BULK
FRESH = {"list", "deque", "collections.deque", "set", "dict", "bytearray"}


class State:
    def __init__(self):
        self.vars, self.heap, self.lens, self.vers, self.res, self.gen = {}, {}, {}, {}, {}, {}

    def copy(self):
        s = State()
        s.vars, s.heap, s.lens, s.vers, s.res, s.gen = dict(self.vars), dict(self.heap), dict(self.lens), dict(self.vers), dict(self.res), dict(self.gen)
        return s

    def read(self, t):
        if t in self.heap:
            return self.heap[t]
        return ("cur", self.gen[t[2]], t) if t[2] in self.gen else t

    def key(self):
        return repr((sorted(self.vars.items(), key=repr), sorted(self.heap.items(), key=repr), sorted(self.lens.items(), key=repr), sorted(self.gen.items())))


class Seg:
    """one run between cut points: a -> b, state after a (s0), state on reaching b (s1), container operations, conditions, nodes"""

    def __init__(self, a, b, s0, s1, log, conds, nodes, tr):
        self.a, self.b, self.s0, self.s1, self.log, self.conds, self.nodes, self.tr = a, b, s0, s1, log, conds, nodes, tr

    def val(self, name, end=True, ctx=None):
        s = self.s1 if end else self.s0
        c = ctx or self.tr.g.rootctx
        return s.vars.get((c.id, name))

    def attr(self, base, name, end=True):
        return (self.s1 if end else self.s0).read(("attr", base, name))

    def size(self, obj, end=True):
        return (self.s1 if end else self.s0).lens.get(obj, ("len", obj))

    def ops(self, obj=None, *names):
        return [o for o in self.log if (obj is None or o.obj == obj) and (not names or o.op in names)]

    def says(self, pred, t=True):
        return any(v == t and pred(c) for c, v in self.conds)


class Op:
    """container operation: op(obj, *args) -> res at node"""

    def __init__(self, node, op, obj, args, kw, res, state):
        self.node, self.op, self.obj, self.args, self.kw, self.res, self.state = node, op, obj, args, kw, res, state

    def __repr__(self):
        return f"{self.op}@{self.node.line}"


def written(cls, name, seen=None):
    """names of the fields a method may assign or change in place, on any object"""
    seen = seen if seen is not None else set()
    f = cls.find(name) if cls is not None else None
    if f is None or f in seen:
        return set()
    seen.add(f)
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.attr)
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute):
            out.add(x.value.attr)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            if isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
                out |= written(cls, x.func.attr, seen)
            elif x.func.attr in MUT and isinstance(x.func.value, ast.Attribute):
                out.add(x.func.value.attr)
    return out


class Tracer(Flow):
    def __init__(self, fl, refute=None, same_iter=False, max_runs=4000, norm=None, effects=False):
        super().__init__(fl.g)
        self.effects = effects
        self.refute, self.max_runs, self.nrm = refute, max_runs, norm or (lambda x: x)
        self.S = State()
        self.fresh = 0
        self.fl = fl

    # -- evaluation in the current state ------------------------------------------------
    def _var(self, node, var, st, deps, name):
        v = self.S.vars.get(var)
        ds = self.defnodes.get(var, [])
        if self.forgetting and len(ds) == 1 and v == ("loop", self.forgetting, name) and len(st) < 30:
            vv = [x for k, x in ds[0].defs if k == var][-1]
            if vv[0] == "expr":
                return self._t(ds[0], vv[1], vv[2], st + ((ds[0].id, var),), deps)
        if v is not None:
            return v
        if not ds:
            return ("undef", name)
        return ("pre", name)

    def reaching(self, node, var):
        return [1] if var in self.S.vars else []

    def _t(self, node, e, ctx, st, deps, env=None):
        if isinstance(e, ast.Call):
            r = self.S.res.get((ctx.id, id(e)))
            if r is not None:
                return r
            if isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and self.g.varkey("len", ctx) is None:
                return self.len_of(self._t(node, e.args[0], ctx, st, deps, env))
        t = super()._t(node, e, ctx, st, deps, env)
        if t[0] == "attr":
            return self.S.read(t)
        if isinstance(e, ast.Subscript) and t[0] in ("idx", "item", "slice", "key"):
            b = self._t(node, e.value, ctx, st, deps, env)
            if self.S.vers.get(b):
                return ("at", self.S.vers[b], t)
        return t

    def len_of(self, t):
        if t in self.S.lens:
            return self.S.lens[t]
        if t[0] == "new" and t[2][0] == "seq" and not any(x[0] == "star" for x in t[2][1:]):
            return ("const", len(t[2]) - 1)
        if t[0] == "call" and t[1] in ("tuple", "list", "sorted", "reversed", "numpy.asarray", "numpy.array", "iter") and t[2]:
            return self.len_of(t[2][0])
        if t[0] == "new" and t[2][0] == "call" and t[2][1] in ("tuple", "list", "sorted", "collections.deque", "deque") and t[2][2]:
            return self.len_of(t[2][2][0])
        if t[0] == "seq" and not any(x[0] == "star" for x in t[1:]):
            return ("const", len(t) - 1)
        if t[0] == "call" and t[1] == "range" and not t[3]:
            a = t[2]
            if len(a) == 1:
                return a[0]
            if len(a) == 2:
                return ("bin", "Sub", a[1], a[0])
        if t[0] == "call" and t[1] == "numpy.arange" and len(t[2]) == 2:
            return ("bin", "Sub", t[2][1], t[2][0])
        if t[0] in ("idx", "item", "at", "elem") and "[]" in self.S.gen:
            return ("len", ("loop", self.S.gen["[]"], t))
        return ("len", t)

    def value(self, n, v):
        if v[0] == "expr":
            t = self._t(n, v[1], v[2], ((n.id, "%"),), set())
            e = v[1]
            if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
                    isinstance(e, ast.Call) and not (v[2].id, id(e)) in self.S.res and (dotted(e.func) or "").split(".")[-1] in FRESH) or (
                    isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) and isinstance(e.left, ast.List)):
                self.fresh += 1
                return ("new", n.id, t)
            return t
        if v[0] == "aug":
            return ("bin", v[1], self._t(n, v[2], v[4], ((n.id, "%"),), set()), self._t(n, v[3], v[4], ((n.id, "%"),), set()))
        if v[0] == "item":
            from .flow import item
            return item(self.value(n, v[2]), v[1])
        return self._val(n, v, ((n.id, "%"),), set())

    def target_of(self, n, t, ctx):
        if isinstance(t, ast.Attribute):
            return ("attr", self._t(n, t.value, ctx, ((n.id, "%"),), set()), t.attr)
        if isinstance(t, ast.Subscript):
            return ("sub", self._t(n, t.value, ctx, ((n.id, "%"),), set()), None if isinstance(t.slice, ast.Slice) else self._t(n, t.slice, ctx, ((n.id, "%"),), set()))
        return None

    # -- effect of one node --------------------------------------------------------------
    def exec(self, n, log):
        if n.kind == "call" and n.call is not None and n.note != "inlined":
            self.call(n, log)
        vals = [(k, self.value(n, v)) for k, v in n.defs]
        puts = [(self.target_of(n, t, c), v, c) for t, v, c in n.stores]
        puts = [(t, self.value(n, v) if v[0] != "del" else ("del",)) for t, v, c in puts]
        for k, v in vals:
            self.S.vars[k] = v
        for t, v in puts:
            if t is None:
                continue
            if t[0] == "attr":
                self.S.heap[t] = v
                log.append(Op(n, "set", t[1], (("const", t[2]), v), {}, None, None))
            else:
                log.append(Op(n, "delitem" if v == ("del",) else "setitem", t[1], (t[2], v), {}, None, None))
                self.S.vers[t[1]] = self.S.vers.get(t[1], 0) + 1
                if v == ("del",):
                    self.S.lens[t[1]] = ("bin", "Sub", self.len_of(t[1]), ("const", 1))
        if n.kind == "yield":
            log.append(Op(n, "yield", None, (self._t(n, n.expr, n.ctx, ((n.id, "%"),), set()) if n.expr is not None else ("const", None),), {}, None, None))
        if n.kind == "ret" and n.ctx is self.g.rootctx:
            log.append(Op(n, "return", None, (self._t(n, n.expr, n.ctx, ((n.id, "%"),), set()) if n.expr is not None else ("const", None),), {}, None, None))

    def call(self, n, log):
        c = n.call
        T = lambda e: self._t(n, e, n.ctx, ((n.id, "%"),), set())
        args = tuple(T(a) for a in c.args)
        kw = {k.arg or "**": T(k.value) for k in c.keywords}
        obj = name = None
        if isinstance(c.func, ast.Attribute):
            d = dotted(c.func)
            head = d.split(".")[0] if d else None
            if not (d and self.g.varkey(head, n.ctx) is None and n.ctx.func.module.resolve(d) is not None):
                obj, name = T(c.func.value), c.func.attr
        elif isinstance(c.func, ast.Name) and self.g.varkey(c.func.id, n.ctx) is not None:
            f = T(c.func)
            if f[0] == "attr":
                obj, name = f[1], f[2]
        if obj is None:
            t = self._call(n, c, n.ctx, ((n.id, "%"),), set(), None, T)
            nm = t[1] if t[0] == "call" else show_name(t)
            log.append(Op(n, "call", None, args, kw, t, nm))
            if n.note != "comp":
                self.S.res[(n.ctx.id, id(c))] = t
            return
        ver = self.S.vers.get(obj, 0)
        res = ("res", n.id, ver, name, obj) + (args if name in SHRINK else ())
        if name not in MUT:
            res = ("mcall", obj, name, args, tuple(sorted(kw.items())))
        log.append(Op(n, name, obj, args, kw, res, None))
        if n.note != "comp":
            self.S.res[(n.ctx.id, id(c))] = res
        if self.effects and obj == ("self",):
            self.forget(written(n.ctx.cls, name), n.id)
        if name in MUT:
            L = self.len_of(obj)
            if name in GROW:
                L = ("bin", "Add", L, ("const", 1))
            elif name == "insert":
                L = ("bin", "Add", L, ("const", 1))
            elif name in SHRINK or name == "remove":
                L = ("bin", "Sub", L, args[0] if name == "pop" and self.counted(obj) and args else ("const", 1))
            elif name == "extend":
                L = ("bin", "Add", L, self.len_of(args[0]) if args else ("const", 0))
            elif name == "clear":
                L = ("const", 0)
            elif name in ("update", "setdefault", "extendleft"):
                L = ("len", ("?", n.id, obj))
            self.S.lens[obj] = L
            self.S.vers[obj] = ver + 1

    def forget(self, names, at):
        """fields a method not looked into may have changed"""
        for f in names:
            for q in [q for q in self.S.heap if q[2] == f]:
                del self.S.heap[q]
            for d in (self.S.lens, self.S.vers):
                for q in [q for q in d if q[0] == "attr" and q[2] == f or q[0] == "cur" and q[2][0] == "attr" and q[2][2] == f]:
                    del d[q]
            self.S.gen[f] = at

    def counted(self, obj):
        return obj[0] == "attr" and obj[2] in getattr(self, "blockwise", ())

    # -- loops ------------------------------------------------------------------------------
    def body_of(self, h):
        b = getattr(h, "body", None)
        if not b:
            return []
        return [n for n in self.g.live if b[0] <= n.id < b[1]]

    forgetting = None

    def havoc(self, h):
        self.forgetting = h.id
        try:
            self._havoc(h)
        finally:
            self.forgetting = None

    def _havoc(self, h):
        body = self.body_of(h)
        ids = {n.id for n in body}
        for d in (self.S.lens, self.S.vers):
            for q in [q for q in d if q[0] == "cur" and q[1] in ids and q[1] != h.id]:
                del d[q]
        for n in body:
            for k, v in n.defs:
                self.S.vars[k] = ("loop", h.id, k[1])
        for n in body + body:
            for t, v, c in n.stores:
                k = self.target_of(n, t, c)
                if k and k[0] == "attr":
                    for q in [q for q in self.S.heap if q[2] == k[2]]:
                        del self.S.heap[q]
                    self.S.gen[k[2]] = h.id
                elif k:
                    self.S.vers[k[1]] = 1000 + h.id
        for n in body:
            if n.kind == "call" and n.call is not None:
                c = n.call
                o = None
                if isinstance(c.func, ast.Attribute) and c.func.attr in MUT:
                    o = self._t(n, c.func.value, n.ctx, ((n.id, "%"),), set())
                elif isinstance(c.func, ast.Name) and self.g.varkey(c.func.id, n.ctx) is not None:
                    f = self._t(n, c.func, n.ctx, ((n.id, "%"),), set())
                    if f[0] == "attr" and f[2] in MUT:
                        o = f[1]
                if o is not None and o[0] in ("idx", "item", "at", "elem"):
                    for q in [q for q in self.S.lens if q[0] in ("idx", "item", "at", "elem")]:
                        self.S.lens.pop(q)
                    for q in [q for q in self.S.vers if q[0] in ("idx", "item", "at", "elem")]:
                        self.S.vers.pop(q)
                    self.S.gen["[]"] = h.id
                elif o is not None:
                    self.S.lens[o] = ("len", ("loop", h.id, o))
                    self.S.vers[o] = 1000 + h.id
                if self.effects and isinstance(c.func, ast.Attribute) and n.note != "inlined" and self._t(n, c.func.value, n.ctx, ((n.id, "%"),), set()) == ("self",):
                    self.forget(written(n.ctx.cls, c.func.attr), h.id)
        for n in body:
            for k in [k for k in self.S.res if any(isinstance(x, ast.AST) and id(x) == k[1] for x in ([n.call] if n.call is not None else []))]:
                del self.S.res[k]

    # -- runs ---------------------------------------------------------------------------------
    def segments(self, init=None):
        g = self.g
        heads = {n.id for n in g.live if getattr(n, "body", None)}
        ends = {g.exit.id}
        out, seen = [], set()
        S0 = State()
        for k, v in init or ():
            S0.vars[k] = v
        work = [(g.entry, S0)]
        runs = 0
        while work:
            a, s0 = work.pop()
            stack = [(a, s0.copy(), [], [], [])]
            while stack:
                n, S, log, conds, nodes = stack.pop()
                runs += 1
                if runs > self.max_runs * 50:
                    raise RuntimeError("too many runs")
                self.S = S
                if n is not a or not nodes:
                    pass
                self.exec(n, log)
                nodes = nodes + [n]
                atom = None
                if n.kind == "cond":
                    atom = self._t(n, n.expr, n.ctx, ((n.id, "%"),), set())
                elif n.kind == "for":
                    atom = ("more", n.id, self._t(n, n.expr, n.ctx, ((n.id, "%"),), set()))
                for m, l in n.succ:
                    if l in ("exc", "excb"):
                        continue
                    if m.kind == "join" and not getattr(m, "body", None) and m in nodes:
                        continue  # a comprehension's body was gone through once
                    c2 = conds
                    if atom is not None:
                        tv = l in ("T", "it")
                        if n.kind == "cond" and not self.feasible(atom, tv, conds):
                            continue
                        c2 = conds + [(atom, tv)]
                    if m.id in heads or m.id in ends:
                        out.append(Seg(a, m, s0, S.copy(), list(log), c2, nodes, self))
                        if m.id in heads:
                            self.S = S.copy()
                            self.havoc(m)
                            k = (m.id, self.S.key())
                            if k not in seen:
                                seen.add(k)
                                work.append((m, self.S))
                        continue
                    stack.append((m, S.copy(), list(log), c2, nodes))
        return out

    def feasible(self, atom, tv, conds):
        a, v = positive(self.nrm(atom), tv)
        if self.refute is not None:
            r = truth(aev(self.nrm(atom), self.refute))
            if r is not U and r != tv:
                return False
        for c, w in conds:
            b, u = positive(self.nrm(c), w)
            if b == a and u != v:
                return False
        r = truth(aev(self.nrm(atom), lambda t: U))
        if r is not U and r != tv:
            return False
        if a[0] == "cmp" and a[1] == "is" and ("const", None) in a[2:]:
            x = a[3] if a[2] == ("const", None) else a[2]
            if (x[0] in ("seq", "new", "comp", "dict", "bin", "fstr", "lambda") or x[0] == "call" and x[1].split(".")[-1].lstrip("_")[:1].isupper()) and v:
                return False
        z = zero(a)
        if z is not None and z != v:
            return False
        return True


def positive(t, v):
    if t[0] == "not":
        return positive(t[1], not v)
    if t[0] == "cmp" and t[1] in ("!=", "is not", "not in", ">=", "<="):
        o = {"!=": "==", "is not": "is", "not in": "in", ">=": "<", "<=": ">"}[t[1]]
        return positive(("cmp", o, t[2], t[3]), not v)
    if t[0] == "cmp" and t[1] == "<":
        return ("cmp", ">", t[3], t[2]), v
    return t, v


def zero(t):
    """decide a comparison of two terms that differ by a constant"""
    if t[0] != "cmp" or t[1] not in ("==", ">"):
        return None
    d = lin(("bin", "Sub", t[2], t[3]))
    if d is None or any(k != 1 for k in d):
        return None
    c = d.get(1, 0)
    return c == 0 if t[1] == "==" else c > 0


def lin(t):
    """linear form {atom: coefficient, 1: constant} of an integer term"""
    if t is None:
        return None
    if t[0] == "const" and type(t[1]) in (int, bool):
        return {1: int(t[1])} if t[1] else {}
    if t[0] == "bin" and t[1] in ("Add", "Sub"):
        a, b = lin(t[2]), lin(t[3])
        s = 1 if t[1] == "Add" else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
            if r[k] == 0:
                del r[k]
        return r
    if t[0] == "bin" and t[1] == "Mult":
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if x[0] == "const" and type(x[1]) is int:
                return {k: v * x[1] for k, v in lin(y).items() if v * x[1]}
        return {("prod", frozenset((freeze(lin(t[2])), freeze(lin(t[3]))))): 1}
    if t[0] == "un" and t[1] == "USub":
        return {k: -v for k, v in lin(t[2]).items()}
    if t[0] == "bin":
        return {("bin", t[1], freeze(lin(t[2])), freeze(lin(t[3]))): 1}
    if t[0] == "call" and t[1] in ("int", "operator.index", "numpy.int64", "numpy.uint64") and len(t[2]) == 1:
        return lin(t[2][0])
    if t[0] == "call" and t[1] in ("min", "max") and not t[3]:
        xs = frozenset(freeze(lin(x)) for x in t[2])
        if len(xs) == 1:
            return dict(next(iter(xs)))
        return {(t[1], xs): 1}
    return {t: 1}


def freeze(d):
    return frozenset(d.items())


def same(a, b):
    return a is not None and b is not None and freeze(lin(a)) == freeze(lin(b))


def minus(a, b):
    return lin(("bin", "Sub", a, b))


def plus(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = ("bin", "Add", r, t)
    return r


def one(n=1):
    return ("const", n)


def show_name(t):
    return t[1] if len(t) > 1 and isinstance(t[1], str) else t[0]
