"""Ranges of exported numbers: an abstract interpreter over the syntax tree.

A number or array is V(lo, hi, poly): its elements lie in [lo, hi] and the largest magnitude equals `poly`, a polynomial with
non-negative coefficients over symbols (a symbol stands for the largest magnitude of one unknown array, or for one unknown
non-negative number).  `assert` statements add upper bounds on polynomials; rounding, clipping, maxima … define new symbols bounded by
the polynomial of their argument.  Each conversion to a narrow integer is handed to `sink(node, value, kind, func)`."""
import ast, math, struct
from .project import dotted

INF = math.inf
INTS = {"int8": (-128, 127), "int16": (-2**15, 2**15 - 1), "int32": (-2**31, 2**31 - 1), "uint8": (0, 255), "uint16": (0, 2**16 - 1), "uint32": (0, 2**32 - 1),
        "int64": (-2**63, 2**63 - 1), "uint64": (0, 2**64 - 1)}
CODES = {"i1": "int8", "i2": "int16", "i4": "int32", "u1": "uint8", "u2": "uint16", "u4": "uint32", "i8": "int64", "u8": "uint64", "b": "int8", "B": "uint8", "h": "int16", "H": "uint16"}
METHODS = {"char": "int8", "short": "int16", "int": "int32", "byte": "uint8"}
SHAPE = {"squeeze", "transpose", "reshape", "view", "cpu", "numpy", "copy", "contiguous", "detach", "ravel", "flatten", "permute", "unsqueeze", "clone", "swapaxes", "tolist", "expand", "cuda", "T", "data", "flat", "byteswap", "newbyteorder", "ascontiguousarray", "permute", "from_numpy", "asarray", "array", "tensor", "as_tensor", "moveaxis", "squeeze_", "float", "double", "half", "item", "ascontiguousarray", "require"}


def f32(x):
    if math.isinf(x):
        return x
    return struct.unpack("f", struct.pack("f", x))[0]


def mul(p, q):
    out = {}
    for a, c in p.items():
        for b, d in q.items():
            m = dict(a)
            for s, e in b:
                m[s] = m.get(s, 0) + e
            k = tuple(sorted((s, e) for s, e in m.items() if e))
            out[k] = out.get(k, 0) + c * d
    return out


def add(p, q, c=1):
    out = dict(p)
    for k, v in q.items():
        out[k] = out.get(k, 0) + c * v
    return out


def num(c):
    return {(): abs(c)} if c else {}


class V:
    __slots__ = ("lo", "hi", "poly", "integral", "kind", "scalar")

    def __init__(self, lo, hi, poly, integral=False, kind=None, scalar=False):
        self.lo, self.hi, self.poly, self.integral, self.kind, self.scalar = lo, hi, poly, integral, kind, scalar

    def with_(self, **k):
        v = V(self.lo, self.hi, self.poly, self.integral, self.kind, self.scalar)
        for a, b in k.items():
            setattr(v, a, b)
        return v

    def key(self):
        return (self.lo, self.hi, frozenset(self.poly.items()))

    def __repr__(self):
        return f"V[{self.lo},{self.hi}]{'i' if self.integral else ''}{self.kind or ''} {self.poly}"


class Tup:
    def __init__(self, items):
        self.items = list(items)


class Bag:
    """list of unknown length; v is the join of its elements"""
    def __init__(self, v=None):
        self.v = v


class Alt:
    def __init__(self, items):
        self.items = items


class Fn:
    def __init__(self, node, env, module, cls=None, self_=None):
        self.node, self.env, self.module, self.cls, self.self_ = node, env, module, cls, self_


class Obj:
    """something known only by where it was read from"""
    def __init__(self, path):
        self.path = path


class Self(Obj):
    def __init__(self, cls):
        self.path, self.cls = "self", cls


class Env:
    def __init__(self, vars, facts, parent=None):
        self.vars, self.facts, self.parent, self.dead = vars, facts, parent, False

    def copy(self):
        e = Env(dict(self.vars), list(self.facts), self.parent)
        return e


class Interp:
    def __init__(self, P, sink, within=("model.serialization",)):
        self.P, self.sink, self.within = P, sink, within
        self.defs, self.geq, self.caps, self.ints = {}, {}, {}, set()
        self.stack, self.depth, self.root = [], 0, None

    # -- symbols ---------------------------------------------------------------------
    def sym(self, key, upper=(), geq=(), cap=INF, integral=False):
        if key not in self.defs:
            self.defs[key], self.geq[key], self.caps[key] = [], [], cap
        else:
            self.caps[key] = max(self.caps[key], cap)
        for u in upper:
            if u not in self.defs[key]:
                self.defs[key].append(u)
        for g in geq:
            if g not in self.geq[key]:
                self.geq[key].append(g)
        if integral:
            self.ints.add(key)
        return {((key, 1),): 1}

    def unknown(self, key, **k):
        return V(-INF, INF, self.sym(("?",) + tuple(key)), **k)

    def bound(self, poly, facts, seen=frozenset(), depth=0):
        """upper bound of a polynomial"""
        if not poly:
            return 0
        best = INF
        const = poly.get((), 0)
        rest = {k: v for k, v in poly.items() if k != ()}
        if not rest:
            return const
        for fp, c, _ in facts:
            fr = {k: v for k, v in fp.items() if k != ()}
            for p, extra in ((rest, const), (poly, 0)):
                q = fr if p is rest else fp
                if all(k in q and q[k] > 0 for k in p):
                    cc = c - fp.get((), 0) if p is rest else c
                    f = max(p[k] / q[k] for k in p)
                    if cc >= 0 and f >= 0:
                        best = min(best, f * cc + extra)
        tot = const
        for k, v in rest.items():
            if len(k) == 1 and k[0][1] == 1:
                tot += v * self.caps.get(k[0][0], INF)
            else:
                tot = INF
        best = min(best, tot)
        if best == INF and len(rest) > 1:
            best = min(best, const + sum(self.bound({k: v}, facts, seen, depth + 1) for k, v in rest.items()) if depth < 6 else INF)
        if best == INF and depth < 8:
            for k in rest:
                for s, e in k:
                    if e == 1 and s in self.defs and s not in seen:
                        for u in self.defs[s]:
                            m = tuple(x for x in k if x[0] != s)
                            q = add({a: b for a, b in poly.items() if a != k}, mul({m: rest[k]}, u))
                            best = min(best, self.bound(q, facts, seen | {s}, depth + 1))
                        if best < INF:
                            return best
        return best

    def range(self, v, env):
        facts = self.facts(env)
        b = self.bound(v.poly, facts)
        lo, hi = v.lo, v.hi
        hi, lo = min(hi, b), max(lo, -b)
        strict = [1 for fp, c, st in facts]
        return lo, hi

    def facts(self, env):
        out = []
        while env is not None:
            out += env.facts
            env = env.parent
        return out

    # -- numbers -----------------------------------------------------------------------
    def cap(self, v):
        m = max(abs(v.lo), abs(v.hi))
        if m < INF:
            for k in v.poly:
                if len(v.poly) == 1 and len(k) == 1 and k[0][1] == 1 and v.poly[k] == 1:
                    self.caps[k[0][0]] = min(self.caps.get(k[0][0], INF), m)
        return v

    def kind(self, a, b):
        ks = {x.kind for x in (a, b) if not (x.scalar and x.kind in (None,))}
        if "f64" in ks:
            return "f64"
        return a.kind if a.kind == b.kind else (a.kind or b.kind if None in (a.kind, b.kind) else None)

    def derived(self, tag, lo, hi, upper, args, geq=(), **k):
        key = (tag,) + tuple(frozenset(a.poly.items()) if isinstance(a, V) else a for a in args)
        if tag in ("round", "clip", "sum", "join"):
            key += (lo, hi)
        p = self.sym(key, upper, geq, max(abs(lo), abs(hi)), k.get("integral", False))
        return V(lo, hi, p, **k)

    def binop(self, op, a, b):
        sc = a.scalar and b.scalar
        kd = self.kind(a, b)
        if isinstance(op, (ast.Add, ast.Sub)):
            if isinstance(op, ast.Sub):
                b = V(-b.hi, -b.lo, b.poly, b.integral, b.kind, b.scalar)
            lo, hi = a.lo + b.lo, a.hi + b.hi
            if math.isnan(lo):
                lo = -INF
            if math.isnan(hi):
                hi = INF
            p = add(a.poly, b.poly)
            i = a.integral and b.integral
            if a.lo >= 0 and b.lo >= 0 and (a.scalar or b.scalar):
                return V(lo, hi, p, i, kd, sc)
            if lo == hi:
                return V(lo, hi, num(lo), i, kd, sc)
            return self.derived("sum", lo, hi, [p], [a, b, "-" if isinstance(op, ast.Sub) else "+"], integral=i, kind=kd, scalar=sc)
        if isinstance(op, ast.Mult):
            c = [x * y if not (math.isinf(x) and y == 0 or math.isinf(y) and x == 0) else 0 for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            p = mul(a.poly, b.poly)
            i = a.integral and b.integral
            if a.scalar or b.scalar:
                return V(min(c), max(c), p, i, kd, sc)
            return self.derived("prod", min(c), max(c), [p], [a, b], integral=i, kind=kd)
        if isinstance(op, ast.Div):
            if b.lo == b.hi and b.lo:
                c = [a.lo / b.lo, a.hi / b.lo]
                return V(min(c), max(c), {k: v / abs(b.lo) for k, v in a.poly.items()}, False, kd, sc)
            if b.scalar:
                q = b.poly if len(b.poly) == 1 else self.sym(("p", frozenset(b.poly.items())), [b.poly], [b.poly])
                (k, c), = q.items()
                inv = {tuple((s, -e) for s, e in k): 1 / c} if c else {}
                pos = b.lo >= 0
                lo = 0 if a.lo >= 0 and pos else -INF
                return V(lo, INF, mul(a.poly, inv), False, kd, sc)
            return None
        if isinstance(op, ast.Pow):
            if a.lo == a.hi and b.lo == b.hi and abs(b.lo) < 200:
                try:
                    r = a.lo ** b.lo
                    return V(r, r, num(r), a.integral and b.integral and b.lo >= 0, None, sc)
                except (ArithmeticError, ValueError):
                    return None
            return None
        if isinstance(op, ast.FloorDiv) and a.lo == a.hi and b.lo == b.hi and b.lo:
            r = a.lo // b.lo
            return V(r, r, num(r), True, None, sc)
        return None

    def neg(self, v):
        return V(-v.hi, -v.lo, v.poly, v.integral, v.kind, v.scalar)

    def absv(self, v):
        lo = 0 if v.lo <= 0 <= v.hi else min(abs(v.lo), abs(v.hi))
        return V(lo, max(abs(v.lo), abs(v.hi)), v.poly, v.integral, v.kind, v.scalar)

    def reduce(self, how, v):
        if how in ("max", "min", "amax", "amin", "nanmax"):
            if v.lo >= 0 and how in ("max", "amax", "nanmax"):
                return v.with_(scalar=True)
            return self.derived(how, v.lo, v.hi, [v.poly], [v], integral=v.integral, kind=v.kind, scalar=True)
        return V(0 if v.lo >= 0 else -INF, INF, self.sym(("reduce", how, frozenset(v.poly.items()))), v.integral, v.kind, False)

    def rounding(self, v):
        r = lambda x: x if math.isinf(x) else float(round(x))
        if v.integral:
            return v
        return self.derived("round", r(v.lo), r(v.hi), [add(v.poly, num(0.5))], [v], integral=True, kind=v.kind, scalar=v.scalar)

    def clip(self, v, lo, hi):
        a = lo.lo if lo is not None else -INF
        b = hi.hi if hi is not None else INF
        if v.kind not in ("f64", "i"):
            a, b = f32(a), f32(b)
        nlo, nhi = max(v.lo, a), min(v.hi, b)
        if lo is not None and v.hi < a:
            nhi = a
        if nlo > nhi:
            nlo, nhi = min(nlo, nhi), max(nlo, nhi)
        ups = [v.poly] if (lo is None or a <= 0) and (hi is None or b >= 0) else []
        integral = v.integral and (lo is None or float(a).is_integer() or math.isinf(a)) and (hi is None or float(b).is_integer() or math.isinf(b))
        return self.derived("clip", nlo, nhi, ups, [v, a, b], integral=integral, kind=v.kind, scalar=v.scalar)

    def join(self, a, b, site):
        if a is None or b is None:
            return a if b is None else b
        if a is b:
            return a
        if isinstance(a, V) and isinstance(b, V):
            if a.key() == b.key():
                return a
            lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
            ka = {x.kind for x in (a, b)}
            return V(lo, hi, self.sym(("join", site, frozenset(a.poly.items()), frozenset(b.poly.items())), [add(a.poly, b.poly)], cap=max(abs(lo), abs(hi))), a.integral and b.integral,
                     ka.pop() if len(ka) == 1 else None, a.scalar and b.scalar)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) == len(b.items):
                return Tup([self.join(x, y, (site, i)) for i, (x, y) in enumerate(zip(a.items, b.items))])
            return Alt([a, b])
        if isinstance(a, Alt) or isinstance(b, Alt):
            out = list(a.items if isinstance(a, Alt) else [a])
            for y in (b.items if isinstance(b, Alt) else [b]):
                for i, x in enumerate(out):
                    if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
                        out[i] = self.join(x, y, (site, "alt", i))
                        break
                else:
                    out.append(y)
            return Alt(out)
        if isinstance(a, Bag) and isinstance(b, Bag):
            return Bag(self.join(a.v, b.v, (site, "bag")))
        if isinstance(a, Bag) and isinstance(b, Tup) or isinstance(b, Bag) and isinstance(a, Tup):
            x, t = (a, b) if isinstance(a, Bag) else (b, a)
            v = x.v
            for i in t.items:
                v = self.join(v, i, (site, "bag"))
            return Bag(v)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.path == b.path:
            return a
        if isinstance(a, Fn) and isinstance(b, Fn) and a.node is b.node:
            return a
        return self.unknown(("joined", site))

    def v(self, x, key):
        """x as a number"""
        if isinstance(x, V):
            return x
        if isinstance(x, Obj) and not isinstance(x, Self):
            sc = x.path.startswith("self.") and x.path.count(".") == 1
            return V(0 if self.positive(x.path) else -INF, INF, self.sym(("at", x.path)), scalar=sc or x.path.split(".")[-1].split("[")[0] in ("codebook_size", "num_codebooks"))
        if isinstance(x, Tup):
            r = None
            for i, y in enumerate(x.items):
                r = self.join(r, self.v(y, (key, i)), (key, "tuple"))
            return r if r is not None else self.unknown(("empty", key))
        if isinstance(x, Bag):
            return self.v(x.v, (key, "bag")) if x.v is not None else self.unknown(("empty", key))
        return self.unknown(key)

    def positive(self, path):
        """an option of the serializer whose default is a positive number: taken as one"""
        h = path.split(".")
        if len(h) != 2 or h[0] != "self" or self.root is None:
            return False
        for c in self.root.mro:
            f = c.methods.get("__init__")
            if f is None:
                continue
            a = f.node.args
            for p, d in list(zip(reversed(a.posonlyargs + a.args), reversed(a.defaults))) + list(zip(a.kwonlyargs, a.kw_defaults)):
                if p.arg == h[1] and isinstance(d, ast.Constant) and type(d.value) in (int, float) and d.value > 0:
                    return True
        return False

    # -- calls -------------------------------------------------------------------------
    def run(self, func, cls, args, kw=None):
        """interpret one method/function"""
        self.root = cls
        fn = Fn(func.node, Env({}, []), func.module, cls, Self(cls) if cls is not None else None)
        return self.call(fn, args, kw or {}, ("root", func.qual))

    def call(self, fn, args, kw, site, facts=()):
        if self.depth > 12 or any(f is fn.node for f in self.stack):
            return self.unknown(("call", site))
        a = fn.node.args
        env = Env({}, list(facts), fn.env)
        ps = [p.arg for p in a.posonlyargs + a.args]
        deco = {dotted(d) for d in getattr(fn.node, "decorator_list", [])}
        if fn.self_ is not None and ps and "staticmethod" not in deco:
            env.vars[ps[0]] = fn.self_
            ps = ps[1:]
        self.stack.append(fn.node)
        self.depth += 1
        old = getattr(self, "ctx", ())
        self.ctx = old + (site,) if len(old) < 8 else old
        oldm, self.module = getattr(self, "module", None), fn.module
        oldc, self.cls = getattr(self, "cls", None), fn.cls if fn.cls is not None else getattr(self, "cls", None)
        try:
            dflt = {}
            for p, d in zip(reversed(a.posonlyargs + a.args), reversed(a.defaults)):
                dflt[p.arg] = d
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    dflt[p.arg] = d
            for i, p in enumerate(ps):
                if i < len(args):
                    env.vars[p] = args[i]
            for p in ps + [k.arg for k in a.kwonlyargs]:
                if p not in env.vars:
                    if p in kw:
                        env.vars[p] = kw[p]
                    elif p in dflt:
                        env.vars[p] = self.ev(dflt[p], env)
                    else:
                        env.vars[p] = Obj(p)
            if a.vararg:
                env.vars[a.vararg.arg] = Tup(args[len(ps):])
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, env)
            self.rets = getattr(self, "rets", [])
            self.rets.append([])
            self.block(fn.node.body, env)
            rs = self.rets.pop()
            r = None
            facts = None
            for v, f in rs:
                r = self.join(r, v, ("ret",) + self.ctx)
                facts = f if facts is None else [x for x in facts if x in f]
            if not env.dead:
                facts = env.facts if facts is None else [x for x in facts if x in env.facts]
            if facts:
                self.carry = facts
            self.out_facts = facts or []
            return r if r is not None else Tup([])
        finally:
            self.stack.pop()
            self.depth -= 1
            self.ctx, self.module, self.cls = old, oldm, oldc

    # -- statements ----------------------------------------------------------------------
    def block(self, body, env):
        for s in body:
            if env.dead:
                return
            self.stmt(s, env)

    def merge(self, env, envs, site):
        live = [e for e in envs if not e.dead]
        if not live:
            env.dead = True
            return
        names = set().union(*[e.vars for e in live])
        out = {}
        for n in names:
            v = None
            for e in live:
                if n in e.vars:
                    v = self.join(v, e.vars[n], (site, n) + self.ctx)
            out[n] = v
        env.vars.clear()
        env.vars.update(out)
        env.facts[:] = [f for f in live[0].facts if all(f in e.facts for e in live[1:])]

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            ld = ast.copy_location(ast.BinOp(left=_load(s.target), op=s.op, right=s.value), s)
            v = self.ev(ld, env)
            self.assign(s.target, v, env)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value is not None else Tup([])
            self.rets[-1].append((v, list(env.facts)))
            env.dead = True
        elif isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            if isinstance(s, ast.Raise):
                env.dead = True
            else:
                self.loop[-1].append(env.copy())
                env.dead = True
        elif isinstance(s, ast.Assert):
            self.asserted(s.test, env, True)
        elif isinstance(s, ast.If):
            c = self.const(s.test, env)
            a, b = env.copy(), env.copy()
            if c is not False:
                self.asserted(s.test, a, True)
                self.block(s.body, a)
            else:
                a.dead = True
            if c is not True:
                self.asserted(s.test, b, False)
                self.block(s.orelse, b)
            else:
                b.dead = True
            self.merge(env, [a, b], s.lineno)
        elif isinstance(s, (ast.For, ast.While)):
            self.loop = getattr(self, "loop", [])
            self.loop.append([])
            prev = None
            for i in range(4):
                e = env.copy()
                if isinstance(s, ast.For):
                    it = self.ev(s.iter, e)
                    self.assign(s.target, self.element(it, s), e)
                else:
                    self.ev(s.test, e)
                self.block(s.body, e)
                ends = [x for x in [e] + self.loop[-1] if not x.dead]
                self.loop[-1] = []
                before = {n: self.shape(v) for n, v in env.vars.items()}
                self.merge(env, [env.copy()] + ends, s.lineno)
                if {n: self.shape(v) for n, v in env.vars.items()} == before:
                    break
                if i >= 1:
                    for n, v in list(env.vars.items()):
                        if isinstance(v, V) and before.get(n) not in (None, self.shape(v)):
                            env.vars[n] = V(-INF, INF, self.sym(("loop", s.lineno, n) + self.ctx), v.integral, v.kind, v.scalar)
            self.loop.pop()
            self.block(s.orelse, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env)
            self.block(s.body, env)
        elif isinstance(s, ast.Try):
            a = env.copy()
            self.block(s.body, a)
            hs = []
            for h in s.handlers:
                e = env.copy()
                self.block(h.body, e)
                hs.append(e)
            self.merge(env, [a] + hs, s.lineno)
            self.block(s.finalbody, env)
        elif isinstance(s, ast.FunctionDef):
            env.vars[s.name] = Fn(s, env, self.module, self.cls)
        elif isinstance(s, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass, ast.Delete, ast.ClassDef)):
            pass

    def shape(self, v):
        if isinstance(v, V):
            return (v.lo, v.hi, v.integral, v.kind)
        if isinstance(v, Tup):
            return tuple(self.shape(x) for x in v.items)
        if isinstance(v, Bag):
            return ("bag", self.shape(v.v))
        return type(v).__name__

    def element(self, it, s):
        if isinstance(it, Tup):
            r = None
            for i, x in enumerate(it.items):
                r = self.join(r, x, ("elem", s.lineno) + self.ctx)
            return r if r is not None else self.unknown(("elem", s.lineno) + self.ctx)
        if isinstance(it, Bag):
            return it.v if it.v is not None else self.unknown(("elem", s.lineno) + self.ctx)
        if isinstance(it, V):
            return self.part(it, ("elem", getattr(s, "lineno", 0)))
        return self.unknown(("elem", s.lineno) + self.ctx)

    def part(self, v, key):
        return self.derived("part", v.lo, v.hi, [v.poly], [v, key], integral=v.integral, kind=v.kind, scalar=v.scalar)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            src = None
            if isinstance(v, Tup) and len(v.items) == n:
                src = v.items
            elif isinstance(v, Alt):
                for a in v.items:
                    if isinstance(a, Tup) and len(a.items) == n:
                        src = a.items
            for i, x in enumerate(t.elts):
                x = x.value if isinstance(x, ast.Starred) else x
                self.assign(x, src[i] if src else (self.part(v, ("item", t.lineno, i)) if isinstance(v, V) else (v.v if isinstance(v, Bag) and v.v is not None else self.unknown(("item", t.lineno, i) + self.ctx))), env)
        elif isinstance(t, ast.Subscript):
            base = t.value
            if isinstance(base, ast.Name):
                old = self.look(base.id, env)
                if isinstance(old, V):
                    n = self.v(v, ("set", t.lineno))
                    lo, hi = min(old.lo, n.lo), max(old.hi, n.hi)
                    new = V(lo, hi, self.sym(("set", base.id, t.lineno) + self.ctx, cap=max(abs(lo), abs(hi))), old.integral and n.integral, old.kind)
                    self.rebind(base.id, new, env)
                elif isinstance(old, (Tup, Bag)):
                    self.rebind(base.id, Bag(self.join(old.v if isinstance(old, Bag) else self.v(old, ("b", t.lineno)), v, ("set", t.lineno))), env)

    def rebind(self, name, v, env):
        e = env
        while e is not None and name not in e.vars:
            e = e.parent
        (e or env).vars[name] = v

    def look(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        return None

    # -- facts -----------------------------------------------------------------------------
    def asserted(self, t, env, pos):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.asserted(t.operand, env, not pos)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == pos:
                for x in t.values:
                    self.asserted(x, env, pos)
            return
        if isinstance(t, ast.BinOp) and isinstance(t.op, ast.BitAnd) and pos:
            self.asserted(t.left, env, pos)
            self.asserted(t.right, env, pos)
            return
        if isinstance(t, ast.Call) and pos:
            n = dotted(t.func) or ""
            if n.split(".")[-1] in ("all", "bool") and len(t.args) == 1:
                return self.asserted(t.args[0], env, pos)
            if isinstance(t.func, ast.Attribute) and t.func.attr in ("all", "item") and not t.args:
                return self.asserted(t.func.value, env, pos)
            return
        if isinstance(t, ast.Compare):
            l = t.left
            for op, r in zip(t.ops, t.comparators):
                self.less(l, op, r, env, pos)
                l = r

    def less(self, l, op, r, env, pos):
        k = type(op)
        if not pos:
            k = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}.get(k)
        if k in (ast.Gt, ast.GtE):
            l, r, k = r, l, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[k]
        if k not in (ast.Lt, ast.LtE):
            return
        strict = k is ast.Lt
        a, b = self.ev(l, env), self.ev(r, env)
        a, b = self.v(a, ("cmp", l.lineno)), self.v(b, ("cmp", r.lineno))
        ahi, bhi = self.range(a, env), self.range(b, env)
        c = bhi[1]
        integral = a.integral and strict and c < INF
        c2 = c - 1 if integral and float(c).is_integer() else math.nextafter(c, -INF) if strict and c < INF else c
        if c2 < INF and (a.lo >= 0 or a.scalar):
            self.fact(a.poly if a.lo >= 0 else None, c2, env)
        # refinement of a named array through its extremes
        for e, lo, hi in ((l, None, c2), (r, ahi[0], None)):
            x, how = e, None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("min", "max", "item"):
                while isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("item",):
                    x = x.func.value
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    how, x = x.func.attr, x.func.value
            elif isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] in ("min", "max", "amin", "amax") and len(x.args) == 1:
                how, x = (dotted(x.func) or "").split(".")[-1][-3:], x.args[0]
            if not isinstance(x, (ast.Name,)):
                continue
            if how == "max" and hi is None or how == "min" and lo is None:
                continue
            old = self.look(x.id, env)
            if isinstance(old, Obj) and not isinstance(old, Self):
                old = self.v(old, ())
                self.fact(old.poly, hi, env) if hi is not None and hi < INF else None
                continue
            if not isinstance(old, V):
                continue
            nlo, nhi = max(old.lo, lo if lo is not None else -INF), min(old.hi, hi if hi is not None else INF)
            if (nlo, nhi) != (old.lo, old.hi):
                env.vars[x.id] = old.with_(lo=nlo, hi=nhi)
        for e in (l,):
            x = e
            if isinstance(x, ast.Attribute):
                o = self.ev(x, env)
                if isinstance(o, Obj) and not isinstance(o, Self) and c2 < INF:
                    self.fact(self.v(o, ()).poly, c2, env)

    def fact(self, poly, c, env):
        if poly is None or c == INF:
            return
        ints = all(all(s in self.ints and e == 1 for s, e in k) and float(v).is_integer() for k, v in poly.items())
        if ints:
            c = math.floor(c)
        env.facts.append((poly, c, False))
        todo, seen = [poly], set()
        while todo:
            p = todo.pop()
            for k in p:
                for s, e in k:
                    if e == 1 and self.geq.get(s) and len(seen) < 40:
                        for g in self.geq[s]:
                            m = tuple(x for x in k if x[0] != s)
                            q = add({a: b for a, b in p.items() if a != k}, mul({m: p[k]}, g))
                            kk = frozenset(q.items())
                            if kk not in seen:
                                seen.add(kk)
                                env.facts.append((q, c, False))
                                todo.append(q)

    def const(self, t, env):
        try:
            if isinstance(t, ast.Compare) and len(t.ops) == 1:
                a, b = self.ev(t.left, env), self.ev(t.comparators[0], env)
                if isinstance(a, V) and isinstance(b, V):
                    o = t.ops[0]
                    if isinstance(o, ast.Gt):
                        return True if a.lo > b.hi else False if a.hi <= b.lo else None
                    if isinstance(o, ast.Lt):
                        return True if a.hi < b.lo else False if a.lo >= b.hi else None
                    if isinstance(o, (ast.Eq, ast.NotEq)) and a.lo == a.hi and b.lo == b.hi:
                        return (a.lo == b.lo) == isinstance(o, ast.Eq)
        except RecursionError:
            return None
        return None

    # -- expressions -----------------------------------------------------------------------
    def site(self, e):
        return (getattr(e, "lineno", 0), getattr(e, "col_offset", 0)) + self.ctx

    def ev(self, e, env):
        r = self._ev(e, env)
        return r if r is not None else self.unknown(("expr",) + self.site(e))

    def dtype(self, e, env):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            c = CODES.get(e.value.lstrip("<>=|"), e.value)
            return c if c in INTS or c.startswith(("float", "f4", "f8", "f2")) else None
        if isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] == "dtype" and e.args:
            return self.dtype(e.args[0], env)
        d = dotted(e)
        if d:
            h = d.split(".")[-1]
            if h in INTS or h.startswith(("float", "double", "bool", "complex")):
                return h

            if d == "int":
                return "int64"
        if isinstance(e, ast.Name):
            x = self.look(e.id, env)
            if isinstance(x, Obj) and x.path.startswith("dtype:"):
                return x.path[6:]
        return None

    def cast(self, e, v, dt, env):
        v = self.v(v, self.site(e))
        if dt in INTS:
            lo, hi = self.range(v, env)
            if self.sink is not None:
                self.sink(self, e, v, lo, hi, dt, env)
            a, b = INTS[dt]
            t = lambda x: x if math.isinf(x) else float(math.trunc(x))
            if dt in ("uint64", "int64"):
                return v.with_(integral=True, kind="i")
            lo, hi = t(lo), t(hi)
            if lo < a or hi > b:
                return V(a, b, self.sym(("wrapped",) + self.site(e), cap=max(abs(a), b)), True, "i", v.scalar)
            return V(lo, hi, v.poly if v.integral else self.sym(("cast", frozenset(v.poly.items())), [v.poly], cap=max(abs(lo), abs(hi))), True, "i", v.scalar)
        if dt in ("float64", "double"):
            return v.with_(kind="f64")
        if dt is not None and (dt.startswith("float") or dt in ("f4", "f2")):
            return v.with_(kind="f32")
        return v.with_(kind=None)

    def _ev(self, e, env):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                return V(int(e.value), int(e.value), num(int(e.value)), True, None, True)
            if isinstance(e.value, (int, float)):
                return V(e.value, e.value, num(e.value), isinstance(e.value, int), None, True)
            if isinstance(e.value, str) and self.dtype(e, env):
                return Obj("dtype:" + self.dtype(e, env))
            return None
        if isinstance(e, ast.Name):
            v = self.look(e.id, env)
            if v is not None:
                return v
            if e.id in self.module.assigns:
                return self._ev(self.module.assigns[e.id], Env({}, []))
            r = self.module.resolve(e.id)
            if r is not None and hasattr(r, "node") and hasattr(r, "module") and isinstance(r.node, ast.FunctionDef):
                return Fn(r.node, Env({}, []), r.module)
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return self.neg(self.v(self.ev(e.operand, env), self.site(e)))
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(a, (Tup, Bag)) and isinstance(b, (Tup, Bag)) and isinstance(e.op, ast.Add):
                return Tup(a.items + b.items) if isinstance(a, Tup) and isinstance(b, Tup) else Bag(self.join(self.v(a, ()), self.v(b, ()), self.site(e)))
            a, b = self.v(a, self.site(e.left)), self.v(b, self.site(e.right))
            if isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.LShift, ast.RShift)) and self.sink is not None:
                self.sink(self, e, (a, b), None, None, type(e.op).__name__, env)
            return self.binop(e.op, a, b)
        if isinstance(e, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return None
            if isinstance(e, ast.List) and not e.elts:
                return Bag()
            return Tup([self.ev(x, env) for x in e.elts])
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            n = Env({}, [], env)
            for g in e.generators:
                self.assign(g.target, self.element(self.ev(g.iter, n), e), n)
            return Bag(self.ev(e.elt, n))
        if isinstance(e, ast.IfExp):
            a, b = env.copy(), env.copy()
            self.asserted(e.test, a, True)
            self.asserted(e.test, b, False)
            return self.join(self.ev(e.body, a), self.ev(e.orelse, b), self.site(e))
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.assign(e.target, v, env)
            return v
        if isinstance(e, ast.Lambda):
            return Fn(e, env, self.module, self.cls)
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d:
                r = self.module.resolve(d) or d
                if isinstance(r, str) and r in ("math.inf", "numpy.inf"):
                    return V(INF, INF, self.sym(("inf",)), False, None, True)
            b = self.ev(e.value, env)
            if e.attr in ("T", "data", "mT"):
                return b
            if isinstance(b, Self):
                f = b.cls.find(e.attr) if b.cls else None
                if f is not None and not f.is_property:
                    return Fn(f.node, Env({}, []), f.module, b.cls, b)
                return Obj("self." + e.attr)
            if isinstance(b, Obj):
                return Obj(b.path + "." + e.attr)
            return None
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            i = e.slice
            if isinstance(i, ast.Constant) and isinstance(i.value, str) and i.value.endswith("indices"):  # positions in a code book
                return V(0, 2 ** 31 - 1, self.sym(("indices",) + self.site(e)), True, "i")
            if isinstance(b, Obj):
                return Obj(f"{b.path}[{ast.unparse(i)}]")
            c = i.value if isinstance(i, ast.Constant) else -i.operand.value if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.USub) and isinstance(i.operand, ast.Constant) else None
            if isinstance(b, Tup) and isinstance(c, int) and -len(b.items) <= c < len(b.items):
                return b.items[c]
            if isinstance(b, Alt) and isinstance(c, int):
                r = None
                for a in b.items:
                    if isinstance(a, Tup) and -len(a.items) <= c < len(a.items):
                        r = self.join(r, a.items[c], self.site(e))
                return r
            if isinstance(b, Bag):
                return b.v
            if isinstance(b, V):
                return self.part(b, ast.unparse(i))
            return None
        if isinstance(e, ast.Call):
            return self.invoke(e, env)
        if isinstance(e, ast.Compare):
            for x in [e.left] + e.comparators:
                self.ev(x, env)
            return V(0, 1, self.sym(("cmp",) + self.site(e), cap=1), True, "i")
        if isinstance(e, ast.Dict):
            for x in e.values:
                self.ev(x, env)
            return None
        if isinstance(e, ast.JoinedStr):
            return None
        return None

    def invoke(self, e, env):
        f = e.func
        name = dotted(f)
        fn = None
        kwx = {k.arg: k.value for k in e.keywords if k.arg}
        if isinstance(f, ast.Name) and self.look(f.id, env) is None or isinstance(f, ast.Attribute) and name and self.look(name.split(".")[0], env) is None and name.split(".")[0] != "super":
            r = self.module.resolve(name)
            q = r if isinstance(r, str) else getattr(r, "qual", None) or (name if r is None else None)
            if r is not None and not isinstance(r, str) and hasattr(r, "node") and isinstance(getattr(r, "node", None), ast.FunctionDef):
                if any(r.module.name.startswith(w) for w in self.within):
                    fn = Fn(r.node, Env({}, []), r.module)
                q = None if fn else name
            if fn is None and q:
                return self.builtin(e, q.split(".")[-1], q, [self.ev(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args], kwx, env)
        if fn is None:
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and dotted(f.value.func) == "super":
                return None
            o = self.ev(f, env) if not (isinstance(f, ast.Attribute) and isinstance(self.ev(f.value, env), (V, Bag, Tup))) else None
            if isinstance(o, Fn):
                fn = o
            elif isinstance(f, ast.Attribute):
                return self.method(e, f, env, kwx)
            elif isinstance(o, Obj):
                args = [self.ev(a, env) for a in e.args]
                return self.unknown(("opcall", o.path) + self.site(e))
            else:
                return None
        args = [self.ev(a, env) for a in e.args if not isinstance(a, ast.Starred)]
        kw = {k: self.ev(v, env) for k, v in kwx.items()}
        r = self.call(fn, args, kw, self.site(e)[:2], self.facts(env))
        for x in self.out_facts if hasattr(self, "out_facts") else []:
            if x not in env.facts:
                env.facts.append(x)
        self.out_facts = []
        return r

    def builtin(self, e, h, q, args, kwx, env):
        N = lambda i: self.v(args[i], self.site(e) + (i,))
        kw = {k: self.ev(v, env) for k, v in kwx.items() if k != "dtype"}
        dt = self.dtype(kwx["dtype"], env) if "dtype" in kwx else None
        if h in INTS and q.startswith(("numpy", "np", "torch")):
            if not args:
                return None
            if h in ("uint64", "int64"):
                return N(0)
            return self.cast(e, args[0], h, env)
        if h in ("around", "round", "rint", "round_"):
            return self.rounding(N(0)) if args else None
        if h in ("trunc", "fix", "floor") and args:
            v = N(0)
            return self.derived("round", math.floor(v.lo) if v.lo > -INF else v.lo, math.ceil(v.hi) if v.hi < INF else v.hi, [add(v.poly, num(1))], [v, h], integral=True, kind=v.kind, scalar=v.scalar)
        if h == "ceil" and args:
            v = N(0)
            lo, hi = (math.ceil(v.lo) if v.lo > -INF else v.lo), (math.ceil(v.hi) if v.hi < INF else v.hi)
            return self.derived("ceil", lo, hi, [add(v.poly, num(1))], [v], geq=[v.poly] if v.lo >= 0 else [], integral=True, scalar=v.scalar)
        if h in ("clip", "clamp") and args:
            lo = N(1) if len(args) > 1 else None
            hi = N(2) if len(args) > 2 else None
            for k in ("a_min", "min"):
                if k in kw:
                    lo = self.v(kw[k], self.site(e) + (k,))
            for k in ("a_max", "max"):
                if k in kw:
                    hi = self.v(kw[k], self.site(e) + (k,))
            return self.clip(N(0), lo, hi)
        if h in ("abs", "absolute", "fabs") and args:
            return self.absv(N(0))
        if h in ("minimum", "maximum") and len(args) == 2:
            a, b = N(0), N(1)
            for x, y in ((a, b), (b, a)):
                if x.lo == x.hi:
                    return self.clip(y, None, x) if h == "minimum" else self.clip(y, x, None)
            return None
        if h in ("max", "min", "amax", "amin") and args:
            if len(args) == 1 and not q.startswith(("builtins", "max", "min")) or len(args) == 1 and isinstance(args[0], V):
                return self.reduce(h, N(0))
            vs = [N(i) for i in range(len(args))] if len(args) > 1 else [self.v(x, self.site(e)) for x in (args[0].items if isinstance(args[0], Tup) else [])]
            if not vs:
                return None
            pick = max if h == "max" else min
            lo, hi = pick(v.lo for v in vs), pick(v.hi for v in vs)
            tot = {}
            for v in vs:
                tot = add(tot, v.poly)
            if h == "max":
                ge = [v.poly for v in vs if v.lo >= 0]
                return self.derived("max", lo, hi, [tot], vs, geq=ge, integral=all(v.integral for v in vs), scalar=True)
            return self.derived("min", lo, hi, [v.poly for v in vs] if all(v.lo >= 0 for v in vs) else [tot], vs, integral=all(v.integral for v in vs), scalar=True)
        if h in ("zeros", "zeros_like", "empty") and q.split(".")[0] in ("numpy", "np", "torch"):
            k = "i" if dt in INTS else "f64" if q.startswith(("numpy", "np")) and dt is None and h == "zeros" or dt == "float64" else "f32"
            return V(0, 0, {}, True, k)
        if h in ("ones", "ones_like"):
            return V(1, 1, num(1), True, "i" if dt in INTS else None)
        if h in ("concatenate", "stack", "cat", "hstack", "vstack", "concat", "pad", "repeat", "tile") and args:
            if isinstance(args[0], Tup):
                r, vs = None, [self.v(x, self.site(e)) for x in args[0].items]
                for v in vs:
                    r = self.join(r, v, self.site(e))
                if any(v.kind == "f64" for v in vs):
                    r = r.with_(kind="f64")
                return r.with_(scalar=False) if r is not None else None
            return N(0)
        if h in SHAPE and args:
            v = N(0)
            return self.cast(e, v, dt, env) if dt else v
        if h in ("sum", "mean"):
            return self.reduce(h, N(0)) if args else None
        if h in ("float",) and args:
            return N(0)
        if h == "int" and args:
            v = N(0)
            return self.derived("round", math.trunc(v.lo) if v.lo > -INF else v.lo, math.trunc(v.hi) if v.hi < INF else v.hi, [v.poly], [v, "int"], integral=True, scalar=True)
        if h == "range":
            return self.unknown(("range",) + self.site(e), integral=True, scalar=True)
        if h in ("tqdm", "reversed", "list", "tuple", "iter") and args:
            return args[0]
        if h == "enumerate" and args:
            return Bag(Tup([self.unknown(("i",) + self.site(e), integral=True, scalar=True), self.element(args[0], e)]))
        if h == "zip":
            return Bag(Tup([self.element(a, e) for a in args]))
        if h == "isfinite":
            return None
        if h in ("bitwise_or", "bitwise_and", "left_shift", "right_shift") and len(args) == 2:
            if self.sink is not None:
                self.sink(self, e, (N(0), N(1)), None, None, {"bitwise_or": "BitOr", "bitwise_and": "BitAnd", "left_shift": "LShift", "right_shift": "RShift"}[h], env)
            return None
        if h == "tanh":
            return V(-1, 1, self.sym(("tanh",) + self.site(e), cap=1))
        if h == "where" and len(args) == 3:
            return self.join(N(1), N(2), self.site(e))
        if h == "getattr" and len(args) >= 2:
            return self.unknown(("getattr",) + self.site(e))
        return None

    def method(self, e, f, env, kwx):
        base = self.ev(f.value, env)
        m = f.attr
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args]
        if isinstance(base, Bag) and m in ("append", "extend", "insert"):
            x = args[-1] if args else None
            if m == "extend" and isinstance(x, (Bag, Tup)):
                x = self.element(x, e)
            nb = Bag(self.join(base.v, x, ("bag",) + self.site(e)))
            if isinstance(f.value, ast.Name):
                self.rebind(f.value.id, nb, env)
            return Tup([])
        if m in ("astype", "to", "type", "view") and (e.args or "dtype" in kwx):
            dt = self.dtype(e.args[0] if e.args else kwx["dtype"], env)
            if m == "view" and dt not in INTS:
                return base
            if dt is not None:
                return self.cast(e, base, dt, env)
            return base
        if m in METHODS and not e.args and isinstance(base, (V, Obj)):
            return self.cast(e, base, METHODS[m], env)
        if isinstance(base, Obj) and not isinstance(base, Self) and m in SHAPE:
            return base if m != "item" else V(-INF, INF, self.sym(("at", base.path)), scalar=True)
        if m in SHAPE:
            return self.v(base, self.site(e)).with_(scalar=True) if m == "item" else base
        if isinstance(base, (V, Bag, Tup, Alt)) or isinstance(base, Obj) and m in ("abs", "max", "min", "sum", "round", "clamp", "clip"):
            v = self.v(base, self.site(e))
            kw = {k: self.ev(x, env) for k, x in kwx.items() if k != "dtype"}
            if m in ("round", "round_", "rint"):
                r = self.rounding(v)
            elif m in ("clamp", "clamp_", "clip", "clip_"):
                g = lambda i, *ks: next((self.v(kw[k], self.site(e)) for k in ks if k in kw), self.v(args[i], self.site(e)) if len(args) > i else None)
                r = self.clip(v, g(0, "min", "a_min"), g(1, "max", "a_max"))
            elif m in ("mul_", "mul", "multiply"):
                r = self.binop(ast.Mult(), v, self.v(args[0], self.site(e)))
            elif m in ("add_", "add"):
                r = self.binop(ast.Add(), v, self.v(args[0], self.site(e)))
            elif m in ("div_", "div"):
                r = self.binop(ast.Div(), v, self.v(args[0], self.site(e)))
            elif m in ("abs", "abs_"):
                r = self.absv(v)
            elif m in ("max", "min", "amax", "amin", "sum", "mean") and m:
                return self.reduce(m, v)
            else:
                return None
            if r is not None and m.endswith("_") and isinstance(f.value, ast.Name):
                self.rebind(f.value.id, r, env)
            return r
        return None


def _load(t):
    import copy
    n = copy.copy(t)
    if hasattr(n, "ctx"):
        n.ctx = ast.Load()
    return n
