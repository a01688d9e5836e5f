"""Abstract interpreter for array geometry: which field an array came from and by which flips, swaps, selections and paddings.

Arrays hold no numbers: an array is (field, sequence of geometric operations, shape as linear forms).  A batch is represented by one generic
row together with the selections it lies in.  Conditions that the abstract state decides are taken that way, the others are tried both
ways; runs that raise are dropped.  Nothing of the analysed program is executed."""
import ast
from .project import dotted


class Lin:
    """a linear form over named integers"""
    __slots__ = ("t", "c")

    def __init__(self, t=(), c=0):
        self.t, self.c = tuple(sorted((k, v) for k, v in dict(t).items() if v)), c

    def __add__(self, o):
        o = lin(o)
        d = dict(self.t)
        for k, v in o.t:
            d[k] = d.get(k, 0) + v
        return norm(Lin(d.items(), self.c + o.c))

    def neg(self):
        return Lin([(k, -v) for k, v in self.t], -self.c)

    def sub(self, m):
        out = Lin((), self.c)
        for k, v in self.t:
            x = m.get(k)
            out = lin(out + (Lin([(a, b * v) for a, b in lin(x).t], lin(x).c * v) if x is not None else Lin([(k, v)])))
        return out

    def __eq__(self, o):
        return isinstance(o, Lin) and (self.t, self.c) == (o.t, o.c)

    def __hash__(self):
        return hash((self.t, self.c))

    def __repr__(self):
        s = "".join(f"{'+' if v > 0 else '-'}{'' if abs(v) == 1 else abs(v)}{k}" for k, v in self.t)
        return (s + (f"{self.c:+d}" if self.c or not s else "")).lstrip("+")


def lin(x):
    return x if isinstance(x, Lin) else Lin((), x)


def norm(x):
    return x.c if isinstance(x, Lin) and not x.t else x


def sym(name):
    return Lin([(name, 1)])


def product(a, b):
    """the product of two linear forms, as a named integer (constant factors are kept apart)"""
    if isinstance(a, int) or isinstance(b, int):
        k, x = (a, b) if isinstance(a, int) else (b, a)
        return norm(Lin([(n, v * k) for n, v in x.t], x.c * k)) if isinstance(x, Lin) else k * x
    return sym("*".join(sorted(repr(x) for x in (a, b))))


class Sym:
    """an unknown value with a structural name"""
    __slots__ = ("k",)

    def __init__(self, *k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Sym) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "?" + str(self.k)[:60]


class Arr:
    """an array: field, operations applied to it, shape; `own` says it does not share storage with a stored array"""

    def __init__(self, field, shape, ops=(), own=False):
        self.field, self.shape, self.ops, self.own = field, tuple(shape), tuple(ops), own

    def op(self, *o, shape=None, own=True):
        return Arr(self.field, self.shape if shape is None else shape, self.ops + (o,), own)

    def dup(self, own=True):
        return Arr(self.field, self.shape, self.ops, own)

    def same(self, o):
        return isinstance(o, Arr) and (self.field, self.ops) == (o.field, o.ops)

    def __repr__(self):
        return f"<{self.field}{''.join(':' + str(o) for o in self.ops)}>"


class Batch:
    """a batch array seen through one generic row; sel names the selection of rows it holds (None: all)"""

    def __init__(self, row, sel=None, name=None, own=False):
        self.row, self.sel, self.name, self.own = row, sel, name, own

    def lift(self, row, name=None, own=None):
        return Batch(row, self.sel, name or self.name, self.own if own is None else own)

    def __repr__(self):
        return f"[{self.row!r}/{self.sel}]"


class Perm:
    """np.arange(n) with some entries overwritten"""

    def __init__(self, n):
        self.n, self.d = n, {}


class Obj:
    def __init__(self, cls, **at):
        self.cls, self.at = cls, at


class Fn:
    def __init__(self, node, mod, env, func=None, bound=None):
        self.node, self.mod, self.env, self.func, self.bound = node, mod, env, func, bound


class Raised(Exception):
    pass


class PyExc(Exception):
    """an exception of the analysed program raised by a primitive"""

    def __init__(self, name):
        self.name = name


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Unknown(Exception):
    """the run leaves what the interpreter understands"""


def key(v):
    if isinstance(v, Sym):
        return v.k
    if isinstance(v, Lin):
        return ("lin", v.t, v.c)
    if isinstance(v, Arr):
        return ("arr", v.field, v.ops)
    if isinstance(v, Batch):
        return ("batch", key(v.row), v.sel, v.name)
    if isinstance(v, (list, tuple)):
        return tuple(key(x) for x in v)
    if isinstance(v, dict):
        return tuple((k, key(x)) for k, x in v.items())
    if isinstance(v, (int, float, str, bytes, bool)) or v is None:
        return v
    return ("obj", id(v))


ALIAS = {"asarray", "ascontiguousarray", "asanyarray", "atleast_1d", "require"}
COPY = {"array", "copy"}
SCALARS = {"int", "float", "bool"}


class Geo:
    def __init__(self, P, prims, limit=300):
        self.P, self.prims, self.limit = P, prims, limit
        self.funcs = {}

    # ---------------------------------------------------------------- runs
    def runs(self, fn):
        """fn(self) is evaluated once per combination of undecided conditions; yields (result or Unknown)"""
        todo, n = [()], 0
        while todo:
            pre = todo.pop()
            n += 1
            if n > self.limit:
                yield Unknown("too many paths"), []
                return
            self.pre, self.taken, self.memo, self.log, self.depth, self.unknown = pre, [], {}, [], 0, []
            try:
                yield fn(self), self.log
            except (Raised, PyExc):
                pass
            except Unknown as e:
                yield e, self.log
            for i in range(len(pre), len(self.taken)):
                todo.append(tuple(self.taken[:i]) + (not self.taken[i],))

    def decide(self, k):
        if k in self.memo:
            return self.memo[k]
        i = len(self.taken)
        v = self.pre[i] if i < len(self.pre) else True
        self.taken.append(v)
        self.memo[k] = v
        return v

    def truth(self, v):
        if isinstance(v, (Arr, Obj, Fn)) or hasattr(v, "methods"):
            return True if not isinstance(v, Arr) else self.decide(("truth", key(v)))
        if isinstance(v, Batch):
            return self.decide(("truth", key(v)))
        if isinstance(v, Sym):
            return self.sym_truth(v)
        if isinstance(v, Lin):
            return self.decide(("nz", v.t, v.c))
        return bool(v)

    def sym_truth(self, v):
        if v.k[0] == "not":
            return not self.truth(v.k[1])
        return self.decide(v.k)

    # ---------------------------------------------------------------- calls
    def call_func(self, f, args, kw, bound=None, env=None):
        node = f.node
        self.depth += 1
        if self.depth > 12:
            self.depth -= 1
            raise Unknown("depth")
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        vals = ([bound] if bound is not None else []) + list(args)
        for n_, v in zip(names, vals):
            loc[n_] = v
        if len(vals) > len(names):
            if not a.vararg:
                raise Unknown("too many arguments")
            loc[a.vararg.arg] = tuple(vals[len(names):])
        elif a.vararg:
            loc[a.vararg.arg] = ()
        rest = {}
        for k, v in kw.items():
            if k in names or k in {x.arg for x in a.kwonlyargs}:
                loc[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            loc[a.kwarg.arg] = rest
        fr = Frame(self, f.mod, loc, env)
        for x, d in zip(reversed(a.posonlyargs + a.args), reversed(a.defaults)):
            if x.arg not in loc:
                loc[x.arg] = fr.ev(d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in loc and d is not None:
                loc[x.arg] = fr.ev(d)
        try:
            if isinstance(node, ast.Lambda):
                return fr.ev(node.body)
            try:
                fr.block(node.body)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def as_fn(self, func, bound=None):
        return Fn(func.node, func.module, None, func, bound)


class Frame:
    def __init__(self, it, mod, loc, env=None):
        self.it, self.mod, self.loc, self.env = it, mod, loc, env

    # ---------------------------------------------------------------- names
    def name(self, n):
        if n in self.loc:
            return self.loc[n]
        if self.env is not None:
            return self.env.name(n)
        return self.glob(n)

    def glob(self, n):
        r = self.mod.resolve(n)
        return self.resolved(r, n)

    def resolved(self, r, text):
        from .project import Func, Module
        if isinstance(r, str):
            tail = r.split(".")
            if r in ("True", "False", "None"):
                return {"True": True, "False": False, "None": None}[r]
            m = self.it.P.modules.get(".".join(tail[:-1]))
            if m is not None:
                for s in m.tree.body:
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == tail[-1]:
                        return self.const(m, s.value, r)
            return Sym("g", r)
        if isinstance(r, Func):
            return self.it.as_fn(r)
        if r is None:
            for s in self.mod.tree.body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == text:
                    return self.const(self.mod, s.value, f"{self.mod.name}.{text}")
            return Sym("g", text)
        return r      # a class

    def const(self, m, e, qual):
        try:
            return ast.literal_eval(e)
        except (ValueError, TypeError, SyntaxError):
            pass
        if isinstance(e, ast.Call):
            f = Frame(self.it, m, {})
            c = f.ev(e.func)
            if not isinstance(c, (Sym, Fn)) and hasattr(c, "methods"):
                return f.ev(e)
        if isinstance(e, (ast.Tuple, ast.List, ast.Dict)):
            return Frame(self.it, m, {}).ev(e)
        return Sym("g", qual)

    # ---------------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        t = type(s)
        if t is ast.Expr:
            self.ev(s.value)
        elif t is ast.Assign:
            v = self.ev(s.value)
            for x in s.targets:
                self.assign(x, v)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value))
        elif t is ast.AugAssign:
            load = ast.copy_location(ast.fix_missing_locations(ast.parse(ast.unparse(s.target), mode="eval").body), s)
            self.assign(s.target, self.binop(s.op, self.ev(load), self.ev(s.value)))
        elif t is ast.If:
            self.block(s.body if self.it.truth(self.ev(s.test)) else s.orelse)
        elif t is ast.Return:
            raise Ret(self.ev(s.value) if s.value is not None else None)
        elif t is ast.Raise:
            raise Raised()
        elif t is ast.Assert:
            if not self.it.truth(self.ev(s.test)):
                raise Raised()
        elif t is ast.For:
            for v in self.each(self.ev(s.iter)):
                self.assign(s.target, v)
                try:
                    self.block(s.body)
                except Brk:
                    return
                except Cont:
                    continue
            self.block(s.orelse)
        elif t is ast.Continue:
            raise Cont()
        elif t is ast.Break:
            raise Brk()
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Subscript):
                    o, k = self.ev(x.value), self.ev(x.slice)
                    if isinstance(o, dict):
                        o.pop(k, None)
                elif isinstance(x, ast.Name):
                    self.loc.pop(x.id, None)
        elif t is ast.With:
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v)
                self.it.log.append(("enter", key(v)))
            self.block(s.body)
            for i in s.items:
                self.it.log.append(("exit",))
        elif t is ast.Try:
            try:
                self.block(s.body)
            except PyExc as x:
                for h in s.handlers:
                    ns = [(dotted(q) or "").split(".")[-1] for q in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type is not None else [])]
                    if not ns or x.name in ns or {"BaseException", "Exception"} & set(ns):
                        if h.name:
                            self.loc[h.name] = Sym("exc", x.name)
                        self.block(h.body)
                        break
                else:
                    self.block(s.finalbody)
                    raise
            else:
                self.block(s.orelse)
            self.block(s.finalbody)
        elif t is ast.FunctionDef:
            self.loc[s.name] = Fn(s, self.mod, self)
        elif t is ast.While:
            for i in range(64):
                if not self.it.truth(self.ev(s.test)):
                    break
                try:
                    self.block(s.body)
                except Brk:
                    return
                except Cont:
                    continue
            else:
                raise Unknown("loop bound")
        elif t is ast.Match:
            subj = self.ev(s.subject)
            for c in s.cases:
                p = c.pattern
                ok = (isinstance(p, ast.MatchValue) and self.it.truth(self.compare(ast.Eq(), subj, self.ev(p.value)))
                      or isinstance(p, ast.MatchSingleton) and subj is p.value or isinstance(p, ast.MatchAs) and p.pattern is None
                      or isinstance(p, ast.MatchOr) and any(isinstance(q, ast.MatchValue) and self.it.truth(self.compare(ast.Eq(), subj, self.ev(q.value))) for q in p.patterns))
                if ok and (c.guard is None or self.it.truth(self.ev(c.guard))):
                    if isinstance(p, ast.MatchAs) and p.name:
                        self.loc[p.name] = subj
                    self.block(c.body)
                    break
        elif t in (ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal, ast.ClassDef):
            if t is ast.ImportFrom:
                for al in s.names:
                    q = f"{s.module}.{al.name}"
                    m = self.it.P.modules.get(s.module or "")
                    r = m.resolve(al.name) if m is not None else q
                    f2 = Frame(self.it, m or self.mod, {})
                    self.loc[al.asname or al.name] = f2.resolved(r, al.name) if m is not None else Sym("g", q)
            elif t is ast.Import:
                for al in s.names:
                    self.loc[al.asname or al.name.split(".")[0]] = Sym("g", al.name if al.asname else al.name.split(".")[0])
        else:
            raise Unknown(t.__name__)

    def assign(self, x, v):
        if isinstance(x, ast.Name):
            self.loc[x.id] = v
        elif isinstance(x, (ast.Tuple, ast.List)):
            st = [i for i, e in enumerate(x.elts) if isinstance(e, ast.Starred)]
            vs = self.seq(v, None if st else len(x.elts))
            if vs is None:
                vs = [Sym("item", key(v), i) for i in range(len(x.elts))]
            if st:
                i, tail = st[0], len(x.elts) - st[0] - 1
                vs = list(vs[:i]) + [list(vs[i:len(vs) - tail])] + list(vs[len(vs) - tail:])
            if len(vs) != len(x.elts):
                raise Unknown("unpacking")
            for e, w in zip(x.elts, vs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, w)
        elif isinstance(x, ast.Subscript):
            self.setitem(self.ev(x.value), self.index(x.slice), v)
        elif isinstance(x, ast.Attribute):
            o = self.ev(x.value)
            if isinstance(o, Obj):
                o.at[x.attr] = v
        else:
            raise Unknown("assignment")

    def seq(self, v, n=None):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Arr) and v.field == "board_size" and len(v.shape) == 1:
            return [sym("H"), sym("W")]
        return None

    def each(self, v):
        s = self.seq(v)
        if s is not None:
            return s
        if isinstance(v, dict):
            return list(v)
        h = self.it.prims.get("iterate")
        r = h(self.it, v) if h else None
        if r is None:
            raise Unknown(f"iteration over {v!r}")
        return r

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unknown(type(e).__name__)
        return m(e)

    def e_Yield(self, e):
        self.it.log.append(("yield", self.ev(e.value) if e.value is not None else None))
        return None

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.name(e.id)

    def e_Tuple(self, e):
        return tuple(self.items(e.elts))

    def e_List(self, e):
        return list(self.items(e.elts))

    def e_Set(self, e):
        return list(self.items(e.elts))

    def items(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                s = self.seq(self.ev(x.value))
                if s is None:
                    raise Unknown("star")
                out += s
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                if not isinstance(o, dict):
                    raise Unknown("dict unpacking")
                d.update(o)
            else:
                kk = self.ev(k)
                try:
                    d[kk] = self.ev(v)
                except TypeError:
                    raise Unknown("dict key")
        return d

    def e_Lambda(self, e):
        return Fn(e, self.mod, self)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            w = v.value if isinstance(v, ast.Constant) else self.ev(v.value)
            parts.append(w)
        if all(isinstance(p, (str, int)) for p in parts):
            return "".join(str(p) for p in parts)
        return Sym("fstr", key(parts))

    def e_IfExp(self, e):
        return self.ev(e.body if self.it.truth(self.ev(e.test)) else e.orelse)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_BoolOp(self, e):
        v = None
        for x in e.values:
            v = self.ev(x)
            if self.it.truth(v) != isinstance(e.op, ast.And):
                return v
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return not self.it.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, Lin):
                return v.neg()
        if isinstance(e.op, ast.Invert) and isinstance(v, Batch) and isinstance(v.row, bool):
            return v.lift(not v.row, name=("not", v.name))
        return Sym("un", type(e.op).__name__, key(v))

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def binop(self, op, a, b):
        h = self.it.prims.get("bin")
        r = h(self.it, type(op).__name__, a, b) if h else None
        if r is not None:
            return r
        num = (int, float)
        if isinstance(a, bool) or isinstance(b, bool):
            a, b = (int(x) if isinstance(x, bool) else x for x in (a, b))
        if isinstance(a, num) and isinstance(b, num):
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "BitAnd": lambda: a & b,
                        "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "LShift": lambda: a << b, "RShift": lambda: a >> b, "Div": lambda: a / b, "Pow": lambda: a ** b}[type(op).__name__]()
            except (KeyError, TypeError, ZeroDivisionError, ValueError):
                return Sym("bin", type(op).__name__, a, b)
        li = (int, Lin)
        if isinstance(a, li) and isinstance(b, li):
            if isinstance(op, ast.Add):
                return lin(a) + lin(b)
            if isinstance(op, ast.Sub):
                return lin(a) + lin(b).neg()
            if isinstance(op, ast.Mult) and (isinstance(a, int) or isinstance(b, int)):
                k, x = (a, b) if isinstance(a, int) else (b, a)
                return norm(Lin([(n_, v * k) for n_, v in x.t], x.c * k))
            if isinstance(op, ast.Mult):
                return product(a, b)
        if isinstance(op, ast.Add) and isinstance(a, (list, tuple)) and type(a) is type(b):
            return a + b
        if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(op, ast.Mult) and isinstance(a, (list, tuple)) and isinstance(b, int) and 0 <= b < 64:
            return a * b
        if isinstance(a, Batch) or isinstance(b, Batch):
            x = a if isinstance(a, Batch) else b
            return Batch(Sym("bin", type(op).__name__, key(a), key(b)), x.sel, ("bin", type(op).__name__, key(a), key(b)), True)
        return Sym("bin", type(op).__name__, key(a), key(b))

    def e_Compare(self, e):
        a = self.ev(e.left)
        out = True
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c)
            r = self.compare(op, a, b)
            if len(e.ops) == 1:
                return r
            if not self.it.truth(r):
                return False
            a = b
        return out

    def compare(self, op, a, b):
        n = type(op).__name__
        h = self.it.prims.get("compare")
        r = h(self.it, n, a, b) if h else None
        if r is not None:
            return r
        if (isinstance(a, Batch) or isinstance(b, Batch)) and n not in ("Is", "IsNot", "In", "NotIn"):
            x, y = (a, b) if isinstance(a, Batch) else (b, a)
            if isinstance(b, Batch) and not isinstance(a, Batch):
                n = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(n, n)
            h = self.it.prims.get("batch_compare")
            r = h(self.it, n, x, y) if h else None
            if r is not None:
                return r
            yr = y.row if isinstance(y, Batch) else y
            if isinstance(x.row, (int, float)) and isinstance(yr, (int, float)):
                return x.lift(self.cmp(n, x.row, yr), name=("cmp", n, x.name, yr))
            return x.lift(Sym("cmp", n, key(x.row), key(yr)), name=("cmp", n, key(x), key(y)))
        if n in ("In", "NotIn"):
            r = None
            if isinstance(b, dict) and isinstance(a, str):
                r = a in b
            elif isinstance(b, (list, tuple)):
                rs = [self.compare(ast.Eq(), a, x) for x in b]
                if all(isinstance(x, bool) for x in rs):
                    r = any(rs)
            elif isinstance(b, str) and isinstance(a, str):
                r = a in b
            if r is None:
                s = ("in", key(a), key(b))
                r = self.it.decide(s)
            return r if n == "In" else not r
        if n in ("Is", "IsNot"):
            if isinstance(a, (type(None), bool)) or isinstance(b, (type(None), bool)):
                if isinstance(a, Sym) or isinstance(b, Sym):
                    r = self.it.decide(("is", key(a), key(b)))
                else:
                    r = a is b
            elif isinstance(a, Sym) or isinstance(b, Sym):
                r = True if a == b else self.it.decide(("is", key(a), key(b)))
            else:
                r = a is b
            return r if n == "Is" else not r
        num = (int, float, str, type(None))
        if isinstance(a, num) and isinstance(b, num):
            return self.cmp(n, a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and n in ("Eq", "NotEq"):
            r = len(a) == len(b) and all(self.it.truth(self.compare(ast.Eq(), x, y)) for x, y in zip(a, b))
            return r if n == "Eq" else not r
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            d = lin(a) + lin(b).neg()
            if isinstance(d, int):
                return self.cmp(n, d, 0)
            if n == "NotEq":
                return not self.it.decide(("Eq", d.t, d.c))
            return self.it.decide((n, d.t, d.c))
        if n in ("Eq", "NotEq") and (a is b or isinstance(a, Sym) and a == b):
            return n == "Eq"
        if n in ("Eq", "NotEq") and (isinstance(a, (bool, str, type(None))) != isinstance(b, (bool, str, type(None)))) and not isinstance(a, Sym) and not isinstance(b, Sym):
            return n == "NotEq"
        if n == "NotEq":
            return not self.it.decide(("cmp", "Eq", key(a), key(b)))
        return self.it.decide(("cmp", n, key(a), key(b)))

    @staticmethod
    def cmp(n, a, b):
        try:
            return {"Eq": a == b, "NotEq": a != b}[n] if n in ("Eq", "NotEq") else {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[n]()
        except TypeError:
            raise Raised()

    def comp(self, e, leaf):
        out = []

        def go(i):
            if i == len(e.generators):
                out.append(leaf())
                return
            g = e.generators[i]
            for v in self.each(self.ev(g.iter)):
                self.assign(g.target, v)
                if all(self.it.truth(self.ev(c)) for c in g.ifs):
                    go(i + 1)
        saved = dict(self.loc)
        h = self.it.prims.get("comprehension")
        if h and len(e.generators) == 1 and not e.generators[0].ifs and hasattr(e, "elt"):
            src = self.ev(e.generators[0].iter)
            if isinstance(src, Sym):
                el = h(self.it, src)
                if el is not None:
                    self.assign(e.generators[0].target, el)
                    r = leaf()
                    self.loc = saved
                    return Sym("map", key(src), key(r), key(el))
        go(0)
        self.loc = saved
        return out

    def e_ListComp(self, e):
        return self.comp(e, lambda: self.ev(e.elt))

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, e):
        return dict(self.comp(e, lambda: (self.ev(e.key), self.ev(e.value))))

    def e_Attribute(self, e):
        q = dotted(e)
        if q and q.split(".")[0] not in self.mod.assigns and q.split(".")[0] not in self.loc and not (self.env and self.env.has(q.split(".")[0])):
            r = self.mod.resolve(q)
            if isinstance(r, str) and not r.startswith("self.") and q != r or r is not None and not isinstance(r, str):
                v = self.resolved(r, q)
                if not (isinstance(v, Sym) and v.k[0] == "g" and hasattr(self.mod.resolve(q.rsplit(".", 1)[0]), "methods")):
                    return v
        return self.attr(self.ev(e.value), e.attr)

    def has(self, n):
        return n in self.loc or bool(self.env and self.env.has(n))

    def attr(self, o, a):
        h = self.it.prims.get("attr")
        r = h(self.it, o, a) if h else None
        if r is not None:
            return r
        if isinstance(o, Sym) and o.k[0] == "g":
            return Sym("g", f"{o.k[1]}.{a}")
        if isinstance(o, Obj):
            if a in o.at:
                return o.at[a]
            f = o.cls.find(a) if o.cls is not None else None
            if f is not None:
                if f.is_property:
                    return self.it.call_func(self.it.as_fn(f), [], {}, bound=o)
                return self.it.as_fn(f, None if f.is_static else o)
            return Sym("attr", key(o), a)
        if hasattr(o, "methods"):
            f = o.find(a)
            if f is not None:
                return self.it.as_fn(f, o if f.is_classmethod else None)
            return Sym("g", f"{o.module.name}.{o.name}.{a}")
        b = o.row if isinstance(o, Batch) else o
        if isinstance(b, Arr):
            pre = (sym("B") if o.sel is None else Sym("count", o.sel),) if isinstance(o, Batch) else ()
            if a == "shape":
                return pre + b.shape
            if a == "ndim":
                return len(pre + b.shape)
            if a in ("dtype", "size", "nbytes"):
                return Sym(a, key(o))
            if a == "T":
                return Sym("T", key(o))
            return ("method", o, a)
        if isinstance(o, Batch):
            if a == "shape":
                return (sym("B"),) + ((1,) if o.name == "stm_input" or isinstance(o.name, tuple) and "stm_input" in str(o.name) else ())
            if a == "size":
                return self.some(o)
            if a == "dtype":
                return Sym("dtype", key(o))
            return ("method", o, a)
        if isinstance(o, (int, float)) and not isinstance(o, bool) or isinstance(o, (list, tuple, dict, str, Lin, Perm, bytes)):
            return ("method", o, a)
        if isinstance(o, Sym):
            return Sym("attr", o.k, a)
        return Sym("attr", key(o), a)

    def some(self, o):
        """the number of rows of a selection (true if the generic row is in it)"""
        return 1 if o.row is True else Sym("count", o.name)

    # ---------------------------------------------------------------- subscripts
    def index(self, s):
        if isinstance(s, ast.Tuple):
            return tuple(self.index1(x) for x in s.elts)
        return self.index1(s)

    def index1(self, s):
        if isinstance(s, ast.Slice):
            return slice(*(None if x is None else self.ev(x) for x in (s.lower, s.upper, s.step)))
        return self.ev(s)

    def e_Slice(self, e):
        return self.index1(e)

    def e_Subscript(self, e):
        return self.getitem(self.ev(e.value), self.index(e.slice))

    def getitem(self, o, i):
        h = self.it.prims.get("getitem")
        r = h(self.it, o, i) if h else None
        if r is not None:
            return r
        if isinstance(o, dict):
            if i in o:
                return o[i]
            raise Raised()
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, (int, slice)) and not (isinstance(i, slice) and any(isinstance(x, (Sym, Lin)) for x in (i.start, i.stop, i.step))):
                try:
                    return o[i]
                except IndexError:
                    raise Raised()
            return Sym("item", key(o), key(i) if not isinstance(i, slice) else "slice")
        if isinstance(o, float):
            return o
        if isinstance(o, Batch):
            return self.batch_get(o, i)
        if isinstance(o, Arr):
            return self.arr_get(o, i if isinstance(i, tuple) else (i,))
        if isinstance(o, Perm):
            return o.d.get(i, i) if isinstance(i, int) else Sym("perm", key(i))
        return Sym("item", key(o), key(i) if not isinstance(i, slice) else "slice")

    def batch_get(self, o, i):
        t = i if isinstance(i, tuple) else (i,)
        m, rest = t[0], t[1:]
        full = lambda x: isinstance(x, slice) and x == slice(None)
        if isinstance(m, Batch):              # a mask or a list of rows
            o2 = Batch(o.row.dup() if isinstance(o.row, Arr) else o.row, m.name if m.sel is None else ("of", m.name, m.sel), o.name, True)
            if o.sel is not None:
                o2.sel = ("sub", o.sel, o2.sel)
        elif full(m) or m is Ellipsis:
            o2 = o
            if m is Ellipsis:
                rest = (Ellipsis,) + rest
        else:
            return Sym("rowof", key(o), key(i) if not isinstance(i, slice) else "slice")
        if not rest:
            return o2
        if isinstance(o2.row, Arr):
            return o2.lift(self.arr_get(o2.row, rest), own=o2.own or self.fancy(rest))
        return o2

    @staticmethod
    def fancy(t):
        return any(isinstance(x, (list, Perm)) for x in t)

    def arr_get(self, o, t):
        if t and isinstance(t[0], type(Ellipsis)):
            k = len(o.shape) - (len(t) - 1)
            t = (slice(None),) * k + tuple(t[1:])
        elif any(x is Ellipsis for x in t):
            j = [x is Ellipsis for x in t].index(True)
            t = tuple(t[:j]) + (slice(None),) * (len(o.shape) - len(t) + 1) + tuple(t[j + 1:])
        if len(t) > len(o.shape):
            return Sym("item", key(o), key([x if not isinstance(x, slice) else "slice" for x in t]))
        out, ax, shape = o, 0, []
        for i, x in enumerate(t):
            d = o.shape[i]
            if isinstance(x, slice):
                if x == slice(None):
                    shape.append(d)
                elif x == slice(None, None, -1):
                    out = out.op("flip", ax, own=o.own)
                    shape.append(d)
                else:
                    out = out.op("cut", ax, tuple(repr(y) if isinstance(y, (Lin, Sym)) else y for y in (x.start, x.stop, x.step)), own=o.own)
                    shape.append(Sym("dim", key(out)) if not (isinstance(x.stop, int) and x.stop < 0 and x.start is None and isinstance(d, Lin)) else lin(d) + x.stop)
                ax += 1
            elif isinstance(x, (list, tuple)):
                out = out.op("take", ax, tuple(key(y) for y in x), own=True)
                shape.append(len(x))
                ax += 1
            elif isinstance(x, Perm):
                out = out.op("map", ax, tuple(sorted(x.d.items(), key=repr)), own=True)
                shape.append(d)
                ax += 1
            else:
                out = out.op("pick", ax, key(x), own=o.own)
        return Arr(out.field, tuple(shape) + o.shape[len(t):], out.ops, out.own)

    def setitem(self, o, i, v):
        it = self.it
        if isinstance(o, dict):
            o[i] = v
        elif isinstance(o, list) and isinstance(i, int):
            o[i] = v
        elif isinstance(o, Perm):
            ks = self.seq(i) if not isinstance(i, int) else [i]
            vs = self.seq(v) if not isinstance(v, int) else [v] * len(ks or ())
            if vs is None or ks is None or len(ks) != len(vs):
                if isinstance(v, tuple) and v and v[0] == "permof":
                    vs = list(v[1])
                else:
                    raise Unknown("permutation")
            for a, b in zip(ks, vs):
                o.d[a] = b
        elif isinstance(o, Batch):
            t = i if isinstance(i, tuple) else (i,)
            it.log.append(("write", o.own, repr(o)))
            m = t[0]
            if isinstance(m, Batch):
                msel = m.name if m.sel is None else ("of", m.name, m.sel)
                if m.row is False:
                    return
                if m.row is not True:
                    o.row = Sym("mixed")
                    return
                if isinstance(v, Batch) and v.sel != msel:
                    o.row = Sym("row of another selection", key(v))
                    return
                w = v.row if isinstance(v, Batch) else v
                o.row = self.part_set(o.row, t[1:], w)
            elif isinstance(m, slice) and m == slice(None) or m is Ellipsis:
                if isinstance(v, Batch) and v.sel != o.sel:
                    o.row = Sym("row of another selection", key(v))
                else:
                    o.row = self.part_set(o.row, t[1:] if m is not Ellipsis else t, v.row if isinstance(v, Batch) else v)
            else:
                o.row = Sym("written", key(m))
        elif isinstance(o, Arr):
            it.log.append(("write", o.own, repr(o)))
            n = self.part_set(o, i if isinstance(i, tuple) else (i,), v)
            if isinstance(n, Arr):
                o.ops, o.field, o.shape = n.ops, n.field, n.shape
            else:
                o.ops = o.ops + (("written", key(i) if not isinstance(i, slice) else "slice", key(v)),)
        elif isinstance(o, Obj):
            pass

    def part_set(self, cur, t, w):
        """the value of cur after cur[t] = w"""
        t = tuple(x for x in t)
        while t and isinstance(t[-1], slice) and t[-1] == slice(None) or t and t[-1] is Ellipsis:
            t = t[:-1]
        if not t:
            return w.dup() if isinstance(w, Arr) else w
        if isinstance(cur, Arr) and isinstance(w, Arr) and w.field == cur.field:
            ax = len(t) - 1
            ks = t[-1]
            if all(isinstance(x, slice) and x == slice(None) for x in t[:-1]) and isinstance(ks, (list, tuple)) and w.ops[:len(cur.ops)] == cur.ops and len(w.ops) == len(cur.ops) + 1:
                o = w.ops[-1]
                if o[0] == "take" and o[1] == ax and len(o[2]) == len(ks):
                    return Arr(cur.field, cur.shape, cur.ops + (("map", ax, tuple(sorted(zip(ks, o[2])))),), True)
        return Sym("partly written", key(cur), str(t)[:40], key(w))

    # ---------------------------------------------------------------- calls
    def e_Call(self, e):
        it = self.it
        f = self.ev(e.func)
        args = self.items(e.args)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Unknown("** argument")
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, e=None):
        it = self.it
        if isinstance(f, Fn):
            q = f.func.qual if f.func is not None else None
            p = it.prims.get(q)
            if p is not None:
                return p(it, ([f.bound] if f.bound is not None else []) + args, kw)
            return it.call_func(f, args, kw, bound=f.bound, env=f.env)
        if hasattr(f, "methods"):
            p = it.prims.get(f"{f.module.name}.{f.name}")
            if p is not None:
                return p(it, args, kw)
            o = Obj(f)
            init = f.find("__init__")
            if init is not None:
                it.call_func(it.as_fn(init), args, kw, bound=o)
            else:
                fields = [b.target.id for k in reversed(f.mro) for b in k.node.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
                o.at.update(zip(fields, args))
                o.at.update(kw)
            return o
        if isinstance(f, tuple) and f and f[0] == "method":
            return self.method(f[1], f[2], args, kw)
        if isinstance(f, Sym) and f.k[0] == "g":
            n = f.k[1]
            p = it.prims.get(n)
            if p is not None:
                return p(it, args, kw)
            return self.lib(n, args, kw)
        p = it.prims.get("call")
        if p is not None:
            r = p(it, f, args, kw)
            if r is not None:
                return r
        return Sym("call", key(f), key(args), key(kw))

    def lib(self, n, args, kw):
        h = n.rsplit(".", 1)
        s = h[-1]
        a0 = args[0] if args else None
        if n == "dict":
            d = dict(a0) if isinstance(a0, dict) else dict(tuple(x) for x in a0) if isinstance(a0, list) else {}
            if a0 is not None and not isinstance(a0, (dict, list)):
                raise Unknown("dict()")
            d.update(kw)
            return d
        if n in SCALARS:
            return a0 if isinstance(a0, (Lin, Sym)) else a0 if isinstance(a0, Batch) else {"int": int, "float": float, "bool": bool}[n](a0) if isinstance(a0, (int, float)) else Sym(n, key(a0))
        if n in ("tuple", "list"):
            if a0 is None:
                return () if n == "tuple" else []
            r = self.seq(a0)
            if r is None:
                try:
                    r = self.each(a0)
                except Unknown:
                    return Sym(n, key(a0))
            return tuple(r) if n == "tuple" else list(r)
        if n == "len":
            if isinstance(a0, (list, tuple, dict, str)):
                return len(a0)
            if isinstance(a0, Arr):
                return a0.shape[0]
            if isinstance(a0, Batch):
                return sym("B") if a0.sel is None and not isinstance(a0.row, bool) else self.some(a0)
            return Sym("len", key(a0))
        if n == "range":
            if all(isinstance(x, int) for x in args):
                return range(*args)
            return Sym("range", key(args), )
        if n == "enumerate":
            return [(i, v) for i, v in self.pairs(a0)]
        if n == "zip":
            return list(zip(*[self.each(x) for x in args]))
        if n == "isinstance":
            return Sym("isinstance", key(a0), key(args[1]))
        if n in ("min", "max") and all(isinstance(x, (int, float)) for x in args) and args:
            return {"min": min, "max": max}[n](args)
        if n == "reversed" and self.seq(a0) is not None:
            return list(reversed(self.seq(a0)))
        if n == "sorted" and self.seq(a0) is not None and all(isinstance(x, (int, str)) for x in a0):
            return sorted(a0)
        if n in ("any", "all") and self.seq(a0) is not None:
            for x in a0:
                if self.it.truth(x) == (n == "any"):
                    return n == "any"
            return n == "all"
        if n == "str":
            return a0 if isinstance(a0, str) else Sym("str", key(a0))
        if n in ("dataclasses.replace", "copy.replace", "copy.copy", "copy.deepcopy") and isinstance(a0, Obj):
            o = Obj(a0.cls)
            o.at.update({k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in a0.at.items()})
            o.at.update(kw)
            return o
        if s in ("any", "all", "sum") and h[0] in ("torch", "numpy", s) and isinstance(a0, (list, tuple)) and all(isinstance(x, (bool, int)) for x in a0):
            return {"any": any, "all": all, "sum": sum}[s](a0)
        if h[0] in ("numpy", "torch"):
            return self.np(s, args, kw)
        return Sym("call", n, key(args), key(kw))

    def pairs(self, v):
        s = self.each(v)
        return list(enumerate(s)) if all(not (isinstance(x, tuple) and x and x[0] == "indexed") for x in s) else [(x[1], x[2]) for x in s]

    def method(self, o, m, args, kw):
        a0 = args[0] if args else None
        if isinstance(o, dict):
            if m == "get":
                return o[a0] if a0 in o else (args[1] if len(args) > 1 else kw.get("default"))
            if m == "pop":
                if a0 in o:
                    return o.pop(a0)
                if len(args) > 1:
                    return args[1]
                raise Raised()
            if m == "items":
                return list(o.items())
            if m == "keys":
                return list(o)
            if m == "values":
                return list(o.values())
            if m == "copy":
                return dict(o)
            if m == "update":
                if isinstance(a0, dict):
                    o.update(a0)
                elif a0 is not None:
                    raise Unknown("update")
                o.update(kw)
                return None
            if m == "setdefault":
                return o.setdefault(a0, args[1] if len(args) > 1 else None)
            if m == "clear":
                o.clear()
                return None
        if isinstance(o, list):
            if m in ("add", "update") and (m == "add" or self.seq(a0) is not None or isinstance(a0, dict)):       # a set
                o.extend(x for x in ([a0] if m == "add" else list(a0)) if x not in o)
                return None
            if m == "append":
                o.append(a0)
                return None
            if m == "extend" and self.seq(a0) is not None:
                o.extend(a0)
                return None
            if m == "index":
                for i, x in enumerate(o):
                    if self.it.truth(self.compare(ast.Eq(), x, a0)):
                        return i
                raise Raised()
        if isinstance(o, (int, Lin)) and m in ("item", "to", "detach", "clone", "cpu", "float", "double"):
            return o
        if isinstance(o, list) and m == "tolist":
            return o
        if isinstance(o, list) and m in ("any", "all", "sum") and not args and all(isinstance(x, (bool, int)) for x in o):
            return {"any": any, "all": all, "sum": sum}[m](o)
        if isinstance(o, list) and m in ("to", "cpu", "bool", "int", "long", "detach", "flatten"):
            return o
        if isinstance(o, (bool, int)) and m in ("item", "any", "all", "bool", "int"):
            return o
        if isinstance(o, float) and m in ("item", "reshape", "flatten", "squeeze"):
            return o
        if isinstance(o, str):
            if m == "join":
                return Sym("join", o, key(a0))
            if m in ("lower", "strip", "upper") and not args:
                return getattr(o, m)()
            if m in ("split", "startswith", "endswith", "removeprefix", "removesuffix", "partition", "rpartition") and all(isinstance(x, (str, int)) for x in args):
                return getattr(o, m)(*args)
        if isinstance(o, (Arr, Batch)):
            if m in ("copy", "astype", "reshape", "flatten", "ravel", "transpose", "swapaxes", "take", "any", "all", "item", "tolist", "view", "contiguous", "nonzero", "squeeze", "sum", "flip"):
                if m == "reshape" and len(args) > 1:
                    args = [tuple(args)]
                if m == "reshape" and len(args) == 1 and isinstance(args[0], (int, Lin)):
                    args = [(args[0],)]
                return self.np(m, [o] + args, kw)
        return Sym("mcall", key(o), m, key(args), key(kw))

    def np(self, s, args, kw):
        a0 = args[0] if args else None
        ax = kw.get("axis", kw.get("axes"))
        if isinstance(a0, Batch):
            return self.np_batch(s, a0, args, kw)
        if s == "arange" and isinstance(a0, (int, Lin, Sym)):
            return Perm(a0)
        if s in ("concatenate", "hstack", "append", "cat") and isinstance(a0, (list, tuple)):
            if a0 and all(isinstance(x, Batch) for x in a0) and len({x.sel for x in a0}) == 1:
                k = args[1] if len(args) > 1 else ax if ax is not None else kw.get("dim", 1 if s == "hstack" else 0)
                r = self.concat([x.row for x in a0], k - 1 if isinstance(k, int) and k > 0 else k)
                return a0[0].lift(r, own=True) if k != 0 else Sym("concat", key(a0))
            return self.concat(list(a0), args[1] if len(args) > 1 else ax or kw.get("dim", 0))
        if s == "append" and len(args) >= 2:
            return self.concat([a0, args[1]], ax or 0)
        if s == "prod":
            q = self.seq(a0)
            if q and all(isinstance(x, (int, Lin)) for x in q):
                r = q[0]
                for x in q[1:]:
                    r = product(r, x)
                return r
            return Sym("prod", key(a0))
        if isinstance(a0, float) and s in ("asarray", "array", "reshape", "squeeze"):
            return a0
        if isinstance(a0, Perm):
            return a0 if s in ALIAS | {"astype"} else Sym("np", s, "perm")
        if not isinstance(a0, Arr):
            if s in ("asarray", "array", "ascontiguousarray"):
                return a0
            return Sym("np", s, key(args), key(kw))
        if s in ALIAS:
            return a0
        if s in COPY or s == "astype":
            return a0.dup(own=s != "astype" or a0.own or kw.get("copy", True) is not False) if kw.get("copy", True) is not False or s == "astype" else a0
        if s in ("flip", "fliplr", "flipud"):
            ax = args[1] if len(args) > 1 else kw.get("axis", kw.get("dims"))
            if s != "flip":
                ax = 0 if s == "flipud" else 1
            axs = range(len(a0.shape)) if ax is None else ax if isinstance(ax, (tuple, list)) else [ax]
            for x in axs:
                a0 = a0.op("flip", x % len(a0.shape), own=a0.own)
            return a0
        if s == "take":
            idx = args[1] if len(args) > 1 else kw.get("indices")
            ax = args[2] if len(args) > 2 else ax
            if isinstance(idx, (list, tuple)) and isinstance(ax, int):
                t = (slice(None),) * (ax % len(a0.shape)) + (list(idx),)
                return self.arr_get(a0, t)
            if isinstance(idx, Perm):
                return self.arr_get(a0, (slice(None),) * ((ax or 0) % len(a0.shape)) + (idx,))
        if s == "swapaxes" and all(isinstance(x, int) for x in args[1:3]):
            n = len(a0.shape)
            i, j = args[1] % n, args[2] % n
            sh = list(a0.shape)
            sh[i], sh[j] = sh[j], sh[i]
            return a0.op("swap", min(i, j), max(i, j), shape=sh, own=a0.own)
        if s == "transpose":
            n = len(a0.shape)
            p = args[1] if len(args) > 1 and isinstance(args[1], (tuple, list)) else args[1:] or ax or range(n - 1, -1, -1)
            p = [x % n for x in p]
            moved = [i for i in range(n) if p[i] != i]
            if not moved:
                return a0
            if len(moved) == 2:
                return self.np("swapaxes", [a0] + moved, {})
        if s == "rot90":
            k = args[1] if len(args) > 1 else kw.get("k", 1)
            axes = args[2] if len(args) > 2 else kw.get("axes", (0, 1))
            n = len(a0.shape)
            i, j = (x % n for x in axes)
            k %= 4
            if k == 0:
                return a0
            if k == 2:
                return self.np("flip", [a0, (i, j)], {})
            b = self.np("swapaxes", [self.np("flip", [a0, j], {}), i, j], {}) if k == 1 else self.np("flip", [self.np("swapaxes", [a0, i, j], {}), j], {})
            return b
        if s in ("reshape", "flatten", "ravel"):
            sh = args[1] if len(args) > 1 and s == "reshape" else kw.get("shape", (-1,)) if s == "reshape" else (-1,)
            sh = self.seq(sh) if not isinstance(sh, (int, Lin)) else [sh]
            if sh is None:
                return Sym("np", s, key(args))
            if tuple(sh) == a0.shape:
                return a0
            flat = len(sh) == 1
            if flat and len(a0.shape) == 1:
                return a0
            return a0.op("flat" if flat else "grid", *(() if flat else (tuple(repr(x) for x in sh),)), shape=[self.np("prod", [a0.shape], {})] if flat else sh, own=a0.own)
        if s == "pad":
            w = args[1] if len(args) > 1 else kw.get("pad_width")
            mode = args[2] if len(args) > 2 else kw.get("mode", "constant")
            cv = kw.get("constant_values", 0)
            w = self.seq(w)
            if w is not None and all(isinstance(x, tuple) and len(x) == 2 for x in w) and len(w) == len(a0.shape):
                if all(x == (0, 0) for x in w):
                    return a0
                sh = [self.binop(ast.Add(), self.binop(ast.Add(), d, x[0]), x[1]) for d, x in zip(a0.shape, w)]
                return a0.op("pad", tuple((repr(x), repr(y)) for x, y in w[-2:]), mode, repr(cv) if not isinstance(cv, (int, float)) else float(cv), all(x == (0, 0) for x in w[:-2]), shape=sh)
        if s in ("empty_like", "zeros_like"):
            return Arr("nothing", a0.shape, (), True)
        if s in ("squeeze", "view", "contiguous"):
            return a0
        return Sym("np", s, key(args), key(kw))

    def concat(self, xs, ax):
        """board cells and pass column of a policy put back together"""
        if len(xs) == 2 and all(isinstance(x, Arr) for x in xs):
            a, b = xs
            if a.field == b.field and b.ops and b.ops[-1] == ("cut", 0, (-1, None, None)) and a.ops and len(a.shape) == 1:
                n = self.binop(ast.Add(), a.shape[0], 1)
                return Arr(a.field, (n,), a.ops + (("join", b.ops[:-1]),), True)
        return Sym("concat", key(xs), key(ax))

    def np_batch(self, s, b, args, kw):
        r = b.row
        if s in ALIAS or s in COPY or s == "astype":
            if s in ALIAS or s in COPY and kw.get("copy", True) is False:
                return b
            return b.lift(r.dup() if isinstance(r, Arr) else r, own=True)
        if s in ("flatnonzero", "nonzero", "where", "argwhere") and len(args) == 1:
            return (b,) if s in ("nonzero", "where") else b
        if s in ("any", "all", "sum", "count_nonzero"):
            if isinstance(r, bool) and s == "any" and r:
                return True
            if isinstance(r, bool) and s == "all" and not r:
                return False
            return Sym(s, b.name) if s in ("any", "all") else self.some(b)
        if s in ("empty_like", "zeros_like"):
            return b.lift(Arr("nothing", r.shape if isinstance(r, Arr) else (), (), True), own=True)
        if s == "unique":
            return b
        if isinstance(r, Arr):
            if s in ("reshape", "flatten", "ravel"):
                sh = self.seq(args[1]) if len(args) > 1 else self.seq(kw.get("shape"))
                if sh is None or len(sh) < 2:
                    return Sym("np", s, key(args))
                return b.lift(self.np("reshape", [r, tuple(sh[1:])], {}))
            k2 = dict(kw)
            for q in ("axis", "axes", "dims"):
                if q in k2:
                    v = k2[q]
                    k2[q] = v if v is None else tuple(x - 1 if x > 0 else x for x in v) if isinstance(v, (tuple, list)) else v - 1 if v > 0 else v
            a2 = [r] + [x - 1 if isinstance(x, int) and x > 0 and s in ("flip", "swapaxes") else x for x in args[1:]]
            if s == "pad":
                return Sym("np", s, key(args))
            return b.lift(self.np(s, a2, k2), own=b.own)
        if s in ("reshape", "squeeze", "flatten", "ravel", "any"):
            return b
        return Sym("np", s, key(args))
