"""Evaluate a condition's term in a partial assignment of term classes to values; find paths consistent with it."""
import math
import operator as op

U = object()  # unknown


class V:
    """a value of known type (names, most specific first) and possibly known content"""

    def __init__(self, *types, val=U):
        self.types, self.val = types, val


TYPES = {bool: ("bool", "int"), int: ("int",), float: ("float",), str: ("str",), type(None): ("NoneType",), tuple: ("tuple",), list: ("list",), dict: ("dict",), bytes: ("bytes",)}
CMP = {"==": op.eq, "!=": op.ne, "<": op.lt, "<=": op.le, ">": op.gt, ">=": op.ge}
BIN = {"Add": op.add, "Sub": op.sub, "Mult": op.mul, "FloorDiv": op.floordiv, "Div": op.truediv, "Mod": op.mod, "Pow": op.pow, "LShift": op.lshift, "RShift": op.rshift,
       "BitAnd": op.and_, "BitOr": op.or_, "BitXor": op.xor}
FN = {"max": max, "min": min, "abs": abs, "int": int, "float": float, "bool": bool, "len": len, "math.isfinite": math.isfinite, "sum": sum, "str": str, "operator.index": op.index,
      "math.floor": math.floor, "math.ceil": math.ceil, "round": round}


def types_of(v):
    if isinstance(v, V):
        return v.types
    return TYPES.get(type(v))


def content(v):
    return v.val if isinstance(v, V) else v


def classes(t):
    """names of the classes a class term denotes, or None"""
    if t[0] in ("seq", "set"):
        out = []
        for x in t[1:]:
            c = classes(x)
            if c is None:
                return None
            out += c
        return out
    if t[0] == "global":
        return [t[1].split(".")[-1]]
    if t[0] == "attr":
        return [t[2]]
    if t[0] == "var" or t[0] == "builtin":
        return [t[-1]]
    if t[0] == "const" and isinstance(t[1], type):
        return [t[1].__name__]
    if t[0] == "call" and t[1] == "type" and t[2] == (("const", None),):
        return ["NoneType"]
    return None


def ev(t, env, d=0):
    """value of term t where env(term) gives known values (U: not known)"""
    if d > 40 or not isinstance(t, tuple) or not t:
        return U
    v = env(t)
    if v is not U:
        return v
    k = t[0]
    r = lambda x: ev(x, env, d + 1)
    if k == "const":
        return t[1]
    if k in ("seq", "list", "tuple"):
        xs = [content(r(x)) for x in t[1:]]
        return U if any(x is U for x in xs) else tuple(xs)
    if k == "set":
        xs = [content(r(x)) for x in t[1:]]
        return U if any(x is U for x in xs) else frozenset(xs)
    if k == "not":
        b = truth(r(t[1]))
        return U if b is U else not b
    if k in ("and", "or"):
        bs = [truth(r(x)) for x in t[1:]]
        stop = k == "or"
        if any(b is stop for b in bs):
            return stop
        return U if any(b is U for b in bs) else not stop
    if k == "phi":
        xs = [r(x) for x in t[1:]]
        x0 = content(xs[0])
        return xs[0] if x0 is not U and all(content(x) is not U and type(content(x)) is type(x0) and content(x) == x0 for x in xs) else U
    if k == "un":
        x = content(r(t[2]))
        if x is U:
            return U
        try:
            return {"USub": op.neg, "UAdd": op.pos, "Invert": op.invert, "Not": op.not_}[t[1]](x)
        except Exception:
            return U
    if k == "bin" and t[1] in BIN:
        a, b = content(r(t[2])), content(r(t[3]))
        if a is U or b is U:
            return U
        try:
            return BIN[t[1]](a, b)
        except Exception:
            return U
    if k == "cmp":
        pos = {"not in": "in", "is not": "is", "!=": "=="}.get(t[1])
        if pos:
            b = truth(env(("cmp", pos, t[2], t[3])))
            if b is not U:
                return not b
        return cmpv(t[1], t[2], t[3], env, d)
    if k == "call" and t[1] == "isinstance" and len(t[2]) == 2:
        ty, cs = types_of(r(t[2][0])), classes(t[2][1])
        if ty is None or cs is None:
            return U
        return any(c in ty for c in cs)
    if k == "call" and t[1] in ("any", "all") and len(t[2]) == 1 and t[2][0][0] == "seq":
        bs = [truth(r(x)) for x in t[2][0][1:]]
        stop = t[1] == "any"
        if any(b is stop for b in bs):
            return stop
        return U if any(b is U for b in bs) else not stop
    if k == "call" and t[1] in FN and not t[3]:
        xs = [content(r(x)) for x in t[2]]
        if any(x is U for x in xs):
            return U
        try:
            return FN[t[1]](*xs)
        except Exception:
            return U
    return U


def truth(v):
    v = content(v)
    return U if v is U else bool(v)


def cmpv(o, a, b, env, d):
    r = lambda x: ev(x, env, d + 1)
    # type(x) is C / in (C, D)
    for x, y in ((a, b), (b, a)):
        if x[0] == "call" and x[1] == "type" and len(x[2]) == 1 and o in ("is", "is not", "==", "!=", "in", "not in"):
            ty, cs = types_of(r(x[2][0])), classes(y)
            if o in ("in", "not in") and y[0] not in ("seq", "set"):
                continue
            if ty is not None and cs is not None:
                return (ty[0] in cs) == (o in ("is", "==", "in"))
    va, vb = r(a), r(b)
    if o in ("is", "is not"):
        for x, y in ((va, vb), (vb, va)):
            if content(y) is None and x is not U:
                return (("NoneType" in types_of(x)) if types_of(x) else False) == (o == "is")
        if content(va) is not U and content(vb) is not U and isinstance(content(va), bool) and isinstance(content(vb), bool):
            return (content(va) == content(vb)) == (o == "is")
        return U
    va, vb = content(va), content(vb)
    if va is U or vb is U:
        return U
    try:
        if o in CMP:
            return bool(CMP[o](va, vb))
        if o == "in":
            return va in vb
        if o == "not in":
            return va not in vb
    except Exception:
        pass
    return U


def world(*pairs):
    """env from (predicate or term, value) pairs"""
    ps = [((lambda t, p=p: t == p) if isinstance(p, tuple) else p, v) for p, v in pairs]

    def env(t):
        for p, v in ps:
            if p(t):
                return v
        return U
    return env


def refuted(fl, env, norm=None):
    """edge predicate: edges a run in this world cannot take"""
    memo = {}

    def f(n, s, l):
        if n.kind != "cond" or l not in ("T", "F") or n.expr is None:
            return False
        if n.id not in memo:
            t = fl.term(n, n.expr)
            memo[n.id] = truth(ev(norm(t) if norm else t, env))
        b = memo[n.id]
        return b is not U and b != (l == "T")
    return f
