"""Rule-level vocabulary over Flow: returned terms, final attribute values, normal forms, must-facts."""
import ast
from .cfg import VarRef
from .flow import (Flow, alts, attrs_in, cmp_, contains, elem, has, item, keys_in, negate, phi, rewrite, show,
                   subscript, subterms)
from .project import AnchorError, Class, Func

COERCE = {"int", "float", "str", "bool", "tuple", "list", "bytes", "dict", "set", "frozenset", "iter", "sorted?",
          "memoryview", "bytearray", "deepcopy", "copy.deepcopy", "copy.copy", "numpy.asarray", "numpy.array",
          "numpy.ascontiguousarray", "collections.deque", "deque", "numpy.int64", "numpy.uint64"}


def within(*mods):
    """inline policy: functions of these modules (prefix match on module name)"""
    def pol(f, call, ctx):
        return any(f.module.name == m or f.module.name.startswith(m + ".") for m in mods)
    return pol


def retval(fl):
    return fl.term(fl.g.exit, VarRef(fl.g.rootret.retvar))


def returns(fl):
    """[(ret node, term)] of the root function"""
    out = []
    for n in fl.g.live:
        if n.kind == "ret" and n.ctx is fl.g.rootctx:
            out.append((n, fl.term(n, n.expr) if n.expr is not None else ("const", None)))
    return out


def calls(fl, pred=None, inlined=False):
    for n in fl.g.live:
        if n.kind == "call" and n.call is not None and (inlined or n.note != "inlined"):
            if pred is None or pred(fl.callee(n)):
                yield n


def method_calls(fl, name, inlined=True):
    return [n for n in calls(fl, lambda c: c and c[0] == "method" and c[1] == name, inlined)]


def global_calls(fl, *names, inlined=True):
    return [n for n in calls(fl, lambda c: c and c[0] == "global" and c[1] in names, inlined)]


def self_stores(fl, attr=None, base=("self",)):
    """[(node, attr, value tuple)] of plain attribute stores on base"""
    out = []
    for n, tgt, v, t, ctx in fl.stores():
        if tgt[0] == "attr" and tgt[1] == base and (attr is None or tgt[2] == attr):
            out.append((n, tgt[2], v))
    return out


MUTATE = {"append", "add", "appendleft", "extend", "extendleft", "update", "insert", "clear", "pop", "popleft",
          "remove", "discard", "setdefault", "sort", "reverse", "popitem", "restore", "load_state_dict", "fill"}


def attr_effects(fl, base=("self",)):
    """[(node, attr, kind, payload)] every mutation of state reachable from base: stores, item stores, mutators"""
    out = []

    def root(t):
        path = []
        while t[0] in ("attr", "key", "idx", "item", "elem", "elemval", "slice"):
            if t[0] == "attr" and t[1] == base:
                return t[2], path
            path.append(t)
            t = t[1]
        return None, path
    for n, tgt, v, t, ctx in fl.stores():
        if tgt[0] == "attr" and tgt[1] == base:
            out.append((n, tgt[2], "=", v))
        elif tgt[0] in ("sub", "attr"):
            a, _ = root(tgt[1])
            if a:
                out.append((n, a, "[]=", v))
    for n in fl.g.live:
        if n.kind == "call" and n.call is not None and isinstance(n.call.func, ast.Attribute) \
                and n.call.func.attr in MUTATE and n.note != "inlined":
            r = fl.recv(n)
            a, _ = root(r)
            if a:
                out.append((n, a, n.call.func.attr, n.call))
    return out


def last_values(fl, attr, base=("self",), at=None):
    """value terms that self.attr may hold on reaching the normal exit ('unset' if some path leaves it)"""
    st = [(n, v) for n, a, v in self_stores(fl, attr, base)]
    dst = at or fl.g.exit
    out = []
    allst = [n for n, _ in st]
    for n, v in st:
        if fl.find_path([n], [dst], avoid=[m for m in allst if m is not n], skip_labels=("exc", "excb")):
            out.append((n, fl.storeval(n, v)))
    unset = fl.find_path([fl.g.entry], [dst], avoid=allst, skip_labels=("exc", "excb")) is not None
    return out, unset


def is_state_call(t):
    return t[0] == "mcall" and t[2] in ("state", "state_dict") and not t[3]


def ctor_fields(P, t):
    """('call', ClassQual, args, kws) of a project dataclass -> {field: term} (None if not such)"""
    if t[0] != "call":
        return None
    k = P.lookup(t[1])
    if not isinstance(k, Class) or not k.is_dataclass:
        return None
    fs = list(k.fields())
    out = {}
    for i, a in enumerate(t[2]):
        if i < len(fs):
            out[fs[i]] = a
    for n, v in t[3]:
        out[n] = v
    return out


def norm(P, t, strip=True, _d=0):
    """bottom-up normal form: constructor projection, inverse coercions, eta-reduction of comprehensions."""
    if not isinstance(t, tuple) or not t:
        return t
    if not isinstance(t[0], str):
        return tuple(norm(P, x, strip, _d + 1) for x in t)
    if t[0] in ("const", "global", "param", "self"):
        return t
    k = t[0]
    t = tuple(norm(P, x, strip, _d + 1) if isinstance(x, tuple) else x for x in t)
    if k == "attr":
        b = t[1]
        f = ctor_fields(P, b)
        if f and t[2] in f:
            return f[t[2]]
        if b[0] == "call" and b[1] in ("dataclasses.replace", "replace") and b[2]:
            kw = dict(b[3])
            return kw[t[2]] if t[2] in kw else norm(P, ("attr", b[2][0], t[2]), strip, _d + 1)
        return t
    if k == "key":
        b = t[1]
        if b[0] == "dict":
            for kk, v in b[1:]:
                if kk == ("const", t[2]):
                    return v
        if b[0] in ("upd", "phi"):
            return subscript(b, ("const", t[2]))
        if b[0] == "call" and b[1] == "dict":
            kw = dict(b[3])
            if t[2] in kw:
                return kw[t[2]]
        return t
    if k == "upd":
        if t[1][0] in ("dict", "phi"):
            from .flow import override
            return override(t[1], dict(t[2]))
        return t
    if k == "mcall" and t[2] == "get" and t[3] and t[3][0][0] == "const":
        return norm(P, ("key", t[1], t[3][0][1]), strip, _d + 1)
    if k == "elem":
        return elem(t[1])
    if k == "item":
        return item(t[1], t[2])
    if k == "idx":
        return subscript(t[1], t[2])
    if k == "phi":
        return phi(list(t[1:]))
    if k == "call":
        if t[1] in ("bytes.fromhex", "binascii.unhexlify") and t[2]:
            a = t[2][0]
            if a[0] == "mcall" and a[2] == "hex":
                return a[1]
            return ("call", "bytes.fromhex", t[2][:1], ())
        if strip and t[1] in COERCE and len(t[2]) == 1:
            return t[2][0]
        if strip and t[1] in ("dataclasses.asdict",) and t[2]:
            return ("asdict", t[2][0])
        f = ctor_fields(P, t)
        if f:
            # C(**asdict(x)) and C(f=x.f, ...) are both x
            if t[3] and len(t[3]) == 1 and t[3][0][0] == "**" and not t[2]:
                x = t[3][0][1]
                if x[0] == "asdict":
                    return x[1]
            allf = set(P.lookup(t[1]).fields())
            bases = {v[1] for n, v in f.items() if v[0] == "attr" and v[2] == n}
            if set(f) == allf and len(bases) == 1 and all(v[0] == "attr" and v[2] == n for n, v in f.items()):
                return bases.pop()
        return t
    if k == "mcall":
        if t[2] == "hex" and t[1][0] == "call" and t[1][1] == "bytes.fromhex":
            return t[1][2][0]
        if strip and t[2] in ("copy", "tolist", "tobytes?") and not t[3]:
            return t[1]
        return t
    if k == "seq" and len(t) == 2 and t[1][0] == "star" and strip:
        return t[1][1]
    if k == "seq" and strip and len(t) > 1 and all(x[0] == "item" and x[2] == i for i, x in enumerate(t[1:])) \
            and len({x[1] for x in t[1:]}) == 1:
        return t[1][1]
    if k == "comp":
        if t[3] and t[3][-1][0] == "comp" and t[3][-1][1] != "dict" and len(t[3][-1]) == 5:
            inner = t[3][-1]
            return norm(P, ("comp", t[1], t[2], t[3][:-1] + inner[3], inner[4] + t[4]), strip, _d + 1)
        if len(t[3]) == 1 and t[3][0][0] == "call" and t[3][0][1] == "enumerate" and t[3][0][2] and not has(t[2], lambda x: x[0] == "index"):
            return norm(P, ("comp", t[1], t[2], t[3][0][2][:1], t[4]), strip, _d + 1)
        if len(t[3]) == 1:
            it = t[3][0]
            e = elem(it)
            if it[0] == "call" and it[1] == "zip" and not t[4] and t[1] in ("list", "gen"):
                for x in it[2]:
                    if t[2] == elem(x):
                        return x
            if not t[4] and t[2] == e and t[1] in ("list", "gen"):
                return it
            if t[1] == "dict" and t[2][0] == "pair" and ("seq",) + t[2][1:] == e:
                return it[1] if it[0] == "mcall" else it
        return t
    if k == "cmp":
        return cmp_(t[1], t[2], t[3])
    return t


def subst(P, t, mapping):
    """replace subterms by mapping(term)->term|None top-down, then normalise"""
    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if isinstance(x[0], str):
            r = mapping(x)
            if r is not None:
                return r
        return tuple(go(y) if isinstance(y, tuple) else y for y in x)
    return norm(P, go(t))


def fact_at(fl, node):
    return fl.facts().get(node.id, frozenset())


def exit_guard(fl, pred, dsts=None, srcs=None):
    """No feasible path from entry to dsts (default normal exit) along which pred-edges are absent:
    pred(node, label) marks an edge on which the guard is known to hold."""
    def avoid(n, s, l):
        return n.kind == "cond" and l in ("T", "F") and pred(n, l)
    return fl.find_path(srcs or [fl.g.entry], dsts or [fl.g.exit], avoid_edge=avoid, skip_labels=("exc", "excb"))


def holds_before(fl, node, match):
    """some must-fact at node satisfies match(term)"""
    return any(match(a) for a in fact_at(fl, node))


def where(n):
    return n.where()


def path_str(path, limit=14):
    lines = []
    for n in path or []:
        if n.kind in ("cond", "call", "assign", "ret", "raise", "handler", "for") and n.line:
            s = f"{n.ctx.func.name}:{n.line}"
            if not lines or lines[-1] != s:
                lines.append(s)
    if len(lines) > limit:
        lines = lines[: limit // 2] + ["…"] + lines[-limit // 2:]
    return " → ".join(lines)
