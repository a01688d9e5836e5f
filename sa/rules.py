"""Path-rule helpers shared by the checks."""
import ast
from .flow import alts, contains, has, show, subterms
from .lib import calls, norm, path_str

NORMAL = ("exc", "excb")


def edges(fl, pred):
    """avoid_edge predicate: edges on which some implied atom satisfies pred(atom)"""
    memo = {}

    def f(n, s, l):
        if n.kind != "cond" or l not in ("T", "F"):
            return False
        k = (n.id, l)
        if k not in memo:
            memo[k] = any(pred(a) for a, _ in fl.edge_atoms(n, l))
        return memo[k]
    return f


def either(*preds):
    return lambda n, s, l: any(p(n, s, l) for p in preds)


def must_pass(fl, srcs, dsts, via, edge=None, exc=False, **kw):
    """None if every (normal) path srcs->dsts passes via or an `edge`; otherwise the offending path"""
    skip = ("excb",) if exc else NORMAL
    return fl.find_path(srcs, dsts, avoid=via, avoid_edge=edge, skip_labels=kw.pop("skip_labels", skip), **kw)


def truthy(pred):
    """atom asserts truthiness of a term satisfying pred (x, x is not None, len(x)>0, x != [] ...)"""
    def f(a):
        if pred(a):
            return True
        if a[0] == "cmp" and a[1] in ("is not", "!=", ">", ">=", "<", "<=") and any(pred(x) for x in a[2:4]):
            other = [x for x in a[2:4] if not pred(x)]
            return bool(other) and other[0][0] in ("const", "seq", "dict")
        return False
    return f


def falsy(pred):
    """atom asserts falsiness: not x, x is None, x == 0, len(x)==0"""
    def lenof(x):
        return pred(x) or (x[0] == "call" and x[1] in ("len", "bool") and x[2] and pred(x[2][0]))

    def f(a):
        if a[0] == "not":
            return lenof(a[1])
        if a[0] == "cmp" and a[1] in ("is", "==") and any(lenof(x) for x in a[2:4]):
            other = [x for x in a[2:4] if not lenof(x)]
            return bool(other) and (other[0] in (("const", None), ("const", 0), ("const", False)) or other[0] in (("seq",), ("dict",)))
        return False
    return f


def attr_is(name, base=("self",)):
    return lambda t: t == ("attr", base, name)


def ends(name):
    return lambda t: t[0] in ("attr", "key") and t[2] == name


def mentions(name):
    return lambda t: has(t, lambda x: x[0] in ("attr", "key") and x[2] == name)


def method(fl, *names, recv=None):
    out = []
    for n in calls(fl, lambda c: c and c[0] == "method" and c[1] in names, True):
        if recv is None or recv(fl.recv(n)):
            out.append(n)
    return out


def stores_to(fl, pred):
    """[(node, target, valueterm)] of plain attribute stores whose target term satisfies pred"""
    return [(n, tgt, fl.storeval(n, v)) for n, tgt, v, t, c in fl.stores() if tgt[0] == "attr" and pred(tgt)]


def stores_of(fl, attr, base=("self",)):
    return [n for n, tgt, *_ in fl.stores() if tgt[0] == "attr" and tgt[1] == base and tgt[2] == attr]


def read_at_entry(fl, node, expr, attr):
    """None if every read of self.attr in expr happens before any store to it, else the offending path"""
    st = stores_of(fl, attr)
    for n, t in fl.reads(node, expr):
        if t == ("attr", ("self",), attr):
            p = fl.find_path(st, [n], skip_labels=NORMAL)
            if p is not None:
                return p
    return None


def read_final(fl, node, expr, attr):
    """None if no store to self.attr follows its reads in expr"""
    st = stores_of(fl, attr)
    for n, t in fl.reads(node, expr):
        if t == ("attr", ("self",), attr):
            p = fl.find_path([n], [x for x in st if x is not n], skip_labels=NORMAL)
            if p is not None:
                return p
    return None


def assigned(fl):
    """[(node, term)] of every value bound to a variable (including arms of conditional expressions)"""
    out = []
    for n in fl.g.live:
        for d in n.defs:
            v = d[1] if isinstance(d, tuple) and len(d) > 1 else None
            if isinstance(v, tuple) and v:
                try:
                    out.append((n, fl.storeval(n, v)))
                except Exception:
                    continue
    return out


def argval(fl, n, i, kw, default=None):
    t = fl.arg(n, i, kw)
    return default if t is None else t


def w(x):
    return x[0].where() if x else ""


# -- loops ------------------------------------------------------------------
def whole(t, pred):
    """iterating t visits every element of a sequence satisfying pred, in order, once.
    Returns how an element is addressed: 'elem' | 'enum' | 'index' | ('zip', i) | 'items' | 'values' or None"""
    if pred(t):
        return "elem"
    if t[0] == "call" and not t[3]:
        if t[1] in ("list", "tuple", "iter") and len(t[2]) == 1:
            return whole(t[2][0], pred)
        if t[1] == "enumerate" and len(t[2]) == 1 and whole(t[2][0], pred):
            return "enum"
        if t[1] == "range" and len(t[2]) == 1 and t[2][0][0] == "call" and t[2][0][1] == "len" and pred(t[2][0][2][0]):
            return "index"
        if t[1] == "zip":
            for i, x in enumerate(t[2]):
                if whole(x, pred):
                    return ("zip", i)
    if t[0] == "call" and t[1] == "zip" and t[3] and t[3] == (("strict", ("const", True)),):
        for i, x in enumerate(t[2]):
            if whole(x, pred):
                return ("zip", i)
    if t[0] == "mcall" and t[2] in ("items", "values") and not t[3] and pred(t[1]):
        return t[2]
    return None


def inner_loop(fl, n):
    ls = fl.loops_of(n)
    return ls[-1] if ls else None


def every_round(fl, head, via, edge=None, exc=False):
    """None if each round of the loop at head passes one of via (or an `edge`) before the next round / leaving it"""
    body = fl.loop_body(head)
    out = [m for m in fl.g.live if m.id not in body and any(p.id in body or p.id == head.id for p, _ in m.pred) and m.id != head.id
           and m.kind not in ("raise", "raise_exit")]
    return fl.find_path([head], [head] + out + [fl.g.exit], src_labels=("it",), avoid=via, avoid_edge=edge,
                        skip_labels=("excb",) if exc else NORMAL)


def exhausts(fl, head):
    """None if the loop at head is left normally only when it is exhausted"""
    body = fl.loop_body(head)
    for n in fl.g.live:
        if n.id in body:
            for x, l in n.succ:
                if l not in NORMAL and x.id not in body and x.id != head.id and x.kind not in ("raise", "raise_exit") and not _fails(fl, x):
                    return [n, x]
    return None


def _fails(fl, n):
    """no normal path from n to the function's exit"""
    return fl.find_path([n], [fl.g.exit], skip_labels=NORMAL) is None and n is not fl.g.exit


def once_per_round(fl, head, n):
    """None if n cannot be reached from itself without passing the loop head again"""
    return fl.find_path([n], [n], avoid=[head], skip_labels=NORMAL)


def covers_all(P, rep, fl, rule, what, nodes, pred, edge=None, want=1):
    """some node of `nodes` runs for every element of a sequence satisfying pred: (node, head) pairs that do"""
    good = []
    why = "no call found"
    for n in nodes:
        if n.note == "comp":
            good.append((n, None))
            continue
        for h in reversed(fl.loops_of(n)):
            it = fl.term(h, h.expr)
            if not whole(it, pred):
                why = f"loops over {show(it)[:90]}"
                continue
            p = every_round(fl, h, nodes, edge)
            if p is not None:
                why = "a round is skipped: " + path_str(p)
                continue
            q = once_per_round(fl, h, n)
            if q is not None:
                why = "runs twice in one round"
                continue
            r = must_pass(fl, [fl.g.entry], [fl.g.exit], [h]) if want == 1 else None
            if r is not None:
                why = "the loop can be bypassed: " + path_str(r)
                continue
            good.append((n, h))
            break
    rep.check(bool(good), rule, what, (nodes or [fl.g.entry])[0].where(), why)
    return good


# -- boolean functions --------------------------------------------------------
def canon(P, t):
    """(negated, atom) of a boolean term; x % k and x % k == 0 share one atom"""
    neg = False
    while True:
        if t[0] == "not":
            neg, t = not neg, t[1]
            continue
        if t[0] == "call" and t[1] == "bool" and len(t[2]) == 1:
            t = t[2][0]
            continue
        break
    if t[0] == "bin" and t[1] == "Mod":
        return (not neg, ("cmp", "==", t, ("const", 0)))
    if t[0] == "cmp":
        op, a, b = t[1], t[2], t[3]
        flip = {"!=": "==", "is not": "is", "not in": "in"}
        if op in flip:
            neg, op = not neg, flip[op]
        if op in (">", ">="):
            op, a, b = {">": "<", ">=": "<="}[op], b, a
        if op == "<=":
            neg, op, a, b = not neg, "<", b, a
        if op in ("==", "is") and a[0] == "const" and b[0] != "const" or op in ("==", "is") and (a[0] == "const") == (b[0] == "const") and repr(a) > repr(b):
            a, b = b, a
        t = ("cmp", op, a, b)
    return (neg, t)


class _Need(Exception):
    pass


def _evterm(P, t, asg):
    def ev_term(t, asg):
        t0 = t[0]
        if t0 == "not":
            return not ev_term(t[1], asg)
        if t0 == "and":
            return all(ev_term(x, asg) for x in t[1:])
        if t0 == "or":
            return any(ev_term(x, asg) for x in t[1:])
        if t0 == "const":
            return bool(t[1])
        if t0 == "call" and t[1] in ("any", "all") and len(t[2]) == 1:
            x = t[2][0]
            f = any if t[1] == "any" else all
            if x[0] in ("seq", "set") and not any(y[0] == "star" for y in x[1:]):
                return f(ev_term(y, asg) for y in x[1:])
            if x[0] == "comp" and len(x[3]) == 1 and x[3][0][0] in ("seq", "set"):
                from .lib import subst
                out = []
                for y in x[3][0][1:]:
                    m = lambda z, y=y: y if z == ("elem", x[3][0]) else None
                    if all(ev_term(subst(P, c, m), asg) for c in x[4]):
                        out.append(ev_term(subst(P, x[2], m), asg))
                return f(out)
        if t0 == "call" and t[1] == "bool" and len(t[2]) == 1:
            return ev_term(t[2][0], asg)
        neg, a = canon(P, t)
        if a[0] == "const":
            return bool(a[1]) != neg
        if a[0] == "cmp" and a[2][0] == "const" and a[3][0] == "const" and a[1] in ("==", "is"):
            return (a[2] == a[3]) != neg
        if a not in asg:
            raise _Need(a)
        return asg[a] != neg
    return ev_term(t, asg)


def termtable(P, t, limit=20000):
    """decision table of a boolean term"""
    rows, st = [], [{}]
    while st and len(rows) < limit:
        asg = st.pop()
        try:
            rows.append((asg, _evterm(P, t, asg)))
        except _Need as x:
            for b in (True, False):
                st.append({**asg, x.args[0]: b})
    return rows


def booltable(fl, P, starts=None, stops=None, limit=20000, skip_loops=False, marks=None):
    """Decision table of a predicate: [({atom: bool}, outcome)] over all (loop-free, or literal-loop) paths.
    outcome: the truth value of what is returned, or the stop node reached (stops: {node: label})."""
    import ast as A
    stops = stops or {}
    rows = []

    def ev_term(t, asg):
        return _evterm(P, t, asg)

    def ev(node, e, ctx, env, asg, loops):
        if isinstance(e, A.Constant):
            return bool(e.value)
        if isinstance(e, A.UnaryOp) and isinstance(e.op, A.Not):
            return not ev(node, e.operand, ctx, env, asg, loops)
        if isinstance(e, A.BoolOp):
            f = all if isinstance(e.op, A.And) else any
            return f(ev(node, x, ctx, env, asg, loops) for x in e.values)
        k = None
        if e.__class__.__name__ == "VarRef":
            k = e.key
        elif (ctx.id, id(e)) in fl.g.subst:
            k = fl.g.subst[(ctx.id, id(e))]
        elif isinstance(e, A.Name):
            k = fl.g.varkey(e.id, ctx)
        if k is not None and k in env:
            dn, v, env2 = env[k]
            if v[0] == "expr":
                return ev(dn, v[1], v[2], env2, asg, loops)
        t = norm(P, fl.term(node, e, ctx))
        if loops:
            from .lib import subst
            t = subst(P, t, lambda z: loops.get(z))
        return ev_term(t, asg)

    def walk(asg):
        seen = set()
        r = walk1(asg, seen)
        return r if marks is None else (r, frozenset(seen))

    def walk1(asg, seen):
        n, env, loops, pos = (starts or [fl.g.entry])[0], {}, {}, {}
        for _ in range(5000):
            if marks and n in marks:
                seen.add(marks[n])
            if n in stops:
                return stops[n]
            if n.kind == "ret" and n.ctx is fl.g.rootctx and not stops:
                return ev(n, n.expr, n.ctx, env, asg, loops) if n.expr is not None else False
            if n is fl.g.exit:
                return None
            for k, v in n.defs:
                if isinstance(v, tuple):
                    env = dict(env)
                    env[k] = (n, v, env)
            sk = [(s, l) for s, l in n.succ if l not in NORMAL]
            if n.kind == "cond":
                b = ev(n, n.expr, n.ctx, env, asg, loops)
                sk = [(s, l) for s, l in sk if l == ("T" if b else "F")]
            elif n.kind == "for":
                t = norm(P, fl.term(n, n.expr))
                if t[0] not in ("seq", "set"):
                    if not skip_loops:
                        return "loop"
                    t = ("seq",)
                i = pos.get(n.id, 0)
                if i < len(t) - 1:
                    pos[n.id] = i + 1
                    loops = dict(loops)
                    loops[("elem", t)] = t[1 + i]
                    sk = [(s, l) for s, l in sk if l == "it"]
                else:
                    pos[n.id] = 0
                    sk = [(s, l) for s, l in sk if l == "done"]
            if not sk:
                return "raise"
            n = sk[0][0]
        return "loop"

    st = [{}]
    while st and len(rows) < limit:
        asg = st.pop()
        try:
            rows.append((asg, walk(asg)))
        except _Need as x:
            for b in (True, False):
                st.append({**asg, x.args[0]: b})
    return rows


def decides(rows, atoms, spec):
    """None if every row agrees with spec(values of atoms); else the first disagreement"""
    import itertools
    if not rows:
        return "no path"
    for asg, out in rows:
        free = [a for a in atoms if a not in asg]
        for vs in itertools.product((False, True), repeat=len(free)):
            full = {**{a: asg[a] for a in atoms if a in asg}, **dict(zip(free, vs))}
            want = spec(*[full[a] for a in atoms])
            if want is not None and want != out:
                return "; ".join(f"{show(a)}={v}" for a, v in full.items()) + f" gives {out}, not {want}"
    return None


_BASE = {}


def known(f):
    """f is a function of the tree the checks were written against (others are helpers extracted since, to be inlined)"""
    import json
    import os
    if not _BASE:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline.json")
        _BASE.update({k: set(v) for k, v in json.load(open(p)).items()})
    return f.qual[len(f.module.name) + 1:] in _BASE.get(f.module.rel, ())


def helpers(*also, within=None):
    """inlining policy: helpers unknown to the baseline, and the named functions"""
    return lambda g, c, x: g.name in also or not known(g) and (within is None or within(g))
