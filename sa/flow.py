"""Dataflow over inlined CFGs: reaching definitions -> provenance terms, must-facts, path queries."""
import ast
from .project import Class, Func, Module, dotted
from .cfg import Graph, VarRef

CMP = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is",
       "IsNot": "is not", "In": "in", "NotIn": "not in"}
NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">", "is": "is not", "is not": "is",
       "in": "not in", "not in": "in"}
SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<=", "is": "is", "is not": "is not"}
MAXD = 40


MUTATORS = {"append", "add", "appendleft", "extend", "update", "insert"}


def _is_fresh_container(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set)):
        return True
    if not isinstance(e, ast.Call) or e.keywords:
        return False
    k = (dotted(e.func) or "").split(".")[-1]
    return k in ("list", "set", "deque") or (k in ("dict", "OrderedDict") and not e.args) or k == "defaultdict"


def _group_key(e):
    """d.setdefault(k, []) or d[k] of a named mapping: (name node, key node)"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "setdefault" and isinstance(e.func.value, ast.Name) \
            and len(e.args) == 2 and isinstance(e.args[1], (ast.List, ast.Call, ast.Set)):
        return e.func.value, e.args[0]
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and not isinstance(e.slice, (ast.Slice, ast.Constant)):
        return e.value, e.slice
    return None, None


def key_of(t):
    return repr(t)


class Flow:
    def __init__(self, graph):
        self.g = graph
        self.defnodes = {}
        for n in graph.live:
            for k, v in n.defs:
                self.defnodes.setdefault(k, []).append(n)
        self._rd = {}
        self._term = {}
        self._facts = None

    # -- reaching definitions -------------------------------------------------
    def reaching(self, node, var):
        """[(def node, value)] reaching the *entry* of node."""
        k = (node.id, var)
        if k in self._rd:
            return self._rd[k]
        out, seen = [], set()
        if var in self.defnodes:
            st = list(node.pred)
            while st:
                p, l = st.pop()
                if (p.id, l == "exc") in seen:
                    continue
                seen.add((p.id, l == "exc"))
                hit = False
                if l not in ("exc", "excb"):
                    vals = [v for kk, v in p.defs if kk == var]
                    if vals:
                        out.append((p, vals[-1]))
                        hit = True
                if not hit:
                    st.extend(p.pred)
        out.sort(key=lambda x: x[0].id)
        self._rd[k] = out
        return out

    # -- terms ----------------------------------------------------------------
    def term(self, node, expr, ctx=None, _st=()):
        t, _ = self.termd(node, expr, ctx, _st)
        return t

    def termd(self, node, expr, ctx=None, _st=()):
        ctx = ctx or node.ctx
        mk = (node.id, ctx.id, id(expr)) if not isinstance(expr, VarRef) else (node.id, ctx.id, expr.key)
        if not _st and mk in self._term:
            return self._term[mk]
        deps = set()
        t = self._t(node, expr, ctx, _st, deps)
        r = (t, frozenset(deps))
        if not _st:
            self._term[mk] = r
        return r

    _reads = None

    def reads(self, node, expr, ctx=None):
        """[(node, attribute term)]: where each attribute occurring in the expression's term is actually read"""
        self._reads = []
        try:
            self._t(node, expr, ctx or node.ctx, ((node.id, "%reads"),), set())
            return self._reads
        finally:
            self._reads = None

    def _var(self, node, var, st, deps, name):
        if len(st) > MAXD:
            return ("deep", name)
        defs = self.reaching(node, var)
        if not defs:
            return ("undef", name)
        alts = []
        for d, v in defs:
            deps.add(d.id)
            if (d.id, var) in st:
                alts.append(("rec", name))
                continue
            st2 = st + ((d.id, var),)
            o = self._origin(d, var, v)
            if o is not None and o[0].id != d.id and node.id in self.reach(o[0]):
                od, ovar, ov = o
                if any(m[0].id != node.id for m in self._aliased(od, ovar)):
                    acc = self._accum(node, ovar, od, ov, st2, deps) if _is_fresh_container(ov[1]) \
                        else self._updated(node, ovar, od, ov, st2, deps)
                    if acc is not None:
                        deps.add(od.id)
                        alts.append(acc)
                        continue
            if v[0] == "expr" and isinstance(var[1], str) and var[1][0] != "%":
                acc = self._accum(node, var, d, v, st2, deps) if _is_fresh_container(v[1]) \
                    else self._updated(node, var, d, v, st2, deps)
                if acc is not None:
                    alts.append(acc)
                    continue
            alts.append(self._val(d, v, st2, deps))
        return phi(alts)

    # -- containers built by mutation: x = []; for y in it: x.append(f(y)) ------
    def _mutations(self, var):
        k = ("mut", var)
        if k not in self._rd:
            if ("muts",) not in self._rd:
                idx = {}
                for n in self.g.live:
                    if n.call is not None and n.note != "inlined" and isinstance(n.call.func, ast.Attribute) \
                            and isinstance(n.call.func.value, ast.Name) and n.call.func.attr in MUTATORS:
                        vk = self.g.varkey(n.call.func.value.id, n.ctx)
                        if vk:
                            idx.setdefault(vk, []).append((n, n.call.func.attr, n.call))
                    if n.call is not None and n.note != "inlined" and isinstance(n.call.func, ast.Attribute) \
                            and n.call.func.attr in ("append", "add", "appendleft") and len(n.call.args) == 1:
                        g, w = _group_key(n.call.func.value)
                        if g is not None:
                            vk = self.g.varkey(g.id, n.ctx)
                            if vk:
                                idx.setdefault(vk, []).append((n, "group", (w, n.call.args[0])))
                    for t, v, ctx in n.stores:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                            vk = self.g.varkey(t.value.id, ctx)
                            if vk:
                                idx.setdefault(vk, []).append((n, "[]=", (t, v, ctx)))
                self._rd[("muts",)] = idx
            self._rd[k] = self._rd[("muts",)].get(var, [])
        return self._rd[k]

    def _copy(self, d, v):
        """(node, var) of which v, evaluated at d, is a plain copy (through bindings, returns and tuple unpacking)"""
        if v[0] == "expr":
            e = v[1]
            if isinstance(e, VarRef):
                return (d, e.key)
            s = self.g.subst.get((v[2].id, id(e)))
            if s is not None:
                return (d, s)
            if isinstance(e, ast.Name):
                k = self.g.varkey(e.id, v[2])
                return (d, k) if k is not None else None
            return None
        if v[0] == "item" and isinstance(v[1], int):
            cur = (d, v[2])
            for _ in range(8):
                dd, vv = cur
                if vv[0] == "expr" and isinstance(vv[1], ast.Tuple) and 0 <= v[1] < len(vv[1].elts):
                    return self._copy(dd, ("expr", vv[1].elts[v[1]], vv[2]))
                c = self._copy(dd, vv) if vv[0] == "expr" else None
                if c is None:
                    return None
                r = self.reaching(*c)
                if len(r) != 1:
                    return None
                cur = r[0]
        return None

    def _origin(self, d, var, v):
        """(def node, var, value) of the fresh container that this definition copies, if it is one definite container"""
        k = ("org", d.id, var)
        if k not in self._rd:
            self._rd[k] = None
            cur = (d, var, v)
            for _ in range(24):
                dd, kk, vv = cur
                if vv[0] == "expr" and (_is_fresh_container(vv[1]) or isinstance(vv[1], ast.Call)) and self.g.subst.get((vv[2].id, id(vv[1]))) is None:
                    self._rd[k] = cur
                    break
                c = self._copy(dd, vv)
                if c is None:
                    break
                r = self.reaching(*c)
                if len(r) != 1:
                    break
                cur = (r[0][0], c[1], r[0][1])
        return self._rd[k]

    def _aliased(self, d, var):
        """mutations of the container created at (d, var), through any alias"""
        k = ("almut", d.id, var)
        if k not in self._rd:
            self._mutations(var)
            out = []
            for w, ms in self._rd[("muts",)].items():
                for m in ms:
                    for dd, vv in self.reaching(m[0], w):
                        if dd.id == d.id and w == var:
                            out.append(m)
                            break
                        o = self._origin(dd, w, vv)
                        if o is not None and o[0].id == d.id and o[1] == var:
                            out.append(m)
                            break
            self._rd[k] = out
        return self._rd[k]

    def reach(self, n):
        """ids of nodes reachable from n (n itself only if on a cycle)"""
        k = ("fwd", n.id)
        if k not in self._rd:
            seen, st = set(), [s for s, l in n.succ]
            while st:
                x = st.pop()
                if x.id in seen:
                    continue
                seen.add(x.id)
                st.extend(s for s, _ in x.succ)
            self._rd[k] = seen
        return self._rd[k]

    def loop_body(self, head):
        k = ("loop", head.id)
        if k not in self._rd:
            lo, hi = head.body
            seen = {n.id for n in self.g.live if lo < n.id < hi}
            self._rd[k] = seen
        return self._rd[k]

    def loops_of(self, n, excluding=None):
        """for-heads whose body contains n (outermost first), not containing `excluding`"""
        if ("heads",) not in self._rd:
            self._rd[("heads",)] = [h for h in self.g.live if h.kind == "for"]
        out = [h for h in self._rd[("heads",)] if n.id in self.loop_body(h)
               and (excluding is None or excluding.id not in self.loop_body(h))]
        return sorted(out, key=lambda h: -len(self.loop_body(h)))

    def _updated(self, node, var, d, v, st, deps):
        """x = f(); x["k"] = v: the mapping with those keys replaced"""
        muts = [m for m in self._aliased(d, var) if m[1] == "[]=" and isinstance(m[2][0].slice, ast.Constant)
                and node.id in self.reach(m[0]) and m[0].id != node.id]
        if not muts or len(muts) > 40:
            return None
        base = self._val(d, v, st, deps)
        pairs = {}
        for n, what, (t, val, ctx) in muts:
            deps.add(n.id)
            k = ("const", t.slice.value)
            vt = self._val(n, val, st, deps)
            if self._bypass(d, n, node):
                vt = phi([vt, pairs.get(k) or subscript(base, k)])
            pairs[k] = vt
        return override(base, pairs)

    def _bypass(self, a, mid, b):
        """some path a -> b avoids mid"""
        seen, st = set(), [s for s, l in a.succ if l not in ("exc", "excb")]
        while st:
            x = st.pop()
            if x.id == b.id:
                return True
            if x.id in seen or x.id == mid.id:
                continue
            seen.add(x.id)
            st.extend(s for s, l in x.succ if l not in ("exc", "excb"))
        return False

    def _skipped(self, n, head):
        """some round of the loop at head normally goes on without passing n"""
        k = ("skipped", n.id, head.id)
        if k not in self._rd:
            body = self.loop_body(head)
            seen, st, hit = set(), [s for s, l in head.succ if l == "it"], False
            while st and not hit:
                x = st.pop()
                if x.id == head.id:
                    hit = True
                    break
                if x.id in seen or x.id == n.id or x.id not in body:
                    continue
                seen.add(x.id)
                st.extend(s for s, l in x.succ if l not in ("exc", "excb"))
            self._rd[k] = hit
        return self._rd[k]

    def _guards(self, n, head, st, deps):
        """the conditions under which a round of the loop passes n: a conjunction of terms, or one opaque marker"""
        body = self.loop_body(head)
        ok = lambda l: l not in ("exc", "excb")
        back, w = {n.id}, [n]
        while w:
            x = w.pop()
            for p, l in x.pred:
                if ok(l) and p.id in body and p.id not in back:
                    back.add(p.id)
                    w.append(p)
        start = [s for s, l in head.succ if l == "it"]

        def reaches(without):
            seen, w = set(), list(start)
            while w:
                x = w.pop()
                if x.id == n.id:
                    return True
                if x.id in seen or x.id == without or x.id not in body:
                    continue
                seen.add(x.id)
                w.extend(s for s, l in x.succ if ok(l))
            return False
        out = []
        for c in self.g.live:
            if c.id not in back or c.kind == "for" and c.id != n.id:
                if c.id in back:
                    return (("guarded", n.id),)
                continue
            nx = [(s, l) for s, l in c.succ if ok(l)]
            go = [l for s, l in nx if s.id in back or s.id == n.id]
            if c.id == n.id or len(go) == len(nx):
                continue
            if c.kind != "cond" or len(go) != 1 or reaches(c.id) or c.expr is None:
                return (("guarded", n.id),)
            t = self._t(c, c.expr, c.ctx, st, deps)
            out.append(t if go[0] == "T" else negate(t))
        return tuple(out) or (("guarded", n.id),)

    def _accum(self, node, var, d, v, st, deps):
        muts = [m for m in self._aliased(d, var) if node.id in self.reach(m[0]) and m[0].id != node.id]
        if not muts or len(muts) > 40:
            return None
        base = self._val(d, v, st, deps)
        e = v[1]
        isdict = isinstance(e, ast.Dict) or (isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] in ("dict", "OrderedDict"))
        parts = []
        for n, what, x in muts:
            deps.add(n.id)
            loops = self.loops_of(n, d)
            its = tuple(self._t(h, h.expr, h.ctx, st, deps) for h in loops)
            if what == "[]=":
                t, val, ctx = x
                kt = self._t(n, t.slice, ctx, st, deps)
                vt = self._val(n, val, st, deps)
                if not loops and kt[0] == "const":
                    if self._bypass(d, n, node):
                        old = next((p[1] for p in reversed(parts) if p[0] == kt), None)
                        if old is None and base[0] == "dict":
                            old = next((q[1] for q in base[1:] if q[0] == kt), None)
                        vt = phi([vt, old if old is not None else ("absent",)])
                    parts.append((kt, vt))
                    continue
                el = ("pair", kt, vt)
            elif what == "group" and not isdict:
                continue
            elif what == "group":
                el = ("pair", self._t(n, x[0], n.ctx, st, deps), ("group", self._t(n, x[1], n.ctx, st, deps)))
            elif what in ("append", "add", "appendleft") and x.args:
                el = self._t(n, x.args[0], n.ctx, st, deps)
            elif what in ("extend", "update") and x.args:
                el = ("star", self._t(n, x.args[0], n.ctx, st, deps))
            else:
                return ("accum", base, ("opaque", what))
            if loops:
                parts.append(("comp", "dict" if isdict else "list", el, its, self._guards(n, loops[-1], st, deps) if self._skipped(n, loops[-1]) else ()))
            else:
                parts.append(el if not isdict else (("**",), el))
        if isdict:
            pairs = list(base[1:]) if base[0] == "dict" else []
            for p in parts:
                if p and p[0] == "comp":
                    if not pairs and len(parts) == 1:
                        return p
                    pairs.append((("**",), p))
                else:
                    pairs = [q for q in pairs if q[0] != p[0] or q[0] == ("**",)] + [p]
            return ("dict",) + tuple(pairs)
        if len(parts) == 1 and parts[0][0] == "comp" and (base == ("seq",) or (base[0] == "call" and not base[2]) or base == ("set",)):
            return parts[0]
        head = base[1:] if base[0] in ("seq", "set") else ()
        if base[0] == "call" and base[2]:
            head = (("star", base[2][0]),)
        return ("seq",) + tuple(head) + tuple(("star", p) if p[0] == "comp" else p for p in parts)

    def _val(self, d, v, st, deps):
        k = v[0]
        if k == "expr":
            return self._t(d, v[1], v[2], st, deps)
        if k == "self":
            return ("self",)
        if k == "param":
            return ("param", v[1])
        if k == "elem":
            return elem(self._t(d, v[1], v[2], st, deps))
        if k == "item":
            return item(self._val(d, v[2], st, deps), v[1])
        if k == "with":
            return ("with", self._t(d, v[1], v[2], st, deps))
        if k == "aug":
            return ("bin", v[1], self._t(d, v[2], v[4], st, deps), self._t(d, v[3], v[4], st, deps))
        if k == "exc":
            return ("exc",) + tuple(v[1])
        if k == "func":
            return ("func", v[1].qual if v[1] else "?")
        if k == "del":
            return ("del",)
        return ("opaque",) + tuple(str(x) for x in v[1:])

    def _t(self, node, e, ctx, st, deps, env=None):
        if e is None:
            return ("const", None)
        if isinstance(e, VarRef):
            return self._var(node, e.key, st, deps, e.key[1])
        s = self.g.subst.get((ctx.id, id(e)))
        if s is not None:
            if any(d.id != node.id for d in self.defnodes.get(s, [])):
                if self.reaching(node, s):
                    return self._var(node, s, st, deps, s[1])
        rec = lambda x: self._t(node, x, ctx, st, deps, env)
        if isinstance(e, ast.Constant):
            return ("const", e.value if not isinstance(e.value, (bytes,)) else e.value)
        if isinstance(e, ast.Name):
            if env and e.id in env:
                return env[e.id]
            k = self.g.varkey(e.id, ctx)
            if k is not None:
                return self._var(node, k, st, deps, e.id)
            r = ctx.func.module.resolve(e.id)
            if isinstance(r, (Func, Class)):
                return ("global", r.qual)
            if isinstance(r, Module):
                return ("global", r.name)
            mod = ctx.func.module
            if e.id in mod.assigns:
                v = mod.assigns[e.id]
                c = const_value(v)
                if c is not NOCONST:
                    return ("const", c) if not isinstance(c, (list, dict, set)) else ("global", f"{mod.name}.{e.id}")
            return ("global", r or e.id)
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d:
                head = d.split(".")[0]
                if not (env and head in env) and self.g.varkey(head, ctx) is None:
                    r = ctx.func.module.resolve(d)
                    if isinstance(r, (Func, Class)):
                        return ("global", r.qual)
                    if isinstance(r, Module):
                        return ("global", r.name)
                    if r is not None:
                        return ("global", r)
            r = ("attr", rec(e.value), e.attr)
            if self._reads is not None:
                self._reads.append((node, r))
            return r
        if isinstance(e, ast.Subscript):
            b = rec(e.value)
            if isinstance(e.slice, ast.Slice):
                sl = e.slice
                return ("slice", b, rec(sl.lower), rec(sl.upper), rec(sl.step))
            i = rec(e.slice)
            return subscript(b, i)
        if isinstance(e, ast.Call):
            return self._call(node, e, ctx, st, deps, env, rec)
        if isinstance(e, ast.BinOp):
            return ("bin", type(e.op).__name__, rec(e.left), rec(e.right))
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return negate(rec(e.operand))
            v = rec(e.operand)
            if isinstance(e.op, ast.USub) and v[0] == "const" and isinstance(v[1], (int, float)):
                return ("const", -v[1])
            return ("un", type(e.op).__name__, v)
        if isinstance(e, ast.BoolOp):
            return ("and" if isinstance(e.op, ast.And) else "or",) + tuple(rec(v) for v in e.values)
        if isinstance(e, ast.Compare):
            parts = []
            left = rec(e.left)
            for op, c in zip(e.ops, e.comparators):
                right = rec(c)
                parts.append(cmp_(CMP[type(op).__name__], left, right))
                left = right
            return parts[0] if len(parts) == 1 else ("and",) + tuple(parts)
        if isinstance(e, ast.IfExp):
            return phi([rec(e.body), rec(e.orelse)])
        if isinstance(e, (ast.Tuple, ast.List)):
            return ("seq",) + tuple(rec(x) for x in e.elts)
        if isinstance(e, ast.Set):
            return ("set",) + tuple(sorted((rec(x) for x in e.elts), key=repr))
        if isinstance(e, ast.Starred):
            return ("star", rec(e.value))
        if isinstance(e, ast.Dict):
            return ("dict",) + tuple((rec(k) if k is not None else ("**",), rec(v)) for k, v in zip(e.keys, e.values))
        if isinstance(e, ast.JoinedStr):
            return ("fstr",) + tuple(rec(v.value) if isinstance(v, ast.FormattedValue) else ("const", v.value)
                                     for v in e.values)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env2 = dict(env or {})
            conds = []
            its = []
            for g in e.generators:
                it = self._t(node, g.iter, ctx, st, deps, env2)
                its.append(it)
                bind_env(env2, g.target, elem(it))
                for c in g.ifs:
                    conds.append(self._t(node, c, ctx, st, deps, env2))
            if isinstance(e, ast.DictComp):
                el = ("pair", self._t(node, e.key, ctx, st, deps, env2), self._t(node, e.value, ctx, st, deps, env2))
            else:
                el = self._t(node, e.elt, ctx, st, deps, env2)
            kind = {"ListComp": "list", "SetComp": "set", "GeneratorExp": "gen", "DictComp": "dict"}[type(e).__name__]
            return ("comp", kind, el, tuple(its), tuple(conds))
        if isinstance(e, ast.NamedExpr):
            return rec(e.value)
        if isinstance(e, ast.Lambda):
            return ("lambda", self._lambda_term(node, e, ctx, st, deps, env))
        if isinstance(e, ast.Await):
            return rec(e.value)
        if isinstance(e, ast.Yield):
            return ("yielded",)
        if isinstance(e, ast.Slice):
            return ("sl", rec(e.lower), rec(e.upper), rec(e.step))
        return ("opaque", type(e).__name__)

    def _lambda_term(self, node, e, ctx, st, deps, env):
        env2 = dict(env or {})
        for i, a in enumerate(e.args.args):
            env2[a.arg] = ("arg", i)
        return self._t(node, e.body, ctx, st, deps, env2)

    def _call(self, node, e, ctx, st, deps, env, rec):
        f = e.func
        args = tuple(rec(a) for a in e.args)
        kws = tuple(sorted(((k.arg or "**"), rec(k.value)) for k in e.keywords))
        if isinstance(f, ast.Attribute):
            d = dotted(f)
            head = d.split(".")[0] if d else None
            if d and not (env and head in env) and self.g.varkey(head, ctx) is None:
                r = ctx.func.module.resolve(d)
                name = r.qual if isinstance(r, (Func, Class)) else (r.name if isinstance(r, Module) else (r or d))
                return ("call", name, args, kws)
            base = rec(f.value)
            if f.attr in ("get", "pop", "setdefault") and args and args[0][0] == "const" and isinstance(args[0][1], str):
                return ("key", base, args[0][1])
            return ("mcall", base, f.attr, args, kws)
        if isinstance(f, ast.Name):
            if not (env and f.id in env) and self.g.varkey(f.id, ctx) is None:
                r = ctx.func.module.resolve(f.id)
                name = r.qual if isinstance(r, (Func, Class)) else (r.name if isinstance(r, Module) else (r or f.id))
                if name == "dict" and not args and kws and all(k.arg for k in e.keywords):
                    return ("dict",) + tuple((("const", k.arg), rec(k.value)) for k in e.keywords)
                if name == "getattr" and len(args) >= 2 and args[1][0] == "const" and isinstance(args[1][1], str):
                    return ("attr", args[0], args[1][1])
                return ("call", name, args, kws)
            return ("vcall", rec(f), args, kws)
        return ("vcall", rec(f), args, kws)

    # -- conveniences -----------------------------------------------------------
    def callee(self, node):
        """canonical callee of node.call: ('global', qual) or ('method', recv term, name)"""
        c = node.call
        if c is None:
            return None
        f = c.func
        if isinstance(f, ast.Attribute):
            d = dotted(f)
            head = d.split(".")[0] if d else None
            if d and self.g.varkey(head, node.ctx) is None:
                r = node.ctx.func.module.resolve(d)
                q = r.qual if isinstance(r, (Func, Class)) else (r.name if isinstance(r, Module) else (r or d))
                return ("global", q)
            return ("method", f.attr)
        if isinstance(f, ast.Name):
            if self.g.varkey(f.id, node.ctx) is None:
                r = node.ctx.func.module.resolve(f.id)
                q = r.qual if isinstance(r, (Func, Class)) else (r.name if isinstance(r, Module) else (r or f.id))
                return ("global", q)
            return ("var", f.id)
        return ("expr", "")

    def recv(self, node):
        f = node.call.func
        if isinstance(f, ast.Attribute):
            return self.term(node, f.value)
        return None

    def arg(self, node, i=None, kw=None):
        c = node.call
        if kw is not None:
            for k in c.keywords:
                if k.arg == kw:
                    return self.term(node, k.value)
        if i is not None and i < len(c.args):
            return self.term(node, c.args[i])
        return None

    def stores(self):
        """yield (node, target term, value term) for attribute / subscript stores"""
        for n in self.g.live:
            for t, v, ctx in n.stores:
                yield n, self.target(n, t, ctx), v, t, ctx

    def target(self, n, t, ctx):
        if isinstance(t, ast.Attribute):
            return ("attr", self.term(n, t.value, ctx), t.attr)
        if isinstance(t, ast.Subscript):
            return ("sub", self.term(n, t.value, ctx), self.term(n, t.slice, ctx))
        if isinstance(t, ast.Name):
            return ("globalvar", t.id)
        return ("opaque",)

    def storeval(self, n, v):
        deps = set()
        return self._val(n, v, ((n.id, "store"),), deps)

    # -- facts ---------------------------------------------------------------
    def edge_atoms(self, n, label):
        if n.kind != "cond" or label not in ("T", "F") or n.expr is None:
            return ()
        t, deps = self.termd(n, n.expr, n.ctx)
        return tuple((a, deps) for a in atoms(t, label == "T"))

    def facts(self):
        """node id -> frozenset of atom terms that hold on every path reaching the node."""
        if self._facts is not None:
            return self._facts
        g = self.g
        depmap = {}
        gen = {}
        for n in g.live:
            for s, l in n.succ:
                for a, deps in self.edge_atoms(n, l):
                    gen.setdefault((n.id, l), set()).add(a)
                    depmap.setdefault(a, set()).update(deps)
        # loop-exhausted edges: forall facts (filled during iteration)
        attr_kill = {}
        for n in g.live:
            for t, v, ctx in n.stores:
                if isinstance(t, ast.Attribute):
                    attr_kill.setdefault(n.id, set()).add(t.attr)
        mention = {}

        def ment(a):
            if a not in mention:
                mention[a] = set(x[2] for x in subterms(a) if x[0] == "attr")
            return mention[a]

        TOP = None
        IN = {n.id: TOP for n in g.live}
        IN[g.entry.id] = frozenset()
        work = [g.entry]
        inq = {g.entry.id}
        bydef = {}
        for a, ds in depmap.items():
            for d in ds:
                bydef.setdefault(d, set()).add(a)

        def out(n, l, inn):
            o = set(inn)
            if n.defs and n.kind != "for":
                for a in list(o):
                    if a in bydef.get(n.id, ()) or (a[0] == "forall" and False):
                        o.discard(a)
            ks = attr_kill.get(n.id)
            if ks:
                for a in list(o):
                    if ment(a) & ks:
                        o.discard(a)
            o |= gen.get((n.id, l), set())
            return o

        loopback = {}
        itercount = 0
        import collections
        dq = collections.deque([g.entry])
        while dq:
            n = dq.popleft()
            inq.discard(n.id)
            itercount += 1
            if itercount > 400000:
                break
            inn = IN[n.id]
            if inn is TOP:
                continue
            for s, l in n.succ:
                o = out(n, l, inn)
                if n.kind == "for" and l == "done":
                    # forall facts: intersection over back edges
                    back = [p for p, pl in n.pred if self._is_back(p, n)]
                    sets = []
                    ok = bool(back)
                    for p, pl in n.pred:
                        if self._is_back(p, n):
                            if IN[p.id] is TOP:
                                continue
                            sets.append(out(p, pl, IN[p.id]))
                    if ok and sets:
                        common = set.intersection(*sets)
                        it = self.term(n, n.expr)
                        el = elem(it)
                        for a in common:
                            if contains(a, el):
                                o.add(("forall", it, a))
                                for inst in expand_forall(it, el, a):
                                    o.add(inst)
                                depmap.setdefault(("forall", it, a), set())
                o = frozenset(o)
                cur = IN[s.id]
                new = o if cur is TOP else (cur & o)
                if cur is TOP or new != cur:
                    IN[s.id] = new
                    if s.id not in inq:
                        inq.add(s.id)
                        dq.append(s)
        # one refinement for 'for' exits (facts at back edges may only settle later)
        self._facts = {k: (v if v is not TOP else frozenset()) for k, v in IN.items()}
        return self._facts

    def _is_back(self, p, head):
        return head.body[0] < p.id < head.body[1]

    # -- path search -----------------------------------------------------------
    def cond_atom(self, n):
        """(atom key, polarity for T) for correlation, plus deps & attrs"""
        t, deps = self.termd(n, n.expr, n.ctx)
        pol = True
        t, pol = normatom(t)
        attrs = frozenset(x[2] for x in subterms(t) if x[0] == "attr")
        return t, pol, deps, attrs

    def find_path(self, srcs, dsts, avoid=(), avoid_edge=None, skip_labels=("excb",), correlate=True,
                  src_labels=None, limit=300000, via=None, via_labels=None):
        """A feasible path (list of nodes) from any src (node, leaving via src_labels) to a dst, not
        passing *normally* through `avoid` nodes. None if there is none."""
        via = None if via is None else {n.id for n in via}
        avoid = {n.id for n in avoid}
        dst = {n.id for n in dsts}
        tracked, flags = self._correlated() if correlate else ({}, ({}, set()))
        start = []
        for n in srcs:
            start.append((n.id, frozenset(), n))
        seen = set()
        parent = {}
        st = []
        for nid, a, n in start:
            st.append((n, a, None, True, via is None))
        steps = 0
        while st:
            n, assume, par, first, passed = st.pop()
            k = (n.id, assume, first, passed)
            if k in seen:
                continue
            seen.add(k)
            parent[k] = par
            steps += 1
            if steps > limit:
                if correlate:
                    return self.find_path(srcs, dsts, [x for x in self.g.live if x.id in avoid], avoid_edge,
                                          skip_labels, False, src_labels, limit,
                                          None if via is None else [x for x in self.g.live if x.id in via], via_labels)
                return None
            if n.id in dst and not first and passed:
                path = []
                kk = k
                while kk is not None:
                    path.append(self.g.nodes[kk[0]])
                    kk = parent[kk]
                return list(reversed(path))
            for s, l in n.succ:
                if l in skip_labels:
                    continue
                if first and src_labels is not None and l not in src_labels:
                    continue
                if n.id in avoid and l not in ("exc", "excb") and not (first):
                    continue
                if avoid_edge is not None and avoid_edge(n, s, l):
                    continue
                a2 = self._step(n, l, assume, tracked, flags)
                if a2 is None:
                    continue
                st.append((s, a2, k, False, passed or (n.id in via and (via_labels is None or l in via_labels))))
        return None

    def _correlated(self):
        k = ("correl",)
        if k in self._rd:
            return self._rd[k]
        count = {}
        info = {}
        flagvars = {}
        for n in self.g.live:
            if n.kind == "cond" and n.expr is not None:
                at = self.cond_atom(n)
                info[n.id] = at
                count[at[0]] = count.get(at[0], 0) + 1
                fv = self._flagvar(n)
                if fv is not None:
                    flagvars[n.id] = fv
        flags = {}
        used = set(v[0] for v in flagvars.values())
        todo = list(used)
        src = {}
        while todo:
            var = todo.pop()
            for d in self.defnodes.get(var, []):
                for kk, v in d.defs:
                    c = self._copy(d, v) if kk == var and v[0] == "expr" else None
                    if c is not None:
                        src.setdefault(var, set()).add(c[1])
                        if c[1] not in used:
                            used.add(c[1])
                            todo.append(c[1])

        def hasconst(var, seen=()):
            if var in seen:
                return False
            return any(kk == var and v[0] == "expr" and isinstance(v[1], ast.Constant) for d in self.defnodes.get(var, []) for kk, v in d.defs) \
                or any(hasconst(w, seen + (var,)) for w in src.get(var, ()))
        keep = {v for v in used if hasconst(v)}
        for var in list(used):
            consts = var in keep
            if not consts:
                used.discard(var)
        flags = {nid: v for nid, v in flagvars.items() if v[0] in used}
        # copies: var := other flag var
        loops = set()
        for n in self.g.live:
            if n.kind == "for":
                loops.add(self.term(n, n.expr))
        tracked = {nid: at for nid, at in info.items() if count[at[0]] >= 2 or at[0] in loops}
        r = (tracked, (flags, used))
        self._rd[k] = r
        return r

    def _flagvar(self, n):
        """cond tests a local variable directly: (var, test) with test in truth/isnone"""
        e = n.expr
        if isinstance(e, VarRef):
            return (e.key, "truth")
        if isinstance(e, ast.Name):
            k = self.g.varkey(e.id, n.ctx)
            return (k, "truth") if k else None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) \
                and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            k = self.g.varkey(e.left.id, n.ctx)
            if k and isinstance(e.ops[0], ast.Is):
                return (k, "isnone")
            if k and isinstance(e.ops[0], ast.IsNot):
                return (k, "notnone")
        return None

    def _step(self, n, l, assume, tracked, flags):
        fl, used = flags
        if n.kind == "cond" and l in ("T", "F"):
            d = dict(assume)
            if n.id in fl:
                var, test = fl[n.id]
                v = d.get(("flag", var))
                truth = l == "T"
                if v is not None:
                    val = None
                    if v[0] == "c":
                        c = v[1]
                        val = bool(c) if test == "truth" else ((c is None) if test == "isnone" else (c is not None))
                    elif v[0] == "nn":
                        val = {"truth": None, "isnone": False, "notnone": True}[test]
                    elif v[0] == "t":
                        val = {"truth": v[1], "isnone": (False if v[1] else None), "notnone": (True if v[1] else None)}[test]
                    if val is not None and val != truth:
                        return None
                # learn
                if v is None:
                    if test == "truth":
                        d[("flag", var)] = ("t", truth)
                    elif (test == "isnone") == truth:
                        d[("flag", var)] = ("c", None)
                    else:
                        d[("flag", var)] = ("nn",)
            if n.id in tracked:
                t, pol, deps, attrs = tracked[n.id]
                val = (l == "T") == pol
                k = ("atom", t)
                if k in d and d[k] != val:
                    return None
                d[k] = val
            return frozenset(d.items())
        if l in ("exc", "excb"):
            return assume
        if n.kind == "for" and n.id in self._foratoms() and l in ("it", "done"):
            k = ("atom", self._foratoms()[n.id])
            d = dict(assume)
            if l == "it" and d.get(k) is False:
                return None
            if l == "it" and k not in d:
                d[k] = True
                assume = frozenset(d.items())
            if l == "done" and k not in d:
                d[k] = False
                assume = frozenset(d.items())
        changed = None
        if n.defs:
            d = dict(assume)
            for k, v in n.defs:
                if k in used:
                    fk = ("flag", k)
                    d.pop(fk, None)
                    nv = self._flagval(n, v, dict(assume))
                    if nv is not None:
                        d[fk] = nv
            for k in list(d):
                if k[0] == "atom":
                    if n.id in self._atomdeps().get(k[1], ()):
                        d.pop(k)
            assume = frozenset(d.items())
        if n.stores:
            names = {t.attr for t, _, _ in n.stores if isinstance(t, ast.Attribute)}
            if names:
                d = dict(assume)
                for k in list(d):
                    if k[0] == "atom" and names & self._atomattrs().get(k[1], frozenset()):
                        d.pop(k)
                assume = frozenset(d.items())
        return assume

    def _flagval(self, n, v, d):
        if v[0] == "expr":
            e = v[1]
            if isinstance(e, ast.Constant):
                return ("c", e.value)
            if isinstance(e, ast.Name):
                k = self.g.varkey(e.id, v[2])
                return d.get(("flag", k)) if k else None
            s = self.g.subst.get((v[2].id, id(e)))
            if s is not None:
                return d.get(("flag", s))
            if isinstance(e, ast.Call):
                return None
            if isinstance(e, (ast.Tuple, ast.List, ast.Dict, ast.Lambda)):
                return ("nn",)
        if v[0] in ("exc",):
            return ("nn",)
        return None

    def _foratoms(self):
        """for-loops whose iterable's emptiness is also tested by a condition"""
        k = ("foratoms",)
        if k not in self._rd:
            tests = {}
            for n in self.g.live:
                if n.kind == "cond" and n.expr is not None:
                    tests[self.cond_atom(n)[0]] = 1
            out = {}
            for n in self.g.live:
                if n.kind == "for":
                    t = self.term(n, n.expr)
                    if t in tests:
                        out[n.id] = t
            self._rd[k] = out
        return self._rd[k]

    def _atomdeps(self):
        k = ("atomdeps",)
        if k not in self._rd:
            tracked, _ = self._correlated()
            out = {}
            for t, pol, deps, attrs in tracked.values():
                out.setdefault(t, set()).update(deps)
            self._rd[k] = out
        return self._rd[k]

    def _atomattrs(self):
        k = ("atomattrs",)
        if k not in self._rd:
            tracked, _ = self._correlated()
            self._rd[k] = {t: attrs for t, pol, deps, attrs in tracked.values()}
        return self._rd[k]


# -- term algebra ----------------------------------------------------------------
NOCONST = object()


def const_value(v):
    if isinstance(v, ast.Constant):
        return v.value
    if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant):
        return -v.operand.value
    if isinstance(v, ast.BinOp):
        a, b = const_value(v.left), const_value(v.right)
        if a is NOCONST or b is NOCONST:
            return NOCONST
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                    ast.LShift: lambda: a << b, ast.Pow: lambda: a ** b, ast.FloorDiv: lambda: a // b,
                    ast.BitOr: lambda: a | b}[type(v.op)]()
        except Exception:
            return NOCONST
    if isinstance(v, (ast.Tuple, ast.List, ast.Set)):
        xs = [const_value(x) for x in v.elts]
        if any(x is NOCONST for x in xs):
            return NOCONST
        return tuple(xs) if isinstance(v, ast.Tuple) else (list(xs) if isinstance(v, ast.List) else set(xs))
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("frozenset", "set", "tuple") and len(v.args) == 1:
        x = const_value(v.args[0])
        return NOCONST if x is NOCONST else tuple(sorted(x, key=repr))
    return NOCONST


def phi(alts):
    flat = []
    for a in alts:
        if a[0] == "phi":
            flat.extend(a[1:])
        else:
            flat.append(a)
    u = sorted(set(x for x in flat if x[0] != "rec"), key=repr)
    if not u:
        return flat[0] if flat else ("undef", "?")
    return u[0] if len(u) == 1 else ("phi",) + tuple(u)


def elem(it):
    if it[0] == "call" and it[1] == "enumerate" and it[2]:
        return ("seq", ("index", it[2][0]), elem(it[2][0]))
    if it[0] == "call" and it[1] == "zip":
        return ("seq",) + tuple(elem(x) for x in it[2])
    if it[0] == "call" and it[1] in ("sorted", "reversed", "list", "tuple", "iter") and it[2] and not (it[1] == "sorted" and False):
        return elem(it[2][0])
    if it[0] == "comp":
        return it[2]
    if it[0] == "mcall" and it[2] == "items" and not it[3]:
        return ("seq", ("elemkey", it[1]), ("elemval", it[1]))
    if it[0] == "mcall" and it[2] == "values" and not it[3]:
        return ("elemval", it[1])
    if it[0] == "mcall" and it[2] == "keys" and not it[3]:
        return ("elemkey", it[1])
    if it[0] == "seq" and len(it) == 2 and it[1][0] != "star":
        return it[1]
    return ("elem", it)


def item(v, i):
    if v[0] == "seq" and isinstance(i, int) and not any(x[0] == "star" for x in v[1:]) and i < len(v) - 1:
        return v[1 + i]
    if v[0] == "phi":
        return phi([item(x, i) for x in v[1:]])
    if v[0] == "elem" and v[1][0] == "seq" and len(v[1]) > 1 and all(x[0] == "seq" for x in v[1][1:]):
        return ("elem", ("seq",) + tuple(item(x, i) for x in v[1][1:]))
    return ("item", v, i)


def override(base, pairs):
    if base[0] == "dict":
        out = [(k, pairs.pop(k, v)) for k, v in base[1:]]
        return ("dict",) + tuple(out) + tuple(pairs.items())
    if base[0] == "phi":
        return phi([override(b, dict(pairs)) for b in base[1:]])
    return ("upd", base, tuple(sorted(pairs.items(), key=repr)))


def subscript(b, i):
    if i[0] == "const" and isinstance(i[1], str):
        if b[0] == "upd":
            d = dict(b[2])
            return d[i] if i in d else subscript(b[1], i)
        if b[0] == "phi" and all(x[0] in ("dict", "upd") or x == ("const", None) for x in b[1:]):
            return phi([subscript(x, i) for x in b[1:] if x != ("const", None)])
        if b[0] == "dict":
            for k, v in b[1:]:
                if k == i:
                    return v
        return ("key", b, i[1])
    if i[0] == "const" and isinstance(i[1], int):
        return item(b, i[1]) if i[1] >= 0 else ("item", b, i[1])
    return ("idx", b, i)


def bind_env(env, target, val):
    if isinstance(target, ast.Name):
        env[target.id] = val
    elif isinstance(target, (ast.Tuple, ast.List)):
        for i, x in enumerate(target.elts):
            bind_env(env, x.value if isinstance(x, ast.Starred) else x, item(val, i))


def cmp_(op, a, b):
    if op in SWAP and repr(b) < repr(a):
        return ("cmp", SWAP[op], b, a)
    return ("cmp", op, a, b)


def negate(t):
    if t[0] == "cmp":
        return ("cmp", NEG[t[1]], t[2], t[3])
    if t[0] == "not":
        return t[1]
    if t[0] == "const":
        return ("const", not t[1])
    if t[0] == "and":
        return ("or",) + tuple(negate(x) for x in t[1:])
    if t[0] == "or":
        return ("and",) + tuple(negate(x) for x in t[1:])
    return ("not", t)


def normatom(t):
    """canonical positive form, polarity"""
    if t[0] == "not":
        a, p = normatom(t[1])
        return a, not p
    if t[0] == "cmp" and t[1] in ("!=", "is not", "not in", ">=", "<="):
        return ("cmp", NEG[t[1]], t[2], t[3]), False
    return t, True


def atoms(t, truth):
    """conjunctive atoms implied by t being truth"""
    if not truth:
        t = negate(t)
    out = []

    def go(t):
        if t[0] == "and":
            for x in t[1:]:
                go(x)
            out.append(t)
            return
        if t[0] == "call" and t[1] == "all" and t[2] and t[2][0][0] == "comp" and not t[2][0][4]:
            c = t[2][0]
            if len(c[3]) == 1:
                out.append(("forall", c[3][0], c[2]))
                for inst in expand_forall(c[3][0], elem(c[3][0]), c[2]):
                    for a in atoms(inst, True):
                        out.append(a)
        if t[0] == "not" and t[1][0] == "call" and t[1][1] == "any" and t[1][2] and t[1][2][0][0] == "comp" and not t[1][2][0][4]:
            c = t[1][2][0]
            if len(c[3]) == 1:
                body = negate(c[2])
                out.append(("forall", c[3][0], body))
                for inst in expand_forall(c[3][0], elem(c[3][0]), body):
                    for a in atoms(inst, True):
                        out.append(a)
        out.append(t)
    go(t)
    return out


def expand_forall(it, el, fact):
    """instances of a quantified fact when the iterable is a literal sequence"""
    if it[0] in ("seq", "set") and not any(x[0] == "star" for x in it[1:]):
        vals = it[1:]
    elif it[0] == "const" and isinstance(it[1], tuple):
        vals = [("const", x) if not isinstance(x, tuple) else ("seq",) + tuple(("const", y) for y in x) for x in it[1]]
    else:
        return []
    return [rewrite(fact, el, v) for v in vals]


def rewrite(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple):
        return t
    n = tuple(rewrite(x, a, b) if isinstance(x, tuple) else x for x in t)
    if n and n[0] == "idx" and len(n) == 3:
        return subscript(n[1], n[2])
    if n and n[0] == "item" and len(n) == 3 and isinstance(n[1], tuple):
        return item(n[1], n[2])
    if n and n[0] == "mcall" and n[2] == "get" and n[3] and n[3][0][0] == "const" and isinstance(n[3][0][1], str):
        return ("key", n[1], n[3][0][1])
    if n and n[0] == "call" and n[1] == "getattr" and len(n[2]) >= 2 and n[2][1][0] == "const":
        return ("attr", n[2][0], n[2][1][1])
    if n and n[0] == "cmp":
        return cmp_(n[1], n[2], n[3])
    return n


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
                st.extend(y for y in x[1:] if isinstance(y, tuple))
            else:
                st.extend(y for y in x if isinstance(y, tuple))


def contains(t, sub):
    return any(x == sub for x in subterms(t))


def has(t, pred):
    return any(pred(x) for x in subterms(t))


def attrs_in(t, base=("self",)):
    return {x[2] for x in subterms(t) if x[0] == "attr" and (base is None or x[1] == base)}


def keys_in(t):
    return {x[2] for x in subterms(t) if x[0] == "key"}


def alts(t):
    return list(t[1:]) if t[0] == "phi" else [t]


def show(t, depth=0):
    if not isinstance(t, tuple):
        return repr(t)
    if depth > 6:
        return "…"
    k = t[0] if t else ""
    s = lambda x: show(x, depth + 1)
    if k == "self":
        return "self"
    if k == "param":
        return t[1]
    if k == "const":
        return repr(t[1])
    if k == "global":
        return t[1].split(".")[-1]
    if k == "attr":
        return f"{s(t[1])}.{t[2]}"
    if k == "key":
        return f"{s(t[1])}[{t[2]!r}]"
    if k == "cmp":
        return f"{s(t[2])} {t[1]} {s(t[3])}"
    if k == "call":
        return f"{t[1].split('.')[-1]}({', '.join([s(a) for a in t[2]] + [f'{n}={s(v)}' for n, v in t[3]])})"
    if k == "mcall":
        return f"{s(t[1])}.{t[2]}({', '.join([s(a) for a in t[3]] + [f'{n}={s(v)}' for n, v in t[4]])})"
    if k == "bin":
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if k == "not":
        return f"not {s(t[1])}"
    if k in ("and", "or"):
        return "(" + f" {k} ".join(s(x) for x in t[1:]) + ")"
    if k == "phi":
        return "{" + " | ".join(s(x) for x in t[1:]) + "}"
    return f"<{k} " + " ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ">"


def flow(project, root, policy=None, cls=None, max_depth=6):
    return Flow(Graph(project, root, policy, cls, max_depth))
