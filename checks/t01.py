"""T01: processes agree: collectives are entered by all, every local failure is reported and raised everywhere."""
import ast
from sa.flow import alts, flow, has, show
from sa.lib import calls, norm, path_str
from sa.rules import (NORMAL, argval, booltable, decides, edges, falsy, helpers, inner_loop, known, method, must_pass, stores_to)

SELF = ("self",)
A = lambda n: ("attr", SELF, n)
NONE = ("const", None)
ACC = A("accelerator")
GLOBALS = {"accelerate.utils.gather_object", "accelerate.utils.gather", "accelerate.utils.reduce", "accelerate.utils.broadcast", "accelerate.utils.broadcast_object_list",
           "torch.distributed.all_gather", "torch.distributed.all_reduce", "torch.distributed.broadcast", "torch.distributed.broadcast_object_list", "torch.distributed.barrier",
           "torch.distributed.all_gather_object", "torch.distributed.gather", "torch.distributed.reduce"}
METHODS = {"wait_for_everyone", "gather", "gather_for_metrics", "reduce"}
RANKY = {"process_index", "is_main_process", "is_local_main_process", "local_process_index", "is_last_process"}


def collective(fl, n, coll=()):
    c = fl.callee(n)
    if not c:
        return False
    if c[0] == "global" and c[1] in GLOBALS:
        return True
    if c[0] == "method" and c[1] in METHODS:
        r = fl.recv(n)
        return r is not None and has(r, lambda y: y[0] in ("attr", "param") and y[-1] == "accelerator")
    return c[0] == "method" and c[1] in coll and fl.recv(n) == SELF


def ranky(t):
    """the term differs between processes (outside values exchanged by a collective)"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "call" and t[1] in GLOBALS or t[0] == "mcall" and t[2] in METHODS and has(t[1], lambda y: y[0] == "attr" and y[2] == "accelerator"):
        return False
    if t[0] == "phi" and any(x[0] == "call" and x[1] in GLOBALS for x in t[1:]):
        # exchanged, or the only process's own
        return any(ranky(x) for x in t[1:] if x[0] != "seq")
    if t[0] == "attr" and t[2] in RANKY or t[0] == "call" and t[1] == "torch.distributed.get_rank":
        return True
    return any(ranky(x) for x in t if isinstance(x, tuple))


def collnames(P, B):
    """methods that (transitively) enter a collective"""
    names, ms = set(), {}
    for c in [B] + list(P.subclasses(B)):
        for k, f in c.methods.items():
            ms.setdefault(k, []).append(f)
    direct = {"gather_object", "broadcast_object_list", "wait_for_everyone", "all_gather", "all_reduce"}
    used = {}
    for k, fs in ms.items():
        used[k] = set()
        for f in fs:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call):
                    nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                    if nm in direct or nm in ("gather", "reduce") and isinstance(x.func, ast.Attribute) and "accelerator" in ast.unparse(x.func.value):
                        names.add(k)
                    if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
                        used[k].add(x.func.attr)
    go = True
    while go:
        go = False
        for k, u in used.items():
            if k not in names and u & names:
                names.add(k)
                go = True
    return names


def run(P, rep):
    rep.rule("all-enter", "no collective operation is entered depending on the process's rank or role")
    rep.rule("reported", "a local failure is caught whole and always reaches the exchange")
    rep.rule("raised", "any process's reported failure is raised on every process before anything else happens")
    rep.rule("compared", "values that must agree are compared over all processes and a difference is an error")
    rep.rule("alone", "with a single process the process's own report is judged the same way")
    rep.rule("inside", "work run between barriers, or whose failure is exchanged, enters no collective of its own")
    B = P.cls("trainer.base:BaseTrainer")
    coll = collnames(P, B)
    rep.floor("methods that enter collectives", len(coll), 15)
    sites = dict(err=0, cmp=0, ok=0, gate=0)
    for c in [B] + list(P.subclasses(B)):
        for f in c.methods.values():
            one(P, rep, c, f, coll, sites)
    for f in P.all_funcs:
        if f.module.rel in ("model/vq.py", "model/mixnet.py", "train.py") and f.parent is None if hasattr(f, "parent") else False:
            gates(P, rep, flow(P, f, None, cls=f.cls), coll if f.cls in (B,) else (), sites)
    rep.floor("failure exchanges", sites["err"], 9)
    rep.floor("compared exchanges", sites["cmp"], 6)
    rep.floor("phase error boundaries", sites["ok"], 9)
    rep.floor("role-dependent branches", sites["gate"], 8)
    sync(P, rep, B)
    phase(P, rep, B)


def one(P, rep, c, f, coll, sites):
    src = {x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(f.node) if isinstance(x, (ast.Attribute, ast.Name))}
    if not src & (coll | RANKY | {"gather_object", "_synchronize_phase_errors"}):
        return
    if not known(f):
        # a helper extracted since: judged inside its callers
        return
    fl = flow(P, f, helpers(within=lambda g: g.cls is not None and (g.cls is c or g.cls in c.mro() if callable(getattr(c, "mro", None)) else g.cls is c)), cls=c)
    rep.graph(fl)
    gates(P, rep, fl, coll, sites)
    allc = [n for n in fl.g.live if n.kind == "call" and n.call is not None and n.note != "inlined" and collective(fl, n, coll)]
    for g in calls(fl, lambda k: k and k[0] == "global" and k[1] == "accelerate.utils.gather_object"):
        exchange(P, rep, fl, f, g, [x for x in allc if x is not g], sites)
    for g in method(fl, "_synchronize_phase_errors"):
        boundary(P, rep, fl, f, g, sites)
    for g in allc:
        if fl.callee(g)[1].split(".")[-1] in ("gather", "reduce", "all_gather", "all_reduce", "broadcast"):
            controlled(rep, fl, g, single(P, fl, g))
    callbacks(P, rep, fl, f, coll)
    if f.name == "_fetch_batch":
        avail(P, rep, fl, f)


def gates(P, rep, fl, coll, sites):
    cs = [n for n in fl.g.live if n.kind == "call" and n.call is not None and n.note != "inlined" and collective(fl, n, coll)]
    for n in fl.g.live:
        if n.kind != "cond" or n.expr is None:
            continue
        t = norm(P, fl.term(n, n.expr))
        if not ranky(t):
            continue
        sites["gate"] += 1
        if not cs:
            continue
        arms = {}
        for s, l in n.succ:
            if l in ("T", "F"):
                r = set()
                for x in cs:
                    if x is s or fl.find_path([s], [x], avoid=[n], skip_labels=NORMAL, correlate=False) is not None:
                        must = x is s or fl.find_path([s], [fl.g.exit, n], avoid=[x], skip_labels=NORMAL, correlate=False) is None
                        r.add((x.id, must))
                arms[l] = r
        if len(arms) == 2:
            diff = {x for x, _ in arms["T"] ^ arms["F"]}
            w = [x for x in cs if x.id in diff]
            rep.check(not w, "all-enter", "no collective depends on the process's role", n.where(), f"{show(t)[:60]} decides whether {w[0].where() if w else ''} is reached")


def single(P, fl, g):
    one = edges(fl, lambda a: a[0] == "cmp" and (a[1] == "==" and ("const", 1) in a[2:4] or a[1] == "<=" and a[3] == ("const", 1) or a[1] == "<" and a[3] == ("const", 2))
                and any(y[0] == "attr" and y[2] == "num_processes" for y in a[2:4]))
    return one


def controlled(rep, fl, g, sg0):
    """the check for a single process that decides about g lets several processes through to it, and only them"""
    ones = {n for n in fl.g.live if n.kind == "cond" and any(sg0(n, s, l) for s, l in n.succ)}
    own = {n for n in ones if fl.find_path([n], [g], avoid=ones - {n}, skip_labels=NORMAL) is not None}
    for n in fl.g.live:
        if n.kind == "cond" and n.expr is not None and n not in ones and has(fl.term(n, n.expr), lambda y: y[0] == "cmp" and y[2][0] in ("const", "attr") and y[3][0] in ("const", "attr") and any(z[0] == "attr" and z[2] == "num_processes" for z in y[2:4])):
            r = [s is g or fl.find_path([s], [g], avoid=ones, skip_labels=NORMAL) is not None for s, l in n.succ if l in ("T", "F")]
            rep.check(len(r) != 2 or r[0] == r[1], "alone", "several processes exchange their reports", n.where(), "decided by " + show(fl.term(n, n.expr))[:80])
    for n in sorted(own, key=lambda n: n.id):
        arm = {}
        for s, l in n.succ:
            if l in ("T", "F"):
                arm[bool(sg0(n, s, l))] = [n, s] if s is g else fl.find_path([s], [g], avoid=ones, skip_labels=NORMAL)
        p = arm.get(True)
        rep.check(p is None or arm.get(False) is not None, "alone", "several processes exchange their reports", n.where(), path_str(p))
        if p is not None:
            own.discard(n)
    return own


def exchange(P, rep, fl, f, g, others, sites):
    e = norm(P, fl.arg(g, 0, None) or NONE)
    if e[0] != "seq" or len(e) != 2:
        rep.bad("reported", "one report per process is exchanged", g.where(), show(e)[:100])
        return
    e = e[1]
    if has(e, lambda y: y[0] == "mcall" and y[2] == "pipeline_metrics_snapshot" or y[0] == "call" and y[1].endswith("send_to_device")):
        return
    G = ("call", "accelerate.utils.gather_object", (("seq", e),), ())
    # which component reports the failure
    comps = [(None, e)] + ([(i, x) for i, x in enumerate(e[1:])] if e[0] == "seq" else [])
    err = [(i, x) for i, x in comps if x[0] == "phi" and NONE in alts(x) and any(y[0] == "fstr" for y in alts(x))]
    envelope = [x for x in alts(e) if x[0] == "dict" and has(x, lambda y: y[0] == "exc")]
    sg0 = single(P, fl, g)
    own = controlled(rep, fl, g, sg0)
    sg = lambda n, s, l: n in own and sg0(n, s, l)

    def isV(t):
        a = set(alts(t))
        return a == {G} or a == {G, ("seq", e)}

    def strip(it):
        return it[2][0] if it[0] == "call" and it[1] == "enumerate" else it

    def isset(t):
        return t[0] == "call" and t[1] in ("set", "frozenset") and isV(t[2][0]) or t[0] == "comp" and t[1] == "set" and len(t[3]) == 1 and isV(t[3][0]) and not t[4] and t[2][0] in ("elem", "item")
    if fl.find_path([g], [fl.g.exit], skip_labels=NORMAL) is None and fl.find_path([fl.g.entry], [g], skip_labels=NORMAL) is not None:
        # reports exchanged on the way to an error
        sites["err"] += 1
        return
    if err:
        i = err[0][0]
        sites["err"] += 1

        def report(t, it):
            """t is the failure report of the element of it"""
            base = ("elem", strip(it))
            return t == base if i is None else t == ("item", base, i)

        def fails(t):
            """t is non-empty / true exactly if some process reported a failure"""
            t = norm(P, t)
            if t[0] == "call" and t[1] in ("len", "bool", "any", "list", "tuple") and len(t[2]) == 1 and (t[1] != "any" or t[2][0][0] == "comp" and not t[2][0][4]):
                if t[1] == "any":
                    c = t[2][0]
                    return len(c[3]) == 1 and src(c[3][0]) and c[2][0] == "cmp" and c[2][1] == "is not" and NONE in c[2][2:4] and any(report(y, c[3][0]) for y in c[2][2:4])
                return fails(t[2][0])
            if t[0] == "comp" and len(t[3]) == 1 and src(t[3][0]) and len(t[4]) == 1:
                c = t[4][0]
                if t[2][0] == "item" and t[2][2] != i and i is not None or t[2] == NONE:
                    return False
                return c[0] == "cmp" and c[1] == "is not" and NONE in c[2:4] and any(report(y, t[3][0]) for y in c[2:4])
            return False

        def src(it):
            return isV(strip(it))
        none = edges(fl, falsy(fails))
        p = fl.find_path([g], [fl.g.exit] + others, avoid_edge=none, skip_labels=NORMAL)
        rep.check(p is None, "raised", "a failure reported by any process is raised on all", g.where(), path_str(p))
        # the single-process report
        q = None
        for n in fl.g.live:
            if n.kind == "cond":
                for s, l in n.succ:
                    if sg(n, s, l):
                        bothn = edges(fl, lambda a: falsy(fails)(a) or a[0] == "not" and a[1][0] in ("param", "attr"))
                        q = q or fl.find_path([n], [fl.g.exit], avoid_edge=lambda m, s2, l2, n=n, l=l: bothn(m, s2, l2) or m is n and l2 != l, skip_labels=NORMAL)
        rep.check(q is None, "alone", "a single process's failure is raised too", g.where(), path_str(q))
        caught(P, rep, fl, g, [y for y in alts(err[0][1]) if y[0] == "fstr" and has(y, lambda z: z[0] == "exc")], sg)
        return
    if envelope:
        sites["err"] += 1
        bad = edges(fl, falsy(lambda y: has(y, lambda z: z[0] == "key" and z[2] == "error") and has(y, lambda z: z[0] in ("idx", "item") and isV(norm(P, z[1])))))
        p = fl.find_path([g], [fl.g.exit] + others, avoid_edge=bad, skip_labels=NORMAL)
        rep.check(p is None, "raised", "a failure reported by the deciding process is raised on all", g.where(), path_str(p))
        isd = edges(fl, lambda a: a[0] == "call" and a[1] == "isinstance" and has(a, lambda z: z[0] in ("idx", "item") and isV(norm(P, z[1]))))
        p = fl.find_path([g], [fl.g.exit] + others, avoid_edge=isd, skip_labels=NORMAL)
        rep.check(p is None, "raised", "a missing report of the deciding process is an error", g.where(), path_str(p))
        caught(P, rep, fl, g, [y for y in envelope], sg)
        return
    # values that must agree
    sites["cmp"] += 1

    def part(t, base):
        """the path of items from base to t"""
        path = []
        while t != base and t[0] in ("item", "idx"):
            path.append(t[2])
            t = t[1]
        return tuple(path) if t == base else None

    def val(t, it):
        """the component of the element of it that t is"""
        return part(t, ("elem", strip(it)))

    def first(t):
        """the component of the first process's value that t is"""
        r = set()
        for y in alts(t):
            p = next((q for q in (part(y, b) for b in (G, ("phi", G, ("seq", e)), ("phi", ("seq", e), G))) if q), None)
            if p is not None:
                if p[-1] not in (0, ("const", 0)):
                    return None
                r.add(p[:-1])
            else:
                q = next((k for k in range(len(e) - 1) if e[0] == "seq" and e[k + 1] == y), None)
                r.add(() if y == e else (q,) if q is not None else None)
        return r.pop() if len(r) == 1 else None

    def rest(it):
        it = strip(it)
        return isV(it) or it[0] == "slice" and isV(it[1]) and it[2] in (("const", 1), ("const", 0), NONE) and it[3] == NONE and it[4] in (NONE, ("const", 1))

    def cmpof(t, op):
        return t[0] == "cmp" and t[1] == op and any(val(a, X[0]) is not None and val(a, X[0]) == first(b) for a, b in (t[2:4], t[3:1:-1]))
    X = [None]

    def differs(t):
        if t[0] == "call" and t[1] == "any" and len(t[2]) == 1 and t[2][0][0] == "comp" and len(t[2][0][3]) == 1 and rest(t[2][0][3][0]):
            c = t[2][0]
            X[0] = c[3][0]
            return not c[4] and cmpof(c[2], "!=")
        if t[0] == "comp" and len(t[3]) == 1 and rest(t[3][0]) and len(t[4]) == 1:
            X[0] = t[3][0]
            return cmpof(t[4][0], "!=")
        return False

    def agree(t):
        if t[0] == "call" and t[1] == "all" and len(t[2]) == 1 and t[2][0][0] == "comp" and len(t[2][0][3]) == 1 and rest(t[2][0][3][0]):
            c = t[2][0]
            X[0] = c[3][0]
            return not c[4] and cmpof(c[2], "==")
        return False

    def eqatom(a):
        if a[0] == "forall":
            X[0] = norm(P, a[1])
            return rest(X[0]) and cmpof(norm(P, a[2]), "==")
        a = norm(P, a)
        if a[0] == "cmp" and a[1] in ("==", "<=", "<") and any(y[0] == "call" and y[1] == "len" and isset(y[2][0]) for y in a[2:4]):
            return a[1] == "==" and ("const", 1) in a[2:4] or a[1] == "<=" and a[3] == ("const", 1) or a[1] == "<" and a[3] == ("const", 2)
        return agree(a) or a[0] == "not" and (differs(a[1]) or a[1][0] == "call" and a[1][1] in ("len", "bool") and differs(a[1][2][0])) or \
            a[0] == "cmp" and a[1] == "==" and ("const", 0) in a[2:4] and any(y[0] == "call" and y[1] == "len" and differs(y[2][0]) for y in a[2:4])
    eq0 = edges(fl, eqatom)
    # the comparison spelled out: a loop over all values in which only equal ones let the next round begin
    heads = set()
    for h in fl.g.live:
        if h.kind == "for" and h.expr is not None:
            X[0] = it = norm(P, fl.term(h, h.expr))
            if rest(it):
                def same(a, it=it):
                    X[0] = it
                    return cmpof(norm(P, a), "==")
                if fl.find_path([h], [h], src_labels=("it",), avoid_edge=edges(fl, same), skip_labels=NORMAL) is None:
                    heads.add(h)
    eq = lambda n, s, l: eq0(n, s, l) or n in heads and l == "done"
    # a difference noted in an error list that is judged later: those paths cannot find the list empty
    noted = edges(fl, lambda a: a[0] == "not" and a[1][0] in ("seq", "comp", "call") and has(a[1], lambda y: y[0] == "fstr" and has(y, lambda z: isV(norm(P, z)) or z == G)))
    apps = [n for n in method(fl, "append") if has(norm(P, argval(fl, n, 0, NONE)), lambda y: y == G)]
    p = fl.find_path([g], [fl.g.exit] + others, avoid_edge=lambda m, s, l: eq(m, s, l), avoid=apps, skip_labels=NORMAL)
    rep.check(p is None, "compared", "a value that differs between processes is an error", g.where(), path_str(p))
    for n in apps:
        r = norm(P, fl.recv(n))
        p = fl.find_path([n], [fl.g.exit], avoid_edge=noted, skip_labels=NORMAL) if r[0] != "param" else None
        rep.check(p is None, "compared", "a noted difference is raised", n.where(), path_str(p))
    p = fl.find_path([fl.g.entry], apps, avoid=[g], skip_labels=NORMAL) if apps and not any(n.kind == "cond" and any(sg(n, s, l) for s, l in n.succ) for n in fl.g.live) else None
    for h in [n for n in fl.g.live if n.kind == "cond"]:
        for s, l in h.succ:
            if l in ("T", "F") and eq(h, s, l):
                o = [x for x, k in h.succ if k in ("T", "F") and k != l]
                p = None if not o else None if o[0] in apps else fl.find_path(o, [fl.g.exit] + others, avoid=apps, skip_labels=NORMAL)
                if o and o[0] is fl.g.exit:
                    p = [h, o[0]]
                rep.check(p is None, "compared", "a difference between processes ends in an error", h.where(), path_str(p))


def caught(P, rep, fl, g, reports, sg):
    """handlers that produce the reports catch everything and always lead to the exchange"""
    hs = [n for n in fl.g.live if n.kind == "handler" and any(isinstance(d[1], tuple) and d[1] and d[1][0] == "exc" for d in n.defs)]
    use = []
    gs = list(calls(fl, lambda k: k and k[0] == "global" and k[1] == "accelerate.utils.gather_object"))
    for x in fl.g.live:
        for d in x.defs:
            if isinstance(d[1], tuple) and d[1] and d[1][0] == "expr" and fl.find_path([x], [g], avoid=[y for y in gs if y is not g], skip_labels=NORMAL) is not None:
                try:
                    t = norm(P, fl.storeval(x, d[1]))
                except Exception:
                    continue
                if t in reports:
                    use.append(x)
    rep.check(bool(use), "reported", "the failure is put into the report", g.where(), "no report is built")
    found = set()
    for x in use:
        for h in hs:
            if fl.find_path([h], [x], skip_labels=NORMAL, avoid=[y for y in gs + hs if y is not h]) is not None:
                found.add(h)
    rep.check(bool(found), "reported", "failures are caught", g.where(), "no handler leads to the exchange")
    for h in hs:
        # any other failure caught on the way to the exchange
        if fl.find_path([h], [g], avoid=[y for y in gs + hs if y is not g and y is not h], skip_labels=NORMAL) is not None:
            found.add(h)
    for h in sorted(found, key=lambda n: n.id):
        # within one handler that reports, the whole handler must
        p = fl.find_path([h], [fl.g.exit, fl.g.raise_exit], avoid=[g], avoid_edge=sg, skip_labels=NORMAL)
        rep.check(p is None, "reported", "a caught failure reaches the exchange", h.where(), path_str(p))
        q = fl.find_path([h], [g], avoid=use, skip_labels=NORMAL)
        rep.check(q is None, "reported", "a caught failure is reported", h.where(), path_str(q))
        for d, l in h.pred:
            if d.kind == "dispatch":
                out = [s for s, k in d.succ if k in ("exc", "excb")]
                p = next((fl.find_path([d], [fl.g.raise_exit], src_labels=("exc", "excb"), avoid=[g], avoid_edge=sg, skip_labels=()) for _ in [0] if out), None)
                rep.check(p is None, "reported", "every kind of failure is caught", h.where(), path_str(p))


def boundary(P, rep, fl, f, g, sites):
    """a local list of failures handed to the collective boundary"""
    sites["ok"] += 1
    lst = norm(P, fl.arg(g, 1, "errors") or NONE)
    ok = has(lst, lambda y: y[0] == "exc") or lst[0] in ("param", "item", "call", "mcall") or lst[0] == "bin" and all(y[0] in ("param", "item", "call", "mcall") for y in lst[2:4]) or has(lst, lambda y: y[0] == "fstr")
    rep.check(ok, "reported", "local failures are handed over at the boundary", g.where(), show(lst)[:120])
    use = []
    for x in fl.g.live:
        if x.kind == "call" and x.call is not None and fl.callee(x) and fl.callee(x)[0] == "method" and fl.callee(x)[1] == "append":
            t = argval(fl, x, 0, None)
            if t is not None and has(t, lambda y: y[0] == "exc") and has(lst, lambda y: y == norm(P, t)):
                use.append(x)
        for d in x.defs:
            if isinstance(d[1], tuple) and d[1] and d[1][0] == "expr" and isinstance(d[1][1], ast.List):
                try:
                    t = norm(P, fl.storeval(x, d[1]))
                except Exception:
                    continue
                if has(t, lambda y: y[0] == "exc") and (t == lst or t in alts(lst) or has(lst, lambda y: y == t)):
                    use.append(x)
    if not use:
        return
    hs = [n for n in fl.g.live if n.kind == "handler" and any(isinstance(d[1], tuple) and d[1] and d[1][0] == "exc" for d in n.defs)]
    found = [h for h in hs if any(fl.find_path([h], [x], skip_labels=NORMAL, avoid=[g]) for x in use)]
    loop = inner_loop(fl, g)
    for h in found:
        dst = [fl.g.exit, fl.g.raise_exit]
        p = fl.find_path([h], dst, avoid=[g] + [x for x in method(fl, "_synchronize_phase_errors")], skip_labels=NORMAL)
        rep.check(p is None, "reported", "a caught failure reaches the boundary", h.where(), path_str(p))
        q = fl.find_path([h], [g], avoid=use, skip_labels=NORMAL)
        rep.check(q is None, "reported", "a caught failure is in the list", h.where(), path_str(q))
        for d, l in h.pred:
            if d.kind == "dispatch" and any(k in ("exc", "excb") for _, k in d.succ):
                p = fl.find_path([d], [fl.g.raise_exit], src_labels=("exc", "excb"), avoid=[g], skip_labels=())
                rep.check(p is None, "reported", "every kind of failure is caught", h.where(), path_str(p))


def callbacks(P, rep, fl, f, coll):
    for n in method(fl, "_run_synchronized_operation", "_collective_dataset_call"):
        c = fl.callee(n)[1]
        i = 1
        cb = n.call.args[i] if len(n.call.args) > i else next((k.value for k in n.call.keywords if k.arg == "callback"), None)
        names = set()
        if cb is not None:
            for x in ast.walk(cb):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    names.add(x.attr)
                if isinstance(x, ast.Name):
                    # a local function
                    for y in ast.walk(f.node):
                        if isinstance(y, ast.FunctionDef) and y.name == x.id:
                            names |= {z.attr for z in ast.walk(y) if isinstance(z, ast.Attribute) and isinstance(z.value, ast.Name) and z.value.id == "self"}
                            names |= {"gather_object" for z in ast.walk(y) if isinstance(z, ast.Name) and z.id == "gather_object"}
        bad = names & (coll | {"gather_object"})
        rep.check(cb is not None and not bad, "inside", "work between barriers enters no collective", n.where(), f"{sorted(bad)[:1]}")


def avail(P, rep, fl, f):
    """the fetched batch is available on all processes"""
    one = edges(fl, falsy(lambda t: has(t, lambda y: y[0] == "mcall" and y[2] == "gather" and has(y[1], lambda z: z == ACC)) or t[0] == "phi" and has(t, lambda y: y[0] == "mcall" and y[2] == "gather")))
    g = [n for n in method(fl, "gather") if collective(fl, n)]
    rep.check(bool(g), "compared", "availability of a batch is exchanged", f.where(), "it is not")
    p = fl.find_path(g, [fl.g.exit], avoid_edge=one, skip_labels=NORMAL)
    rep.check(p is None, "raised", "a batch missing on any process is an error on all", f.where(), path_str(p))
    for x in fl.g.live:
        if x.kind != "cond" or x.expr is None:
            continue
        t = norm(P, fl.term(x, x.expr))
        for y in alts(t):
            if y[0] == "comp" and has(y, lambda z: z[0] == "mcall" and z[2] == "gather"):
                fs = y[4]
                it = y[3][0][2][0] if y[3][0][:2] == ("call", "enumerate") else y[3][0]
                ok = len(fs) == 1 and fs[0] == ("not", ("elem", it)) and it[0] == "mcall" and not has(it, lambda z: z[0] == "slice")
                rep.check(ok, "raised", "every process without a batch is noticed", x.where(), show(y)[:160])
    for n in g:
        a = norm(P, fl.arg(n, 0, None))
        flag = [z for z in (a[2][0][1:] if a[0] == "call" and a[1] == "torch.tensor" and a[2][0][0] == "seq" else [])]
        rep.check(bool(flag) and set(alts(flag[0])) == {("const", True), ("const", False)}, "reported", "each process reports its own availability", n.where(), show(a)[:100])
    # availability is withdrawn exactly when no batch came
    hs = [n for n in fl.g.live if n.kind == "handler"]
    rep_ = [x for x in fl.g.live for d in x.defs if isinstance(d[1], tuple) and d[1] and d[1][0] == "expr" and isinstance(d[1][1], ast.Constant) and d[1][1].value is False]
    nx = list(calls(fl, lambda c: c and c[0] in ("builtin", "global") and c[1] in ("next", "builtins.next"), True))
    for h in hs:
        p = fl.find_path([h], g, avoid=rep_ + nx, skip_labels=NORMAL)
        rep.check(p is None, "reported", "a process without a batch says so", h.where(), path_str(p))


def sync(P, rep, B):
    m = B.find("_run_synchronized_operation")
    if m is None:
        rep.bad("raised", "operations between barriers propagate failures", B.module.rel, "mechanism not found")
        return
    fl = flow(P, m, helpers(), cls=B)
    cb = [n for n in fl.g.live if n.kind == "call" and n.call is not None and fl.callee(n) and (fl.callee(n)[0] == "value" or True) and fl.term(n, n.call.func) == ("param", "callback")]
    rep.check(len(cb) == 1, "inside", "the operation is run once", m.where(), f"{len(cb)} calls")
    g = [n for n in calls(fl, lambda k: k and k[0] == "global" and k[1] == "accelerate.utils.gather_object")]
    w = method(fl, "wait_for_everyone")
    if not (cb and g):
        return
    MAIN = ("attr", ACC, "is_main_process")
    rows = booltable(fl, P, stops={**{n: True for n in cb}, **{n: False for n in g}})
    d = decides(rows, [("param", "main_process_only"), MAIN], lambda o, mm: not o or mm)
    rep.check(d is None, "inside", "the operation runs on every process, or on the main one when so asked", m.where(), str(d))
    p = fl.find_path([fl.g.entry], cb + g, avoid=w, skip_labels=NORMAL)
    rep.check(p is None, "inside", "processes meet before the operation", m.where(), path_str(p))
    first = [fl.find_path([fl.g.entry], [x], skip_labels=NORMAL) for x in w]
    after = [x for x in w if fl.find_path(cb, [x], skip_labels=NORMAL) is not None]
    for lab, src in ((None, "normally"), (("exc", "excb"), "after a failure")):
        p = fl.find_path(cb, g, avoid=[x for x in w], src_labels=lab, skip_labels=NORMAL)
        rep.check(p is None, "inside", f"processes meet again {src}", m.where(), path_str(p))
    p = fl.find_path(cb, [fl.g.exit, fl.g.raise_exit], src_labels=("exc", "excb"), avoid=g, skip_labels=NORMAL)
    rep.check(p is None, "reported", "a failure of the operation reaches the exchange", m.where(), path_str(p))
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=g, skip_labels=NORMAL)
    rep.check(p is None, "all-enter", "every process takes part in the exchange", m.where(), path_str(p))


def phase(P, rep, B):
    m = B.find("_synchronize_phase_errors")
    if m is None:
        rep.bad("raised", "phase failures are raised on all processes", B.module.rel, "mechanism not found")
        return
    fl = flow(P, m, helpers(), cls=B)
    E, ONE = ("param", "errors"), ("cmp", "==", ("attr", ACC, "num_processes"), ("const", 1))
    rows = [(a, "ok" if o in (None, False) else "raise" if o == "raise" else o) for a, o in booltable(fl, P, skip_loops=True)]
    at = lambda f: next((x for asg, _ in rows for x in asg if f(x)), ("none", f))
    RED = at(lambda x: x[0] == "cmp" and x[1] == "==" and has(x, lambda y: y[0] == "mcall" and y[2] == "reduce") and ("attr", ACC, "num_processes") in x[2:4])
    d = decides(rows, [ONE, E, RED], lambda o, e, r: ("raise" if e else "ok") if o else ("ok" if r else "raise"))
    rep.check(d is None, "raised", "a phase ends normally only if no process failed", m.where(), str(d))
    red = method(fl, "reduce")
    rep.check(bool(red), "reported", "the processes' outcomes are added up", m.where(), "no reduction")
    for n in red:
        a, how = norm(P, fl.arg(n, 0, None)), norm(P, argval(fl, n, 1, "reduction", ("const", "mean")))
        rep.check(a[0] == "call" and a[1] == "torch.tensor" and a[2][0] == ("not", E) and how == ("const", "sum"), "reported", "a process counts as fine only without failures", n.where(), show(a)[:80])
