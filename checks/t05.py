"""T05: checkpoints are written when due, and pruning deletes only what the retention rules allow."""
import ast
from sa.flow import alts, flow, has, show
from sa.lib import calls, norm, path_str, returns
from sa.rules import (NORMAL, argval, booltable, canon, decides, edges, either, every_round, exhausts, inner_loop, method, must_pass, stores_to, termtable, truthy, whole)

SELF = ("self",)
A = lambda n: ("attr", SELF, n)
NONE = ("const", None)
ITER = ("attr", A("state"), "iteration")
LIST = ("call", "os.listdir", (A("ckpt_dir"),), ())
FN = ("elem", LIST)
DELETERS = {"os.remove", "os.unlink", "os.rmdir", "os.removedirs", "shutil.rmtree", "os.truncate"}


def isiter(t):
    return t[0] == "call" and t[1].endswith("get_iteration_from_ckpt_filename") and t[2] and has(t[2][0], lambda x: x == FN)


def run(P, rep):
    rep.rule("deletes", "only the clean-up deletes files of a run directory, and only of the three kinds the rules allow")
    rep.rule("states", "training states are deleted lowest iteration first and only those beyond the configured number")
    rep.rule("snapshots", "model files are deleted only for this session's temporary iterations, never the newest one's or a kept state's")
    rep.rule("sidecars", "a runtime file is deleted only when no kept state names it or it is a left-over temporary")
    rep.rule("validate-first", "nothing is deleted before every kept state has been validated and malformed runtime names ruled out")
    rep.rule("session", "temporary iterations are those this session saved off the permanent interval")
    rep.rule("schedule", "weights and training state are saved exactly at the due iterations, and at the end")
    rep.rule("no-overwrite", "an existing state of the iteration is validated instead of replaced")
    B = P.cls("trainer.base:BaseTrainer")
    m = B.find("_cleanup_checkpoints")
    if m is None:
        rep.bad("states", "old checkpoints are pruned", B.module.rel, "no clean-up found")
    else:
        cleanup(P, rep, B, m)
    deleters(P, rep, B)
    session(P, rep, B)
    schedule(P, rep, B)


def removal_nodes(fl):
    out = []
    for n in calls(fl, None, True):
        c = fl.callee(n)
        if c and c[0] in ("global", "lib", "ext", "builtin") and c[1] in DELETERS or c and c[0] == "method" and c[1] in ("unlink", "rmdir"):
            out.append(n)
    return out


def cleanup(P, rep, B, m):
    fl = flow(P, m, lambda g, c, x: g.cls is B and g.name not in ("_validate_rank_resume_states", "_validate_retained_vq_runtime_manifest"), cls=B)
    rep.graph(fl)
    rem = removal_nodes(fl)
    rep.floor("deletions in the clean-up", len(rem), 3)
    kinds = {}
    for n in rem:
        t = norm(P, fl.arg(n, 0, None) or fl.recv(n))
        k = kind(t)
        kinds.setdefault(k, []).append((n, t))
        if k is None:
            rep.bad("deletes", "every deletion is of an old state, a temporary snapshot or an unused runtime file", n.where(), show(t)[:160])
    for k, what in (("state", "old training states are deleted"), ("snap", "temporary snapshots are deleted"), ("side", "unused runtime files are deleted")):
        rep.check(k in kinds, "states" if k == "state" else "snapshots" if k == "snap" else "sidecars", what, m.where(), "never deleted")
    # states -------------------------------------------------------------
    S = None
    for n, t in kinds.get("state", []):
        sl = t[1][1]
        S, up = sl[1], sl[3]
        rep.check(sl[2] in (NONE, ("const", 0)) and sl[4] in (NONE, ("const", 1)) and count(S, up), "states", "the deleted states are the first ones beyond the number to keep",
                  n.where(), show(sl)[-200:])
        rep.check(inner_loop(fl, n) is not None and every_round(fl, inner_loop(fl, n), [n]) is None, "states", "every state beyond the number is deleted", n.where(), "skipped")
        L = base(S)
        rep.check(L is not None and L[3] == (LIST,) and L[2][0] == "seq" and isiter(L[2][1]), "states", "states are ordered by their iteration", n.where(), show(S)[:120])
        if S[0] != "call":
            srt = [x for x in method(fl, "sort") if norm(P, fl.recv(x)) == S and plain(P, fl, x)]
            uses = [x for x in fl.g.live if x.expr is not None and x.kind in ("for", "stmt", "assign") and has(tt(P, fl, x), lambda y: y[0] == "slice" and y[1] == S)]
            p = must_pass(fl, [fl.g.entry], uses + [n], srt)
            rep.check(p is None, "states", "states are sorted before they are split", n.where(), path_str(p))
        keepcond(P, rep, fl, n, up, S)
    for n in method(fl, "append", "add", "insert", "extend"):
        t = argval(fl, n, 0, None)
        if t is not None and t[0] == "seq" and len(t) == 3 and isiter(t[1]):
            member(P, rep, fl, n, "state_", "states")
    for n in method(fl, "append"):
        r = fl.recv(n)
        g = r is not None and (r[0] == "mcall" and r[2] == "setdefault" or r[0] == "idx")
        if g and has(r, isiter):
            member(P, rep, fl, n, "ckpt_", "snapshots")
    # snapshots --------------------------------------------------------------
    TMP = A("_temp_snapshot_iters")
    for n, t in kinds.get("snap", []):
        src = t[1]
        it = src[3][0] if src[0] == "mcall" else src[2]
        groups = src[1]
        rep.check(it[0] == "elem" and whole(it[1], lambda y: y == TMP) == "elem" or it[0] == "elem" and it[1] == TMP, "snapshots", "only iterations of this session's temporary snapshots are considered",
                  n.where(), show(it)[:120])
        latest = lambda y: y[0] == "call" and y[1] == "max" and y[2] and has(y[2][0], isiter)
        newest = edges(fl, lambda a: a[0] == "cmp" and a[1] == "!=" and it in a[2:4] and any(latest(norm(P, y)) for y in a[2:4])
                       or a[0] == "cmp" and a[1] == "<" and a[2] == it and latest(norm(P, a[3])))
        keptset = lambda y: has(y, lambda z: z[0] == "slice" and S is not None and z[1] == S) and y[0] in ("comp", "set", "call", "seq")
        kept = edges(fl, lambda a: a[0] == "cmp" and a[1] == "not in" and a[2] == it and keptset(norm(P, a[3])))
        h = [x for x in fl.loops_of(n) if has(norm(P, fl.term(x, x.expr)), lambda y: y == TMP)][:1]
        st = h or [fl.g.entry]
        if h:
            ih = [x for x in fl.loops_of(n) if x is not h[0]]
            rows = booltable(fl, P, starts=[x for x, l in h[0].succ if l == "it"], stops={(ih or [n])[0]: "deleted", h[0]: "kept"})
            at = lambda f: next((x for asg, _ in rows for x in asg if f(x)), ("none", f))
            NEW = at(lambda x: x[0] == "cmp" and x[1] == "==" and it in x[2:4] and any(latest(y) for y in x[2:4]))
            KEPT = at(lambda x: x[0] == "cmp" and x[1] == "in" and x[2] == it and keptset(x[3]))
            d = decides(rows, [NEW, KEPT], lambda a, b: "kept" if a or b else "deleted")
            rep.check(d is None, "snapshots", "exactly the temporary snapshots that are neither newest nor kept are deleted", n.where(), str(d))
            for x in [h[0]] + ih:
                rep.check(exhausts(fl, x) is None, "snapshots", "every temporary snapshot is considered", x.where(), path_str(exhausts(fl, x)))
            for x in ih:
                p = every_round(fl, x, [n])
                rep.check(p is None, "snapshots", "all models of a dropped iteration are deleted", n.where(), path_str(p))
        for what, e in (("the newest models are never deleted", newest), ("models of a kept state are never deleted", kept)):
            p = fl.find_path(st, [n], avoid_edge=e, src_labels=("it",) if h else None, skip_labels=NORMAL) if h else fl.find_path(st, [n], avoid_edge=e, skip_labels=NORMAL)
            rep.check(p is None, "snapshots", what, n.where(), path_str(p))
        for x in fl.g.live:
            if x.kind != "cond" or x.expr is None:
                continue
            for l in ("T", "F"):
                for a, _ in fl.edge_atoms(x, l):
                    if a[0] == "cmp" and it in a[2:4]:
                        for y in (norm(P, z) for z in a[2:4]):
                            if latest(y):
                                ok = groups_ok(y[2][0]) and not (y[3] and any(k == "key" for k, _ in y[3]))
                                rep.check(ok, "snapshots", "the newest iteration is the highest of all model files", x.where(), show(y)[:140])
                            if keptset(y) and a[1] in ("in", "not in"):
                                rep.check(keptok(y, S, fl), "snapshots", "the kept iterations are those of all kept states", x.where(), show(y)[:160])
        rep.check(groups_ok(groups), "snapshots", "model files are grouped by their iteration", n.where(), show(groups)[:120])
        d = [x for x in method(fl, "discard", "remove") if norm(P, fl.recv(x)) == TMP]
        p = fl.find_path([x for x in d], [n], skip_labels=NORMAL, avoid=h) if h else None
        rep.check(p is None, "snapshots", "an iteration is forgotten only after its files are gone", n.where(), path_str(p))
        for x in d:
            q = fl.find_path(st, [x], avoid_edge=kept, src_labels=("it",), skip_labels=NORMAL) or fl.find_path(st, [x], avoid_edge=newest, src_labels=("it",), skip_labels=NORMAL)
            rep.check(q is None, "snapshots", "an iteration whose files stay is not forgotten", x.where(), path_str(q))
    # sidecars -------------------------------------------------------------
    adds = []
    for n in method(fl, "add", "append", "update", "extend"):
        t = argval(fl, n, 0, None)
        if t is not None and has(t, lambda y: y[0] == "mcall" and y[2] == "_validate_retained_vq_runtime_manifest"):
            adds.append(n)
    for n, t in kinds.get("side", []):
        h = inner_loop(fl, n)
        if h is None:
            rep.bad("sidecars", "every runtime file is considered", n.where(), "no loop")
            continue
        first = [x for x, l in h.succ if l == "it"]
        rows = booltable(fl, P, starts=first, stops={n: "deleted", h: "kept"})
        at = lambda f: next((x for asg, _ in rows for x in asg if f(x)), ("none", f))
        SIDE, TEMP = at(lambda x: rxof(P, x) in ("side", "noside")), at(lambda x: rxof(P, x) in ("temp", "notemp"))
        flip = [rxof(P, x) in ("noside", "notemp") for x in (SIDE, TEMP)]
        PROT = at(lambda x: x[0] == "cmp" and x[1] == "in" and x[2] == FN and protected(norm(P, x[3]), S))
        d = decides(rows, [SIDE, PROT, TEMP], lambda s, p, t: "deleted" if (s != flip[0]) and not p or (t != flip[1]) else "kept")
        rep.check(d is None, "sidecars", "exactly the runtime files no kept state names, and left-over temporaries, are deleted", n.where(), str(d))
        rep.check(exhausts(fl, h) is None, "sidecars", "every runtime file is considered", h.where(), path_str(exhausts(fl, h)))
        rep.check(h is not None and norm(P, fl.term(h, h.expr)) in (LIST, ("call", "sorted", (LIST,), ())), "sidecars", "every runtime file is considered", n.where(), show(t)[:100])
    # validation first -----------------------------------------------------------
    KEEP = lambda t: t[0] == "slice" and S is not None and t[1] == S
    heads = [h for h in fl.g.live if h.kind == "for" and h.ctx is fl.g.rootctx and keep_slice(whole_slice(norm(P, fl.term(h, h.expr))), S)]
    v = method(fl, "_validate_rank_resume_states")
    heads = [h for h in heads if any(x in method(fl, "_validate_rank_resume_states") and h in fl.loops_of(x) for x in v)]
    rep.check(bool(heads), "validate-first", "every kept state is validated", m.where(), "no loop over all kept states validates them")
    for n in rem:
        p = must_pass(fl, [fl.g.entry], [n], heads)
        rep.check(p is None and bool(heads), "validate-first", "a deletion follows the validation of kept states", n.where(), path_str(p))
        p = fl.find_path([n], heads, skip_labels=NORMAL)
        rep.check(p is None, "validate-first", "no kept state is still to be validated when a file is deleted", n.where(), path_str(p))
        mal = edges(fl, lambda a: malformed(P, fl, a))
        p = fl.find_path([fl.g.entry], [n], avoid_edge=mal, skip_labels=NORMAL)
        rep.check(p is None, "validate-first", "malformed runtime files stop the clean-up", n.where(), path_str(p))
    for h in heads:
        p = every_round(fl, h, v)
        rep.check(p is None, "validate-first", "no kept state is passed over", h.where(), path_str(p))
        V2 = lambda a: a[0] == "cmp" and a[1] == "!=" and any(y[0] == "key" and y[2] == "version" for y in (norm(P, z) for z in a[2:4])) and ("const", 2) in a[2:4]
        ih = [x for x in fl.g.live if x.kind == "for" and x is not h and h in fl.loops_of(x) and any(y in adds and x in fl.loops_of(y) for y in adds)]
        p = every_round(fl, h, ih, edges(fl, V2))
        rep.check(p is None and bool(ih), "sidecars", "every kept state's runtime files are looked up", h.where(), path_str(p))
        for x in ih:
            p = every_round(fl, x, adds)
            rep.check(p is None, "sidecars", "every process's runtime file is protected", x.where(), path_str(p))
            it = norm(P, fl.term(x, x.expr))
            w = whole(it, lambda y: y[0] == "mcall" and y[2] == "_validate_rank_resume_states")
            rep.check(bool(w), "sidecars", "the runtime files of all processes are protected", x.where(), show(it)[:100])
        itv = ("item", ("elem", None), 0)
        for x in adds:
            for c in method(fl, "_validate_retained_vq_runtime_manifest"):
                a0 = norm(P, argval(fl, c, 0, "manifest", NONE))
                rep.check(a0[0] == "key" and a0[2] == "vq_runtime", "sidecars", "the looked-up runtime file is the state's own", c.where(), show(a0)[-80:])
                a1, a2 = norm(P, argval(fl, c, 1, "iteration", NONE)), norm(P, argval(fl, c, 2, "rank", NONE))
                rep.check(a1[0] == "item" and a1[2] == 0 and keep_slice(a1[1][1], S), "sidecars", "the runtime file must be of the state's iteration", c.where(), show(a1)[:80])
                rep.check(a2[0] == "index" or a2[0] == "elem" and a2[1][0] == "call" and a2[1][1] == "range", "sidecars", "the runtime file must be the process's own", c.where(), show(a2)[:80])
        # refusals inside the loop
        ld = [x for x in calls(fl, lambda c: c and c[0] == "global" and c[1] == "torch.load", True) if h in fl.loops_of(x)]
        rep.check(bool(ld), "validate-first", "kept states are read", h.where(), "not read")
        tests = {
            "format": lambda a: a[0] == "cmp" and a[1] == "==" and any(y[0] == "key" and y[2] == "format_version" for y in map(lambda z: norm(P, z), a[2:4])) and ("const", 2) in a[2:4],
            "iteration": lambda a: a[0] == "cmp" and a[1] == "==" and has(a, lambda y: y[0] == "key" and y[2] == "iteration") and has(a, isiter),
            "process count": lambda a: a[0] == "cmp" and a[1] == "==" and has(a, lambda y: y[0] == "key" and y[2] == "world_size") and has(a, lambda y: y == ("attr", A("accelerator"), "num_processes")),
        }
        def wellformed(x, l):
            return True
        tests["resume version"] = lambda a: a[0] == "cmp" and (a[1] == "in" and a[2][0] == "key" and a[2][2] == "version" and {y for y in a[3][1:]} == {("const", 1), ("const", 2)}
                                                               or a[1] == "==" and any(y[0] == "key" and y[2] == "version" for y in a[2:4]) and (("const", 1) in a[2:4] or ("const", 2) in a[2:4]))
        tests["per-process entries"] = lambda a: a[0] == "cmp" and a[1] == "==" and any(y[0] == "call" and y[1] == "len" and has(y, lambda z: z[0] == "key" and z[2] == "ranks") for y in a[2:4]) \
            and ("attr", A("accelerator"), "num_processes") in a[2:4]
        for what, f in tests.items():
            e = edges(fl, lambda a, f=f: f(("cmp", a[1], norm(P, a[2]), norm(P, a[3])) if a[0] == "cmp" else a))
            p = fl.find_path([h], v, src_labels=("it",), avoid_edge=e, skip_labels=NORMAL)
            rep.check(p is None, "validate-first", f"a kept state's {what} is checked", h.where(), path_str(p))
    # swallowed validation failures
    for x in v + method(fl, "_validate_retained_vq_runtime_manifest") + [y for y in calls(fl, lambda c: c and c[0] == "global" and c[1] == "torch.load", True)]:
        p = fl.find_path([x], rem, src_labels=("exc", "excb"), skip_labels=())
        rep.check(p is None, "validate-first", "a failed validation stops the clean-up", x.where(), path_str(p))


def rxof(P, y):
    """which runtime name pattern an atom asserts a full match of ("x is None" atoms are negated matches)"""
    if y[0] == "cmp" and y[1] == "is" and NONE in y[2:4]:
        y = y[3] if y[2] == NONE else y[2]
        return {"side": "noside", "temp": "notemp"}.get(rxof(P, y))
    r = None
    if y[0] == "mcall" and y[2] == "fullmatch" and y[3][:1] == (FN,):
        r = repr(y[1])
    elif y[0] == "call" and y[1] == "re.fullmatch" and FN in y[2]:
        r = repr(y[2])
    elif y[0] == "call" and y[1].endswith(".fullmatch") and y[2] == (FN,):
        r = y[1]
    if r is None:
        return None
    return "temp" if "_RUNTIME_TEMP_RE" in r or "runtime-tmp_" in r else "side" if "_RUNTIME_SIDECAR_RE" in r or "runtime_" in r else None


def protected(t, S):
    while t[0] == "call" and t[1] in ("set", "frozenset", "list", "tuple") and len(t[2]) == 1:
        t = t[2][0]
    t = t[1] if t[0] == "seq" and len(t) == 2 and t[1][0] == "comp" else t[1][1] if t[0] == "seq" and len(t) == 2 and t[1][0] == "star" else t
    return t[0] == "comp" and not t[4] and t[2][0] == "mcall" and t[2][2] == "_validate_retained_vq_runtime_manifest" and any(keep_slice(whole_slice(x), S) for x in t[3])


def malformed(P, fl, a):
    """a asserts there are no malformed runtime names"""
    t = norm(P, a)
    if t[0] == "not":
        t = t[1]
    elif t[0] == "cmp" and t[1] == "==" and (("const", 0) in t[2:4] or ("seq",) in t[2:4]):
        t = [x for x in t[2:4] if x not in (("const", 0), ("seq",))][0]
    else:
        return False
    if t[0] == "call" and t[1] in ("len", "any", "bool") and len(t[2]) == 1:
        t = t[2][0]
    if t[0] != "comp" or t[3] != (LIST,):
        return False
    if t[2] != FN and t[1] == "list" and a[0] == "not":
        return False
    if t[2] == FN and t[4] and t[4][0][0] == 'guarded':
        # built by a loop: the condition under which a name is collected
        ok = False
        for n in method(fl, "append", "add"):
            h = inner_loop(fl, n)
            if norm(P, argval(fl, n, 0, None) or NONE) != FN or h is None or norm(P, fl.term(h, h.expr)) != LIST:
                continue
            rows = booltable(fl, P, starts=[x for x, l in h.succ if l == "it"], stops={n: True, h: False})
            if not bad_names(P, rows) or exhausts(fl, h) is not None:
                return False
            ok = True
        return ok
    return bad_names(P, termtable(P, ("and",) + (t[4] if t[2] == FN else (t[2],) + t[4])))


def bad_names(P, rows):
    at = lambda f: next((x for asg, _ in rows for x in asg if f(x)), ("none", f))
    pre = lambda p: at(lambda x: x == ("mcall", FN, "startswith", (("const", p),), ()))
    return decides(rows, [pre("runtime_"), at(lambda x: rxof(P, x) == "noside"), pre(".runtime-tmp_"), at(lambda x: rxof(P, x) == "notemp")],
                   lambda r, s, q, t: r and s or q and t) is None


def tt(P, fl, n):
    try:
        return norm(P, fl.term(n, n.expr))
    except Exception:
        return ("none",)


def plain(P, fl, n):
    for k in n.call.keywords:
        if k.arg == "reverse" and not (isinstance(k.value, ast.Constant) and k.value.value is False):
            return False
        if k.arg == "key":
            b = k.value.body if isinstance(k.value, ast.Lambda) else None
            if not (isinstance(b, ast.Subscript) and isinstance(b.slice, ast.Constant) and b.slice.value == 0):
                return False
    return True


def base(S):
    while S[0] == "call" and S[1] in ("sorted", "list") and len(S[2]) == 1:
        if S[1] == "sorted" and any(k == "reverse" for k, _ in S[3]):
            return None
        S = S[2][0]
    return S if S[0] == "comp" and S[1] == "list" else None


def kind(t):
    if t[0] == "item" and t[2] == 1 and t[1][0] == "elem" and t[1][1][0] == "slice" and base(t[1][1][1]) is not None:
        return "state"
    if t[0] == "elem" and (t[1][0] == "mcall" and t[1][2] in ("get", "pop") or t[1][0] in ("idx", "key")) and has(t, lambda y: y == A("_temp_snapshot_iters")):
        return "snap"
    if t == ("call", "os.path.join", (A("ckpt_dir"), FN), ()):
        return "side"
    return None


def count(S, up):
    """up = max(0, len(S) - keep) with keep in {len(S), num_keep_states}"""
    n = ("call", "len", (S,), ())
    if up[0] != "call" or up[1] != "max" or ("const", 0) not in up[2] or len(up[2]) != 2:
        return len(alts(up)) > 1 and all(y == ("const", 0) or count(S, y) for y in alts(up))
    b = [y for y in up[2] if y != ("const", 0)]
    ok = bool(b)
    for y in alts(b[0]) if b else []:
        ok = ok and (y == ("const", 0) or y[0] == "bin" and y[1] == "Sub" and y[2] == n and set(alts(y[3])) <= {n, A("num_keep_states")} and A("num_keep_states") in alts(y[3]))
    return ok


def keepcond(P, rep, fl, n, up, S):
    """the number to keep is the configured one unless that is negative"""
    K = A("num_keep_states")
    neg = edges(fl, lambda a: a[0] == "cmp" and (a[1] == "<" and a[2] == K and a[3] == ("const", 0) or a[1] == ">" and a[3] == K and a[2] == ("const", 0)
                                                 or a[1] == "<=" and a[2] == K and a[3] == ("const", -1) or a[1] == "==" and K in a[2:4] and ("const", -1) in a[2:4]
                                                 or a[1] == ">=" and a[3] == K and a[2] == ("const", -1)))
    pos = edges(fl, lambda a: a[0] == "cmp" and (a[1] == ">=" and a[2] == K and a[3] == ("const", 0) or a[1] == "<=" and a[3] == K and a[2] == ("const", 0)
                                                 or a[1] == ">" and a[2] == K and a[3] == ("const", -1) or a[1] == "<" and a[3] == K and a[2] == ("const", -1)
                                                 or a[1] == "!=" and K in a[2:4] and ("const", -1) in a[2:4]))
    LEN = ("call", "len", (S,), ())
    for x in fl.g.live:
        for d in x.defs:
            v = d[1]
            if not (isinstance(v, tuple) and v and v[0] == "expr"):
                continue
            try:
                t = norm(P, fl.storeval(x, v))
            except Exception:
                continue
            if t == LEN and has(up, lambda y: y == ("phi", K, LEN) or y == ("phi", LEN, K)) and not isinstance(getattr(x, "ast", None), ast.FunctionDef):
                p = fl.find_path([fl.g.entry], [x], avoid_edge=neg, skip_labels=NORMAL)
                q = fl.find_path([x], [n], skip_labels=NORMAL)
                if q is not None:
                    rep.check(p is None, "states", "all states are kept only for a negative number", x.where(), path_str(p))
    p = fl.find_path([fl.g.entry], [n], avoid_edge=pos, skip_labels=NORMAL) if has(up, lambda y: y == K) and not has(up, lambda y: y[0] == "phi" and LEN in y) else None
    rep.check(p is None, "states", "a negative number keeps all states", n.where(), path_str(p))
    for x in fl.g.live:
        if x.kind != "cond" or x.expr is None:
            continue
        for l in ("T", "F"):
            if any(neg(x, s, l) for s, l2 in x.succ if l2 == l):
                # on the negative edge the kept number must not be the configured one
                q = [y for y in fl.g.live for d in y.defs if isinstance(d[1], tuple) and d[1][0] == "expr" and safe(P, fl, y, d[1]) == K
                     and fl.find_path([x], [y], src_labels=(l,), skip_labels=NORMAL) and fl.find_path([y], [n], skip_labels=NORMAL)]
                rep.check(not q, "states", "a negative number is never used as a count", x.where(), "it is")


def safe(P, fl, n, v):
    try:
        return norm(P, fl.storeval(n, v))
    except Exception:
        return None


def member(P, rep, fl, n, prefix, rule):
    h = inner_loop(fl, n)
    st = [h] if h else [fl.g.entry]
    starts = edges(fl, truthy(lambda y: y == ("mcall", FN, "startswith", (("const", prefix),), ())))
    isfile = edges(fl, lambda a: a[0] == "call" and a[1] == "os.path.isfile")
    parsed = edges(fl, lambda a: a[0] == "cmp" and a[1] == "is not" and NONE in a[2:4] and any(isiter(y) for y in a[2:4]))
    for what, e in ((f"only files named {prefix}… are counted", starts), ("only regular files are counted", isfile), ("only files with an iteration are counted", parsed)):
        p = fl.find_path(st, [n], avoid_edge=e, skip_labels=NORMAL)
        rep.check(p is None, rule, what, n.where(), path_str(p))
    skip = edges(fl, lambda a: a[0] == "not" and (a[1] == ("mcall", FN, "startswith", (("const", prefix),), ()) or a[1][0] == "call" and a[1][1] == "os.path.isfile")
                 or a == ("mcall", FN, "startswith", (("const", "state_" if prefix == "ckpt_" else "ckpt_"),), ())
                 or a[0] == "cmp" and a[1] == "is" and NONE in a[2:4] and any(isiter(y) for y in a[2:4]))
    if h is not None:
        rep.check(exhausts(fl, h) is None, rule, "every file of the directory is looked at", h.where(), path_str(exhausts(fl, h)))
        p = every_round(fl, h, [n], skip)
        rep.check(p is None, rule, f"every file named {prefix}… is counted", n.where(), path_str(p))


def groups_ok(t):
    if t[0] == "call" and t[1] in ("list", "set", "sorted") and len(t[2]) == 1 or t[0] == "mcall" and t[2] == "keys":
        return groups_ok(t[2][0] if t[0] == "call" else t[1])
    if t[0] == "dict":
        t = next((v for k, v in t[1:] if k == ("**",)), t)
    return t[0] == "comp" and t[1] == "dict" and t[2][0] == "pair" and isiter(t[2][1]) and t[3] == (LIST,)


def whole_slice(t):
    while t[0] == "call" and t[1] in ("list", "tuple", "iter", "enumerate", "reversed", "sorted") and len(t[2]) == 1:
        t = t[2][0]
    return t


def keep_slice(t, S):
    return t[0] == "slice" and S is not None and t[1] == S and t[3] == NONE and t[4] in (NONE, ("const", 1)) and count(S, t[2])


def keptok(y, S, fl):
    while y[0] == "call" and y[1] in ("set", "frozenset", "list", "tuple") and len(y[2]) == 1:
        y = y[2][0]
    return y[0] == "comp" and not y[4] and len(y[3]) == 1 and keep_slice(y[3][0], S) and y[2] == ("item", ("elem", y[3][0]), 0)


def deleters(P, rep, B):
    """who deletes files at all"""
    cl = B.find("_cleanup_checkpoints")
    if cl is None:
        return
    seen = 0
    for f in P.all_funcs:
        if f.module.rel.startswith("trainer/") or f.module.rel.startswith("utils/") or f.module.rel == "train.py":
            src = ast.dump(f.node)
            if not any(x in src for x in ("'remove'", "'unlink'", "'rmtree'", "'truncate'", "'rmdir'", "'removedirs'")):
                continue
            fl = flow(P, f, (lambda g, c, x, f=f: g.cls is f.cls) if f.cls is not None else None, cls=f.cls)
            for n in removal_nodes(fl):
                seen += 1
                if f is cl or only_from(P, B, f, cl):
                    continue
                t = norm(P, fl.arg(n, 0, None) or fl.recv(n))
                tmp = edges(fl, lambda a: a[0] == "cmp" and a[1] == "is not" and NONE in a[2:4] and any("_RUNTIME_TEMP_RE" in repr(norm(P, y)) and has(norm(P, y), lambda z: z == t) for y in a[2:4]))
                p = fl.find_path([fl.g.entry], [n], avoid_edge=tmp, skip_labels=NORMAL)
                rep.check(p is None, "deletes", "outside the clean-up only a file's own temporary is deleted", n.where(), show(t)[:100])
    rep.floor("deletion sites", seen, 4)


def only_from(P, B, f, cl):
    """f is a helper of the clean-up: every call of it in the class is inside the clean-up (or another such helper)"""
    if f.cls is not B:
        return False
    ok, work, seen = True, [f], set()
    while work:
        g = work.pop()
        if g is cl or g.name in seen:
            continue
        seen.add(g.name)
        users = [h for h in B.methods.values() if h is not g and any(isinstance(x, ast.Attribute) and x.attr == g.name for x in ast.walk(h.node))]
        if not users:
            return False
        work += users
    return ok


def session(P, rep, B):
    adds, others = 0, []
    for name, f in B.methods.items():
        if not any(isinstance(x, ast.Attribute) and x.attr == "_temp_snapshot_iters" for x in ast.walk(f.node)):
            continue
        fl = flow(P, f, None, cls=B)
        TMP = A("_temp_snapshot_iters")
        for n in calls(fl, None, True):
            c = fl.callee(n)
            if c and c[0] == "method" and fl.recv(n) is not None and norm(P, fl.recv(n)) == TMP:
                if c[1] == "add":
                    adds += 1
                    t = norm(P, argval(fl, n, 0, None))
                    root, start = fl, n
                    rep.check(t == ITER or t[0] == "param", "session", "the iteration being saved is remembered", n.where(), show(t)[:80])
                elif c[1] in ("update", "__ior__"):
                    rep.bad("session", "only the iteration being saved is remembered", n.where(), show(norm(P, argval(fl, n, 0, None)))[:80])
        for n, tgt, v in stores_to(fl, lambda y: y == TMP):
            rep.check(name == "__init__" and norm(P, v) in (("call", "set", (), ()), ("set",)), "session", "a session starts without temporary snapshots", n.where(), show(v)[:80])
    rep.check(adds > 0, "session", "temporary snapshots are remembered", B.find("_cleanup_checkpoints").where(), "never")
    m = B.find("_save_checkpoint_main")
    fl = flow(P, m, lambda g, c, x: g.cls is B and g.name not in ("_build_training_state", "_cleanup_checkpoints", "_checkpointed_models", "_get_checkpoint_writer", "_unwrap", "_state_path", "_model_ckpt_path"), cls=B)
    rep.graph(fl)
    add = [n for n in method(fl, "add") if norm(P, fl.recv(n)) == A("_temp_snapshot_iters")]
    PERM = ("cmp", "==", ("bin", "Mod", ITER, A("save_interval")), ("const", 0))
    sub = method(fl, "submit")
    rows = booltable(fl, P, stops={**{n: "temp" for n in add}, **{n: "perm" for n in sub}}, skip_loops=True)
    d = decides(rows, [PERM], lambda perm: "perm" if perm else "temp")
    rep.check(d is None, "session", "an iteration is temporary exactly when it is off the permanent interval", m.where(), str(d))
    for n in add:
        t = norm(P, argval(fl, n, 0, None))
        rep.check(t == ITER, "session", "the iteration being saved is the one remembered", n.where(), show(t)[:80])
    st = [n for n in method(fl, "_build_training_state")]
    F = ("param", "force_state")
    SI = A("state_save_interval")
    NO, DIV = ("cmp", "is", SI, NONE), ("cmp", "==", ("bin", "Mod", ITER, SI), ("const", 0))
    rows = booltable(fl, P, stops={**{n: True for n in st}, **{n: False for n in sub}}, skip_loops=True)
    d = decides(rows, [F, NO, DIV], lambda f, n, v: f or n or v)
    rep.check(d is None, "schedule", "the training state is written when forced, unscheduled or due", m.where(), str(d))
    p = must_pass(fl, [fl.g.entry], [fl.g.exit], sub)
    rep.check(p is None, "schedule", "every save is handed to the writer", m.where(), path_str(p))
    for f in (m, B.find("_save_checkpoint")):
        dv = f.node.args.defaults[-1:] or [None]
        ok = f.node.args.args[-1].arg == "force_state" and isinstance(dv[0], ast.Constant) and dv[0].value is False if f.node.args.args else False
        ok = ok or any(k.arg == "force_state" and isinstance(v, ast.Constant) and v.value is False for k, v in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults))
        rep.check(ok, "schedule", "a save is not forced unless asked", f.where(), "it is by default")
    # prologue -----------------------------------------------------------------
    m = B.find("_save_checkpoint")
    PRIVATE = {"_local_resume_state", "_validate_committed_checkpoint_set", "_run_synchronized_operation", "_flush_async_checkpoint_collectively", "_prepare_checkpoint_directory_collectively",
               "_runtime_generation_collectively", "_capture_vq_runtime_collectively", "_validate_rank_resume_states", "_validate_current_vq_runtime_collision", "_state_path", "_save_checkpoint_main",
               "_cleanup_checkpoints"}
    fl = flow(P, m, lambda g, c, x: g.cls is B and g.name not in PRIVATE, cls=B)
    rep.graph(fl)
    cap, val, com = method(fl, "_local_resume_state"), method(fl, "_validate_committed_checkpoint_set"), method(fl, "_run_synchronized_operation")
    EX = ("call", "os.path.exists", (("mcall", SELF, "_state_path", (ITER,), ()),), ())
    HS = ("call", "hasattr", (SELF, ("const", "state")), ())
    rows = booltable(fl, P, stops={**{n: "capture" for n in cap}, **{n: "validate" for n in val}, **{n: "commit" for n in com}}, skip_loops=True)
    one = ("cmp", "==", ("attr", A("accelerator"), "num_processes"), ("const", 1))

    def spec(f, n, v, ex, hs):
        if not hs:
            return None
        s = f or n or v
        return "commit" if not s else "validate" if ex else "capture"
    d = decides(rows, [F, NO, DIV, EX, HS], spec)
    rep.check(d is None, "no-overwrite", "a state that exists is validated, a missing one captured, when a state is due", m.where(), str(d))
    p = fl.find_path(val, com, skip_labels=NORMAL)
    rep.check(p is None and bool(val), "no-overwrite", "an existing state is not written again", m.where(), path_str(p))
    fl_ = method(fl, "_flush_async_checkpoint_collectively")
    p = fl.find_path([fl.g.entry], cap + val + com, avoid=fl_, skip_labels=NORMAL)
    rep.check(p is None and bool(fl_), "no-overwrite", "the previous save is complete before the next one looks at the directory", m.where(), path_str(p))
    for n in com:
        cb = None
        lam = [x for x in ast.walk(n.call) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "_save_checkpoint_main"]
        ok = bool(lam) and all((lambda a: a is not None and norm(P, fl.term(n, a, n.ctx)) in (F,) or isinstance(a, ast.Name) and a.id == "force_state")(
            (x.args or [k.value for k in x.keywords if k.arg == "force_state"] or [None])[0]) for x in lam)
        if not lam:
            ok = has(norm(P, argval(fl, n, 1, "callback", NONE)), lambda y: y[0] in ("mcall",) and y[2] == "_save_checkpoint_main" and F in y[3]) or \
                "_save_checkpoint_main" in show(norm(P, argval(fl, n, 1, "callback", NONE)))
        rep.check(ok, "schedule", "whether a state is forced reaches the writer", n.where(), "it does not")
    # last saved iteration
    last = stores_to(fl, lambda y: y == A("_last_state_save_iteration"))
    rep.check(bool(last), "schedule", "the last saved iteration is remembered", m.where(), "never")
    for n, tgt, v in last:
        rep.check(norm(P, v) == ITER, "schedule", "the remembered iteration is the saved one", n.where(), show(v)[:80])
        p = fl.find_path([fl.g.entry], [n], avoid=val + com, skip_labels=NORMAL)
        rep.check(p is None, "schedule", "an iteration counts as saved only after its save", n.where(), path_str(p))
        rows = booltable(fl, P, stops={n: "stored"}, marks={x: "state" for x in val + cap}, skip_loops=True)
        bad = [r for r, (o, seen) in rows if o == "stored" and not seen and r.get(HS, True)]
        rep.check(not bad, "schedule", "an iteration counts as saved only if a state was written", n.where(), "; ".join(f"{show(a)}={v}" for a, v in (bad or [{}])[0].items()))
        fail = edges(fl, lambda a: False)
        q = fl.find_path(com + val, [n], src_labels=("exc", "excb"), avoid=[], skip_labels=())
        if q is not None and n not in ():
            good = edges(fl, lambda a: a[0] == "not" or a[0] == "cmp" and a[1] in ("is", "=="))
            q2 = fl.find_path(com, [n], src_labels=("exc", "excb"), skip_labels=())
            rep.check(q2 is None, "schedule", "a failed save does not count as saved", n.where(), path_str(q2))
    for name, f in B.methods.items():
        if name in ("__init__", "_save_checkpoint") or not any(isinstance(x, ast.Attribute) and x.attr == "_last_state_save_iteration" and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
            continue
        g = flow(P, f, None, cls=B)
        for n, tgt, v in stores_to(g, lambda y: y == A("_last_state_save_iteration")):
            rep.check(norm(P, v) in (ITER, NONE), "schedule", "the resumed iteration counts as saved", n.where(), show(v)[:80])


def schedule(P, rep, B):
    m = B.find("_is_save_iteration")
    if m is None:
        rep.bad("schedule", "saves are due at their intervals", B.module.rel, "no schedule found")
        return
    fl = flow(P, m, lambda g, c, x: g.cls is B, cls=B)
    rep.graph(fl)
    IT = ("param", m.node.args.args[1].arg)
    due = lambda k: ("cmp", "==", ("bin", "Mod", IT, A(k)), ("const", 0))
    NO = ("cmp", "is", A("state_save_interval"), NONE)
    d = decides(booltable(fl, P), [due("save_interval"), due("temp_save_interval"), NO, due("state_save_interval")], lambda s, t, n, v: s or t or not n and v)
    rep.check(d is None, "schedule", "a save is due at every multiple of the three intervals and at no other iteration", m.where(), str(d))
    r = B.find("run")
    fl = flow(P, r, lambda g, c, x: g.cls is B and g.name.startswith("_part") or g.cls is B and g.name not in OPAQUE(B), cls=B)
    rep.graph(fl)
    step, save, ask = method(fl, "_run_train_step"), method(fl, "_save_checkpoint"), method(fl, "_is_save_iteration")
    isdue = lambda y: y == ("mcall", SELF, "_is_save_iteration", (ITER,), ())
    rep.check(bool(ask) and all(norm(P, argval(fl, n, 0, None)) == ITER for n in ask), "schedule", "the schedule is asked about the current iteration", r.where(), "it is not")
    skip = edges(fl, lambda a: a[0] == "not" and isdue(norm(P, a[1])))
    p = fl.find_path(step, step + [fl.g.exit], avoid=save, avoid_edge=skip, skip_labels=NORMAL)
    rep.check(p is None and bool(save), "schedule", "a due checkpoint is saved before the next step", r.where(), path_str(p))
    forced = [n for n in save if norm(P, argval(fl, n, 0, "force_state", NONE)) == ("const", True)]
    same = edges(fl, lambda a: a[0] == "cmp" and a[1] == "==" and {norm(P, a[2]), norm(P, a[3])} == {A("_last_state_save_iteration"), ITER})
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=forced, avoid_edge=same, skip_labels=NORMAL)
    rep.check(p is None, "schedule", "the last iteration's state is saved at the end of training", r.where(), path_str(p))
    for n in save:
        if n in forced:
            continue
        p = fl.find_path(step, [n], avoid_edge=edges(fl, lambda a: isdue(norm(P, a))), skip_labels=NORMAL)
        rep.check(p is None, "schedule", "a checkpoint within training is saved only when due", n.where(), path_str(p))
        q = fl.find_path(ask, [n], avoid=[], skip_labels=NORMAL)
        w = [x for x, tgt, v in stores_to(fl, lambda y: y == ITER)]
        p = fl.find_path(w, [n], avoid=ask, skip_labels=NORMAL)
        rep.check(p is None, "schedule", "the iteration does not change between the question and the save", n.where(), path_str(p))
    # stopped by an error
    raised = [n for n in fl.g.live if any(isinstance(d[1], tuple) and d[1] and d[1][0] == "exc" for d in n.defs)]
    hs = [n for n in raised if fl.find_path([n], forced, skip_labels=NORMAL) is not None and not any(x in forced for x in raised)]
    hs = [n for n in hs if not any(h is not n and fl.find_path([h], [n], skip_labels=NORMAL) for h in hs)]
    rep.check(bool(hs), "schedule", "a run stopped by an error can still save its state", r.where(), "no handler saves")
    EQ = canon(P, ("cmp", "==", A("_last_state_save_iteration"), ITER))[1]
    for h in hs:
        rows = booltable(fl, P, starts=[h], stops={n: True for n in forced}, skip_loops=True)
        rows = [(a, o is True) for a, o in rows]
        d = decides(rows, [A("_checkpoint_safe"), A("_known_divergent"), A("_checkpoint_attempt_failed"), EQ], lambda s, k, f, e: s and not k and not f and not e)
        rep.check(d is None, "schedule", "a run stopped by an error saves its state exactly when that is safe and not yet done", h.where(), str(d))
    fls = method(fl, "_flush_async_checkpoint_collectively")
    p = fl.find_path(save, [fl.g.exit], avoid=fls, skip_labels=NORMAL)
    rep.check(p is None, "schedule", "training ends only after the last save reached the disk", r.where(), path_str(p))


def OPAQUE(B):
    """methods of the run loop that the schedule rules treat as steps (anything public-shaped: not called from one place only)"""
    return {"_run_train_step", "_save_checkpoint", "_is_save_iteration", "_validate", "_fetch_batch", "_restore_continuation_state", "_shutdown_resources", "_gather_train_metrics",
            "_run_synchronized_operation", "_flush_async_checkpoint_collectively", "_drain_pending_step_validity", "_discard_pending_step_validity", "_log_metrics", "_show_progress"}
