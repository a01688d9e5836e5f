"""T13: the map-style training sampler: partition of every epoch, cursors moved only by commit, exact restore."""
import ast
from sa.flow import alts, flow, has, show, subterms
from sa.lib import calls, norm, path_str, retval, returns
from sa.rules import (NORMAL, argval, edges, either, every_round, inner_loop, method, must_pass, once_per_round, read_at_entry, read_final,
                      stores_of, stores_to, whole)

SELF = ("self",)
A = lambda n: ("attr", SELF, n)
CLS = "utils.training_utils:ResumableSampler"
COMMIT = ("epoch", "offset")
STAGE = ("_staged_epoch", "_staged_offset")
YIELD = ("_yield_epoch", "_yielded_offset")


def run(P, rep):
    rep.rule("order", "an epoch's order depends only on the seed and the epoch number")
    rep.rule("partition", "each process takes every world-size-th element from its own rank, len // world-size of them")
    rep.rule("commit", "the saved cursor moves only by a validated contiguous commit or by loading a state")
    rep.rule("stage", "a delivered batch advances the staged cursor by what was delivered, never past what was read")
    rep.rule("restore", "a saved cursor is accepted only for the same data length, shuffle, seed and process layout, and resets every cursor")
    c = P.cls(CLS)
    F = {}
    for m in c.methods:
        F[m] = flow(P, c.methods[m], lambda g, call, x: g.cls is c and g.name not in ("load_state_dict",), cls=c)
        rep.graph(F[m])
    called = {x.func.attr for g in c.methods.values() for x in ast.walk(g.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
              and isinstance(x.func.value, ast.Name) and x.func.value.id == "self"}
    for m in [m for m in F if m.startswith("_") and not m.startswith("__") and m in called]:
        del F[m]      # private helpers are judged where they are called
    for m in ("__iter__", "stage_batch", "advance_yield_epoch", "prepare_commit", "commit_prepared", "rollback_uncommitted", "state_dict", "load_state_dict"):
        if m not in F:
            rep.bad("commit", f"sampler has {m}", c.where() if hasattr(c, "where") else "utils/training_utils.py", f"{m} is gone")
            return
    ctor(P, rep, c, F)
    iteration(P, rep, c, F)
    staging(P, rep, F)
    commits(P, rep, c, F)
    restore(P, rep, F)
    trainer(P, rep)


def fields(P, c, F, rep):
    out = {}
    for n, tgt, v in stores_to(F["__init__"], lambda t: t[1] == SELF):
        out.setdefault(tgt[2], []).append((n, v))
    return out


def strip(t):
    while t[0] == "call" and t[1] in ("int", "bool") and len(t[2]) == 1:
        t = t[2][0]
    return t


def ctor(P, rep, c, F):
    st = fields(P, c, F, rep)
    for p in ("data_source", "shuffle", "seed", "rank", "world_size"):
        vs = st.get(p, [])
        rep.check(len(vs) == 1 and strip(vs[0][1]) == ("param", p), "order" if p in ("shuffle", "seed") else "partition", f"{p} is the one given",
                  vs[0][0].where() if vs else F["__init__"].g.root.where() if hasattr(F["__init__"].g, "root") else "", show(vs[0][1]) if vs else "never set")
    for a in COMMIT + STAGE + YIELD:
        vs = st.get(a, [])
        rep.check(len(vs) >= 1 and all(v == ("const", 0) for _, v in vs), "commit", f"{a} starts at 0", vs[0][0].where() if vs else "", show(vs[0][1]) if vs else "unset")
    fl = F["__init__"]
    bad = edges(fl, lambda a: a[0] == "cmp" and (a[1] in ("<", ">=", ">", "<=")) and has(a, lambda x: x in (A("rank"), ("param", "rank")) or strip(x) == ("param", "rank")) and
                has(a, lambda x: strip(x) == ("param", "world_size") or x == A("world_size")))
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid_edge=bad, skip_labels=NORMAL)
    rep.check(p is None, "partition", "the rank is checked against the process count", fl.g.entry.where(), path_str(p))
    # who writes the identity later
    for m, fl in F.items():
        if m == "__init__":
            continue
        for n, tgt, v in stores_to(fl, lambda t: t[1] == SELF and t[2] in ("data_source", "shuffle", "seed", "rank", "world_size")):
            rep.bad("order", f"{tgt[2]} is fixed", n.where(), f"{m} changes {tgt[2]}")


def local_len(t):
    return t == A("local_length") or t == ("bin", "FloorDiv", ("call", "len", (A("data_source"),), ()), A("world_size"))


def iteration(P, rep, c, F):
    ll = c.methods.get("local_length")
    if ll is not None:
        t = norm(P, retval(F["local_length"]))
        rep.check(t == ("bin", "FloorDiv", ("call", "len", (A("data_source"),), ()), A("world_size")), "partition", "each process gets len // world size samples", ll.where(), show(t))
    fl = F["__iter__"]
    length = ("call", "len", (A("data_source"),), ())
    ys = [n for n in fl.g.live if n.kind == "yield"]
    rep.check(len(ys) >= 1, "partition", "indices are yielded", c.methods["__iter__"].where(), "nothing is yielded")
    if not ys:
        return
    n = ys[0]
    rep.check(len(ys) == 1, "partition", "one yield per sample", n.where(), f"{len(ys)} yields")
    t = fl.term(n, n.expr)
    ok = t[0] == "idx"
    pos = t[2] if ok else ("?",)
    yo = A("_yielded_offset")
    mul = {("bin", "Mult", yo, A("world_size")), ("bin", "Mult", A("world_size"), yo)}
    good = pos[0] == "bin" and pos[1] == "Add" and (pos[2] in mul and pos[3] == A("rank") or pos[3] in mul and pos[2] == A("rank"))
    rep.check(ok and good, "partition", "process r takes positions r, r+world, r+2·world …", n.where(), f"yields {show(t)[:160]}")
    # read of the cursor precedes its increment within a round
    sts = stores_of(fl, "_yielded_offset")
    incs = [(m, v) for m, tgt, v in stores_to(fl, lambda t: t == yo)]
    for m, v in incs:
        rep.check(v in (("bin", "Add", yo, ("const", 1)), ("bin", "Add", ("const", 1), yo)), "partition", "the read cursor advances by one", m.where(), show(v))
    h = inner_loop(fl, n) if fl.loops_of(n) else None
    heads = [x for x in fl.g.live if x.kind == "cond" and any(l == "T" for _, l in x.succ)]
    more = edges(fl, lambda a: a[0] == "cmp" and (a[1] == "<" and a[2] == yo and local_len(a[3]) or a[1] == ">" and local_len(a[2]) and a[3] == yo))
    done = edges(fl, lambda a: a[0] == "cmp" and (a[1] in (">=", "==") and a[2] == yo and local_len(a[3]) or a[1] in ("<=", "==") and local_len(a[2]) and a[3] == yo)
                 or a[0] == "not" and a[1][0] == "cmp" and a[1][1] == "<" and a[1][2] == yo and local_len(a[1][3]))
    p = fl.find_path([fl.g.entry], [n], avoid_edge=more, skip_labels=NORMAL)
    q = fl.find_path([n], [n], avoid_edge=more, skip_labels=NORMAL)
    rep.check(p is None and q is None, "partition", "no sample past the process's share", n.where(), path_str(p or q))
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid_edge=done, skip_labels=NORMAL)
    rep.check(p is None, "partition", "iteration ends only when the share is exhausted", n.where(), path_str(p))
    p = fl.find_path([n], [n], avoid=sts, skip_labels=NORMAL)
    rep.check(bool(sts) and p is None, "partition", "every round advances the read cursor", n.where(), path_str(p))
    for s in sts:
        p = fl.find_path([s], sts, avoid=[n], skip_labels=NORMAL)
        rep.check(p is None, "partition", "the read cursor advances once per sample", s.where(), path_str(p))
    before = [fl.find_path(sts, [r], avoid=[n], skip_labels=NORMAL) is None for r, x in fl.reads(n, n.expr) if x == yo]
    pre = fl.find_path([fl.g.entry], [n], avoid=sts, skip_labels=NORMAL) is None
    # cursor counts samples handed out: with the increment before the yield, a suspended generator has counted the sample
    rep.check(all(before) and bool(before), "partition", "the index is taken at the cursor before it advances", n.where(), "index taken after the cursor advanced")
    rep.check(pre, "stage", "a sample is counted as read before it is handed out", n.where(), "a handed-out sample is not counted yet")
    # order
    seqs = alts(t[1]) if ok else []
    ne = 0
    for s in seqs:
        r = s
        while r[0] == "mcall" and r[2] in ("tolist", "numpy") or r[0] == "call" and r[1] in ("list", "tuple") and len(r[2]) == 1:
            r = r[1] if r[0] == "mcall" else r[2][0]
        if r[0] == "call" and r[1] == "range":
            rep.check(r[2] == (length,) or r[2] == (("const", 0), length), "order", "unshuffled order visits every sample", n.where(), show(r))
        elif r[0] == "call" and r[1].endswith("randperm"):
            ne += 1
            rep.check(r[2][:1] == (length,) and any(k == "generator" for k, _ in r[3]), "order", "a private generator permutes the whole data", n.where(), show(r)[:120])
        else:
            rep.bad("order", "order is a permutation of all samples", n.where(), show(s)[:120])
    rep.check(ne == 1, "order", "shuffled order is a random permutation", n.where(), "no permutation")
    perms = [m for m in calls(fl, lambda cc: cc and cc[0] == "global" and cc[1].endswith("randperm"), True)]
    on = edges(fl, lambda a: a == A("shuffle"))
    off = edges(fl, lambda a: a == ("not", A("shuffle")))
    for m in perms:
        p = fl.find_path([fl.g.entry], [m], avoid_edge=on, skip_labels=NORMAL)
        rep.check(p is None, "order", "only shuffled runs permute", m.where(), path_str(p))
        p = fl.find_path([fl.g.entry], [n], avoid=perms, avoid_edge=off, skip_labels=NORMAL)
        rep.check(p is None, "order", "shuffled runs always permute", m.where(), path_str(p))
        g = fl.arg(m, None, "generator")
        seeds = [x for x in method(fl, "manual_seed") if fl.recv(x) == g]
        gg = [g]
        if g is not None and g[0] == "mcall" and g[2] == "manual_seed":
            seedterms = [(m, g[3][0])]
        else:
            seedterms = [(x, argval(fl, x, 0, "seed", ("?",))) for x in seeds]
            p = fl.find_path([fl.g.entry], [m], avoid=seeds, skip_labels=NORMAL)
            rep.check(bool(seeds) and p is None, "order", "the generator is seeded before it is used", m.where(), path_str(p))
        fresh = g is not None and has(g, lambda x: x[0] == "call" and x[1].endswith("Generator"))
        rep.check(fresh, "order", "the generator is fresh for every epoch", m.where(), show(g)[:80] if g else "global generator")
        for x, s in seedterms:
            e, sd = A("_yield_epoch"), A("seed")
            rep.check(s in (("bin", "Add", sd, e), ("bin", "Add", e, sd)), "order", "seeded with seed + epoch being read", x.where(), show(s)[:100])
    tell = [m for m in fl.g.live if m.kind == "call" and fl.callee(m) and fl.callee(m)[1] == "setattr" and argval(fl, m, 1, None) == ("const", "_active_epoch")]
    told = tell + [m for m, tgt, v, tt, cx in fl.stores() if tgt[0] == "attr" and tgt[2] == "_active_epoch"]
    rep.check(bool(told), "order", "the data source learns the epoch being read", n.where(), "the epoch is not announced")
    for m in tell:
        rep.check(argval(fl, m, 2, None) == A("_yield_epoch"), "order", "the announced epoch is the one being read", m.where(), show(argval(fl, m, 2, None)))
        tg = alts(argval(fl, m, 0, None))
        rep.check(A("data_source") in tg and any(x != A("data_source") and has(x, lambda y: y == A("data_source")) for x in tg), "order", "wrapped data sources learn the epoch too", m.where(), show(("phi", *tg))[:100])
        h = inner_loop(fl, m)
        if h is not None:
            p = fl.find_path([fl.g.entry], [n], avoid=[h], skip_labels=NORMAL)
            q = every_round(fl, h, [m]) if h.kind == "for" else None
            rep.check(p is None and q is None, "order", "the epoch is announced before reading", m.where(), path_str(p or q))
    rnd = [m for m in calls(fl, lambda cc: cc and cc[0] == "global" and (cc[1].startswith(("random.", "numpy.random", "time.", "torch.rand", "torch.seed", "torch.initial_seed", "os.urandom"))) and not cc[1].endswith("randperm"), True)]
    rep.check(not rnd, "order", "nothing else influences the order", (rnd or [n])[0].where(), "ambient randomness")
    for m in [x for x, tgt, v in stores_to(fl, lambda t: t[1] == SELF and t[2] != "_yielded_offset" and t[2] in COMMIT + STAGE + YIELD)]:
        rep.bad("commit", "iterating moves only the read cursor", m.where(), "iteration changes another cursor")


def staging(P, rep, F):
    fl = F["stage_batch"]
    f = fl.g.entry
    r = returns(fl)
    rep.check(bool(r), "stage", "a token is returned", f.where(), "no token")
    se, so, ye, yo = (A(x) for x in STAGE + YIELD)
    for n, t in r:
        kw = dict(zip(("before_epoch", "before_offset", "after_epoch", "after_offset"), t[2])) if t[0] == "call" else {}
        kw.update(dict(t[3]) if t[0] == "call" else {})
        for k, a in (("before_epoch", se), ("before_offset", so), ("after_epoch", se), ("after_offset", so)):
            v = kw.get(k)
            rep.check(v == a, "stage", f"token {k} is the staged cursor", n.where(), show(v) if v else "missing")
        # before = entry values, after = final values
        call = n.expr if isinstance(n.expr, ast.Call) else None
        cn = [m for m in fl.g.live if m.kind == "call" and m.call is not None and fl.callee(m) and fl.callee(m)[0] == "global" and fl.callee(m)[1].endswith("SamplerBatchToken")]
        for m in cn:
            names = ("before_epoch", "before_offset", "after_epoch", "after_offset")
            ex = dict(zip(names, m.call.args)); ex.update({k.arg: k.value for k in m.call.keywords})
            for k, a in (("before_epoch", "_staged_epoch"), ("before_offset", "_staged_offset")):
                p = read_at_entry(fl, m, ex[k], a) if k in ex else None
                rep.check(p is None, "stage", f"token {k} is taken before the batch is staged", m.where(), path_str(p))
            for k, a in (("after_epoch", "_staged_epoch"), ("after_offset", "_staged_offset")):
                p = read_final(fl, m, ex[k], a) if k in ex else None
                rep.check(p is None, "stage", f"token {k} is taken after the batch is staged", m.where(), path_str(p))
    st = stores_to(fl, lambda t: t[1] == SELF)
    cnt = lambda t: strip(t) == ("param", [a.arg for a in fl.g.entry.ctx.func.node.args.args][1])

    def delivered(t):
        """min(count, local_length - staged)"""
        if t[0] != "call" or t[1] != "min" or len(t[2]) != 2:
            return False
        x, y = t[2]
        if not cnt(x):
            x, y = y, x
        return cnt(x) and y[0] == "bin" and y[1] == "Sub" and local_len(y[2]) and y[3] == so
    new = []
    adv = []
    for n, tgt, v in st:
        if tgt == so and v == ("const", 0):
            new.append(n)
        elif tgt == se:
            rep.check(v in (ye, ("bin", "Add", se, ("const", 1))), "stage", "staging enters the epoch being read", n.where(), show(v))
            new.append(n)
        elif tgt == so:
            rep.check(v[0] == "bin" and v[1] == "Add" and (v[2] == so and delivered(v[3]) or v[3] == so and delivered(v[2])), "stage",
                      "the staged cursor advances by the delivered samples", n.where(), show(v)[:120])
            adv.append(n)
        else:
            rep.bad("stage", f"staging leaves {tgt[2]} alone", n.where(), f"staging a batch changes {tgt[2]}")
    rets = [n for n, _ in r]
    p = must_pass(fl, [fl.g.entry], rets, adv)
    rep.check(bool(adv) and p is None, "stage", "every staged batch advances the cursor", f.where(), path_str(p))
    p = fl.find_path(adv, adv, skip_labels=NORMAL)
    rep.check(p is None, "stage", "a batch is staged once", f.where(), path_str(p))
    nxt = lambda t: t in (("bin", "Add", se, ("const", 1)), ("bin", "Add", ("const", 1), se))
    trans = edges(fl, lambda a: a[0] == "cmp" and a[1] == "==" and ye in a[2:] and any(nxt(x) for x in a[2:]))
    same = edges(fl, lambda a: a[0] == "cmp" and a[1] == "==" and set(a[2:]) == {ye, se})
    for n in new:
        p = fl.find_path([fl.g.entry], [n], avoid_edge=trans, skip_labels=NORMAL)
        rep.check(p is None, "stage", "a new epoch is staged only right after the previous one", n.where(), path_str(p))
    p = fl.find_path([fl.g.entry], adv, avoid_edge=either(trans, same), skip_labels=NORMAL)
    rep.check(p is None, "stage", "epochs are staged without gaps", f.where(), path_str(p))
    for c, s, l in [(c, s, l) for c in fl.g.live for s, l in c.succ if trans(c, s, l)]:
        for a in STAGE:
            w = [n for n in new if n in stores_of(fl, a)]
            p = fl.find_path([c], adv, avoid=w, src_labels=(l,), skip_labels=NORMAL)
            rep.check(bool(w) and p is None, "stage", "a new epoch restarts the staged cursor", c.where(), path_str(p))
    pos = edges(fl, lambda a: a[0] == "cmp" and (a[1] in (">", ">=") and (delivered(a[2]) or cnt(a[2])) or a[1] in ("<", "<=") and (delivered(a[3]) or cnt(a[3]))) and
                (a[1] in (">", "<") and ("const", 0) in a[2:] or ("const", 1) in a[2:]) or a[0] == "not" and a[1][0] == "cmp" and a[1][1] == "<=" and (delivered(a[1][2]) or cnt(a[1][2])) and a[1][3] == ("const", 0))
    posd = edges(fl, lambda a: a[0] == "cmp" and (a[1] == ">" and delivered(a[2]) and a[3] == ("const", 0) or a[1] == "<" and delivered(a[3]) and a[2] == ("const", 0) or a[1] == ">=" and delivered(a[2]) and a[3] == ("const", 1)))
    p = fl.find_path([fl.g.entry], adv, avoid_edge=posd, skip_labels=NORMAL)
    rep.check(p is None, "stage", "an empty batch is refused", f.where(), path_str(p))

    def sumto(t):
        return t[0] == "bin" and t[1] == "Add" and (t[2] == so and delivered(t[3]) or t[3] == so and delivered(t[2]))
    lim = edges(fl, lambda a: a[0] == "cmp" and (a[1] == "<=" and sumto(a[2]) and a[3] == yo or a[1] == ">=" and a[2] == yo and sumto(a[3])))
    p = fl.find_path([fl.g.entry], adv, avoid_edge=lim, skip_labels=NORMAL)
    rep.check(p is None, "stage", "no more is staged than was read", f.where(), path_str(p))
    for m in fl.g.live:
        if m.kind == "call" and m.call is not None and any(has(fl.term(m, x), delivered) for x in m.call.args if not isinstance(x, ast.Starred)):
            pass
    # the available count is computed after entering the new epoch
    for n in adv:
        for rd, x in fl.reads(n, n.stores[0][1][1] if n.stores and isinstance(n.stores[0][1], tuple) and n.stores[0][1][0] == "expr" else n.expr) if False else []:
            pass
    fl2 = F["advance_yield_epoch"]
    st = {tgt[2]: (n, v) for n, tgt, v in stores_to(fl2, lambda t: t[1] == SELF)}
    rep.check(set(st) == set(YIELD), "stage", "advancing moves the read cursor to the next epoch", fl2.g.entry.where(), f"writes {sorted(st)}")
    if set(st) == set(YIELD):
        rep.check(st["_yield_epoch"][1] in (("bin", "Add", ye, ("const", 1)), ("bin", "Add", ("const", 1), ye)), "stage", "the next epoch follows", st["_yield_epoch"][0].where(), show(st["_yield_epoch"][1]))
        rep.check(st["_yielded_offset"][1] == ("const", 0), "stage", "a new epoch starts at its first sample", st["_yielded_offset"][0].where(), show(st["_yielded_offset"][1]))
        full = edges(fl2, lambda a: a[0] == "cmp" and (a[1] in (">=", "==") and a[2] == yo and local_len(a[3]) or a[1] in ("<=", "==") and local_len(a[2]) and a[3] == yo))
        p = fl2.find_path([fl2.g.entry], [n for n, _ in st.values()], avoid_edge=full, skip_labels=NORMAL)
        rep.check(p is None, "stage", "an epoch is left only when exhausted", fl2.g.entry.where(), path_str(p))


def commits(P, rep, c, F):
    # who may write the committed cursor
    for m, fl in F.items():
        for n, tgt, v in stores_to(fl, lambda t: t[1] == SELF and t[2] in COMMIT):
            rep.check(m in ("__init__", "commit_prepared", "load_state_dict"), "commit", f"{m} does not move the committed cursor", n.where(), f"{m} writes {tgt[2]}")
    fl = F["prepare_commit"]
    eff = stores_to(fl, lambda t: t[1] == SELF)
    rep.check(not eff, "commit", "preparing changes nothing", (eff or [(fl.g.entry,)])[0][0].where(), "prepare_commit has side effects")
    r = returns(fl)
    prm = ("param", [a.arg for a in c.methods["prepare_commit"].node.args.args][1])
    tok = lambda t: t == prm or t[0] == "call" and t[1] in ("tuple", "list") and t[2] == (prm,)
    empt = edges(fl, lambda a: tok(a) or a[0] == "cmp" and a[1] in ("!=", ">", "<", ">=", "<=") and has(a, lambda x: x[0] == "call" and x[1] == "len" and tok(x[2][0])))
    heads = [h for h in fl.g.live if h.kind == "for" and whole(fl.term(h, h.expr), tok)]
    rep.check(bool(heads), "commit", "every token is checked", fl.g.entry.where(), "tokens are not iterated")
    p = must_pass(fl, [fl.g.entry], [n for n, _ in r], heads)
    rep.check(bool(r) and p is None, "commit", "every commit is checked", fl.g.entry.where(), path_str(p))
    p = fl.find_path([fl.g.entry], [n for n, _ in r], avoid_edge=empt, skip_labels=NORMAL)
    rep.check(p is None, "commit", "an empty commit is refused", fl.g.entry.where(), path_str(p))
    for h in heads:
        el = norm(P, ("elem", fl.term(h, h.expr)))
        elx = lambda t, k: t[0] == "attr" and t[2] == k and (t[1][0] == "elem")
        cur = lambda t, own, aft: {own} <= set(alts(t)) and all(x == own or elx(x, aft) for x in alts(t)) and len(alts(t)) == 2
        def pairs(a):
            if a[0] != "cmp" or a[1] != "==":
                return []
            x, y = a[2], a[3]
            if x[0] == "seq" and y[0] == "seq" and len(x) == len(y):
                return list(zip(x[1:], y[1:]))
            return [(x, y)]
        for bf, own, aft in (("before_epoch", A("epoch"), "after_epoch"), ("before_offset", A("offset"), "after_offset")):
            e = edges(fl, lambda a: any(elx(x, bf) and cur(y, own, aft) or elx(y, bf) and cur(x, own, aft) for x, y in pairs(a)))
            p = every_round(fl, h, [], edge=e)
            rep.check(p is None, "commit", f"each token starts where the last one ended ({bf})", h.where(), path_str(p))
        for nm, e in (("epoch within what was read", lambda a: a[0] == "cmp" and (a[1] == "<=" and elx(a[2], "after_epoch") and a[3] == A("_yield_epoch") or a[1] == ">=" and a[2] == A("_yield_epoch") and elx(a[3], "after_epoch"))),
                      ("offset within the share", lambda a: a[0] == "cmp" and (a[1] == "<=" and elx(a[2], "after_offset") and local_len(a[3]) or a[1] == ">=" and local_len(a[2]) and elx(a[3], "after_offset"))),
                      ("epoch never decreases", lambda a: a[0] == "cmp" and (a[1] == ">=" and elx(a[2], "after_epoch") and a[3] == A("epoch") or a[1] == "<=" and a[2] == A("epoch") and elx(a[3], "after_epoch")))):
            p = every_round(fl, h, [], edge=edges(fl, e))
            rep.check(p is None, "commit", nm, h.where(), path_str(p))
    for n, t in r:
        names = ("before_epoch", "before_offset", "after_epoch", "after_offset", "token_count")
        kw = dict(zip(names, t[2])) if t[0] == "call" else {}
        kw.update(dict(t[3]) if t[0] == "call" else {})
        rep.check(kw.get("before_epoch") == A("epoch") and kw.get("before_offset") == A("offset"), "commit", "the commit records where it starts", n.where(), show(t)[:120])
        for k, own in (("after_epoch", A("epoch")), ("after_offset", A("offset"))):
            v = kw.get(k, ("?",))
            rep.check(any(x[0] == "attr" and x[2] == k for x in alts(v)) and all(x == own or x[0] == "attr" and x[2] == k for x in alts(v)), "commit", f"the commit ends at the last token's {k}", n.where(), show(v)[:100])
    fl = F["commit_prepared"]
    cp = ("param", [a.arg for a in c.methods["commit_prepared"].node.args.args][1])
    st = stores_to(fl, lambda t: t[1] == SELF)
    got = {tgt[2]: v for _, tgt, v in st}
    rep.check(got == {"epoch": ("attr", cp, "after_epoch"), "offset": ("attr", cp, "after_offset")}, "commit", "a commit moves the cursor to its end", fl.g.entry.where(), f"{ {k: show(v) for k, v in got.items()} }")
    for a in COMMIT:
        p = must_pass(fl, [fl.g.entry], [fl.g.exit], stores_of(fl, a))
        rep.check(p is None, "commit", f"a commit always moves {a}", fl.g.entry.where(), path_str(p))
        want = {A(a), ("attr", cp, "before_" + a)}
        def eq(x):
            if x[0] != "cmp" or x[1] != "==":
                return False
            if x[2][0] == "seq" and x[3][0] == "seq" and len(x[2]) == len(x[3]):
                return any(set(p2) == want for p2 in zip(x[2][1:], x[3][1:]))
            return set(x[2:]) == want
        p = fl.find_path([fl.g.entry], [n for n, _, _ in st], avoid_edge=edges(fl, eq), skip_labels=NORMAL)
        rep.check(p is None, "commit", f"a stale commit is refused ({a})", fl.g.entry.where(), path_str(p))
    fl = F["rollback_uncommitted"]
    got = {tgt[2]: v for _, tgt, v in stores_to(fl, lambda t: t[1] == SELF)}
    want = {"_yield_epoch": A("epoch"), "_yielded_offset": A("offset"), "_staged_epoch": A("epoch"), "_staged_offset": A("offset")}
    rep.check(got == want, "commit", "rollback returns every cursor to the committed one", fl.g.entry.where(), f"{ {k: show(v) for k, v in got.items()} }")
    for a in want:
        p = must_pass(fl, [fl.g.entry], [fl.g.exit], stores_of(fl, a))
        rep.check(p is None, "commit", f"rollback always resets {a}", fl.g.entry.where(), path_str(p))


IDENT = {"length": ("call", "len", (A("data_source"),), ()), "shuffle": A("shuffle"), "seed": A("seed"), "world_size": A("world_size"), "rank": A("rank")}


def restore(P, rep, F):
    t = norm(P, retval(F["state_dict"]))
    d = {k[1]: v for k, v in t[1:] if k[0] == "const"} if t[0] == "dict" else {}
    for k, v in {**IDENT, "epoch": A("epoch"), "offset": A("offset")}.items():
        rep.check(d.get(k) == v, "restore", f"the saved state holds {k}", F["state_dict"].g.entry.where(), show(d[k]) if k in d else "missing")
    ver = d.get("version")
    fl = F["load_state_dict"]
    st = ("param", [a.arg for a in fl.g.entry.ctx.func.node.args.args][1])
    key = lambda k: (lambda x: x == ("key", st, k) or x[0] == "mcall" and x[1] == st and x[2] == "get" and x[3][:1] == (("const", k),))
    off = lambda x: strip(x)[0] in ("key", "mcall") and key("offset")(strip(x))
    ep = lambda x: strip(x)[0] in ("key", "mcall") and key("epoch")(strip(x))
    wr = stores_to(fl, lambda t: t[1] == SELF)
    groups = {a: [n for n, tgt, _ in wr if tgt[2] == a] for a in COMMIT + STAGE + YIELD}
    for a in COMMIT + STAGE + YIELD:
        p = must_pass(fl, [fl.g.entry], [fl.g.exit], groups[a])
        rep.check(bool(groups[a]) and p is None, "restore", f"loading resets {a}", fl.g.entry.where(), path_str(p))
    for n, tgt, v in wr:
        if tgt[2] not in COMMIT + STAGE + YIELD:
            rep.bad("restore", f"loading leaves {tgt[2]} alone", n.where(), "identity changed by a checkpoint")
            continue
        if "epoch" in tgt[2]:
            ok = ep(v) or v == A("epoch") and tgt[2] != "epoch" and fl.find_path([n], groups["epoch"], skip_labels=NORMAL) is None
        else:
            ok = off(v) or v == A("offset") and tgt[2] != "offset" and fl.find_path([n], groups["offset"], skip_labels=NORMAL) is None
        rep.check(ok, "restore", f"{tgt[2]} comes from the saved state", n.where(), show(v))
    # identity
    legacy = edges(fl, lambda a: a[0] == "cmp" and a[1] == "==" and ("const", 1) in a[2:] and any(key("version")(x) for x in a[2:]))
    legs = [(c, s, l) for c in fl.g.live for s, l in c.succ if legacy(c, s, l)]

    def ident(a):
        """atom comparing expected {k: own} with the saved values: set of keys proven equal"""
        if a[0] != "cmp" or a[1] != "==":
            return {}
        out = {}
        x, y = a[2], a[3]
        for u, v in ((x, y), (y, x)):
            if u[0] == "comp" and v[0] == "dict":
                # {k: state.get(k) for k in expected}
                it = u[3][0]
                el = ("elem", it)
                val = u[2]
                good = u[1] == "dict" and val[0] == "pair" and val[1] == el and len(u[3]) == 1 and not u[4] \
                    and (val[2] == ("idx", st, el) or val[2][0] == "mcall" and val[2][1] == st and val[2][2] == "get" and val[2][3][:1] == (el,)) \
                    and (it == v or it[0] == "mcall" and it[1] == v and it[2] == "keys")
                if good:
                    out.update({k[1]: w for k, w in v[1:] if k[0] == "const"})
            if u[0] == "dict" and v[0] == "dict":
                pass
            for k in list(IDENT) + ["version"]:
                if key(k)(u):
                    out[k] = v
        return out
    for k, own in IDENT.items():
        e = edges(fl, lambda a: ident(a).get(k) == own)
        if k in ("world_size", "rank"):
            one = ("const", 1) if k == "world_size" else ("const", 0)
            solo = edges(fl, lambda a: a[0] == "cmp" and a[1] == "==" and set(a[2:]) == {A(k), one})
            e = either(e, lambda c, s, l: solo(c, s, l) and all(fl.find_path([fl.g.entry], [c], avoid_edge=legacy, skip_labels=NORMAL) is None for _ in (0,)))
        p = fl.find_path([fl.g.entry], [n for n, _, _ in wr], avoid_edge=e, skip_labels=NORMAL)
        rep.check(p is None, "restore", f"a different {k} is refused before anything changes", fl.g.entry.where(), path_str(p))
    rep.check(ver is not None, "restore", "the saved state is versioned", F["state_dict"].g.entry.where(), "no version")
    verok = edges(fl, lambda a: ident(a).get("version") == ver or ident(a).get("version") == ("const", 1) or a[0] == "cmp" and a[1] == "==" and any(key("version")(x) for x in a[2:]) and (ver in a[2:] or ("const", 1) in a[2:]))
    p = fl.find_path([fl.g.entry], [n for n, _, _ in wr], avoid_edge=verok, skip_labels=NORMAL)
    rep.check(p is None, "restore", "an unknown state version is refused", fl.g.entry.where(), path_str(p))
    for nm, e in (("offset within the share", lambda a: a[0] == "cmp" and (a[1] == "<=" and off(a[2]) and local_len(a[3]) or a[1] == ">=" and local_len(a[2]) and off(a[3]))),
                  ("offset not negative", lambda a: a[0] == "cmp" and (a[1] == ">=" and off(a[2]) and a[3] == ("const", 0) or a[1] == "<=" and a[2] == ("const", 0) and off(a[3])))):
        p = fl.find_path([fl.g.entry], [n for n, _, _ in wr], avoid_edge=edges(fl, e), skip_labels=NORMAL)
        rep.check(p is None, "restore", nm, fl.g.entry.where(), path_str(p))


def trainer(P, rep):
    base = P.cls("trainer.base:BaseTrainer")
    n0 = 0
    for name in [m for m in base.methods]:
        src = base.methods[name]
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "ResumableSampler" for x in ast.walk(src.node)):
            continue
        fl = flow(P, src, None, cls=base)
        rep.graph(fl)
        for n in calls(fl, lambda c: c and c[0] == "global" and c[1] == "utils.training_utils.ResumableSampler", True):
            n0 += 1
            for k, a in (("rank", "process_index"), ("world_size", "num_processes")):
                v = argval(fl, n, 99, k, ("const", None))
                rep.check(v == ("attr", A("accelerator"), a), "partition", f"the trainer's sampler has this process's {k}", n.where(), show(v))
            v = argval(fl, n, 99, "seed", ("const", None))
            rep.check(v == A("random_seed"), "order", "the trainer's sampler uses the configured seed", n.where(), show(v))
            v = argval(fl, n, 0, "data_source", ("const", None))
            rep.check(v == A("train_dataset"), "partition", "the trainer's sampler covers the training data", n.where(), show(v))
            # the loader uses it, without a second shuffle
            bl = [m for m in calls(fl, lambda c: c and c[0] == "global" and c[1].endswith("build_data_loader"), True) if argval(fl, m, 0, "dataset", ("?",)) == A("train_dataset")]
            rep.check(bool(bl), "partition", "the loader is built on the training data", n.where(), "no loader")
            setk = [m for m, tgt, v, t, cx in fl.stores() if tgt[0] in ("sub", "idx", "key") and has(tgt, lambda x: x == ("const", "sampler"))]
            if not setk:
                for m in bl:
                    kwv = [fl.term(m, k.value) for k in m.call.keywords]
                    rep.check(any(has(t, lambda x: x == A("_resume_sampler") or x[0] == "call" and x[1].endswith("ResumableSampler")) for t in kwv), "partition", "the loader reads through the sampler", m.where(), "sampler not passed")
            else:
                p = fl.find_path([n], bl, avoid=setk, skip_labels=NORMAL)
                rep.check(p is None, "partition", "the loader reads through the sampler", n.where(), path_str(p))
    rep.floor("trainer sampler", n0, 1)
