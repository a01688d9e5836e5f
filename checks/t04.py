"""T04: a checkpoint that does not fit the run is refused before anything is loaded; the newest one is chosen."""
from sa.flow import alts, flow, has, show
from sa.lib import calls, norm, path_str, retval, returns
from sa.rules import (NORMAL, argval, edges, either, every_round, falsy, inner_loop, method, must_pass, stores_to, truthy, whole)
from checks.t08 import ACC, CTOR_OPAQUE, K, NONE, SELF, A, flat, is_state, sub, walk

NP = ("attr", ACC, "num_processes")
SIGATTR = A("_data_stream_signature")


def run(P, rep):
    rep.rule("refuse", "every path from reading a state file to loading anything passes the comparison with the current run")
    rep.rule("processes", "every process's entry is checked: own slot, own rank, both digests, all slots once, shared part equal")
    rep.rule("data-identity", "the compared data signature covers the data files' content and every option that shapes the stream")
    rep.rule("configuration", "the compared optimizer and scheduler configurations cover type, arguments, rates and layout")
    rep.rule("newest", "the state with the highest iteration number is the one resumed")
    B = P.cls("trainer.base:BaseTrainer")
    load(P, rep, B)
    ranks(P, rep, B)
    digests(P, rep, B)
    matches(P, rep, B)
    signature(P, rep, B)
    files(P, rep, B)
    config(P, rep, B)
    newest(P, rep, B)


def eq(a, x, y, P):
    """atom a says x == y (either order), modulo coercions"""
    return a[0] == "cmp" and a[1] in ("==", "is") and {norm(P, a[2]), norm(P, a[3])} == {x, y}


def load(P, rep, B):
    m = B.find("__init__")
    fl = flow(P, m, lambda g, c, x: g.cls is B and g.name not in CTOR_OPAQUE, cls=B)
    rep.graph(fl)
    loads = list(calls(fl, lambda c: c == ("global", "torch.load"), True))
    SS = {norm(P, fl.term(n, n.call)) for n in loads}
    rep.check(len(SS) == 1, "refuse", "one state file is read", m.where(), f"{len(SS)} state files read")
    if len(SS) != 1:
        return
    S = next(iter(SS))
    its = list(calls(fl, lambda c: c and c[0] == "global" and c[1].endswith("get_iteration_from_ckpt_filename"), True))
    its = [n for n in its if fl.find_path([n], loads, skip_labels=NORMAL) or fl.find_path(loads, [n], skip_labels=NORMAL)]
    IT = {norm(P, fl.term(n, n.call)) for n in its}
    rep.check(len(IT) == 1, "refuse", "the file's iteration is parsed from its name", m.where(), f"{len(IT)} parses")
    if len(IT) != 1:
        return
    IT = next(iter(IT))
    rep.check(S[2][:1] == IT[2][:1], "refuse", "the parsed name is that of the file read", loads[0].where(), f"{show(S[2][0])[:60]} vs {show(IT[2][0])[:60]}")
    lsd = method(fl, "load_state_dict")
    after = [n for n in lsd if fl.find_path(loads, [n], skip_labels=NORMAL)]
    models = [n for n in after if "load_torch_ckpt" in show(norm(P, fl.arg(n, 0, "state_dict"))) or has(fl.recv(n), lambda x: x[0] == "mcall" and x[2] == "_checkpointed_models")]
    opts = [n for n in after if has(norm(P, fl.recv(n)), lambda x: x == A("optimizers"))]
    pend = [n for n, tgt, v in stores_to(fl, lambda y: y[1] == SELF and y[2].startswith("_pending_") or y[1] == A("state")) if is_state(norm(P, v))]
    MUT = [n for n in after if n not in models] + models + pend
    rep.floor("load effects", len(MUT), 6)
    R, M = K(S, "resume"), K(S, "metadata")
    ranks = lambda t: has(t, lambda x: x[0] == "mcall" and x[2] == "_validate_rank_resume_states")

    def need(what, pred, dst=None, via=(), src=None):
        dst = MUT if dst is None else dst
        p = fl.find_path(src or loads, dst, avoid=list(via), avoid_edge=edges(fl, pred), skip_labels=NORMAL)
        rep.check(bool(dst) and p is None, "refuse", what, (dst or loads)[0].where(), "loaded without the check: " + path_str(p))

    need("a file name without an iteration is refused", lambda a: a[0] == "cmp" and a[1] == "is not" and {norm(P, a[2]), norm(P, a[3])} == {IT, NONE} or norm(P, a) == IT, src=its)
    need("only the supported state format is accepted", lambda a: eq(a, K(S, "format_version"), ("const", 2), P))
    need("a different optimizer configuration is refused", lambda a: eq(a, K(S, "optimizer_config"), A("_optimizer_config"), P))
    need("a different scheduler configuration is refused", lambda a: eq(a, K(S, "scheduler_config"), ("mcall", SELF, "_scheduler_config", (), ()), P))
    need("a state without continuation data is refused", lambda a: a[0] == "call" and a[1] == "isinstance" and norm(P, a[2][0]) == R and "dict" in show(a[2][1]))
    need("only known continuation versions are accepted", lambda a: a[0] == "cmp" and (a[1] == "in" and norm(P, a[2]) == K(R, "version") and a[3][0] in ("set", "seq", "tuple") and
         {x for x in a[3][1:]} <= {("const", 1), ("const", 2), "tuple", "list", "set"} or a[1] == "==" and eq(a, K(R, "version"), ("const", 2), P)))
    need("a different process count is refused", lambda a: eq(a, K(R, "world_size"), NP, P))
    need("a missing process entry is refused", lambda a: a[0] == "cmp" and a[1] == "==" and has(a, lambda x: x == NP) and
         any(x[0] == "call" and x[1] == "len" and norm(P, x[2][0]) == K(R, "ranks") for x in a[2:4]))
    val = [n for n in method(fl, "_validate_rank_resume_states") if norm(P, fl.arg(n, 0, "rank_states")) == K(R, "ranks")]
    need("every process's entry is validated", lambda a: False, via=val)
    own = lambda x: x[0] == "idx" and x[2] == ("attr", ACC, "process_index") and ranks(x[1])
    # truth of own["supported"]
    need("a checkpoint without exact continuation is refused", truthy(lambda t: norm(P, t)[0] == "key" and own(norm(P, t)[1]) and norm(P, t)[2] == "supported"))
    sig = method(fl, "_data_stream_signature_matches")
    for n in sig:
        a = norm(P, fl.arg(n, 0, "saved"))
        rep.check(a[0] == "key" and own(a[1]) and a[2] == "data_stream_signature", "refuse", "this process's saved data signature is compared", n.where(), show(a)[:100])
        lg = argval(fl, n, None, "legacy_map_state", ("const", False))
        rep.check(lg == ("const", False) or ranks(lg) and lg[0] == "item" and lg[2] == 1, "refuse", "the old-format exception applies only to old-format states", n.where(), show(lg)[:80])
    for n in val:
        c = argval(fl, n, None, "classify_legacy", ("const", False))
        rep.check(c == ("const", True), "refuse", "old-format states are recognised as such", n.where(), show(c))
    need("changed data is refused", lambda a: a[0] == "mcall" and a[2] == "_data_stream_signature_matches")
    need("a state whose counter differs from its name is refused", lambda a: eq(a, K(M, "iteration"), IT, P))
    # models
    ex = lambda a: a[0] == "call" and a[1] in ("os.path.isfile", "os.path.exists") and has(a, lambda x: x[0] == "mcall" and x[2] == "_model_ckpt_path")
    need("a missing model file is refused", ex, dst=models)

    def same_iter(a):
        if a[0] != "cmp" or a[1] != "==":
            return False
        xs = [norm(P, x) for x in a[2:4]]
        o = [x for x in xs if x not in (IT, K(M, "iteration"))]
        return len(o) == 1 and o[0][0] == "key" and o[0][2] == "iteration" and o[0][1][0] == "item" and o[0][1][2] == 2 and "load_torch_ckpt" in show(o[0][1][1])
    # per round of the model loop
    for n in models:
        h = inner_loop(fl, n)
        for what, pred in (("a missing model file is refused", ex), ("a model of another iteration is refused", same_iter)):
            p = fl.find_path([h] if h is not None else loads, [n], avoid_edge=edges(fl, pred), src_labels=("it",) if h is not None else (), skip_labels=NORMAL)
            rep.check(p is None, "refuse", what, n.where(), path_str(p))
    # quantizer state
    v1 = method(fl, "_validate_v1_vq_compatibility")
    V = K(R, "version")
    need("an old state without quantizer data must not need any", lambda a: a[0] == "cmp" and (a[1] == "!=" and eq(("cmp", "==") + a[2:], V, ("const", 1), P) or eq(a, V, ("const", 2), P)), dst=opts, via=v1)
    need("a current state must carry quantizer data", lambda a: eq(a, V, ("const", 1), P) or a[0] == "call" and a[1] == "isinstance" and norm(P, a[2][0])[0] == "key" and
         norm(P, a[2][0])[2] == "vq_runtime" and own(norm(P, a[2][0])[1]), dst=opts)

    def names(x, y):
        S_ = lambda t: t[2][0] if t[0] == "call" and t[1] in ("set", "sorted", "list", "tuple", "frozenset") else t[1] if t[0] == "mcall" and t[2] == "keys" else t
        return lambda a: a[0] == "cmp" and a[1] == "==" and {norm(P, S_(S_(a[2]))), norm(P, S_(S_(a[3])))} == {x, y}
    need("different optimizer names are refused", names(K(S, "optimizers"), A("optimizers")), dst=opts)
    sch = [n for n in lsd if has(norm(P, fl.recv(n)), lambda x: x == A("schedulers"))]
    p = fl.find_path([fl.g.entry], sch, avoid_edge=edges(fl, names(A("_pending_scheduler_states"), A("schedulers"))), skip_labels=NORMAL)
    rep.check(bool(sch) and p is None, "refuse", "different scheduler names are refused", (sch or loads)[0].where(), path_str(p))
    # old merged checkpoints
    leg = [n for n in lsd if has(norm(P, fl.arg(n, 0, "state_dict")), lambda x: x[0] == "call" and x[1].endswith("load_torch_ckpt") and "rundir" in show(x))]
    rd = [n for n in calls(fl, lambda c: c and c[0] == "global" and c[1].endswith("load_torch_ckpt"), True) if "rundir" in show(fl.term(n, n.call))]
    zero = lambda a: a[0] == "cmp" and (a[1] in ("<=", "==") and norm(P, a[2])[0] == "key" and norm(P, a[2])[2] == "iteration" and a[3] == ("const", 0)
                                        or a[1] in (">=", "==") and a[2] == ("const", 0) and norm(P, a[3])[0] == "key" and norm(P, a[3])[2] == "iteration"
                                        or a[1] == "<" and norm(P, a[2])[0] == "key" and a[3] == ("const", 1))
    if leg:
        p = fl.find_path(rd, leg, avoid_edge=edges(fl, zero), skip_labels=NORMAL)
        rep.check(p is None, "refuse", "an old merged checkpoint of a started run is refused", leg[0].where(), path_str(p))
    # a found state file is always used
    fnd = [n for n in calls(fl, lambda c: c and c[0] == "global" and c[1].endswith("find_latest_ckpt"), True)]
    st = [n for n in fnd if norm(P, fl.arg(n, 1, "prefix")) == ("const", "state_")]
    rep.check(len(st) == 1, "newest", "state files are searched for", m.where(), f"{len(st)} searches")
    for n in st:
        t = norm(P, fl.term(n, n.call))
        rep.check(norm(P, fl.arg(n, 0, "dirname")) == A("ckpt_dir"), "newest", "in the directory they are saved to", n.where(), show(t)[:80])
        ends = method(fl, "_prepare_for_training") or [fl.g.exit]
        p = fl.find_path([n], ends, avoid=loads, avoid_edge=edges(fl, falsy(lambda y: norm(P, y) == t)), skip_labels=NORMAL)
        rep.check(p is None, "newest", "an existing state file is always resumed", n.where(), path_str(p))
        rep.check(S[2][:1] == (t,), "newest", "the newest state file is the one read", loads[0].where(), show(S[2][0])[:80])
    others = [n for n in lsd if n not in after and not has(norm(P, fl.recv(n)), lambda x: x == A("schedulers"))]
    p = fl.find_path(loads, others, skip_labels=NORMAL)
    rep.check(p is None, "newest", "nothing else is loaded over a resumed state", loads[0].where(), path_str(p))


def ranks(P, rep, B):
    m = B.find("_validate_rank_resume_states")
    fl = flow(P, m, lambda g, c, x: g.cls is B and g.name != "_global_resume_projection", cls=B)
    rep.graph(fl)
    RS = ("param", "rank_states")
    E = ("elem", RS)
    heads = [n for n in fl.g.live if n.kind == "for" and whole(norm(P, fl.term(n, n.expr)), lambda t: t == RS)]
    slot = K(E, "slot")
    seen = [n for n, tgt, v, t, c in fl.stores() if tgt[0] == "sub" and norm(P, tgt[2]) == slot]
    legacy = edges(fl, lambda a: is_legacy(P, a, RS))

    def dig(t, over):
        t = norm(P, t)
        return t[0] == "mcall" and t[2] in ("hexdigest", "digest") and t[1][0] == "call" and t[1][1] == "hashlib.sha256" and t[1][2] and t[1][2][0][0] == "call" and \
            t[1][2][0][1].endswith("canonical_pipeline_state_bytes") and over(t[1][2][0][2][0])
    loc = lambda x: x == E or x == ("call", "dict", (E,), ()) or x[0] == "comp" and x[1] == "dict" and has(x, lambda y: y == E) or x[0] == "dict" and has(x, lambda y: y == E) or x[0] == "upd" and has(x, lambda y: y == E)
    proj = lambda x: x == ("mcall", SELF, "_global_resume_projection", (E,), ())
    ROUND = [
        ("each entry is a record", lambda a: a[0] == "call" and a[1] == "isinstance" and a[2][0] == E and "dict" in show(a[2][1])),
        ("slots are integers", lambda a: a[0] == "cmp" and a[1] in ("is", "==") and ("call", "type", (slot,), ()) in [norm(P, x) for x in a[2:4]] or
         a[0] == "call" and a[1] == "isinstance" and norm(P, a[2][0]) == slot),
        ("slots are within the process count", lambda a: a[0] == "cmp" and a[1] == "in" and norm(P, a[2]) == slot and has(a[3], lambda x: x == NP) or
         a[0] == "cmp" and a[1] in ("<", ">") and has(a, lambda x: x == NP) and has(a, lambda x: x == slot)),
        ("an entry's rank is its slot", lambda a: eq(a, K(E, "rank"), slot, P)),
        ("no slot appears twice", lambda a: a[0] == "cmp" and a[1] == "not in" and norm(P, a[2]) == slot),
        ("each entry's own digest is checked", lambda a: a[0] == "cmp" and a[1] == "==" and any(norm(P, x) == K(E, "local_digest") for x in a[2:4]) and any(dig(x, loc) for x in a[2:4])),
        ("each entry's shared digest is checked", lambda a: a[0] == "cmp" and a[1] == "==" and any(norm(P, x) == K(E, "global_digest") for x in a[2:4]) and any(dig(x, proj) for x in a[2:4])),
        ("only known data positions are accepted", lambda a: a[0] == "cmp" and a[1] == "in" and norm(P, a[2]) == K(E, "cursor_kind") or
         a[0] == "cmp" and a[1] in ("is not", "!=") and K(E, "supported") in [norm(P, x) for x in a[2:4]]),
        ("an unsupported entry holds no position", lambda a: a[0] == "cmp" and a[1] == "is" and {norm(P, a[2]), norm(P, a[3])} == {K(E, "cursor_kind"), NONE} or
         a[0] == "cmp" and a[1] in ("is", "==") and {norm(P, x) for x in a[2:4]} == {K(E, "supported"), ("const", True)}),
    ]
    hl = [n for n in calls(fl, lambda c: c and c[0] == "global" and c[1].endswith("canonical_pipeline_state_bytes"), True) if loc(norm(P, fl.term(n, n.call.args[0])))]
    pops = [n for n in method(fl, "pop") if norm(P, fl.arg(n, 0, None)) == ("const", "local_digest")] + \
        [n for n in fl.g.live if n.kind == "stmt" and "local_digest" in show(fl.term(n, n.expr) if n.expr is not None else NONE)]
    filt = all(has(fl.term(n, n.call.args[0]), lambda x: x == ("const", "local_digest")) for n in hl)
    for h in heads[:1]:
        p = fl.find_path([h], hl, avoid=pops, src_labels=("it",), skip_labels=NORMAL) if not filt else None
        rep.check(bool(hl) and p is None, "processes", "an entry's digest is taken without the digest itself", m.where(), path_str(p))
    good = [h for h in heads if seen and every_round(fl, h, seen) is None]
    rep.check(bool(good), "processes", "every entry is taken", m.where(), "an entry is skipped")
    for what, pred in ROUND:
        ok = None
        for h in good:
            ok = every_round(fl, h, [], edges(fl, pred))
            if ok is None:
                break
        rep.check(bool(good) and ok is None, "processes", what, m.where(), "accepted without the check: " + path_str(ok))
    if good:
        p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=good, avoid_edge=legacy, skip_labels=NORMAL)
        rep.check(p is None, "processes", "entries are checked in every case", m.where(), path_str(p))
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid_edge=either(legacy, edges(fl, lambda a: slots_eq(P, a, slot))), skip_labels=NORMAL)
    rep.check(p is None, "processes", "every process has an entry", m.where(), path_str(p))
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid_edge=either(legacy, edges(fl, lambda a: one_global(P, a))), skip_labels=NORMAL)
    rep.check(p is None, "processes", "the shared part is equal on all processes", m.where(), path_str(p))
    for n, t in returns(fl):
        for x in alts(norm(P, t)):
            pair = x[0] == "seq" and len(x) == 3
            y = x[1] if pair else x
            old = y == RS or y == ("call", "list", (RS,), ())
            if old:
                p = fl.find_path([fl.g.entry], [n], avoid_edge=legacy, skip_labels=NORMAL)
                rep.check(p is None, "processes", "unchecked entries are only those of the old format", n.where(), path_str(p))
                if pair:
                    rep.check(x[2] == ("const", True), "processes", "old-format entries are marked as such", n.where(), show(x[2]))
                continue
            ok = y[0] == "comp" and y[1] == "list" and y[3] == (("call", "range", (NP,), ()),) and not y[4] and y[2][0] == "idx" and y[2][2] == ("elem", y[3][0]) and \
                y[2][1][0] == "comp" and y[2][1][2] == ("pair", slot, E)
            rep.check(ok, "processes", "entries are returned by slot", n.where(), show(y)[:150])
            if pair:
                rep.check(x[2] == ("const", False), "processes", "current-format entries are not treated as old", n.where(), show(x[2]))


def is_legacy(P, a, RS):
    """all entries have exactly the old keys and claim support"""
    if a[0] != "call" or a[1] != "all" or a[2][0][0] != "comp" or a[2][0][3] != (RS,) or a[2][0][4]:
        return False
    b = a[2][0][2]
    E = ("elem", RS)
    xs = [norm(P, x) for x in (b[1:] if b[0] == "and" else (b,))]
    keys = any(x[0] == "cmp" and x[1] == "==" and any(y[0] == "call" and y[1] == "set" and y[2] == (E,) or y == E for y in x[2:4]) for x in xs)
    kind = any(x[0] == "cmp" and x[1] == "not in" and x[2] == ("const", "cursor_kind") for x in xs) or keys
    sup = any(x[0] == "cmp" and x[1] in ("is", "==") and K(E, "supported") in x[2:4] and ("const", True) in x[2:4] for x in xs)
    return keys and kind and sup


def slots_eq(P, a, slot):
    if a[0] != "cmp" or a[1] != "==":
        return False
    x, y = a[2], a[3]
    f = lambda t: has(t, lambda z: z[0] == "comp" and has(z, lambda w: w == slot))
    g = lambda t: has(t, lambda z: z == NP)
    return f(x) and g(y) or g(x) and f(y)


def one_global(P, a):
    if a[0] == "cmp" and a[1] in ("==", "<=", "<"):
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if x[0] == "call" and x[1] == "len" and has(x, lambda z: z[0] == "key" and z[2] == "global_digest") and x[2][0][0] == "comp" and x[2][0][1] == "set" and not x[2][0][4] and not has(x[2][0], lambda z: z[0] == "slice"):
                return y == ("const", 1) or a[1] == "<" and y == ("const", 2)
    return False


def digests(P, rep, B):
    """what is written is what is checked"""
    m = B.find("_local_resume_state")
    fl = flow(P, m, lambda g, c, x: g.cls is B and g.name not in CTOR_OPAQUE | {"_global_resume_projection"}, cls=B)
    rep.graph(fl)
    hs = list(calls(fl, lambda c: c and c[0] == "global" and c[1].endswith("canonical_pipeline_state_bytes"), True))
    for rn, t in returns(fl):
        d = flat(norm(P, t))
        for k in ("local_digest", "global_digest"):
            v = d.get(k, [("absent",)])
            ok = len(v) == 1 and v[0][0] == "mcall" and v[0][2] == "hexdigest" and has(v[0], lambda x: x[0] == "call" and x[1].endswith("canonical_pipeline_state_bytes"))
            outer = next((x for x in sub(v[0]) if x[0] == "call" and x[1].endswith("canonical_pipeline_state_bytes")), None)
            g = outer is not None and bool(outer[2]) and any(x[0] == "mcall" and x[2] == "_global_resume_projection" for x in alts(outer[2][0]))
            rep.check(ok and g == (k == "global_digest"), "processes", f"{k} is stored with the entry", rn.where(), show(v[0])[:100])
    # nothing but the digests themselves changes an entry after it was hashed
    for n in hs:
        a = n.call.args[0]
        glob = any(x[0] == "mcall" and x[2] == "_global_resume_projection" for x in alts(fl.term(n, a)))
        later = [x for x, tgt, v, tt, c in fl.stores() if tgt[0] == "sub" and tgt[2][0] == "const" and tgt[2][1] not in (("local_digest", "global_digest") if glob else ("local_digest",))] + \
            [x for x in method(fl, "update", "setdefault", "pop") if fl.recv(x)[0] in ("dict", "upd", "rec", "phi")]
        p = fl.find_path([n], later, skip_labels=NORMAL)
        rep.check(p is None, "processes", "the digest covers the finished entry", n.where(), "the entry changes after it was hashed: " + path_str(p))
    mp = B.find("_global_resume_projection")
    fp = flow(P, mp, lambda g, c, x: g.cls is B, cls=B)
    t = norm(P, retval(fp))
    d = flat(t)
    S = ("param", mp.params[-1])
    for k in ("supported", "cursor_kind", "data_stream_signature"):
        rep.check(d.get(k) == [K(S, k)], "processes", f"{k} is shared by all processes", mp.where(), show((d.get(k) or [("absent",)])[0])[:80])
    ck = lambda ops: edges(fp, lambda a: a[0] == "cmp" and a[1] in ops and K(S, "cursor_kind") in [norm(P, x) for x in a[2:4]])
    for n, tgt, v, tt, c in fp.stores():
        if tgt[0] == "sub":
            v = norm(P, fp.storeval(n, v))
            if tgt[2] == ("const", "sampler"):
                p = fp.find_path([fp.g.entry], [n], avoid_edge=ck(("!=",)), skip_labels=NORMAL)
                rep.check(p is None, "processes", "sampler positions are compared for map-style runs", n.where(), path_str(p))
            elif has(v, lambda x: x == K(S, "stream")):
                p = fp.find_path([fp.g.entry], [n], avoid_edge=ck(("==",)), skip_labels=NORMAL)
                rep.check(p is None, "processes", "stream positions are compared for streaming runs", n.where(), path_str(p))
            elif tgt[2] == ("const", "vq_runtime"):
                p = fp.find_path([fp.g.exit], [n], skip_labels=NORMAL) or fp.find_path([fp.g.entry], [fp.g.exit], avoid=[n], avoid_edge=edges(fp, lambda a: a[0] == "cmp" and a[1] == "not in"
                                 or a[0] == "cmp" and a[1] == "is" and NONE in a[2:4]), skip_labels=NORMAL)
                rep.check(p is None, "processes", "quantizer layout is compared", n.where(), path_str(p))
                r = [x for x in alts(v) if x[0] == "dict"]
                for x in r:
                    rep.check({"version", "schema", "autocast_mode"} <= set(flat(x)), "processes", "quantizer layout and mode are compared", n.where(), show(x)[:100])
    samp = [n for n in method(fp, "pop") if norm(P, fp.arg(n, 0, None)) == ("const", "rank")]
    for k in ("sampler", "stream", "stream_coordination", "vq_runtime"):
        rep.check(has(t, lambda x: x == K(S, k)), "processes", f"the shared part of {k} is compared", mp.where(), "not compared across processes")
    rep.check(bool(samp) or not has(t, lambda x: x == K(S, "sampler")), "processes", "the process number itself is not part of the shared state", mp.where(), "runs with several processes could never resume")


def matches(P, rep, B):
    m = B.find("_data_stream_signature_matches")
    fl = flow(P, m, lambda g, c, x: g.cls is B, cls=B)
    rep.graph(fl)
    SV = ("param", "saved")
    same = edges(fl, lambda a: eq(a, SV, SIGATTR, P))
    legacy = edges(fl, truthy(lambda y: y == ("param", "legacy_map_state")))
    differ = edges(fl, lambda a: a[0] == "cmp" and a[1] == "!=" and {norm(P, a[2]), norm(P, a[3])} == {SV, SIGATTR})
    neg = [n for n, t in returns(fl) if any(x in (("const", False), NONE) or not eq(x, SV, SIGATTR, P) and x != ("const", True) for x in alts(norm(P, t)))]
    p = fl.find_path([fl.g.entry], neg, avoid_edge=differ, skip_labels=NORMAL)
    rep.check(p is None, "data-identity", "equal signatures match", m.where(), path_str(p))
    FI = K(SIGATTR, "file_identity")
    for n, t in returns(fl):
        t = norm(P, t)
        for x in alts(t):
            if x == ("const", False):
                continue
            if eq(x, SV, SIGATTR, P):
                continue
            if x == ("const", True):
                p = fl.find_path([fl.g.entry], [n], avoid_edge=same, skip_labels=NORMAL)
                rep.check(p is None, "data-identity", "signatures match only when equal", n.where(), path_str(p))
                continue
            p = fl.find_path([fl.g.entry], [n], avoid_edge=legacy, skip_labels=NORMAL)
            rep.check(p is None, "data-identity", "the projected comparison is only for old-format states", n.where(), path_str(p))
            parts = x[1:] if x[0] == "and" else (x,)
            okeq = any(y[0] == "cmp" and y[1] == "==" and SV in y[2:4] and has(y, lambda z: z == SIGATTR) for y in parts)
            okal = any(y[0] == "call" and y[1] == "all" and has(y, lambda z: z[0] == "cmp" and z[1] == "in") for y in parts)
            rep.check(okeq and okal, "data-identity", "old-format states need equal projections and known file contents", n.where(), show(x)[:120])
            cs = [y for y in sub(x) if y[0] == "comp" and has(y[2], lambda z: z == ("elem", FI))]
            SL, HS = ("slice", ("elem", FI), NONE, ("const", 3), NONE), ("item", ("elem", FI), 3)
            base = [y for y in cs if y[3] == (FI,) and not y[4] and y[2] in (SL, HS)]
            test = lambda y: (y[2][0] == "cmp" and HS in y[2][2:4] or y[2] in (SL, HS)) and not y[4] and y[1] != "set" and (y[3] == (FI,) or len(y[3]) == 1 and y[3][0] in base)
            okc = {repr(y[2]) for y in base} == {repr(SL), repr(HS)} and all(y in base or y[1] == "gen" and not y[4] and y[2][0] == "cmp" and (y[3] == (FI,) or y[3][0] in base) or test(y) for y in cs)
            rep.check(bool(okc), "data-identity", "old-format states compare path, size and time of every file and its content hash", n.where(), "; ".join(show(y)[:60] for y in cs))
            rep.check(len(parts) >= 3, "data-identity", "old-format states without files are refused", n.where(), show(x)[:120])
    fd = flow(P, B.find("_setup_data"), None, cls=B)
    for n, tgt, v in stores_to(fd, lambda y: y == SIGATTR):
        rep.check(norm(P, v) == ("mcall", SELF, "_build_data_stream_signature", (), ()), "data-identity", "the current signature is built from the current configuration", n.where(), show(v)[:80])


def signature(P, rep, B):
    m = B.find("_build_data_stream_signature")
    fl = flow(P, m, lambda g, c, x: g.cls is B and g.name not in ("_canonical_resume_value", "_training_file_identity"), cls=B)
    rep.graph(fl)
    want = {"batch size": A("batch_size"), "batch size per process": A("batch_size_per_process"), "dataset type": A("dataset_type"), "dataset options": A("dataset_args"),
            "pipelines": A("data_pipelines"), "data paths": A("train_datas"), "file contents": ("mcall", SELF, "_training_file_identity", (), ()), "shuffling": A("no_shuffle"),
            "worker count": A("num_worker"), "loader options": A("dataloader_args"), "gradient accumulation": A("gradient_accumulation_steps"), "process count": NP}
    RSt = A("_resume_stream")
    nstream = nmap = 0
    for n, t in returns(fl):
        t = norm(P, t)
        if t == NONE:
            # only for configurations that cannot be written down
            hs = [x for x in fl.g.live if x.kind == "handler"]
            p = fl.find_path([fl.g.entry], [n], avoid=hs, skip_labels=())
            rep.check(p is None, "data-identity", "the signature is missing only when it cannot be expressed", n.where(), path_str(p))
            setr = [x for x, tgt, v in stores_to(fl, lambda y: y == A("_exact_resume_reason"))]
            p = fl.find_path(hs, [n], avoid=setr, avoid_edge=edges(fl, truthy(lambda y: y == A("_exact_resume_reason"))), skip_labels=NORMAL)
            rep.check(bool(setr) and p is None, "data-identity", "such runs are marked as not exactly resumable", n.where(), path_str(p))
            continue
        rep.check(t[0] == "mcall" and t[2] == "_canonical_resume_value", "data-identity", "the signature is in canonical form", n.where(), show(t)[:80])
        r = t[3][0] if t[0] == "mcall" and t[3] else t
        if has(r, lambda x: x == ("mcall", RSt, "signature_state", (), ())):
            nstream += 1
            rep.check(has(r, lambda x: x == A("gradient_accumulation_steps")), "data-identity", "gradient accumulation is part of a stream's signature", n.where(), show(r)[:100])
            p = fl.find_path([fl.g.entry], [n], avoid_edge=edges(fl, truthy(lambda y: y == RSt or y[0] == "call" and y[1] == "getattr")), skip_labels=NORMAL)
            rep.check(p is None, "data-identity", "streams use the stream's own signature", n.where(), path_str(p))
            continue
        nmap += 1
        d = flat(r)
        for k, v in want.items():
            ks = [kk for kk, vv in d.items() if any(has(x, lambda y: y == v) for x in vv)]
            rep.check(bool(ks), "data-identity", f"{k} is part of the signature", n.where(), f"{k} can change unnoticed")
        for kk, vv in d.items():
            for x in vv:
                rep.check(not has(x, lambda y: y[0] == "call" and (y[1] in ("len", "hash", "id", "bool", "type") and kk != "shuffle" or y[1].startswith(("time.", "random.")))), "data-identity", f"{kk} is recorded in full", n.where(), show(x)[:80])
                rep.check(x[0] not in ("item", "idx") and not has(x, lambda y: y[0] == "slice"), "data-identity", f"{kk} is recorded in full", n.where(), show(x)[:80])
        rep.check(RNGALG(d), "data-identity", "the random-number scheme is part of the signature", n.where(), "not recorded")
    rep.check(nstream >= 1, "data-identity", "streaming runs have a signature", m.where(), "no stream signature")
    rep.check(nmap >= 1, "data-identity", "map-style runs have a signature", m.where(), "no map signature")
    # canonical form is injective on what it accepts
    mc = B.find("_canonical_resume_value")
    fc = flow(P, mc, lambda g, c, x: g.cls is B and g is not mc and g.name != "_canonical_resume_value", cls=B)
    V = ("param", "value")
    kinds = set()
    for n, t in returns(fc):
        t = norm(P, t)
        if t == V:
            p = fc.find_path([fc.g.entry], [n], avoid_edge=edges(fc, lambda a: a[0] == "cmp" and a[1] == "is" and NONE in a[2:4] or a[0] == "call" and a[1] == "isinstance"), skip_labels=NORMAL)
            rep.check(p is None, "data-identity", "only plain values are kept as they are", n.where(), path_str(p))
            kinds.add("plain")
        elif t[0] == "comp" and t[1] == "dict":
            ok = not t[4] and t[2][0] == "pair" and t[2][2][0] in ("call", "mcall") and has(t[2][2], lambda x: x == ("elemval", V)) and has(t[2][1], lambda x: x == ("elemkey", V))
            rep.check(ok, "data-identity", "every entry of a mapping is kept", n.where(), show(t)[:120])
            p = fc.find_path([fc.g.entry], [n], avoid_edge=edges(fc, lambda a: isa(a, V, "dict")), skip_labels=NORMAL)
            rep.check(p is None, "data-identity", "mappings are compared as mappings", n.where(), path_str(p))
            kinds.add("dict")
        elif t[0] == "comp" and t[1] == "list":
            ok = not t[4] and t[3] == (V,) and t[2][0] in ("call", "mcall") and has(t[2], lambda x: x == ("elem", V))
            rep.check(ok, "data-identity", "every element of a sequence is kept in order", n.where(), show(t)[:120])
            p = fc.find_path([fc.g.entry], [n], avoid_edge=edges(fc, lambda a: isa(a, V, "list") or isa(a, V, "tuple")), skip_labels=NORMAL)
            rep.check(p is None, "data-identity", "sequences are compared as sequences", n.where(), path_str(p))
            kinds.add("list")
        elif t[0] == "call" and t[1] == "sorted":
            ok = t[2][0][0] == "comp" and not t[2][0][4] and t[2][0][3] == (V,)
            rep.check(ok, "data-identity", "every element of a set is kept", n.where(), show(t)[:120])
        else:
            rep.bad("data-identity", "values are kept distinguishable", n.where(), show(t)[:120])
    rep.check({"plain", "dict", "list"} <= kinds, "data-identity", "nested configurations are compared in full", mc.where(), str(sorted(kinds)))
    ex = [n for n in fc.g.live if n.kind == "raise"]
    rep.check(bool(ex), "data-identity", "values that cannot be compared are rejected", mc.where(), "silently accepted")


def isa(a, v, ty):
    return a[0] == "call" and a[1] == "isinstance" and a[2][0] == v and has(a[2][1], lambda x: len(x) > 1 and x[1] == ty)


def RNGALG(d):
    return any(has(x, lambda y: y[0] in ("global", "const") and "RNG_ALGORITHM" in str(y[1]) or y[0] == "const" and isinstance(y[1], str) and "rng" in str(y[1]).lower())
               for k, v in d.items() for x in v if "rng" in k)


def files(P, rep, B):
    m = B.find("_training_file_identity")
    fl = flow(P, m, lambda g, c, x: g.cls is B, cls=B)
    rep.graph(fl)
    ups = method(fl, "update")
    for n in ups:
        a = norm(P, fl.arg(n, 0, None))
        rep.check(has(a, lambda x: x[0] == "mcall" and x[2] in ("read", "readinto")), "data-identity", "file contents are hashed", n.where(), show(a)[:60])
    rd = method(fl, "read")
    rep.check(bool(ups) and bool(rd), "data-identity", "file contents are hashed", m.where(), "contents are not hashed")
    eof = edges(fl, falsy(lambda y: has(y, lambda x: x[0] == "mcall" and x[2] == "read")))
    app = method(fl, "append")
    app = [n for n in app if norm(P, fl.arg(n, 0, None))[0] == "seq" and len(norm(P, fl.arg(n, 0, None))) >= 5]
    full = [n for n in app if has(norm(P, fl.arg(n, 0, None)), lambda x: x[0] == "mcall" and x[2] in ("hexdigest", "digest"))]
    if rd and rd[0].call.args:     # chunked: loop until the end of the file
        p = fl.find_path(rd, full, avoid_edge=eof, skip_labels=NORMAL)
        rep.check(p is None, "data-identity", "the whole file is hashed", rd[0].where(), "hashing can stop early: " + path_str(p))
        op = [n for n in calls(fl, lambda c: c and c[0] in ("builtin", "global") and c[1].split(".")[-1] == "open", True)]
        p = fl.find_path(rd, rd, avoid=ups + op, skip_labels=NORMAL)
        rep.check(p is None, "data-identity", "no part of a file is left out", rd[0].where(), path_str(p))
    for n in full:
        e = norm(P, fl.arg(n, 0, None))
        have = [any(has(x, f) for x in e[1:] if isinstance(x, tuple)) for f in (lambda x: x[0] == "attr" and x[2] == "st_size", lambda x: x[0] == "mcall" and x[2] in ("hexdigest", "digest"))]
        rep.check(all(have), "data-identity", "path, size and content identify a file", n.where(), show(e)[:100])
        d = [x for x in sub(e) if x[0] == "call" and x[1].startswith("hashlib.")]
        rep.check(all(x[1] in ("hashlib.sha256", "hashlib.sha512", "hashlib.blake2b", "hashlib.sha3_256") for x in d), "data-identity", "a collision-resistant hash", n.where(), show(d[0]) if d else "")
        new = [x for x in calls(fl, lambda c: c and c[0] == "global" and c[1].startswith("hashlib."), True)]
        h = inner_loop(fl, n)
        if h is not None:
            p = fl.find_path([h], [n], avoid=new, src_labels=("it",), skip_labels=NORMAL)
            rep.check(p is None, "data-identity", "each file has its own hash", n.where(), path_str(p))
    isf = edges(fl, lambda a: a[0] == "not" and a[1][0] == "call" and a[1][1] in ("os.path.isfile", "os.path.exists"))
    for n in full[:1]:
        h = inner_loop(fl, n)
        p = every_round(fl, h, full, isf) if h is not None else ()
        rep.check(p is None, "data-identity", "every existing file is identified", n.where(), path_str(p) if p else "")
    wk = list(calls(fl, lambda c: c and c[0] == "global" and c[1] in ("os.walk", "os.scandir", "os.listdir"), True))
    ch = [inner_loop(fl, n) for n in full if inner_loop(fl, n) is not None]
    if wk and ch:
        okd = edges(fl, lambda a: a[0] == "call" and a[1] == "os.path.isfile" or a[0] == "not" and a[1][0] == "call" and a[1][1] == "os.path.isdir")
        p = fl.find_path([fl.g.entry], ch, avoid=wk, avoid_edge=okd, skip_labels=NORMAL)
        rep.check(p is None, "data-identity", "the files of a directory are identified", wk[0].where(), path_str(p))
        isd = edges(fl, lambda a: a[0] == "call" and a[1] == "os.path.isdir")
        p = fl.find_path([fl.g.entry], wk, avoid_edge=isd, skip_labels=NORMAL)
        rep.check(p is None, "data-identity", "only directories are listed", wk[0].where(), path_str(p))
    for h in ch:
        p = every_round(fl, h, app)
        rep.check(p is None, "data-identity", "missing files are recorded too", h.where(), path_str(p))
    for n in fl.g.live:
        t = fl.term(n, n.expr) if n.kind == "for" else fl.arg(n, 0, None) if n.kind == "call" and n.call is not None and n.call.args and fl.callee(n) and fl.callee(n)[1] in ("extend", "append") else NONE
        rep.check(not has(t, lambda x: x[0] == "slice"), "data-identity", "no file is left out", n.where(), show(t)[:100]) if n.kind in ("for", "call") and t != NONE else None
    for n, t in returns(fl):
        rep.check(has(norm(P, t), lambda x: x[0] == "mcall" and x[2] in ("hexdigest", "digest")), "data-identity", "file identities are returned", n.where(), show(t)[:60])
    rep.check(bool(returns(fl)), "data-identity", "file identities are returned", m.where(), "nothing returned")
    heads = [n for n in fl.g.live if n.kind == "for" and whole(norm(P, fl.term(n, n.expr)), lambda t: t == A("train_datas"))]
    rep.check(bool(heads), "data-identity", "all training data are covered", m.where(), "not all training data")
    rep.check(bool(full), "data-identity", "files are identified by content", m.where(), "no content hash recorded")
    srt = [n for n in fl.g.live if n.kind == "for" and has(fl.term(n, n.expr), lambda t: t[0] == "call" and t[1] in ("os.walk", "os.listdir", "os.scandir"))]
    for h in srt:
        body = fl.loop_body(h)
        ok = any(n.id in body and has(fl.term(n, n.call) if n.kind == "call" else NONE, lambda t: t[0] == "call" and t[1] == "sorted") for n in fl.g.live) or \
            has(fl.term(h, h.expr), lambda t: t[0] == "call" and t[1] == "sorted")
        rep.check(ok, "data-identity", "files of a directory are listed in a fixed order", h.where(), "depends on directory order")


def config(P, rep, B):
    m = B.find("_current_optimizer_config")
    fl = flow(P, m, lambda g, c, x: g.cls is B and g.name != "_canonical_resume_value", cls=B)
    d = flat(norm(P, retval(fl)))
    rep.graph(fl)
    for k, v in (("type", A("optim_type")), ("args", A("optim_args")), ("weight_decay", A("weight_decay"))):
        ks = [x for x in d.values() for y in x if has(y, lambda z: z == v)]
        rep.check(bool(ks), "configuration", f"optimizer {k} is compared", m.where(), f"{k} can change unnoticed")
    o = [y for x in d.values() for y in x if y[0] == "comp" and has(y, lambda z: z == A("optimizers"))]
    ok = False
    for y in o:
        lr = has(y, lambda z: z[0] == "key" and z[2] == "lr" or z[0] == "idx" and z[2] == ("const", "lr"))
        npar = has(y, lambda z: z[0] == "call" and z[1] == "len" and has(z, lambda w: w == ("const", "params") or w[0] == "key" and w[2] == "params"))
        lr = lr and y[3] in ((("mcall", A("optimizers"), "items", (), ()),), (A("optimizers"),))
        ng = y[2][0] == "pair" and y[2][2][0] == "comp" and not y[2][2][4] and not y[4] and y[2][2][3][0][0] == "attr" and y[2][2][3][0][2] == "param_groups"
        ok = ok or lr and npar and ng
    rep.check(ok, "configuration", "every group's base learning rate and size is compared", m.where(), "learning rates or layout can change unnoticed")
    m = B.find("_scheduler_config")
    fl = flow(P, m, lambda g, c, x: g.cls is B and g.name != "_canonical_resume_value", cls=B)
    rep.graph(fl)
    d = flat(norm(P, retval(fl)))
    for k, v in (("type", A("lr_scheduler_type")), ("args", A("lr_scheduler_args")), ("iterations", A("iterations"))):
        ks = [x for x in d.values() for y in x if has(y, lambda z: z == v)]
        rep.check(bool(ks), "configuration", f"scheduler {k} is compared", m.where(), f"{k} can change unnoticed")


def newest(P, rep, B):
    m = P.func("utils.file_utils:find_latest_ckpt")
    fl = flow(P, m, lambda g, c, x: g.module is m.module and g.name != "get_iteration_from_ckpt_filename", cls=None)
    rep.graph(fl)
    LD = ("call", "os.listdir", (("param", "dirname"),), ())
    nres = 0
    for n, t in returns(fl):
        t = norm(P, t)
        if t == NONE:
            nothing = edges(fl, lambda a: a[0] == "not" and (a[1][0] == "call" and a[1][1].startswith("os.path.") or a[1][0] in ("comp", "seq") or a[1][0] == "call" and a[1][1] in ("len", "sorted", "any")) or
                            a[0] == "cmp" and a[1] == "==" and ("const", 0) in a[2:4])
            p = fl.find_path([fl.g.entry], [n], avoid_edge=nothing, skip_labels=NORMAL)
            rep.check(p is None, "newest", "an existing state file is found", n.where(), path_str(p))
            continue
        nres += 1
        last = t[0] == "item" and t[2] == -1
        mx = t[0] == "call" and t[1] == "max"
        rep.check(last or mx, "newest", "the file with the highest iteration is returned", n.where(), show(t)[:80])
        lst = t[1] if last else t[2][0] if mx else NONE
        ks = None
        if mx:
            ks = dict(t[3]).get("key")
        elif lst[0] == "call" and lst[1] == "sorted":
            ks = dict(lst[3]).get("key")
            rep.check(dict(lst[3]).get("reverse", ("const", False)) == ("const", False), "newest", "ascending order", n.where(), "reversed")
            lst = lst[2][0]
        else:
            srt = [x for x in method(fl, "sort")]
            p = fl.find_path([fl.g.entry], [n], avoid=srt, skip_labels=NORMAL)
            rep.check(bool(srt) and p is None, "newest", "candidates are ordered by iteration", n.where(), path_str(p))
            for x in srt:
                ks = fl.arg(x, None, "key")
                rv = argval(fl, x, None, "reverse", ("const", False))
                rep.check(rv == ("const", False), "newest", "ascending order", x.where(), show(rv))
        ok = lst[0] == "comp" and lst[3] == (LD,) and has(lst[2], lambda x: x == ("elem", LD))
        rep.check(ok, "newest", "all files of the directory are candidates", n.where(), show(lst)[:100])
        key(P, rep, m, ks, n)
    rep.check(nres >= 1, "newest", "an existing state file is found", m.where(), "never")
    app = method(fl, "append")
    E = ("elem", LD)
    for what, pred in (("the prefix", lambda a: a[0] == "mcall" and a[2] == "startswith" and a[1] == E and a[3][0] == ("param", "prefix")),
                       ("the extension", lambda a: a[0] == "mcall" and a[2] == "endswith" and a[1] == E and has(a[3][0], lambda x: x == ("param", "exts")))):
        p = fl.find_path([fl.g.entry], app, avoid_edge=edges(fl, pred), skip_labels=NORMAL)
        rep.check(p is None, "newest", f"candidates match {what}", m.where(), path_str(p))
    for n in app[:1]:
        h = inner_loop(fl, n)
        rej = edges(fl, lambda a: a[0] == "not" and (a[1][0] == "mcall" and a[1][2] in ("startswith", "endswith") or a[1][0] == "call" and a[1][1] == "os.path.isfile"))
        p = every_round(fl, h, app, rej)
        rep.check(p is None, "newest", "no candidate is skipped", n.where(), path_str(p))
    g = P.func("utils.file_utils:get_iteration_from_ckpt_filename")
    fg = flow(P, g, None)
    rep.graph(fg)
    rr = [(n, t) for n, t in returns(fg)]
    dig = 0
    for n, t in rr:
        for x in alts(t):
            if x == NONE:
                continue
            rep.check(x[0] == "call" and x[1] == "int", "newest", "iterations are compared as numbers", n.where(), show(x)[:80])
            dig += 1
            rep.check(not (h0 := inner_loop(fg, n)) or fg.term(h0, h0.expr)[0] != "slice" and not has(fg.term(h0, h0.expr), lambda y: y[0] == "slice" and y[-1] != ("const", -1)), "newest",
                      "every part of a name is looked at", n.where(), "a part of the name is skipped")
            sp = [y for y in sub(x) if y[0] == "item" and y[1][0] == "call" and y[1][1] == "os.path.splitext"] + [y for y in sub(x) if y[0] == "attr" and y[2] == "stem"]
            rep.check(bool(sp) and all(y[0] == "attr" or y[2] == 0 for y in sp), "newest", "the number is taken from the name without its extension", n.where(), show(x)[:100])
            p = fg.find_path([fg.g.entry], [n], avoid_edge=edges(fg, lambda a: a[0] == "mcall" and a[2] in ("isdigit", "isdecimal")), skip_labels=NORMAL)
            rep.check(p is None, "newest", "only whole numbers in a name are taken", n.where(), path_str(p))
            h = inner_loop(fg, n)
            rep.check(h is not None and has(fg.term(h, h.expr), lambda y: y[0] == "call" and y[1] == "reversed" or y[0] == "slice" and y[-1] == ("const", -1)) or has(x, lambda y: y[0] == "call" and y[1] == "reversed") or has(x, lambda y: y[0] in ("item", "idx") and y[2] in (-1, ("const", -1))) or has(x, lambda y: y[0] == "mcall" and y[2] == "rsplit"),
                      "newest", "the last number of a name is its iteration", n.where(), show(x)[:100])
    rep.check(dig >= 1, "newest", "iterations are parsed", g.where(), "never")
    # names written are names searched: prefix and a numeric last part with a known extension
    exts = ext_default(m)
    for nm, pre in (("_state_path", "state_"), ("_model_ckpt_path", "ckpt_")):
        mm = B.find(nm)
        f2 = flow(P, mm, None, cls=B)
        t = norm(P, retval(f2))
        s = [x for x in sub(t) if x[0] == "fstr"]
        ok = t[0] == "call" and t[1] == "os.path.join" and t[2][0] == A("ckpt_dir") and len(s) == 1
        rep.check(ok, "newest", f"{pre}* files go to the checkpoint directory", mm.where(), show(t)[:80])
        if not ok:
            continue
        parts = s[0][1:]
        first, lastp = parts[0], parts[-1]
        rep.check(first[0] == "const" and first[1] == pre, "newest", f"{pre}* files are named as they are searched for", mm.where(), show(first))
        rep.check(lastp[0] == "const" and lastp[1] in exts, "newest", "saved files have a recognised extension", mm.where(), f"{show(lastp)} not in {exts}")
        itp = [i for i, x in enumerate(parts) if has(x, lambda y: y == ("param", "iteration"))]
        sep = parts[itp[0] - 1][1] if itp and parts[itp[0] - 1][0] == "const" else ""
        rep.check(itp == [len(parts) - 2] and sep.endswith("_"), "newest", "the iteration is the last part of the name", mm.where(), show(s[0]))
        if nm == "_model_ckpt_path":
            rep.check(any(has(x, lambda y: y == ("param", "name")) for x in parts), "newest", "each model has its own file", mm.where(), show(s[0]))


def ext_default(m):
    import ast
    a = m.node.args
    names = [x.arg for x in a.args][len(a.args) - len(a.defaults):]
    for nme, d in zip(names, a.defaults):
        if nme == "exts" and isinstance(d, (ast.List, ast.Tuple)):
            return [e.value for e in d.elts if isinstance(e, ast.Constant)]
    return []


def key(P, rep, m, ks, n):
    """the ordering key starts with the parsed iteration, files without one sort first"""
    import ast
    f = None
    if ks is not None and ks[0] == "lambda":
        rep.check("get_iteration_from_ckpt_filename" in repr(ks), "newest", "ordered by the iteration in the name", n.where(), show(ks)[:80])
        return
    if ks is not None and ks[0] == "func":
        nm = str(ks[1]).split(".")[-1]
        for x in ast.walk(m.node):
            if isinstance(x, ast.FunctionDef) and x.name == nm and x is not m.node:
                f = x
        if f is None and nm == "get_iteration_from_ckpt_filename":
            return
    if f is None:
        try:
            f = P.func(f"{m.module.name}:{str(ks[1]).split('.')[-1]}").node
        except Exception:
            f = None
    if f is None:
        rep.bad("newest", "ordered by the iteration in the name", n.where(), f"ordered by {show(ks) if ks else 'name'}")
        return
    loc = {}
    for x in ast.walk(f):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            loc[x.targets[0].id] = x.value
    isit = lambda e: isinstance(e, ast.Call) and getattr(e.func, "id", getattr(e.func, "attr", "")) == "get_iteration_from_ckpt_filename" or isinstance(e, ast.Name) and e.id in loc and isit(loc[e.id])
    for r in [x for x in ast.walk(f) if isinstance(x, ast.Return)]:
        v = r.value
        while isinstance(v, ast.Name) and v.id in loc:
            v = loc[v.id]
        el = v.elts if isinstance(v, ast.Tuple) else [v]
        i = 0
        # optional leading flag "has an iteration"
        if isinstance(el[0], ast.Compare) and isit(el[0].left) and isinstance(el[0].ops[0], (ast.IsNot, ast.NotEq)):
            i = 1
        num = el[i] if i < len(el) else None
        while isinstance(num, ast.Name) and num.id in loc and not isit(num):
            num = loc[num.id]
        ok = num is not None and (isit(num) or isinstance(num, ast.IfExp) and any(isit(z) for z in (num.body, num.orelse)) or isinstance(num, ast.BoolOp) and isit(num.values[0]))
        if isinstance(num, ast.IfExp) and ok:
            c = num.test
            neg = False
            while isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
                neg, c = not neg, c.operand
            neg ^= isinstance(c, ast.Compare) and isinstance(c.ops[0], (ast.Is, ast.Eq))
            ok = isit(num.orelse if neg else num.body)
        rep.check(ok, "newest", "ordered by the iteration in the name, as a number", n.where(), "the ordering key is not the iteration number")
