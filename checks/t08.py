"""T08: a training-state checkpoint holds everything continuation needs and each part goes back where it came from."""
from sa.flow import alts, flow, has, show
from sa.lib import calls, norm, path_str, retval, returns
from sa.rules import (NORMAL, argval, edges, either, every_round, falsy, inner_loop, method, must_pass, stores_to, truthy, whole)

SELF = ("self",)
A = lambda n: ("attr", SELF, n)
K = lambda t, k: ("key", t, k)
ACC = A("accelerator")
SCALER = ("attr", ACC, "scaler")
NONE = ("const", None)
CTOR_OPAQUE = {"_setup_accelerator", "_setup_cuda_memory_limit", "_setup_logging", "_setup_profiler", "_setup_data", "_init_models", "_prepare_for_training",
               "_maybe_compile", "_vq_runtime_modules", "_validate_v1_vq_compatibility", "_model_ckpt_path", "_state_path", "_canonical_resume_value",
               "_checkpointed_models", "_validate_rank_resume_states", "_data_stream_signature_matches", "_current_optimizer_config", "_scheduler_config"}


def run(P, rep):
    rep.rule("saved", "the training state holds every optimizer, scheduler, scaler, counter and per-process continuation state, and every model has its own file")
    rep.rule("restored", "each saved part is loaded into the object it was taken from, on every path of a resume")
    rep.rule("learning-rate", "learning rates end as they were saved, after optimizers and schedulers have been restored")
    rep.rule("random-state", "every random generator is captured completely, restored unchanged and restored last")
    rep.rule("data-position", "the data cursor, tuning state and quantizer state of the process are saved and loaded back by kind")
    rep.rule("order", "a resume is complete before the first training batch is requested")
    B = P.cls("trainer.base:BaseTrainer")
    saved(P, rep, B)
    ctor(P, rep, B)
    continuation(P, rep, B)
    runs(P, rep, B)


def key(k):
    return k[0] == "const"


def flat(t):
    """dict term -> {key: [alternatives]} with ** of dict terms merged"""
    out = {}
    if t[0] != "dict":
        return out
    for k, v in t[1:]:
        if key(k):
            out.setdefault(k[1], []).extend(alts(v))
        elif k == ("**",):
            for z in alts(v[1] if v[0] == "star" else v):
                for kk, vv in flat(z).items():
                    out.setdefault(kk, []).extend(vv)
    return out


def over(t, src, val):
    """t maps every name of `src` to val(entry)"""
    return t[0] == "comp" and t[1] == "dict" and len(t[3]) == 1 and not t[4] and t[2][0] == "pair" and (
        t[3][0] == ("mcall", src, "items", (), ()) and t[2][1] == ("elemkey", src) and t[2][2] == val(("elemval", src))
        or t[3][0] == src and t[2][1] == ("elem", src) and t[2][2] == val(("idx", src, ("elem", src))))


def sd(x):
    return ("mcall", x, "state_dict", (), ())


def strip(t):
    while t[0] == "call" and t[1] in ("int", "str") and len(t[2]) == 1:
        t = t[2][0]
    return t


def dicts(fl, P):
    out = []
    for n in fl.g.live:
        for e in ([n.expr] if n.expr is not None and n.kind in ("ret", "assign") else []) + (list(n.call.args) if n.kind == "call" and n.call is not None else []):
            try:
                t = norm(P, fl.term(n, e))
            except Exception:
                continue
            for x in walk(t):
                out.append((n, x))
    return out


def built_at(fl, P, t):
    """nodes that construct record t (returned, assigned, or passed on as such)"""
    out = []
    for n in fl.g.live:
        if n.kind in ("ret", "assign") and n.expr is not None and norm(P, fl.term(n, n.expr)) == t:
            out.append(n)
    return out or [n for n, x in dicts(fl, P) if x == t][:1]


def walk(t):
    if isinstance(t, tuple):
        if t and t[0] == "dict":
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def saved(P, rep, B):
    m = B.find("_save_checkpoint_main")
    fl = flow(P, m, lambda g, c, x: g.cls is B and g.name not in CTOR_OPAQUE | {"_unwrap", "_get_checkpoint_writer", "_cleanup_checkpoints"}, cls=B)
    rep.graph(fl)
    ds = [(n, t, flat(t)) for n, t in dicts(fl, P) if {"optimizers", "metadata"} & set(flat(t))]
    if not ds:
        rep.bad("saved", "a training state is written", m.where(), "no training state is built when saving")
        return
    n, t, d = max(ds, key=lambda x: len(x[2]))
    one = lambda k: d.get(k, [("absent",)])
    for k in ("optimizers", "schedulers"):
        v = one(k)
        rep.check(len(v) == 1 and over(v[0], A(k), sd), "saved", f"state of every one of the {k}", n.where(), f"{k}: {show(v[0])[:120]}")
    v = one("optimizer_config")
    rep.check(v == [A("_optimizer_config")], "saved", "configured optimizer layout", n.where(), show(v[0])[:80])
    v = one("scheduler_config")
    rep.check(v == [("mcall", SELF, "_scheduler_config", (), ())], "saved", "scheduler configuration", n.where(), show(v[0])[:80])
    v = one("scaler")
    rep.check(sd(SCALER) in v and set(v) <= {sd(SCALER), NONE}, "saved", "gradient scaler state", n.where(), show(v[0])[:80])
    sc = [x for x in method(fl, "state_dict", recv=lambda r: r == SCALER)]
    none = edges(fl, falsy(lambda x: x == SCALER))
    sub = method(fl, "submit")
    built = built_at(fl, P, t)
    p = fl.find_path([fl.g.entry], built, avoid=sc, avoid_edge=none, skip_labels=NORMAL)
    rep.check(bool(sc) and p is None, "saved", "the scaler is saved whenever there is one", n.where(), "scaler state skipped: " + path_str(p))
    meta = [x for x in one("metadata")]
    md = flat(meta[0])
    for k in ("iteration", "epoch", "rows"):
        want = ("attr", A("state"), k)
        got = [strip(x) for x in md.get(k, [("absent",)])]
        rep.check(got == [want], "saved", f"{k} counter", n.where(), f"{k}: {show(got[0])[:80]}")
    rs = flat(one("resume")[0])
    VERS.clear()
    for k, v in (("format_version", one("format_version")), ("resume version", rs.get("version", []))):
        VERS[k] = v[0][1] if len(v) == 1 and v[0][0] == "const" else None
    rep.check(rs.get("ranks") == [A("_resume_states_for_save")], "saved", "continuation state of every process", n.where(), show((rs.get("ranks") or [("absent",)])[0])[:80])
    rep.check(rs.get("world_size") == [("attr", ACC, "num_processes")], "saved", "process count", n.where(), show((rs.get("world_size") or [("absent",)])[0])[:80])
    # models
    cm = ("mcall", SELF, "_checkpointed_models", (), ())
    us = [x for x in method(fl, "state_dict") if has(fl.recv(x), lambda y: y == ("elemval", cm)) or has(fl.recv(x), lambda y: y[0] == "idx" and y[1] == cm)]
    good = False
    why = "no model weights are saved"
    for x in us:
        r = norm(P, fl.recv(x))
        if r not in (("mcall", SELF, "_unwrap", (("elemval", cm),), ()), ("elemval", cm)):
            why = f"saves {show(r)[:80]}"
            continue
        h = inner_loop(fl, x)
        if h is None:
            good = x.note == "comp"
            continue
        p = every_round(fl, h, us)
        q = must_pass(fl, [fl.g.entry], sub, [h])
        good = whole(fl.term(h, h.expr), lambda y: y == cm) is not None and p is None and q is None
        why = "a model is skipped: " + path_str(p or q)
    rep.check(good, "saved", "weights of every trained model", m.where(), why)
    mf = B.find("_checkpointed_models")
    t = norm(P, retval(flow(P, mf, lambda g, c, x: g.cls is B, cls=B)))
    ok = all(has(x, lambda y: y == A("models")) for x in alts(t))
    rep.check(ok, "saved", "trained models are the configured models", mf.where(), show(t)[:120])
    # what the processes contribute
    m = B.find("_save_checkpoint")
    OP = CTOR_OPAQUE | {"_local_resume_state", "_save_checkpoint_main", "_run_synchronized_operation", "_capture_vq_runtime_collectively", "_validate_committed_checkpoint_set",
                        "_prepare_checkpoint_directory_collectively", "_runtime_generation_collectively", "_validate_current_vq_runtime_collision", "_flush_async_checkpoint_collectively"}
    fl = flow(P, m, lambda g, c, x: g.cls is B and g.name not in OP, cls=B)
    rep.graph(fl)
    main = [x for x in method(fl, "_run_synchronized_operation") if "commit" in show(argval(fl, x, 0, None, NONE))]
    rep.floor("checkpoint commit", len(main), 1)
    st = [(x, v) for x, tgt, v in stores_to(fl, lambda y: y == A("_resume_states_for_save")) if v != NONE]
    for x, v in st:
        v = norm(P, v)
        ok = has(v, lambda y: y[0] == "mcall" and y[2] == "_local_resume_state") or has(v, lambda y: y == A("_resume_states_for_save"))
        rep.check(ok, "saved", "the continuation states are those gathered from all processes", x.where(), show(v)[:120])
    st = [(x, v) for x, v in st if has(norm(P, v), lambda y: y[0] == "mcall" and y[2] == "_local_resume_state")]
    lr = method(fl, "_local_resume_state")
    man = method(fl, "_capture_vq_runtime_collectively")
    for x in lr:
        v = argval(fl, x, None, "vq_runtime", NONE)
        rep.check(has(v, lambda y: y[0] == "mcall" and y[2] == "_capture_vq_runtime_collectively"), "data-position", "the quantizer state written for this save is referenced", x.where(), show(v)[:80])
    p = fl.find_path([fl.g.entry], main, avoid=lr, avoid_edge=save_skip(fl), skip_labels=NORMAL, correlate=True)
    rep.check(bool(lr) and p is None, "saved", "continuation state is captured whenever a state file is written", m.where(), "a state file without fresh continuation state: " + path_str(p))
    p = fl.find_path(lr, main, avoid=[x for x, _ in st], skip_labels=NORMAL)
    rep.check(bool(st) and p is None, "saved", "captured continuation states are handed to the writer", m.where(), path_str(p))
    p = fl.find_path([fl.g.entry], main, avoid=[x for x, _ in st], avoid_edge=save_skip(fl), skip_labels=NORMAL, correlate=True)
    rep.check(p is None, "saved", "state files always carry continuation states", m.where(), path_str(p))


SI = A("state_save_interval")
MOD = ("bin", "Mod", ("attr", A("state"), "iteration"), SI)
DUE = {("param", "force_state"), ("cmp", "is", SI, NONE), ("cmp", "==", MOD, ("const", 0))}


def due(t):
    """t says: a state file is due (forced, no interval, or the interval divides the iteration)"""
    if t[0] == "or":
        return set(t[1:]) == DUE
    if t[0] == "and":
        rest = [x for x in t[1:] if x != ("call", "hasattr", (SELF, ("const", "state")), ())]
        return len(rest) == 1 and due(rest[0])
    if t[0] == "call" and t[1] == "bool" and len(t[2]) == 1:
        return due(t[2][0])
    return False


def save_skip(fl):
    """edges on which no state file is due"""
    mod = edges(fl, lambda a: a == ("cmp", "!=", MOD, ("const", 0)))

    def f(n, s, l):
        if n.kind != "cond" or n.expr is None:
            return False
        t = fl.term(n, n.expr)
        if l == "F" and due(t) or l == "T" and t[0] == "not" and due(t[1]):
            return True
        return mod(n, s, l)
    return f


VERS = {}


def atoms_of(t):
    if t[0] == "cmp":
        yield t
    elif t[0] in ("and", "or", "not"):
        for x in t[1:]:
            yield from atoms_of(x)


def is_state(t):
    return has(t, lambda x: x[0] == "call" and x[1] == "torch.load")


def ctor(P, rep, B):
    m = B.find("__init__")
    fl = flow(P, m, lambda g, c, x: g.cls is B and g.name not in CTOR_OPAQUE, cls=B)
    rep.graph(fl)
    STATES = {norm(P, fl.term(n, n.call)) for n in calls(fl, lambda c: c == ("global", "torch.load"), True)}
    rep.check(bool(STATES), "restored", "the state file is read", m.where(), "no state file is read on start")
    if len(STATES) != 1:
        if STATES:
            rep.bad("restored", "one state file is read", m.where(), f"{len(STATES)} different state files are read")
        return
    S = next(iter(STATES))
    loads = list(calls(fl, lambda c: c == ("global", "torch.load"), True))
    ENDS = [n for n in method(fl, "_prepare_for_training")] or [fl.g.exit]
    SCHED = [n for n, tgt, v in stores_to(fl, lambda y: y == A("schedulers")) if has(v, lambda y: y[0] == "call" and y[1].endswith("build_lr_scheduler"))]
    rep.check(bool(SCHED), "restored", "schedulers are built", m.where(), "no schedulers are built")
    if not SCHED:
        return

    def every(rule, what, nodes, edge=None):
        p = fl.find_path(loads, ENDS, avoid=nodes, avoid_edge=edge, skip_labels=NORMAL)
        rep.check(bool(nodes) and p is None, rule, what, (nodes or loads)[0].where(), "left as constructed: " + path_str(p) if nodes else "never restored")

    # versions written are versions read
    for k, t in (("format_version", K(S, "format_version")), ("resume version", K(K(S, "resume"), "version"))):
        acc = set()
        for n in fl.g.live:
            if n.kind == "cond" and n.expr is not None:
                for a in atoms_of(norm(P, fl.term(n, n.expr))):
                    if a[0] == "cmp" and t in a[2:4]:
                        o = [x for x in a[2:4] if x != t][0]
                        acc |= {o[1]} if o[0] == "const" and a[1] in ("==", "!=") else {x[1] for x in o[1:] if isinstance(x, tuple) and x[0] == "const"} if a[1] in ("in", "not in") else set()
        w = VERS.get(k)
        rep.check(w is not None and w in acc, "restored", f"the {k} written is one that is read", loads[0].where(), f"writes {w}, reads {sorted(acc)}")
    # models
    cm = ("mcall", SELF, "_checkpointed_models", (), ())
    ml = [n for n in method(fl, "load_state_dict") if has(fl.recv(n), lambda x: x == cm)]
    heads = []
    for n in ml:
        r, a = norm(P, fl.recv(n)), norm(P, fl.arg(n, 0, "state_dict"))
        want = ("item", ("call", "utils.training_utils.load_torch_ckpt", (("mcall", SELF, "_model_ckpt_path", (("elemkey", cm), it_of(P, fl)), ()),), ()), 0)
        ok = a[0] == "item" and a[2] == 0 and a[1][0] == "call" and a[1][1].endswith("load_torch_ckpt") and a[1][2] == want[1][2]
        rep.check(r == ("elemval", cm) and ok, "restored", "each model gets the weights of its own file of the same iteration", n.where(), f"{show(r)[:50]} loads {show(a)[:150]}")
        s = argval(fl, n, 1, "strict", ("const", True))
        rep.check(s == ("const", True), "restored", "model weights must match exactly", n.where(), show(s))
        h = inner_loop(fl, n)
        if h is not None and whole(fl.term(h, h.expr), lambda y: y == cm) and every_round(fl, h, ml) is None:
            heads.append(h)
    every("restored", "the weights of every trained model are restored", heads)
    # optimizers
    ol = [n for n in method(fl, "load_state_dict") if has(norm(P, fl.recv(n)), lambda x: x == A("optimizers"))]
    heads = []
    OS = K(S, "optimizers")
    for n in ol:
        r, a = norm(P, fl.recv(n)), norm(P, fl.arg(n, 0, "state_dict"))
        if not is_state(a):
            continue
        ok = (r, a) in [(("idx", A("optimizers"), ("elemkey", OS)), ("elemval", OS)), (("elemval", A("optimizers")), ("idx", OS, ("elemkey", A("optimizers")))),
                        (("idx", A("optimizers"), ("elem", OS)), ("idx", OS, ("elem", OS))), (("idx", A("optimizers"), ("elem", A("optimizers"))), ("idx", OS, ("elem", A("optimizers"))))]
        rep.check(ok, "restored", "each optimizer gets its own saved state", n.where(), f"{show(r)[:60]} loads {show(a)[-70:]}")
        h = inner_loop(fl, n)
        if ok and h is not None and whole(norm(P, fl.term(h, h.expr)), lambda y: y in (OS, A("optimizers"))) and every_round(fl, h, ol) is None:
            heads.append(h)
    every("restored", "every optimizer is restored", heads)
    opt_heads = heads
    # runtime learning rates
    ps = [(n, norm(P, v)) for n, tgt, v in stores_to(fl, lambda y: y == A("_pending_runtime_lrs")) if v != NONE]
    for n, v in ps:
        ok = over(v, A("optimizers"), lambda o: group_lrs(o))
        rep.check(ok, "learning-rate", "the learning rate of every parameter group of every optimizer is taken", n.where(), show(v)[:150])
        p = fl.find_path([fl.g.entry], [n], avoid=opt_heads, skip_labels=NORMAL)
        rep.check(p is None, "learning-rate", "learning rates are taken from the restored optimizers", n.where(), path_str(p))
    every("learning-rate", "learning rates are remembered for after scheduler setup", [n for n, _ in ps])
    pss = [(n, norm(P, v)) for n, tgt, v in stores_to(fl, lambda y: y == A("_pending_scheduler_states")) if v != NONE]
    for n, v in pss:
        rep.check(v == K(S, "schedulers"), "restored", "scheduler states come from the state file", n.where(), show(v)[:100])
    every("restored", "scheduler states are kept for scheduler setup", [n for n, _ in pss])
    for at, nodes in (("_pending_scheduler_states", [n for n, _ in pss]), ("_pending_runtime_lrs", [n for n, _ in ps])):
        clears = [n for n, tgt, v in stores_to(fl, lambda y: y == A(at)) if v == NONE]
        p = fl.find_path(nodes, SCHED, skip_labels=NORMAL) if not nodes else None
        for n in clears:
            p = fl.find_path(nodes, [n], avoid=SCHED, skip_labels=NORMAL) if nodes else None
            rep.check(p is None, "restored", f"{at} survives until schedulers exist", n.where(), path_str(p))
        p = fl.find_path(SCHED, nodes, skip_labels=NORMAL)
        rep.check(p is None, "order", "the state file is read before schedulers are built", SCHED[0].where(), "schedulers are built before the checkpoint is loaded: " + path_str(p))
    for n in SCHED:
        v = [norm(P, x) for y, tgt, x in stores_to(fl, lambda y: y == A("schedulers")) if y is n][0]
        ok = v[0] == "comp" and v[1] == "dict" and not v[4] and v[3] in ((("mcall", A("optimizers"), "items", (), ()),), (A("optimizers"),)) and v[2][0] == "pair"
        b = v[2][2] if ok else NONE
        ok = ok and b[0] == "call" and b[1].endswith("build_lr_scheduler") and v[2][1] in (("elemkey", A("optimizers")), ("elem", A("optimizers"))) and \
            list(b[2][:3]) == [("elemval", A("optimizers")) if v[3][0][0] == "mcall" else ("idx", A("optimizers"), ("elem", A("optimizers"))), A("lr_scheduler_type"), A("iterations")]
        rep.check(ok, "restored", "each optimizer has its own scheduler as configured", n.where(), show(v)[:150])
        if ok:
            kw = dict((k, x) for k, x in b[3] if k)
            last = kw.get("last_it", ("const", -1))
            rep.check(last in (("const", -1), ("un", "USub", ("const", 1))), "restored", "schedulers start from the beginning before their state is loaded", n.where(), show(last))
            rep.check(has(b, lambda y: y == A("lr_scheduler_args")), "restored", "schedulers get the configured arguments", n.where(), show(b)[:120])
    # schedulers
    PS = A("_pending_scheduler_states")
    nopend = edges(fl, falsy(lambda y: y == PS))
    sl = []
    for n in method(fl, "load_state_dict"):
        r = norm(P, fl.recv(n))
        if not has(r, lambda x: x == A("schedulers")):
            continue
        a = norm(P, fl.arg(n, 0, "state_dict"))
        ok = (r, a) in [(("idx", A("schedulers"), ("elemkey", PS)), ("elemval", PS)), (("elemval", A("schedulers")), ("idx", PS, ("elemkey", A("schedulers")))),
                        (("idx", A("schedulers"), ("elem", PS)), ("idx", PS, ("elem", PS))), (("idx", A("schedulers"), ("elem", A("schedulers"))), ("idx", PS, ("elem", A("schedulers"))))]
        rep.check(ok, "restored", "each scheduler gets its own saved state", n.where(), f"{show(r)[:60]} loads {show(a)[:60]}")
        h = inner_loop(fl, n)
        if ok and h is not None and whole(norm(P, fl.term(h, h.expr)), lambda y: y in (PS, A("schedulers"))) and every_round(fl, h, [n]) is None:
            sl.append((n, h))
    p = fl.find_path(SCHED, ENDS, avoid=[h for _, h in sl], avoid_edge=nopend, skip_labels=NORMAL)
    rep.check(bool(sl) and p is None, "restored", "every scheduler is restored", (sl[0][0] if sl else SCHED[0]).where(), path_str(p))
    # learning rates back
    LR = A("_pending_runtime_lrs")
    back = []
    for n, tgt, v, t, c in fl.stores():
        if tgt[0] in ("sub", "key", "idx") and tgt[2] in (("const", "lr"), "lr"):
            g, v = norm(P, tgt[1]), norm(P, fl.storeval(n, v))
            okg = g[0] == "elem" and g[1][0] == "attr" and g[1][2] == "param_groups" and g[1][1] in (("idx", A("optimizers"), ("elemkey", LR)), ("elemval", A("optimizers")),
                                                                                                    ("idx", A("optimizers"), ("elem", LR)), ("idx", A("optimizers"), ("elem", A("optimizers"))))
            okv = v[0] in ("elem", "item", "idx") and has(v, lambda x: x in (("elemval", LR), ("idx", LR, ("elem", LR)), ("idx", LR, ("elemkey", A("optimizers"))), ("idx", LR, ("elem", A("optimizers")))))
            rep.check(okg and okv, "learning-rate", "every group gets back its own learning rate", n.where(), f"{show(g)[:80]} lr := {show(v)[:80]}")
            ls = fl.loops_of(n)
            ok = len(ls) >= 2 and every_round(fl, ls[-1], [n]) is None and every_round(fl, ls[-2], [ls[-1]]) is None
            it = norm(P, fl.term(ls[-1], ls[-1].expr)) if ls else NONE
            itp = whole(it, lambda y: y[0] == "attr" and y[2] == "param_groups")
            rep.check(ok and bool(itp), "learning-rate", "all groups of all optimizers", n.where(), f"loops over {show(it)[:90]}")
            if ok:
                back.append((n, ls[-2]))
    p = fl.find_path(SCHED, ENDS, avoid=[h for _, h in back], avoid_edge=nopend, skip_labels=NORMAL)
    rep.check(bool(back) and p is None, "learning-rate", "learning rates are put back after scheduler setup", SCHED[0].where(), path_str(p) if back else "never")
    for n, h in back:
        p = fl.find_path([h], SCHED + [x for x, _ in sl] + ol, skip_labels=NORMAL)
        rep.check(p is None, "learning-rate", "nothing changes learning rates after they are put back", n.where(), "a scheduler or optimizer is restored afterwards: " + path_str(p))
    # scaler
    scl = [n for n in method(fl, "load_state_dict", recv=lambda r: r == SCALER) if is_state(norm(P, fl.arg(n, 0, "state_dict")))]
    for n in scl:
        a = norm(P, fl.arg(n, 0, "state_dict"))
        rep.check(a == K(S, "scaler"), "restored", "the scaler gets its own saved state", n.where(), show(a)[:80])
    noscale = edges(fl, falsy(lambda y: y == SCALER or y == ("raw",) or norm(P, y) == K(S, "scaler")))
    every("restored", "the gradient scaler is restored", scl, noscale)
    # counters
    for k in ("iteration", "epoch", "rows"):
        ss = [(n, norm(P, v)) for n, tgt, v in stores_to(fl, lambda y: y == ("attr", A("state"), k))]
        ss = [(n, v) for n, v in ss if is_state(v) or has(v, lambda x: x[0] == "call" and x[1] == "utils.misc_utils.get_iteration_from_ckpt_filename")]
        okv = [K(K(S, "metadata"), k)] + ([it_of(P, fl)] if k == "iteration" else [])
        for n, v in ss:
            rep.check(v in okv, "restored", f"{k} counter", n.where(), f"{k} := {show(v)[-60:]}")
        every("restored", f"the {k} counter is restored", [n for n, _ in ss])
    # this process's own continuation state
    pr = [(n, norm(P, v)) for n, tgt, v in stores_to(fl, lambda y: y == A("_pending_resume_state")) if v != NONE]
    for n, v in pr:
        ok = v[0] == "idx" and v[2] == ("attr", ACC, "process_index") and has(v[1], lambda x: x == K(K(S, "resume"), "ranks"))
        rep.check(ok, "data-position", "each process resumes from its own entry", n.where(), show(v)[:140])
    every("data-position", "the continuation state is kept until training starts", [n for n, _ in pr])
    pv = [(n, norm(P, v)) for n, tgt, v in stores_to(fl, lambda y: y == A("_pending_resume_version")) if v != NONE]
    for n, v in pv:
        rep.check(v == K(K(S, "resume"), "version"), "data-position", "its format version is kept", n.where(), show(v)[-60:])
    every("data-position", "its format version is kept", [n for n, _ in pv])
    for at, nodes in (("_pending_resume_state", pr), ("_pending_resume_version", pv)):
        for n, tgt, v in stores_to(fl, lambda y: y == A(at)):
            if v == NONE and nodes:
                p = fl.find_path([x for x, _ in nodes], [n], skip_labels=NORMAL)
                rep.check(p is None, "data-position", "the pending continuation state is not dropped", n.where(), path_str(p))
    # order
    so = [n for n in calls(fl, lambda c: c and c[0] == "global" and c[1].endswith("build_optimizer"), True)]
    if so:
        p = fl.find_path(loads, so, skip_labels=NORMAL)
        q = must_pass(fl, [fl.g.entry], loads, so)
        rep.check(p is None and q is None, "order", "optimizers exist before the state file is loaded and are not rebuilt after", so[0].where(), path_str(p or q))
    oc = [n for n, tgt, v in stores_to(fl, lambda y: y == A("_optimizer_config"))]
    for n in oc:
        q = must_pass(fl, [fl.g.entry], [n], so)
        p = fl.find_path(loads + SCHED, [n], skip_labels=NORMAL)
        rep.check(p is None and q is None, "learning-rate", "configured learning rates are recorded before they change", n.where(), path_str(p or q))
    im = method(fl, "_init_models")
    p = fl.find_path(loads, im, skip_labels=NORMAL)
    rep.check(p is None and bool(im), "order", "models are not rebuilt after loading", (im or loads)[0].where(), path_str(p))
    ini = [n for n, tgt, v in stores_to(fl, lambda y: y == A("state"))]
    p = fl.find_path(loads, ini, skip_labels=NORMAL)
    rep.check(p is None, "restored", "counters are not reset after loading", loads[0].where(), path_str(p))


def group_lrs(o):
    pg = ("attr", o, "param_groups")
    return _G(pg)


class _G(tuple):
    """matches a list of every group's lr, however indexed"""
    def __new__(cls, pg):
        return tuple.__new__(cls, (pg,))

    def __eq__(self, t):
        pg = self[0]
        e = ("elem", pg)
        return isinstance(t, tuple) and len(t) == 5 and t[0] == "comp" and t[1] in ("list", "gen", "tuple") and t[3] == (pg,) and not t[4] and \
            t[2] in (("key", e, "lr"), ("idx", e, ("const", "lr")), ("item", e, "lr"))

    def __hash__(self):
        return 0


def it_of(P, fl):
    """the iteration parsed from the state file name"""
    for n in calls(fl, lambda c: c and c[0] == "global" and c[1].endswith("get_iteration_from_ckpt_filename"), True):
        return norm(P, fl.term(n, n.call))
    return NONE


# -- per-process continuation state -----------------------------------------------------------
RS, RP = A("_resume_stream"), A("_resume_sampler")


def continuation(P, rep, B):
    m = B.find("_local_resume_state")
    fl = flow(P, m, lambda g, c, x: g.cls is B and g.name not in CTOR_OPAQUE | {"_global_resume_projection"}, cls=B)
    rep.graph(fl)
    rets = [(n, norm(P, t)) for n, t in returns(fl)]
    sup = [(n, t, flat(t)) for n, t in rets if ("const", True) in flat(t).get("supported", [])]
    uns = [(n, t, flat(t)) for n, t in rets if ("const", True) not in flat(t).get("supported", [])]
    rep.check(len(sup) == 1, "saved", "one supported continuation state", m.where(), f"{len(sup)} forms")
    if not sup:
        return
    rn, t, d = sup[0]
    REASON = is_reason
    for n, t2, d2 in uns:
        rep.check(d2.get("supported") == [("const", False)], "saved", "unsupported runs say so", n.where(), show((d2.get("supported") or [("absent",)])[0]))
        for k in ("slot", "rank"):
            rep.check(d2.get(k) == [("attr", ACC, "process_index")], "data-position", f"{k} is this process", n.where(), show((d2.get(k) or [("absent",)])[0]))
        p = fl.find_path([fl.g.entry], [n], avoid_edge=edges(fl, truthy(REASON)), skip_labels=NORMAL)
        rep.check(p is None, "saved", "only runs that cannot resume exactly are saved without a position", n.where(), path_str(p))
    p = fl.find_path([fl.g.entry], [rn], avoid_edge=edges(fl, falsy(REASON)), skip_labels=NORMAL)
    rep.check(p is None, "saved", "exact continuation is claimed only when possible", rn.where(), path_str(p))
    pi = ("attr", ACC, "process_index")
    for k in ("slot", "rank"):
        rep.check(d.get(k) == [pi], "data-position", f"{k} is this process", rn.where(), show((d.get(k) or [("absent",)])[0]))
    rep.check(d.get("data_stream_signature") == [A("_data_stream_signature")], "saved", "data signature", rn.where(), show((d.get("data_stream_signature") or [("absent",)])[0])[:80])
    want = {"stream": sd(RS), "sampler": sd(RP)}
    for k, v in want.items():
        got = [x for x in d.get(k, [("absent",)])]
        rep.check(got == [v], "data-position", f"{k} cursor is saved", rn.where(), f"{k}: {show(got[0])[:80]}")
    stream = [n for n in method(fl, "state_dict", recv=lambda r: r == RS)]
    samp = [n for n in method(fl, "state_dict", recv=lambda r: r == RP)]
    RSP = lambda y: y == RS or y[0] == "call" and y[1] == "getattr" and y[2][:2] == (SELF, ("const", "_resume_stream"))
    ns = edges(fl, falsy(RSP))
    ys = edges(fl, truthy(RSP))
    p = fl.find_path([fl.g.entry], [rn], avoid=stream, avoid_edge=ns, skip_labels=NORMAL)
    rep.check(bool(stream) and p is None, "data-position", "a streaming run always saves its stream cursor", rn.where(), path_str(p))
    p = fl.find_path([fl.g.entry], [rn], avoid=samp, avoid_edge=ys, skip_labels=NORMAL)
    rep.check(bool(samp) and p is None, "data-position", "a map-style run always saves its sampler cursor", rn.where(), path_str(p))
    sl = [x for x in d.get("slice", [("absent",)])]
    oks = len(sl) == 1 and sl[0][0] == "seq" and len(sl[0]) in (3, 4) and [x[2] if x[0] == "attr" else None for x in sl[0][-2:]] == ["slice_start", "slice_stop"]
    rep.check(oks, "data-position", "the process's slice is saved", rn.where(), show(sl[0])[:100])
    kinds = {}
    for z in walk(t):
        f = flat(z)
        for k in ("stream", "sampler"):
            if k in dict((kk[1], 1) for kk, _ in z[1:] if key(kk)) and any(kk == ("const", "cursor_kind") for kk, _ in z[1:]):
                kinds[k] = [v for kk, v in z[1:] if kk == ("const", "cursor_kind")][0]
    vals = set(d.get("cursor_kind", []))
    rep.check(len(vals) == 2 and all(x[0] == "const" for x in vals), "data-position", "stream and sampler positions are told apart", rn.where(), ", ".join(show(x) for x in vals))
    vq = d.get("vq_runtime", [("absent",)])
    rep.check(("param", "vq_runtime") in vq and set(vq) <= {("param", "vq_runtime"), ("absent",)}, "data-position", "quantizer runtime state is referenced", rn.where(), show(vq[0]))
    tn = d.get("pipeline_tuning", [("absent",)])
    rep.check(any(has(x, lambda y: y[0] in ("vcall", "mcall", "attr") and "pipeline_tuning_state_dict" in show(y)) for x in tn), "data-position", "pipeline tuning state is saved", rn.where(), show(tn[0])[:80])
    co = d.get("stream_coordination", [("absent",)])
    rep.check(any(x == ("mcall", RS, "coordination_state_dict", (), ()) for x in co), "data-position", "stream coordination state is saved", rn.where(), show(co[0])[:80])

    TM = lambda y: y[0] == "attr" and y[2] in ("pipeline_tuning_state_dict", "coordination_state_dict") or y[0] == "mcall" and y[2] in ("pipeline_tuning_state_dict", "coordination_state_dict") or y[0] in ("call", "vcall") and "pipeline_tuning_state_dict" in show(y) \
        or y[0] == "call" and y[1] in ("getattr", "hasattr") and y[2][1:2] in ((("const", "pipeline_tuning_state_dict"),), (("const", "coordination_state_dict"),))
    for k, pred in (("vq_runtime", lambda y: y == ("param", "vq_runtime")), ("pipeline_tuning", TM), ("stream_coordination", TM)):
        puts = [n for n, tgt, v, tt, c in fl.stores() if tgt[0] in ("sub", "key", "idx") and tgt[2] in (k, ("const", k))]
        if not puts:
            continue
        for e in [rn] + ([x for x, _, _ in uns] if k == "vq_runtime" else []):
            av = either(edges(fl, falsy(pred)), edges(fl, lambda a: a[0] == "not" and TM(a[1])))
            if k == "stream_coordination":
                av = either(av, ns)
            p = fl.find_path([fl.g.entry], [e], avoid=puts, avoid_edge=av, skip_labels=NORMAL)
            rep.check(p is None, "data-position", f"{k} is saved whenever there is one", e.where(), path_str(p))

    # restoring
    m2 = B.find("_restore_continuation_state")
    fr = flow(P, m2, lambda g, c, x: g.cls is B and g.name not in CTOR_OPAQUE | {"_restore_vq_runtime_collectively"}, cls=B)
    rep.graph(fr)
    S = A("_pending_resume_state")
    nopend = edges(fr, falsy(lambda y: y == S or y[0] == "call" and y[1] == "getattr" and y[2][:2] == (SELF, ("const", "_pending_resume_state"))))
    ENT = [fr.g.entry]
    EX = [fr.g.exit]
    ls = method(fr, "load_state_dict", recv=lambda r: r == RS)
    lp = method(fr, "load_state_dict", recv=lambda r: r == RP)
    for n, k in [(n, "stream") for n in ls] + [(n, "sampler") for n in lp]:
        a = norm(P, fr.arg(n, 0, None))
        rep.check(a == K(S, k), "data-position", f"the {k} gets the saved {k} cursor", n.where(), show(a)[:80])
        # only for the kind that saved it
        c = kinds.get(k)
        if c is not None:
            ke = edges(fr, lambda a: kind_is(P, S, a, c))
            p = fr.find_path(ENT, [n], avoid_edge=ke, skip_labels=NORMAL)
            rep.check(p is None, "data-position", f"{k} cursors are recognised by the kind they are saved under", n.where(), path_str(p))
    p = fr.find_path(ENT, EX, avoid=ls + lp, avoid_edge=nopend, skip_labels=NORMAL)
    rep.check(bool(ls) and bool(lp) and p is None, "data-position", "a resume always restores a data cursor", m2.where(), path_str(p))
    # slice and epoch checks of the stream
    se = [(n, norm(P, v)) for n, tgt, v in stores_to(fr, lambda y: y == ("attr", A("state"), "epoch"))]
    for n, v in se:
        rep.check(v in (("attr", RS, "committed_epoch"), ("attr", RP, "epoch")), "restored", "the epoch counter follows the restored cursor", n.where(), show(v)[:80])
        p = fr.find_path(ENT, [n], avoid=ls + lp, skip_labels=NORMAL)
        rep.check(p is None, "restored", "the epoch is taken after the cursor is restored", n.where(), path_str(p))
    if True:
        same = edges(fr, lambda a: a[0] == "cmp" and a[1] == "==" and {norm(P, a[2]), norm(P, a[3])} in ({("attr", RP, "epoch"), ("attr", A("state"), "epoch")},
                                                                                                    {("attr", RS, "committed_epoch"), ("attr", A("state"), "epoch")}))
        p = fr.find_path(ls + lp, EX, avoid=[n for n, _ in se], avoid_edge=same, skip_labels=NORMAL)
        rep.check(p is None, "restored", "counter and restored cursor agree on the epoch", m2.where(), path_str(p))
    for n, who in [(n, RS) for n in ls] + [(n, RP) for n in lp]:
        p = fr.find_path(ENT, [n], avoid_edge=edges(fr, falsy(lambda y: y == who)), skip_labels=NORMAL)
        rep.check(p is not None, "data-position", "the cursor of the configured data source is restored", n.where(), "only reachable without the data source it belongs to")
    slc = edges(fr, lambda a: a[0] == "cmp" and a[1] == "==" and has(norm(P, a), lambda y: y == K(S, "slice")) and "slice_start" in show(a) and "slice_stop" in show(a))
    p = fr.find_path(ls, EX, avoid_edge=slc, skip_labels=NORMAL)
    rep.check(p is None, "data-position", "a changed slice is refused", (ls[0].where() if ls else m2.where()), path_str(p))
    # quantizer
    vq = method(fr, "_restore_vq_runtime_collectively")
    for n in vq:
        a = norm(P, fr.arg(n, 0, None))
        rep.check(a == K(S, "vq_runtime"), "data-position", "the quantizer state referenced by the checkpoint is restored", n.where(), show(a)[:80])
    notv2 = edges(fr, lambda a: a[0] == "cmp" and a[1] == "!=" and has(a, lambda y: y == ("const", 2)) and "_pending_resume_version" in show(a))
    p = fr.find_path(ENT, EX, avoid=vq, avoid_edge=lambda a, b=None, c=None: False if False else None, skip_labels=NORMAL) if False else \
        fr.find_path(ENT, EX, avoid=vq, avoid_edge=either(nopend, notv2), skip_labels=NORMAL)
    rep.check(bool(vq) and p is None, "data-position", "quantizer state is restored for every current-format checkpoint", m2.where(), path_str(p))
    # tuning
    tu = [n for n in calls(fr, None, True) if n.call.args and norm(P, fr.term(n, n.call.args[0])) == K(S, "pipeline_tuning") and
          "restore_pipeline_tuning_state_dict" in show(fr.term(n, n.call.func))]
    notune = edges(fr, falsy(lambda y: norm(P, y) == K(S, "pipeline_tuning") or "restore_pipeline_tuning_state_dict" in show(y)))
    p = fr.find_path(ENT, EX, avoid=tu, avoid_edge=either(nopend, notune), skip_labels=NORMAL)
    rep.check(bool(tu) and p is None, "data-position", "pipeline tuning state is restored", m2.where(), path_str(p))
    # random state
    R = K(S, "rng")
    cap = flat((d.get("rng") or [NONE])[0])
    rng(P, rep, fl, fr, cap, R, rn, nopend, m2, [*ls, *lp, *vq, *tu], B)
    # dropped only after use
    for n, tgt, v in stores_to(fr, lambda y: y == S):
        rep.check(v == NONE, "data-position", "the pending state is only cleared", n.where(), show(v)[:60])
        q = fr.find_path(ENT, [n], avoid=ls + lp, skip_labels=NORMAL)
        rep.check(q is None, "data-position", "the pending state is cleared only after use", n.where(), path_str(q))


def is_reason(y):
    return y == A("_exact_resume_reason") or y[0] == "call" and y[1] == "getattr" and y[2][:2] == (SELF, ("const", "_exact_resume_reason"))


def kind_is(P, S, a, c):
    if a[0] != "cmp":
        return False
    k = K(S, "cursor_kind")
    x, y = norm(P, a[2]), norm(P, a[3])
    if a[1] == "==":
        return {x, y} == {k, c}
    if a[1] == "in":
        return x == k and y[0] in ("seq", "set", "tuple", "list") and c in y[1:]
    return False


def decode(P, t, base):
    """strip storage encodings: (kind, field) of a value read back from `base`"""
    while True:
        if t[0] == "mcall" and t[2] in ("copy", "clone", "numpy", "cpu", "contiguous"):
            t = t[1]
        elif t[0] == "call" and t[1] in ("numpy.frombuffer", "torch.frombuffer", "bytearray", "bytes", "torch.tensor", "numpy.array", "torch.as_tensor", "numpy.asarray") and t[2]:
            t = t[2][0]
        else:
            return t


def rng(P, rep, fl, fr, cap, R, rn, nopend, m2, before, B):
    ENT, EX = [fr.g.entry], [fr.g.exit]
    GEN = [("python", "random.getstate", "random.setstate"), ("numpy", "numpy.random.get_state", "numpy.random.set_state"),
           ("torch_cpu", "torch.get_rng_state", "torch.set_rng_state"), ("torch_cuda", "torch.cuda.get_rng_state", "torch.cuda.set_rng_state")]
    gone = []
    for k, get, put in GEN:
        vs = [x for x in cap.get(k, [("absent",)])]
        src = [x for x in vs if x != NONE]
        has_get = [n for n in calls(fl, lambda c: c == ("global", get), True)]
        sets = [n for n in calls(fr, lambda c: c == ("global", put), True)]
        rep.check(bool(has_get), "random-state", f"{k} generator is captured", rn.where(), "not captured")
        rep.check(bool(sets), "random-state", f"{k} generator is restored", m2.where(), "not restored")
        if not has_get or not sets or not src:
            if not src:
                rep.bad("random-state", f"{k} state is saved", rn.where(), "captured but not saved")
            continue
        if k == "numpy":
            words(P, rep, fl, fr, src[0], sets, R, rn, get)
        else:
            G = src[0]
            okc = enc(G, get)
            rep.check(okc, "random-state", f"{k}: the whole state is saved", rn.where(), show(G)[:120])
            for n in sets:
                for x in alts(norm(P, fr.arg(n, 0, None))):
                    rep.check(decode(P, x, R) == K(R, k), "random-state", f"{k}: the saved state is put back", n.where(), show(x)[:120])
                    f = [y for y in sub(x) if y[0] == "call" and y[1] in ("torch.frombuffer", "torch.tensor", "torch.as_tensor", "numpy.frombuffer")]
                    if any(has(fl.recv(c), lambda y: y[0] == "call" and y[1] == get) for c in method(fl, "tolist", "tobytes", "numpy")):
                        dec = [c for c in calls(fr, lambda c: c and c[0] == "global" and c[1] in ("torch.frombuffer", "torch.tensor", "torch.as_tensor", "numpy.frombuffer"), True)
                               if decode(P, norm(P, fr.term(c, c.call)), R) == K(R, k)]
                        ten = edges(fr, lambda a: a[0] == "call" and a[1] == "isinstance" and norm(P, a[2][0]) == K(R, k) and "Tensor" in show(a[2][1]))
                        p = fr.find_path(ENT, [n], avoid=dec, avoid_edge=ten, skip_labels=NORMAL)
                        rep.check(p is None, "random-state", f"{k}: stored bytes are decoded into a tensor", n.where(), path_str(p))
                    for y in f:
                        dtype = dict(y[3]).get("dtype")
                        rep.check(dtype is not None and "uint8" in show(dtype), "random-state", f"{k}: decoded as bytes", n.where(), show(y)[:80])
        if k == "torch_cuda":
            dev = ("attr", ACC, "device")
            for n in has_get:
                rep.check(argval(fl, n, 0, "device", NONE) == dev, "random-state", "the GPU state of this process's device is captured", n.where(), show(argval(fl, n, 0, "device", NONE)))
            for n in sets:
                rep.check(argval(fr, n, 1, "device", NONE) == dev, "random-state", "the GPU state goes to this process's device", n.where(), show(argval(fr, n, 1, "device", NONE)))
            cpu = lambda f: edges(f, lambda a: a == A("use_cpu") or a[0] == "cmp" and a[1] == "!=" and has(a, lambda y: y == ("const", "cuda")))
            p = fl.find_path([fl.g.entry], [rn], avoid=has_get, avoid_edge=either(cpu(fl), edges(fl, truthy(is_reason))), skip_labels=NORMAL)
            rep.check(p is None, "random-state", "GPU runs always capture the GPU generator", rn.where(), path_str(p))
            gpu = edges(fr, lambda a: a[0] == "cmp" and a[1] == "==" and has(a, lambda y: y == ("const", "cuda")))
            p = fr.find_path(ENT, sets, avoid_edge=gpu, skip_labels=NORMAL)
            rep.check(p is None, "random-state", "the GPU state is restored on GPU runs", sets[0].where(), path_str(p))
            none = edges(fr, falsy(lambda y: norm(P, y) == K(R, k)))
            p = fr.find_path(ENT, EX, avoid=sets, avoid_edge=either(nopend, none), skip_labels=NORMAL)
            rep.check(p is None, "random-state", "a saved GPU state is always restored", m2.where(), path_str(p))
        else:
            p = fr.find_path(ENT, EX, avoid=sets, avoid_edge=nopend, skip_labels=NORMAL)
            rep.check(p is None, "random-state", f"{k} is restored on every resume", m2.where(), path_str(p))
        for n in sets:
            p = fr.find_path([n], before, skip_labels=NORMAL)
            rep.check(p is None, "random-state", f"{k} is restored after everything else", n.where(), "later restore steps may draw random numbers: " + path_str(p))


def sub(t):
    yield t
    for x in t:
        if isinstance(x, tuple) and x:
            yield from sub(x)


def enc(t, get):
    """t is a complete encoding of get()"""
    while True:
        if t[0] == "call" and t[1] == get:
            return True
        if t[0] == "call" and t[1] in ("bytes", "bytearray", "list", "tuple") and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "mcall" and t[2] in ("tolist", "cpu", "clone", "numpy", "tobytes", "contiguous"):
            t = t[1]
        else:
            return False


def words(P, rep, fl, fr, G, sets, R, rn, get):
    """numpy's five-part state"""
    rec = flat(G)
    gt = lambda x: x[0] == "item" and x[1][0] == "call" and x[1][1] == get
    where_of = {}
    for f, vs in rec.items():
        for v in vs:
            its = {x[2] for x in sub(v) if gt(x)}
            if len(its) == 1:
                where_of[f] = next(iter(its))
            cast = [x for x in sub(v) if x[0] == "mcall" and x[2] == "astype"]
            for c in cast:
                dt = c[3][0] if c[3] else dict(c[4]).get("dtype", NONE)
                rep.check(dt in (("const", "<u4"), ("attr", ("global", "numpy"), "uint32"), ("global", "numpy.uint32")), "random-state", "numpy key words keep 32 bits, little-endian", rn.where(), show(dt))
    if G[0] == "call" and enc(G, get):
        where_of = None
    else:
        rep.check(sorted(set(where_of.values())) == [0, 1, 2, 3, 4], "random-state", "all five parts of the numpy state are saved", rn.where(), str(where_of))
    for n in sets:
        for a in alts(norm(P, fr.arg(n, 0, None))):
            if where_of is None:
                rep.check(decode(P, a, R) == K(R, "numpy"), "random-state", "numpy state is put back", n.where(), show(a)[:80])
                continue
            el = a[2:] if a[0] == "seq" and len(a) == 7 else a[1:] if a[0] == "seq" else ()
            rep.check(len(el) == 5, "random-state", "all five parts of the numpy state are put back", n.where(), show(a)[:120])
            for i, e in enumerate(el):
                for z in alts(e):
                    b = decode(P, z, R)
                    if i == 1 and b[0] == "key" and not (b[2] in where_of and b != K(K(R, "numpy"), "state")):
                        old = [c for c in fr.g.live if c.kind == "call" and c.call is not None and norm(P, fr.term(c, c.call)) == z]
                        ab = edges(fr, lambda a: a[0] == "cmp" and a[1] == "not in" and norm(P, a[3]) == K(R, "numpy") and a[2][0] == "const" and where_of.get(a[2][1]) == 1)
                        p = fr.find_path([fr.g.entry], old, avoid_edge=ab, skip_labels=NORMAL) if old else None
                        rep.check(p is None, "random-state", "the old numpy form is used only for old files", n.where(), path_str(p))
                    legacy = b == K(K(R, "numpy"), "state") and i == 1
                    ok = b[0] == "key" and b[1] == K(R, "numpy") and where_of.get(b[2]) == i
                    rep.check(ok or legacy, "random-state", f"part {i} of the numpy state is put back in its place", n.where(), show(z)[:100])
                    for y in sub(z):
                        if y[0] == "call" and y[1] == "numpy.frombuffer":
                            dt = dict(y[3]).get("dtype", y[2][1] if len(y[2]) > 1 else NONE)
                            rep.check(dt in (("const", "<u4"), ("global", "numpy.uint32")), "random-state", "numpy key words are read as 32-bit little-endian", n.where(), show(dt))


def runs(P, rep, B):
    m = B.find("run")
    fl = flow(P, m, lambda g, c, x: False, cls=B)
    rep.graph(fl)
    rs = method(fl, "_restore_continuation_state")
    its = [n for n in calls(fl, None, True) if n.call.args and norm(P, fl.term(n, n.call.args[0])) == A("train_loader")]
    fb = method(fl, "_fetch_batch")
    rep.floor("training iterator", len(its) + len(fb), 2)
    p = must_pass(fl, [fl.g.entry], its + fb, rs)
    rep.check(bool(rs) and p is None, "order", "the continuation state is restored before the data iterator starts", m.where(), "batches are requested before the resume is complete: " + path_str(p))
    p = fl.find_path(its + fb, rs, skip_labels=NORMAL)
    rep.check(p is None, "order", "the continuation state is restored once, before training", m.where(), path_str(p))
    conds = [a for n in fl.g.live if n.kind == "cond" for a in [fl.term(n, n.expr)] if a[0] == "cmp" and has(a, lambda y: y == A("iterations"))]
    ok = any(a == ("cmp", "<", ("attr", A("state"), "iteration"), A("iterations")) or a == ("cmp", ">", A("iterations"), ("attr", A("state"), "iteration")) for a in conds)
    rep.check(ok, "order", "training runs from the restored iteration to the configured one", m.where(), "; ".join(show(a) for a in conds))
    for n, tgt, v in stores_to(fl, lambda y: y[1] == A("state") and y[2] in ("iteration", "rows", "epoch")):
        rep.check(has(norm(P, v), lambda y: y == tgt), "restored", f"{tgt[2]} continues from its restored value", n.where(), f"{tgt[2]} := {show(v)[:60]}")
