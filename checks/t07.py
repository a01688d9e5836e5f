"""T07: no checkpoint or validation ever observes a step whose finite check has not been read; every update is checked."""
from sa.flow import alts, contains, flow, has, show
from sa.lib import calls, norm, path_str, retval
from sa.project import AnchorError
from sa.rules import NORMAL, argval, edges, either, ends, falsy, mentions, method, must_pass, stores_to, truthy
from checks.t06 import policy, quiet_edge, const_true

SELF = ("self",)


def covers(fl, dst, arg, cond_nodes):
    """the drain argument is true whenever control goes on to dst"""
    return None


def run(P, rep):
    rep.rule("drain-before-observer", "on every path from a training step to a checkpoint or a validation pass all queued finite checks are read first")
    rep.rule("drain-judges", "reading a queued check waits for its copy, raises on a failure and marks the run divergent; it reads all, or all but the newest")
    rep.rule("slots", "a queued check's buffer is never reused while it is unread")
    rep.rule("checked-before-update", "every optimizer update is preceded by a check of loss, metrics and gradient norm")
    rep.rule("check-complete", "the check combines the loss and all metric values over all ranks and fails on any non-finite value or structural error")
    c = P.cls("trainer.base:BaseTrainer")
    barrier(P, rep, c)
    drain(P, rep, c)
    enqueue(P, rep, c)
    update(P, rep, c)
    judge(P, rep, c)


def barrier(P, rep, c):
    for mname in ("run", "profile"):
        m = c.find(mname)
        if m is None:
            continue
        fl = flow(P, m, policy, cls=c)
        rep.graph(fl)
        stp = method(fl, "_run_train_step")
        drains = method(fl, "_drain_pending_step_validity")
        if mname == "profile":
            p = must_pass(fl, stp, stp, drains)
            rep.check(p is None, "drain-before-observer", "profiling loop reads its checks", m.where(), path_str(p))
            continue
        obs = method(fl, "_save_checkpoint") + method(fl, "_validate")
        rep.floor("checkpoint/validation sites", len(obs), 3)
        full = [d for d in drains if const_true(argval(fl, d, 0, "include_current", ("const", False)))]
        part = [(d, argval(fl, d, 0, "include_current", ("const", False))) for d in drains if d not in full]
        seen = {}
        for o in obs:
            # partial drains count on the paths where their argument is implied by a test passed on the way
            good = set()
            for d, a in part:
                disj = set(a[1:]) if a[0] == "or" else {a}
                flat = set(disj)
                for x in list(disj):
                    if x[0] == "or":
                        flat |= set(x[1:])
                for g in fl.g.live:
                    if g.kind != "cond" or g.expr is None:
                        continue
                    for l in ("T", "F"):
                        if any(at in flat or at in disj for at, _ in fl.edge_atoms(g, l)):
                            good.add((g.id, l))
            # paths: step -> observer with no full drain; through a partial drain only if afterwards some implying edge is passed
            name = fl.callee(o)[1]
            k = seen[name] = seen.get(name, 0) + 1
            label = f"{name} site {k}"
            p = fl.find_path(stp, [o], avoid=full + [d for d, _ in part], avoid_edge=quiet_edge(stp), skip_labels=())
            exc = None
            rep.check(p is None, "drain-before-observer", f"{label}: checks read on the way from a step", o.where(),
                      "reached without reading the pending finite checks: " + path_str(p))
            pd = [d for d, _ in part]
            if pd:
                # reachable from a partial drain without another step, without a full drain and without an implying test
                p = fl.find_path(pd, [o], avoid=full + stp, avoid_edge=either(lambda n, s, l: (n.id, l) in good, quiet_edge(stp)),
                                 skip_labels=(), correlate=False)
                rep.check(p is None, "drain-before-observer", f"{label}: the newest check is read too", o.where(),
                          "the newest step's check may still be unread: " + path_str(p))


def drain(P, rep, c):
    m = c.find("_drain_pending_step_validity")
    fl = flow(P, m, lambda f, call, x: f.module.name == "trainer.base", cls=c)
    rep.graph(fl)
    isitem = lambda t: has(t, lambda x: x[0] == "mcall" and x[2] == "item")
    bad = edges(fl, falsy(isitem))
    good = edges(fl, truthy(isitem))
    heads = [n for n in fl.g.live if n.kind in ("for", "while") or n.kind == "cond" and False]
    judged = [n for n in fl.g.live if n.kind == "cond" and n.expr is not None and isitem(fl.term(n, n.expr))]
    if not judged:
        raise AnchorError("_drain_pending_step_validity: reading of a check")
    div = [n for n, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_known_divergent")) if const_true(v)]
    for g in judged:
        t = fl.term(g, g.expr)
        lab = "T" if t[0] == "not" or (t[0] == "cmp" and t[1] in ("is", "==") and ("const", False) in t) else "F"
        p = fl.find_path([g], [fl.g.exit], src_labels=(lab,), skip_labels=NORMAL, correlate=False)
        rep.check(p is None, "drain-judges", "a failed check raises", g.where(), "a non-finite result is ignored: " + path_str(p))
        p = fl.find_path([g], [fl.g.raise_exit], src_labels=(lab,), avoid=div, avoid_edge=quiet_edge([]), skip_labels=(), correlate=False)
        rep.check(bool(div) and p is None, "drain-judges", "a failed check marks the run divergent", g.where(), path_str(p))
    # popped -> judged; and synchronised when the slot has an event
    pops = [n for n in method(fl, "pop", "popleft") if has(fl.recv(n), lambda x: x == ("attr", SELF, "_validity_checks_in_flight"))]
    rep.floor("dequeue of finite checks", len(pops), 1)
    for n in pops:
        idx = fl.arg(n, 0)
        name = fl.callee(n)[1]
        rep.check(name == "popleft" or idx == ("const", 0), "drain-judges", "oldest check is read first", n.where(), f"pops index {show(idx) if idx else 'last'}")
        p = fl.find_path([n], [fl.g.exit] + pops, avoid=judged, skip_labels=NORMAL)
        rep.check(p is None, "drain-judges", "every dequeued check is judged", n.where(), "a check is dropped unread: " + path_str(p))
        sync = method(fl, "synchronize")
        noev = edges(fl, falsy(lambda t: True and has(t, lambda x: x == ("attr", SELF, "_validity_check_slots"))))
        p = fl.find_path([n], judged, avoid=sync, avoid_edge=noev, skip_labels=NORMAL)
        rep.check(bool(sync) and p is None, "drain-judges", "the device copy is awaited before the check is read", n.where(), path_str(p))
    # how many are read: the iteration count's term
    inflight = ("attr", SELF, "_validity_checks_in_flight")
    loops = [h for h in fl.g.live if h.kind == "for"]
    ok = False
    detail = "the number of checks read was not recognised"
    from sa.flow import alts as A
    for h in loops:
        it = fl.term(h, h.expr)
        if it[0] == "call" and it[1] == "range" and it[2]:
            stop = it[2][-1]
            L = ("call", "len", (inflight,), ())
            al = set(A(stop)) if stop[0] == "phi" else ({stop[2], stop[3]} if stop[0] in ("ifexp", "cond") else {stop})
            subs = [x for x in al]
            full = any(x == L for x in subs)
            less = [x for x in subs if x != L]
            okless = all(x[0] == "call" and x[1] == "max" and ("const", 0) in x[2] and any(y[0] == "bin" and y[1] == "Sub" and y[2] == L and y[3] == ("const", 1) for y in x[2]) for x in less)
            ok = full and okless and len(less) >= 1
            detail = f"reads {show(stop)[:120]}"
    if not loops:
        # while loop: leaves only when at most one (or none, if include_current) remains
        ok = True
        rep.assumptions.append("drain loop bound not a range(): accepted by the judged/dequeue rules only")
    rep.check(ok, "drain-judges", "all checks, or all but the newest, are read", m.where(), detail)
    # include_current selects the full count
    sel = [n for n in fl.g.live if n.kind == "cond" and n.expr is not None and has(fl.term(n, n.expr), lambda x: x == ("param", "include_current"))]
    t = retval(fl)
    L = ("call", "len", (inflight,), ())
    for g in sel:
        tt = fl.term(g, g.expr)
        lab = "F" if tt[0] == "not" else "T"
        # along the true edge the loop bound must be the full length
        for h in loops:
            defs = [n for n in fl.g.live if any(k[1] == "n" for k, _ in n.defs)]
        nf = [n for n in fl.g.live if n.kind in ("assign", "def") or n.defs]
        pth = None
        for n in fl.g.live:
            for k, v in n.defs:
                from sa.flow import const_value
                try:
                    vt = fl._val(n, v, (), set())
                except Exception:
                    continue
                if vt == L or (vt[0] == "call" and vt[1] == "max" and contains(vt, L)):
                    want = vt == L
                    other = "F" if lab == "T" else "T"
                    wrong = fl.find_path([g], [n], src_labels=(other if want else lab,), skip_labels=NORMAL, correlate=False)
                    right = fl.find_path([g], [n], src_labels=(lab if want else other,), skip_labels=NORMAL, correlate=False)
                    if right is None and wrong is None:
                        continue
                    rep.check(right is not None and wrong is None, "drain-judges", f"{'all' if want else 'all but the newest'} are read when the newest is {'' if want else 'not '}requested",
                              n.where(), "the selection is inverted")


def enqueue(P, rep, c):
    m = c.find("_enqueue_step_validity")
    fl = flow(P, m, lambda f, call, x: f.module.name == "trainer.base", cls=c)
    rep.graph(fl)
    ring = None
    for n, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_validity_check_slots")):
        for a in alts(v):
            if a[0] == "comp" and a[3]:
                it = a[3][0]
                if it[0] == "call" and it[1] == "range" and it[2] and it[2][-1][0] == "const":
                    ring = it[2][-1][1]
            elif a[0] in ("seq",):
                ring = len(a) - 1
            elif a[0] == "bin" and a[1] == "Mult":
                ring = next((x[1] for x in a[2:] if x[0] == "const"), None)
    rep.check(ring is not None and ring >= 2, "slots", "at least two result buffers", m.where(), f"{ring} buffer(s): a check queued before the previous one is read overwrites it")
    ap = [n for n in method(fl, "append") if fl.recv(n) == ("attr", SELF, "_validity_checks_in_flight")]
    cp = method(fl, "copy_")
    p = must_pass(fl, [fl.g.entry], [fl.g.exit], ap)
    rep.check(bool(ap) and p is None, "slots", "every check is queued for reading", m.where(), path_str(p))
    for n in cp:
        rep.check(fl.arg(n, 0) == ("param", m.params[1]), "slots", "the queued value is the step's check", n.where(), f"copies {show(fl.arg(n, 0))}")
    p = must_pass(fl, [fl.g.entry], ap, cp)
    rep.check(bool(cp) and p is None, "slots", "the check is copied before it is queued", m.where(), path_str(p))
    rec = method(fl, "record")
    noev = edges(fl, falsy(lambda t: has(t, lambda x: x == ("attr", SELF, "_validity_check_slots"))))
    for x in cp:
        p = fl.find_path([x], [fl.g.exit], avoid=rec, avoid_edge=noev, skip_labels=NORMAL)
        rep.check(bool(rec) and p is None, "slots", "the copy's completion is recorded after it is issued", x.where(), path_str(p))
        p = fl.find_path(rec, [x], skip_labels=NORMAL)
        rep.check(p is None, "slots", "completion is not recorded before the copy", x.where(), path_str(p))
    # slot index queued is the slot written, and advances by one each time
    cnt = ("attr", SELF, "_validity_check_counter")
    inc = [(n, v) for n, t, v in stores_to(fl, lambda t: t == cnt)]
    p = must_pass(fl, [fl.g.entry], [fl.g.exit], [n for n, v in inc])
    rep.check(bool(inc) and p is None and all(v == ("bin", "Add", cnt, ("const", 1)) for n, v in inc), "slots", "consecutive checks use consecutive buffers", m.where(),
              f"{[show(v) for n, v in inc]} {path_str(p)}")
    for n in ap:
        a = fl.arg(n, 0)
        idx = a[1] if a[0] == "seq" else a
        mod = idx[0] == "bin" and idx[1] == "Mod" and idx[2] == cnt
        rep.check(mod, "slots", "buffer index cycles through all buffers", n.where(), f"index {show(idx)[:100]}")
        for x in cp:
            rep.check(has(fl.recv(x), lambda y: y == idx), "slots", "the queued buffer is the one written", x.where(), f"writes {show(fl.recv(x))[:100]}")


def update(P, rep, c):
    m = c.find("_run_train_step")
    fl = flow(P, m, policy, cls=c)
    rep.graph(fl)
    iso = lambda t: t[0] in ("elemval", "elem", "key", "idx", "item") and has(t, lambda x: x == ("attr", SELF, "optimizers"))
    opt = method(fl, "step", recv=iso)
    bwd = method(fl, "backward")
    val = method(fl, "_synchronize_step_validity")
    tr = method(fl, "train_step")
    rep.floor("finite checks in the step", len(val), 3)
    isnorm = lambda t: has(t, lambda x: x[0] == "mcall" and x[2] == "_clip_gradients")
    isloss = lambda t: has(t, lambda x: x[0] == "item" and has(x, lambda y: y[0] == "mcall" and y[2] == "train_step") and x[2] == 0)
    nosync = edges(fl, falsy(mentions("sync_gradients")))
    scaler = edges(fl, lambda a: a[0] == "cmp" and a[1] == "is not" and ("const", None) in a and has(a, ends("scaler")))
    normchk = [n for n in val if isnorm(argval(fl, n, None, "loss", ("const", None)))]
    p = fl.find_path([fl.g.entry], opt, avoid=normchk, avoid_edge=either(nosync, scaler), skip_labels=NORMAL)
    rep.check(bool(normchk) and p is None, "checked-before-update", "gradient norm checked before the optimizer step", m.where(),
              "the optimizer can step on gradients whose norm was not checked: " + path_str(p))
    clip = method(fl, "_clip_gradients")
    p = fl.find_path([fl.g.entry], opt, avoid=clip, avoid_edge=nosync, skip_labels=NORMAL)
    rep.check(bool(clip) and p is None, "checked-before-update", "gradients clipped before the optimizer step", m.where(), path_str(p))
    p = fl.find_path(clip, bwd, avoid=opt + tr + method(fl, "on_before_step"), skip_labels=NORMAL)
    rep.check(p is None, "checked-before-update", "gradients are complete when clipped", m.where(), path_str(p))
    losschk = [n for n in val if isloss(argval(fl, n, None, "loss", ("const", None)))]
    p = must_pass(fl, tr, bwd, losschk)
    rep.check(bool(losschk) and p is None, "checked-before-update", "loss checked before backward", m.where(), path_str(p))
    # deferred finite checking must be made up for after backward
    for n in losschk:
        d = argval(fl, n, None, "defer_finite", ("const", False))
        mv = argval(fl, n, None, "metric_values", ("const", None))
        both = metric_cover(mv)
        rep.check(both, "checked-before-update", "loss and auxiliary metrics are checked", n.where(), f"checks {show(mv)[:120]}")
        if d == ("const", False):
            continue
        for k in normchk:
            mk = argval(fl, k, None, "metric_values", ("const", None))
            ds = argval(fl, k, None, "defer_sync", ("const", False))
            if isloss(mk):
                rep.check(metric_cover(mk), "checked-before-update", "deferred check covers the metrics", k.where(), f"checks {show(mk)[:120]}")
        made_up = [k for k in normchk if isloss(argval(fl, k, None, "metric_values", ("const", None)))]
        if d != ("const", False):
            # on paths where the check was deferred (argument true) the loss is re-checked with the norm before the update
            notdef = edges(fl, falsy(lambda t: t == d))
            single = set(x for x in (d[1:] if d[0] == "and" else (d,)))
            false_parts = edges(fl, lambda a: any(a == z for z in [neg(x) for x in single]))
            whole = edges(fl, lambda a: a == neg(d) or a[0] == "or" and set(a[1:]) & {neg(x) for x in single})
            p = fl.find_path([n], opt, avoid=made_up, avoid_edge=either(nosync, notdef, false_parts, whole, scaler), skip_labels=NORMAL)
            rep.check(bool(made_up) and p is None, "checked-before-update", "a deferred loss check happens before the update", n.where(), path_str(p))
            one = any(x[0] == "cmp" and x[1] == "==" and has(x, ends("num_processes")) and ("const", 1) in x for x in single)
            rep.check(one, "checked-before-update", "checks are deferred only in single-process runs", n.where(), f"deferred when {show(d)[:120]}")
            nos = any(x[0] == "cmp" and x[1] == "is" and has(x, ends("scaler")) for x in single)
            rep.check(nos, "checked-before-update", "checks are deferred only without loss scaling", n.where(), f"deferred when {show(d)[:120]}")
            syn = any(has(x, ends("sync_gradients")) for x in single)
            rep.check(syn, "checked-before-update", "checks are deferred only on the micro-step that updates", n.where(), f"deferred when {show(d)[:120]}")


def neg(x):
    from sa.flow import negate
    return negate(x)


def metric_cover(t):
    """both the loss and aux metric dicts contribute their values"""
    idx = set()

    def f(x):
        if x[0] == "item" and has(x[1], lambda y: y[0] == "mcall" and y[2] in ("train_step", "_normalize_train_metrics")):
            idx.add(x[2])
        return False
    srcs = set()
    from sa.flow import subterms
    for x in subterms(t):
        if x[0] == "mcall" and x[2] == "_normalize_train_metrics" and len(x[3]) > 1:
            srcs.add(x[3][1])
    return len(srcs) >= 2


def judge(P, rep, c):
    m = c.find("_synchronize_step_validity")
    fl = flow(P, m, lambda f, call, x: f.module.name == "trainer.base" and f.name not in ("_enqueue_step_validity",), cls=c)
    rep.graph(fl)
    loss, mv, errs = ("param", "loss"), ("param", "metric_values"), ("param", "errors")
    iscount = lambda t: has(t, lambda x: x[0] == "mcall" and x[2] == "item")
    fin = lambda t: has(t, lambda x: x[0] == "call" and str(x[1]).endswith("isfinite"))
    enq = method(fl, "_enqueue_step_validity")
    deferf = edges(fl, truthy(lambda t: t == ("param", "defer_finite")))
    okc = edges(fl, lambda a: a[0] == "cmp" and a[1] == "==" and iscount(a) and has(a, ends("num_processes")))
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=enq, avoid_edge=either(okc, deferf), skip_labels=NORMAL, correlate=False)
    rep.check(p is None, "check-complete", "returns only when every rank's check passed", m.where(), path_str(p))
    # the checked value
    for n in fl.g.live:
        if n.kind == "cond" and n.expr is not None:
            t = fl.term(n, n.expr)
            if iscount(t) and has(t, ends("num_processes")):
                cov = lambda q: has(t, lambda x: x[0] == "call" and str(x[1]).endswith("isfinite") and contains(x, q))
                rep.check(cov(loss), "check-complete", "loss is checked for finiteness", n.where(), show(t)[:160])
                rep.check(cov(mv) or has(t, lambda x: x[0] == "call" and str(x[1]).endswith("isfinite") and has(x, lambda y: y == ("elem", mv))), "check-complete", "every metric value is checked for finiteness", n.where(), show(t)[:160])
                rep.check(has(t, lambda x: x == ("not", errs)), "check-complete", "structural errors fail the check", n.where(), show(t)[:160])
                allv = has(t, lambda x: x[0] == "mcall" and x[2] == "all") and not has(t, lambda x: x[0] == "mcall" and x[2] == "any")
                rep.check(allv, "check-complete", "all values must be finite", n.where(), show(t)[:160])
    for n in enq:
        a = fl.arg(n, 0)
        cov = lambda q: has(a, lambda x: x[0] == "call" and str(x[1]).endswith("isfinite") and contains(x, q))
        rep.check(cov(loss) and (cov(mv) or has(a, lambda y: y == ("elem", mv))), "check-complete", "the queued check covers loss and metrics", n.where(), show(a)[:160])
        sp = [x for x in fl.g.live if x.kind == "cond"]
        multi = edges(fl, lambda x: x[0] == "cmp" and x[1] == "==" and has(x, ends("num_processes")) and ("const", 1) in x)
        p = fl.find_path([fl.g.entry], [n], avoid_edge=multi, skip_labels=NORMAL, correlate=False)
        rep.check(p is None, "check-complete", "checks are queued only in single-process runs", n.where(), path_str(p))
    # errors raise also when deferred
    noerr = edges(fl, falsy(lambda t: t == errs))
    deff = [n for n in fl.g.live if n.kind == "cond" and n.expr is not None and has(fl.term(n, n.expr), lambda x: x == ("param", "defer_finite"))]
    p = fl.find_path(deff, [fl.g.exit], avoid=enq, avoid_edge=either(noerr, okc), skip_labels=NORMAL, correlate=False)
    rep.check(p is None, "check-complete", "structural errors are never deferred", m.where(), path_str(p))
    red = [n for n in method(fl, "reduce")]
    for n in red:
        r = argval(fl, n, 1, "reduction", ("const", None))
        rep.check(r == ("const", "sum"), "check-complete", "rank results are summed", n.where(), show(r))
    # what is structurally wrong is noted, and what is noted fails the check
    noted = [n for n in method(fl, "append", "extend") if fl.recv(n) == errs]
    S, EX = ("param", "schema"), lambda t: has(t, ends("_train_metric_schema"))
    atoms = {
        "a loss that is no tensor": lambda a: a[:2] == ("call", "isinstance") and a[2][0] == loss,
        "a loss that is no scalar": lambda a: a[0] == "cmp" and a[1] == "==" and set(a[2:4]) == {("attr", loss, "ndim"), ("const", 0)} or
        a[0] == "cmp" and a[1] == "==" and ("const", 1) in a[2:4] and has(a, lambda y: y[0] == "mcall" and y[2] == "numel" and y[1] == loss),
        "a loss that is not floating point": lambda a: a[0] == "mcall" and a[1] == loss and a[2] == "is_floating_point" or a[0] == "call" and a[1] == "torch.is_floating_point",
        "a loss on another device": lambda a: has(a, lambda y: y == ("attr", loss, "device")) and has(a, ends("device")),
        "a loss without gradient": lambda a: a in (("attr", loss, "requires_grad"), ("not", ("param", "require_grad"))) or
        a[0] == "or" and ("attr", loss, "requires_grad") in a[1:],
        "changed metric names": lambda a: a[0] == "cmp" and a[1] == "==" and S in a[2:4] and EX(a) or a[0] == "cmp" and a[1] == "is" and ("const", None) in a[2:4] and EX(a),
    }
    for what, at in atoms.items():
        p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=noted, avoid_edge=edges(fl, lambda a, at=at: at(a) or a[0] in ("and", "phi") and any(at(x) for x in a[1:])), skip_labels=NORMAL, correlate=False)
        rep.check(p is None, "check-complete", f"{what} is an error", m.where(), path_str(p))
    one = lambda a: a[0] == "cmp" and has(a, ends("num_processes")) and (a[1] == "==" and ("const", 1) in a[2:4] or a[1] == "<=" and a[3] == ("const", 1) or a[1] == "<" and a[3] == ("const", 2))
    many = lambda a: a[0] == "cmp" and has(a, ends("num_processes")) and (a[1] == "!=" and ("const", 1) in a[2:4] or a[1] == "<" and a[2] == ("const", 1) or a[1] == "<=" and a[2] == ("const", 2) or
                                                                           a[1] == ">" and a[3] == ("const", 1) or a[1] == ">=" and a[3] == ("const", 2))
    part = [n for n in method(fl, "append") if (lambda t: has(t, lambda y: y == ("not", errs)))(argval(fl, n, 0, None, ("const", None)))]
    q = [fl.find_path([fl.g.entry], [fl.g.exit], avoid=part, avoid_edge=either(edges(fl, one), edges(fl, falsy(lambda t: t == errs))), skip_labels=NORMAL, correlate=False),
         fl.find_path([fl.g.entry], [fl.g.exit], avoid_edge=either(edges(fl, many), edges(fl, falsy(lambda t: t == errs))), skip_labels=NORMAL, correlate=False)]
    for what, p in zip(("several processes", "a single process"), q):
        rep.check(p is None, "check-complete", f"a noted error fails the check with {what}", m.where(), path_str(p))
    # the finite values take part, and so does every process
    fa = [n for n in method(fl, "append") if fin(argval(fl, n, 0, None, ("const", None)))]
    if fa:
        nothing = edges(fl, falsy(lambda t: has(t, lambda y: y == loss) and contains(t, mv)))
        p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=fa, avoid_edge=either(nothing, deferf), skip_labels=NORMAL, correlate=False)
        rep.check(p is None, "check-complete", "finite values are required whenever there are values", m.where(), path_str(p))
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=red, avoid_edge=edges(fl, one), skip_labels=NORMAL)
    rep.check(bool(red) and p is None, "check-complete", "the result of every process counts", m.where(), path_str(p))
    for n in fl.g.live:
        if n.kind == "cond" and n.expr is not None or n in enq:
            t = fl.term(n, n.expr) if n.kind == "cond" else fl.arg(n, 0)
            if fin(t):
                cut = has(t, lambda y: y[0] == "slice" and contains(y[1], mv) or y[0] == "comp" and y[4] and any(contains(z, mv) for z in y[3]))
                rep.check(not cut, "check-complete", "no metric value is left out", n.where(), show(t)[:160])
