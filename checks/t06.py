"""T06: one training step is a transaction over data position, counters and optimizer state."""
from sa.flow import alts, contains, flow, has, show
from sa.lib import calls, norm, path_str, retval
from sa.project import AnchorError
from sa.rules import (NORMAL, argval, edges, either, ends, falsy, mentions, method, must_pass, stores_to, truthy)

SELF = ("self",)
EVENTS = {"_fetch_batch", "_run_train_step", "_validate", "_save_checkpoint", "_drain_pending_step_validity",
          "_restore_continuation_state", "_flush_async_checkpoint_collectively", "_flush_async_checkpoint",
          "_shutdown_resources", "_synchronize_phase_errors", "_synchronize_step_validity", "_clip_gradients",
          "_discard_pending_step_validity", "on_before_step", "on_after_step", "train_step", "_log_metrics",
          "_log_metrics_observed", "_show_progress", "_gather_train_metrics", "_normalize_train_metrics"}


def policy(f, call, ctx):
    return f.module.name == "trainer.base" and f.name not in EVENTS


def const_true(t):
    return t == ("const", True)


def run(P, rep):
    rep.rule("prepare-before-mutation", "pending data positions are validated (and compared across ranks) before the optimizer changes anything")
    rep.rule("commit-after-update", "the data position is committed only after the optimizer update and the post-step hook succeeded on every rank")
    rep.rule("commit-what-was-prepared", "what is committed is exactly what was prepared from the pending batches, which are then cleared")
    rep.rule("mutation-marked", "the mutation marker is set before anything that can change optimizer, scheduler or hook state")
    rep.rule("errors-surface", "a failure in the update phase or a hook is collected, agreed across ranks and raised as divergent")
    rep.rule("step-rollback", "a failed step restores the counters and the sampler and marks the run divergent if state may have changed")
    rep.rule("save-guard", "the emergency save runs only from a known-good point")
    rep.rule("pending-collected", "every fetched batch's position is staged for the step that consumes it")
    c = P.cls("trainer.base:BaseTrainer")
    step(P, rep, c)
    fetch(P, rep, c)
    loop(P, rep, c)
    phase_errors(P, rep, c)


def quiet_edge(srcs):
    keep = {n.id for n in srcs}
    return lambda n, s, l: l in NORMAL and n.kind != "raise" and n.id not in keep


def step(P, rep, c):
    m = c.find("_run_train_step")
    fl = flow(P, m, policy, cls=c)
    rep.graph(fl)
    iselem = lambda attr: (lambda t: t[0] in ("elemval", "elem", "key", "idx", "item") and has(t, lambda x: x == ("attr", SELF, attr)))
    opt = method(fl, "step", recv=iselem("optimizers"))
    sch = method(fl, "step", recv=iselem("schedulers"))
    zg = method(fl, "zero_grad", recv=iselem("optimizers"))
    if not opt:
        raise AnchorError("_run_train_step: optimizer step")
    prep = method(fl, "prepare_commit")
    com = method(fl, "commit_prepared")
    hook = method(fl, "on_after_step")
    sync = method(fl, "_synchronize_phase_errors")
    nosync = edges(fl, falsy(mentions("sync_gradients")))
    kinds = (("stream", "_pending_stream_tokens", "_resume_stream"), ("sampler", "_pending_sampler_tokens", "_resume_sampler"))
    for name, pend, owner in kinds:
        pp = [n for n in prep if fl.recv(n) == ("attr", SELF, owner)]
        cc = [n for n in com if fl.recv(n) == ("attr", SELF, owner)]
        ispend = mentions(pend)
        nopend = edges(fl, falsy(ispend))
        p = fl.find_path([fl.g.entry], opt, avoid=pp, avoid_edge=either(nosync, nopend), skip_labels=NORMAL)
        rep.check(bool(pp) and p is None, "prepare-before-mutation", f"{name} position prepared before the optimizer step", m.where(),
                  "the optimizer can step with pending batches whose commit was not validated: " + path_str(p))
        for n in pp:
            rep.check(has(argval(fl, n, 0, None, ("const", None)), lambda x: x == ("attr", SELF, pend) or x[0] == "key" and x[2] == pend), "commit-what-was-prepared",
                      f"{name} commit prepared from the pending batches", n.where(), f"prepares {show(argval(fl, n, 0, None, ('const', None)))[:80]}")
            # a rank disagreement is raised before mutation
            desc = [g for g in fl.g.live if g.kind == "cond" and g.expr is not None and
                    has(fl.term(g, g.expr), lambda x: x[0] in ("mcall", "call") and (x[1] == "accelerate.utils.gather_object" or x[1] == "gather_object" or "gather" in str(x[1]) or "gather" in str(x[2]))
                        and has(x, lambda y: y[0] == "mcall" and y[2] == "prepare_commit" and y[1] == ("attr", SELF, owner)))]
            multi = edges(fl, lambda a: a[0] == "cmp" and a[1] == "==" and has(a, ends("num_processes")))
            # comparing inside a loop over the gathered positions: passing the loop is passing the comparison
            heads = {h.id for h in fl.g.live if h.kind == "for" and any(g.id in fl.loop_body(h) for g in desc) and n.id not in fl.loop_body(h)}

            def agree(x, y, l, desc=desc, heads=heads):
                return x in desc or x.id in heads
            p = fl.find_path([n], opt, avoid_edge=either(multi, agree), skip_labels=NORMAL)
            rep.check(bool(desc) and p is None, "prepare-before-mutation", f"{name} position compared across ranks before the optimizer step", n.where(),
                      "the ranks' prepared positions are not compared before the optimizer changes state: " + path_str(p))
            for g in desc:
                bad = [l for l in ("T", "F") if fl.find_path([g], opt, src_labels=(l,), skip_labels=NORMAL, correlate=False) is None]
                rep.check(len(bad) == 1, "prepare-before-mutation", f"{name} rank disagreement stops the step", g.where(),
                          "neither outcome of the comparison prevents the optimizer step" if not bad else "no outcome reaches the optimizer step")
        if not cc:
            rep.bad("commit-after-update", f"{name} position committed", m.where(), f"{owner}.commit_prepared is never called in the training step")
            continue
        for n in cc:
            v = argval(fl, n, 0, None, ("const", None))
            good = all(a == ("const", None) or (a[0] == "mcall" and a[2] == "prepare_commit" and a[1] == ("attr", SELF, owner)
                                                 and has(a, lambda x: x[0] in ("attr", "key") and x[2] == pend)) for a in alts(v))
            rep.check(good and any(a[0] == "mcall" for a in alts(v)), "commit-what-was-prepared", f"{name} commits the prepared candidate", n.where(),
                      f"commits {show(v)[:120]}")
            back = fl.find_path([n], opt + sch + zg + hook, skip_labels=())
            rep.check(back is None, "commit-after-update", f"{name} commit is followed by no further update", n.where(),
                      "optimizer, scheduler or hook work runs after the commit: " + path_str(back))
            p = must_pass(fl, [fl.g.entry], [n], hook)
            rep.check(bool(hook) and p is None, "commit-after-update", f"{name} commit follows the post-step hook", n.where(), path_str(p))
            for src, what in ((opt, "optimizer step"), (hook, "post-step hook")):
                p = fl.find_path(src, [n], avoid=sync, skip_labels=())
                rep.check(p is None, "commit-after-update", f"{name} commit waits for every rank's {what}", n.where(),
                          "committed without agreeing that the step succeeded on all ranks: " + path_str(p))
            # cleared afterwards
            clr = [x for x, t, v in stores_to(fl, lambda t: t == ("attr", SELF, pend)) if all(a in (("seq",), ("call", "list", (), ())) for a in alts(v))]
            clr += [x for x in method(fl, "clear") if has(fl.recv(x), lambda t: t[0] in ("attr", "key") and t[2] == pend)]
            p = must_pass(fl, [n], [fl.g.exit], clr)
            rep.check(bool(clr) and p is None, "commit-what-was-prepared", f"{name} pending batches cleared after the commit", n.where(),
                      "committed batches stay pending and would be committed again: " + path_str(p))
            early = [x for x in clr if fl.find_path([x], [n], skip_labels=NORMAL) is not None]
            rep.check(not early, "commit-what-was-prepared", f"{name} pending batches kept until the commit", n.where(),
                      "pending batches are dropped before they are committed")
        # never returns normally with pending batches uncommitted
        p = must_pass(fl, [fl.g.entry], [fl.g.exit], cc, edge=nopend)
        rep.check(p is None, "commit-after-update", f"{name} position committed on every completed step", m.where(),
                  "a step can complete without committing its batches: " + path_str(p))
        # the epoch counter follows the committed position
        ep = [x for x, t, v in stores_to(fl, lambda t: t == ("attr", ("attr", SELF, "state"), "epoch"))
              if has(v, lambda y: y == ("attr", SELF, owner))]
        p = must_pass(fl, cc, [fl.g.exit], ep)
        rep.check(bool(ep) and p is None, "commit-what-was-prepared", f"epoch counter follows the committed {name} position", m.where(), path_str(p))
    # marker
    mark = [n for n, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_optimizer_state_mutated")) if const_true(v)]
    for nm, nodes in (("optimizer step", opt), ("scheduler step", sch), ("gradient clearing", zg), ("post-step hook", hook)):
        if nm != "gradient clearing":
            rep.floor(f"{nm} call", len(nodes), 1)
        p = must_pass(fl, [fl.g.entry], nodes, mark) if nodes else None
        rep.check(p is None, "mutation-marked", f"marker set before {nm}", (nodes or [fl.g.entry])[0].where(),
                  "state may change while a failure would still look harmless: " + path_str(p))
    unm = [n for n, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_optimizer_state_mutated")) if not const_true(v)]
    p = fl.find_path(opt + sch + hook, unm, skip_labels=()) if unm else None
    rep.check(p is None, "mutation-marked", "marker never withdrawn within a step", (unm or [fl.g.entry])[0].where(), path_str(p))
    # every optimizer / scheduler / accumulation
    for nodes, attr in ((opt, "optimizers"), (zg, "optimizers")):
        rep.check(bool(nodes), "errors-surface", f"{attr} are stepped and cleared", m.where(), "no per-optimizer call found")
    # error collection: an exception in mutation or hook reaches a divergent phase sync before anything else
    for nm, nodes in (("optimizer step", opt), ("scheduler step", sch), ("post-step hook", hook)):
        for n in nodes:
            p = fl.find_path([n], [fl.g.exit], src_labels=("exc", "excb"), avoid=sync, skip_labels=())
            rep.check(p is None, "errors-surface", f"failure of {nm} reaches the cross-rank error check", n.where(),
                      "an exception is swallowed: " + path_str(p))
            hit = [s for s in sync if fl.find_path([n], [s], avoid=[x for x in sync if x is not s], skip_labels=()) is not None]
            for s in hit:
                d = argval(fl, s, None, "divergent", ("const", False)) if fl.arg(s, 2) is None else fl.arg(s, 2)
                rep.check(const_true(d), "errors-surface", f"failure after {nm} marks the run divergent", s.where(), f"divergent={show(d)}")
                e = argval(fl, s, 1, "errors", ("const", None))
                collected = has(e, lambda x: x[0] in ("caught", "exc", "opaque", "handler", "comp", "seq", "phi")) and e != ("seq",)
                rep.check(collected, "errors-surface", f"errors of {nm} are what is checked", s.where(), f"checks {show(e)[:100]}")


def fetch(P, rep, c):
    m = c.find("_fetch_batch")
    fl = flow(P, m, policy, cls=c)
    rep.graph(fl)
    # a delivered stream envelope: its token is appended to the pending list
    ap = [n for n in method(fl, "append", "extend") if has(fl.recv(n), lambda t: t[0] in ("attr", "key") and t[2] == "_pending_stream_tokens")]
    isenv = lambda a: a[0] == "not" and a[1][0] == "call" and a[1][1] == "isinstance" or (a[0] == "call" and a[1] == "isinstance")
    notenv = edges(fl, lambda a: a[0] == "not" and a[1][0] == "call" and a[1][1] == "isinstance" and has(a, lambda x: x[0] in ("global", "func", "class", "const") and str(x[1]).endswith("BatchEnvelope")))
    p = must_pass(fl, [fl.g.entry], [fl.g.exit], ap, edge=notenv)
    rep.check(bool(ap) and p is None, "pending-collected", "stream batch staged", m.where(), "a delivered batch's position is not staged: " + path_str(p))
    for n in ap:
        a = fl.arg(n, 0)
        rep.check(has(a, ends("token")), "pending-collected", "staged position is the delivered batch's", n.where(), f"stages {show(a)[:80]}")
        once = fl.find_path([n], ap, skip_labels=NORMAL)
        rep.check(once is None, "pending-collected", "stream batch staged once", n.where(), path_str(once))
    ap = [n for n in method(fl, "append", "extend") if has(fl.recv(n), lambda t: t[0] in ("attr", "key") and t[2] == "_pending_sampler_tokens")]
    nosam = edges(fl, falsy(mentions("_resume_sampler")))
    p = must_pass(fl, [fl.g.entry], [fl.g.exit], ap, edge=nosam)
    rep.check(bool(ap) and p is None, "pending-collected", "sampler batch staged", m.where(), path_str(p))
    for n in ap:
        a = fl.arg(n, 0)
        rep.check(has(a, lambda x: x[0] == "mcall" and x[2] == "stage_batch" and has(x, ends("batch_size_per_process"))), "pending-collected",
                  "staged sampler position covers the fetched batch", n.where(), f"stages {show(a)[:80]}")
    v = retval(fl)
    rep.check(all(not (x[0] == "call" and str(x[1]).endswith("BatchEnvelope")) for x in alts(v)), "pending-collected", "batch data returned", m.where(), "")


def loop(P, rep, c):
    m = c.find("run")
    fl = flow(P, m, policy, cls=c)
    rep.graph(fl)
    stp = method(fl, "_run_train_step")
    if not stp:
        raise AnchorError("run: training step")
    st = ("attr", SELF, "state")
    for attr in ("iteration", "rows"):
        stores = stores_to(fl, lambda t: t == ("attr", st, attr))
        cur = ("attr", st, attr)
        inc = [(n, v) for n, t, v in stores if v[0] == "bin" and v[1] == "Add" and cur in v[2:]]
        dec = [(n, v) for n, t, v in stores if v[0] == "bin" and v[1] == "Sub" and v[2] == cur]
        other = [n for n, t, v in stores if (n, v) not in inc and (n, v) not in dec]
        rep.check(bool(inc) and not other, "step-rollback", f"{attr} only advances by a step", m.where(), "")
        amount = lambda v: [x for x in v[2:] if x != cur]
        amts = {repr(amount(v)) for n, v in inc}
        rep.check(len(amts) == 1 and all(repr(amount(v)) in amts for n, v in dec), "step-rollback", f"{attr} is restored by the amount it was advanced", m.where(),
                  f"advanced by {amts}, restored by {[show(amount(v)[0])[:60] for n, v in dec]}")
        p = must_pass(fl, [fl.g.entry], stp, [n for n, v in inc])
        rep.check(p is None, "step-rollback", f"{attr} advanced before the step", m.where(), path_str(p))
        p = fl.find_path([n for n, v in inc], [n for n, v in inc], avoid=stp, skip_labels=NORMAL)
        rep.check(p is None, "step-rollback", f"{attr} advanced once per step", m.where(), path_str(p))
        for s in stp:
            ends_ = method(fl, "_save_checkpoint", "_shutdown_resources") + [fl.g.raise_exit]
            p = fl.find_path([s], ends_, avoid=[n for n, v in dec], src_labels=("exc", "excb"), avoid_edge=quiet_edge(stp), skip_labels=())
            rep.check(bool(dec) and p is None, "step-rollback", f"{attr} restored when the step fails", s.where(),
                      "a failed step leaves the counter advanced: " + path_str(p))
            p = fl.find_path([s], [n for n, v in dec], src_labels=("n",), avoid=[n for n, v in inc], skip_labels=NORMAL)
            rep.check(p is None, "step-rollback", f"{attr} kept when the step succeeds", s.where(), path_str(p))
        d2 = fl.find_path([n for n, v in dec], [n for n, v in dec], avoid=[n for n, v in inc], skip_labels=("excb",)) if dec else None
        rep.check(d2 is None, "step-rollback", f"{attr} restored once", m.where(), path_str(d2))
    rb = [n for n in method(fl, "rollback_uncommitted") if fl.recv(n) == ("attr", SELF, "_resume_sampler")]
    nosam = edges(fl, falsy(mentions("_resume_sampler")))
    final = method(fl, "_save_checkpoint", "_shutdown_resources") + [fl.g.raise_exit, fl.g.exit]
    div = [n for n, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_known_divergent")) if const_true(v)]
    nomut = edges(fl, falsy(mentions("_optimizer_state_mutated")))
    keep = {n.id for n in stp}

    def quiet(n, s, l):          # handler code is assumed not to fail itself
        return l in NORMAL and n.kind != "raise" and n.id not in keep
    notmut0 = [n for n, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_optimizer_state_mutated")) if v == ("const", False)]
    for s in stp:
        p = fl.find_path([s], final, avoid=rb, avoid_edge=either(nosam, quiet), src_labels=("exc", "excb"), skip_labels=())
        rep.check(bool(rb) and p is None, "step-rollback", "sampler rolled back when the step fails", s.where(), path_str(p))
        p = fl.find_path([s], final, avoid=div, avoid_edge=either(nomut, quiet), src_labels=("exc", "excb"), skip_labels=(), correlate=False)
        rep.check(bool(div) and p is None, "step-rollback", "failed step with possible mutation marks the run divergent", s.where(),
                  "the run is not marked divergent: " + path_str(p))
        p = fl.find_path([s], [fl.g.exit] + stp, src_labels=("exc", "excb"), skip_labels=())
        rep.check(p is None, "step-rollback", "failure of a step ends the run", s.where(), "a failed step is swallowed: " + path_str(p))
        p = must_pass(fl, [fl.g.entry], [s], notmut0)
        p2 = fl.find_path([s], [s], avoid=notmut0, skip_labels=NORMAL)
        rep.check(p is None and p2 is None, "mutation-marked", "marker cleared at the start of each step", s.where(), path_str(p or p2))
    # emergency save: only under safe, not divergent, no failed attempt
    saves = method(fl, "_save_checkpoint")
    em = [n for n in saves if fl.find_path(stp, [n], skip_labels=(), src_labels=("exc", "excb")) is not None]
    safe1 = [n for n, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_checkpoint_safe")) if const_true(v)]
    safe0 = [n for n, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_checkpoint_safe")) if v == ("const", False)]
    rep.floor("emergency save", len(em), 1)
    for n in em:
        for attr, pol in (("_checkpoint_safe", True), ("_known_divergent", False), ("_checkpoint_attempt_failed", False)):
            ok = edges(fl, (truthy if pol else falsy)(lambda t: t == ("attr", SELF, attr)))
            # on the exceptional route the save is reached only across an edge establishing the flag
            p = fl.find_path(stp + method(fl, "_fetch_batch"), [n], avoid_edge=ok, src_labels=("exc", "excb"), skip_labels=(), correlate=False)
            rep.check(p is None, "save-guard", f"emergency save requires {attr}={pol}", n.where(), "saves without consulting it: " + path_str(p))
        fs = argval(fl, n, 0, "force_state", ("const", False))
    # flag: cleared before fetching, restored only after the step
    fetches = method(fl, "_fetch_batch")
    for f in fetches:
        p = fl.find_path([fl.g.entry], [f], avoid=safe0, skip_labels=NORMAL)
        p2 = fl.find_path(safe1, [f], avoid=safe0, skip_labels=NORMAL)
        rep.check(p is None and p2 is None, "save-guard", "checkpointing disabled while a step is in progress", f.where(), path_str(p or p2))
        p = fl.find_path([f], safe1, avoid=stp, skip_labels=NORMAL)
        rep.check(p is None, "save-guard", "checkpointing re-enabled only after the step", f.where(), path_str(p))
    for s in stp:
        drains = method(fl, "_drain_pending_step_validity")
        p = fl.find_path([s], safe1, avoid=drains, skip_labels=NORMAL)
        rep.check(p is None, "save-guard", "checkpointing re-enabled only after the finite checks were read", s.where(), path_str(p))


def phase_errors(P, rep, c):
    m = c.find("_synchronize_phase_errors")
    fl = flow(P, m, policy, cls=c)
    rep.graph(fl)
    errs = ("param", m.params[2])
    single = edges(fl, lambda a: a[0] == "cmp" and a[1] == "==" and has(a, ends("num_processes")) and ("const", 1) in a)
    multi = edges(fl, lambda a: (a[0] == "cmp" and a[1] == "!=" or a[0] == "not") and has(a, ends("num_processes")) and has(a, lambda x: x == ("const", 1)))
    # single process: returns only without errors
    ok = edges(fl, falsy(lambda t: t == errs))
    okm = edges(fl, lambda a: a[0] == "cmp" and a[1] == "==" and has(a, ends("num_processes")) and
                has(a, lambda x: x[0] == "mcall" and x[2] == "reduce" and has(x, lambda y: y == errs)))
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid_edge=either(ok, okm), skip_labels=NORMAL, correlate=False)
    rep.check(p is None, "errors-surface", "returns only when no rank reported an error", m.where(), "returns despite errors: " + path_str(p))
    red = [n for n in method(fl, "reduce")]
    for n in red:
        r = argval(fl, n, None, "reduction", None) or argval(fl, n, 1, None, ("const", None))
        rep.check(r == ("const", "sum"), "errors-surface", "rank outcomes are summed", n.where(), f"reduction={show(r)}")
        a = fl.arg(n, 0)
        rep.check(has(a, lambda x: x == ("not", errs)), "errors-surface", "a rank reports success only without errors", n.where(), f"reports {show(a)[:80]}")
    div = [n for n, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_known_divergent")) if const_true(v)]
    nd = edges(fl, falsy(lambda t: t == ("param", "divergent")))
    raises = [n for n in fl.g.live if n.kind == "raise"]
    rep.floor("raises of the error boundary", len(raises), 1)
    for r in raises:
        p = must_pass(fl, [fl.g.entry], [r], div, edge=nd)
        rep.check(p is None, "errors-surface", f"divergent failures mark the run ({'single' if fl.find_path([fl.g.entry], [r], avoid_edge=multi, skip_labels=NORMAL) else 'multi'} process)", r.where(), path_str(p))
