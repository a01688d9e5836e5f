"""D02: delivered batches never move the durable data position until they are committed, in order, exactly once."""
import ast
from sa.flow import alts, attrs_in, contains, flow, has, show, subterms
from sa.lib import (attr_effects, ctor_fields, fact_at, global_calls, last_values, method_calls, norm, path_str, retval,
                    returns, self_stores, within)
from sa.project import AnchorError
from checks.d01 import all_methods

DUR = {"state": "_committed_state", "digest": "_committed_digest", "pipeline_blob": "_committed_pipeline_blob"}
YLD = {"state": "_yield_state", "digest": "_yield_digest", "pipeline_blob": "_yield_pipeline_blob"}
SELF = ("self",)


def A(x, n):
    return ("attr", x, n)


def rejects(fl, n, label):
    """the branch of cond n labelled `label` cannot reach the normal exit"""
    return fl.find_path([n], [fl.g.exit], src_labels=(label,), skip_labels=("exc", "excb"), correlate=False) is None


def run(P, rep):
    rep.rule("durable-writers", "only committing, loading, starting the next epoch and construction write the durable position")
    rep.rule("commit-guard", "committing requires the batch's recorded start to equal the durable digest and copies all three "
             "components from the candidate")
    rep.rule("commit-contiguous", "each batch of a commit is checked, for every batch, against the chained digest, epoch/index, "
             "pipeline state and cursor before it")
    rep.rule("token-chain", "a delivered batch records the position before and after it; the delivered position advances to it")
    rep.rule("digest-binds", "the position digest depends on every component that identifies the batch")
    rep.rule("epoch-advance", "the next epoch starts only from a finished epoch whose batches are all committed")
    rep.rule("train-never-self-commits", "the batch iterator commits on delivery only outside training")
    rep.rule("abandon-rolls-back", "abandoning iteration restores the committed position")
    c = P.cls("dataset.planner:DatasetPlanner")
    pol = within("dataset.planner")
    allowed = {"__init__", "commit_prepared", "commit_batch", "load_state_dict", "begin_next_epoch", "shuffle_window_size"}
    nm = 0
    for m in all_methods(c):
        if m.name.startswith("_") and not m.name.startswith("__"):
            continue
        if m.is_property and m.name != "shuffle_window_size":
            continue
        fl = flow(P, m, pol, cls=c)
        w = [(n, a) for n, a, k, v in attr_effects(fl) if a in DUR.values()]
        nm += 1
        if m.name in allowed:
            continue
        rep.check(not w, "durable-writers", f"DatasetPlanner.{m.name}", w[0][0].where() if w else m.where(),
                  f"writes the durable position ({w[0][1]}) outside a commit" if w else "")
    rep.floor("public planner methods", nm, 15)
    # any other module writing it
    for mod in P.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in DUR.values() \
                    and not (isinstance(n.value, ast.Name) and n.value.id == "self" and mod.name == "dataset.planner"):
                rep.bad("durable-writers", f"{mod.name}: {n.attr}", f"{mod.rel}:{n.lineno}", "durable position written from outside the planner")

    # commit_prepared
    m = c.find("commit_prepared")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    cand = ("param", m.params[1])
    want = ("cmp", "==", *sorted([A(cand, "before_digest"), A(SELF, DUR["digest"])], key=repr))
    for role, a in DUR.items():
        st = self_stores(fl, a)
        for n, _, v in st:
            t = norm(P, fl.storeval(n, v))
            rep.check(t == A(cand, "after_" + role), "commit-guard", f"commit_prepared sets {role}", n.where(),
                      f"committed {role} must be the candidate's resulting {role}, got {show(t)[:100]}")
            first = all(n.id in fl.reach(x) or x is n or n in [] for x, _, _ in [])
            guards = [g for g in fl.g.live if g.kind == "cond" and g.expr is not None and want in
                      [z for z in (fl.term(g, g.expr), __import__("sa.flow").flow.negate(fl.term(g, g.expr)))]]
            ok = bool(guards)
            for g in guards:
                lab = "F" if fl.term(g, g.expr) == want else "T"
                ok = ok and rejects(fl, g, lab)
            ok = ok and fl.find_path([fl.g.entry], [n], avoid=guards, skip_labels=("exc", "excb")) is None
            rep.check(ok, "commit-guard", f"commit_prepared checks the start before {role}", n.where(),
                      "the durable position is overwritten without first comparing the candidate's start digest with it")
        def nonres(x, y, l):
            if x.kind != "cond" or x.expr is None:
                return False
            t = fl.term(x, x.expr)
            return has(t, lambda q: q[0] == "attr" and q[2] == "resumable") and ((l == "F") == (t[0] != "not"))
        p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=[n for n, _, _ in st],
                         avoid_edge=nonres if role == "state" else None, skip_labels=("exc", "excb"))
        rep.check(bool(st) and p is None, "commit-guard", f"commit_prepared always sets {role}", m.where(),
                  f"a commit can return without advancing {role}: " + path_str(p))
    # commit_batch goes through prepare
    m = c.find("commit_batch")
    fl = flow(P, m, lambda f, call, x: False, cls=c)
    cp = method_calls(fl, "commit_prepared")
    ok = bool(cp) and all(has(fl.arg(n, 0), lambda t: t[0] == "mcall" and t[2] == "prepare_commit" and contains(t, ("param", m.params[1]))) for n in cp)
    fl2 = flow(P, m, pol, cls=c)
    rep.check(ok or prepared_inline(fl2), "commit-guard", "commit_batch prepares its commit", m.where(), "a single commit must be validated like a group commit")

    prepare(P, rep, c, pol)
    tokens(P, rep, c, pol)
    digest(P, rep, c, pol)
    epoch(P, rep, c, pol)
    delivery(P, rep)


def prepared_inline(fl):
    return bool([f for f in fl.g.inlined if f.name == "prepare_commit"]) and bool([f for f in fl.g.inlined if f.name == "commit_prepared"])


def prepare(P, rep, c, pol):
    m = c.find("prepare_commit")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    eff = attr_effects(fl)
    rep.check(not eff, "commit-contiguous", "preparing a commit changes nothing", eff[0][0].where() if eff else m.where(),
              f"prepare_commit mutates self.{eff[0][1]}" if eff else "")
    heads = [h for h in fl.g.live if h.kind == "for" and any(n.kind == "raise" and n.id in fl.reach(h) for n in fl.g.live)]
    toks = None
    for h in heads:
        t = fl.term(h, h.expr)
        if has(t, lambda x: x == ("param", m.params[1])):
            toks, head = t, h
    if toks is None:
        # checks expressed per token by another construct
        raise AnchorError("prepare_commit: loop over the batches of the commit")
    from sa.flow import elem
    el = elem(toks)
    if toks[0] == "call" and toks[1] == "enumerate":
        el = el[2]
    body = fl.loop_body(head)

    def chain(field, after, init):
        """cond inside the loop comparing el.field with phi(init, el.after), mismatch rejected, on every iteration"""
        good = []
        for n in fl.g.live:
            if n.kind != "cond" or n.id not in body or n.expr is None:
                continue
            t = fl.term(n, n.expr)
            for lab, tt in (("F", t), ("T", __import__("sa.flow").flow.negate(t))):
                if tt[0] == "cmp" and tt[1] == "==":
                    pairs = [(tt[2], tt[3])]
                    if tt[2][0] == "seq" and tt[3][0] == "seq" and len(tt[2]) == len(tt[3]):
                        pairs += list(zip(tt[2][1:], tt[3][1:]))
                    for x, y in pairs:
                        for a, b in ((x, y), (y, x)):
                            if norm(P, a) == A(el, field) and init(b) and after(b) and rejects(fl, n, lab):
                                good.append(n)
        return good

    def ph(t):
        return alts(norm(P, t))
    spec = {
        "before_digest": (lambda b: A(SELF, DUR["digest"]) in ph(b), lambda b: A(el, "after_digest") in ph(b) and len(ph(b)) == 2),
        "before_pipeline_blob": (lambda b: A(SELF, DUR["pipeline_blob"]) in ph(b), lambda b: A(el, "after_pipeline_blob") in ph(b) and len(ph(b)) == 2),
        "before_state": (lambda b: A(SELF, DUR["state"]) in ph(b), lambda b: A(el, "after_state") in ph(b) and len(ph(b)) == 2),
        "batch_index": (lambda b: A(A(SELF, DUR["state"]), "batch_index") in ph(b),
                        lambda b: any(p[0] == "bin" and p[1] == "Add" and ("const", 1) in p[2:] for p in ph(b))),
        "epoch": (lambda b: A(A(SELF, DUR["state"]), "epoch") in ph(b), lambda b: True),
    }
    for f, (init, after) in spec.items():
        good = chain(f, after, init)

        def skip(x, y, l):
            if f != "before_state" or x.kind != "cond" or x.expr is None:
                return False
            t = fl.term(x, x.expr)
            return has(t, lambda q: q[0] == "attr" and q[2] == "resumable") and ((l == "F") == (t[0] != "not"))
        p = fl.find_path([head], [head], avoid=good, avoid_edge=skip, src_labels=("it",), skip_labels=("exc", "excb")) if good else None
        rep.check(bool(good) and p is None, "commit-contiguous", f"every batch's {f} is checked against its predecessor", m.where(),
                  f"no check rejects a batch whose {f} does not continue from the previous batch" if not good else "skipped on " + path_str(p))
    # result
    for n, t in returns(fl):
        for a in alts(norm(P, t)):
            r = ctor_fields(P, a)
            if r is None:
                continue
            rep.check(norm(P, r.get("before_digest", ("?",))) == A(SELF, DUR["digest"]), "commit-contiguous", "candidate start digest", n.where(),
                      "the candidate must start at the durable digest")
            for role in DUR:
                t2 = norm(P, r.get("after_" + role, ("?",)))
                last = ("item", toks, -1)
                ok = all(x in (A(el, "after_" + role), A(last, "after_" + role), A(SELF, DUR[role])) or
                         x[0] == "attr" and x[2] == "after_" + role for x in alts(t2)) and \
                    any(x[0] == "attr" and x[2] == "after_" + role and (x[1] == el or x[1] == last or x[1][0] == "item" and x[1][2] == -1) for x in alts(t2))
                rep.check(ok, "commit-contiguous", f"candidate after_{role}", n.where(),
                          f"the candidate's resulting {role} must be the last batch's, got {show(t2)[:120]}")
            cd = r.get("coordination_descriptor", ("?",))
            for al in alts(norm(P, cd)):
                shard = has(al, lambda x: x[0] == "attr" and x[2] == "is_last")
                ok = contains(al, A(SELF, "distributed_policy")) and has(al, lambda x: x[0] == "call" and x[1] == "len") and \
                    ((has(al, lambda x: x[0] == "attr" and x[2] == "epoch") and has(al, lambda x: x[0] == "attr" and x[2] == "batch_index")) if shard else
                     (contains(al, A(SELF, DUR["digest"])) and has(al, lambda x: x[0] == "attr" and x[2] == "after_digest")))
                rep.check(ok, "commit-contiguous", "coordination descriptor (" + ("sharded" if shard else "replicated") + ")", n.where(),
                          "ranks compare too little of the commit: policy, count and position must be part of the descriptor")


def tokens(P, rep, c, pol):
    R = "token-chain"
    m = c.find("next_transactional_batch")
    fl = flow(P, m, lambda f, call, x: pol(f, call, x) and f.name not in ("next_batch", "state", "_token_digest"), cls=c)
    rep.graph(fl)
    nb = method_calls(fl, "next_batch")
    if not nb:
        raise AnchorError("next_transactional_batch: planning call")
    tok = None
    for n, t in returns(fl):
        for a in subterms(norm(P, t)):
            if ctor_fields(P, a) and a[1].endswith("PlannerBatchToken"):
                tok, rn = ctor_fields(P, a), n
    if tok is None:
        raise AnchorError("next_transactional_batch: token")
    exp = {"before_" + r: {A(SELF, y)} for r, y in YLD.items()}
    exp["after_pipeline_blob"] = {A(SELF, YLD["pipeline_blob"])}
    for f, w in exp.items():
        got = set(alts(norm(P, tok.get(f, ("?",)))))
        rep.check(got <= w, R, f"token {f}", m.where(), f"a new batch's {f} must be the delivered position before it, got {sorted(map(show, got))}")
    st = set(alts(norm(P, tok.get("after_state", ("?",)))))
    okst = any(x[0] == "mcall" and x[2] == "state" for x in st) and all(x == ("const", None) or (x[0] == "mcall" and x[2] == "state" and x[1] == SELF) for x in st)
    rep.check(okst, R, "token after_state", m.where(), "the resulting cursor must be captured from the live planner")
    for n in method_calls(fl, "state"):
        rep.check(fl.find_path([fl.g.entry], [n], avoid=nb, skip_labels=("exc", "excb")) is None, R, "cursor captured after planning", n.where(),
                  "the resulting cursor is captured before the batch was planned")
    for f, src in (("epoch", "epoch"), ("batch_index", "batch_index"), ("batch", None)):
        got = norm(P, tok.get(f, ("?",)))
        b = got[1] if src and got[0] == "attr" else got
        rep.check((not src or got[0] == "attr" and got[2] == src) and b[0] == "mcall" and b[2] == "next_batch", R, f"token {f}", m.where(),
                  f"token {f} must come from the planned batch, got {show(got)[:80]}")
    # reads of the yield trio happen before next_batch / stores
    for role, y in YLD.items():
        if role == "pipeline_blob":
            continue
        vals, unset = last_values(fl, y, at=rn)
        want = norm(P, tok.get("after_" + role))
        ok = bool(vals) and not unset and all(norm(P, v) == want for n, v in vals)
        rep.check(ok, R, f"delivered {role} advances", m.where(), f"after delivering a batch the delivered {role} must be the batch's after_{role}")
    # digest call arguments
    dg = tok.get("after_digest", ("?",))
    rep.check(dg[0] == "mcall" and dg[2] == "_token_digest" and len(dg[3]) >= 3 and dg[3][0] == A(SELF, YLD["digest"]) and
              has(dg[3][1], lambda t: t[0] == "mcall" and t[2] == "next_batch") and dg[3][2] == A(SELF, YLD["pipeline_blob"])
              or dg[0] != "mcall", R, "token digest inputs", m.where(), "the resulting digest must chain from the digest before it, this batch and its pipeline state")

    # prepare_pipeline_batch
    m = c.find("prepare_pipeline_batch")
    fl = flow(P, m, lambda f, call, x: pol(f, call, x) and f.name not in ("_token_digest",), cls=c)
    rep.graph(fl)
    tk = ("param", m.params[2])
    prep = method_calls(fl, "prepare_batch")
    if not prep:
        raise AnchorError("prepare_pipeline_batch: composer call")
    cur = fl.arg(prep[0], 3, "current_blob")
    rep.check(cur == A(tk, "before_pipeline_blob"), R, "pipeline starts from the batch's own state", prep[0].where(),
              f"a batch's pipelines must run from the pipeline state before that batch, got {show(cur) if cur else None}")
    guard_eq(P, rep, fl, prep, A(tk, "after_digest"), A(SELF, YLD["digest"]), R, "pipelines run only on the latest delivered batch")
    for role in ("digest", "pipeline_blob"):
        vals, unset = last_values(fl, YLD[role])
        rets = [x for n, t in returns(fl) for x in subterms(norm(P, t)) if x[0] == "call" and x[1].endswith("replace")]
        want = {dict(x[3]).get("after_" + role) for x in rets}
        ok = bool(vals) and all(norm(P, v) in want for n, v in vals) and want and None not in want
        p = None
        if ok:
            p = fl.find_path(prep, [fl.g.exit], avoid=[n for n, v in vals], skip_labels=("exc", "excb"))
        rep.check(ok and p is None, R, f"pipeline result advances delivered {role}", m.where(),
                  f"the delivered {role} must become the token's after_{role} once its pipelines ran")
    # finalize_terminal_token
    m = c.find("finalize_terminal_token")
    fl = flow(P, m, lambda f, call, x: pol(f, call, x) and f.name not in ("_token_digest", "state"), cls=c)
    rep.graph(fl)
    tk = ("param", m.params[1])
    ret = [(n, norm(P, t)) for n, t in returns(fl)]
    st = [n for n, a, v in self_stores(fl, YLD["digest"])]
    guard_eq(P, rep, fl, st, A(tk, "after_digest"), A(SELF, YLD["digest"]), R, "only the latest delivered batch can become terminal")
    for n, t in ret:
        r = [x for x in subterms(t) if x[0] == "call" and x[1].endswith("replace") and x[2][:1] == (tk,)]
        kw = dict(r[0][3]) if r else {}
        rep.check(bool(r) and "after_digest" in kw and "after_state" in kw and "batch" in kw, R, "terminal token rebuilt", n.where(),
                  "marking the last batch must refresh its batch, cursor and digest together")
        for role in ("digest", "state"):
            vals, unset = last_values(fl, YLD[role])
            rep.check(bool(vals) and not unset and all(norm(P, v) == kw.get("after_" + role) for _, v in vals), R, f"terminal {role} delivered", n.where(),
                      f"the delivered {role} must follow the terminal token")
        d = kw.get("after_digest")
        if d and d[0] == "mcall" and d[2] == "_token_digest":
            rep.check(d[3][0] == A(tk, "before_digest") and d[3][2] == A(tk, "after_pipeline_blob") and d[3][1] == kw.get("batch"), R,
                      "terminal digest inputs", n.where(), "the terminal digest must bind the same start, the terminal batch and its pipeline state")


def guard_eq(P, rep, fl, targets, a, b, rule, what):
    from sa.flow import cmp_, negate
    want = cmp_("==", a, b)
    gs = []
    for g in fl.g.live:
        if g.kind == "cond" and g.expr is not None:
            t = fl.term(g, g.expr)
            if t == want and rejects(fl, g, "F"):
                gs.append(g)
            elif negate(t) == want and rejects(fl, g, "T"):
                gs.append(g)
    ok = bool(gs) and bool(targets) and all(fl.find_path([fl.g.entry], [t], avoid=gs, skip_labels=("exc", "excb")) is None for t in targets)
    rep.check(ok, rule, what, fl.g.root.where(), f"must reject unless {show(a)} == {show(b)}")


def digest(P, rep, c, pol):
    R = "digest-binds"
    m = c.find("_token_digest")
    if m is None:
        raise AnchorError("token digest function")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    pr = [("param", x) for x in m.params[1:]]
    before, batch, blob = pr
    upd = []
    for n in fl.g.live:
        if n.kind == "call" and n.call is not None and isinstance(n.call.func, ast.Attribute):
            if n.call.func.attr == "update" or n.call.func.attr.startswith("update_"):
                upd.append((n, n.call.func.attr, [fl.term(n, a) for a in n.call.args]))
    hx = [t for n, t in returns(fl)]
    need = {
        "previous digest": lambda t: contains(t, before),
        "epoch": lambda t: contains(t, A(batch, "epoch")),
        "batch index": lambda t: contains(t, A(batch, "batch_index")),
        "last-batch flag": lambda t: contains(t, A(batch, "is_last")),
        "record count": lambda t: has(t, lambda x: x[0] == "call" and x[1] == "len" and x[2] in ((A(batch, "envelopes"),), (A(batch, "is_real"),))),
        "pipeline state": lambda t: contains(t, blob) and not has(t, lambda x: x[0] == "call" and x[1] == "len"),
        "records": lambda t: contains(t, A(batch, "envelopes")) and not has(t, lambda x: x[0] == "call" and x[1] == "len"),
        "padding mask": lambda t: contains(t, A(batch, "is_real")),
    }
    rep.floor("digest updates", len(upd), 5)
    for name, f in need.items():
        ns = [n for n, k, args in upd if any(f(a) for a in args)]
        ns += [g for g in fl.g.live if g.kind == "cond" and name == "padding mask" and g.expr is not None and f(fl.term(g, g.expr))]
        loops = [h for h in fl.g.live if h.kind == "for" and any(n.id in fl.loop_body(h) for n in ns)]
        p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=ns + loops, skip_labels=("exc", "excb"))
        # inside per-record loops no iteration may skip it
        skip = None
        for h in loops:
            inner = [n for n in ns if n.id in fl.loop_body(h)]
            skip = skip or fl.find_path([h], [h], avoid=inner, src_labels=("it",), skip_labels=("exc", "excb"))
        rep.check(bool(ns) and p is None and skip is None, R, name, m.where(), f"two different batches that differ only in their {name} can share a digest")
    rep.check(all(has(t, lambda x: x[0] == "mcall" and x[2] == "hexdigest") for t in hx), R, "full digest", m.where(), "the full digest must be returned")
    # initial digest
    m = c.find("_initial_digest")
    fl = flow(P, m, pol, cls=c)
    t = retval(fl)
    for name, f in {
        "manifest": lambda x: x == A(SELF, "_manifest_digest"), "runtime contract": lambda x: x[0] == "attr" and x[2] == "global_contract",
        "configuration": lambda x: x == A(SELF, "config"), "epoch": lambda x: x == ("param", m.params[1]),
        "pipeline state": lambda x: x == A(SELF, DUR["pipeline_blob"]),
    }.items():
        rep.check(has(t, f), R, f"epoch-start {name}", m.where(), f"the epoch-start digest does not depend on the {name}")


def epoch(P, rep, c, pol):
    R = "epoch-advance"
    m = c.find("begin_next_epoch")
    fl = flow(P, m, lambda f, call, x: pol(f, call, x) and f.name not in ("start_epoch", "_initial_digest", "state"), cls=c)
    rep.graph(fl)
    se = method_calls(fl, "start_epoch")
    if not se:
        raise AnchorError("begin_next_epoch: start_epoch call")
    guard_eq(P, rep, fl, se, A(SELF, YLD["digest"]), A(SELF, DUR["digest"]), R, "all delivered batches are committed")
    gs = []
    for g in fl.g.live:
        if g.kind == "cond" and g.expr is not None:
            t = fl.term(g, g.expr)
            if t in (A(SELF, "finished"), A(SELF, "_finished")) and rejects(fl, g, "F"):
                gs.append(g)
    rep.check(bool(gs) and all(fl.find_path([fl.g.entry], [s], avoid=gs, skip_labels=("exc", "excb")) is None for s in se), R,
              "the epoch is finished", m.where(), "an unfinished epoch can be abandoned for the next one")
    a = fl.arg(se[0], 0)
    rep.check(a is not None and a[0] == "bin" and a[1] == "Add" and ("const", 1) in a[2:] and any(x in (A(SELF, "epoch"), A(SELF, "_epoch")) for x in a[2:]),
              R, "epoch number advances by one", se[0].where(), f"next epoch number is {show(a) if a else None}")
    for role in ("state", "digest"):
        for tgt in (DUR[role], YLD[role]):
            vals, unset = last_values(fl, tgt)
            rep.check(bool(vals) and not unset and all(fl.find_path([fl.g.entry], [n], avoid=se, skip_labels=("exc", "excb")) is None for n, v in vals),
                      R, f"{tgt} reset to the new epoch", m.where(), f"{tgt} must be re-established after the new epoch was started")
    vals, unset = last_values(fl, YLD["pipeline_blob"])
    rep.check(bool(vals) and not unset and all(v == A(SELF, DUR["pipeline_blob"]) for n, v in vals), R, "pipeline state carried over", m.where(),
              "the delivered pipeline state must restart from the committed one")


def delivery(P, rep):
    R = "train-never-self-commits"
    c = P.cls("dataset.source_dataset:SourceBatchDataset")
    it = c.find("__iter__")
    pol = within("dataset.source_dataset")
    fl = flow(P, it, pol, cls=c)
    rep.graph(fl)
    cnt = 0
    for n in fl.g.live:
        if n.kind == "call" and n.call is not None and isinstance(n.call.func, ast.Attribute) and \
                n.call.func.attr in ("commit_batch", "commit_prepared"):
            cnt += 1
            facts = fact_at(fl, n)
            ok = any(a[0] == "cmp" and a[1] == "!=" and ("const", "train") in a[2:] and has(a, lambda x: x[0] == "attr" and x[2] == "mode") for a in facts) \
                or any(a[0] == "cmp" and a[1] in ("==",) and ("const", "train") not in a[2:] and has(a, lambda x: x[0] == "attr" and x[2] == "mode")
                       and any(x[0] == "const" for x in a[2:]) for a in facts)
            rep.check(ok, R, f"self-commit in {n.ctx.func.name}", n.where(), "a delivered training batch is committed before the trainer applied it")
    # non-generator helpers reached by the lazily evaluated generators
    seen = {f for f in fl.g.inlined}
    for m in all_methods(c):
        if m in seen or m is it:
            continue
        f2 = flow(P, m, pol, cls=c)
        for n in f2.g.live:
            if n.kind == "call" and n.call is not None and isinstance(n.call.func, ast.Attribute) and n.call.func.attr in ("commit_batch", "commit_prepared"):
                cnt += 1
                facts = fact_at(f2, n)
                ok = any(a[0] == "cmp" and a[1] == "!=" and ("const", "train") in a[2:] and has(a, lambda x: x[0] == "attr" and x[2] == "mode") for a in facts)
                rep.check(ok, R, f"self-commit in {m.name}/{n.ctx.func.name}", n.where(), "a delivered training batch is committed before the trainer applied it")
    rep.floor("self-commit sites", cnt, 1)
    # evaluation must commit each delivered batch (otherwise the next epoch cannot start)
    R = "abandon-rolls-back"
    fl = flow(P, it, lambda f, call, x: False, cls=c)
    roll = method_calls(fl, "rollback_uncommitted")

    def nonres(x, y, l):
        if x.kind != "cond" or x.expr is None:
            return False
        t = fl.term(x, x.expr)
        return has(t, lambda q: q[0] == "attr" and q[2] == "resumable") and ((l == "F") == (t[0] != "not"))
    fl = flow(P, it, lambda f, call, x: pol(f, call, x) and not f.is_gen, cls=c)
    roll = method_calls(fl, "rollback_uncommitted")
    ys = [n for n in fl.g.live if n.kind == "yield"]
    p = fl.find_path([fl.g.entry], [fl.g.raise_exit], avoid=roll,
                     avoid_edge=lambda x, y, l: x in roll or nonres(x, y, l), via=ys, via_labels=("exc",), skip_labels=("excb",)) if ys else None
    rep.check(bool(ys) and bool(roll) and p is None, R,
              "abandoned iteration rolls back", it.where(), "iteration can be abandoned with delivered-but-uncommitted batches left applied: " + path_str(p))
