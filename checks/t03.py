"""T03: a background checkpoint save freezes the save point, writes in order, and its failure fails the run."""
import ast
from sa.flow import alts, contains, flow, has, show, subterms
from sa.lib import calls, norm, path_str, retval, returns
from sa.project import AnchorError
from sa.rules import (NORMAL, argval, covers_all, edges, either, ends, every_round, falsy, inner_loop, mentions, method,
                      must_pass, once_per_round, stores_to, truthy, whole)
from checks.t06 import EVENTS, const_true, quiet_edge

SELF = ("self",)
PAY = ("param", "payloads")


def run(P, rep):
    rep.rule("one-save-at-a-time", "a new save starts only after the previous one has finished and its failure has been raised")
    rep.rule("frozen-snapshot", "every tensor is copied at the save point: the copy waits for pending compute, later compute waits for the copy, the writer waits for the copy")
    rep.rule("copy-everything", "staging copies every tensor of every nested container and keeps structure and order")
    rep.rule("write-order", "files are committed in the order given (models before the training state), clean-up only after all of them succeeded")
    rep.rule("failure-surfaces", "a failed background write is kept and raised at the next flush, which every save and every end of a run performs")
    rep.rule("own-destination", "each file's writer keeps its own destination path")
    c = P.cls("utils.async_checkpoint:AsyncCheckpointWriter")
    submit(P, rep, c)
    writer(P, rep, c)
    flush(P, rep, c)
    stage(P, rep)
    b = P.cls("trainer.base:BaseTrainer")
    save(P, rep, b)
    payloads(P, rep, b)
    end_of_run(P, rep, b)


def callsto(fl, pred):
    """calls of a local callable (closure variable / tuple element) whose callee term satisfies pred"""
    out = []
    for n in fl.g.live:
        if n.kind == "call" and n.call is not None and n.note != "inlined" and pred(fl.term(n, n.call.func)):
            out.append(n)
    return out


def is_finalize(t, src):
    return t[0] == "item" and t[2] == 1 and has(t, lambda x: x == src)


def submit(P, rep, c):
    m = need(c, "submit")
    mod = m.module.name
    fl = flow(P, m, lambda f, call, x: f.module.name == mod and f.name not in ("flush", "_stage_tree", "_write"), cls=c)
    rep.graph(fl)
    fl0 = fl
    fin = callsto(fl, lambda t: is_finalize(t, PAY))
    hook = callsto(fl, lambda t: t == ("param", "post_hook"))
    start = method(fl, "start")
    flushes = method(fl, "flush", recv=lambda t: t == SELF)
    stg = [n for n in calls(fl, lambda x: x and x[1].endswith("_stage_tree"), True)]
    for nm, nodes in (("direct write", fin), ("background writer", start), ("snapshot", stg)):
        rep.floor(nm, len(nodes), 1)
        p = must_pass(fl, [fl.g.entry], nodes, flushes)
        rep.check(bool(flushes) and p is None, "one-save-at-a-time", f"{nm} follows a flush of the previous save", m.where(),
                  "started while the previous save may still be writing: " + path_str(p))
    # every normal path writes everything: directly or by the thread
    good = covers_all_paths(fl, fin, lambda t: t == PAY)
    heads = [h for _, h in good if h is not None]
    rep.check(len(heads) > 0, "write-order", "direct path writes every payload in order", m.where(), "no loop over all payloads")
    p = must_pass(fl, [fl.g.entry], [fl.g.exit], heads + start)
    rep.check(p is None, "copy-everything", "every submitted save is written", m.where(), "a save can be dropped: " + path_str(p))
    nohook = edges(fl, falsy(lambda t: t == ("param", "post_hook")))
    if heads:
        p = fl.find_path(heads, [fl.g.exit], avoid=hook, avoid_edge=nohook, skip_labels=NORMAL)
        rep.check(bool(hook) and p is None, "write-order", "clean-up runs after a direct save", m.where(), path_str(p))
    for n in hook:
        p = fl.find_path([n], fin + start, skip_labels=NORMAL)
        rep.check(p is None, "write-order", "clean-up runs after the writes", n.where(), "clean-up can run before a file is written: " + path_str(p))
        p = fl.find_path(fin, [n], src_labels=("exc",), skip_labels=())
        rep.check(p is None, "write-order", "no clean-up after a failed direct write", n.where(), path_str(p))
    for n in fin:
        a = argval(fl, n, 0, None, ("const", None))
        rep.check(a[0] == "item" and a[2] == 0 and a[1] == fl.term(n, n.call.func)[1], "write-order", "each writer gets its own payload", n.where(), f"gets {show(a)[:80]}")
        p = fl.find_path([n], [fl.g.exit], src_labels=("exc",), skip_labels=())
        rep.check(p is None, "failure-surfaces", "failure of a direct write is raised", n.where(), path_str(p))
    # background path
    CP = ("attr", SELF, "_copy_stream")
    ws = [n for n in method(fl, "wait_stream", recv=lambda t: t == CP)]
    comp = lambda t: has(t, lambda x: x[0] == "call" and x[1] == "torch.cuda.current_stream")
    ws = [n for n in ws if comp(argval(fl, n, 0, "stream", ("const", None)))]
    p = must_pass(fl, [fl.g.entry], stg, ws)
    rep.check(bool(ws) and p is None, "frozen-snapshot", "the copy waits for pending compute", m.where(), "tensors are copied before queued updates finish: " + path_str(p))
    recs = method(fl, "record", recv=lambda t: has(t, lambda x: x[0] == "call" and x[1].endswith("Event")))
    recs = [n for n in recs if argval(fl, n, 0, "stream", ("const", None)) == CP]
    p = must_pass(fl, [fl.g.entry], start, recs)
    rep.check(bool(recs) and p is None, "frozen-snapshot", "completion of the copy is recorded", m.where(), path_str(p))
    for n in recs:
        p = fl.find_path([n], stg, skip_labels=NORMAL)
        rep.check(p is None, "frozen-snapshot", "recorded after the whole copy was queued", n.where(), "the event does not cover all copies: " + path_str(p))
    we = method(fl, "wait_event", recv=comp)
    we = [n for n in we if has(argval(fl, n, 0, "event", ("const", None)), lambda x: x[0] == "call" and x[1].endswith("Event"))]
    p = must_pass(fl, stg, [fl.g.exit], we + fin, edge=None)
    # on the background path
    p = fl.find_path(stg, start, avoid=we, skip_labels=NORMAL) if not we else None
    after = fl.find_path(start, [fl.g.exit], avoid=we, skip_labels=NORMAL)
    before = fl.find_path([fl.g.entry], start, avoid=we, skip_labels=NORMAL)
    rep.check(bool(we) and (after is None or before is None), "frozen-snapshot", "later compute waits for the copy", m.where(),
              "training may overwrite tensors before they are copied")
    for n in we:
        p = fl.find_path([fl.g.entry], [n], avoid=recs, skip_labels=NORMAL)
        rep.check(p is None, "frozen-snapshot", "compute waits on a recorded event", n.where(), path_str(p))
    # thread arguments
    th = [n for n in calls(fl, lambda x: x and x[0] == "global" and x[1].endswith("threading.Thread"), True)]
    rep.floor("background thread", len(th), 1)
    for n in th:
        a = argval(fl, n, None, "args", ("const", None))
        tgt = argval(fl, n, None, "target", ("const", None))
        st = a[1] if a[0] == "seq" and len(a) > 1 else ("const", None)
        rep.check(tgt == ("attr", SELF, "_write"), "failure-surfaces", "the writer thread runs the guarded writer", n.where(), show(tgt)[:60])
        okc = st[0] == "comp" and len(st[3]) == 1 and whole(st[3][0], lambda t: t == PAY) and not st[4] and st[2][0] == "seq" and len(st[2]) == 3 \
            and has(st[2][1], lambda x: x[0] == "call" and x[1].endswith("_stage_tree") and x[2] and x[2][0] == ("item", ("elem", PAY), 0)) and st[2][2] == ("item", ("elem", PAY), 1)
        rep.check(okc, "copy-everything", "all payloads are staged and written in order by the thread", n.where(), f"thread gets {show(st)[:120]}")
        rep.check(a[0] == "seq" and len(a) == 4 and a[2] == ("param", "post_hook") and has(a[3], lambda x: x[0] == "call" and x[1].endswith("Event")),
                  "write-order", "the thread gets clean-up hook and copy event", n.where(), show(a)[:120])
        kw = {k.arg for k in n.call.keywords}
        d = argval(fl, n, None, "daemon", ("const", False))
        rep.check(not const_true(d), "failure-surfaces", "the process waits for the writer thread", n.where(), "daemon thread: a save is cut off at exit")
    # the memo maps staged tensors of all payloads
    memo = {argval(fl, n, 1, None, ("const", None)) for n in stg}
    for t in memo:
        rep.check(not has(t, lambda x: x[0] in ("attr", "global", "param")), "frozen-snapshot", "copies are shared only within one save", m.where(),
                  f"{show(t)[:60]} outlives the save: a later save could reuse old copies")
    for n in stg:
        s = argval(fl, n, 2, "stream", ("const", None))
        rep.check(s == CP, "frozen-snapshot", "copies are queued on the copy stream", n.where(), f"queued on {show(s)[:50]}")
    keep = [n for n, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_thread")) if v != ("const", None)]
    p1 = must_pass(fl, [fl.g.entry], start, keep)
    p2 = fl.find_path(start, [fl.g.exit], avoid=keep, skip_labels=NORMAL)
    rep.check(bool(keep) and (p1 is None or p2 is None), "one-save-at-a-time", "the running writer is remembered", m.where(), "a started writer could never be joined")
    # out-of-memory fallback
    syn = method(fl, "synchronize", recv=lambda t: t == CP)
    handled = [n for n in fl.g.live if n.kind == "handler"]
    for n in fin:
        rep.check(any(x is n for x, _ in good), "write-order", "every direct path writes every payload", n.where(), "only some files are written")
    for h in handled:
        p = fl.find_path([h], [fl.g.exit], avoid=[hd for _, hd in good], skip_labels=NORMAL)
        rep.check(p is None, "copy-everything", "a failed staging still writes the files", h.where(), "the save is dropped: " + path_str(p))
        p = fl.find_path([h], fin, avoid=syn, skip_labels=NORMAL)
        rep.check(p is None, "frozen-snapshot", "a failed staging is drained before writing directly", h.where(), path_str(p))


def covers_all_paths(fl, nodes, pred):
    good = []
    for n in nodes:
        h = inner_loop(fl, n)
        if h is None:
            continue
        if whole(fl.term(h, h.expr), pred) and every_round(fl, h, nodes) is None and once_per_round(fl, h, n) is None:
            good.append((n, h))
    return good


def need(c, name):
    m = c.find(name)
    if m is None:
        raise AnchorError(f"{c.qual}.{name}")
    return m


def writer(P, rep, c):
    m = need(c, "_write")
    mod = m.module.name
    fl = flow(P, m, lambda f, call, x: f.module.name == mod, cls=c)
    rep.graph(fl)
    ps = m.all_params
    ps = ps() if callable(ps) else ps
    names = [a if isinstance(a, str) else a.arg for a in ps if (a if isinstance(a, str) else a.arg) != "self"]
    if len(names) < 3:
        raise AnchorError("_write parameters")
    staged, hookp, ev = (("param", x) for x in names[:3])
    fin = callsto(fl, lambda t: is_finalize(t, staged))
    hook = callsto(fl, lambda t: t == hookp)
    rep.floor("writer finalizer", len(fin), 1)
    good = covers_all_paths(fl, fin, lambda t: t == staged)
    rep.check(bool(good), "write-order", "the writer commits every file in order", m.where(), "not every staged file is committed")
    syn = method(fl, "synchronize", recv=lambda t: t == ev)
    p = must_pass(fl, [fl.g.entry], fin, syn)
    rep.check(bool(syn) and p is None, "frozen-snapshot", "the writer waits for the copy", m.where(), "files may be written before the copy completed: " + path_str(p))
    for n in fin:
        a = argval(fl, n, 0, None, ("const", None))
        rep.check(a[0] == "item" and a[2] == 0 and a[1] == fl.term(n, n.call.func)[1], "write-order", "the writer passes the staged copy", n.where(), show(a)[:80])
    heads = [h for _, h in good]
    for n in hook:
        p = fl.find_path([fl.g.entry], [n], avoid=heads, skip_labels=())
        rep.check(p is None, "write-order", "background clean-up follows all commits", n.where(), path_str(p))
        p = fl.find_path([n], fin, skip_labels=())
        rep.check(p is None, "write-order", "background clean-up is last", n.where(), path_str(p))
        for f in fin:
            p = fl.find_path([f], [n], src_labels=("exc",), skip_labels=())
            rep.check(p is None, "write-order", "no background clean-up after a failed commit", n.where(), "old files may be pruned although the new ones are missing: " + path_str(p))
    nohook = edges(fl, falsy(lambda t: t == hookp))
    if heads:
        p = fl.find_path(heads, [fl.g.exit], avoid=hook, avoid_edge=nohook, skip_labels=NORMAL)
        rep.check(bool(hook) and p is None, "write-order", "background clean-up runs", m.where(), path_str(p))
    err = [n for n, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_error")) if v != ("const", None)]
    for n in fin + hook + syn:
        p = fl.find_path([n], [fl.g.exit], src_labels=("exc",), avoid=err, avoid_edge=quiet_edge([n]), skip_labels=())
        rep.check(bool(err) and p is None, "failure-surfaces", f"failure of the {'commit' if n in fin else 'clean-up' if n in hook else 'copy'} is kept", n.where(), "a failed background save is forgotten: " + path_str(p))
        p = fl.find_path([n], [fl.g.raise_exit], src_labels=("exc",), avoid=err, avoid_edge=quiet_edge([n]), skip_labels=())
        rep.check(p is None, "failure-surfaces", f"every kind of {'commit' if n in fin else 'clean-up' if n in hook else 'copy'} failure is kept", n.where(), "some exceptions end the writer thread unseen: " + path_str(p))


def flush(P, rep, c):
    m = need(c, "flush")
    fl = flow(P, m, lambda f, call, x: f.module is m.module, cls=c)
    rep.graph(fl)
    TH, ER = ("attr", SELF, "_thread"), ("attr", SELF, "_error")
    join = method(fl, "join", recv=lambda t: t == TH)
    nothread = edges(fl, falsy(lambda t: t == TH))
    conds = [n for n in fl.g.live if n.kind == "cond" and n.expr is not None and has(fl.term(n, n.expr), lambda x: x == ER)]
    if not conds:
        rep.bad("failure-surfaces", "flush examines the writer's failure", m.where(), "the stored failure is never examined")
    p = must_pass(fl, [fl.g.entry], conds + [fl.g.exit], join, edge=nothread)
    rep.check(bool(join) and p is None, "one-save-at-a-time", "flush waits for the writer before looking at its result", m.where(), path_str(p))
    for n in join:
        rep.check(not n.call.args and not n.call.keywords, "one-save-at-a-time", "flush waits without a time limit", n.where(), "the wait can give up")
    noerr = edges(fl, falsy(lambda t: t == ER))
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid_edge=noerr, skip_labels=NORMAL)
    rep.check(p is None, "failure-surfaces", "flush raises a stored failure", m.where(), "returns although the writer failed: " + path_str(p))
    ers = [n for n, t, v in stores_to(fl, lambda t: t == ER)]
    early = fl.find_path(ers, conds, skip_labels=NORMAL) if ers else None
    rep.check(early is None, "failure-surfaces", "a stored failure is not cleared before it is examined", m.where(), path_str(early))
    lost = [n for n, t, v in stores_to(fl, lambda t: t == TH) if v != ("const", None) and v != TH]
    rep.check(not lost, "one-save-at-a-time", "flush forgets only a joined writer", m.where(), "")


def stage(P, rep):
    f = P.func("utils.async_checkpoint:_stage_tree")
    fl = flow(P, f, lambda g, call, x: g.module is f.module and g is not f)
    rep.graph(fl)
    ps = [a.arg for a in f.node.args.args]
    obj = ("param", ps[0])
    rec = lambda t: t[0] == "call" and t[1].endswith(f.name)
    istensor = lambda t: t[0] == "call" and t[1] == "isinstance" and t[2][0] == obj and show(t[2][1]).endswith("Tensor")
    isdict = lambda t: t[0] == "call" and t[1] == "isinstance" and t[2][0] == obj and has(t[2][1], lambda x: x in (("builtin", "dict"), ("global", "dict"), ("name", "dict")) or show(x) == "dict")
    islist = lambda t: t[0] == "call" and t[1] == "isinstance" and t[2][0] == obj and has(t[2][1], lambda x: show(x) == "list")
    istup = lambda t: t[0] == "call" and t[1] == "isinstance" and t[2][0] == obj and has(t[2][1], lambda x: show(x) == "tuple")
    for nm, pred in (("tensor", istensor), ("dict", isdict), ("list", islist), ("tuple", istup)):
        conds = [n for n in fl.g.live if n.kind == "cond" and n.expr is not None and pred(fl.term(n, n.expr))]
        rep.check(bool(conds), "copy-everything", f"{nm} values are recognised", f.where(), f"no case for {nm} values")
    rets = returns(fl)
    for n, t in rets:
        for a in alts(t):
            if a == obj:
                # the value itself is returned: only when it is neither tensor nor container
                for nm, pred in (("tensor", istensor), ("dict", isdict), ("list", islist), ("tuple", istup)):
                    neg = edges(fl, falsy(pred))
                    p = fl.find_path([fl.g.entry], [n], avoid_edge=neg, skip_labels=NORMAL)
                    rep.check(p is None, "copy-everything", f"no live {nm} is passed through", n.where(), f"a live {nm} reaches the writer uncopied: " + path_str(p))
            elif a[0] == "comp":
                bad = a[4] or len(a[3]) != 1
                it = a[3][0] if a[3] else ("const", None)
                if a[1] == "dict":
                    ok = a[2][0] == "pair" and a[2][1] == ("elemkey", obj) and rec(a[2][2]) and a[2][2][2][0] == ("elemval", obj) and whole(it, lambda t: t == obj)
                else:
                    ok = rec(a[2]) and a[2][2][0] in (("elem", obj), ("idx", obj, ("index", obj))) and whole(it, lambda t: t == obj)
                rep.check(ok and not bad, "copy-everything", f"every element of a nested {'mapping' if a[1] == 'dict' else 'sequence'} is staged", n.where(), show(a)[:120])
            else:
                fresh = (a[0] == "mcall" and a[2] in ("clone", "get")) or (a[0] in ("call", "vcall", "key", "idx"))
                alias = a[0] == "mcall" and a[2] in ("detach", "view", "contiguous", "to", "cpu", "view_as", "data")
                rep.check(fresh and not alias, "copy-everything", "staged tensors are fresh copies", n.where(), f"returns {show(a)[:80]}")
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=[n for n, _ in rets], skip_labels=NORMAL)
    rep.check(p is None and any(obj in alts(t) for _, t in rets), "copy-everything", "plain values are kept", f.where(), "numbers and strings of a saved state are dropped: " + path_str(p))
    # device copies are queued on the stream
    cps = [n for n in method(fl, "copy_") if argval(fl, n, 0, None, ("const", None)) == obj]
    emp = [n for n in calls(fl, lambda c: c and c[0] == "global" and c[1].startswith("torch.empty"), True)]
    cl = method(fl, "clone", recv=lambda t: t == obj)
    if emp:
        fresh = {fl.term(n, n.call) for n in emp}
        p = fl.find_path(emp, [fl.g.exit], avoid=[n for n in cps if fl.recv(n) in fresh], skip_labels=NORMAL)
        rep.check(p is None, "copy-everything", "an allocated copy is filled", emp[0].where(), "an uninitialised tensor is written: " + path_str(p))
    hit = lambda t: t[0] == "mcall" and t[2] == "get" and t[1] == ("param", ps[1])
    miss = edges(fl, falsy(hit))
    for c in fl.g.live:
        for s, l in c.succ:
            if miss(c, s, l):
                p = fl.find_path([c], [fl.g.exit], src_labels=(l,), avoid=emp + cl, skip_labels=NORMAL)
                rep.check(p is None, "copy-everything", "a tensor not copied yet is copied", c.where(), "no copy is made: " + path_str(p))
    cpu = edges(fl, lambda a: a[0] == "cmp" and a[1] == "==" and ("const", "cpu") in a)
    ent = [n for n in fl.g.live if n.kind == "with_enter" and n.expr is not None and has(fl.term(n, n.expr), lambda x: x[0] == "call" and x[1].endswith("cuda.stream") and x[2] == (("param", ps[2]),))]
    if cps or cl:
        p = fl.find_path([fl.g.entry], cps + cl, avoid=ent, avoid_edge=cpu, skip_labels=NORMAL)
        rep.check(p is None, "frozen-snapshot", "device copies run on the copy stream", (cps + cl)[0].where(), "a device tensor is copied on another stream: " + path_str(p))
    # memo: keyed by identity, stored value is the copy
    for n, tgt, v, t, ctx in fl.stores():
        if tgt[0] == "sub" and tgt[1] == ("param", ps[1]):
            k = tgt[2]
            rep.check(k == ("call", "id", (obj,), ()), "copy-everything", "shared tensors are recognised by identity", n.where(), f"keyed by {show(k)[:60]}")
    for n in method(fl, "get", recv=lambda t: t == ("param", ps[1])):
        k = argval(fl, n, 0, None, ("const", None))
        rep.check(k == ("call", "id", (obj,), ()), "copy-everything", "shared tensors are looked up by identity", n.where(), f"keyed by {show(k)[:60]}")


EV = EVENTS | {"_flush_async_checkpoint_collectively", "_save_checkpoint_main", "_validate_committed_checkpoint_set", "_prepare_checkpoint_directory_collectively",
               "_runtime_generation_collectively", "_capture_vq_runtime_collectively", "_local_resume_state", "_validate_rank_resume_states",
               "_validate_current_vq_runtime_collision", "_run_synchronized_operation"}


def save(P, rep, b):
    m = need(b, "_save_checkpoint")
    fl = flow(P, m, lambda f, call, x: f.module is m.module and f.name not in EV, cls=b)
    rep.graph(fl)
    fls = method(fl, "_flush_async_checkpoint_collectively")
    rest = method(fl, "_validate_committed_checkpoint_set", "_run_synchronized_operation", "_capture_vq_runtime_collectively", "_prepare_checkpoint_directory_collectively")
    rest += [n for n in calls(fl, lambda x: x == ("global", "os.path.exists"), True)]
    p = must_pass(fl, [fl.g.entry], rest + [fl.g.exit], fls)
    rep.check(bool(fls) and p is None, "one-save-at-a-time", "a save first finishes the previous one", m.where(), path_str(p))
    ops = method(fl, "_run_synchronized_operation")
    done = [n for n, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_last_state_save_iteration"))]
    val = method(fl, "_validate_committed_checkpoint_set")
    p = must_pass(fl, [fl.g.entry], done, ops + val)
    rep.check(bool(done) and p is None, "write-order", "a state counts as saved only after its commit", m.where(), path_str(p))
    for n in ops + val:
        p = fl.find_path([n], done, src_labels=("exc",), avoid_edge=None, skip_labels=(), avoid=[]) if n in ops else None
        rep.check(p is None, "failure-surfaces", "a failed commit does not count as saved", n.where(), path_str(p))
    fail = [n for n, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_checkpoint_attempt_failed")) if const_true(v)]
    for n in ops:
        p = fl.find_path([n], [fl.g.raise_exit, fl.g.exit], src_labels=("exc",), avoid=fail, avoid_edge=quiet_edge([n]), skip_labels=())
        rep.check(p is None, "failure-surfaces", "a failed commit is remembered", n.where(), "a failed save may be retried on top of partial files: " + path_str(p))
        p = fl.find_path([n], [fl.g.exit], src_labels=("exc",), skip_labels=())
        rep.check(p is None, "failure-surfaces", "a failed commit is raised", n.where(), path_str(p))
    m = need(b, "_flush_async_checkpoint_collectively")
    fl = flow(P, m, lambda f, call, x: f.module is m.module and f.name not in ("_run_synchronized_operation",), cls=b)
    rep.graph(fl)
    ops = method(fl, "_run_synchronized_operation")
    fail = [n for n, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_checkpoint_attempt_failed")) if const_true(v)]
    p = must_pass(fl, [fl.g.entry], [fl.g.exit], ops)
    rep.check(bool(ops) and p is None, "failure-surfaces", "the collective flush flushes", m.where(), path_str(p))
    for n in ops:
        cb = [argval(fl, n, 1, "callback", ("const", None))]
        rep.check(mentions_name(cb[0], "_flush_async_checkpoint"), "failure-surfaces", "the collective flush joins the writer", n.where(), show(cb[0])[:80])
        p = fl.find_path([n], [fl.g.raise_exit, fl.g.exit], src_labels=("exc",), avoid=fail, avoid_edge=quiet_edge([n]), skip_labels=())
        rep.check(p is None, "failure-surfaces", "a failed background save is remembered", n.where(), path_str(p))
        p = fl.find_path([n], [fl.g.exit], src_labels=("exc",), skip_labels=())
        rep.check(p is None, "failure-surfaces", "a failed background save is raised", n.where(), path_str(p))
    m = need(b, "_flush_async_checkpoint")
    here = lambda f, call, x: f.module is m.module
    fl = flow(P, m, here, cls=b)
    rep.graph(fl)
    W = ("attr", SELF, "_async_checkpoint_writer")
    nowriter = edges(fl, falsy(lambda t: t == W))
    p = must_pass(fl, [fl.g.entry], [fl.g.exit], method(fl, "flush", recv=lambda t: t == W), edge=nowriter)
    rep.check(p is None, "failure-surfaces", "flushing reaches the writer", m.where(), path_str(p))
    m = need(b, "_get_checkpoint_writer")
    fl = flow(P, m, here, cls=b)
    has_w = edges(fl, truthy(lambda t: t == W))
    st = [n for n, t, v in stores_to(fl, lambda t: t == W)]
    p = fl.find_path([fl.g.entry], st, avoid_edge=edges(fl, falsy(lambda t: t == W)), skip_labels=NORMAL) if st else []
    rep.check(bool(st) and p is None, "one-save-at-a-time", "there is one writer per run", m.where(), "a writer with a save in flight can be replaced: " + path_str(p))
    # collective operation reports failures
    m = need(b, "_run_synchronized_operation")
    fl = flow(P, m, here, cls=b)
    rep.graph(fl)
    cb = callsto(fl, lambda t: t == ("param", "callback"))
    if not cb:
        rep.bad("copy-everything", "a synchronized operation is run", m.where(), "the operation is never called")
    for n in cb:
        p = fl.find_path([n], [fl.g.exit], src_labels=("exc",), skip_labels=())
        # only through the test that no rank reported an error
        gath = lambda t: t[0] == "call" and t[1].endswith("gather_object")
        none = edges(fl, falsy(lambda t: has(t, gath)))
        p = fl.find_path([n], [fl.g.exit], src_labels=("exc",), avoid_edge=none, skip_labels=())
        rep.check(p is None, "failure-surfaces", "an operation's failure is shared by every process and raised", n.where(), path_str(p))
        for g in calls(fl, lambda x: x and x[0] == "global" and x[1].endswith("gather_object"), True):
            t = argval(fl, g, 0, "object", ("const", None))
            rep.check(has(t, lambda x: x[0] == "fstr"), "failure-surfaces", "what is shared is the failure", g.where(), show(t)[:120])
        for g in fl.g.live:
            if g.kind == "cond" and g.expr is not None:
                for x in subterms(fl.term(g, g.expr)):
                    if x[0] == "comp" and has(x, gath):
                        el = x[3][0] if x[3] else ("const", None)
                        fil = x[4] if len(x) > 4 else ()
                        ok = whole(el, gath) and all(f[0] == "cmp" and f[1] in ("is not", "!=") and ("const", None) in f or f[0] in ("elem", "idx") for f in fil)
                        rep.check(bool(ok), "failure-surfaces", "no process's failure is left out", g.where(), show(x)[:120])
    mpo, ismain = (lambda t: t == ("param", "main_process_only")), ends("is_main_process")
    p = fl.find_path([fl.g.entry], cb, avoid_edge=either(edges(fl, falsy(mpo)), edges(fl, truthy(ismain))), skip_labels=NORMAL)
    rep.check(p is None, "write-order", "main-process operations run on the main process only", m.where(), path_str(p))
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=cb, avoid_edge=edges(fl, falsy(ismain)), skip_labels=NORMAL)
    rep.check(p is None, "copy-everything", "the main process always runs the operation", m.where(), path_str(p))
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=cb, avoid_edge=edges(fl, truthy(mpo)), skip_labels=NORMAL)
    rep.check(p is None, "copy-everything", "an operation for every process runs on every process", m.where(), path_str(p))
    d = dict(zip([x.arg for x in m.node.args.kwonlyargs], m.node.args.kw_defaults)).get("main_process_only")
    rep.check(d is None or const_true(("const", getattr(d, "value", None))) is False, "copy-everything", "operations are for every process unless stated", m.where(), "default changed")


def mentions_name(t, name):
    return has(t, lambda x: len(x) > 2 and x[2] == name or x[0] in ("lambda", "func", "closure") and name in repr(x))


def payloads(P, rep, b):
    m = need(b, "_save_checkpoint_main")
    fl = flow(P, m, lambda f, call, x: f.module is m.module and f.name not in ("_build_training_state", "_cleanup_checkpoints", "_checkpointed_models", "_get_checkpoint_writer", "_unwrap", "_state_path", "_model_ckpt_path"), cls=b)
    rep.graph(fl)
    sub = method(fl, "submit")
    rep.floor("submit", len(sub), 1)
    p = must_pass(fl, [fl.g.entry], [fl.g.exit], sub)
    rep.check(p is None, "copy-everything", "every save is submitted", m.where(), path_str(p))
    isstate = lambda n: has(argval(fl, n, 0, None, ("const", None)), lambda x: x[0] == "mcall" and x[2] == "_build_training_state")
    ismodel = lambda n: has(argval(fl, n, 0, None, ("const", None)), lambda x: x[0] == "mcall" and x[2] == "state_dict")
    apps = method(fl, "append")
    st = [n for n in apps if isstate(n)]
    md = [n for n in apps if ismodel(n) and n not in st]
    if st and md:
        p = fl.find_path(st, md, skip_labels=NORMAL)
        rep.check(p is None, "write-order", "model files precede the training state", md[0].where(), "the state file can be committed before a model file: " + path_str(p))
        covers_all(P, rep, fl, "copy-everything", "every model is saved", md, lambda t: t[0] == "mcall" and t[2] == "_checkpointed_models" or t == ("attr", SELF, "models"))
        for n in md:
            t = argval(fl, n, 0, None)
            rep.check(has(t, lambda x: x[0] == "mcall" and x[2] == "state_dict" and has(x, lambda y: y[0] in ("elemval", "idx") and "model" in repr(y))), "copy-everything", "the model's own weights are saved", n.where(), show(t)[:100])
    else:
        for n in sub:
            a = argval(fl, n, 0, "payloads", ("const", None))
            order = [("state" if has(x, lambda y: y[0] == "mcall" and y[2] == "_build_training_state") else "model" if has(x, lambda y: y[0] == "mcall" and y[2] == "state_dict") else "?") for x in (a[1:] if a[0] == "seq" else [a])]
            rep.check("state" in order and "model" in order and order.index("model") < order.index("state"), "write-order", "model files precede the training state", n.where(), f"order {order}")
    for n in sub:
        h = argval(fl, n, 1, "post_hook", ("const", None))
        rep.check(all(a == ("const", None) or a == ("attr", SELF, "_cleanup_checkpoints") for a in alts(h)) and h != ("const", None), "write-order", "pruning is the save's clean-up hook", n.where(), show(h)[:80])
    cl = method(fl, "_cleanup_checkpoints")
    p = fl.find_path([fl.g.entry], cl, avoid=[], skip_labels=NORMAL) if cl else None
    rep.check(p is None, "write-order", "pruning does not run before the files are written", m.where(), "pruning runs in the training loop while the writer may still be busy")
    # destinations: late-binding closures
    loopvars = set()
    for n in ast.walk(m.node):
        if isinstance(n, (ast.For,)):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    loopvars.add(x.id)
            inner = [x for x in ast.walk(n) if isinstance(x, (ast.Lambda, ast.FunctionDef))]
            for lam in inner:
                bound = {a.arg for a in lam.args.args + lam.args.kwonlyargs}
                body = lam.body if isinstance(lam.body, list) else [lam.body]
                loc = {x.id for bb in body for x in ast.walk(bb) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                free = {x.id for bb in body for x in ast.walk(bb) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} - bound - loc
                late = sorted(free & loopvars)
                rep.check(not late, "own-destination", "a file's writer keeps the loop values of its own model", m.where(lam) if hasattr(m, "where") else "", f"{', '.join(late)} is read when the file is written, after the loop moved on")
    # destination and content of each finalizer
    for n, kind in [(x, "model") for x in md] + [(x, "state") for x in st]:
        a = argval(fl, n, 0, None)
        want = "_model_ckpt_path" if kind == "model" else "_state_path"
        lam = next((x for x in ast.walk(n.call) if isinstance(x, (ast.Lambda, ast.Name)) and isinstance(x, ast.Lambda)), None)
        if lam is not None:
            ds = [fl.term(n, d) for d in lam.args.defaults]
            dest = [d for d in ds if has(d, lambda x: x[0] == "mcall" and x[2] == want)]
            body_self = any(isinstance(x, ast.Attribute) and x.attr == want for x in ast.walk(lam.body))
            free_ok = dest or body_self or any(has(fl.term(n, ast.Name(x.id, ast.Load())), lambda y: y[0] == "mcall" and y[2] == want) for x in ast.walk(lam.body) if isinstance(x, ast.Name) and x.id not in {q.arg for q in lam.args.args})
            rep.check(bool(free_ok), "own-destination", f"the {kind} is written to its {kind} path", n.where(), f"destination {[show(d)[:50] for d in ds]}")
            for d in dest:
                it = [y for y in subterms(d) if y[0] == "mcall" and y[2] == want][0]
                rep.check(any(has(z, lambda q: q == ("attr", ("attr", SELF, "state"), "iteration")) for z in it[3]), "own-destination", f"the {kind} path names the current iteration", n.where(), show(d)[:80])
            # the first parameter (staged copy) is what is written
            first = lam.args.args[0].arg if lam.args.args else None
            used = any(isinstance(x, ast.Name) and x.id == first for x in ast.walk(lam.body))
            rep.check(used, "frozen-snapshot", f"the {kind} file is written from the staged copy", n.where(), "the writer ignores the copy it is given")
            live = [x for x in ast.walk(lam.body) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr not in (want,)]
            rep.check(not live, "frozen-snapshot", f"the {kind} writer reads no live training state", n.where(), f"reads self.{live[0].attr if live else ''} when the file is written")


def end_of_run(P, rep, b):
    m = need(b, "run")
    ev = EV | {"_drain_pending_step_validity", "_shutdown_resources", "_run_train_step"}
    fl = flow(P, m, lambda f, call, x: f.module is m.module and f.name not in ev, cls=b)
    rep.graph(fl)
    sv = method(fl, "_save_checkpoint")
    fls = method(fl, "_flush_async_checkpoint_collectively")
    p = must_pass(fl, sv, [fl.g.exit], fls)
    rep.check(bool(sv) and bool(fls) and p is None, "failure-surfaces", "a finished run has all its files on disk", m.where(), "the run can end successfully while a save is still being written: " + path_str(p))
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=fls, skip_labels=NORMAL)
    rep.check(p is None, "failure-surfaces", "every successful run ends with a flush", m.where(), path_str(p))
    m = need(b, "_shutdown_resources")
    fl = flow(P, m, lambda f, call, x: f.module is m.module and f.name not in ("_flush_async_checkpoint", "_run_synchronized_operation"), cls=b)
    inner = [f for f in P.all_funcs if f.module is m.module and f.qual.startswith(m.qual) and f is not m]
    txt = any(isinstance(x, ast.Attribute) and x.attr == "_flush_async_checkpoint" for x in ast.walk(m.node))
    rep.check(txt, "failure-surfaces", "shutting down joins the writer", m.where(), "a save in flight is abandoned at shutdown")
    for f in inner:
        fl = flow(P, f, None, cls=b)
        ff = method(fl, "_flush_async_checkpoint")
        if ff:
            p = must_pass(fl, [fl.g.entry], [fl.g.exit], ff)
            rep.check(p is None, "failure-surfaces", "shutting down always joins the writer", f.where(), path_str(p))
            for n in ff:
                p = fl.find_path([n], [fl.g.exit], src_labels=("exc",), avoid=method(fl, "append"), skip_labels=())
                rep.check(p is None, "failure-surfaces", "a failed background save fails the shutdown", n.where(), path_str(p))
