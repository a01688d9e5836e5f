"""O01: the chained optimizer gives every parameter to exactly one sub-optimizer and drives all of them consistently."""
from sa.flow import alts, contains, flow, has, show
from sa.lib import calls, norm, path_str, retval
from sa.project import AnchorError
from sa.rules import (NORMAL, argval, covers_all, edges, either, every_round, falsy, inner_loop, method, must_pass,
                      once_per_round, truthy, whole)

SELF = ("self",)
OPTS = ("attr", SELF, "optimizers")
GROUPS = ("attr", SELF, "param_groups")
IDX = "optimizer_and_param_group_indices"


def run(P, rep):
    rep.rule("partition", "every parameter is appended to the list of the first specification whose filter accepts it, once; none accepting is an error")
    rep.rule("group-index", "the (sub-optimizer, group) a parameter lands in is recorded on its parameter group")
    rep.rule("construct", "each sub-optimizer is built from its own specification and exactly the parameters selected for it")
    rep.rule("learning-rate", "a step copies each group's learning rate to every recorded sub-optimizer group before any sub-optimizer steps")
    rep.rule("step-all", "a step runs every sub-optimizer exactly once, without the closure, which is evaluated once")
    rep.rule("state-all", "state and gradient operations cover all sub-optimizers, matched by position")
    c = P.cls("utils.chained_optimizer:ChainedOptimizer")
    pol = lambda f, call, x: f.module.name == "utils.chained_optimizer"
    for name in ("__init__", "add_param_group"):
        m = need(c, name)
        fl = flow(P, m, pol, cls=c)
        rep.graph(fl)
        partition(P, rep, fl, m, name)
    stepping(P, rep, c, pol)
    state(P, rep, c, pol)


def need(c, name):
    m = c.methods.get(name) if hasattr(c, "methods") else c.find(name)
    if m is None:
        raise AnchorError(f"{c.qual if hasattr(c, 'qual') else c}.{name}")
    return m


def specs(t):
    return t in (("param", "optimizer_specs"), ("attr", SELF, "optimizer_specs"))


def partition(P, rep, fl, m, name):
    isparam = lambda t: t[0] == "elem" and t[1][0] == "key" and t[1][2] == "params"
    adds = [n for n in method(fl, "append") if isparam(argval(fl, n, 0, None, ("const", None)))]
    if not adds:
        rep.bad("partition", f"{name}: parameters assigned", m.where(), "no parameter is appended to a sub-optimizer's list")
        return
    filt = lambda t: (t[0] == "mcall" and t[2] == "param_filter") or (t[0] == "vcall" and has(t, lambda x: x[0] == "attr" and x[2] == "param_filter"))
    isnone = lambda a: a[0] == "cmp" and a[1] == "is" and has(a, lambda x: x[0] == "attr" and x[2] == "param_filter") and has(a, lambda x: x == ("const", None))
    accept = edges(fl, lambda a: filt(a) or isnone(a) or a[0] == "or" and all(filt(x) or isnone(x) for x in a[1:]))
    for n in adds:
        v = argval(fl, n, 0, None)
        loops = fl.loops_of(n)
        if len(loops) < 2:
            rep.bad("partition", f"{name}: search over the specifications", n.where(), "parameter assigned outside the search over specifications")
            continue
        inner, outer = loops[-1], loops[-2]
        it = fl.term(inner, inner.expr)
        rep.check(whole(it, specs) is not None, "partition", f"{name}: specifications searched in order", inner.where(), f"searches {show(it)[:100]}")
        ot = fl.term(outer, outer.expr)
        rep.check(whole(ot, lambda t: t[0] == "key" and t[2] == "params") is not None, "partition", f"{name}: every parameter of a group is assigned",
                  outer.where(), f"iterates {show(ot)[:100]}")
        p = fl.find_path([inner], [n], src_labels=("it",), avoid=[inner], avoid_edge=accept, skip_labels=NORMAL)
        rep.check(p is None, "partition", f"{name}: only an accepting specification takes a parameter", n.where(), "assigned without its filter accepting: " + path_str(p))
        gs = [g for g in fl.g.live if g.kind == "cond" and g.id in fl.loop_body(inner) and any(accept(g, None, l) for l in ("T", "F"))]
        for g in gs:
            for l in ("T", "F"):
                if accept(g, None, l):
                    p = fl.find_path([g], [inner, outer], src_labels=(l,), avoid=adds, skip_labels=NORMAL)
                    rep.check(p is None, "partition", f"{name}: the first accepting specification wins", g.where(), "an accepting specification is passed over: " + path_str(p))
        reject = edges(fl, falsy(filt))
        p = fl.find_path([inner], [inner], src_labels=("it",), avoid=adds, avoid_edge=reject, skip_labels=NORMAL)
        rep.check(p is None, "partition", f"{name}: a specification is passed over only when its filter rejects", inner.where(),
                  "a specification is passed over without its filter rejecting the parameter: " + path_str(p))
        p = fl.find_path([n], adds, avoid=[outer], skip_labels=NORMAL)
        rep.check(p is None, "partition", f"{name}: a parameter is assigned once", n.where(), "the same parameter can go to two sub-optimizers: " + path_str(p))
        p = every_round(fl, outer, adds)
        rep.check(p is None, "partition", f"{name}: a parameter nobody accepts is an error", outer.where(), "a parameter is silently left without an optimizer: " + path_str(p))
        # which list
        r = fl.recv(n)
        wi = whole(it, specs)
        idx = r[2] if r[0] == "idx" else None
        good = idx is not None and (idx[0] == "index" and specs(idx[1]) or (wi == "index" and idx[0] == "elem"))
        # a zip over (specs, lists) also matches by position
        good = good or isinstance(wi, tuple)
        rep.check(good, "partition", f"{name}: appended to the list of the accepting specification", n.where(), f"appended to {show(r)[:100]}")
        # index record
        recs = [x for x in method(fl, "add") if x.id in fl.loop_body(outer)]
        grp = ("const", 0) if name == "__init__" else None
        ok = []
        for x in recs:
            a = argval(fl, x, 0, None, ("const", None))
            if a[0] == "seq" and len(a) == 3 and idx is not None and a[1] == idx:
                if grp is not None and a[2] == grp:
                    ok.append(x)
                elif grp is None and a[2][0] == "call" and a[2][1] == "len" and a[2][2] and a[2][2][0] == ("attr", ("idx", OPTS, idx), "param_groups"):
                    ok.append(x)
        p = fl.find_path([outer], [outer], src_labels=("it",), avoid=ok, skip_labels=NORMAL) if ok else [outer]
        rep.check(bool(ok) and p is None, "group-index", f"{name}: each parameter's sub-optimizer and group recorded", n.where(),
                  "recorded pair missing or different from where the parameter goes: " + "; ".join(show(argval(fl, x, 0, None, ('const', None)))[:80] for x in recs))
        st = [(x, tgt, fl.storeval(x, v)) for x, tgt, v, t, cc in fl.stores() if tgt[0] == "sub" and tgt[2] == ("const", IDX) or tgt[0] == "sub" and IDX in repr(tgt[2])]
        fresh = [x for x, tgt, v in st if v[0] in ("call", "set", "comp")]
        rep.check(bool(fresh), "group-index", f"{name}: the record is stored on the parameter group", m.where(), "the parameter group keeps no record")
        if name == "__init__":
            gl = loops[0] if len(loops) > 2 else None
            rep.check(gl is not None and whole(fl.term(gl, gl.expr), lambda t: t == GROUPS) is not None, "partition", f"{name}: every parameter group is split",
                      n.where(), "parameter groups are skipped")
    lists = {fl.recv(n)[1] for n in adds if fl.recv(n)[0] == "idx"}
    if name == "__init__":
        ctor = [n for n in method(fl, "class_type")] + [n for n in calls(fl, lambda cc: cc and cc[0] == "var", True) if has(fl.term(n, n.call.func), lambda x: x[0] == "attr" and x[2] == "class_type")]
        if not ctor:
            rep.bad("construct", "sub-optimizers built", m.where(), "no sub-optimizer is constructed")
        apps = [n for n in method(fl, "append") if has(argval(fl, n, 0, None, ("const", None)), lambda x: x[0] == "mcall" and x[2] == "class_type" or x[0] == "vcall")]
        for n in ctor:
            h = inner_loop(fl, n)
            it = fl.term(h, h.expr) if h else ("const", None)
            pair = it[0] == "call" and it[1] == "zip" and len(it[2]) == 2 and specs(it[2][0]) and it[2][1] in lists
            a0 = argval(fl, n, 0, None, ("const", None))
            idxd = a0[0] == "idx" and a0[1] in lists
            rep.check(pair and (a0 == ("seq",) or has(a0, lambda x: x in lists)) or idxd, "construct", "specification and its parameters matched by position", n.where(),
                      f"built over {show(it)[:80]} from {show(a0)[:60]}")
            kw = dict((k or "**", fl.term(n, v)) for k, v in [(k.arg, k.value) for k in n.call.keywords])
            t = kw.get("**", ("const", None))
            rep.check(has(t, lambda x: x[0] == "attr" and x[2] == "init_args") and has(t, lambda x: x == ("const", "lr")) or "lr" in kw, "construct", "specification's own arguments used", n.where(), show(t)[:100])
            if t[0] == "dict":
                stars = [x for x in t[1:] if x[0] == ("**",)]
                last = stars[-1][1] if stars else ("const", None)
                rep.check(has(last, lambda x: x[0] == "attr" and x[2] == "init_args"), "construct", "specification's own arguments take precedence", n.where(), show(t)[:120])
            if h is not None:
                p = every_round(fl, h, ctor)
                rep.check(p is None, "construct", "every specification gets its sub-optimizer", n.where(), path_str(p))
                p = every_round(fl, h, apps)
                rep.check(bool(apps) and p is None, "construct", "every sub-optimizer is kept in order", n.where(), path_str(p))
    else:
        sub = [n for n in method(fl, "add_param_group") if fl.recv(n) != ("call", "super", (), ())]
        sub = [n for n in sub if has(fl.recv(n), lambda x: x == OPTS)]
        rep.floor("sub-optimizer group additions", len(sub), 1)
        for n in sub:
            h = inner_loop(fl, n)
            it = fl.term(h, h.expr) if h else ("const", None)
            pair = it[0] == "call" and it[1] == "zip" and len(it[2]) == 2 and it[2][0] == OPTS and it[2][1] in lists
            enum = whole(it, lambda t: t == OPTS) in ("enum", "index") and has(argval(fl, n, 0, None), lambda x: x[0] == "idx" and x[1] in lists)
            rep.check(pair or enum, "construct", "added parameters go to the sub-optimizer they were selected for", n.where(), f"over {show(it)[:100]}")
            if h:
                empty = edges(fl, falsy(lambda t: t == ("seq",) or has(t, lambda x: x in lists)))
                p = every_round(fl, h, sub, empty)
                rep.check(p is None, "construct", "every sub-optimizer with selected parameters gets the group", n.where(), path_str(p))
        sup = [n for n in method(fl, "add_param_group") if n not in sub]
        p = must_pass(fl, [fl.g.entry], [fl.g.exit], sup)
        rep.check(p is None, "partition", "the group is registered on the chained optimizer", m.where(), path_str(p))
        init = edges(fl, falsy(lambda t: t == OPTS))
        p = must_pass(fl, [fl.g.entry], [fl.g.exit], [h for n in sub for h in [inner_loop(fl, n)] if h], edge=init)
        rep.check(p is None, "construct", "groups added after construction reach the sub-optimizers", m.where(), path_str(p))


def stepping(P, rep, c, pol):
    m = need(c, "step")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    isopt = lambda t: t == ("elem", OPTS) or t[0] == "idx" and t[1] == OPTS and t[2][0] in ("index", "elem")
    st = method(fl, "step", recv=isopt)
    good = covers_all(P, rep, fl, "step-all", "every sub-optimizer steps", st, lambda t: t == OPTS)
    for n in st:
        a = [fl.term(n, x) for x in n.call.args] + [fl.term(n, k.value) for k in n.call.keywords]
        rep.check(all(x == ("const", None) for x in a), "step-all", "sub-optimizers step without the closure", n.where(), f"passes {show(a[0])[:60] if a else ''}")
        outer = [h for h in fl.loops_of(n)][:-1]
        rep.check(not outer, "step-all", "each sub-optimizer steps once", n.where(), "the stepping loop is itself repeated")
    heads = {h.id: h for _, h in good if h is not None}
    for h in heads.values():
        p = fl.find_path([x for x, l in h.succ if l == "done"], [h], skip_labels=NORMAL)
        rep.check(p is None and len(heads) == 1, "step-all", "one round of sub-optimizer steps per step", h.where(), path_str(p))
    # closure
    cl = [n for n in calls(fl, None, True) if fl.callee(n) and fl.callee(n)[0] == "var" and fl.term(n, n.call.func) == ("param", "closure")]
    rep.floor("closure evaluation", len(cl), 1)
    none = edges(fl, falsy(lambda t: t == ("param", "closure")))
    p = must_pass(fl, [fl.g.entry], st, cl, edge=none)
    rep.check(p is None, "step-all", "the closure is evaluated before the sub-optimizers step", m.where(), path_str(p))
    for n in cl:
        p = fl.find_path([n], cl, skip_labels=NORMAL)
        rep.check(p is None and not fl.loops_of(n), "step-all", "the closure is evaluated once", n.where(), path_str(p))
    r = retval(fl)
    rep.check(has(r, lambda x: x[0] == "vcall" and ("param", "closure") in x[1:2]) , "step-all", "the closure's loss is returned", m.where(), show(r)[:80])
    # lr
    lr = []
    for n, tgt, v, t, cc in fl.stores():
        if tgt[0] == "sub" and tgt[2] == ("const", "lr"):
            lr.append((n, tgt, fl.storeval(n, v)))
    if not lr:
        rep.bad("learning-rate", "learning rate copied", m.where(), "no sub-optimizer group's learning rate is set in a step")
    grp = ("elem", GROUPS)
    pairs = ("key", grp, IDX)
    okn = []
    for n, tgt, v in lr:
        dest = ("idx", ("attr", ("idx", OPTS, ("item", ("elem", pairs), 0)), "param_groups"), ("item", ("elem", pairs), 1))
        d = norm(P, tgt[1])
        isgrp = lambda x: x == grp or (x[0] == "idx" and x[1] == GROUPS)
        vv = norm(P, v)
        okd = d == dest or repr(d).replace(repr(grp), "G") == repr(dest).replace(repr(grp), "G") or (
            d[0] == "idx" and d[2][0] == "item" and d[2][2] == 1 and d[1][0] == "attr" and d[1][2] == "param_groups" and d[1][1][0] == "idx"
            and d[1][1][1] == OPTS and d[1][1][2][0] == "item" and d[1][1][2][2] == 0 and d[1][1][2][1] == d[2][1] and has(d[2][1], lambda x: x[0] == "key" and x[2] == IDX))
        rep.check(okd, "learning-rate", "destination is the recorded sub-optimizer group", n.where(), f"writes {show(d)[:140]}")
        okv = vv[0] == "key" and vv[2] == "lr" and isgrp(vv[1])
        rep.check(okv, "learning-rate", "the group's own current learning rate is copied", n.where(), f"writes {show(vv)[:100]}")
        loops = fl.loops_of(n)
        its = [fl.term(h, h.expr) for h in loops]
        a = [h for h, i in zip(loops, its) if whole(i, lambda t: t == GROUPS)]
        b = [h for h, i in zip(loops, its) if whole(i, lambda t: t[0] == "key" and t[2] == IDX)]
        rep.check(bool(a) and bool(b), "learning-rate", "all groups and all their recorded destinations are visited", n.where(),
                  "; ".join(show(i)[:60] for i in its))
        if a and b:
            p = every_round(fl, a[0], [b[0]])
            q = every_round(fl, b[0], [n])
            rep.check(p is None and q is None, "learning-rate", "no group and no destination is skipped", n.where(), path_str(p or q))
            okn.append(a[0])
    p = must_pass(fl, [fl.g.entry], st, okn)
    rep.check(bool(okn) and p is None, "learning-rate", "copied before the sub-optimizers step", m.where(), path_str(p))
    for h in okn:
        p = fl.find_path([h], cl, skip_labels=NORMAL)
        rep.ok("learning-rate", "order with the closure recorded", h.where())


def state(P, rep, c, pol):
    m = need(c, "state_dict")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    r = norm(P, retval(fl))
    own = [x for x in r[1:] if x[0] == ("**",) ] if r[0] == "dict" else []
    val = None
    if r[0] == "dict":
        for i, (k, v) in enumerate(r[1:]):
            if k == ("const", "optimizers"):
                val = v
    else:
        from sa.flow import subscript
        val = subscript(r, ("const", "optimizers"))
    ok = val is not None and val[0] == "comp" and len(val[3]) == 1 and whole(val[3][0], lambda t: t == OPTS) and not val[4] \
        and val[2][0] == "mcall" and val[2][2] == "state_dict" and val[2][1] in (("elem", OPTS), ("idx", OPTS, ("index", OPTS)))
    rep.check(ok, "state-all", "state of every sub-optimizer saved in order", m.where(), show(val)[:140] if val else show(r)[:140])
    rep.check(has(r, lambda x: x[0] == "mcall" and x[2] == "state_dict" and x[1][0] == "call" and x[1][1] == "super"), "state-all", "own groups saved too", m.where(), show(r)[:140])
    m = need(c, "load_state_dict")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    isopt = lambda t: has(t, lambda x: x == OPTS)
    ld = method(fl, "load_state_dict", recv=isopt)
    covers_all(P, rep, fl, "state-all", "state of every sub-optimizer loaded", ld, lambda t: t == OPTS)
    saved = lambda t: t[0] == "key" and t[2] == "optimizers"
    for n in ld:
        r, a = fl.recv(n), argval(fl, n, 0, None, ("const", None))
        h = inner_loop(fl, n)
        it = fl.term(h, h.expr) if h else ("const", None)
        zipped = it[0] == "call" and it[1] == "zip" and r == ("elem", OPTS) and a[0] == "elem" and saved(a[1])
        indexed = r[0] == "idx" and a[0] == "idx" and r[2] == a[2] and saved(a[1])
        enum = r == ("elem", OPTS) and a[0] == "idx" and a[2] == ("index", OPTS) and saved(a[1])
        enum2 = r[0] == "idx" and r[2][0] == "index" and saved(r[2][1]) and a == ("elem", r[2][1])
        rep.check(zipped or indexed or enum or enum2, "state-all", "each sub-optimizer loads the state saved at its position", n.where(), f"{show(r)[:50]} loads {show(a)[:60]}")
    sup = [n for n in method(fl, "load_state_dict") if n not in ld]
    p = must_pass(fl, [fl.g.entry], [fl.g.exit], sup)
    rep.check(bool(sup) and p is None, "state-all", "own groups loaded too", m.where(), path_str(p))
    m = need(c, "zero_grad")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    z = method(fl, "zero_grad", recv=isopt)
    sup = [n for n in method(fl, "zero_grad") if n not in z]
    if sup:
        rep.ok("state-all", "gradients of all parameters cleared", m.where())
    else:
        covers_all(P, rep, fl, "state-all", "gradients of every sub-optimizer cleared", z, lambda t: t == OPTS)
