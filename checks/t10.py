"""T10: evaluation counts every real record once, on whatever rank and in whatever batch it comes, and replayed or padded rows never."""
import ast, itertools
from sa.geo import Arr, Batch, Geo, Lin, Obj, PyExc, Sym, Unknown, key, lin, sym

CORE, BASE = "dataset.core", "trainer.base:BaseTrainer"


def run(P, rep):
    rep.rule("algebra", "combining two statistics adds their sums and their counts, or takes the larger of the non-empty ones")
    rep.rule("batch", "a global batch's statistic is the sum over the ranks divided by the count over the ranks; a replayed batch adds nothing")
    rep.rule("total", "the result is the sum over batches and ranks divided by the count over batches and ranks, or the largest value of a rank that has one")
    rep.rule("rounds", "all ranks run the same number of rounds; each batch is handed over once, and a rank that has run out replays one that is marked as such")
    rep.rule("loop", "exactly the batches marked real are accumulated and counted, and records are counted by their real flags")
    rep.rule("mode", "models are in evaluation mode and gradients are off for every evaluation step, and validation leaves the models in training mode")
    rep.rule("masked", "every statistic, its sum and its count, is made from the real rows only")
    S = {n: P.cls(f"{CORE}:{n}") for n in ("SumCount", "Maximum", "SufficientStats")}
    B = P.cls(BASE)
    algebra(P, rep, S)
    batch(P, rep, S, B)
    total(P, rep, S, B)
    rounds(P, rep, B)
    for name in ("_validate", "test"):
        loop(P, rep, S, B, name)
    masked(P, rep, S)


class Out:
    """one verdict per statement: the first failure is kept"""

    def __init__(self):
        self.d = {}

    def __call__(self, ok, rule, text, detail=""):
        if text not in self.d or self.d[text][0] and not ok:
            self.d[text] = (bool(ok), rule, detail)
        return ok

    def done(self, rep, where, pre=""):
        for text, (ok, rule, detail) in sorted(self.d.items()):
            rep.check(ok, rule, pre + text, where, detail)


def is_(v, c):
    return isinstance(v, Obj) and v.cls is not None and c in v.cls.mro


def prims(P, extra=None):
    one = lambda it, a, k: a[0][0] if isinstance(a[0], list) and len(a[0]) == 1 else a[0]

    def isinst(it, a, k):
        v, c = a[0], a[1]
        cs = c if isinstance(c, (tuple, list)) else [c]
        for x in cs:
            if hasattr(x, "methods"):
                if is_(v, x):
                    return True
            elif isinstance(x, Sym):
                n = x.k[-1].split(".")[-1] if isinstance(x.k[-1], str) else ""
                if n == "Tensor" and isinstance(v, (Lin, Sym, Batch, Arr)) or n == "dict" and isinstance(v, dict) or n == "str" and isinstance(v, str) or n == "int" and isinstance(v, int) \
                        or n == "tuple" and isinstance(v, tuple) or n == "list" and isinstance(v, list) or n == "float" and isinstance(v, float):
                    return True
        return False

    def call(it, f, a, k):
        if not isinstance(f, Sym) or f.k[0] != "attr":
            return None
        base, m = f.k[1], f.k[2]
        if base == ("acc",) and m == "reduce":
            x = one(it, a, k)
            op = k.get("reduction", a[1] if len(a) > 1 else "sum")
            it.log.append(("reduce", op, key(x)))
            return it.reduced(op, x) if hasattr(it, "reduced") else Sym("reduce", op, key(x))
        if base == ("acc",) and m == "gather":
            return a[0]
        if base and base[0] == "model" and m in ("eval", "train"):
            mode = m == "eval" if not a or m == "eval" else not a[0]
            it.log.append(("mode", base[1], mode))
            return Sym(*base)
        if base and base[0] == "real" and m == "sum":
            return sym(f"r{base[1]}")
        if m in ("item", "to", "detach", "clone", "cpu", "float", "double"):
            return Sym(*base) if isinstance(base, tuple) else None
        return None

    def attr(it, o, a):
        if isinstance(o, (int, Lin)) and not isinstance(o, bool) and a in ("shape", "dtype", "device"):
            return a
        if isinstance(o, Sym) and o.k == ("acc",):
            return {"num_processes": getattr(it, "world", 2), "is_main_process": True, "is_local_main_process": True, "device": "device"}.get(a)
        return None
    zero = lambda it, a, k: 0
    kind = lambda it, a, k: a[0].cls if isinstance(a[0], Obj) and a[0].cls is not None else Sym("type", key(a[0]))
    d = {"isinstance": isinst, "type": kind, "call": call, "attr": attr, "torch.tensor": lambda it, a, k: a[0], "torch.as_tensor": lambda it, a, k: a[0], "torch.zeros_like": zero,
         "torch.full_like": lambda it, a, k: ("full", key(a[1])), "torch.maximum": lambda it, a, k: Sym("larger", tuple(sorted((key(x) for x in a), key=repr))),
         "torch.max": lambda it, a, k: Sym("max", key(a)), "sorted": lambda it, a, k: list(a[0]) if isinstance(a[0], (list, tuple, dict)) else a[0]}
    d.update(extra or {})
    return d


def me(B, **at):
    return Obj(B, accelerator=Sym("acc"), **at)


def div(a, b):
    return ("bin", "Div", key(a), key(b))


# ---------------------------------------------------------------- the statistics
def algebra(P, rep, S):
    out = Out()
    SC, MX, SS = S["SumCount"], S["Maximum"], S["SufficientStats"]
    for c in S.values():
        rep.seen(f"{c.name}.combine")
        rep.seen(f"{c.name}.finalize")
    it = Geo(P, prims(P))
    a, b = (Obj(SC, scope="evaluation", sum=sym(f"s{i}"), count=sym(f"c{i}")) for i in "12")
    rs = [r for r, _ in it.runs(lambda it: it.call_func(it.as_fn(SC.find("combine")), [b], {}, bound=a)) if not isinstance(r, Unknown)]
    for r in rs:
        out(is_(r, SC) and r.at.get("sum") == sym("s1") + sym("s2") and r.at.get("count") == sym("c1") + sym("c2") and r.at.get("scope") == "evaluation", "algebra",
            "combining two sum-and-count statistics adds the sums and the counts", f"{getattr(r, 'at', r)}"[:100])
    for n in (0, 3):
        rs2 = [r for r, _ in it.runs(lambda it: it.call_func(it.as_fn(SC.find("finalize")), [], {}, bound=Obj(SC, scope="evaluation", sum=sym("s"), count=n))) if not isinstance(r, Unknown)]
        for r in rs2:
            out(n and key(r) == div(sym("s"), n), "algebra", "a sum-and-count statistic ends as the sum over the count and is refused when empty", f"count {n}: {key(r)}")
    for n1, n2 in itertools.product((0, 2), (0, 3)):
        x, y = Obj(MX, scope="evaluation", value=sym("m1"), valid_count=n1), Obj(MX, scope="evaluation", value=sym("m2"), valid_count=n2)
        for r, _ in it.runs(lambda it: it.call_func(it.as_fn(MX.find("combine")), [y], {}, bound=x)):
            if isinstance(r, Unknown):
                continue
            v, n = (r.at.get("value"), r.at.get("valid_count")) if is_(r, MX) else (None, None)
            want = sym("m2") if not n1 else sym("m1") if not n2 else Sym("larger", tuple(sorted((key(sym("m1")), key(sym("m2"))), key=repr)))
            if n1 == n2 == 0:
                out(n == 0, "algebra", "two empty maxima stay empty", f"{n}")
            else:
                out(v == want and (n == n1 + n2), "algebra", "combining two maxima takes the larger of the non-empty ones and adds their counts", f"counts {n1} and {n2}: {v!r}, {n}")
    x, y = (Obj(SS, scope="evaluation", finalizer_id="f", tensors={"p": sym(f"p{i}"), "q": sym(f"q{i}")}, counts={"n": sym(f"n{i}"), "m": sym(f"m{i}")}) for i in "12")
    for r, _ in it.runs(lambda it: it.call_func(it.as_fn(SS.find("combine")), [y], {}, bound=x)):
        if isinstance(r, Unknown):
            continue
        ok = is_(r, SS) and r.at.get("tensors") == {k: sym(k + "1") + sym(k + "2") for k in "pq"} and r.at.get("counts") == {k: sym(k + "1") + sym(k + "2") for k in "nm"} and r.at.get("finalizer_id") == "f"
        out(ok, "algebra", "combining two sets of sufficient statistics adds every tensor and every count", f"{getattr(r, 'at', r)}"[:120])
    out.done(rep, P.cls(f"{CORE}:SumCount").find("combine").where())
    rep.floor("statistics", len(rs), 1)


def stat(S, kind, scope, i):
    if kind == "SumCount":
        return Obj(S[kind], scope=scope, sum=sym(f"s{i}"), count=sym(f"c{i}"))
    if kind == "Maximum":
        return Obj(S[kind], scope="evaluation", value=sym(f"m{i}"), valid_count=sym(f"n{i}"))
    return Obj(S[kind], scope=scope, finalizer_id="f", tensors={"p": sym(f"p{i}"), "q": sym(f"q{i}")}, counts={"n": sym(f"n{i}"), "m": sym(f"m{i}")})


def red(x, op="sum"):
    return ("reduce", op, key(x))


FIN = lambda it, a, k: Sym("final", key(a[0].at["tensors"]), key(a[0].at["counts"]), key(a[0].at["finalizer_id"]))


def batch(P, rep, S, B):
    f = B.find("_finalize_masked_global_batch")
    rep.seen(f.qual)
    out, n = Out(), 0
    pr = prims(P, {S["SufficientStats"].find("finalize").qual: FIN})
    for scope, real, kind in itertools.product(("evaluation", "global_batch"), (True, False), S):
        if kind == "Maximum" and scope != "evaluation" or scope == "evaluation" and not real:      # what a replayed batch leaves behind is decided by the loops
            continue
        it = Geo(P, pr)
        for r, log in it.runs(lambda it: it.call_func(it.as_fn(f), [{"a": stat(S, kind, scope, 1)}, Sym("data")], {"include_metrics": real}, bound=me(B))):
            if isinstance(r, Unknown):
                continue
            n += 1
            g = r.get("a") if isinstance(r, dict) else None
            case = f"{scope} scope, {'real' if real else 'replayed'}: {getattr(g, 'at', g)}"[:170]
            t = "replayed rows add nothing to a batch's statistic" if not real else "a statistic kept to the end is passed on unchanged"
            if scope == "evaluation":
                if kind == "SumCount":
                    want = is_(g, S[kind]) and (g.at["sum"], g.at["count"]) == ((sym("s1"), sym("c1")) if real else (0, 0))
                elif kind == "Maximum":
                    want = is_(g, S[kind]) and g.at["valid_count"] == (sym("n1") if real else 0) and (not real or g.at["value"] == sym("m1"))
                else:
                    want = is_(g, S[kind]) and g.at["tensors"] == ({"p": sym("p1"), "q": sym("q1")} if real else {"p": 0, "q": 0}) and g.at["counts"] == ({"n": sym("n1"), "m": sym("m1")} if real else {"n": 0, "m": 0})
                out(want, "batch", f"{kind}: {t}", case)
                continue
            if kind == "SumCount":
                val = div(Sym(*red(sym("s1") if real else 0)), Sym(*red(sym("c1") if real else 0)))
            else:
                val = ("final", tuple((k, red(sym(k + "1") if real else 0)) for k in "pq"), tuple((k, red(sym(k + "1") if real else 0)) for k in "nm"), "f")
            ok = is_(g, S["SumCount"]) and key(g.at["sum"]) == val and g.at["count"] == 1
            out(ok, "batch", f"{kind}: a {'real' if real else 'replayed'} global batch is {'its' if real else 'the other ranks'+chr(39)} sum over the ranks by its count over the ranks, as one entry", case)
    out.done(rep, f.where())
    rep.floor("batch statistics", n, 6)


def total(P, rep, S, B):
    f = B.find("_gather_averaged_metrics")
    rep.seen(f.qual)
    out, n = Out(), 0
    pr = prims(P, {S["SufficientStats"].find("finalize").qual: FIN})
    for kind, valid in (("SumCount", 1), ("Maximum", 2), ("Maximum", 0), ("SufficientStats", 1)):
        it = Geo(P, pr)

        def go(it):
            s = stat(S, kind, "evaluation", 1)
            if kind == "Maximum":
                s.at["valid_count"] = valid
            return it.call_func(it.as_fn(f), [{"a": s}, sym("nb")], {}, bound=me(B))
        for r, log in it.runs(go):
            if isinstance(r, Unknown):
                continue
            n += 1
            d = r[0] if isinstance(r, tuple) and r else None
            v = key(d.get("a")) if isinstance(d, dict) else None
            if kind == "SumCount":
                ok = v == div(Sym(*red(sym("s1"))), Sym(*red(sym("c1"))))
            elif kind == "Maximum":
                x = sym("m1") if valid else None
                ok = v == red(x, "max") if valid else isinstance(v, tuple) and v[:2] == ("reduce", "max") and "inf" in str(v[2])
                out(any(q[0] == "reduce" and q[1] == "sum" and q[2] == valid for q in log), "total", "Maximum: the ranks' counts of values are added up", f"{[q[1:] for q in log if q[0] == 'reduce']}"[:120])
            else:
                ok = v == ("final", tuple((k, red(sym(k + "1"))) for k in "pq"), tuple((k, red(sym(k + "1"))) for k in "nm"), "f")
            out(ok, "total", f"{kind}: the result is made from every rank's statistic" + ("" if kind != "Maximum" else " that has a value"), f"{v}"[:160])
            out(isinstance(r, tuple) and len(r) == 2 and key(r[1]) == red(sym("nb")), "total", "the number of batches is added up over the ranks", f"{key(r)}"[:120])
    out.done(rep, f.where())
    rep.floor("totals", n, 4)
    for what, s, nb in (("no batch at all", lambda: stat(S, "SumCount", "evaluation", 1), 0), ("no value for a maximum", lambda: Obj(S["Maximum"], scope="evaluation", value=sym("m"), valid_count=0), 1)):
        it = Geo(P, pr)
        it.reduced = lambda op, x: x if isinstance(x, int) else x[0] if isinstance(x, list) and len(x) == 1 else Sym("reduce", op, key(x))
        got = [r for r, _ in it.runs(lambda it: it.call_func(it.as_fn(f), [{"a": s()}, nb], {}, bound=me(B)))]
        if not any(isinstance(r, Unknown) for r in got):
            rep.check(not got, "total", f"an evaluation with {what} is refused", f.where(), f"{got}"[:120])


# ---------------------------------------------------------------- rounds
def rounds(P, rep, B):
    f = B.find("_iter_collective_safe_batches")
    rep.seen(f.qual)
    out, n = Out(), 0
    E = P.cls("dataset.stream:BatchEnvelope")
    for planned, world, m, o, cap in itertools.product((True, "plain", False), (1, 2), (0, 1, 2, 3), (0, 1, 2, 3), (None, 1, 2)):
        if world == 1 and o:
            continue
        st = {}

        def fresh(i, who):
            if planned is True:
                return Obj(E, data={"x": f"row:{who}:{i}"}, is_real=Sym("flags", who, i))
            return f"row:{who}:{i}"

        def nxt(it, a, k):
            if st["i"] >= m:
                if len(a) > 1:
                    return a[1]
                raise PyExc("StopIteration")
            st["i"] += 1
            return fresh(st["i"] - 1, "me")

        def gather(it, x):
            i = st["round"]
            st["round"] += 1
            return x + [i < (o if cap is None else min(o, cap))]

        def call(it, g, a, k, old=None):
            if isinstance(g, Sym) and g.k[:2] == ("attr", ("acc",)) and g.k[2] == "gather":
                return gather(it, a[0])
            return None
        pr = prims(P)
        old = pr["call"]
        pr["call"] = lambda it, g, a, k: call(it, g, a, k) if isinstance(g, Sym) and g.k[-1] == "gather" else old(it, g, a, k)

        def gobj(it, a, k):
            mine = a[0] if isinstance(a[0], list) else [a[0]]
            return mine + [fresh(0, "other") if o else None]
        pr.update({"iter": lambda it, a, k: Sym("iterator"), "getattr": lambda it, a, k: Sym("ds") if a[1] == "dataset" else bool(planned), "next": nxt,
                   "accelerate.utils.gather_object": gobj, "accelerate.utils.send_to_device": lambda it, a, k: a[0],
                   "accelerate.utils.operations.gather_object": gobj, "torch.device": lambda it, a, k: "cpu",
                   f"{B.find('_synchronize_phase_errors').qual}": lambda it, a, k: None})
        real_next = pr["next"]
        pr["next"] = lambda it, a, k: (a[0] + [None])[0] if isinstance(a[0], list) else real_next(it, a, k)
        it = Geo(P, pr)
        it.world = world

        def go(it):
            st.update(i=0, round=0)
            it.call_func(it.as_fn(f), [Sym("loader")], {"max_batches": cap}, bound=me(B))
            return st["i"]
        case = f"{'planned' if planned else 'ordinary'} data, {m} batches here{f', {o} on the other rank' if world > 1 else ''}, at most {cap}"
        mm, oo = (x if cap is None else min(x, cap) for x in (m, o))
        got = list(it.runs(go))
        most = min(mm, oo) if planned and world == 2 else mm if world == 1 else max(mm, oo)
        out(all(sum(y[0] == "yield" for y in log) <= most for _, log in got), "rounds", "no round is run beyond the last batch of any rank", case)
        if any(isinstance(r, Unknown) for r, _ in got):
            continue
        n += 1
        if planned and world == 2 and m != o:
            for r, log in got:
                ys = [y for y in log if y[0] == "yield"]
                out(len(ys) <= min(m, o), "rounds", "planned data of which the ranks have different numbers of batches is refused, not replayed", case) if cap is None else None
            continue
        rounds_ = mm if world == 1 else max(mm, oo)
        out(bool(got), "rounds", "well-formed data is evaluated", case)
        for r, log in got:
            ys = [y[1] for y in log if y[0] == "yield"]
            out(len(ys) == rounds_, "rounds", "the number of rounds is that of the rank with most batches", f"{len(ys)} rounds; {case}")
            out(all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], bool) for y in ys), "rounds", "each round says whether its batch is real", case)
            ys = [y for y in ys if isinstance(y, tuple) and len(y) == 2]
            mine = [y[0] for y in ys if y[1] is True]
            want = [f"row:me:{i}" for i in range(mm)]
            if planned is True:
                out(all(isinstance(d, dict) for d in mine) and [d.get("x") for d in mine if isinstance(d, dict)] == want, "rounds", "each batch of this rank is handed over once, in order, marked real", case)
                out(all(isinstance(d, dict) and d.get("is_real") == Sym("flags", "me", i) for i, d in enumerate(mine)), "rounds", "a planned batch carries its own real-row flags", case)
            else:
                out(mine == want, "rounds", "each batch of this rank is handed over once, in order, marked real", f"{[key(x) for x in mine]}"[:100] + "; " + case)
                out(all(str(y[0]).startswith("row:") for y in ys), "rounds", "a rank that has run out replays a batch", case)
            out([y[1] for y in ys] == [True] * mm + [False] * (len(ys) - mm), "rounds", "a replayed batch is marked as such", case)
    out.done(rep, f.where())
    rep.floor("round schedules", n, 60)


# ---------------------------------------------------------------- the two loops
def loop(P, rep, S, B, name):
    f = B.find(name)
    rep.seen(f.qual)
    out, n = Out(), 0
    nograd = any(ast.unparse(d).split("(")[0].split(".")[-1] in ("no_grad", "inference_mode") for d in f.node.decorator_list)
    for flags in ((True,), (True, False), (True, True, False), (True, True), (False, True), (False, False)):
        seen = []
        pr = prims(P)

        def step(it, a, k):
            i = a[1].get("i") if len(a) > 1 and isinstance(a[1], dict) else None
            it.log.append(("step", i))
            one = {"loss": Obj(S["SumCount"], scope="evaluation", sum=sym(f"v{i}"), count=sym(f"n{i}"))}
            aux = {"aux": Obj(S["SumCount"], scope="evaluation", sum=sym(f"w{i}"), count=sym(f"k{i}")), "most": Obj(S["Maximum"], scope="evaluation", value=sym(f"x{i}"), valid_count=2),
                   "parts": Obj(S["SufficientStats"], scope="evaluation", finalizer_id="f", tensors={"t": sym(f"y{i}")}, counts={"c": sym(f"z{i}")})}
            return (one, aux) if name == "_validate" else dict(one, **aux)
        nop = lambda it, a, k: None
        for q in ("_synchronize_phase_errors", "_preflight_evaluation_schema", "_run_synchronized_operation", "_reset_vq_eval_stats"):
            if B.find(q):
                pr[B.find(q).qual] = nop
        if B.find("_global_vq_eval_metrics"):
            pr[B.find("_global_vq_eval_metrics").qual] = lambda it, a, k: {}
        vq = B.find("_set_vq_eval_stats_enabled")
        if vq:
            pr[vq.qual] = lambda it, a, k: it.log.append(("vq", a[1]))
        pr[B.find("validate_step").qual] = step
        pr[B.find("test_step").qual] = step
        pr[B.find("_iter_collective_safe_batches").qual] = lambda it, a, k: [({"i": i, "is_real": Sym("real", i)}, t) for i, t in enumerate(flags)]
        pr[B.find("_normalize_train_metrics").qual] = lambda it, a, k: (a[1], (), [])

        def gathered(it, a, k):
            it.log.append(("gathered", dict(a[1]) if isinstance(a[1], dict) else None, a[2] if len(a) > 2 else k.get("num_batches")))
            return ({}, sym("T"))
        pr[B.find("_gather_averaged_metrics").qual] = gathered
        pr.update({"tqdm.tqdm": lambda it, a, k: a[0], "tqdm.auto.tqdm": lambda it, a, k: a[0], "tqdm": lambda it, a, k: a[0], "time.time": lambda it, a, k: sym("time"), "getattr": lambda it, a, k: Sym("opt", a[1]),
                   "accelerate.utils.gather_object": lambda it, a, k: a[0], "print": nop, "torch.no_grad": lambda it, a, k: Sym("no_grad"), "torch.inference_mode": lambda it, a, k: Sym("no_grad")})
        it = Geo(P, pr)
        it.world = 1

        def go(it):
            o = me(B, models={"m": Sym("model", 0), "n": Sym("model", 1)}, val_loader=Sym("vl"), test_loader=Sym("tl"), _log_last_time=0, _show_last_time=0, batch_size_per_process=8, eval_bs_multipler=2,
                   state=Sym("state"), iterations=9)
            return it.call_func(it.as_fn(f), [], {}, bound=o)
        case = "batches " + ", ".join("real" if x else "replayed" for x in flags)
        for r, log in it.runs(go):
            if isinstance(r, Unknown):
                continue
            n += 1
            real = [i for i, t in enumerate(flags) if t]
            add = lambda p: sum_(sym(f"{p}{i}") for i in real)
            gs = [g for g in log if g[0] == "gathered"]
            out(len(gs) == (2 if name == "_validate" else 1) and all(isinstance(g[1], dict) for g in gs), "loop", "each group of statistics is averaged once", f"{len(gs)}; {case}")
            for g in gs:
                d = g[1] or {}
                for k, s, c in (("loss", "v", "n"), ("aux", "w", "k")):
                    if k in d:
                        out(is_(d[k], S["SumCount"]) and (lin0(d[k].at["sum"]), lin0(d[k].at["count"])) == (add(s), add(c)), "loop", f"{k}: the statistics of exactly the real batches are added up", f"{getattr(d[k], 'at', d[k])}"[:120] + "; " + case)
                if "parts" in d:
                    p = d["parts"]
                    out(is_(p, S["SufficientStats"]) and (lin0(p.at["tensors"].get("t")), lin0(p.at["counts"].get("c"))) == (add("y"), add("z")), "loop", "parts: the statistics of exactly the real batches are added up", f"{getattr(p, 'at', p)}"[:120] + "; " + case)
                if "most" in d:
                    p = d["most"]
                    big = None
                    for i in real:
                        big = sym(f"x{i}") if big is None else Sym("larger", tuple(sorted((key(big), key(sym(f"x{i}"))), key=repr)))
                    out(is_(p, S["Maximum"]) and p.at["valid_count"] == 2 * len(real) and (big is None or p.at["value"] == big), "loop", "most: the largest value of exactly the real batches is kept", f"{getattr(p, 'at', p)}"[:120] + "; " + case)
                out(g[2] == len(real), "loop", "the number of batches is that of the real ones", f"{g[2]!r}; {case}")
            names = sorted(k for g in gs for k in (g[1] or {}))
            out(names == ["aux", "loss", "most", "parts"], "loop", "a rank that only replays takes part with the same statistics", f"{names}; {case}")
            want = key(add("r")) if real else 0
            out(any(q[0] == "reduce" and q[1] == "sum" and q[2] == want for q in log), "loop", "the records counted are the real rows of the real batches, over all ranks", f"{[q[1:] for q in log if q[0] == 'reduce']}"[:120] + "; " + case)
            out([q[1] for q in log if q[0] == "step"] == list(range(len(flags))), "loop", "every round is run on every rank", case)
            vqs = None
            mode, grad = {}, int(nograd)
            for q in log:
                if q[0] == "mode":
                    mode[q[1]] = q[2]
                elif q[0] == "enter" and q[1] == ("no_grad",):
                    grad += 1
                elif q[0] == "exit":
                    grad = max(0, grad - 1)
                elif q[0] == "vq":
                    vqs = q[1]
                elif q[0] == "step":
                    out(all(mode.get(i) is True for i in (0, 1)), "mode", "every model is in evaluation mode for every step", case)
                    out(grad > 0, "mode", "gradients are off for every step", case)
                    if vq:
                        out(vqs == flags[q[1]] if isinstance(q[1], int) else True, "loop", "code statistics are collected for real batches only", case)
            if name == "_validate":
                out(all(mode.get(i) is False for i in (0, 1)), "mode", "validation leaves every model in training mode", case)
    out.done(rep, f.where(), f"{name}: ")
    rep.floor(f"runs of {name}", n, 6)


def lin0(x):
    return lin(x) if isinstance(x, (int, Lin)) else x


def sum_(xs):
    t = lin(0)
    for x in xs:
        t = lin(t + x)
    return t


# ---------------------------------------------------------------- masked rows
def leaves(k, out=None):
    """the kinds of rows a structural value was made from: raw (every row), real (selected by the real flags)"""
    out = set() if out is None else out
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == "rows":
            out.add(k[2])
            return out
        for x in k:
            leaves(x, out)
    elif isinstance(k, (Sym, Lin, Obj, dict, list)):
        leaves(key(k), out)
    return out


def selected(k):
    """the value after its rows were selected; None if whole-batch sums are in it, which selecting does not undo"""
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == "rows":
            return ("rows", k[1], "real" if k[2] == "raw" else "twice")
        if k and k[0] == "red":
            return k if "raw" not in leaves(k) else ("rows", "whole-batch", "whole")
        return tuple(selected(x) for x in k)
    return k


def ndim(k):
    """the axes of a structural value, as far as the code under analysis asks"""
    if k[0] == "rows":
        return 2
    if k[0] == "red":
        return 0
    if k[0] == "per-row":
        return 1
    if k[:2] == ("row", "item"):
        return max(1, ndim(k[2]) - sum(isinstance(x, int) for x in k[3]))
    if k[:2] == ("row", "unsqueeze"):
        return ndim(k[2]) + 1
    ns = [ndim(x) for x in subs(k)]
    return max(ns, default=0)


def subs(k):
    """the outermost structural values with rows inside a value"""
    for x in k if isinstance(k, tuple) else ():
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("rows", "row", "per-row", "red", "bin", "np", "mcall", "attr") and leaves(x):
            yield x
        else:
            yield from subs(x)


def width(k, w):
    if k[0] == "rows":
        return w.get(k[1], sym("C"))
    for x in subs(k):
        return width(x, w)
    return sym("C")


def masked(P, rep, S):
    M, L = "trainer.metric.supervised", "trainer.loss.supervised"
    pr = prims(P)
    flag = ("flags",)
    hasrows = lambda v: isinstance(v, Sym) and bool(leaves(v.k))
    RED = ("sum", "mean", "max", "min", "numel", "prod", "amax", "amin", "any", "all", "norm", "count_nonzero")

    def n(k):
        ls = leaves(k)
        return sym("B") if ls == {"raw"} else sym("R") if ls == {"real"} else Sym("rows", "n", "mixed")

    def reduce(k, m, args, kw):
        dim = kw.get("dim", args[0] if args else None)
        return Sym("red" if dim is None else "per-row", m, k, key(dim)) if dim != 0 else Sym("red", m, k)

    def call(it, f, a, k):
        if not isinstance(f, Sym) or f.k[0] != "attr":
            return None
        base, m = f.k[1], f.k[2]
        if base == flag:
            return Sym(*flag) if m in ("to", "bool", "detach", "clone") else None
        if isinstance(base, tuple) and leaves(base):
            if m in ("numel",):
                return n(base)
            if m in ("size",) and a and a[0] == 0:
                return n(base)
            if m == "size" and a and isinstance(a[0], int):
                return width(base, it.widths)
            if m in ("dim",):
                return ndim(base)
            if m == "new_tensor":
                return key(a[0]) if isinstance(a[0], (int, float)) else Sym("const", key(a[0]))
            if m in RED:
                return reduce(base, m, a, k)
            return Sym("row", m, base, key(a), key(k))
        return None

    def attr(it, o, a):
        if isinstance(o, Sym) and (o.k == flag or leaves(o.k)):
            if a == "shape":
                return (sym("B"),) if o.k == flag else (n(o.k), width(o.k, it.widths), sym("C"))[:ndim(o.k)]
            if a == "ndim":
                return 1 if o.k == flag else ndim(o.k)
            if a in ("device", "dtype"):
                return a
            if a in ("dtype",):
                return a
        return None

    def getitem(it, o, i):
        if isinstance(o, Sym) and leaves(o.k):
            j = i[0] if isinstance(i, tuple) and i else i
            if j == Sym(*flag):
                return Sym(*selected(o.k))
            if isinstance(i, tuple) and isinstance(j, slice) and j == slice(None):
                return Sym("row", "item", o.k, key([x if not isinstance(x, slice) else "slice" for x in i[1:]]))
            return Sym("red", "item", o.k, key(j) if not isinstance(j, slice) else "slice")
        return None

    def compare(it, op, a, b):
        if op in ("Is", "IsNot") and (hasrows(a) or hasrows(b)) and (a is None or b is None):
            return op == "IsNot"
        if op not in ("Is", "IsNot", "In", "NotIn") and (hasrows(a) or hasrows(b)):
            return Sym("bin", op, key(a), key(b))
        return None

    def length(it, a, k):
        v = a[0]
        if isinstance(v, Sym) and v.k == flag:
            return sym("B")
        if hasrows(v):
            return n(v.k)
        if isinstance(v, Sym):
            return Sym("len", key(v))
        return len(v)

    def fn(m, rows=True):
        def go(it, a, k):
            if a and isinstance(a[0], Sym) and leaves(a[0].k):
                return reduce(a[0].k, m, a[1:], k) if m in RED else Sym("row", m, key(a), key(k))
            return Sym("row", m, key(a), key(k))
        return go
    two = lambda it, a, k: (Sym("row", "topk", 0, key(a), key(k)), Sym("row", "topk", 1, key(a), key(k)))
    pr.update({"call": call, "attr": attr, "getitem": getitem, "compare": compare, "len": length, "torch.topk": two, "dict": lambda it, a, k: dict(a[0] if a else {}, **k), "float": lambda it, a, k: a[0],
               "isinstance": _inst(pr["isinstance"], hasrows, flag), "set": lambda it, a, k: list(a[0])})
    for m in ("sum", "mean", "max", "any", "all"):
        pr["torch." + m] = fn(m)
    for q in ("cross_entropy_with_softlabel",):
        for mod in ("utils.misc_utils", "trainer.loss.utils", L, "trainer.loss.cross_entropy", "utils.loss"):
            try:
                f = P.func(f"{mod}:{q}")
            except Exception:
                continue
            if f is not None:
                pr[f.qual] = lambda it, a, k: Sym("row" if k.get("reduction", a[2] if len(a) > 2 else "mean") == "none" else "red", "ce", key(a), key(k))
    R = lambda name: Sym("rows", name, "raw")
    out, count = Out(), 0
    for entry in (f"{M}:compute_supervised_metric_statistics", f"{L}:compute_supervised_loss_statistics"):
        f = P.func(entry)
        rep.seen(f.qual)
        metric = entry.startswith(M)
        shapes = [(1, 1), (1, 3), (3, 3)]
        confs = [(None, None, b, {}, w) for b in (0, 1) for w in shapes] if metric else [(lt, kd, b, x, w) for lt in ("CE+CE", "MSE+MSE", "KL+NONE") for kd in (0, 1) for b in (0, 1)
                                                                                         for x in ({}, {"policy_reg_lambda": 1, "ignore_forbidden_point_policy": True}) for w in (shapes[b::2] if lt != "MSE+MSE" else shapes)]
        for lt, kd, bm, extra, w in confs:
            data = {"is_real": Sym(*flag), "value_target": R("vt"), "policy_target": R("pt"), "forbidden_point": R("fp"), "board_size": R("bs")}
            res = {"value": R("v"), "policy": R("p"), "board_mask": R("bm") if bm else None, "aux_outputs": {}}
            if extra:
                res["aux_losses"] = {"av": ("value_loss", R("av")), "ap": ("policy_loss", R("ap")), "ar": ("policy_reg", R("ar")), "au": ("value_uncertainty_loss", (R("u1"), R("u2"), R("vt")))}
            it = Geo(P, pr, limit=120)
            it.widths = {"v": w[0], "av": w[0], "u2": w[0], "kv": w[1], "vt": w[1]}

            def go(it):
                kw = {} if metric else dict(extra, kd_results={"value": R("kv"), "policy": R("kp")} if kd else None)
                if metric:
                    kw = {"do_cross_eval": bool(bm)}
                return it.call_func(it.as_fn(f), ([data, res] if metric else [lt, data, res]), kw)
            for r, log in it.runs(go):
                if isinstance(r, Unknown):
                    continue
                ds = [r] if isinstance(r, dict) else [x for x in r if isinstance(x, dict)] if isinstance(r, tuple) else []
                for d in ds:
                    for name, s in d.items():
                        if not isinstance(s, Obj) or s.cls is None:
                            continue
                        count += 1
                        kind = s.cls.name
                        val = {"SumCount": ("sum",), "Maximum": ("value",), "SufficientStats": ("tensors",)}.get(kind, ())
                        cnt = {"SumCount": ("count",), "Maximum": ("valid_count",), "SufficientStats": ("counts",)}.get(kind, ())
                        what = "metric" if metric else "loss"
                        for q in val:
                            ls = leaves(key(s.at.get(q)))
                            out(ls <= {"real"}, "masked", f"the {what} statistic {name} is made of the rows flagged real", f"{sorted(ls)}; {key(s.at.get(q))}"[:200])
                        for q in cnt:
                            v = repr(key(s.at.get(q)))
                            out("'B'" not in v and "mixed" not in v and leaves(key(s.at.get(q))) <= {"real"}, "masked", f"the {what} statistic {name} counts the rows flagged real", f"{v}"[:160])
    out.done(rep, P.func(f"{L}:compute_supervised_loss_statistics").where())
    rep.floor("statistics of masked rows", count, 20)


def _inst(old, hasrows, flag):
    def go(it, a, k):
        if isinstance(a[0], Sym) and (hasrows(a[0]) or a[0].k == flag):
            cs = a[1] if isinstance(a[1], (tuple, list)) else [a[1]]
            return any(isinstance(c, Sym) and str(c.k[-1]).endswith("Tensor") for c in cs)
        return old(it, a, k)
    return go
