"""T14: for the same rows, validation reports the loss that training minimises: the terms, targets, weights and masks agree."""
import functools
import hashlib
from fractions import Fraction as Q
from sa.geo import Geo, Obj, Sym, Unknown, key
from checks.t10 import Out, _inst, ndim, prims

L = "trainer.loss.supervised"
SAME = {"detach", "clone", "float", "double", "to", "bool", "contiguous", "cpu", "type"}
RED = {"sum", "mean"}
COMM = {"Add", "Mult"}


def run(P, rep):
    rep.rule("term", "a term's validation statistic, added up over two processes and divided once, equals the term training reports for all their rows")
    rep.rule("total", "the total of validation equals the total that training minimises")
    rep.rule("names", "both report the same terms")
    train, evaln = P.func(f"{L}:compute_supervised_losses"), P.func(f"{L}:compute_supervised_loss_statistics")
    rep.seen(train.qual)
    rep.seen(evaln.qual)
    pr = build(P)
    out, n, i = Out(), 0, 0
    heads = [None, {"av": ("value_loss", "av")}, {"ap": ("policy_loss", "ap"), "ar": ("policy_reg", "ar")}, {"au": ("value_uncertainty_loss", ("u1", "u2", "vt2"))}, {"aw": ("value_relative_uncertainty_loss", ("u1", "u2", "u3", "vt2"))}]
    opts = [{}, {"policy_reg_lambda": 0.5, "ignore_forbidden_point_policy": True, "value_policy_ratio": 3}, {"value_focal_gamma": 2.0, "policy_focal_gamma": 4.0, "av_lambda": 0.25, "ap_lambda": 8.0, "ar_lambda": 0.125, "au_lambda": 16.0, "value_policy_ratio": 7}]
    for lt in ("CE+CE", "MSE+MSE", "KL+KL", "CE+NONE", "MSE+CE"):
        for alpha in (None, 0.25, 1.0):
            for mask in (False, True):
                for w in ((1, 1), (1, 3), (3, 3)):
                    for hi, aux in enumerate(heads):
                        for oi, opt in enumerate(opts):
                            if (hi + oi + mask + len(lt)) % 2 and hi and oi:      # half of the combinations of heads and options
                                continue
                            if "KL" in lt and oi == 2:
                                continue
                            i += 1
                            if rep.tier != "thorough" and i % 5 not in (0, 2):
                                continue
                            n += one(P, pr, train, evaln, out, lt, alpha, mask, w, aux, opt)
    out.done(rep, evaln.where())
    rep.floor("compared configurations", n, 60)


def one(P, pr, train, evaln, out, lt, alpha, mask, w, aux, opt):
    R = lambda name: Sym("rows", name, "raw")
    T = lambda x: tuple(R(i) for i in x) if isinstance(x, tuple) else R(x)

    def inputs():
        data = {"value_target": R("vt"), "policy_target": R("pt"), "forbidden_point": R("fp")}
        res = {"value": R("v"), "policy": R("p"), "aux_outputs": {}}
        if mask:
            res["board_mask"] = R("bm")
        if aux:
            res["aux_losses"] = {k: (a, T(b)) for k, (a, b) in aux.items()}
        kw = dict(opt)
        if alpha is not None:
            kw.update(kd_results={"value": R("kv"), "policy": R("kp")}, kd_T=2.0, kd_alpha=alpha)
        return [lt, data, res], kw

    def go(f, ranks):
        it = Geo(P, pr, limit=40)
        it.widths = {"v": w[0], "av": w[0], "u1": 1, "u2": w[0], "u3": w[0], "kv": w[0], "vt": w[1], "vt2": w[1]}
        it.ranks = ranks
        a, kw = inputs()
        rs = [r for r, _ in it.runs(lambda it: it.call_func(it.as_fn(f), *inputs()))]
        return it, rs
    case = f"{lt}, " + (f"teacher {alpha}, " if alpha is not None else "") + ("board mask, " if mask else "") + f"value {w[0]}/{w[1]}, " + (f"heads {sorted(aux)}, " if aux else "") + f"{opt}"
    _, ts = go(train, (1, 2))
    it, e1 = go(evaln, (1,))
    _, e2 = go(evaln, (2,))
    if not (len(ts) == len(e1) == len(e2) == 1) or any(isinstance(x, Unknown) for x in ts + e1 + e2):
        return 0
    t, a, b = ts[0], e1[0], e2[0]
    if not (isinstance(t, tuple) and len(t) == 3 and all(isinstance(x, tuple) and isinstance(x[0], dict) for x in (a, b))):
        return 0
    losses, s1, s2 = t[1], a[0], b[0]
    out(set(losses) == set(s1), "names", "validation reports the terms that training reports", f"{sorted(set(losses) ^ set(s1))}; {case}")

    def final(name):
        x, y = s1[name], s2[name]
        c = it.method_call(x, "combine", [y])
        return it.method_call(c, "finalize", [])
    it.method_call = lambda o, m, args: it.call_func(it.as_fn(o.cls.find(m)), args, {}, bound=o)
    for name in sorted(set(losses) & set(s1)):
        if not isinstance(s1[name], Obj):
            continue
        rs = [r for r, _ in it.runs(lambda it: final(name))]
        if len(rs) != 1 or isinstance(rs[0], Unknown):
            continue
        v, want = num(rs[0]), num(losses[name])
        if v is None or want is None:
            continue
        kind = "total" if name == "total_loss" else "term"
        out(v == want, kind, f"{'teacher: ' if name.startswith('kd_') else ''}{name.removeprefix('kd_')} agrees", case)
    tot = num(t[0])
    if tot is not None and num(losses.get("total_loss")) is not None:
        out(tot == num(losses["total_loss"]), "total", "the total training reports is the one it minimises", case)
    return 1


# ---------------------------------------------------------------- values: rows are terms, whole-batch numbers are their images in a random field
def num(v):
    return Q(v) if isinstance(v, (int, float, Q)) and not isinstance(v, bool) else None


def atom(*k):
    h = hashlib.blake2b(repr(k).encode(), digest_size=8).digest()
    return Q(int.from_bytes(h[:4], "big") + 1, int.from_bytes(h[4:], "big") * 2 + 1)


@functools.lru_cache(maxsize=200000)
def leaves(k):
    """are there rows in a term"""
    if not isinstance(k, tuple):
        return isinstance(k, Sym) and leaves(k.k)
    return len(k) == 3 and k[0] == "rows" or any(isinstance(x, tuple) and leaves(x) for x in k)


def can(k):
    """numbers in terms are made comparable"""
    if isinstance(k, bool) or k is None or isinstance(k, str):
        return k
    if isinstance(k, (int, float, Q)):
        return ("n", str(Q(k)))
    if isinstance(k, (tuple, list)):
        return tuple(can(x) for x in k)
    return k


def width(k, w):
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == "rows":
            return w.get(k[1], "C")
        for x in k:
            r = width(x, w)
            if r is not None:
                return r
    return None


def build(P):
    pr = prims(P)
    flag = ("flags",)
    rows = lambda v: isinstance(v, Sym) and bool(leaves(v.k))
    wd = lambda k, it: width(k, it.widths) if width(k, it.widths) is not None else "C"
    wn = lambda x: atom("C") if x == "C" else x
    B = lambda it: sum(atom("rows", r) for r in it.ranks)
    N = lambda it, k: B(it) * (Q(wn(wd(k, it))) if ndim(k) > 1 else 1)

    def S(it, k):
        if k[:2] == ("bin", "linear"):
            return sum((Q(c) * (N(it, k) if t is None else S(it, t)) for c, t in k[2]), Q(0))
        if k[:2] == ("row", "zero"):
            return Q(0)
        return sum(atom("sum", can(k), r) for r in it.ranks)

    def rowop(m, *k):
        if m == "flatten" and isinstance(k[0], tuple) and k[0][:2] == ("row", "flatten"):
            return Sym(*k[0])
        if m == "flatten" and ndim(k[0]) < 2:
            return Sym(*k[0])
        return Sym("row", m, *[can(x) for x in k])

    def binary(it, op, a, b):
        if rows(a) or rows(b):
            if op == "Pow" and num(b) == 2 or op == "Mult" and a == b:
                return square(a.k)
            x, y = linear(a), linear(b)
            if op in ("Add", "Sub") and x is not None and y is not None:
                return unlinear(x, y, 1 if op == "Add" else -1)
            if op == "Mult" and num(a) is not None:
                return unlinear((), y, num(a))
            if op in ("Mult", "Div") and num(b) is not None and (op == "Mult" or num(b)):
                return unlinear((), x, num(b) if op == "Mult" else 1 / num(b))
            ks = [can(key(a)), can(key(b))]
            return Sym("bin", op, *(sorted(ks, key=repr) if op in COMM or op in ("Eq", "BitAnd", "BitOr") else ks))
        x, y = num(a), num(b)
        if x is None or y is None or not (isinstance(a, Q) or isinstance(b, Q)):
            return None
        try:
            return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Div": lambda: x / y, "Pow": lambda: x ** int(y)}[op]()
        except (KeyError, ZeroDivisionError):
            return None

    def linear(v):
        """{term: coefficient}; the term None is the constant"""
        if num(v) is not None:
            return {None: num(v)}
        if not isinstance(v, Sym):
            return None
        if v.k[:2] == ("bin", "linear"):
            return {t: Q(c) for c, t in v.k[2]}
        return {can(v.k): Q(1)}

    def unlinear(x, y, f):
        d = dict(x)
        for t, c in y.items():
            d[t] = d.get(t, Q(0)) + f * c
        ts = {t: c for t, c in d.items() if c}
        if list(ts.values()) == [1] and None not in ts:
            return Sym(*next(iter(ts)))
        if not any(t is not None for t in ts):
            t = next((t for t in d if t is not None), None)
            return Sym("row", "zero", t) if t is not None and not ts else Sym("row", "const", t, str(ts.get(None, 0)))
        return Sym("bin", "linear", tuple(sorted(((str(c), t) for t, c in ts.items()), key=repr)))

    def square(k):
        if k[:2] == ("bin", "linear"):
            if k[2][0][0].startswith("-"):
                k = unlinear({}, linear(Sym(*k)), -1).k
        return Sym("row", "sq", k)

    def ew(k, m, a, kw):
        """a method or torch function on rows"""
        if m in SAME:
            return Sym(*k)
        if m == "square" or m == "pow" and num(a[0]) == 2:
            return square(k)
        dim = kw.get("dim", a[0] if a and isinstance(a[0], int) else None)
        if m in ("softmax", "log_softmax", "argmax", "squeeze", "unsqueeze", "cumsum") and isinstance(dim, int):
            return rowop(m, k, dim if dim >= 0 or m == "unsqueeze" else ndim(k) + dim)
        if isinstance(dim, int) and dim < 0:
            dim += ndim(k)
        if m in RED:
            if dim == 1 and ndim(k) > 1:
                return Sym("per-row", m, can(k))
            if dim is None or dim == 0 and ndim(k) == 1:
                if k[:2] == ("row", "zero"):
                    return Q(0)
                return S(it_[0], k) if m == "sum" else S(it_[0], k) / N(it_[0], k)
        if m in ("numel",):
            return N(it_[0], k)
        if m in ("size",) and a:
            return B(it_[0]) if a[0] == 0 else wn(wd(k, it_[0]))
        if m in ("dim", "ndimension"):
            return ndim(k)
        if m in ("view", "reshape") and len(a) == 2 and num(a[1]) == -1 or m == "flatten":
            return rowop("flatten", k)
        if m in ("new_tensor",):
            return Q(num(a[0]))
        if m in ("where", "clamp", "minimum", "maximum"):
            return rowop(m, k, key(a), key(kw))
        return rowop(m, k, key([x for x in a]), key(kw))
    it_ = [None]

    def call(it, f, a, k):
        it_[0] = it
        if not isinstance(f, Sym) or f.k[0] != "attr":
            return None
        base, m = f.k[1], f.k[2]
        if base == flag:
            return Sym(*flag)
        if isinstance(base, tuple) and base and base[0] == "q":
            return number(Q(base[1]), m, a)
        if isinstance(base, tuple) and leaves(base):
            return ew(base, m, a, k)
        return None

    def number(v, m, a):
        if m in SAME or m in ("item", "sum", "mean", "any", "all"):
            return v
        if m == "square":
            return v * v
        if m == "abs":
            return abs(v)
        if m == "new_tensor":
            return Q(num(a[0]))
        if m in ("new_zeros", "zeros_like"):
            return Q(0)
        return None

    def attr(it, o, a):
        it_[0] = it
        if isinstance(o, (Q, int, float)) and not isinstance(o, bool):
            if a in ("shape", "dtype", "device"):
                return () if a == "shape" else a
            if a == "ndim":
                return 0
            return Sym("attr", ("q", str(Q(o))), a)
        if isinstance(o, Sym) and (o.k == flag or leaves(o.k)):
            if a == "shape":
                return (B(it),) if o.k == flag else (B(it), wn(wd(o.k, it)))[:ndim(o.k)]
            if a == "ndim":
                return 1 if o.k == flag else ndim(o.k)
            if a in ("device", "dtype"):
                return a
        return None

    def getitem(it, o, i):
        if rows(o):
            j = i[0] if isinstance(i, tuple) and i else i
            if j == Sym(*flag):
                return o
            if isinstance(i, tuple) and isinstance(j, slice) and j == slice(None):
                return Sym("row", "item", can(o.k), tuple(i[1:]) if all(isinstance(x, int) for x in i[1:]) else can(key(i[1:])))
            return Sym("row", "part", can(o.k), "slice" if isinstance(j, slice) else can(key(j)))
        return None

    def compare(it, op, a, b):
        if op in ("Is", "IsNot"):
            if (rows(a) or rows(b) or isinstance(a, Q) or isinstance(b, Q)) and (a is None or b is None):
                return op == "IsNot"
            return None
        if op in ("In", "NotIn"):
            return None
        if isinstance(a, (list, dict)) and isinstance(b, (list, dict)) and all(isinstance(x, str) for x in list(a) + list(b)):
            x, y = set(a), set(b)
            return {"Eq": x == y, "NotEq": x != y, "LtE": x <= y, "GtE": x >= y, "Lt": x < y, "Gt": x > y}[op]
        if isinstance(a, Q) or isinstance(b, Q):
            x, y = num(a), num(b)
            if x is not None and y is not None:
                return {"Eq": x == y, "NotEq": x != y, "LtE": x <= y, "GtE": x >= y, "Lt": x < y, "Gt": x > y}[op]
        if rows(a) or rows(b):
            ks = [can(key(a)), can(key(b))]
            return Sym("bin", op, *(sorted(ks, key=repr) if op in ("Eq", "NotEq") else ks))
        return None

    def length(it, a, k):
        if isinstance(a[0], Sym):
            return B(it) if rows(a[0]) or a[0].k == flag else Sym("len", key(a[0]))
        return len(a[0])

    def fn(m):
        def go(it, a, k):
            it_[0] = it
            if isinstance(a[0], (Q, int, float)) and not isinstance(a[0], bool):
                r = number(Q(a[0]), m, a[1:])
                return r if r is not None else Sym("call", m, key(a))
            if isinstance(a[0], bool):
                return a[0]
            return ew(a[0].k, m, list(a[1:]), {x: y for x, y in k.items() if x != "start_dim"}) if rows(a[0]) else Sym("row", m, can(key(a)), can(key(k)))
        return go

    def elementwise(m):
        def go(it, a, k):
            it_[0] = it
            names = ("input", "target", "size_average", "reduce", "reduction")
            v = dict(zip(names, a))
            v.update(k)
            x, y = v["input"], v["target"]
            rest = {q: can(key(z)) for q, z in v.items() if q not in names}
            if m == "mse_loss":
                r = binary(it, "Pow", binary(it, "Sub", x, y), 2)
            else:
                r = Sym("row", m, can(key(x)), can(key(y)), tuple(sorted(rest.items())))
            red = v.get("reduction", "mean")
            return r if red == "none" else ew(r.k, red, [], {})
        return go
    both = lambda m: elementwise(m)
    first = lambda it, a, k: a[0]

    def nxt(it, a, k):
        x = a[0] if isinstance(a[0], list) else list(a[0]) if isinstance(a[0], (tuple, dict)) else None
        return x[0] if x else (a[1] if len(a) > 1 else Sym("next", key(a[0])))
    pr.update({"call": call, "attr": attr, "getitem": getitem, "compare": compare, "bin": binary, "len": length, "float": first, "int": first, "iter": first, "next": nxt,
               "set": lambda it, a, k: list(dict.fromkeys(a[0])) if a else [], "dict": lambda it, a, k: dict(a[0] if a else {}, **k), "torch.tensor": lambda it, a, k: Q(a[0]) if isinstance(a[0], (int, float)) else a[0],
               "torch.ones": lambda it, a, k: Sym(*flag), "torch.ones_like": lambda it, a, k: Q(1), "torch.maximum": lambda it, a, k: max(a[0], a[1]) if all(isinstance(x, Q) for x in a[:2]) else rowop("maximum", key(a[0]), key(a[1])),
               "torch.finfo": lambda it, a, k: Obj(None, eps=Q(1, 2 ** 20)), "isinstance": isinst(pr["isinstance"], rows, flag), "sorted": lambda it, a, k: sorted(a[0]) if all(isinstance(x, str) for x in a[0]) else list(a[0])})
    for m in ("sum", "mean", "any", "all", "softmax", "sigmoid", "log", "exp", "abs", "clamp", "flatten", "square", "log_softmax", "sqrt"):
        pr["torch." + m] = pr["torch.nn.functional." + m] = fn(m)
    pr["torch.where"] = lambda it, a, k: rowop("where", *[key(x) for x in a])
    for m in ("mse_loss", "huber_loss", "smooth_l1_loss", "l1_loss", "binary_cross_entropy_with_logits"):
        pr["torch.nn.functional." + m] = both(m)
    return pr


def isinst(old, rows, flag):
    inner = _inst(old, rows, flag)

    def go(it, a, k):
        if isinstance(a[0], Q):
            cs = a[1] if isinstance(a[1], (tuple, list)) else [a[1]]
            return any(isinstance(c, Sym) and str(c.k[-1]).split(".")[-1] in ("Tensor", "int", "float") for c in cs)
        return inner(it, a, k)
    return go
