"""D08: data filter expressions only select rows, within fixed limits."""
import ast
from sa.absval import U, V, refuted, world, ev, content
from sa.flow import alts, flow, has, show, subterms
from sa.lib import calls, norm, path_str, returns
from sa.project import AnchorError, dotted
from sa.rules import NORMAL, argval, assigned, covers_all, edges, every_round, falsy, helpers, inner_loop, method, must_pass, stores_to, whole

SELF = ("self",)
MOD = "dataset.filter"
A = lambda n: ("attr", SELF, n)
P_ = lambda n: ("param", n)
UN = {"UAdd": ("pos",), "USub": ("neg",), "Invert": ("invert", "inv", "not_")}
BI = {"Add": ("add",), "Sub": ("sub",), "Mult": ("mul",), "Div": ("truediv",), "FloorDiv": ("floordiv",), "Mod": ("mod",), "Pow": ("pow",), "BitAnd": ("and_",),
      "BitOr": ("or_",), "BitXor": ("xor",), "RShift": ("rshift",)}
CO = {"Eq": ("eq",), "NotEq": ("ne",), "Lt": ("lt",), "LtE": ("le",), "Gt": ("gt",), "GtE": ("ge",)}
# numpy functions of one or two arrays that compute one value per element of the broadcast inputs
FN = {"abs": ("abs", "absolute"), "isfinite": ("isfinite",), "isnan": ("isnan",), "logical_and": ("logical_and",), "logical_or": ("logical_or",), "logical_not": ("logical_not",)}
ELEMENTWISE = {"abs", "absolute", "isfinite", "isnan", "isinf", "logical_and", "logical_or", "logical_not", "logical_xor", "sign", "floor", "ceil", "rint", "trunc", "sqrt", "square",
               "minimum", "maximum", "signbit", "fabs", "equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "add", "subtract", "multiply", "exp", "log"}
UNSAFE = {"eval", "exec", "compile", "__import__", "open", "setattr", "delattr", "globals", "vars", "getattr"}
BYTES, NODES, DEPTH, ITEMS, MEM, ROWS, MINEL = 4096, 128, 16, 64, 64 << 20, 8, 4096
EVENTS = {"_eval", "_index_literal", "_literal", "_check_result_allocation", "_check_array", "_check_depth", "evaluate"}


def pol(f, call, ctx):
    return f.module.name == MOD and f.name not in EVENTS


def run(P, rep):
    rep.rule("whitelist", "each operator, comparison and function name is bound to its own element-wise operation and nothing else can be called")
    rep.rule("parsed", "length, syntax, node count, nesting, field names and types are validated before anything is evaluated")
    rep.rule("limits", "every limit raises once exceeded")
    rep.rule("bounded", "the size of an element-wise result is checked for all its operands before it is computed, and every result is checked")
    rep.rule("literals", "only finite numbers, integer indexes and bounded literals are accepted")
    rep.rule("result", "the result is a boolean vector with one entry per row")
    rep.rule("pure", "evaluating calls nothing that could change the data or run code")
    rep.rule("rows", "the accepted rows, and only those, are taken from every field")
    c = P.cls(MOD + ":SafeFilterEvaluator")
    tables(P, rep)
    constructor(P, rep, c)
    limits(P, rep, c)
    evaluator(P, rep, c)
    literals(P, rep, c)
    index(P, rep, c)
    result(P, rep, c)
    consumers(P, rep)


def tables(P, rep):
    m = P.module(MOD)

    def full(e):
        d = dotted(e)
        r = m.resolve(d) if d else None
        return r if isinstance(r, str) else getattr(r, "qual", None)
    n = 0
    for name, want, lib in (("_UNARY", UN, "operator"), ("_BINARY", BI, "operator"), ("_COMPARE", CO, "operator"), ("_FUNCTIONS", FN, "numpy")):
        d = m.assigns.get(name)
        if not isinstance(d, ast.Dict):
            raise AnchorError(f"{MOD}.{name} is a literal table")
        for k, v in zip(d.keys, d.values):
            key = k.value if isinstance(k, ast.Constant) else (full(k) or "?").split(".")[-1] if k is not None else None
            f = full(v) or ast.unparse(v)
            ok = key in want and f in [f"{lib}.{x}" for x in want[key]]
            if not ok and lib == "numpy" and key is not None and key not in FN:
                ok = f.startswith("numpy.") and f[6:] in ELEMENTWISE
            if not ok and key in ("BitAnd", "BitOr", "BitXor", "Invert") or not ok and lib == "operator":
                ok = key in want and f in [f"numpy.{x}" for x in {"Add": ["add"], "Sub": ["subtract"], "Mult": ["multiply"], "Mod": ["mod", "remainder"]}.get(key, [])]
            rep.check(ok, "whitelist", f"{name}[{key}] is bound to its own operation", f"{m.rel}:{v.lineno}", f"bound to {f}")
            n += 1
    rep.floor("whitelisted operations", n, 20)
    # nothing rebinds or extends the tables
    for f in P.all_funcs:
        if f.module.name != MOD:
            continue
        for x in ast.walk(f.node):
            t = None
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for y in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(y, ast.Subscript):
                        t = dotted(y.value)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("update", "setdefault", "pop", "clear"):
                t = dotted(x.func.value)
            if t in ("_UNARY", "_BINARY", "_COMPARE", "_FUNCTIONS"):
                rep.bad("whitelist", f"{t} changed at run time", f.where(x), "the table is not constant")
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in UNSAFE:
                if x.func.id == "getattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    continue
                rep.bad("pure", f"no dynamic code in {f.qual}", f.where(x), f"calls {x.func.id}()")
    rep.seen(*[f for f in P.all_funcs if f.module.name == MOD])


def unreachable(rep, fl, rule, what, where, env, dsts, srcs=None, why="", avoid=(), edge=None, P=None, **kw):
    r = refuted(fl, env, (lambda t: norm(P, t)) if P else None)
    e = r if edge is None else (lambda n, s, l: r(n, s, l) or edge(n, s, l))
    p = fl.find_path(srcs or [fl.g.entry], dsts, avoid=avoid, avoid_edge=e, skip_labels=NORMAL, **kw) if dsts else None
    return rep.check(p is None, rule, what, where, (why + ": " if why else "") + path_str(p))


def reachable(rep, fl, rule, what, where, env, dsts, P=None, **kw):
    r = refuted(fl, env, (lambda t: norm(P, t)) if P else None)
    p = fl.find_path(kw.pop("srcs", [fl.g.entry]), dsts, avoid_edge=r, skip_labels=NORMAL, **kw)
    return rep.check(p is not None, rule, what, where, "refused")


def iscall(name, *preds):
    return lambda t: t[0] == "call" and t[1].split(".")[-1] == name and all(i < len(t[2]) and p(t[2][i]) for i, p in enumerate(preds))


def constructor(P, rep, c):
    m = c.find("__init__")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    parse = [n for n in calls(fl, lambda x: x and x[0] == "global" and x[1] == "ast.parse", True)]
    if not parse:
        raise AnchorError("filter expression is parsed")
    exprp = P_("expression")
    for n in parse:
        rep.check(norm(P, argval(fl, n, 0, "source", ("const", None))) in (exprp, A("expression")), "parsed", "the given expression is parsed", n.where())
        mode = argval(fl, n, 2, "mode", ("const", "exec"))
        rep.check(mode == ("const", "eval"), "parsed", "parsed as one expression", n.where(), f"mode {show(mode)}")
        p = fl.find_path([n], [fl.g.exit], src_labels=("exc", "excb"), skip_labels=())
        rep.check(p is None, "parsed", "a syntax error is an error", n.where(), path_str(p))
    enc = lambda t: t[0] == "call" and t[1] == "len" and has(t, lambda y: y[0] == "mcall" and y[2] == "encode" and y[1] in (exprp, A("expression")))
    for k, want in ((BYTES + 1, False), (BYTES, True)):
        if not want:
            unreachable(rep, fl, "parsed", "an over-long expression is never parsed", m.where(), world((enc, k)), parse)
        else:
            reachable(rep, fl, "parsed", "an expression of the longest length is parsed", m.where(), world((enc, k)), parse)
    walked = lambda t: t[0] == "call" and t[1] in ("len", "sum") and has(t, lambda y: y[0] == "call" and y[1] == "ast.walk" and has(y, lambda z: z[0] == "call" and z[1] == "ast.parse" or z == A("tree")))
    unreachable(rep, fl, "parsed", "an expression with too many syntax nodes is refused", m.where(), world((walked, NODES + 1)), [fl.g.exit])
    reachable(rep, fl, "parsed", "an expression with the most syntax nodes is accepted", m.where(), world((walked, NODES)), [fl.g.exit])
    dep = [n for n in method(fl, "_check_depth") if fl.recv(n) == SELF]
    p = must_pass(fl, [fl.g.entry], [fl.g.exit], dep)
    rep.check(bool(dep) and p is None, "parsed", "nesting is checked", m.where(), path_str(p))
    tree = [v for _, t, v in stores_to(fl, lambda t: t == A("tree"))]
    istree = lambda t: t == A("tree") or t[0] == "call" and t[1] == "ast.parse"
    rep.check(bool(tree) and all(istree(a) for v in tree for a in alts(norm(P, v))), "parsed", "the validated expression is the one kept", m.where(), str([show(v)[:60] for v in tree]))
    for n in dep:
        rep.check(istree(norm(P, argval(fl, n, 0, "node", ("const", None)))) and content(ev(argval(fl, n, 1, "depth", ("const", 1)), world())) in (0, 1), "parsed", "nesting is counted from the root", n.where())
    # fields
    arr = lambda t: t in (P_("arrays"), A("arrays"))
    kept = [v for _, t, v in stores_to(fl, lambda t: t == A("arrays"))]
    rep.check(bool(kept) and all(arr(norm(P, v)) for v in kept), "parsed", "the validated fields are the ones used", m.where(), str([show(v)[:60] for v in kept]))
    chk = [n for n in method(fl, "_check_array") if fl.recv(n) == SELF]
    heads = [h for h in fl.g.live if h.kind == "for" and whole(norm(P, fl.term(h, h.expr)), arr)]
    if not rep.check(bool(heads), "parsed", "every field is validated", m.where(), "no loop over the fields"):
        return
    for h in heads:
        p = every_round(fl, h, chk)
        rep.check(bool(chk) and p is None, "parsed", "every field's type is checked", h.where(), path_str(p))
        for n in chk:
            rep.check(argval(fl, n, 2, "allocated", ("const", True)) == ("const", False), "parsed", "fields are not subject to the result limit", n.where())
        body = fl.loop_body(h)
        sw = lambda t: t[0] == "mcall" and t[2] == "startswith" and t[3] and t[3][0] in (("const", "__"), ("const", "_"))
        unreachable(rep, fl, "parsed", "a field with a dunder name is refused", h.where(), world((sw, True)), [h, fl.g.exit], srcs=[h], src_labels=("it",))
        p = must_pass(fl, [fl.g.entry], [fl.g.exit], [h])
        rep.check(p is None, "parsed", "the fields are always validated", h.where(), path_str(p))
    mx = [(n, v) for n, t, v in stores_to(fl, lambda t: t == A("max_elements"))]
    if not rep.check(bool(mx), "limits", "the element limit is set", m.where(), "never stored"):
        return
    rows = lambda t: t == A("length") or iscall("len")(t)
    for n, v in mx:
        for r in (0, 100, 10000):
            got = content(ev(norm(P, v), world((rows, r))))
            rep.check(got is not U and got <= max(MINEL, ROWS * r), "limits", f"element limit for {r} rows", n.where(), f"limit is {'?' if got is U else got}")
    for f in c.methods.values():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in ("max_elements", "arrays", "tree", "length") and f.name != "__init__" and f.name in ("_eval", "evaluate", "_index_literal", "_literal"):
                rep.bad("limits", f"{x.attr} constant after construction", f.where(x), f"{f.name} changes it")
    ln = [v for _, t, v in stores_to(fl, lambda t: t == A("length"))]
    rep.check(bool(ln) and all(iscall("len")(norm(P, v)) and has(v, arr) for v in ln), "result", "the row count is the fields'", m.where(), str([show(v)[:80] for v in ln]))


def limits(P, rep, c):
    # allocation estimate
    m = c.find("_check_result_allocation")
    if m is None:
        return rep.bad("limits", "allocation estimate", c.qual, "no check of a result's size")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    el = lambda t: t[0] == "call" and t[1].split(".")[-1] in ("prod",) and has(t, lambda y: y == P_("shape"))
    by = lambda t: t[0] == "bin" and t[1] == "Mult" and has(t, el) and has(t, lambda y: y == P_("itemsize"))
    for e, b, what in ((10001, 1, "elements"), (10, MEM + 1, "bytes")):
        unreachable(rep, fl, "limits", f"a result over the {what} limit is refused", m.where(), world((by, b), (el, e), (A("max_elements"), 10000)), [fl.g.exit], P=P)
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid_edge=refuted(fl, world((by, 10000), (el, 10000), (A("max_elements"), 10000)), lambda t: norm(P, t)), skip_labels=NORMAL)
    rep.check(p is not None, "limits", "a result within the limits is accepted", m.where())
    m = c.find("_check_array")
    if m is None:
        return rep.bad("limits", "check of results", c.qual, "results are not checked")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    v = P_("value")
    arr = (v, V("ndarray"))
    kind = lambda t: t == ("attr", ("attr", v, "dtype"), "kind")
    size, nb = ("attr", v, "size"), ("attr", v, "nbytes")
    base = [arr, (A("max_elements"), 10000)]
    for k in "OSUVmMc":
        unreachable(rep, fl, "limits", f"arrays of kind {k} are refused", m.where(), world((kind, k), *base), [fl.g.exit], P=P)
    for al, what, s, b in ((True, "elements", 10001, 8), (True, "bytes", 10, MEM + 1)):
        unreachable(rep, fl, "limits", f"an intermediate over the {what} limit is refused", m.where(), world((kind, "f"), (size, s), (nb, b), (P_("allocated"), True), *base), [fl.g.exit], P=P)
    for n, t in returns(fl):
        rep.check(norm(P, t) == v, "limits", "the checked value is returned", n.where(), show(t))
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=[n for n, _ in returns(fl)], skip_labels=NORMAL)
    rep.check(p is None, "limits", "the checked value is always returned", m.where(), path_str(p))
    reachable(rep, fl, "limits", "a result at the limits is accepted", m.where(), world((kind, "f"), (size, 10000), (nb, MEM), (P_("allocated"), True), *base), [fl.g.exit], P=P)
    reachable(rep, fl, "limits", "a field of any size is accepted", m.where(), world((kind, "f"), (size, 10001), (nb, MEM + 1), (P_("allocated"), False), *base), [fl.g.exit], P=P)
    unreachable(rep, fl, "limits", "values that are not arrays are passed on", m.where(), world((v, V("int"))), [n for n in fl.g.live if n.kind == "raise"], P=P)
    d = {a.arg: x for a, x in zip(m.node.args.kwonlyargs, m.node.args.kw_defaults)} | dict(zip([a.arg for a in m.node.args.args][len(m.node.args.args) - len(m.node.args.defaults):], m.node.args.defaults))
    x = d.get("allocated")
    rep.check(x is not None and isinstance(x, ast.Constant) and x.value is True, "limits", "results count as allocated by default", m.where())
    # depth
    m = c.find("_check_depth")
    if m is None:
        return rep.bad("limits", "nesting limit", c.qual, "no nesting check")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    unreachable(rep, fl, "limits", "nesting over the limit is refused", m.where(), world((P_("depth"), DEPTH + 1)), [fl.g.exit] + [h for h in fl.g.live if h.kind == "for"], P=P)
    reachable(rep, fl, "limits", "nesting at the limit is accepted", m.where(), world((P_("depth"), DEPTH)), [fl.g.exit], P=P)
    rec = [n for n in method(fl, "_check_depth") if fl.recv(n) == SELF]
    kids = lambda t: t[0] == "call" and t[1] == "ast.iter_child_nodes" and t[2] == (P_("node"),)
    got = covers_all(P, rep, fl, "limits", "nesting of every child is checked", rec, kids)
    for n in rec:
        d0 = content(ev(norm(P, argval(fl, n, 1, "depth", ("const", None))), world((P_("depth"), 5))))
        rep.check(d0 == 6, "limits", "a child is one level deeper", n.where(), show(argval(fl, n, 1, "depth", ("const", None))))


def dynamic(fl, n):
    """term called by a call whose callee is a value"""
    t = fl.term(n, n.call)
    return t if t[0] == "vcall" else None


def evaluator(P, rep, c):
    m = c.find("_eval")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    N = lambda t: norm(P, t)
    node = P_("node")
    own = lambda n, *names: [x for x in method(fl, *names) if fl.recv(x) == SELF]
    alloc = own(fl, "_check_result_allocation")
    isev = lambda t: t[0] == "mcall" and t[1] == SELF and t[2] == "_eval"
    calls_ = []
    for n in calls(fl, None, True):
        ce = fl.callee(n)
        if not ce:
            continue
        if ce[0] in ("expr", "var", "local", "dynamic", "unknown"):
            t = dynamic(fl, n)
            if t is None:
                t = fl.term(n, n.call)
            calls_.append((n, t))
        elif ce[0] == "global":
            name = ce[1].split(".")
            if name[0] == "numpy" and name[-1] not in ("broadcast_shapes", "shape", "ndim", "isscalar", "result_type", "broadcast"):
                rep.check(name[-1] in ELEMENTWISE, "pure", f"numpy.{name[-1]} in the evaluator is element-wise", n.where(), "computes something else")
                if name[-1] in ELEMENTWISE:
                    calls_.append((n, fl.term(n, n.call)))
            elif name[0] == "operator" and len(name) == 2:
                rep.check(name[-1] in {x for d in (UN, BI, CO) for v in d.values() for x in v} | {"index"}, "pure", f"operator.{name[-1]} in the evaluator", n.where(), "not one of the operators")
                calls_.append((n, fl.term(n, n.call)))
            elif name[0] in ("os", "subprocess", "pickle", "importlib", "builtins", "sys", "io", "pathlib"):
                rep.bad("pure", f"{ce[1]} in the evaluator", n.where(), "not an element-wise operation")
    kinds = {}
    nodeop = lambda nm: (lambda t: t == ("attr", node, "op"), V(nm, "operator"))
    nonarr = edges(fl, falsy(lambda t: t[0] == "comp" and has(t, lambda y: y[0] == "call" and y[1] == "isinstance")))
    noarr2 = edges(fl, lambda a: a[0] == "not" and a[1][0] == "call" and a[1][1] in ("any", "isinstance") and has(a, lambda y: y[0] == "global" and y[1] == "numpy.ndarray"))
    first = edges(fl, lambda a: a[0] == "cmp" and a[1] == "is" and ("const", None) in a[2:])
    for n, t in calls_:
        f = t[1] if t[0] == "vcall" else None
        args = tuple(t[2])
        tab = f[1][1] if f is not None and f[0] == "idx" and f[1][0] == "global" else None
        if t[0] == "call":
            kind = "combine"
        elif tab in (f"{MOD}._UNARY", f"{MOD}._BINARY", f"{MOD}._COMPARE"):
            kind = tab.split(".")[-1]
            key = N(f[2])
            ok = key[0] == "call" and key[1] == "type" and (key[2] == (("attr", node, "op"),) if kind != "_COMPARE" else has(key, lambda y: y == ("attr", node, "ops")))
            rep.check(ok, "whitelist", f"{kind} is looked up by the expression's operator", n.where(), show(f)[:100])
        else:
            kind = "_FUNCTIONS"
            guard = edges(fl, lambda a: a[0] == "cmp" and a[1] == "in" and N(a[2]) == N(f) and a[3][0] in ("call", "mcall") and "values" in str(a[3][1:3]) and f"{MOD}._FUNCTIONS" in str(a[3]))
            g2 = (f[0] == "idx" and f[1] == ("global", f"{MOD}._FUNCTIONS"))
            p = None if g2 else must_pass(fl, [fl.g.entry], [n], [], edge=guard)
            rep.check(p is None, "whitelist", "only listed functions are called", n.where(), f"calls {show(f)[:60]} unchecked: " + path_str(p))
            kw = lambda t: t == ("attr", node, "keywords")
            unreachable(rep, fl, "pure", "functions take no keyword arguments", n.where(), world((kw, 1), (lambda t: iscall("len", kw)(t), 1)), [n], P=P)
            la = lambda t: t[0] == "call" and t[1] == "len" and has(t, lambda y: y == ("attr", node, "args"))
            unreachable(rep, fl, "pure", "functions take exactly their inputs", n.where(), world((la, 3), (lambda t: t[0] == "attr" and t[2] == "nin", 2)), [n], P=P,
                        why="an extra argument is an output array the function writes into")
            rep.check(not t[3], "pure", "functions are called without options", n.where(), show(t)[:100])
        kinds.setdefault(kind, []).append(n)
        # pre-allocation
        vals = {y for a in args for y in subterms(a) if isev(y)} if kind != "combine" else set()
        if kind in ("_BINARY", "_COMPARE", "combine"):
            for a in args:
                rep_ok = any(has_all(fl, x, a) for x in alloc)
                rep.check(rep_ok, "bounded", f"{kind} result size accounts for every operand", n.where(), f"operand {show(a)[:80]} is not part of any size check")
        mine = [x for x in alloc if all(has_all(fl, x, a) for a in args)]
        p = must_pass(fl, [fl.g.entry], [n], mine, edge=lambda a, b, l: nonarr(a, b, l) or noarr2(a, b, l))
        if inner_loop(fl, n) is not None:
            h = inner_loop(fl, n)
            p = fl.find_path([h], [n], avoid=mine, avoid_edge=lambda a, b, l: nonarr(a, b, l) or noarr2(a, b, l), src_labels=("it",), skip_labels=NORMAL)
        rep.check(bool(mine) and p is None, "bounded", f"{kind} result size is checked before it is computed", n.where(), path_str(p))
        want = {"_UNARY": [("operand",)], "_BINARY": [("left",), ("right",)]}.get(kind)
        if want:
            ok = len(args) == len(want) and all(N(a) == ("mcall", SELF, "_eval", (("attr", node, w[0]),), ()) for a, w in zip(args, want))
            rep.check(ok, "whitelist", f"{kind} is applied to its operands in order", n.where(), show(t)[:140])
        elif kind == "_FUNCTIONS":
            a = N(args[0]) if len(args) == 1 else ("?",)
            a = N(a[1]) if a[0] == "star" else a
            ok = a[0] == "comp" and not a[4] and len(a[3]) == 1 and whole(a[3][0], lambda y: y == ("attr", node, "args")) is not None and a[2] == ("mcall", SELF, "_eval", (("elem", ("attr", node, "args")),), ())
            rep.check(ok, "whitelist", "a function is applied to all its arguments in order", n.where(), show(t)[:140])
        elif kind == "_COMPARE":
            chain(P, rep, fl, n, args, node, N)
    for k in ("_UNARY", "_BINARY", "_COMPARE", "_FUNCTIONS"):
        if not kinds.get(k):
            rep.bad("whitelist", f"{k} operations are evaluated through the table", m.where(), "no such call")
    for x in alloc:
        it = argval(fl, x, 1, "itemsize", ("const", 0))
        for what, t in (("shape", argval(fl, x, 0, "shape", ("const", 0))), ("item size", it)):
            part = [y for y in subterms(N(t)) if y[0] == "comp" and not all(whole(i, lambda z: z[0] in ("seq", "comp", "mcall", "set")) is not None or i[0] == "attr" for i in y[3])]
            rep.check(not part, "bounded", f"the {what} estimate covers all operands", x.where(), str([show(y)[:80] for y in part]))
        ok = has(it, lambda y: y[0] == "attr" and y[2] == "itemsize" or y == ("const", "itemsize")) and not has(it, lambda y: y[0] == "call" and y[1] == "min")
        rep.check(ok, "bounded", "the estimate uses the operands' item size", x.where(), show(it)[:80])
    syntax(P, rep, fl, node, N, m)
    # exponent
    for n in kinds.get("_BINARY", []):
        rv = ("attr", ("attr", node, "right"), "value")
        rt = ("attr", node, "right")
        powr = (("attr", node, "op"), V("Pow", "operator"))
        for what, pairs in (("over 8", [(rv, 9), (rt, V("Constant"))]), ("not an integer", [(rv, 0.5), (rt, V("Constant"))]), ("computed", [(rt, V("BinOp"))])):
            unreachable(rep, fl, "limits", f"an exponent {what} is refused", n.where(), world(powr, *pairs), [n], P=P)
        res = lambda t: t[0] == "vcall" and t[1][0] == "idx" and t[1][1] == ("global", f"{MOD}._BINARY")
        big = lambda t: t[0] == "mcall" and t[2] == "bit_length" and res(t[1])
        unreachable(rep, fl, "limits", "an integer wider than 64 bits is refused", n.where(), world((big, 65), (res, V("int"))), [r for r, _ in returns(fl)], srcs=[n], P=P)
        anyt = lambda t: t[0] == "call" and t[1] == "any" and has(t, lambda y: y == ("global", "tuple"))
        anya = lambda t: t[0] == "call" and t[1] == "any" and has(t, lambda y: y == ("global", "numpy.ndarray"))
        unreachable(rep, fl, "limits", "repeating a sequence is refused", n.where(), world((("attr", node, "op"), V("Mult", "operator")), (anyt, True), (anya, False)), [n], P=P)
    # sub-expressions
    for n in own(fl, "_eval"):
        a = N(argval(fl, n, 0, "node", ("const", None)))
        rep.check(has(a, lambda y: y == node) and a != node, "pure", "only parts of the expression are evaluated", n.where(), show(a)[:80])
    # subscripts: indexes come from the index literal, arrays only
    subs = []
    for n, t in assigned(fl) + returns(fl):
        for y in subterms(t):
            if y[0] == "idx" and isev(N(y[1])):
                subs.append((n, y))
    rep.floor("subscript evaluations", len(subs), 1)
    done = set()
    for n, y in subs:
        if y in done:
            continue
        done.add(y)
        i = N(y[2])
        rep.check(i[0] == "mcall" and i[2] == "_index_literal" and i[3] == (("attr", node, "slice"),), "literals", "arrays are indexed by validated literals", n.where(), show(i)[:80])
        unreachable(rep, fl, "whitelist", "only arrays are indexed", n.where(), world((lambda t, b=y[1]: N(t) == N(b), V("module"))), [n], P=P)
        lst = edges(fl, lambda a: a[0] == "not" and has(a, lambda z: z[0] == "call" and z[1] == "isinstance" and has(z, lambda q: q == ("global", "list"))))
        est = [x for x in alloc if has(argval(fl, x, 0, "shape", ("const", 0)), lambda q: q == i or q[0] == "mcall" and q[2] == "_index_literal")]
        cnt = lambda t: t[0] == "phi" and has(t, lambda q: q[0] == "mcall" and q[2] == "_index_literal") and all(b[0] in ("call", "const") for b in t[1:])
        for x in est:
            b = y[1]
            sh = N(argval(fl, x, 0, "shape", ("const", 0)))
            for count, size, lead in ((5, 100, 10), (64, 4096, 4096)):
                got = content(ev(sh, world((cnt, count), (("attr", N(b), "size"), size), (("idx", ("attr", N(b), "shape"), ("const", 0)), lead), (("item", ("attr", N(b), "shape"), 0), lead), (("call", "len", (N(b),), ()), lead))))
                got = got[0] if isinstance(got, tuple) and len(got) == 1 else got
                rep.check(got is not U and got >= count * (size // lead), "bounded", f"the estimate of a {count}-row selection covers its rows", x.where(), f"{'?' if got is U else got} elements from {show(sh)[:80]}")
        unreachable(rep, fl, "bounded", "a list selection is estimated before it is made", n.where(),
                    world((lambda t: t[0] == "call" and t[1] == "isinstance" and N(t[2][0]) == i and t[2][1] == ("global", "list"), True)), [n], P=P, avoid=est)
        isl = lambda t: t[0] == "call" and t[1] == "isinstance" and N(t[2][0]) == i and t[2][1] == ("global", "list")
        ist = lambda t: t[0] == "call" and t[1] == "isinstance" and N(t[2][0]) == i and t[2][1] == ("global", "tuple")
        anyl = lambda t: t[0] == "call" and t[1] == "any" and has(t, lambda z: z[0] == "call" and z[1] == "isinstance" and z[2][1] == ("global", "list") and N(z[2][0]) == ("elem", i)) \
            and all(whole(q, lambda z: z == i) is not None for z in subterms(N(t)) if z[0] == "comp" for q in z[3])
        unreachable(rep, fl, "bounded", "a list selection on one of several axes is estimated before it is made", n.where(), world((isl, False), (ist, True), (anyl, True)), [n], P=P, avoid=est)
        # the number of rows selected: the list's length, or the longest list's
        for what, w, want in (("a list", [(isl, True), (ist, False)], lambda a: a == ("call", "len", (i,), ())),
                              ("lists on several axes", [(isl, False), (ist, True), (anyl, True)], lambda a: a[0] == "call" and a[1] == "max" and len(a[2]) == 1 and longest(a[2][0], i))):
            r_ = refuted(fl, world(*w), N)
            got = []
            for x, t in assigned(fl) + [(x, fl.term(x, x.expr)) for x in fl.g.live if x.kind == "ret" and x.expr is not None]:
                t = N(t)
                if t[0] == "call" and t[1] in ("len", "max") and has(t, lambda z: z == i) or t == ("const", 0) and x.ctx is not fl.g.rootctx:
                    if fl.find_path([fl.g.entry], [x], avoid_edge=r_, skip_labels=NORMAL) is not None and fl.find_path([x], est, avoid_edge=r_, skip_labels=NORMAL) is not None:
                        got.append(t)
            rep.check(bool(got) and all(want(a) for a in got), "bounded", f"the rows selected by {what} are counted", n.where(), str([show(a)[:80] for a in got]))
    # what is returned
    nret = 0
    for r, t in returns(fl):
        for a in alts(N(t)):
            nret += 1
            rep.check(accepted(P, fl, N, node, a, isev), "bounded", "every value is a literal, a field, a listed function or a checked result", r.where(), show(a)[:120])
    rep.floor("evaluator results", nret, 8)
    fall = fl.find_path([fl.g.entry], [fl.g.exit], avoid=[r for r, _ in returns(fl)], skip_labels=NORMAL)
    rep.check(fall is None, "whitelist", "any other syntax is an error", m.where(), "falls through: " + path_str(fall))
    lits = own(fl, "_literal")
    for n in lits:
        rep.check(N(argval(fl, n, 0, "node", ("const", None))) == node, "literals", "constants are validated", n.where())
    # literal sequences
    il = [n for n in own(fl, "_index_literal") if has(argval(fl, n, 0, "node", ("const", None)), lambda y: y == ("attr", node, "elts"))]
    unreachable(rep, fl, "limits", "a literal sequence over the limit is refused", m.where(), world((lambda t: t == ("call", "len", (("attr", node, "elts"),), ()), ITEMS + 1)), il, P=P)
    dn = lambda t: t[0] == "mcall" and t[2] == "startswith" and t[1] == ("attr", node, "id")
    names = [r for r, t in returns(fl) if has(t, lambda y: y[0] == "idx" and y[1] == A("arrays"))]
    if names:
        for r in names:
            rep.check(all(N(y[2]) == ("attr", node, "id") for y in subterms(fl.term(r, r.expr)) if y[0] == "idx" and y[1] == A("arrays")), "pure", "a name is the field of that name", r.where())
    else:
        rep.bad("pure", "names are looked up among the fields", m.where(), "no lookup in the fields")


EVL = lambda t: ("mcall", SELF, "_eval", (t,), ())


def chain(P, rep, fl, n, args, node, N):
    """a comparison chain: every link compared with its left neighbour, all links conjoined"""
    ops, cmps = ("attr", node, "ops"), ("attr", node, "comparators")
    el = lambda s: lambda t: t in (("elem", s), ("idx", s, ("index", s)), ("idx", s, ("index", ops)))
    h = inner_loop(fl, n)
    it = N(fl.term(h, h.expr)) if h is not None and h.kind == "for" else None
    okit = it is not None and (it[0] == "call" and it[1] == "zip" and it[2] in ((ops, cmps), (cmps, ops)) or whole(it, lambda t: t in (ops, cmps)) is not None)
    rep.check(bool(okit), "whitelist", "every link of a comparison chain is compared", n.where(), show(it)[:80] if it else "no loop")
    if h is None:
        return
    l, r = [alts(N(a)) for a in args] if len(args) == 2 else ([], [])
    isr = lambda a: a[0] == "mcall" and a[2] == "_eval" and len(a[3]) == 1 and el(cmps)(a[3][0])
    rep.check(bool(r) and all(isr(a) for a in r), "whitelist", "a link's right side is its own comparator", n.where(), str([show(a)[:60] for a in r]))
    rep.check(bool(l) and EVL(("attr", node, "left")) in l and any(isr(a) for a in l) and all(isr(a) or a == EVL(("attr", node, "left")) for a in l), "whitelist",
              "a link's left side is its left neighbour", n.where(), str([show(a)[:60] for a in l]))
    # the left side moves on every round
    mv = [x for x in fl.g.live if x.id in fl.loop_body(h) and x is not h and any(isinstance(d[1], tuple) and d[0] in keys_of(fl, n) for d in x.defs)]
    p = every_round(fl, h, mv)
    rep.check(bool(mv) and p is None, "whitelist", "the next link starts where this one ended", h.where(), path_str(p))
    key = [N(fl.term(n, n.call))[1]]
    opk = [N(y[2]) for y in key if y[0] == "idx"]
    rep.check(bool(opk) and all(o[0] == "call" and o[1] == "type" and el(ops)(o[2][0]) for o in opk), "whitelist", "a link is compared with its own operator", n.where(), str([show(o) for o in opk]))
    comb = [x for x in calls(fl, lambda ce: ce == ("global", "numpy.logical_and"), True) if x.id in fl.loop_body(h)]
    comb += [x for x, t in assigned(fl) if x.id in fl.loop_body(h) and t[0] == "bin" and t[1] == "BitAnd"]
    islink = lambda t: has(t, lambda y: y[0] == "vcall" and y[1][0] == "idx" and y[1][1] == ("global", f"{MOD}._COMPARE"))
    firste = edges(fl, lambda a: a[0] == "cmp" and a[1] == "is" and ("const", None) in a[2:])
    p = every_round(fl, h, comb, edge=firste)
    rep.check(bool(comb) and p is None, "whitelist", "every link after the first is conjoined", h.where(), path_str(p))
    cmp_rets = [(x, t) for x, t in returns(fl) if islink(t)]
    for x, t in cmp_rets:
        js = [y for y in subterms(t) if y[0] == "call" and y[1] == "numpy.logical_and" or y[0] == "bin" and y[1] == "BitAnd"]
        ok = any(all(islink(q) or has(q, lambda z: z[0] in ("rec", "cycle")) or ("const", None) in alts(q) for q in (y[2] if y[0] == "call" else y[2:])) for y in js)
        rep.check(ok, "whitelist", "a chain's value is the conjunction of its links", x.where(), show(t)[:140])
        rep.check(any(islink(a) and not (a[0] == "call" and a[1] == "numpy.logical_and") for a in alts(t)), "whitelist", "a single comparison's value is its link", x.where(), show(t)[:100])
    link = [(lambda t: t[0] == "cmp" and t[1] == "in" and t[3] == ("global", f"{MOD}._COMPARE"), True), (node, V("Compare", "expr")), (("call", "len", (ops,), ()), 1), (("call", "len", (cmps,), ()), 1)]
    reachable(rep, fl, "whitelist", "listed comparisons are evaluated", n.where(), world(*link), [n], P=P)
    unreachable(rep, fl, "whitelist", "other comparisons are an error", n.where(), world((lambda t: t[0] == "cmp" and t[1] == "in" and t[3] == ("global", f"{MOD}._COMPARE"), False)), [n], P=P)
    p = every_round(fl, h, [n])
    rep.check(p is None, "whitelist", "no link is skipped", h.where(), path_str(p))


def keys_of(fl, n):
    """variables holding the left operand of the comparison call"""
    a = n.call.args[0] if n.call is not None and n.call.args else None
    return {fl.g.varkey(a.id, n.ctx)} if isinstance(a, ast.Name) else set()


def syntax(P, rep, fl, node, N, m):
    """each kind of syntax evaluates to its own operation"""
    op = lambda nm, tab: [(("attr", node, "op"), V(nm, "operator")), (lambda t: t[0] == "cmp" and t[1] == "in" and t[3] == ("global", f"{MOD}.{tab}"), True)]
    nid = ("attr", node, "id")
    isin = lambda c, b: (lambda t: t[0] == "cmp" and t[1] == "in" and t[2] in (nid, ("attr", node, "attr")) and t[3] == c, b)
    FNS = ("global", f"{MOD}._FUNCTIONS")
    vc = lambda tab: lambda a: has(a, lambda y: y[0] == "vcall" and y[1][0] == "idx" and y[1][1] == ("global", f"{MOD}.{tab}"))
    lits = lambda a: a[0] == "comp" and whole(a[3][0], lambda t: t == ("attr", node, "elts")) is not None and not a[4] and a[2] == ("mcall", SELF, "_index_literal", (("elem", ("attr", node, "elts")),), ())
    sw = (lambda t: t[0] == "mcall" and t[2] == "startswith", False)
    npn = ("attr", node, "value")
    cases = [
        ("a constant", [(node, V("Constant", "expr"))], lambda a: a == ("mcall", SELF, "_literal", (node,), ())),
        ("a field name", [(node, V("Name", "expr")), sw, isin(A("arrays"), True)], lambda a: a == ("idx", A("arrays"), nid)),
        ("a function name", [(node, V("Name", "expr")), sw, (nid, "abs"), isin(A("arrays"), False), isin(FNS, True)], lambda a: a == ("idx", FNS, nid)),
        ("the name np", [(node, V("Name", "expr")), sw, (nid, "np"), isin(A("arrays"), False)], lambda a: a == ("global", "numpy")),
        ("a tuple", [(node, V("Tuple", "expr"))], lits),
        ("a list", [(node, V("List", "expr"))], lits),
        ("a unary operation", [(node, V("UnaryOp", "expr")), *op("USub", "_UNARY")], vc("_UNARY")),
        ("a binary operation", [(node, V("BinOp", "expr")), *op("Add", "_BINARY")], vc("_BINARY")),
        ("a comparison", [(node, V("Compare", "expr"))], lambda a: vc("_COMPARE")(a) or a == ("const", None)),
        ("a subscript", [(node, V("Subscript", "expr"))], lambda a: has(a, lambda y: y[0] == "idx" and y[1] == EVL(("attr", node, "value")))),
        ("np.function", [(node, V("Attribute", "expr")), (npn, V("Name", "expr")), (("attr", npn, "id"), "np"), isin(FNS, True)], lambda a: a == ("idx", FNS, ("attr", node, "attr"))),
        ("a call", [(node, V("Call", "expr"))], lambda a: has(a, lambda y: y[0] == "vcall" and y[1] == EVL(("attr", node, "func")))),
    ]
    never = [("a lambda", "Lambda"), ("a comprehension", "ListComp"), ("an f-string", "JoinedStr"), ("a conditional", "IfExp"), ("an assignment expression", "NamedExpr"),
             ("a boolean operation", "BoolOp"), ("a dictionary", "Dict"), ("a starred value", "Starred")]
    rets = returns(fl)
    for what, pairs, want in cases:
        r = refuted(fl, world(*pairs), N)
        got = [(x, t) for x, t in rets if fl.find_path([fl.g.entry], [x], avoid_edge=r, skip_labels=NORMAL) is not None]
        bad = [a for x, t in got for a in alts(N(t)) if not want(a)]
        rep.check(bool(got) and not bad, "whitelist", f"{what} evaluates to its own value", (got or [(fl.g.entry, 0)])[0][0].where(), str([show(a)[:80] for a in bad]) or "never evaluated")
    for what, k in never:
        unreachable(rep, fl, "whitelist", f"{what} is an error", m.where(), world((node, V(k, "expr"))), [fl.g.exit], P=P)
    unreachable(rep, fl, "whitelist", "an attribute of anything but np is an error", m.where(), world((node, V("Attribute", "expr")), (npn, V("Name", "expr")), (("attr", npn, "id"), "x")), [fl.g.exit], P=P)
    unreachable(rep, fl, "whitelist", "an unlisted attribute of np is an error", m.where(), world((node, V("Attribute", "expr")), isin(FNS, False)), [x for x, t in rets if not has(N(t), lambda y: y[0] == "idx" and y[1] == FNS)], P=P)
    unreachable(rep, fl, "whitelist", "a dunder name is an error", m.where(), world((node, V("Name", "expr")), (sw[0], True)), [fl.g.exit], P=P)
    unreachable(rep, fl, "whitelist", "an unknown name is an error", m.where(), world((node, V("Name", "expr")), sw, (nid, "x"), isin(A("arrays"), False), isin(FNS, False)), [fl.g.exit], P=P)


def longest(c, i):
    isl = lambda y: y[0] == "call" and y[1] == "isinstance" and y[2] == (("elem", i), ("global", "list"))
    return c[0] == "comp" and c[2] == ("call", "len", (("elem", i),), ()) and len(c[3]) == 1 and whole(c[3][0], lambda z: z == i) is not None and all(isl(f) for f in c[4])


def has_all(fl, x, a):
    s = argval(fl, x, 0, "shape", ("const", 0))
    return has(s, lambda y: y == a) or all(any(has(s, lambda y, q=q: y == q) for q in alts(b)) for b in alts(a) if b != ("const", None)) or a[0] == "star" and has(s, lambda y: y == a[1])


def accepted(P, fl, N, node, a, isev):
    if a[0] == "mcall" and a[1] == SELF and a[2] == "_literal":
        return a[3] == (node,)
    if a[0] == "mcall" and a[1] == SELF and a[2] == "_check_array":
        kw = dict(a[4]) if a[4] else {}
        return kw.get("allocated", ("const", True)) == ("const", True) and len(a[3]) <= 2
    if a[0] == "idx" and a[1] == A("arrays"):
        return True
    if a[0] in ("idx",) and a[1] == ("global", f"{MOD}._FUNCTIONS"):
        return True
    if a == ("global", "numpy"):
        return True
    if a[0] == "comp" and a[2][0] == "mcall" and a[2][2] == "_index_literal":
        return True
    if a[0] == "mcall" and a[2] == "_index_literal":
        return True
    if a[0] == "call" and a[1] == "numpy.logical_and":
        return all(accepted(P, fl, N, node, b, isev) or b == ("const", None) or b[0] in ("rec", "cycle", "opaque", "var") for x in a[2] for b in alts(x))
    if a == ("const", None):
        # comparison chain with no link (cannot occur)
        return True
    return a[0] in ("rec", "cycle")


def literals(P, rep, c):
    m = c.find("_literal")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    v = ("attr", P_("node"), "value")
    ok = [r for r, _ in returns(fl)]
    for what, val in (("2**63", 1 << 63), ("below -2**63", -(1 << 63) - 1), ("infinity", float("inf")), ("nan", float("nan")), ("text", "x"), ("bytes", b"x"), ("a complex number", V("complex")), ("Ellipsis", V("ellipsis"))):
        unreachable(rep, fl, "literals", f"{what} is not accepted as a literal", m.where(), world((v, val)), [fl.g.exit], P=P)
    for n, t in returns(fl):
        rep.check(norm(P, t) == v, "literals", "a literal is its own value", n.where(), show(t))
    for what, val in (("2**63-1", (1 << 63) - 1), ("-2**63", -(1 << 63)), ("0.5", 0.5), ("True", True)):
        reachable(rep, fl, "literals", f"{what} is accepted as a literal", m.where(), world((v, val)), ok, P=P)


def index(P, rep, c):
    m = c.find("_index_literal")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    N = lambda t: norm(P, t)
    node = P_("node")
    lit = ("mcall", SELF, "_literal", (node,), ())
    rec = lambda t: t[0] == "mcall" and t[1] == SELF and t[2] == "_index_literal"
    elts = lambda t: t == ("attr", node, "elts")

    def okv(a):
        if a == ("const", Ellipsis) or a == ("global", "Ellipsis") or a == lit or rec(a) or a == ("const", None):
            return True
        if a[0] == "un" and a[1] == "USub":
            return okv(a[2])
        if a[0] == "call" and a[1] in ("slice", "tuple", "list"):
            return all(okv(b) for x in a[2] for b in alts(x))
        if a[0] == "comp":
            return rec(a[2]) and len(a[3]) == 1 and whole(a[3][0], elts) is not None and not a[4]
        return False
    n = 0
    for r, t in returns(fl):
        for a in alts(N(t)):
            n += 1
            rep.check(okv(a), "literals", "an index is built from literal integers, slices and lists", r.where(), show(a)[:120])
            if a == lit:
                for what, val in (("True", V("bool", "int")), ("a float", V("float")), ("nothing", None)):
                    unreachable(rep, fl, "literals", f"{what} is not an index", r.where(), world((lambda t: N(t) == lit, val)), [r], P=P)
    rep.floor("index results", n, 3)
    rets = returns(fl)
    ell = lambda a: a in (("const", Ellipsis), ("global", "Ellipsis"))
    part = lambda f: ("mcall", SELF, "_index_literal", (("attr", node, f),), ())
    islit = lambda t: t == lit

    def slices(a):
        if not (a[0] == "call" and a[1] == "slice" and len(a[2]) == 3):
            return False
        return all(set(alts(x)) <= {part(f), ("const", None)} and part(f) in alts(x) for f, x in zip(("lower", "upper", "step"), a[2]))
    seqs = lambda a: a[0] == "comp" and rec(a[2]) and a[2][3] == (("elem", ("attr", node, "elts")),) and whole(a[3][0], elts) is not None and not a[4]
    cval = ("attr", node, "value")
    isell = lambda t: t[0] == "cmp" and t[1] in ("is", "==") and cval in t[2:] and any(ell(x) for x in t[2:])
    cases = [("an integer", [(node, V("Constant", "expr")), (cval, 3), (islit, 3), (isell, False)], lambda a: a == lit),
             ("an ellipsis", [(node, V("Constant", "expr")), (isell, True)], ell),
             ("a negative integer", [(node, V("UnaryOp", "expr")), (("attr", node, "op"), V("USub", "unaryop"))], lambda a: a == ("un", "USub", part("operand"))),
             ("a slice", [(node, V("Slice", "expr"))], slices),
             ("a tuple", [(node, V("Tuple", "expr")), (("call", "len", (("attr", node, "elts"),), ()), ITEMS), (lambda t: t[0] == "cmp" and has(t, lambda y: y[0] == "call" and y[1] == "sum"), False)], seqs),
             ("a list", [(node, V("List", "expr")), (("call", "len", (("attr", node, "elts"),), ()), ITEMS), (lambda t: t[0] == "call" and t[1] == "all", True), (lambda t: t[0] == "cmp" and has(t, lambda y: y[0] == "call" and y[1] == "sum"), False)], seqs)]
    for what, pairs, want in cases:
        r_ = refuted(fl, world(*pairs), N)
        got = [(x, t) for x, t in rets if fl.find_path([fl.g.entry], [x], avoid_edge=r_, skip_labels=NORMAL) is not None]
        bad = [a for x, t in got for a in alts(N(t)) if not want(a)]
        rep.check(bool(got) and not bad, "literals", f"{what} index selects what it says", (got or [(fl.g.entry, 0)])[0][0].where(), str([show(a)[:80] for a in bad]) or "refused")
        if what == "a list":
            raw = [t for x, t in got]
            rep.check(all(t[0] in ("call",) and t[1] == "list" or t[0] == "comp" and t[1] == "list" for t in raw), "literals", "a list index selects rows by a list", m.where(), str([show(t)[:60] for t in raw]))
        if what == "a tuple":
            rep.check(all(not (t[0] == "call" and t[1] == "list" or t[0] == "comp" and t[1] == "list") for x, t in got), "literals", "a tuple index selects by axis", m.where())
    for f in ("lower", "upper", "step"):
        fa = ("attr", node, f)
        cn = [x for x in method(fl, "_index_literal") if N(argval(fl, x, 0, "node", ("const", None))) == fa]
        reachable(rep, fl, "literals", f"a slice's {f} bound is used", m.where(), world((node, V("Slice", "expr")), (fa, V("Constant", "expr"))), cn, P=P)
        unreachable(rep, fl, "literals", f"a missing {f} bound stays missing", m.where(), world((node, V("Slice", "expr")), (fa, None)), cn, P=P)
    allint = lambda t: t[0] == "call" and t[1] == "all" and has(t, lambda y: y[0] == "call" and y[1] == "isinstance" and has(y, lambda z: z == ("global", "int")))
    unreachable(rep, fl, "literals", "a list index holds integers only", m.where(), world((node, V("List", "expr")), (allint, False)), [fl.g.exit], P=P)
    il = [x for x in method(fl, "_index_literal") if has(argval(fl, x, 0, "node", ("const", None)), elts)]
    unreachable(rep, fl, "limits", "an index literal over the limit is refused", m.where(), world((lambda t: t == ("call", "len", (("attr", node, "elts"),), ()), ITEMS + 1)), il, P=P)
    fall = fl.find_path([fl.g.entry], [fl.g.exit], avoid=[r for r, _ in returns(fl)], skip_labels=NORMAL)
    rep.check(fall is None, "literals", "any other index is an error", m.where(), path_str(fall))


def result(P, rep, c):
    m = c.find("evaluate")
    fl = flow(P, m, pol, cls=c)
    rep.graph(fl)
    N = lambda t: norm(P, t)
    val = ("mcall", SELF, "_eval", (("attr", A("tree"), "body"),), ())
    for n, t in returns(fl):
        rep.check(N(t) == val, "result", "the result is the value of the whole expression", n.where(), show(t)[:100])
    isv = lambda t: N(t) == val
    dt = lambda t: t == ("attr", val, "dtype")
    sh = lambda t: t == ("attr", val, "shape")
    other = ("const", "other")
    unreachable(rep, fl, "result", "a scalar result is an error", m.where(), world((isv, V("bool", "int"))), [fl.g.exit], P=P)
    BOOL = ("global", "numpy.bool_")
    unreachable(rep, fl, "result", "a result that is not boolean is an error", m.where(),
                world((isv, V("ndarray")), (sh, (7,)), (A("length"), 7), (dt, "float64"), (BOOL, "bool"), (("global", "bool"), "bool"), (lambda t: t == ("attr", ("attr", val, "dtype"), "kind"), "f")), [fl.g.exit], P=P)
    for s in ((7, 1), (6,), ()):
        unreachable(rep, fl, "result", f"a result of shape {s} for 7 rows is an error", m.where(),
                    world((isv, V("ndarray")), (sh, s), (("attr", val, "ndim"), len(s)), (("call", "len", (val,), ()), s[0] if s else U), (A("length"), 7), (dt, "bool"), (BOOL, "bool"), (("global", "bool"), "bool")), [fl.g.exit], P=P)
    f = P.func(MOD + ":evaluate_filter_condition")
    fl = flow(P, f, helpers(), cls=None)
    rep.graph(fl)
    for n, t in returns(fl):
        t = N(t)
        ok = t[0] == "mcall" and t[2] == "evaluate" and not t[3] and t[1][0] in ("call", "new") and "SafeFilterEvaluator" in str(t[1]) and has(t, lambda y: y == P_("expression")) and has(t, lambda y: y == P_("arrays"))
        rep.check(ok, "result", "a condition is evaluated by the checked evaluator over its data", n.where(), show(t)[:120])


def consumers(P, rep):
    N = lambda t: norm(P, t)
    EV = f"{MOD}.evaluate_filter_condition"
    iscond = lambda t: t[0] == "call" and t[1] == EV
    # legacy: filter_data_by_condition cuts every field
    f = P.func("utils.data_utils:filter_data_by_condition")
    fl = flow(P, f, helpers(), cls=None)
    rep.graph(fl)
    d = P_("data_dict")
    st = [(n, tgt, fl.storeval(n, v)) for n, tgt, v, t, ctx in fl.stores() if tgt[0] in ("key", "idx", "sub") and tgt[1] == d]
    up = [n for n in method(fl, "update") if fl.recv(n) == d]

    def cut(v, want):
        """v is a field of `want`, indexed by the accepted rows"""
        v = N(v)
        if v[0] != "idx":
            return False
        i = v[2]
        if i[0] == "seq" and len(i) >= 2 and all(x in (("const", Ellipsis), ("global", "Ellipsis")) for x in i[2:]):
            i = i[1]
        if i[0] in ("idx", "item") and i[1][0] == "call" and i[1][1] in ("numpy.nonzero", "numpy.where", "numpy.flatnonzero"):
            i = i[1][2][0]
        elif i[0] == "call" and i[1] in ("numpy.flatnonzero",):
            i = i[2][0]
        elif i[0] in ("idx", "item") and i[1][0] == "mcall" and i[1][2] == "nonzero":
            i = i[1][1]
        return i
    nodes = []
    for n, tgt, v in st:
        i = cut(v, d)
        ok = i and iscond(i) and N(i[2][0]) == P_("condition") and N(i[2][1]) == d
        same = N(v)[0] == "idx" and N(v)[1] in (N(tgt), ("elemval", d), ("idx", d, N(tgt[2])), ("key", d, N(tgt[2]))) or N(v)[1][0] in ("idx", "key") and N(v)[1][1] == d and N(v)[1][2] == tgt[2]
        rep.check(bool(ok and same), "rows", "each field keeps exactly the accepted rows", n.where(), show(v)[:120])
        nodes.append(n)
    if up:
        for n in up:
            v = N(argval(fl, n, 0, None, ("const", None)))
            rep.check(v[0] == "comp" and whole(v[3][0], lambda t: t == d) is not None and not v[4] and has(v, iscond), "rows", "each field keeps exactly the accepted rows", n.where(), show(v)[:120])
    else:
        covers_all(P, rep, fl, "rows", "every field is cut to the accepted rows", nodes, lambda t: t == d or t == ("mcall", d, "keys", (), ()) or t[0] == "call" and t[1] in ("list", "tuple") and t[2] and N(t[2][0]) in (d, ("mcall", d, "keys", (), ())))
    # decoder
    c = P.cls("dataset.decoder:ProcessedNpzDecoder") if "ProcessedNpzDecoder" in P.module("dataset.decoder").classes else None
    cand = [g for g in P.all_funcs if g.module.name == "dataset.decoder" and EV.split(".")[-1] in {x.id for x in ast.walk(g.node) if isinstance(x, ast.Name)}]
    rep.check(bool(cand), "rows", "the decoder applies the configured condition", "dataset/decoder.py", "no decoder evaluates the filter condition")
    for g in cand:
        decoder(P, rep, g, N, iscond)
    # every class that takes a condition uses it
    nc = 0
    for c in P.module("dataset.katago").classes.values():
        ini = c.methods.get("__init__")
        if ini is None or "filter_condition" not in [a.arg for a in ini.node.args.args + ini.node.args.kwonlyargs]:
            continue
        nc += 1
        uses = []
        for f in c.methods.values():
            skip = set()
            for x in ast.walk(f.node):
                if isinstance(x, ast.Compare):
                    skip |= {id(y) for y in [x.left] + x.comparators}
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute):
                    skip.add(id(x.value))
            uses += [x for x in ast.walk(f.node) if id(x) not in skip and isinstance(getattr(x, "ctx", None), ast.Load) and
                     (isinstance(x, ast.Name) and x.id == "filter_condition" and f is ini or isinstance(x, ast.Attribute) and x.attr == "filter_condition")]
        rep.check(bool(uses), "rows", f"{c.name} applies or passes on its condition", ini.where(), "the configured condition is never used")
    rep.floor("data sets with a condition", nc, 3)
    # every other use of a filter condition reaches it
    for g in P.all_funcs:
        if g.module.name != "dataset.katago" or g.name == "__init__" and not any(isinstance(x, ast.Name) and x.id == "filter_data_by_condition" for x in ast.walk(g.node)):
            continue
        use = [x for x in ast.walk(g.node) if isinstance(x, ast.Call) and dotted(x.func) and dotted(x.func).split(".")[-1] in ("filter_data_by_condition", "evaluate_filter_condition")]
        if use:
            fl = flow(P, g, helpers(), cls=g.cls)
            rep.graph(fl)
            fn = calls(fl, lambda ce: ce and ce[0] in ("global", "func") and str(ce[1]).split(".")[-1] in ("filter_data_by_condition", "evaluate_filter_condition"), True)
            fn = list(fn) or [n for n in calls(fl, None, True) if "filter_data_by_condition" in str(fl.callee(n))]
            rep.floor(f"filter application in {g.qual}", len(fn), 1)
            off = edges(fl, falsy(lambda t: t in (P_("filter_condition"), A("filter_condition"))))
            p = must_pass(fl, [fl.g.entry], [fl.g.exit], fn, edge=off)
            rep.check(p is None, "rows", f"a given condition is applied in {g.qual}", g.where(), path_str(p))
            for n in fn:
                a = N(argval(fl, n, 0, None, ("const", None)))
                rep.check(a in (P_("filter_condition"), A("filter_condition")), "rows", f"the given condition is what is applied in {g.qual}", n.where(), show(a))


def decoder(P, rep, g, N, iscond):
    fl = flow(P, g, helpers(), cls=g.cls)
    rep.graph(fl)
    ce = [n for n in calls(fl, lambda x: x and x[0] == "global" and x[1].endswith("evaluate_filter_condition"), True)] or [n for n in calls(fl, None, True) if "evaluate_filter_condition" in str(fl.callee(n))]
    if not ce:
        return rep.bad("rows", "the decoder applies the configured condition", g.where(), "the condition is never evaluated")
    FC, FS = A("filter_condition"), A("filter_stm")
    for n in ce:
        rep.check(N(argval(fl, n, 0, "expression", ("const", None))) == FC, "rows", "the configured condition is applied", n.where())
    # what is returned, by what it is built from
    off = edges(fl, falsy(lambda t: t == FC))
    # files of another board size contribute no rows
    size = edges(fl, lambda a: has(a, lambda t: t == A("boardsizes")))
    rets = [r for r, _ in returns(fl)]
    p = must_pass(fl, [fl.g.entry], rets, ce, edge=lambda a, b, l: off(a, b, l) or size(a, b, l) and l == ("T" if False else l))
    rep.check(p is None, "rows", "a configured condition is never skipped", g.where(), path_str(p))
    stmn = [n for n, t in assigned(fl) for a in alts(N(t)) if a[0] == "cmp" and a[1] == "==" and FS in a[2:] and has(a, lambda z: z in (("idx", ("idx", ("attr", SELF, "arrays"), ("const", "gf")), 0),) or z[0] in ("key", "idx") and z[2] in ("gf", ("const", "gf")))]
    p = must_pass(fl, [fl.g.entry], rets, stmn, edge=lambda a, b, l: edges(fl, falsy(lambda t: t == FS))(a, b, l) or size(a, b, l))
    rep.check(bool(stmn) and p is None, "rows", "a configured side-to-move filter is never skipped", g.where(), path_str(p))
    # rows are cut for every field by a mask containing every filter
    cuts = []
    for n, t in assigned(fl):
        for y in subterms(t):
            if y[0] == "comp" and y[1] == "dict" and has(y, iscond):
                cuts.append((n, N(y)))
    rep.floor("row selection in the decoder", len(cuts), 1)
    for n, y in cuts:
        kv = y[2]
        v = kv[2] if kv[0] in ("kv", "pair", "seq") and len(kv) > 2 else kv
        ok = len(y[3]) == 1 and not y[4] and v[0] == "idx"
        rep.check(ok, "rows", "every field is cut to the accepted rows", n.where(), show(y)[:120])
        if not ok:
            continue
        mask = v[2]
        for a in alts(mask):
            stm = lambda t: t[0] == "cmp" and t[1] == "==" and has(t, lambda z: z == FS)
            parts = conj(a)
            good = all(any(iscond(x) or stm(x) or x == ("const", None) for x in alts(pt)) for pt in parts)
            rep.check(good, "rows", "the rows kept are those every filter accepts", n.where(), show(a)[:140])
            if has(a, iscond) and len(parts) == 1:
                # the condition alone: only when no side-to-move filter is configured
                pass
    # the mask with both filters is their conjunction
    both = [a for n, y in cuts for v in [y[2][2] if y[2][0] in ("kv", "pair", "seq") and len(y[2]) > 2 else y[2]] if v[0] == "idx" for a in alts(v[2]) if len(conj(a)) > 1]
    rep.check(bool(both), "rows", "side-to-move filter and condition both apply", g.where(), "no mask combines them")
    app = [n for n, _ in cuts]
    pm = fl.find_path(ce, rets, avoid=app, avoid_edge=edges(fl, lambda a: False), skip_labels=NORMAL)
    # `mask is None` cannot hold after the condition was evaluated
    none = edges(fl, lambda a: a[0] == "cmp" and a[1] == "is" and ("const", None) in a[2:] and has(a, iscond))
    if pm is not None:
        pm = fl.find_path(ce, rets, avoid=app, avoid_edge=none, skip_labels=NORMAL)
    rep.check(pm is None, "rows", "the evaluated filter is applied", g.where(), path_str(pm))


def conj(t):
    if t[0] == "bin" and t[1] == "BitAnd":
        return conj(t[2]) + conj(t[3])
    if t[0] == "call" and t[1] == "numpy.logical_and":
        return [y for x in t[2] for y in conj(x)]
    return [t]
