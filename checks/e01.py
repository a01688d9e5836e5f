"""E01: exports declare exactly the requested rules and board sizes, validated before any output is touched."""
import ast
from sa.flow import alts, flow, has, show, subterms
from sa.lib import calls, norm, path_str, retval, returns
from sa.project import AnchorError
from sa.rules import NORMAL, argval, edges, ends, every_round, falsy, inner_loop, method, must_pass, stores_to, truthy, whole

SELF = ("self",)
BITS = {"freestyle": 1, "standard": 2, "renju": 4}
SER = "model.serialization"


def run(P, rep):
    rep.rule("required", "rules must be given explicitly and only known, non-empty rules and board sizes 1-32 are accepted")
    rep.rule("before-output", "rules and board sizes are validated before an output file is created or overwritten")
    rep.rule("mask-encoding", "each rule has its own engine bit, board size n has bit n-1")
    rep.rule("version-layout", "the ONNX model version packs and unpacks format, rule and board-size fields at the same positions")
    rep.rule("passed-through", "what is declared is what was validated")
    rules_validator(P, rep)
    sizes_validator(P, rep)
    rule_mask(P, rep)
    size_mask(P, rep)
    version(P, rep)
    exports(P, rep)
    serializers(P, rep)


def pol(*mods):
    return lambda f, call, x: f.module.name in mods


def elem_of(t):
    return lambda x: x in (("elem", t), ("idx", t, ("index", t)), ("elemval", t))


def accepted(fl, ret, ok):
    """edges after which every element of ret satisfies ok(atom, iselem): via any/all/filtered lists"""
    def quant(t, sense):
        # sense True: t true means accepted
        if t[0] == "call" and t[1] in ("any", "all") and len(t[2]) == 1 and t[2][0][0] == "comp":
            c = t[2][0]
            if len(c[3]) == 1 and whole(c[3][0], lambda x: x == ret):
                if t[1] == "all" and sense:
                    return ok(c[2], True)
                if t[1] == "any" and not sense:
                    return ok(c[2], False)
        if t[0] == "comp" and not sense and len(c := t[3]) == 1 and whole(c[0], lambda x: x == ret) and len(t[4]) == 1:
            return ok(t[4][0], False)
        return False

    def atom(a):
        if a[0] == "not":
            return quant(a[1], False)
        if a[0] == "cmp" and a[1] == "==" and ("const", 0) in a:
            o = [x for x in a[2:] if x != ("const", 0)]
            return bool(o) and o[0][0] == "call" and o[0][1] == "len" and quant(o[0][2][0], False)
        return quant(a, True)
    return edges(fl, atom)


def validator(P, rep, name, atom_ok, what, floor):
    f = P.func(f"{SER}:{name}")
    fl = flow(P, f, pol(SER))
    rep.graph(fl)
    rets = [(n, t) for n, t in returns(fl) if t != ("const", None)]
    rep.check(bool(rets), "required", f"the validated {what} are returned", f.where(), "nothing is returned")
    for n, t in rets:
        bulk = accepted(fl, t, lambda c, s: atom_ok_term(c, s, atom_ok, t))
        heads = []
        for h in fl.g.live:
            if h.kind == "for" and whole(fl.term(h, h.expr), lambda x: x == t):
                if all(every_round(fl, h, [], edge=edges(fl, lambda a, k=k: k(a, elem_of(t)))) is None for k in atom_ok):
                    heads.append(h)
        p = fl.find_path([fl.g.entry], [n], avoid=heads, avoid_edge=bulk, skip_labels=NORMAL)
        rep.check(p is None, "required", f"{what} are each validated", n.where(), f"an unchecked value is returned: {path_str(p)}")
    return f, fl, rets


def atom_ok_term(c, sense, tests, ret):
    """a quantified condition: with sense False, c is the rejecting test"""
    from sa.flow import atoms
    at = list(atoms(c, sense))
    return all(any(k(a, elem_of(ret)) for a in at) for k in tests)


def lit_seq(P, fl, t):
    if t[0] in ("seq", "set"):
        return t[1:]
    if t[0] == "call" and t[1] in ("frozenset", "set", "tuple", "list") and t[2]:
        return lit_seq(P, fl, t[2][0])
    return ()


def rules_validator(P, rep):
    names = set(BITS)

    def member(a, iselem):
        if a[0] == "cmp" and a[1] == "in" and iselem(a[2]):
            s = norm(P, a[3])
            if s[0] == "dict":
                return {k[1] for k, _ in s[1:] if k[0] == "const"} == names
            vals = {x[1] for x in lit_seq(P, None, s) if x[0] == "const"}
            return vals == names
        return False
    f, fl, rets = validator(P, rep, "get_rules_from_args", [member], "rules", 1)
    for n, t in rets:
        empty = edges(fl, lambda a: a[0] == "cmp" and a[1] in ("!=", ">", "<", ">=", "<=") and has(a, lambda x: x == ("call", "len", (t,), ())) or a == t)
        p = fl.find_path([fl.g.entry], [n], avoid_edge=empty, skip_labels=NORMAL)
        rep.check(p is None, "required", "an empty rule list is rejected", n.where(), path_str(p))
        p0 = [a.arg for a in f.node.args.args][0]
        src = [a for a in alts(t)]
        ok = all(has(a, lambda x: x == ("param", p0)) for a in src)
        rep.check(ok, "required", "there is no default rule", n.where(), f"returns {show(t)[:120]}")
        keys_used(rep, f, src, p0, ("rule", "rule_list", "rules"))
        given = edges(fl, lambda a: a[0] == "cmp" and a[1] == "in" and a[2][0] == "const" and a[3] == ("param", p0) or
                      a[0] in ("cmp",) and a[1] == "is not" and has(a, lambda x: x == ("param", p0)))
        p = fl.find_path([fl.g.entry], [n], avoid_edge=given, skip_labels=NORMAL)
        rep.check(p is None, "required", "missing rules are an error", n.where(), path_str(p))


def bound(lo, v):
    """atom proving lo: elem >= v / not lo: elem <= v"""
    def k(a, iselem):
        if a[0] == "cmp" and a[1] == "in" and iselem(a[2]) and a[3][0] == "call" and a[3][1] == "range":
            r = [x[1] if x[0] == "const" else fold(x) for x in a[3][2]]
            r = [0] + r if len(r) == 1 else r
            return len(r) == 2 and None not in r and (r[0] >= v if lo else r[1] - 1 <= v)
        if a[0] != "cmp" or a[1] not in ("<", "<=", ">", ">=", "=="):
            return False
        op, x, y = a[1], a[2], a[3]
        if iselem(y):
            x, y = y, x
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}[op]
        c = fold(y)
        if not iselem(x) or c is None:
            return False
        if lo:
            return op == ">=" and c >= v or op == ">" and c >= v - 1
        return op == "<=" and c <= v or op == "<" and c <= v + 1
    return k


def fold(t):
    if t[0] == "const" and isinstance(t[1], int):
        return t[1]
    if t[0] == "bin":
        a, b = fold(t[2]), fold(t[3])
        if a is not None and b is not None:
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Pow": lambda: a ** b, "LShift": lambda: a << b, "BitOr": lambda: a | b}[t[1]]()
            except KeyError:
                return None
    if t[0] in ("un", "unary", "neg"):
        v = fold(t[-1])
        return -v if v is not None else None
    return None


def sizes_validator(P, rep):
    isint = lambda a, iselem: a[0] == "call" and a[1] == "isinstance" and len(a[2]) == 2 and iselem(a[2][0]) and show(a[2][1]) == "int" \
        or a[0] == "cmp" and a[1] in ("is", "==") and has(a, lambda x: x[0] == "call" and x[1] == "type" and iselem(x[2][0]))
    f, fl, rets = validator(P, rep, "get_boardsizes_from_args", [bound(True, 1), bound(False, 32), isint], "board sizes", 1)
    p0 = [a.arg for a in f.node.args.args][0]
    inarg = lambda *ks: edges(fl, lambda a: a[0] == "not" and absent(a[1], ks, p0) or absent(("not", a), ks, p0))
    for n, t in rets:
        src = alts(t)
        keys_used(rep, f, src, p0, ("board_size", "board_size_list", "boardsizes", "min_board_size", "max_board_size"))
        for a in src:
            r = a
            while r[0] == "call" and r[1] in ("list", "sorted", "tuple") and len(r[2]) == 1:
                r = r[2][0]
            if r[0] == "call" and r[1] == "range":
                lo, hi = r[2] if len(r[2]) == 2 else (("const", 0), r[2][0])
                if fold(lo) is not None and fold(hi) is not None:
                    rep.check((fold(lo), fold(hi)) == (1, 33), "mask-encoding", "without board sizes 1 to 32 are declared", n.where(), show(r)[:80])
                    continue
                ok = len(r[2]) == 2 and lo[0] != "bin" and key_of(lo) == "min_board_size" and hi[0] == "bin" and hi[1] == "Add" \
                    and (key_of(hi[2]) == "max_board_size" and fold(hi[3]) == 1 or key_of(hi[3]) == "max_board_size" and fold(hi[2]) == 1)
                rep.check(bool(ok), "mask-encoding", "a size range includes both ends", n.where(), f"range is {show(r)[:100]}")
    # the default is used only when no size was given
    for n in fl.g.live:
        if n.expr is None or n.kind not in ("assign", "ret", "call"):
            continue
        if not any(x[0] == "call" and x[1] == "range" and all(fold(y) is not None for y in x[2]) for x in subterms(fl.term(n, n.expr))) or n.kind == "call":
            continue
        if n.kind == "ret" and len(alts(fl.term(n, n.expr))) > 1:
            continue
        for k in (("board_size",), ("board_size_list",), ("boardsizes",), ("min_board_size", "max_board_size")):
            p = fl.find_path([fl.g.entry], [n], avoid_edge=inarg(*k), skip_labels=NORMAL)
            rep.check(p is None, "required", f"given {'/'.join(k)} is not replaced by the default", n.where(), path_str(p))


def not_given(a, ks, ea):
    """atom asserts that one of the keys ks is not among the given options"""
    if a[0] == "not":
        b = a[1]
        if b[0] == "cmp" and b[1] == "in" and b[3] == ea:
            if b[2][0] == "const":
                return b[2][1] in ks
        if b[0] == "call" and b[1] == "any" and len(b[2]) == 1 and b[2][0][0] == "comp":
            c = b[2][0]
            if len(c[3]) == 1 and c[3][0][0] in ("seq", "set") and c[2] == ("cmp", "in", ("elem", c[3][0]), ea):
                names = {x[1] for x in c[3][0][1:] if x[0] == "const"}
                return bool(names & set(ks))
        if b[0] in ("or",):
            return any(not_given(("not", x), ks, ea) for x in b[1:])
        if b[0] == "and":
            return all(not_given(("not", x), ks, ea) for x in b[1:])
    return a[0] == "cmp" and a[1] == "not in" and a[3] == ea and a[2][0] == "const" and a[2][1] in ks


def absent(a, ks, p0):
    """atom a (already a negated thing) asserts that one of ks is not given"""
    def t(x):
        return x[0] == "cmp" and x[2][0] == "const" and x[2][1] in ks and x[3] == ("param", p0)
    if a[0] == "cmp" and a[1] == "in":
        return t(a)
    if a[0] in ("bool", "and", "or") or a[0] == "boolop":
        return all(absent(x, ks, p0) for x in a[1:] if isinstance(x, tuple))
    if a[0] == "not":
        b = a[1]
        return b[0] == "cmp" and b[1] == "not in" and t(b)
    return False


def keys_used(rep, f, src, p0, keys):
    for k in keys:
        ok = any(has(a, lambda x: x[0] == "key" and x[1] == ("param", p0) and x[2] == k or x[0] == "mcall" and x[1] == ("param", p0) and x[3][:1] == (("const", k),)) for a in src)
        rep.check(ok, "required", f"option {k} is honoured", f.where(), f"{k} never reaches the result")


def key_of(t):
    for x in subterms(t):
        if x[0] == "key":
            return x[2]
        if x[0] == "mcall" and x[3] and x[3][0][0] == "const" and isinstance(x[3][0][1], str):
            return x[3][0][1]
    return None


def values(t):
    """set of integers a term may evaluate to, None if unknown"""
    if t[0] == "phi":
        out = set()
        for a in t[1:]:
            v = values(a)
            if v is None:
                return None
            out |= v
        return out
    if t[0] == "bin" and t[1] in ("BitOr", "Add", "LShift"):
        a, b = values(t[2]), values(t[3])
        if a is None or b is None:
            return None
        return {{"BitOr": x | y, "Add": x + y, "LShift": x << y}[t[1]] for x in a for y in b}
    if t[0] == "call" and t[1] == "int" and len(t[2]) == 1:
        return values(t[2][0])
    if t[0] == "cmp":
        return {0, 1}
    if t[0] == "ifexp" or t[0] == "if":
        return values(("phi",) + t[2:])
    v = fold(t)
    return None if v is None else {v}


def literal_pairs(P, fl, rep):
    """{name: bit} from a literal mapping or list of pairs the function uses"""
    out = {}
    seen = set()
    for n in fl.g.live:
        for e in [n.expr, *([n.call.func, *n.call.args] if n.call is not None else [])]:
            if e is None or isinstance(e, ast.Starred):
                continue
            for x in subterms(norm(P, fl.term(n, e))):
                if id(x) in seen:
                    continue
                if x[0] == "dict":
                    for k, v in x[1:]:
                        if k[0] == "const" and fold(v) is not None:
                            out[k[1]] = fold(v)
                if x[0] == "seq" and len(x) == 3:
                    a, b = x[1], x[2]
                    if a[0] == "const" and isinstance(a[1], str) and fold(b) is not None:
                        out[a[1]] = fold(b)
                    if b[0] == "const" and isinstance(b[1], str) and fold(a) is not None:
                        out[b[1]] = fold(a)
    return out


def terms_of(P, fl):
    for n in fl.g.live:
        for e in [n.expr, *(n.call.args if n.call is not None else [])]:
            if e is not None and not isinstance(e, ast.Starred):
                yield from subterms(norm(P, fl.term(n, e)))


def rule_mask(P, rep):
    f = P.func(f"{SER}:rules_to_mask")
    fl = flow(P, f, pol(SER))
    rep.graph(fl)
    prm = ("param", f.node.args.args[0].arg)
    rets = returns(fl)
    got = {}
    adds = []
    for n in fl.g.live:
        if n.kind == "assign" and n.expr is not None:
            v = fold(fl.term(n, n.expr))
            if v and isinstance(n.ast, ast.AugAssign):
                adds.append((n, v, isinstance(n.ast.op, (ast.BitOr, ast.Add))))
                continue
            t = fl.term(n, n.expr)
            if t[0] == "bin" and t[1] in ("BitOr", "Add") and (fold(t[3]) or fold(t[2])) and not isinstance(n.ast, ast.AugAssign):
                adds.append((n, fold(t[3]) or fold(t[2]), True))
            elif v and t[0] == "const" and any(x[0] == "const" and x[1] == v for _, r in rets for x in subterms(r)):
                adds.append((n, v, False))
    vs = values(retval(fl))
    rep.check(bool(rets) and all(t != ("const", None) for _, t in rets), "mask-encoding", "the rule mask is returned", f.where(), "nothing is returned")
    if vs is not None:
        rep.check(vs == set(range(8)), "mask-encoding", "the rule mask holds exactly the rule bits", f.where(), f"possible masks {sorted(vs)}")
    if adds and len(adds) >= 3:
        for s in BITS:
            e = edges(fl, lambda a: a[0] == "cmp" and a[1] == "in" and a[2] == ("const", s) and a[3] == prm)
            mine = [(n, v, acc) for n, v, acc in adds if fl.find_path([fl.g.entry], [n], avoid_edge=e, skip_labels=NORMAL, correlate=False) is None]
            vals = {v for _, v, _ in mine}
            rep.check(vals == {BITS[s]} and all(acc for _, _, acc in mine), "mask-encoding", f"rule {s} sets engine bit {BITS[s]}", f.where(), f"sets {sorted(vals)}")
            for c in fl.g.live:
                for su, l in c.succ:
                    if e(c, su, l):
                        p = fl.find_path([c], [x for x, _ in rets], src_labels=(l,), avoid=[n for n, _, _ in mine], skip_labels=NORMAL)
                        rep.check(p is None, "mask-encoding", f"rule {s} is declared whenever requested", c.where(), path_str(p))
        stray = [n for n, v, _ in adds if v not in BITS.values()]
        rep.check(not stray, "mask-encoding", "no other rule bit is set", (stray or [fl.g.entry])[0].where(), "unknown bit")
    else:
        pairs = literal_pairs(P, fl, rep)
        if not set(BITS) & set(pairs) and any(tuple(x[1] for x in lit_seq(P, fl, t) if x[0] == "const") == ("freestyle", "standard", "renju") for t in terms_of(P, fl)):
            shs = [t for t in terms_of(P, fl) if t[0] == "bin" and t[1] == "LShift"]
            rep.check(bool(shs) and all(fold(t[2]) == 1 and t[3][0] == "index" for t in shs), "mask-encoding", "each rule sets its engine bit", f.where(), "shifted by something else than its position")
        else:
            rep.check({k: pairs.get(k) for k in BITS} == BITS, "mask-encoding", "each rule sets its engine bit", f.where(), f"rule bits {pairs}")


def size_mask(P, rep):
    f = P.func(f"{SER}:boardsizes_to_mask")
    fl = flow(P, f, pol(SER))
    rep.graph(fl)
    prm = ("param", f.node.args.args[0].arg)
    sh = {}
    for n in fl.g.live:
        for e in [n.expr]:
            if e is None:
                continue
            for x in subterms(fl.term(n, e)):
                if x[0] == "bin" and (x[1] == "LShift" or x[1] == "Pow" and fold(x[2]) == 2):
                    sh.setdefault(("bin", "LShift", ("const", 1), x[3]) if x[1] == "Pow" else x, n)
    rep.check(bool(sh), "mask-encoding", "board sizes set bits", f.where(), "no bit is ever shifted into place")
    rv = retval(fl)
    rep.check(all(any(x[0] == "bin" and x[1] in ("LShift", "Pow") for x in subterms(a)) or fold(a) == 0 for a in alts(rv)) and any(x[0] == "bin" and x[1] in ("LShift", "Pow") for x in subterms(rv)),
              "mask-encoding", "the collected board-size bits are returned", f.where(), show(rv)[:100])
    seeds = {x[1] for a in alts(rv) for x in subterms(a) if x[0] == "bin" and x[1] in ("BitOr", "Add") for x in x[2:] if x[0] == "const"} | {fold(a) for a in alts(rv) if fold(a) is not None}
    rep.check(seeds <= {0}, "mask-encoding", "no board size is declared unasked", f.where(), f"mask starts from {sorted(seeds)}")
    el = elem_of(prm)
    for x, n in sh.items():
        okk = fold(x[2]) == 1 and x[3][0] == "bin" and x[3][1] == "Sub" and has(x[3][2], el) and fold(x[3][3]) == 1
        rep.check(okk, "mask-encoding", "board size n sets bit n-1", n.where(), f"sets {show(x)[:80]}")
    # every size contributes
    r = retval(fl)
    heads = [h for h in fl.g.live if h.kind == "for" and whole(fl.term(h, h.expr), lambda t: t == prm)]
    accs = [n for n in sh.values() if n.kind in ("assign", "ret") or n.kind == "stmt"]
    comp = any(x[0] == "comp" and len(x[3]) == 1 and whole(x[3][0], lambda t: t == prm) and not x[4] for x in subterms(r))
    good = comp
    for h in heads:
        body = fl.loop_body(h)
        inside = [n for n in fl.g.live if n.id in body and n.expr is not None and n.kind == "assign" and (has(fl.term(n, n.expr), lambda x: x in sh or x[0] == "bin" and x[1] == "Pow")
                  and (not isinstance(n.ast, ast.AugAssign) or isinstance(n.ast.op, (ast.BitOr, ast.Add))))]
        inside = [n for n in inside if isinstance(n.ast, ast.AugAssign) or fl.term(n, n.expr)[0] == "bin" and fl.term(n, n.expr)[1] in ("BitOr", "Add")]
        if inside and every_round(fl, h, inside) is None:
            good = True
    rep.check(good, "mask-encoding", "every requested board size is declared", f.where(), "some size does not reach the mask")


def shifts(t):
    """field expression -> (shift, mask)"""
    sh, mask = 0, None
    while t[0] == "bin" and t[1] in ("RShift", "BitAnd"):
        if t[1] == "BitAnd":
            m = fold(t[3]) if fold(t[3]) is not None else fold(t[2])
            t = t[2] if fold(t[3]) is not None else t[3]
            if m is None:
                return None
            mask = (m << 0) if mask is None else mask & m
        else:
            s = fold(t[3])
            if s is None:
                return None
            if mask is not None:
                pass
            sh += s
            t = t[2]
    return sh, mask, t


def version(P, rep):
    f = P.func("export:make_onnx_model_version")
    fl = flow(P, f, pol("export"))
    rep.graph(fl)
    r = retval(fl)
    parts = []

    def split(t):
        if t[0] == "bin" and t[1] in ("BitOr", "Add"):
            split(t[2]); split(t[3])
        else:
            parts.append(t)
    split(norm(P, r))
    fields = {}
    for t in parts:
        s = 0
        while t[0] == "bin" and t[1] in ("LShift",) and fold(t[3]) is not None:
            s += fold(t[3])
            t = t[2]
        while t[0] == "bin" and t[1] == "BitAnd":
            t = t[2] if fold(t[3]) is not None else t[3]
        k = "rules" if t[0] == "call" and t[1].endswith("rules_to_mask") else "sizes" if t[0] == "call" and t[1].endswith("boardsizes_to_mask") else "io" if t[0] == "param" else "?"
        fields[k] = (s, t)
    want = {"io": 48, "rules": 32, "sizes": 0}
    for k, s in want.items():
        rep.check(k in fields and fields[k][0] == s, "version-layout", f"{k} field packed at bit {s}", f.where(), f"fields {({a: b[0] for a, b in fields.items()})}")
    ps = [a.arg for a in f.node.args.args]
    for k, i in (("io", 0), ("rules", 1), ("sizes", 2)):
        if k in fields and len(ps) > i:
            rep.check(has(fields[k][1], lambda x: x == ("param", ps[i])), "version-layout", f"{k} field holds its own argument", f.where(), show(fields[k][1])[:80])
    io = ("param", ps[0])
    rets = [n for n, _ in returns(fl)]
    for nm, k in (("positive", bound(True, 1)), ("within 15 bits", bound(False, 0x7FFF))):
        e = edges(fl, lambda a: k(a, lambda x: x == io))
        p = fl.find_path([fl.g.entry], rets, avoid_edge=e, skip_labels=NORMAL)
        rep.check(p is None, "version-layout", f"format version {nm}", f.where(), "overflows the signed 64-bit version: " + path_str(p))
    # parse
    f = P.func("export:parse_onnx_model_version")
    fl = flow(P, f, pol("export"))
    rep.graph(fl)
    mv = ("param", f.node.args.args[0].arg)
    r = norm(P, retval(fl))
    if r[0] != "seq" or len(r) != 4:
        rep.bad("version-layout", "version unpacks into format, rules and board sizes", f.where(), f"returns {show(r)[:80]}")
        return
    io = shifts(r[1])
    rep.check(io is not None and io[0] == 48 and io[2] == mv and io[1] in (0xFFFF, 0x7FFF), "version-layout", "format field unpacked from bit 48", f.where(), show(r[1])[:80])

    def fieldtest(a):
        """truthy test of one bit of a field -> (shift, bit term)"""
        if a[0] == "cmp" and a[1] == "!=" and ("const", 0) in a[2:]:
            a = [x for x in a[2:] if x != ("const", 0)][0]
        if a[0] != "bin" or a[1] != "BitAnd":
            return None
        if fold(a[3]) == 1 and a[2][0] == "bin" and a[2][1] == "RShift":
            s = shifts(a[2][2])
            if s is not None and s[2] == mv:
                return s, ("bin", "LShift", ("const", 1), a[2][3]) if fold(a[2][3]) is None else ("const", 1 << fold(a[2][3]))
        for fld, bit in ((a[2], a[3]), (a[3], a[2])):
            s = shifts(fld)
            if s is not None and s[2] == mv:
                return s, bit
        return None
    tests = {}
    apps = method(fl, "append")
    rl = 0
    seen = set()
    for n in apps:
        v = argval(fl, n, 0, None, ("const", None))
        if v[0] == "const" and v[1] in BITS:
            rl += 1
            bit = None
            seen.add(v[1])
            for c in fl.g.live:
                for s, l in c.succ:
                    for a, _ in fl.edge_atoms(c, l):
                        ft = fieldtest(a)
                        if ft and ft[0][1] is not None and fold(ft[1]) is not None and not (ft[0][1] << 0) & fold(ft[1]):
                            continue
                        if ft and fold(ft[1]) is not None and fl.find_path([fl.g.entry], [n], avoid_edge=lambda x, y, z, c=c, l=l: x is c and z == l, skip_labels=NORMAL, correlate=False) is None:
                            bit = (ft[0][0], fold(ft[1]))
            rep.check(bit == (32, BITS[v[1]]), "version-layout", f"rule {v[1]} unpacked from its bit", n.where(), f"read from {bit}")
    if rl:
        rep.check(seen == set(BITS), "version-layout", "every rule is unpacked", f.where(), f"only {sorted(seen)}")
    if not rl:
        pairs = literal_pairs(P, fl, rep)
        rep.check({k: pairs.get(k) for k in BITS} == BITS, "version-layout", "rules unpacked from their bits", f.where(), f"{pairs}")
    # sizes: comp over range(32) of i+1 where bit i
    t = r[3]
    ok = False
    if t[0] == "comp":
        it = t[3][0]
        n32 = it[0] == "call" and it[1] == "range" and len(it[2]) == 1 and fold(it[2][0]) == 32
        e = ("elem", it)
        plus = t[2] in (("bin", "Add", e, ("const", 1)), ("bin", "Add", ("const", 1), e))
        ok = n32 and plus
        if it[0] == "call" and it[1] == "range" and len(it[2]) == 2 and fold(it[2][0]) == 1 and fold(it[2][1]) == 33:
            ok = t[2] == e
    rep.check(ok, "version-layout", "board sizes 1 to 32 are unpacked", f.where(), show(t)[:100])
    bits = [fieldtest(a) for c in fl.g.live for s, l in c.succ for a, _ in fl.edge_atoms(c, l)]
    for t2 in subterms(t):
        if t2[0] == "comp":
            from sa.flow import atoms
            for c in t2[4]:
                bits += [fieldtest(a) for a in atoms(c, True)]
    bits = [b for b in bits if b and fold(b[1]) is None]
    okb = [b for b in bits if b[0][0] == 0 and b[1][0] == "bin" and b[1][1] == "LShift" and fold(b[1][2]) == 1
           and (b[1][3][0] == "elem" or b[1][3][0] == "bin" and b[1][3][1] == "Sub")]
    ee = edges(fl, lambda a: (x := fieldtest(a)) is not None and fold(x[1]) is None)
    for n in apps:
        v = argval(fl, n, 0, None, ("const", None))
        if v[0] == "const":
            continue
        h = inner_loop(fl, n)
        p = fl.find_path([h or fl.g.entry], [n], avoid_edge=ee, src_labels=("it",) if h else None, skip_labels=NORMAL)
        rep.check(p is None, "version-layout", "only declared board sizes are unpacked", n.where(), path_str(p))
    okb = [b for b in okb if b[0][1] is None or b[0][1] & 0xFFFFFFFF == 0xFFFFFFFF]
    rep.check(bool(okb) and len(okb) == len(bits), "version-layout", "board size bits unpacked from bit 0", f.where(), f"{[show(b[1])[:40] for b in bits]}")


def outputs(fl):
    """calls creating or overwriting an output file"""
    out = []
    for n in calls(fl, None, True):
        if n.note == "inlined":
            continue
        c = fl.callee(n)
        if not c:
            continue
        if c[0] == "global" and (c[1] in ("open", "io.open", "os.replace", "os.rename", "os.open", "shutil.move", "torch.onnx.export", "onnx.save", "onnxslim.slim", "torch.jit.save", "torch.save")
                                 or c[1].endswith("frame.open")):
            out.append(n)
        elif c[0] == "method" and c[1] in ("write_bytes", "write_text"):
            out.append(n)
    return out


def exports(P, rep):
    for name in ("export_serialization", "export_onnx"):
        f = P.func(f"export:{name}")
        fl = flow(P, f, pol("export"))
        rep.graph(fl)
        outs = outputs(fl)
        rep.floor(f"{name} outputs", len(outs), 1)
        ea = ("param", "export_args")
        vals = {}
        for fn in ("get_rules_from_args", "get_boardsizes_from_args"):
            v = [n for n in calls(fl, lambda c: c and c[0] == "global" and c[1] == f"{SER}.{fn}", True) if argval(fl, n, 0, None, ("const", None)) == ea]
            vals[fn] = v
            if not v:
                rep.bad("before-output", f"{name}: {fn} validates the request", f.where(), "requested values are never validated here")
                continue
            p = must_pass(fl, [fl.g.entry], outs, v)
            rep.check(p is None, "before-output", f"{name}: validated before output is touched", f.where(), path_str(p))
        isr = lambda t: t[0] == "call" and t[1].endswith("get_rules_from_args")
        isb = lambda t: t[0] == "call" and t[1].endswith("get_boardsizes_from_args")
        if name == "export_onnx":
            mk = [n for n in calls(fl, lambda c: c and c[0] == "global" and c[1].endswith("make_onnx_model_version"), True)]
            rep.check(bool(mk), "passed-through", "a model version is made", f.where(), "no model version is made")
            for n in mk:
                a = [argval(fl, n, i, k, ("const", None)) for i, k in ((1, "rules"), (2, "boardsizes"))]
                rep.check(isr(a[0]) and isb(a[1]), "passed-through", "version is made from the validated rules and sizes", n.where(), show(("seq", *a))[:120])
            sv = [n for n in calls(fl, lambda c: c and c[0] == "global" and c[1] == "onnx.save", True)]
            st = stores_to(fl, lambda t: t[2] == "model_version")
            vers = [n for n, _, _ in st]
            for n, t, val in st:
                rep.check(has(val, lambda x: x[0] == "call" and x[1].endswith("make_onnx_model_version")) or has(val, isr) and has(val, isb), "passed-through", "the made version is stored", n.where(), show(val)[:80])
            p = must_pass(fl, [fl.g.entry], [fl.g.exit], sv)
            rep.check(bool(sv) and p is None, "passed-through", "the stamped model is saved", f.where(), path_str(p))
            p = must_pass(fl, [fl.g.entry], sv, vers)
            rep.check(bool(vers) and p is None, "passed-through", "the version is stamped before the final save", f.where(), path_str(p))
            outs2 = [n for n in outs if n not in sv]
            p = fl.find_path(sv, outs2, skip_labels=NORMAL)
            rep.check(p is None, "passed-through", "nothing rewrites the stamped file", f.where(), path_str(p))
        else:
            bs = [n for n in calls(fl, lambda c: c and c[0] == "global" and c[1].endswith("build_serializer"), True)]
            rep.check(bool(bs), "passed-through", "a serializer is built", f.where(), "no serializer is built")
            for n in bs:
                kw = {k.arg: fl.term(n, k.value) for k in n.call.keywords}
                rep.check(isr(kw.get("rules", ("const", None))) and isb(kw.get("boardsizes", ("const", None))), "passed-through", "serializer gets the validated rules and sizes", n.where(), show(("seq", *kw.values()))[:120])


def serializers(P, rep):
    f = P.func(f"{SER}:build_serializer")
    fl = flow(P, f, None)
    rep.graph(fl)
    kwn = f.node.args.kwarg.arg if f.node.args.kwarg else None
    made = [n for n in fl.g.live if n.kind == "call" and n.call is not None and {k.arg for k in n.call.keywords} >= {"rules", "boardsizes"}]
    rep.check(bool(made), "passed-through", "the serializer receives rules and board sizes", f.where(), "no serializer is built with both rules and boardsizes")
    for n in made:
        kw = {k.arg: fl.term(n, k.value) for k in n.call.keywords}
        for k, fn, bad in (("rules", "get_rules_from_args", set(BITS) - {"freestyle"}), ("boardsizes", "get_boardsizes_from_args", None)):
            al = alts(kw[k])
            given = [a for a in al if a[0] == "call" and a[1].endswith(fn)]
            rest = [a for a in al if a not in given]
            rep.check(bool(given), "passed-through", f"serializer receives the given {k}", n.where(), show(kw[k])[:100])
            lim = all(a[0] == "seq" and len(a) == 2 for a in rest)
            rep.check(lim, "passed-through", f"without {k} the serializer declares a single value", n.where(), f"default {show(kw[k])[:100]}")
    ea = ("param", f.node.args.kwarg.arg) if f.node.args.kwarg else None
    flp = flow(P, f, lambda g, call, x: g.module.name == SER and g.name.startswith("has_"))
    for fn, keysets in (("get_rules_from_args", (("rule",), ("rule_list",), ("rules",))),
                        ("get_boardsizes_from_args", (("board_size",), ("board_size_list",), ("boardsizes",), ("min_board_size", "max_board_size")))):
        got = [n for n in calls(flp, lambda c: c and c[0] == "global" and c[1] == f"{SER}.{fn}", True)]
        rep.check(bool(got), "passed-through", f"{fn} is consulted", f.where(), "given values are never read")
        for ks in keysets:
            e = edges(flp, lambda a: not_given(a, ks, ea))
            p = flp.find_path([flp.g.entry], [n for n in flp.g.live if n.kind == "call" and n.call is not None and {k.arg for k in n.call.keywords} >= {"rules", "boardsizes"}],
                              avoid=got, avoid_edge=e, skip_labels=NORMAL)
            rep.check(p is None, "passed-through", f"given {'/'.join(ks)} is read by the serializer", f.where(), path_str(p))
    base = P.cls(f"{SER}:BaseSerializer")
    b = {}
    m = base.find("__init__")
    fl = flow(P, m, pol(SER), cls=base)
    prm = [a.arg for a in m.node.args.args][1:]
    stores = {}
    for n, tgt, v, t, ctx in fl.stores():
        if tgt[0] == "attr" and tgt[1] == SELF:
            stores[tgt[2]] = fl.storeval(n, v)
    for meth, enc, par in (("rule_mask", "rules_to_mask", "rules"), ("boardsize_mask", "boardsizes_to_mask", "boardsizes")):
        mm = base.find(meth)
        if mm is None:
            raise AnchorError(f"BaseSerializer.{meth}")
        r = norm(P, retval(flow(P, mm, None, cls=base)))
        ok = r[0] == "call" and r[1].endswith(enc) and r[2] and r[2][0][0] == "attr" and stores.get(r[2][0][2]) == ("param", par)
        rep.check(ok, "passed-through", f"declared {par} are the serializer's own", mm.where(), show(r)[:100])
    for a, d in zip(reversed(m.node.args.args), reversed(m.node.args.defaults)):
        if a.arg in ("rules", "boardsizes"):
            v = ast.literal_eval(d)
            rep.check(len(v) == 1, "passed-through", f"default {a.arg} is a single value", m.where(), f"default {v}")
    for c in [k for m in P.modules.values() for k in m.classes.values() if base in k.mro and k is not base]:
        for meth in ("rule_mask", "boardsize_mask"):
            o = c.find(meth)
            if o is not None and o.cls is not base:
                rep.bad("passed-through", f"{c.qual.split('.')[-1]} overrides {meth}", o.where(), "a serializer overrides what is declared")
        init = c.methods.get("__init__")
        if init is None:
            continue
        fl = flow(P, init, lambda g, call, x: g.module is init.module, cls=c)
        sup = [n for n in fl.g.live if n.kind == "call" and n.call is not None and isinstance(n.call.func, ast.Attribute) and n.call.func.attr == "__init__"]
        rep.check(bool(sup), "passed-through", f"{c.qual.split('.')[-1]} initialises the base serializer", init.where(), "rules and board sizes are lost")
        names = [a.arg for a in init.node.args.args + init.node.args.kwonlyargs]
        for n in sup:
            stars = [k for k in n.call.keywords if k.arg is None]
            off = 1 if n.call.args and fl.term(n, n.call.args[0]) == SELF else 0
            for i, par in enumerate(("rules", "boardsizes"), off):
                v = argval(fl, n, i, par, None)
                if v is None:
                    ok = bool(stars) and par not in names and init.node.args.kwarg is not None
                else:
                    ok = v == ("param", par)
                rep.check(ok, "passed-through", f"{c.qual.split('.')[-1]} passes on {par}", n.where(), show(v)[:60] if v else "not passed")
