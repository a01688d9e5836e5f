"""E02: weight files start with the exact engine header and every export holds the checkpoint's weights."""
import ast
from sa.flow import alts, atoms, flow, has, show, subterms
from sa.lib import calls, norm, path_str, returns
from sa.rules import NORMAL, argval, assigned, edges, ends, method, must_pass
from checks.e01 import SER, fold, pol

MAGIC = b"gomoku network weight version 1"


def run(P, rep):
    rep.rule("header-layout", "magic, architecture, rule mask, board sizes, description length (4-byte little-endian unsigned each) and the description, in this order")
    rep.rule("header-present", "the header is written exactly when the format needs one and it was not switched off, before any weight")
    rep.rule("encoding", "each export type selects its container and header mode")
    rep.rule("weights", "the exported model has the checkpoint's weights loaded strictly, in evaluation mode")
    serialization(P, rep)
    exporting(P, rep)


def byte_fields(t):
    """bytes term -> [(width, order, signed, value term)] ; width None = raw bytes"""
    if t[0] == "bin" and t[1] == "Add":
        a, b = byte_fields(t[2]), byte_fields(t[3])
        return None if a is None or b is None else a + b
    if t[0] == "mcall" and t[2] == "to_bytes":
        kw = dict(t[4]) if len(t) > 4 else {}
        a = list(t[3])
        w = kw.get("length", a[0] if a else ("const", 1))
        o = kw.get("byteorder", a[1] if len(a) > 1 else ("const", "big"))
        s = kw.get("signed", a[2] if len(a) > 2 else ("const", False))
        return [(fold(w), o[1] if o[0] == "const" else None, s != ("const", False), t[1])]
    if t[0] == "call" and t[1] in ("struct.pack",) and t[2] and t[2][0][0] == "const":
        fmt = t[2][0][1]
        order = {"<": "little", ">": "big", "!": "big"}.get(fmt[0])
        out, i, num = [], 1, ""
        for c in fmt[1 if order else 0:]:
            if c.isdigit():
                num += c
                continue
            if c == "s":
                out.append((None, order, False, t[2][i] if i < len(t[2]) else ("?",))); i += 1
                num = ""
                continue
            for _ in range(int(num or 1)):
                sz = {"I": 4, "L": 4, "i": 4, "l": 4, "H": 2, "h": 2, "B": 1, "b": 1, "Q": 8, "q": 8}.get(c)
                out.append((sz, order, c.islower(), t[2][i] if i < len(t[2]) else ("?",))); i += 1
            num = ""
        return out
    if t[0] == "mcall" and t[2] == "join" and t[1] == ("const", b"") and t[3] and t[3][0][0] == "seq":
        out = []
        for x in t[3][0][1:]:
            f = byte_fields(x)
            if f is None:
                return None
            out += f
        return out
    if t[0] == "call" and t[1] in ("bytes", "bytearray") and len(t[2]) == 1:
        return byte_fields(t[2][0])
    return [(None, None, None, t)]


def mask32(t):
    """x & 0xFFFFFFFF (or x % 2**32) -> x"""
    if t[0] == "bin" and t[1] == "BitAnd":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if fold(b) == 0xFFFFFFFF:
                return a
    if t[0] == "bin" and t[1] == "Mod" and fold(t[3]) == 1 << 32:
        return t[2]
    return None


def fromser(name):
    return lambda t: (m := mask32(t)) is not None and m[0] == "mcall" and m[2] == name and m[3][:1] == (("param", "model"),)


def is_magic(t):
    if t[0] == "const":
        import zlib
        return t[1] == zlib.crc32(MAGIC)
    m = mask32(t)
    t = m if m is not None else t
    return t[0] == "call" and t[1].split(".")[-1] == "crc32" and t[2] == (("const", MAGIC),)


def serialization(P, rep):
    f = P.func("export:export_serialization")
    fl = flow(P, f, pol("export"))
    rep.graph(fl)
    sers = method(fl, "serialize")
    rep.check(len(sers) >= 1, "header-present", "weights are serialized", f.where(), "nothing is serialized")
    if not sers:
        return
    out = argval(fl, sers[0], 0, "out", ("const", None))
    rep.check(argval(fl, sers[0], 1, "model", ("const", None)) == ("param", "model"), "weights", "the given model is serialized", sers[0].where(), show(argval(fl, sers[0], 1, "model", ("const", None)))[:80])
    writes = [n for n in method(fl, "write", "writelines") if fl.recv(n) == out]
    writes.sort(key=lambda n: 0)
    # order by reachability
    order = []
    rest = list(writes)
    while rest:
        first = [n for n in rest if not any(m is not n and fl.find_path([m], [n], skip_labels=NORMAL) for m in rest)]
        if len(first) != 1:
            rep.bad("header-layout", "the header fields have a fixed order", (first or rest)[0].where(), "field order depends on the path taken")
            return
        order += first
        rest.remove(first[0])
    fields = []
    for n in order:
        bf = byte_fields(fl.arg(n, 0, None) or ("?",))
        fields += [(n, *x) for x in (bf or [(None, None, None, ("?",))])]
    want = [("magic number", is_magic), ("architecture hash", fromser("arch_hash")), ("rule mask", fromser("rule_mask")),
            ("board size mask", fromser("boardsize_mask")), ("description length", None), ("description", None)]
    rep.check(len(fields) == 6, "header-layout", "six header fields", (order or [fl.g.entry])[0].where(), f"{len(fields)} fields are written before the weights")
    desc = None
    if len(fields) == 6:
        desc = fields[5][4]
        enc = fields[5][1] is None and desc[0] == "mcall" and desc[2] == "encode" and (desc[3][:1] or (("const", "utf-8"),))[0] in (("const", "utf-8"), ("const", "utf8"))
        rep.check(enc and has(desc, lambda x: x[0] == "mcall" and x[2] == "description"), "header-layout", "the description is written as UTF-8", fields[5][0].where(), show(desc)[:100])
        for (nm, ok), (n, w, o, s, t) in list(zip(want, fields))[:5]:
            rep.check((w, o, s) == (4, "little", False), "header-layout", f"{nm} is 4 bytes little-endian unsigned", n.where(), f"width {w}, {o}, signed {s}")
            if ok is None:
                good = t == ("call", "len", (desc,), ())
            else:
                good = ok(t)
            rep.check(bool(good), "header-layout", f"{nm} in its place", n.where(), f"field holds {show(t)[:100]}")
    # presence
    from sa.rules import truthy
    need = edges(fl, lambda a: a[0] == "attr" and a[2] == "needs_header")
    neednot = edges(fl, lambda a: a[0] == "not" and a[1][0] == "attr" and a[1][2] == "needs_header")
    off = edges(fl, lambda a: a == ("not", ("param", "no_header")))
    on = edges(fl, lambda a: a == ("param", "no_header"))
    for n in order:
        for e, w in ((need, "the format needs it"), (off, "it was not switched off")):
            p = fl.find_path([fl.g.entry], [n], avoid_edge=e, skip_labels=NORMAL)
            rep.check(p is None, "header-present", f"header written only when {w}", n.where(), path_str(p))
        p = must_pass(fl, [fl.g.entry], sers, [n], lambda a, b, c: neednot(a, b, c) or on(a, b, c))
        rep.check(p is None, "header-present", "a needed header precedes the weights", n.where(), path_str(p))
    p = fl.find_path(sers, order, skip_labels=NORMAL)
    rep.check(p is None, "header-present", "nothing of the header follows the weights", sers[0].where(), path_str(p))
    p = must_pass(fl, [fl.g.entry], [fl.g.exit], sers)
    rep.check(p is None, "header-present", "every export serializes the weights", f.where(), path_str(p))
    p = fl.find_path(sers, sers, skip_labels=NORMAL)
    rep.check(p is None and len(sers) == 1, "header-present", "weights are serialized once", sers[0].where(), path_str(p))
    # no_header default
    d = dict(zip([a.arg for a in f.node.args.args][::-1], f.node.args.defaults[::-1]))
    d.update({a.arg: v for a, v in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults) if v is not None})
    rep.check(isinstance(d.get("no_header"), ast.Constant) and d["no_header"].value is False, "header-present", "the header is on by default", f.where(), "no_header default changed")
    # container
    for kind, fn, bad in (("raw", ("open", "io.open"), "lz4"), ("lz4", ("lz4.frame.open",), "raw")):
        e = edges(fl, lambda a: a[0] == "cmp" and a[1] == "==" and ("const", kind) in a[2:] and ("param", "output_type") in a[2:])
        opens = [n for n in calls(fl, lambda c: c and c[0] == "global" and c[1] in fn, True)]
        rep.check(bool(opens), "encoding", f"{kind} output opened", f.where(), f"no {fn[0]} call")
        for n in opens:
            p = fl.find_path([fl.g.entry], [n], avoid_edge=e, skip_labels=NORMAL)
            rep.check(p is None, "encoding", f"{fn[0]} used for {kind} output only", n.where(), path_str(p))
            m = argval(fl, n, 1, "mode", ("const", "r"))
            vals = {a for a in alts(m)}
            bt = modes(fl, m)
            rep.check(bt == {"wb", "wt"} or bt == {"wb", "w"}, "encoding", f"{kind} file opened for binary or text writing", n.where(), show(m)[:80])
    flat = [(n, t[1]) for n, t in assigned(fl) if t[0] == "const" and t[1] in ("b", "wb", "t", "wt")]
    for n, v in flat:
        binm = edges(fl, lambda a: a[0] == "attr" and a[2] == "is_binary")
        txtm = edges(fl, lambda a: a[0] == "not" and a[1][0] == "attr" and a[1][2] == "is_binary")
        if "b" in v:
            p = fl.find_path([fl.g.entry], [n], avoid_edge=binm, skip_labels=NORMAL)
            rep.check(p is None, "encoding", "binary mode for binary formats", n.where(), path_str(p))
        elif "t" in v:
            p = fl.find_path([fl.g.entry], [n], avoid_edge=txtm, skip_labels=NORMAL)
            rep.check(p is None, "encoding", "text mode for text formats", n.where(), path_str(p))
    base = P.cls(f"{SER}:BaseSerializer")
    for c in [base] + [k for m in P.modules.values() for k in m.classes.values() if base in k.mro and k is not base]:
        nh = c.methods.get("needs_header")
        if nh is None:
            continue
        from sa.lib import retval
        r = norm(P, retval(flow(P, nh, None, cls=c)))
        ok = r == ("attr", ("self",), "is_binary") or (c is not base and r == ("const", False))
        rep.check(ok, "header-present", f"{c.qual.split('.')[-1]} needs a header iff binary", nh.where(), show(r)[:80])


def modes(fl, m):
    """string values a mode term may take"""
    if m[0] == "phi":
        out = set()
        for a in m[1:]:
            out |= modes(fl, a)
        return out
    if m[0] == "const":
        return {m[1]}
    if m[0] == "bin" and m[1] == "Add":
        return {a + b for a in modes(fl, m[2]) for b in modes(fl, m[3])}
    if m[0] == "fstr" or m[0] == "join":
        out = {""}
        for x in m[1:]:
            out = {a + b for a in out for b in modes(fl, x)}
        return out
    return {"?"}


TYPES = {"torch-jit": ("export_torch_jit", None, None), "onnx": ("export_onnx", None, None), "txt": ("export_serialization", "raw", False),
         "bin": ("export_serialization", "raw", False), "bin-noheader": ("export_serialization", "raw", True),
         "bin-lz4": ("export_serialization", "lz4", False), "bin-lz4-noheader": ("export_serialization", "lz4", True)}


def exporting(P, rep):
    f = P.func("export:export")
    stop = ("export_torch_jit", "export_onnx", "export_serialization")
    fl = flow(P, f, lambda g, call, x: g.module.name == "export" and g.name not in stop)
    rep.graph(fl)
    outs = [n for n in calls(fl, lambda c: c and c[0] == "global" and c[1] in {f"export.{s}" for s in stop}, True)]
    rep.check(bool(outs), "encoding", "an export is run", f.where(), "no export function is called")
    if not outs:
        return
    models = set()
    byfn = {}
    for n in outs:
        fn = fl.callee(n)[1].split(".")[1]
        g = P.func(f"export:{fn}")
        ps = [a.arg for a in g.node.args.args]
        m = argval(fl, n, ps.index("model"), "model", ("const", None))
        models.add(m)
        o = argval(fl, n, ps.index("output"), "output", ("const", None))
        rep.check(("param", "output") in alts(o) or has(o, lambda x: x == ("param", "output")), "encoding", f"{fn} writes to the requested output", n.where(), show(o)[:80])
        byfn.setdefault(fn, []).append(n)
    rep.check(len(models) == 1, "weights", "every export type exports the loaded model", outs[0].where(), "different models")
    model = next(iter(models))
    lds = [n for n in method(fl, "load_state_dict") if fl.recv(n) == model]
    p = must_pass(fl, [fl.g.entry], outs, lds)
    rep.check(bool(lds) and p is None, "weights", "weights are loaded before every export", outs[0].where(), path_str(p))
    for n in lds:
        v = argval(fl, n, 0, "state_dict", ("const", None))
        ok = v[0] == "item" and v[2] == 0 and v[1][0] == "call" and v[1][1].endswith("load_torch_ckpt")
        rep.check(ok, "weights", "the loaded weights are the checkpoint's model state", n.where(), show(v)[:120])
        s = argval(fl, n, 1, "strict", ("const", True))
        rep.check(s == ("const", True), "weights", "weights are loaded strictly", n.where(), f"strict={show(s)}")
        if ok:
            a = v[1][2][0] if v[1][2] else dict(v[1][3]).get("filepath", ("?",))
            good = all(x == ("param", "checkpoint") or x[0] == "call" and x[1].endswith("find_latest_ckpt") for x in alts(a))
            rep.check(good, "weights", "the checkpoint given or found is the one loaded", n.where(), show(a)[:100])
            given = [x for n2 in calls(fl, lambda c: c and c[0] == "global" and c[1].endswith("find_latest_ckpt"), True) for x in [n2]]
            e = edges(fl, lambda a: a[0] == "cmp" and a[1] in ("is", "==") and ("const", None) in a[2:] and (has(a, lambda x: x == ("param", "checkpoint"))) or
                      a[0] == "not" and has(a, lambda x: x == ("param", "checkpoint")) and a[1][0] in ("param", "phi"))
            p = fl.find_path([fl.g.entry], given, avoid_edge=e, skip_labels=NORMAL)
            rep.check(p is None, "weights", "a given checkpoint is never replaced by a search", n.where(), path_str(p))
    # nothing rebuilds or reloads the model after loading
    ev = [n for n in method(fl, "eval") if fl.recv(n) == model]
    p = must_pass(fl, [fl.g.entry], outs, ev)
    rep.check(bool(ev) and p is None, "weights", "the model is in evaluation mode", outs[0].where(), path_str(p))
    tr = [n for n in method(fl, "train", "init_weights", "reset_parameters", "initialize")]
    rep.check(not tr, "weights", "weights are not changed after loading", (tr or outs)[0].where(), "model modified")
    et = ("param", "export_type")
    g = P.func("export:export_serialization")
    ps = [a.arg for a in g.node.args.args]
    for kind, (fn, cont, nohdr) in TYPES.items():
        e = edges(fl, lambda a: a[0] == "cmp" and a[1] == "==" and set(a[2:]) == {et, ("const", kind)})
        heads = [(n, s, l) for n in fl.g.live for s, l in n.succ if e(n, s, l)]
        reach = []
        other = edges(fl, lambda a: a[0] == "cmp" and a[1] == "==" and et in a[2:] and ("const", kind) not in a[2:])
        nothere = edges(fl, lambda a: a[0] == "not" and a[1][0] == "cmp" and set(a[1][2:]) == {et, ("const", kind)} or a[0] == "cmp" and a[1] == "!=" and set(a[2:]) == {et, ("const", kind)})
        for n in outs:
            p = fl.find_path([fl.g.entry], [n], avoid_edge=lambda a, b, c: other(a, b, c) or nothere(a, b, c), skip_labels=NORMAL)
            if p is not None:
                reach.append(n)
        rep.check(len(reach) == 1 and fl.callee(reach[0])[1] == f"export.{fn}", "encoding", f"export type {kind} runs {fn}", f.where(), f"runs {[fl.callee(n)[1] for n in reach]}")
        p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=reach, avoid_edge=lambda a, b, c: other(a, b, c) or nothere(a, b, c), skip_labels=NORMAL)
        rep.check(p is None, "encoding", f"export type {kind} always produces output", f.where(), path_str(p))
        for n in reach:
            if fn != "export_serialization" or fl.callee(n)[1] != f"export.{fn}":
                continue
            c = argval(fl, n, ps.index("output_type"), "output_type", ("const", None))
            h = argval(fl, n, ps.index("no_header") if "no_header" in ps else 99, "no_header", ("const", False))
            rep.check(c == ("const", cont), "encoding", f"export type {kind} writes a {cont} file", n.where(), show(c))
            rep.check(h == ("const", nohdr), "encoding", f"export type {kind} {'omits' if nohdr else 'has'} the header", n.where(), f"no_header={show(h)}")
            if kind == "txt":
                sd = [m for m in method(fl, "setdefault", "update", "__setitem__") if argval(fl, m, 0, None, ("?",)) == ("const", "text_output") and argval(fl, m, 1, None, ("?",)) == ("const", True)]
                st = [m for m, tgt, v, t, cx in fl.stores() if tgt[0] == "sub" and has(tgt, lambda x: x == ("const", "text_output"))]
                p = fl.find_path([fl.g.entry], [n], avoid=sd + st, avoid_edge=lambda a, b, c: other(a, b, c) or nothere(a, b, c), skip_labels=NORMAL)
                rep.check(bool(sd + st) and p is None, "encoding", "txt exports ask for text", n.where(), path_str(p))
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=outs, skip_labels=NORMAL)
    rep.check(p is None, "encoding", "an unknown export type is an error", f.where(), path_str(p))
