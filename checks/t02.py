"""T02: checkpoint, runtime, export and profile files appear under their final name only when completely written."""
import ast
from sa.flow import alts, contains, flow, has, show
from sa.lib import calls, norm, path_str, returns
from sa.project import AnchorError, dotted
from sa.rules import NORMAL, argval, edges, method, must_pass

PUBLISH = {"os.replace": "replace", "os.rename": "rename", "os.link": "link", "shutil.move": "move"}
SCOPE = ("trainer.base", "utils.file_utils", "utils.async_checkpoint", "export", "dataset.telemetry")


def run(P, rep):
    rep.rule("via-temporary", "every write of a published file goes to a temporary name that is then renamed (or linked) to the final one")
    rep.rule("complete-before-publish", "publication happens only after the write and the closing of the file succeeded, never on a failure path")
    rep.rule("always-published", "a completed write is published")
    rep.rule("temporary-invisible", "a temporary name is never mistaken for a published file")
    rep.rule("no-overwrite", "runtime sidecars are created exclusively, flushed to disk, and never replace an existing file")
    exts = ckpt_exts(P)
    tops = {}
    for f in P.all_funcs:
        if f.module.name in SCOPE:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and kind_of_ast(f, n):
                    tops.setdefault(f.qual, f)
                    break
    # nested functions are analysed through the function that contains them
    tops = {q: f for q, f in tops.items() if not isinstance(getattr(f, "parent", None), type(f))}
    ok = 0
    done = set()
    work = [(f, 0, None) for f in tops.values()]
    while work:
        f, depth, below = work.pop(0)
        if f.qual in done:
            continue
        done.add(f.qual)
        n, climb = analyse(P, rep, f, exts, depth, below)
        ok += n
        if climb:
            cs = callers(P, f)
            if not cs:
                for what, where, why in climb:
                    rep.bad("via-temporary", what, where, why)
            for g in cs:
                done.discard(g.qual)
                work.append((g, depth + 1, f))
                if depth > 4:
                    raise AnchorError(f"{f.qual}: too many callers")
    rep.floor("published writes", ok, 5)
    sidecar(P, rep)


def ckpt_exts(P):
    f = P.func("utils.file_utils:find_latest_ckpt")
    d = f.node.args.defaults
    for x in d:
        if isinstance(x, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in x.elts):
            return tuple(e.value for e in x.elts)
    return (".pt", ".pth", ".sft", ".safetensors")


def kind_of_ast(f, n):
    d = dotted(n.func) or ""
    full = f.module.resolve(d) if d else ""
    full = getattr(full, "qual", full) or d
    full = full if isinstance(full, str) else d
    if full in PUBLISH or d in PUBLISH:
        return "publish"
    if d.endswith("torch.save") or full == "torch.save":
        return "write"
    if isinstance(n.func, ast.Attribute) and n.func.attr in ("write_text", "write_bytes"):
        return "write"
    if f.module.name == "export" and (d == "open" or d.endswith("frame.open")):
        return "write"
    return None


def callers(P, f):
    out = []
    for g in P.all_funcs:
        if g is f or g.module.name.startswith("tools"):
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if nm == f.name:
                    out.append(g)
                    break
    return out


def reaches(P):
    """functions of the scope that (transitively, by name) contain a write or a publication"""
    if not hasattr(P, "_t02"):
        s = set()
        names = {}
        for f in P.all_funcs:
            if f.module.name not in SCOPE:
                continue
            names[f] = {(n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None)
                        for n in ast.walk(f.node) if isinstance(n, ast.Call)}
            if any(isinstance(n, ast.Call) and kind_of_ast(f, n) for n in ast.walk(f.node)):
                s.add(f)
        grew = True
        small = {f for f in names if len(list(ast.walk(f.node))) < 900}
        while grew:
            grew = False
            for f, ns in names.items():
                if f not in s and f in small and any(g.name in ns and g.module is f.module for g in s):
                    s.add(f)
                    grew = True
        # helpers computing names are inlined as well
        P._t02 = s
    return P._t02


def sinks(fl):
    out = []
    for n in calls(fl, None, True):
        c = fl.callee(n)
        if not c or n.note == "inlined":
            continue
        if c[0] == "global" and c[1] == "torch.save":
            out.append((n, "save", argval(fl, n, 1, "f", ("const", None))))
        elif c[0] == "method" and c[1] in ("write_text", "write_bytes"):
            out.append((n, "text", fl.recv(n)))
        elif c[0] == "global" and (c[1] == "open" or c[1].endswith("frame.open") or c[1] in ("io.open", "gzip.open")):
            mode = argval(fl, n, 1, "mode", ("const", "r"))
            lits = [x[1] for x in [mode, *walk(mode)] if x[0] == "const" and isinstance(x[1], str)]
            if any(set(m) & set("wx+") for m in lits):
                out.append((n, "open", argval(fl, n, 0, "file", argval(fl, n, 0, "filename", ("const", None)))))
    return out


def walk(t):
    from sa.flow import subterms
    return list(subterms(t))


def pubs(fl):
    out = []
    for n in calls(fl, None, True):
        c = fl.callee(n)
        if c and c[0] == "global" and c[1] in PUBLISH:
            out.append((n, argval(fl, n, 0, "src", ("const", None)), argval(fl, n, 1, "dst", ("const", None))))
        elif c and c[0] == "method" and c[1] in ("replace", "rename") and len(n.call.args) == 1 and not n.call.keywords:
            out.append((n, fl.recv(n), argval(fl, n, 0, None, ("const", None))))
    return out


def handle_of(t):
    """with-handle term -> terms of the opened objects"""
    return [t[1]] if t[0] == "with" else []


def analyse(P, rep, f, exts, depth, below):
    R = reaches(P)
    short = lambda g: len(list(ast.walk(g.node))) < 260
    fl = flow(P, f, lambda g, call, x: g in R or g.module is f.module and short(g) and f.module.name != "trainer.base", cls=f.cls)
    rep.graph(fl)
    S, U = sinks(fl), pubs(fl)
    used = set()
    good = 0
    climb = []
    if below is not None and not any(x.ctx.func is below for x in fl.g.live):
        rep.bad("via-temporary", f"{below.name}: file published by its caller", f.where(), f"{f.name} receives a file name from {below.name} and the write cannot be followed")
    rets = {t for _, t in returns(fl)}
    if f.module.name != "export":
        S = [s for s in S if s[1] != "open"] + [s for s in S if s[1] == "open" and any(same(u[1], s[2]) for u in U)]
    for n, kind, path in S:
        what = f"{f.name}: {kind} of {desc(path)}"
        # torch.save into an open handle: the handle's own path is what counts
        handle = fl.term(n, n.call) if kind == "open" else None
        if path[0] == "with":
            handle = path[1]
            path2 = handle_path(fl, path)
            if path2 is not None:
                path = path2
        us = [u for u in U if same(u[1], path)]
        if not us:
            p0 = root_params(path)
            if not U and depth < 3 and any(same(r, path) for r in rets) and callers(P, f):
                climb.append((what, n.where(), "the written file is handed to the caller"))
            elif p0 and fl.g.root is f and path[0] in ("param", "with", "vcall") or (p0 and not U and depth < 3 and path[0] == "param"):
                climb.append((what, n.where(), "written directly under its final name by every caller"))
            else:
                rep.bad("via-temporary", f"{f.name}: {kind} reaches disk through a temporary name", n.where(), f"writes {desc(path)} directly")
            continue
        for u, src, dst in us:
            used.add(u.id)
            good += 1
            where = u.where()
            nm = f"{f.name}: {kind}"
            rep.check(not same(src, dst), "via-temporary", f"{nm}: temporary differs from the final name", where, f"renames {desc(src)} to itself")
            p = fl.find_path([n], [u], src_labels=("exc", "excb"), avoid=[n], skip_labels=())
            rep.check(p is None, "complete-before-publish", f"{nm}: not published when the write fails", where, "published after a failed write: " + path_str(p))
            p = fl.find_path([fl.g.entry], [u], avoid=[x for x, _, q in S if same(q, path) or x is n], skip_labels=NORMAL)
            rep.check(p is None, "complete-before-publish", f"{nm}: published only after its write", where, "published before it is written: " + path_str(p))
            p = fl.find_path([u], [x for x, _, q in S if same(q, path)], skip_labels=NORMAL)
            rep.check(p is None, "complete-before-publish", f"{nm}: not written after publication", where, path_str(p))
            p = fl.find_path([n], [fl.g.exit], avoid=[x for x, s, _ in us], skip_labels=NORMAL)
            rep.check(p is None, "always-published", f"{nm}: published on every completed path", where, "the write is never published: " + path_str(p))
            if handle is not None:
                closed(P, rep, fl, n, u, nm, handle)
            rep.check(invisible(src, dst, exts), "temporary-invisible", f"{nm}: temporary name is not a discoverable file name", n.where(), f"temporary is {desc(src)}")
            rep.check(contains(src, dst) or dir_fd(fl, u) or same_dir(src, dst), "via-temporary", f"{nm}: temporary lies in the destination directory", where, f"{desc(src)} -> {desc(dst)}")
    for u, src, dst in U:
        if u.id not in used and not any(same(src, q) for _, _, q in S):
            w = writers(fl, src)
            if w:
                for n in w:
                    nm = f"{f.name}: file written through a handle"
                    good += 1
                    p = fl.find_path([fl.g.entry], [u], avoid=[n], skip_labels=NORMAL)
                    rep.check(p is None, "complete-before-publish", f"{nm}: published only after its write", u.where(), path_str(p))
                    closed(P, rep, fl, n, u, nm, fl.term(n, n.call))
                    rep.check(invisible(src, dst, exts), "temporary-invisible", f"{nm}: temporary name is not a discoverable file name", n.where(), f"temporary is {desc(src)}")
            elif src[0] == "param" and depth < 4:
                climb.append((f"{f.name}: publication of {desc(src)}", u.where(), "published file is not written first"))
            else:
                rep.bad("complete-before-publish", f"{f.name}: published file is written first", u.where(), f"nothing writes {desc(src)} before it is published")
    return good, climb


def writers(fl, src):
    """os.open(src, …O_CREAT…) calls"""
    return [n for n in calls(fl, lambda c: c == ("global", "os.open"), True) if same(argval(fl, n, 0, "path", ("const", None)), src)]


def closed(P, rep, fl, n, u, nm, val):
    """the handle opened at n is closed on every path to u, and never through an exception"""
    ex = [x for x in fl.g.live if x.kind == "with_exit" and x.expr is not None and has(fl.term(x, x.expr), lambda t: t == val)]
    ex += [x for x in method(fl, "close") if has(fl.recv(x), lambda t: t == val)]
    inner = [x for x in fl.g.live if x.kind == "call" and x.call is not None and fl.callee(x) == ("global", "os.fdopen")
             and has(argval(fl, x, 0, None, ("const", None)), lambda t: t == val)]
    for x in inner:
        v2 = fl.term(x, x.call)
        ex += [y for y in fl.g.live if y.kind == "with_exit" and y.expr is not None and has(fl.term(y, y.expr), lambda t: t == v2)]
    p = fl.find_path([n], [u], avoid=ex, skip_labels=NORMAL)
    rep.check(bool(ex) and p is None, "complete-before-publish", f"{nm}: closed before it is published", u.where(), "published while still open: " + path_str(p))
    reach = fl.reach(n)
    vals = {val} | {fl.term(x, x.call) for x in inner}
    mid = [x for x in fl.g.live if x.id in reach and u.id in fl.reach(x) and x.id != u.id and x.kind == "call" and x.call is not None
           and any(has(fl.term(x, a), lambda t: t in vals) for a in [*x.call.args, x.call.func])]
    bad = None
    for x in mid:
        if any(l == "exc" for _, l in x.succ):
            bad = fl.find_path([x], [u], src_labels=("exc",), skip_labels=(), avoid=[n])
            if bad is not None:
                break
    rep.check(bad is None, "complete-before-publish", f"{nm}: not published when writing fails part-way", u.where(), "published after a failure: " + path_str(bad))


def handle_path(fl, t):
    for x in walk(t):
        if x[0] == "call" and (x[1] == "open" or x[1].endswith(".open")) and x[2]:
            return x[2][0]
        if x[0] == "call" and x[1] == "os.fdopen" and x[2]:
            for y in walk(x[2][0]):
                if y[0] == "call" and y[1] == "os.open" and y[2]:
                    return y[2][0]
    return None


def same(a, b):
    return a == b and a != ("const", None)


def root_params(t):
    return has(t, lambda x: x[0] == "param")


def dir_fd(fl, u):
    kw = {k.arg: fl.term(u, k.value) for k in u.call.keywords}
    return "src_dir_fd" in kw and kw.get("src_dir_fd") == kw.get("dst_dir_fd")


def same_dir(a, b):
    def parent(t):
        if t[0] == "bin" and t[1] in ("Div", "/"):
            return t[2]
        if t[0] == "mcall" and t[2] in ("with_name", "with_suffix"):
            return t[1]
        if t[0] == "call" and t[1] in ("os.path.join",) and t[2]:
            return t[2][:-1]
        return None
    return parent(a) is not None and parent(a) in (parent(b), b)


def first_last(t):
    """(first, last) constant text of a name expression (None if not constant)"""
    if t[0] == "const" and isinstance(t[1], str):
        return t[1], t[1]
    if t[0] == "bin" and t[1] == "Add":
        return first_last(t[2])[0], first_last(t[3])[1]
    if t[0] == "bin" and t[1] in ("Div", "/"):
        return first_last(t[3])
    if t[0] == "fstr" and len(t) > 1:
        return first_last(t[1])[0], first_last(t[-1])[1]
    if t[0] == "call" and t[1] == "os.path.join" and t[2]:
        return first_last(t[2][-1])
    if t[0] == "mcall" and t[2] in ("with_name",) and t[3]:
        return first_last(t[3][0])
    if t[0] == "mcall" and t[2] in ("with_suffix",) and t[3]:
        return None, first_last(t[3][0])[1]
    return None, None


def invisible(src, dst, exts):
    for a in alts(src):
        f, l = first_last(a)
        hidden = f is not None and f.startswith(".")
        odd = l is not None and l != "" and not any(l.endswith(e) for e in exts + (".json", ".bin", ".lz4", ".onnx"))
        if not (hidden or odd):
            return False
    return True


def desc(t):
    return show(t)[:70]


def sidecar(P, rep):
    c = P.cls("trainer.base:BaseTrainer")
    m = c.find("_write_vq_runtime_sidecar")
    if m is None:
        raise AnchorError("BaseTrainer._write_vq_runtime_sidecar")
    R = reaches(P)
    fl = flow(P, m, lambda g, call, x: g in R, cls=c)
    rep.graph(fl)
    U = pubs(fl)
    rep.check(bool(U) and all(fl.callee(u) == ("global", "os.link") for u, _, _ in U), "no-overwrite", "sidecar published by an exclusive link", m.where(),
              "publication can replace a committed sidecar")
    op = [n for n in calls(fl, lambda x: x == ("global", "os.open"), True) if "O_CREAT" in show(argval(fl, n, 1, "flags", ("const", 0)))]
    rep.check(bool(op) and all("O_EXCL" in show(argval(fl, n, 1, "flags", ("const", 0))) for n in op), "no-overwrite", "sidecar temporary created exclusively", m.where(), "no exclusive creation")
    for u, src, dst in U:
        w = [n for n in calls(fl, lambda x: x == ("global", "torch.save"), True)]
        fs = [n for n in calls(fl, lambda x: x == ("global", "os.fsync"), True)]
        fsh = method(fl, "flush")
        p = must_pass(fl, w, [u], fs)
        rep.check(bool(w) and bool(fs) and p is None, "no-overwrite", "sidecar synced to disk before publication", u.where(), path_str(p))
        p = must_pass(fl, w, fs, fsh)
        rep.check(bool(fsh) and p is None, "no-overwrite", "sidecar buffers flushed before the sync", u.where(), path_str(p))
        p = fl.find_path([fl.g.entry], [u], avoid=w, skip_labels=NORMAL)
        rep.check(p is None, "complete-before-publish", "sidecar content written before publication", u.where(), path_str(p))
        ul = [n for n in calls(fl, lambda x: x is not None and x[0] == "global" and x[1] in ("os.unlink", "os.remove"), True) if same(argval(fl, n, 0, "path", ("const", None)), dst)]
        rep.check(not ul, "no-overwrite", "existing sidecars are not removed first", m.where(), "the final name is unlinked before linking")
