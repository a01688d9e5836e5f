"""D05: record order, admission and augmentation are a fixed function of seed, epoch and record."""
import ast
from sa.absval import refuted, world
from sa.flow import alts, flow, has, rewrite, show, subterms
from sa.lib import calls, norm, path_str, returns
from sa.project import dotted, own_nodes
from sa.rules import NORMAL, assigned, edges, falsy, helpers, known, stores_to

SELF = ("self",)
P_ = lambda n: ("param", n)
CORE = "dataset.core"
DRAWS = {"rng_u64", "rng_digest", "uniform_below", "deterministic_permutation", "sample_is_admitted", "_uniform_below_for_processed_sample_keys_v2",
         "_uniform_below_for_packed_processed_rows_v2", "_uniform_below_for_processed_sample_keys"}
EPOCHS = {"epoch", "_epoch", "_active_epoch"}
IDENT = {"record_key", "sample_key", "sample_keys", "_file_identity", "stream_key", "file_key", "file_sha256", "content_digests", "_descriptor_digests", "sample_digest"}
WHO = {"rank", "_rank", "world_size", "_world_size", "worker_id", "local_rank", "num_workers", "getpid", "get_ident"}
# documented per-process draws and the map-style reader (not part of the streamed data path)
EXEMPT = {"map_symmetry", "sample_symmetry_fallback"}
PER_RANK = {"sequential_shard_file_order"}
AMBIENT = ("random.", "numpy.random.", "secrets.", "uuid.", "torch.rand", "torch.Generator", "torch.manual_seed", "torch.seed", "torch.initial_seed", "torch.multinomial", "torch.bernoulli",
           "torch.normal", "datetime.")
AMBIENT_FN = {"os.urandom", "os.getpid", "os.getppid", "threading.get_ident", "threading.get_native_id", "threading.current_thread", "hash", "id", "os.times", "socket.gethostname",
              "platform.node", "os.getenv", "os.cpu_count"}
CLOCK = ("time.",)
LISTING = {"os.listdir", "os.scandir", "glob.glob", "glob.iglob", "os.walk"}
LISTING_M = {"iterdir", "glob", "rglob"}
ORDERLESS = {"sorted", "len", "set", "frozenset", "sum", "min", "max", "any", "all", "bool", "isinstance", "repr"}
TELEMETRY = ("dataset.telemetry",)


def mods(P):
    return [m for m in P.modules.values() if m.name.split(".")[0] == "dataset" or m.name in ("utils.data_utils", "utils.file_utils")]


def run(P, rep):
    rep.rule("ambient", "nothing in the data path draws on unseeded randomness, process identity or the clock")
    rep.rule("unordered", "no set or directory listing is consumed in its arbitrary order")
    rep.rule("fifo", "work given to a thread pool is consumed in the order it was submitted")
    rep.rule("seeded", "every draw uses the configured seed")
    rep.rule("epoch", "every draw is keyed with the epoch that is being read")
    rep.rule("record", "every draw is keyed with the record, file set or stream it is for")
    rep.rule("rank", "no draw that decides a record's fate or a common order is keyed with the rank or worker")
    rep.rule("cycle", "each repeat of the data within an epoch has its own draws")
    rep.rule("domain", "draws for different purposes use different constant names")
    rep.rule("order", "the files are visited in the drawn order if shuffling is on and in their listed order otherwise")
    rep.rule("admitted", "a record is passed on exactly if its draw admits it")
    rep.rule("applied", "the symmetry drawn is the one applied, from the list it was drawn for")
    ambient(P, rep)
    unordered(P, rep)
    fifo(P, rep)
    draws(P, rep)
    fields(P, rep)
    cycles(P, rep)
    admission(P, rep)
    applied(P, rep)
    keys(P, rep)
    orders(P, rep)


def full(m, e):
    d = dotted(e)
    if not d:
        return None
    r = m.resolve(d)
    return r if isinstance(r, str) else getattr(r, "qual", None) or d


def owner(m, node):
    best = None
    for f in m.project.all_funcs if hasattr(m, "project") else ():
        if f.module is m and f.node.lineno <= node.lineno <= (f.node.end_lineno or 0):
            if best is None or f.node.lineno >= best.node.lineno:
                best = f
    return best.qual if best else m.name


def ambient(P, rep):
    n = 0
    for m in mods(P):
        parents = {c: p for p in ast.walk(m.tree) for c in ast.iter_child_nodes(p)}
        local = set()
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                local.add(x.id)
        for x in ast.walk(m.tree):
            if not isinstance(x, (ast.Attribute, ast.Name)) or not isinstance(x.ctx, ast.Load) or isinstance(parents.get(x), ast.Attribute):
                continue
            q = full(m, x)
            if not q:
                continue
            n += 1
            call = parents.get(x)
            if isinstance(x, ast.Name) and q in ("hash", "id") and not (isinstance(call, ast.Call) and call.func is x):
                continue
            seeded = q == "torch.Generator" or q.startswith("numpy.random.") and False
            bad = (q in AMBIENT_FN or q.startswith(AMBIENT)) and not seeded
            if bad and q in ("hash", "id") and (x.id in local):
                bad = False
            if q == "os.cpu_count" or m.name.startswith(TELEMETRY) and q in ("os.getpid", "threading.get_ident"):
                bad = False
            rep.check(not bad, "ambient", f"no unseeded source of variation ({q})", f"{m.rel}:{x.lineno}") if bad else None
            if q.startswith(CLOCK) and not m.name.startswith(TELEMETRY):
                clock(P, rep, m, x, parents)
    rep.seen("names of the data path checked against the ambient sources", n)
    rep.floor("names checked", n, 1500)


def clock(P, rep, m, x, parents):
    """a clock reading may only become an argument of a telemetry call (possibly through a local variable and a difference)"""
    def fine(e):
        p = parents.get(e)
        while p is not None and isinstance(p, (ast.BinOp, ast.IfExp, ast.UnaryOp)):
            if isinstance(p, ast.IfExp) and p.test is e:
                return False
            e, p = p, parents.get(p)
        if isinstance(p, ast.keyword):
            p = parents.get(p)
        if isinstance(p, ast.Call) and e is not p.func:
            f = p.func
            return isinstance(f, ast.Attribute) and any(w in f.attr for w in ("record", "observe", "telemetry", "stats")) or "telemetry" in ast.unparse(f) or isinstance(parents.get(p), ast.Expr) and "." in ast.unparse(f)
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            v = p.targets[0].id
            fn = p
            while fn is not None and not isinstance(fn, (ast.FunctionDef, ast.Module)):
                fn = parents.get(fn)
            return all(fine(u) or isinstance(parents.get(u), ast.Compare) and all(isinstance(c, ast.Constant) and c.value is None for c in parents[u].comparators)
                       for u in ast.walk(fn) if isinstance(u, ast.Name) and u.id == v and isinstance(u.ctx, ast.Load))
        return False
    call = parents.get(x)
    rep.check(isinstance(call, ast.Call) and fine(call), "ambient", "a clock reading only goes into telemetry", f"{m.rel}:{x.lineno}", "the reading of the clock is used for something else")


SETOPS = (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)


def unordered(P, rep):
    n = 0
    for m in mods(P):
        attrs = {}
        parents = {c: p for p in ast.walk(m.tree) for c in ast.iter_child_nodes(p)}
        for x in ast.walk(m.tree):   # self.x = <set> and annotated parameters
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and isset(x.value, {}, {}):
                attrs[x.targets[0].attr] = True
        for f in P.all_funcs:
            if f.module is not m or m.name.startswith(TELEMETRY) or "ckpt" in f.name:
                continue
            local = {}
            for a in f.node.args.args + f.node.args.kwonlyargs + f.node.args.posonlyargs:
                if a.annotation is not None and ast.unparse(a.annotation).split("[")[0].lower() in ("set", "frozenset", "abstractset", "collections.abc.set"):
                    local[a.arg] = True
            for _ in range(3):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and isset(x.value, local, attrs):
                        local[x.targets[0].id] = True
            for x in ast.walk(f.node):
                if isset(x, local, attrs) and not (isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)):
                    n += 1
                    bad = consumed(x, parents, attrs, local)
                    if bad:
                        rep.bad("unordered", f"{f.qual}: a set is {bad} in its arbitrary order", f"{m.rel}:{x.lineno}", ast.unparse(x))
                if isinstance(x, ast.Call):
                    q = full(m, x.func)
                    if q in LISTING or isinstance(x.func, ast.Attribute) and x.func.attr in LISTING_M and q not in LISTING and not (q or "").startswith(("numpy", "torch")):
                        n += 1
                        listing(rep, f, m, x, q, parents)
    rep.seen("uses of sets and directory listings", n)
    rep.floor("uses of sets and directory listings", n, 25)


def isset(e, local, attrs):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "difference", "intersection", "symmetric_difference"):
            return True
        return False
    if isinstance(e, ast.BinOp) and isinstance(e.op, SETOPS):
        return isset(e.left, local, attrs) or isset(e.right, local, attrs)
    if isinstance(e, ast.IfExp):
        return isset(e.body, local, attrs) or isset(e.orelse, local, attrs)
    if isinstance(e, ast.BoolOp):
        return any(isset(v, local, attrs) for v in e.values)
    if isinstance(e, ast.Name):
        return e.id in local
    if isinstance(e, ast.Attribute):
        return e.attr in attrs
    return False


def ordered(y, loop, parents):
    """a statement whose effect depends on the order in which a loop visits its elements"""
    if isinstance(y, (ast.Yield, ast.YieldFrom, ast.AugAssign, ast.Break)):
        return True
    if isinstance(y, ast.Return):
        return y.value is not None and not isinstance(y.value, ast.Constant)
    if isinstance(y, (ast.Assign, ast.AnnAssign)):
        return any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in (y.targets if isinstance(y, ast.Assign) else [y.target]))
    if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute):
        if y.func.attr == "append" and isinstance(y.func.value, ast.Name):   # a list that is only sorted, counted or tested
            fn = loop
            while not isinstance(fn, (ast.FunctionDef, ast.Module)):
                fn = parents[fn]
            us = [u for u in ast.walk(fn) if isinstance(u, ast.Name) and u.id == y.func.value.id and isinstance(u.ctx, ast.Load) and u is not y.func.value]
            return not us or any(not (isinstance(parents[u], ast.Call) and isinstance(parents[u].func, ast.Name) and parents[u].func.id in ORDERLESS) for u in us)
        return y.func.attr in ("append", "appendleft", "extend", "insert", "put", "write", "send", "setdefault", "submit")
    return False


def consumed(e, parents, attrs, local):
    p = parents.get(e)
    if isinstance(p, (ast.For, ast.AsyncFor)) and p.iter is e:
        return "iterated" if any(ordered(y, p, parents) for b in p.body for y in ast.walk(b)) else None
    if isinstance(p, ast.comprehension) and p.iter is e:
        c = parents.get(p)
        if isinstance(c, ast.SetComp):
            return None
        g = parents.get(c)
        if isinstance(c, ast.GeneratorExp) and isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id in ORDERLESS:
            return None
        if isinstance(c, (ast.ListComp, ast.DictComp)) and isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id in ORDERLESS:
            return None
        return "iterated"
    if isinstance(p, ast.Starred):
        g = parents.get(p)
        return None if isinstance(g, ast.Set) else "unpacked"
    if isinstance(p, ast.YieldFrom):
        return "iterated"
    if isinstance(p, ast.Attribute) and p.attr == "pop" and isinstance(parents.get(p), ast.Call) and not parents[p].args:
        return "popped"
    if isinstance(p, ast.Assign) and p.value is e and isinstance(p.targets[0], (ast.Tuple, ast.List)) and len(p.targets[0].elts) > 1:
        return "unpacked"
    if isinstance(p, ast.Call) and e in p.args:
        f = p.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        if name in ("list", "tuple", "iter", "enumerate", "zip", "map", "filter", "next", "reversed", "join", "extend", "array", "asarray", "fromiter", "deque", "dict", "fromkeys", "chain"):
            g = parents.get(p)
            if isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id in ORDERLESS:
                return None
            return f"passed to {name}()"
    return None


def listing(rep, f, m, x, q, parents):
    p = parents.get(x)
    if q == "os.walk":
        ok = False
        tgt = p.target if isinstance(p, ast.For) else None
        if isinstance(tgt, ast.Name):
            tgt = next((y.targets[0] for y in ast.walk(p) if isinstance(y, ast.Assign) and isinstance(y.value, ast.Name) and y.value.id == tgt.id), None)
        if isinstance(tgt, ast.Tuple) and len(tgt.elts) == 3:
            dn, fn = (t.id if isinstance(t, ast.Name) else None for t in tgt.elts[1:])
            body = [y for b in p.body for y in ast.walk(b)]
            srt = any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "sort" and isinstance(y.func.value, ast.Name) and y.func.value.id == dn for y in body) or \
                any(isinstance(y, ast.Assign) and isinstance(y.targets[0], ast.Subscript) and isinstance(y.targets[0].value, ast.Name) and y.targets[0].value.id == dn and isinstance(y.value, ast.Call)
                    and isinstance(y.value.func, ast.Name) and y.value.func.id == "sorted" for y in body)
            uses = [y for y in body if isinstance(y, ast.Name) and y.id == fn and isinstance(y.ctx, ast.Load)]

            def sorteduse(u):
                g = parents.get(u)
                return isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id in ORDERLESS or isinstance(g, ast.Attribute) and g.attr == "sort"
            ok = srt and (all(sorteduse(u) for u in uses) or any(isinstance(parents.get(u), ast.Attribute) and parents[u].attr == "sort" for u in uses))
        elif isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "sorted":
            ok = True
        rep.check(ok, "unordered", f"{f.qual}: directories and files are visited in sorted order", f"{m.rel}:{x.lineno}", "os.walk yields them in the order of the file system")
        return
    c = p
    while isinstance(c, (ast.GeneratorExp, ast.ListComp, ast.comprehension)):
        c = parents.get(c)
    ok = isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ORDERLESS
    if not ok and isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name):
        v = p.targets[0].id
        ok = any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "sort" and isinstance(y.func.value, ast.Name) and y.func.value.id == v for y in ast.walk(f.node))
    rep.check(ok, "unordered", f"{f.qual}: a directory listing is sorted before use", f"{m.rel}:{x.lineno}", f"{q} gives the order of the file system")


def fifo(P, rep):
    """futures are taken from the front of a queue they were appended to"""
    n = 0
    for m in mods(P):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call):
                q = full(m, x.func) or ""
                if q.split(".")[-1] in ("as_completed", "add_done_callback") or q in ("concurrent.futures.wait", "asyncio.wait") or isinstance(x.func, ast.Attribute) and x.func.attr in ("add_done_callback", "imap_unordered"):
                    rep.bad("fifo", f"{m.name}: results are taken in the order they finish", f"{m.rel}:{x.lineno}", ast.unparse(x))
        for f in P.all_funcs:
            if f.module is not m:
                continue
            subs = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "submit"]
            if not subs or f.parent is not None and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "submit" for y in ast.walk(f.parent.node)):
                continue
            n += 1
            parents = {c: p for p in ast.walk(f.node) for c in ast.iter_child_nodes(p)}
            boxes = set()
            for s in subs:
                p = parents.get(s)
                ok = True
                while p is not None and not isinstance(p, (ast.Assign, ast.Expr, ast.Return)):
                    if isinstance(p, ast.Call):
                        a = p.func
                        ok = isinstance(a, ast.Attribute) and a.attr == "append"
                        if ok:
                            boxes.add(ast.unparse(a.value))
                    p = parents.get(p)
                if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name):
                    v = p.targets[0].id
                    for y in ast.walk(f.node):
                        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("append", "appendleft", "insert", "add", "put") and any(isinstance(z, ast.Name) and z.id == v for a in y.args for z in ast.walk(a)):
                            ok = y.func.attr in ("append", "put")
                            boxes.add(ast.unparse(y.func.value))
                rep.check(ok and boxes, "fifo", f"{f.qual}: submitted work is queued at the end", f"{m.rel}:{s.lineno}", "not appended")
            for b in boxes:
                other = [y for y in ast.walk(f.node) if isinstance(y, ast.Attribute) and ast.unparse(y.value) == b and y.attr not in ("append", "popleft", "clear", "extend", "put", "get")]
                pops = [y for y in other if y.attr in ("pop", "appendleft", "rotate", "reverse", "sort", "insert", "remove", "popright")]
                pops = [y for y in pops if not (y.attr == "pop" and isinstance(parents.get(y), ast.Call) and parents[y].args and isinstance(parents[y].args[0], ast.Constant) and parents[y].args[0].value == 0)]
                it = [y for y in ast.walk(f.node) if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "reversed" and y.args and ast.unparse(y.args[0]) == b]
                back = [y for y in ast.walk(f.node) if isinstance(y, ast.Subscript) and ast.unparse(y.value) == b and ast.unparse(y.slice) not in ("0",)]
                front = [y for y in ast.walk(f.node) if isinstance(y, ast.Attribute) and ast.unparse(y.value) == b and y.attr in ("popleft", "get") or isinstance(y, ast.For) and ast.unparse(y.iter) == b or isinstance(y, ast.comprehension) and ast.unparse(y.iter) == b
                         or isinstance(y, ast.Attribute) and ast.unparse(y.value) == b and y.attr == "pop"]
                rep.check(not pops and not it and not back and front, "fifo", f"{f.qual}: queued work is taken from the front", f"{m.rel}:{f.node.lineno}", f"{b} is reordered or consumed from the back")
    rep.floor("functions that submit work to a pool", n, 2)


def last(t):
    if t[0] == "attr":
        return t[2]
    if t[0] in ("global", "var", "free"):
        return t[-1].split(".")[-1]
    if t[0] == "param":
        return t[1]
    if t[0] == "key":
        return str(t[2])
    return None


def graph(P, rep, f):
    fl = flow(P, f, helpers())
    rep.graph(fl)
    return fl


def named(t, names):
    return has(t, lambda x: last(x) in names)


def sites(P):
    """(function, flow, call node, draw, bound arguments) of every draw outside the generator module"""
    fs = [f for f in P.all_funcs if f.module.name.split(".")[0] == "dataset" and f.module.name != CORE or f.module.name == "utils.data_utils"]
    done = set()
    for f in roots(fs, lambda x: (x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else "") in DRAWS):
        fl = flow(P, f, helpers())
        for n in calls(fl, inlined=True):
            c = fl.callee(n)
            if c[0] == "global" and c[1].split(".")[-1] in DRAWS and c[1].startswith(CORE):
                if not known(f) and id(n.call) in done:
                    continue
                done.add(id(n.call))
                name = c[1].split(".")[-1]
                d = P.func(CORE + ":" + name)
                b = {}
                for i, p in enumerate(d.params):
                    a = fl.arg(n, i, p)
                    if a is not None:
                        b[p] = norm(P, a)
                yield f, fl, n, name, b


def roots(fs, pred):
    """the functions containing a matching node, or calling a function new since authoring that does (new functions last)"""
    names = set()
    hit = lambda f: any(pred(x) or (x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None) in names for x in own_nodes(f.node))
    while True:
        more = {f.name for f in fs if not known(f) and hit(f)} - names
        if not more:
            break
        names |= more
    out = [f for f in fs if hit(f)]
    return [f for f in out if known(f)] + [f for f in out if not known(f)]


SITES = {}


def bound(P):
    if P.root not in SITES:
        SITES[P.root] = list(sites(P))
    return SITES[P.root]


def elements(t):
    """the parts of a key, nested tuples laid out flat"""
    if t[0] == "seq":
        return [e for x in t[1:] for e in elements(x)]
    if t[0] == "comp":
        return elements(t[2])
    if t[0] == "star":
        return elements(t[1])
    return [t]


def ident(t):
    """one part of the key is a whole identity (not a piece of one)"""
    def whole(e):
        return last(e) in IDENT and e[0] in ("attr", "param", "global", "var", "free") or e[0] in ("call", "mcall") and str(e[1] if e[0] == "call" else e[2]).split(".")[-1] in ("_record_key", "record_key") \
            or e[0] == "phi" and all(ident(a) for a in alts(e))
    return any(whole(e) for e in elements(t))


def epochlike(t):
    return named(t, EPOCHS) or has(t, lambda x: x[0] in ("call", "mcall") and str(x[1] if x[0] == "call" else x[2]).split(".")[-1] == "_augmentation_epoch")


def opaque(t):
    """the term with what merely selects a record left out"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] in ("call", "mcall") and str(t[1] if t[0] == "call" else t[2]).split(".")[-1] in ("_record_key", "record_key") or t[0] in ("idx", "elem", "item") or t[0] == "attr" and t[2] in IDENT | {"entry_index", "next_subrecord"}:
        return ("const", None)
    if t[0] == "seq" and len(t) > 1 and t[1] in (("const", "root"), ("const", "sequential")):
        return ("const", None)
    return tuple(opaque(x) if isinstance(x, tuple) else x for x in t)


def keyof(b):
    ks = [b[k] for k in ("key", "sample_key", "sample_keys") if k in b]
    if "content_digests" in b:
        ks += [("seq", b["content_digests"], b.get("rows", ("const", None)), b.get("file_indices", ("const", None)))]
    return ("seq",) + tuple(ks)


def draws(P, rep):
    seen, doms = 0, {}
    for f, fl, n, name, b in bound(P):
        seen += 1
        rep.graph(fl)
        where = f"{f.module.rel}:{n.ast.lineno}"
        dom = b.get("domain", ("const", "sample") if name == "sample_is_admitted" else None)
        rep.check(dom is not None and dom[0] == "const" and isinstance(dom[1], str) and dom[1], "domain", f"{f.qual}: the purpose of the draw is a constant", where, show(dom) if dom else "none")
        d = dom[1] if dom and dom[0] == "const" else None
        if d in EXEMPT:
            if d == "sample_symmetry_fallback":
                rep.check(has(b["key"], lambda x: x[0] == "mcall" and x[2] == "digest"), "record", f"{f.qual}: a draw without a record key is keyed with the sample's content", where, show(b["key"]))
            continue
        doms.setdefault(d, []).append((f, n, name, b))
        seed = b.get("root_seed")
        rep.check(seed is not None and all(last(a) in ("seed", "root_seed") for a in alts(seed)), "seeded", f"{f.qual}: the draw uses the configured seed", where, show(seed) if seed else "none")
        k = keyof(b)
        ep = b.get("epoch", k)
        rep.check(all(epochlike(a) for a in alts(ep)) if "epoch" in b else all(epochlike(a) for a in keyalts(k)), "epoch", f"{f.qual}: the draw is keyed with the epoch", where, show(ep))
        if d == "sequential_cycle_epoch":
            rep.check(all(named(a, {"cycle"}) for a in keyalts(k)), "cycle", f"{f.qual}: the number drawn for a repeat is keyed with the repeat", where, show(k))
        else:
            rep.check(all(ident(a) for a in keyalts(k)), "record", f"{f.qual}: the draw is keyed with what it is for", where, show(k))
        if d not in PER_RANK:
            bad = [x for x in [k, ep] if named(opaque(x), WHO)]
            rep.check(not bad, "rank", f"{f.qual}: the draw does not depend on the rank", where, show(k))
        elif not named(k, {"rank", "_rank"}):
            pass
    rep.floor("draws", seen, 18)
    by = {}
    for d, us in doms.items():
        for f, n, name, b in us:
            if "uniform_below" in name and f.cls is not None:
                by.setdefault(f.cls.name, []).append((f, n, name, d, b))
    for cn, us in by.items():
        ds, vs = {u[3] for u in us}, {u[2].endswith("_v2") for u in us}
        es = {show(u[4]["epoch"]) for u in us if "epoch" in u[4]}
        rep.check(len(ds) == 1 and len(vs) == 1 and len(es) <= 1, "domain", f"{cn}: one record and a block of records draw from the same stream", us[0][0].module.rel, f"{ds} {es} {[u[2] for u in us]}")
    # one purpose per name: a draw among records and one among files never share a name and key
    for d, us in doms.items():
        kinds = {(u[2] == "deterministic_permutation") for u in us}
        orders = {u[0].name for u in us if u[2] == "deterministic_permutation"}
        if len(kinds) > 1:
            rep.bad("domain", f"the name {d!r} is used both for an order and for a choice", us[0][0].module.rel, "one name, two purposes")
        if len(orders) > 1:
            rep.bad("domain", f"the name {d!r} is used for different orders: {sorted(orders)}", us[0][0].module.rel, "one name, two purposes")


def keyalts(k):
    """alternatives of a key: of the whole key or of its parts"""
    out = [k]
    for i in range(4):
        nxt = []
        for t in out:
            p = next((x for x in subterms(t) if x[0] == "phi" and len(x) <= 6 and len(alts(x)) <= 5), None)
            if p is None or len(nxt) > 16:
                nxt.append(t)
            else:
                nxt += [rewrite(t, p, a) for a in alts(p)]
        out = nxt
    return out


def fields(P, rep):
    """where the epoch and seed that key the draws come from"""
    n = 0
    fs = [f for f in P.all_funcs if f.module.name.split(".")[0] == "dataset" and f.cls is not None]
    for f in roots(fs, lambda x: isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in EPOCHS | {"seed"}):
        if not known(f):
            continue
        q = f.qual
        fl = graph(P, rep, f)
        for node, tgt, val in stores_to(fl, lambda t: t[1] == SELF and t[2] in EPOCHS | {"seed"}):
            n += 1
            v = norm(P, val)
            where = f"{f.module.rel}:{node.ast.lineno}"
            if tgt[2] == "seed":
                rep.check(all(last(a) == "seed" for a in alts(v)), "seeded", f"{q}: the seed kept is the configured one", where, show(v))
            else:
                ok = all(last(a) in EPOCHS | {"source_epoch"} for a in alts(v)) or f.name == "__init__" and v == ("const", 0)
                rep.check(ok, "epoch", f"{q}: the epoch kept is the one being read", where, show(v))
    rep.floor("stores of the epoch and the seed", n, 10)
    # whoever reads the epoch from a decoder is told the epoch when a pass starts
    m = 0
    for q in ("dataset.npz_source:DenseNpzSource.start_cycle", "dataset.npz_source:IndexedNpzSource.start_cycle", "dataset.sequential_source:InterleavedSequentialSource.start_cycle"):
        f = P.func(q)
        fl = graph(P, rep, f)
        ss = [x for x, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_active_epoch")) if norm(P, v) == P_("epoch")]
        rets = returns(fl)
        p = fl.find_path([fl.g.entry], [r for r, _ in rets], avoid=ss, skip_labels=NORMAL)
        if "Npz" in q:
            cs = [c for c in calls(fl, inlined=True) if fl.callee(c)[-1] == "set_epoch" and norm(P, fl.arg(c, 0)) == P_("epoch")]
            e = edges(fl, falsy(lambda t: has(t, lambda x: x == ("const", "set_epoch"))))
            p2 = fl.find_path([fl.g.entry], [r for r, _ in rets], avoid=cs, avoid_edge=e, skip_labels=NORMAL)
            rep.check(p2 is None, "epoch", f"{f.qual}: the decoder is told the epoch", f.where(), path_str(p2))
            m += 1
        else:
            rep.check(p is None, "epoch", f"{f.qual}: the epoch of the pass is kept", f.where(), path_str(p))
    for q in ("dataset.decoder:ProcessedNpzDecoder", "dataset.decoder:NpzRowRecordDecoder"):
        f = P.cls(q).find("set_epoch")
        if f is None:
            rep.bad("epoch", f"{q}: the decoder can be told the epoch", q, "no such method")
            continue
        fl = graph(P, rep, f)
        ss = [x for x, t, v in stores_to(fl, lambda t: t == ("attr", SELF, "_active_epoch")) if norm(P, v) == P_("epoch")]
        rep.check(fl.find_path([fl.g.entry], [fl.g.exit], avoid=ss, skip_labels=NORMAL) is None, "epoch", f"{f.qual}: keeps the epoch it is told", f.where())


def possible(P, fl, t, env, at=None):
    """alternatives of term t that a run in this world can assign"""
    r = refuted(fl, env, lambda x: norm(P, x))
    if not hasattr(fl, "_binders"):
        by = {}
        for n in fl.g.live:
            for d in n.defs:
                v = d[1] if isinstance(d, tuple) and len(d) > 1 else None
                if isinstance(v, tuple) and v:
                    try:
                        by.setdefault(d[0], []).append((n, frozenset(alts(norm(P, fl.storeval(n, v))))))
                    except Exception:
                        pass
        fl._binders = [v for v in by.values() if len(v) > 1]

    def live(full, d=0):
        ok = set(full)
        for bs in fl._binders:
            if len(full) > 1 and d < 4 and frozenset().union(*(a for _, a in bs)) == full:
                got = set()
                for n, a in bs:
                    others = [m for m, _ in bs if m is not n]
                    if fl.find_path([fl.g.entry], [n], avoid_edge=r, skip_labels=NORMAL) is not None and \
                            (at is None or at is n or fl.find_path([n], [at], avoid=others, avoid_edge=r, skip_labels=NORMAL) is not None):
                        got |= live(a, d + 1) if a != full else a
                ok &= got
        return ok
    out = [t]
    for _ in range(4):
        nxt = []
        for t in out:
            p = next((x for x in subterms(t) if x[0] == "phi" and len(alts(x)) <= 6), None)
            if p is None or len(nxt) > 24:
                nxt.append(t)
                continue
            ok = live(frozenset(alts(p)))
            nxt += [rewrite(t, p, a) for a in alts(p) if a in ok]
        out = nxt
    return out


CYC = {"cycle", "source_cycle", "_source_cycle"}


def cycles(P, rep):
    again = world((lambda t: last(t) in CYC, 1))
    n = 0

    def need(fl, k, what, where):
        bad = [a for a in possible(P, fl, k, again) if not named(a, CYC)]
        rep.check(not bad, "cycle", what, where, show(bad[0]) if bad else "")
    for f, fl, c, name, b in bound(P):
        where = f"{f.module.rel}:{c.ast.lineno}"
        if name == "deterministic_permutation" and any(named(norm(P, fl.term(c, x)), CYC) for x in ()) or name == "deterministic_permutation" and any(a in CYC for a in f.all_params):
            need(fl, b["key"], f"{f.qual}: the order of a repeat is drawn anew", where)
            n += 1
        if name == "sample_is_admitted" and f.name == "_next_pending_envelope":
            need(fl, b["sample_key"], f"{f.qual}: a repeat of a record has its own key", where)
            n += 1
    for q in ("dataset.npz_source:DenseNpzSource._record_key", "dataset.npz_source:IndexedNpzSource._record_key", "dataset.planner:StreamingBatchPlanner._new_reservoir",
              "dataset.sequential_source:InterleavedSequentialSource._augmentation_epoch"):
        c, _, m = q.partition(":")[2].partition(".")
        cl = next((k for k in P.classes() if k.module.name == q.split(":")[0] and k.find(m) is not None and (k.name == c or "planner" in q)), None)
        f = cl.find(m) if cl else None
        if f is None:
            rep.bad("cycle", f"{q}: repeats have their own keys", q, "no such function")
            continue
        fl = graph(P, rep, f)
        n += 1
        if m == "_new_reservoir":
            for x in calls(fl, inlined=True):
                a = fl.arg(x, None, "stream_key")
                if a is not None:
                    need(fl, norm(P, a), f"{f.qual}: the shuffle of a repeat is drawn anew", f.where())
            continue
        r = refuted(fl, again, lambda x: norm(P, x))
        for x, t in returns(fl):
            if fl.find_path([fl.g.entry], [x], avoid_edge=r, skip_labels=NORMAL) is not None:
                need(fl, norm(P, t), f"{f.qual}: a repeat has its own number", f.where())
    for f in P.all_funcs:
        if f.module.name.split(".")[0] != "dataset" or not any(isinstance(x, ast.Attribute) and x.attr == "start_cycle" for x in ast.walk(f.node)):
            continue
        fl = graph(P, rep, f)
        for x in calls(fl, lambda c: c and c[-1] == "start_cycle", inlined=True):
            a, b = norm(P, fl.arg(x, 0, "epoch")), norm(P, fl.arg(x, 1, "cycle"))
            n += 1
            rep.check(named(a, EPOCHS) and (named(b, CYC) or b == ("const", 0) and f.name == "start_epoch" or has(b, lambda y: y == ("key", P_("state"), "cycle"))), "cycle", f"{f.qual}: the pass started is of the current epoch and repeat", f"{f.module.rel}:{x.ast.lineno}", f"{show(a)}, {show(b)}")
    rep.floor("places where a repeat is told apart", n, 10)


def admission(P, rep):
    n = 0
    for f, fl, c, name, b in bound(P):
        if name != "sample_is_admitted":
            continue
        n += 1
        where = f"{f.module.rel}:{c.ast.lineno}"
        isit = lambda t: t[0] == "call" and t[1].endswith("sample_is_admitted")
        rate = lambda t: last(t) == "sample_rate"
        made = lambda x: {a[1].split(".")[-1] for a in alts(fl.arg(x, 0) or ("const", None)) if a[0] == "call"}
        block = lambda x: made(x) & {"arange", "asarray", "array"}
        appends = list(calls(fl, lambda q: q and q[-1] in ("append", "extend"), inlined=True))
        emit = [x for x in appends if not block(x)]
        emit += [r for r, t in returns(fl) if any(x[0] == "call" and x[1].split(".")[-1] == "RecordEnvelope" for x in alts(norm(P, t)))]
        rep.check(bool(emit), "admitted", f"{f.qual}: admitted records are passed on", where, "nothing is appended or returned")
        rep.check(last(b["sample_rate"]) == "sample_rate", "admitted", f"{f.qual}: the configured rate decides", where, show(b["sample_rate"]))
        no = refuted(fl, world((isit, False), (rate, 0.5)), lambda x: norm(P, x))
        p = fl.find_path([c], emit, avoid=[c], avoid_edge=no, skip_labels=NORMAL)
        rep.check(p is None, "admitted", f"{f.qual}: a record that is not admitted is not passed on", where, path_str(p))
        p = fl.find_path([fl.g.entry], emit + [x for x in appends if "arange" in made(x)],
                         avoid=[c], avoid_edge=no, skip_labels=NORMAL)
        rep.check(p is None, "admitted", f"{f.qual}: below rate one no record is passed on without its draw", where, path_str(p))
        yes = refuted(fl, world((isit, True), (rate, 0.5)), lambda x: norm(P, x))
        p = fl.find_path([c], [c, fl.g.exit], avoid=emit, avoid_edge=yes, skip_labels=NORMAL)
        rep.check(p is None, "admitted", f"{f.qual}: a record that is admitted is passed on", where, path_str(p))
        # the key of the draw is the key the record carries
        for x in calls(fl, inlined=True):
            k = fl.arg(x, None, "record_key")
            if k is not None and fl.callee(x)[-1].split(".")[-1] == "RecordEnvelope":
                pay = fl.arg(x, None, "payload")
                pay = norm(P, pay) if pay is not None else ("const", None)
                if any(y[0] == "call" and y[1].endswith("SequentialPayload") for y in alts(pay)):
                    for y in alts(pay):
                        ep = norm(P, ("attr", y, "augmentation_epoch"))
                        rep.check(set(alts(ep)) == set(alts(b["epoch"])), "epoch", f"{f.qual}: the record carries the epoch it was admitted in", where, f"{show(ep)} vs {show(b['epoch'])}")
                rep.check(norm(P, k) == b["sample_key"], "record", f"{f.qual}: the record carries the key it was admitted with", where, f"{show(norm(P, k))} vs {show(b['sample_key'])}")
    rep.floor("admission draws", n, 5)


def applied(P, rep):
    n = 0
    for f, fl, c, name, b in bound(P):
        if not name.startswith(("uniform_below", "_uniform_below")):
            continue
        n += 1
        where = f"{f.module.rel}:{c.ast.lineno}"
        k = b.get("n")
        lists = [x for x in subterms(k) if x[0] == "call" and x[1].endswith("available_symmetries") or x[0] == "mcall" and x[2] == "available_symmetries"] if k else []
        rep.check(k is not None and k[0] == "call" and k[1] == "len" and lists, "applied", f"{f.qual}: the draw is among all symmetries of the board", where, show(k) if k else "none")
        posts = [x for x in calls(fl, inlined=True) if fl.arg(x, None, "symmetry_index") is not None and not fl.arg(x, None, "symmetry_index") == ("const", None)]
        for x in posts:
            v = norm(P, fl.arg(x, None, "symmetry_index"))
            got = [a for a in alts(v) if has(a, lambda y: y[0] == "call" and y[1].split(".")[-1] in DRAWS)]
            rest = [a for a in alts(v) if a not in got and a != ("const", 0)]
            rep.check(got and not rest, "applied", f"{f.qual}: the symmetry drawn is applied", f"{f.module.rel}:{x.ast.lineno}", show(v))
            kind = fl.arg(x, None, "symmetry_type")
            ks = {a for l in lists for t in (l[2] if l[0] == "call" else l[3])[1:] for a in alts(norm(P, t))}
            if kind is not None:
                want = {last(a) for a in alts(norm(P, kind))}
                rep.check(all(last(a) in want or a == ("const", "default") for a in ks), "applied", f"{f.qual}: the list drawn from is of the kind that is applied", where, f"{[show(a) for a in ks]} vs {want}")
        # with the symmetry option on, nothing but a missing record is returned without it
        plain = [x for x in calls(fl, lambda q: q and q[-1].split(".")[-1] in ("post_process_data", "post_process_batch"), inlined=True)]
        for x in plain:
            kind = fl.arg(x, None, "symmetry_type")
            if kind not in (None, ("const", None)) and x not in posts:
                rep.bad("applied", f"{f.qual}: the symmetry drawn is applied", f"{f.module.rel}:{x.ast.lineno}", "the transform gets no drawn symmetry")
        on = refuted(fl, world((lambda t: last(t) in ("apply_symmetry", "symmetry_type"), True), (lambda t: t[0] == "cmp" and t[1] in ("is", "==") and ("const", None) in t[2:], False)), lambda x: norm(P, x))
        rets = [x for x, t in returns(fl) if norm(P, t) != ("const", None)]
        via = posts or [y for g, _, y, nm, _ in bound(P) if g is f and "uniform_below" in nm]
        if f.module.name == "utils.data_utils" or f.parent is not None and any(has(fl.term(y, y.expr), lambda t: t[0] in ("call", "mcall") and t[1] not in ("isinstance", "len") and not (
                t[0] == "call" and t[1].split(".")[-1].startswith("_p"))) for y in fl.g.live if y.kind == "cond" and y.expr is not None):
            continue
        p = fl.find_path([fl.g.entry], rets, avoid=via, avoid_edge=on, skip_labels=NORMAL)
        rep.check(p is None, "applied", f"{f.qual}: with the option on, no record is returned without its symmetry", where, path_str(p))
    rep.floor("symmetry draws", n, 6)


def keys(P, rep):
    for q in ("dataset.npz_source:DenseNpzSource", "dataset.npz_source:IndexedNpzSource"):
        f = P.cls(q).find("_record_key")
        if f is None:
            rep.bad("record", f"{q}: records have keys", q, "no such function")
            continue
        fl = graph(P, rep, f)
        row = [p for p in f.all_params if "row" in p]
        for x, t in returns(fl):
            for a in keyalts(norm(P, t)):
                rep.check(named(a, {"file_sha256"}) and named(a, set(row)), "record", f"{f.qual}: the key names the file's content and the row", f.where(), show(a))
    cls = P.cls("dataset.sequential_source:InterleavedSequentialSource")
    for f, fl, c, name, b in bound(P):
        if f.name == "_next_pending_envelope" and name == "sample_is_admitted":
            env = world((lambda t: t == ("cmp", "is", ("attr", SELF, "subrecord_count"), ("const", None)), False), (lambda t: last(t) == "subrecord_count" and t[1] == SELF, 8))
            for a in possible(P, fl, b["sample_key"], env):
                rep.check(named(a, {"file_key"}) and named(a, {"entry_index"}) and named(a, {"next_subrecord"}), "record", f"{f.qual}: the key names the file, the entry and the part", f.where(), show(a))
            for a in keyalts(b["sample_key"]):
                rep.check(named(a, {"file_key"}) and named(a, {"entry_index"}), "record", f"{f.qual}: the key names the file and the entry", f.where(), show(a))
    f = cls.find("materialize_batch")
    if f is not None:
        fl = graph(P, rep, f)
        m = 0
        for x in calls(fl, lambda q: q and q[-1].split(".")[-1] == "materialize_entry", inlined=True):
            m += 1
            got = [norm(P, fl.arg(x, i)) if fl.arg(x, i) is not None else ("const", None) for i in (1, 2)]
            rep.check(last(got[0]) == "record_key" and last(got[1]) == "augmentation_epoch", "record", f"{f.qual}: each entry is augmented under its own key and epoch", f"{f.module.rel}:{x.ast.lineno}", f"{[show(g) for g in got]}")
        rep.floor("places where a sequential entry is decoded", m, 1)
    n = 0
    for f in P.all_funcs:
        if f.module.name.split(".")[0] != "dataset" or f.cls is None or f.name != "__init__":
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr in ("_file_identity", "_manifest_digest") and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
            continue
        fl = graph(P, rep, f)
        for node, tgt, val in stores_to(fl, lambda t: t[1] == SELF and t[2] in ("_file_identity", "_manifest_digest")):
            n += 1
            v = norm(P, val)
            what = {"_file_identity": {"file_key", "file_sha256"}, "_manifest_digest": set()}[tgt[2]]
            ok = named(v, what) and has(v, lambda t: t[0] == "comp") if what else has(v, lambda t: t[0] == "mcall" and t[2] == "manifest_state")
            if ok and what:
                ok = not any(t[0] == "slice" for t in subterms(v)) and all(not t[4] for t in subterms(v) if t[0] == "comp" and len(t) > 4)
            rep.check(ok, "record", f"{f.qual}: the identity covers every file", f"{f.module.rel}:{node.ast.lineno}", show(v))
    rep.floor("identities of file sets", n, 4)


def orders(P, rep):
    for q in ("dataset.npz_source:DenseNpzSource.start_cycle", "dataset.npz_source:IndexedNpzSource.start_cycle", "dataset.sequential_source:InterleavedSequentialSource._file_order"):
        f = P.func(q)
        fl = graph(P, rep, f)
        shuf = lambda v: world((lambda t: last(t) == "shuffle", v))
        outs = []
        for x, t in returns(fl):
            t = norm(P, t)
            if t[0] == "call" and t[1].endswith("Cursor"):
                d = P.cls("dataset.npz_source:DenseNpzCursor").fields()
                kw = dict(t[3])
                i = [y[0] if isinstance(y, tuple) else y for y in d].index("file_order")
                t = kw.get("file_order", t[2][i] if len(t[2]) > i else ("const", None))
            outs.append((x, t))
        drawn = lambda t: has(t, lambda y: y[0] == "call" and y[1].endswith("deterministic_permutation"))
        for v in (True, False):
            r = refuted(fl, shuf(v), lambda x: norm(P, x))
            n = 0
            for x, t in outs:
                if fl.find_path([fl.g.entry], [x], avoid_edge=r, skip_labels=NORMAL) is None:
                    continue
                for a in possible(P, fl, t, shuf(v), x):
                    n += 1
                    rep.check(drawn(a) == v, "order", f"{f.qual}: the file order is {'drawn' if v else 'the listed order'} with shuffling {'on' if v else 'off'}", f.where(x.ast), show(a))
                    inner = next((y for y in subterms(a) if y[0] == "call" and y[1].endswith("deterministic_permutation")), None)
                    if inner is not None:
                        k = norm(P, inner[2][0])
                        rep.check(k[0] == "call" and k[1] == "len", "order", f"{f.qual}: the drawn order is of all files to read", f.where(x.ast), show(k))
            rep.check(n > 0, "order", f"{f.qual}: a file order is given", f.where(), "none")
