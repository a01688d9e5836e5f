"""D06: one pass over the data hands over each admitted record exactly once."""
import ast
from sa.absval import world
from sa.canon import canonical
from sa.project import Project
from sa.flow import alts, flow, has, rewrite, show, subterms
from sa.lib import ctor_fields, norm
from sa.rules import helpers, known
from sa.trace import Tracer, freeze, lin, minus, one, plus, positive, same, written

SELF = ("self",)
P_ = lambda n: ("param", n)
A = lambda b, *ns: b if not ns else A(("attr", b, ns[0]), *ns[1:])


def run(P, rep):
    rep.rule("walk", "the reading position passes over each row of each file exactly once, in step with the rows handed over")
    rep.rule("share", "sharded ranks divide the rows and files: each belongs to exactly one rank")
    rep.rule("entries", "each entry of each sequential file is read once and each of its records handed over once")
    rep.rule("pool", "the shuffle reservoir hands over each record offered to it once")
    rep.rule("buffer", "the buffer of waiting ids hands over each of them once, in order")
    rep.rule("lanes", "datasets read together are each read at their own position, and every record fetched is handed over once")
    rep.rule("plan", "each record the reservoir gives back is in one batch; padding only repeats rows and is marked, and the pass ends only when no record is left")
    P = Project(P.root, canonical)
    walks(P, rep)
    plans(P, rep)
    lanes(P, rep)
    sequential(P, rep)
    pools(P, rep)
    buffers(P, rep)


# -- helpers ------------------------------------------------------------------------------
def trace(P, rep, f, cls=None, named=(), refute=None, **kw):
    fl = flow(P, f, helpers(*named), cls=cls or f.cls)
    rep.graph(fl)
    tr = Tracer(fl, refute=refute, norm=lambda x: norm(P, x), **kw)
    return fl, tr.segments()


def where(s):
    return f"{s.tr.g.root.module.rel}:{s.nodes[0].line}-{s.nodes[-1].line} ({s.tr.g.root.name})"


def is0(d):
    return d is not None and not d


def is1(d, c=1):
    return d == {1: c}


def hasval(t, v):
    """some subterm of t is the integer v"""
    fv = freeze(lin(v))
    return any(freeze(lin(x)) == fv for x in subterms(t) if x[0] in ("bin", "const", "loop", "attr", "idx", "elem", "pre", "cur", "call", "at"))


def delivered(t):
    return t[1] if t and t[0] == "seq" and len(t) == 3 else None


# -- npz row walks ----------------------------------------------------------------------------
def cursor_classes(P):
    return {c.qual: c for c in P.classes() if {"file_position", "row_position", "file_order"} <= {x if isinstance(x, str) else x[0] for x in c.fields()}}


def walks(P, rep):
    cur = cursor_classes(P)
    n = 0
    for c in P.classes():
        for m in ("next_envelopes", "next_packed_records"):
            f = c.methods.get(m)
            if f is None or not c.module.name.startswith("dataset."):
                continue
            src = ast.dump(f.node)
            if not any(q.split(".")[-1] in src for q in cur) and "row_position" not in src:
                continue
            n += 1
            for sharded in ((False, True) if m == "next_envelopes" else (False,)):
                walk(P, rep, c, f, sharded)
    rep.floor("row walks", n, 4)


def walk(P, rep, c, f, sharded):
    env = world((lambda t: t == A(SELF, "_rank_sharded"), sharded))
    named = [x for x in ("_record_key",) if x in c.methods]
    fl, segs = trace(P, rep, f, c, (), refute=env)
    tag = f"{c.name}.{f.name}" + (" sharded" if sharded else "")
    N = lambda t: norm(P, t)
    cur = P_(f.params[1] if f.params[0] == "self" else f.params[0]) if hasattr(f, "params") else P_("cursor")
    first = [s for s in segs if s.a is fl.g.entry]
    last = [s for s in segs if s.b is fl.g.exit and s.ops(None, "return")]
    if not first or not last:
        rep.bad("walk", f"{tag}: no return", f.qual, "no run returns")
        return
    root = fl.g.rootctx.id
    keys = {}
    for fld in ("file_position", "row_position"):
        ks = [k for k, v in first[0].s1.vars.items() if v == A(cur, fld)]
        ks = [k for k in ks if any(s.s1.vars.get(k) != s.s0.vars.get(k) for s in segs if s.a is not fl.g.entry)] or ks
        if not ks:
            rep.bad("walk", f"{tag}: {fld} not read", f.qual, f"the walk does not start from the cursor's {fld}")
            return
        keys[fld] = ks[0]
    kf, kr = keys["file_position"], keys["row_position"]
    carriers, ret = {}, None
    # what is returned
    for s in last:
        t = s.ops(None, "return")[-1].args[0]
        if t[0] != "seq" or len(t) != 3:
            rep.bad("walk", f"{tag}: result", where(s), f"returns {show(t)[:120]} instead of records and cursor")
            return
        fs = ctor_fields(P, t[2])
        if not fs:
            rep.bad("walk", f"{tag}: cursor", where(s), f"the new cursor is {show(t[2])[:120]}")
            return
        for k, v in fs.items():
            want = s.s1.vars.get(kf) if k == "file_position" else s.s1.vars.get(kr) if k == "row_position" else A(cur, k)
            rep.check(same(N(v), N(want)), "walk", f"{tag}: cursor.{k}", where(s), f"the new cursor's {k} is {show(v)[:100]} instead of {show(want)[:100]}")
    rets = [s.ops(None, "return")[-1].args[0][1] for s in last]
    for s in segs:
        seg(P, rep, tag, fl, s, kf, kr, cur, sharded, f)
    outputs(P, rep, tag, fl, segs, last, f)
    stops(P, rep, tag, fl, segs, kf, kr, cur, f)


def stops(P, rep, tag, fl, segs, kf, kr, cur, f):
    """the walk ends only with enough rows or at the end of the files; an empty result means the pass is over"""
    N = lambda t: norm(P, t)
    files = ("len", A(cur, "file_order"))
    taking = {s.a for s in segs for o in s.log if o.op in ("append", "extend") and s.a is s.b or o.op in ("append", "extend") and s.a is not fl.g.entry}
    mains = {h for h in taking if any(s.a is h and (s.b is not h and not nested(fl, s.b, h)) for s in segs) and not any(nested(fl, h, q) for q in taking if q is not h)}
    counted = set()
    for s in segs:
        if s.a not in mains or s.b is s.a or nested(fl, s.b, s.a):
            continue
        ok = False
        for a, v in s.conds:
            a, v = positive(N(a), v)
            if a[0] == "cmp" and a[1] == ">" and not v:
                if same(a[2], files) and same(a[3], s.s1.vars[kf]):
                    ok = True
                if a[2] == P_("limit") or a[2] == P_(f.params[-1]):
                    x = a[3]
                    if len(lin(x)) == 1:
                        ok = True
                        counted.add(x)
        rep.check(ok, "walk", f"{tag}: stops early", where(s), "the walk can stop with rows left and fewer than asked for, even none, which ends the pass")
    for x in counted:
        if x[0] == "len":
            continue
        ks = [k for k, v in next(s for s in segs if s.a in mains).s0.vars.items() if v == x]
        for k in ks[:1]:
            for s in segs:
                if s.a is fl.g.entry:
                    if s.b in mains:
                        rep.check(same(s.s1.vars.get(k, one(0)), one(0)), "walk", f"{tag}: count starts at 0", where(s), "the number of rows handed over does not start at 0")
                    continue
                if k not in s.s0.vars or not any(s.a is h or nested(fl, s.a, h) for h in mains):
                    continue
                d = minus(N(s.s1.vars[k]), N(s.s0.vars[k]))
                out = [o for o in s.log if o.op in ("append", "extend") and o.obj and o.obj[0] == "new" and (has(o.args[0], lambda t: t[0] == "new" or t[0] == "call" and t[1] == "numpy.arange"))]
                want = {}
                if out:
                    s.tr.S = s.s1
                    want = lin(N(s.tr.len_of(plain(out[0].args[0]))))
                okd = d == want if out else not d
                rep.check(bool(okd), "walk", f"{tag}: count of rows", where(s), f"the number of rows handed over changes by {fmt(d)}")


def nested(fl, a, h):
    b = getattr(h, "body", None)
    return a is not h and b is not None and b[0] <= a.id < b[1]


def seg(P, rep, tag, fl, s, kf, kr, cur, sharded, f):
    N = lambda t: norm(P, t)
    g0 = lambda k, dflt: s.s0.vars.get(k, dflt)
    if s.a is fl.g.entry:
        return
    F0, F1, R0, R1 = s.s0.vars[kf], s.s1.vars[kf], s.s0.vars[kr], s.s1.vars[kr]
    dF, dR = minus(F1, F0), minus(R1, R0)
    d = ("idx", A(SELF, "descriptors"), ("idx", A(cur, "file_order"), F0))
    begin, count = A(d, "global_row_begin"), A(d, "logical_row_count")
    ws = A(SELF, "_world_size")
    align = ("bin", "Mod", ("bin", "Sub", A(cur, "rank"), plus(begin, R0)), ws)
    recs = [o for o in s.log if o.op in ("append", "extend") and has(o.args[0], lambda t: t[0] == "attr" and t[2] == "global_row_begin")]
    w = where(s)
    conds = [positive(N(a), v) for a, v in s.conds]
    past = lambda r: any(a[0] == "cmp" and a[1] == ">" and not v and same(a[2], N(count)) and same(a[3], N(r)) for a, v in conds)

    def inside(r):
        for a, v in conds:
            if a[0] == "cmp" and a[1] == ">" and v and same(a[3], N(r)):
                b = lin(a[2])
                if same(a[2], N(count)):
                    return True
                for k in b:  # below X + min(.., count - X)
                    if isinstance(k, tuple) and k[0] == "min" and b[k] == 1:
                        rest = {q: z for q, z in b.items() if q != k}
                        if any(addl(rest, dict(x)) == lin(N(count)) for x in k[1]):
                            return True
        return False

    if is0(dF) and is0(dR):
        if recs and not all(any(t[0] == "new" for t in subterms(o.args[0])) for o in recs):
            rep.bad("walk", f"{tag}: rows without advancing", w, "hands rows over but leaves the position where it was")
        elif s.a is s.b and not any(o.op in ("append", "extend") for o in s.log) and not inner(s):
            rep.bad("walk", f"{tag}: no progress", w, "an iteration changes nothing")
        else:
            rep.ok("walk", f"{tag}: position kept", w)
        return
    if is1(dF):
        ok = same(N(R1), one(0)) and not recs
        rs = [R0] + ([plus(R0, align)] if sharded else [])
        rep.check(ok, "walk", f"{tag}: next file", w, "going to the next file does not start at its first row, or hands a row over at the same time")
        rep.check(any(past(r) for r in rs), "walk", f"{tag}: file left early", w, "goes to the next file while the current file may have rows left")
        return
    if not is0(dF):
        rep.bad("walk", f"{tag}: file position", w, f"file position changes by {fmt(dF)}")
        return
    # row position moved
    if same(N(R1), one(0)) and s.b is fl.g.exit:
        end = any(a[0] == "cmp" and a[1] == "==" and v and same(a[2], ("len", A(cur, "file_order"))) and same(a[3], F0) or
                  a[0] == "cmp" and a[1] == "==" and v and same(a[3], ("len", A(cur, "file_order"))) and same(a[2], F0) or
                  a[0] == "cmp" and a[1] == ">" and not v and same(a[2], ("len", A(cur, "file_order"))) and same(a[3], F0) for a, v in conds)
        rep.check(end and not recs, "walk", f"{tag}: row reset", w, "the row position is reset while a file is still being read")
        return
    r = plus(R0, align) if sharded else R0
    step = ws if sharded else one()
    if same(N(R1), N(plus(r, step))):
        rep.check(inside(r), "walk", f"{tag}: row in file", w, "a row is taken without checking that the file has it")
        adm = [o for o in s.log if o.node.call is not None and o.state and o.state.endswith("sample_is_admitted")]
        for o in adm:
            key = o.args[3] if len(o.args) > 3 else o.kw.get("sample_key") or o.kw.get("key") or ("const", None)
            rep.check(hasval(N(key), N(r)), "walk", f"{tag}: admitted row", w, f"the admission draw is not for the row at the position: {show(key)[:120]}")
        no = any(has(a, lambda t: t[0] == "call" and t[1].endswith("sample_is_admitted")) and not v for a, v in conds)
        if no:
            rep.check(not recs, "walk", f"{tag}: rejected row", w, "a rejected row is handed over")
            return
        ok = len(recs) == 1 and recs[0].op == "append" and hasval(N(recs[0].args[0]), N(plus(begin, r)))
        rep.check(ok, "walk", f"{tag}: row handed over", w, f"the row at the position is handed over {len(recs)} times" if len(recs) != 1 else
                  f"hands over {show(recs[0].args[0])[:160]} for the row at the position")
        return
    # a block of rows
    blocks = [o for o in recs if has(o.args[0], lambda t: t[0] == "call" and t[1] == "numpy.arange")]
    if len(blocks) == 1 and len(recs) == 1:
        t = next(t for t in subterms(blocks[0].args[0]) if t[0] == "call" and t[1] == "numpy.arange")
        a, b = (t[2][0], t[2][1]) if len(t[2]) >= 2 else (one(0), t[2][0])
        ok = same(N(a), N(plus(begin, R0))) and same(N(b), N(plus(begin, R1)))
        rep.check(ok, "walk", f"{tag}: block handed over", w, f"hands over rows {show(a)[:80]} to {show(b)[:80]} while the position moves by {fmt(dR)}")
        lim = any(k[0] == "min" and any(freeze(dict(x)) == freeze(minus(N(count), N(R0))) for x in k[1]) for k in minus(N(R1), N(R0)) if isinstance(k, tuple))
        rep.check(lim, "walk", f"{tag}: block in file", w, "a block may run past the end of the file")
        return
    rep.bad("walk", f"{tag}: position and rows", w, f"the row position moves by {fmt(dR)} while {len(recs)} rows or blocks are handed over")


def inner(s):
    return any(n.kind in ("for",) for n in s.nodes) or any(getattr(n, "body", None) for n in s.nodes[1:])


def addl(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
        if r[k] == 0:
            del r[k]
    return r


def contained(t, q):
    return has(t, lambda x: x == q)


def fmt(d):
    return " + ".join(f"{v if v != 1 else ''}{'' if k == 1 else show(k) if isinstance(k, tuple) and k[0] not in ('min', 'max', 'bin', 'prod') else k[0]}"[:60] for k, v in d.items()) or "0"


def outputs(P, rep, tag, fl, segs, last, f):
    """every list rows are put in reaches the result, once"""
    N = lambda t: norm(P, t)
    held = {}
    for s in segs:
        for o in s.log:
            if o.op in ("append", "extend") and o.obj and o.obj[0] == "new":
                held.setdefault(o.obj, []).append(s)
    final = set()
    for s in last:
        t = s.ops(None, "return")[-1].args[0][1]
        objs = [o for o in held if contained(t, o)]
        final.update(objs)
        conds = [positive(N(a), v) for a, v in s.conds]
        ok = any(gives(N(t), N(o), conds) for o in objs)
        if not objs:
            ok = any(emptied(N(o), conds) for o in held)
        rep.check(ok, "walk", f"{tag}: result of the rows", where(s), f"returns {show(t)[:140]} for the rows collected")
    rep.check(len(final) == 1, "walk", f"{tag}: one result", f.qual, f"rows are returned from {len(final)} lists")
    for obj, ss in held.items():
        if obj in final:
            continue
        heads = {s.a for s in ss if s.a is s.b}
        for s in segs:
            if s.a in heads and s.b is not s.a:
                m = [o for o in s.log if o.op in ("append", "extend") and o.obj != obj and contained(o.args[0], obj)]
                conds = [positive(N(a), v) for a, v in s.conds]
                ok = len(m) == 1 and m[0].obj in held and merges(N(m[0].args[0]), N(obj), m[0].op) or not m and emptied(N(obj), conds)
                rep.check(ok, "walk", f"{tag}: rows collected are kept", where(s), "rows collected in an inner loop are dropped or added more than once")


def plain(t):
    while t[0] == "call" and t[1] in ("tuple", "list", "numpy.asarray", "numpy.array", "numpy.ascontiguousarray") and t[2]:
        t = t[2][0]
    return t


def merges(t, obj, op):
    return plain(t) == obj


def gives(t, obj, conds):
    t = plain(t)
    if t == obj:
        return True
    if t[0] == "call" and t[2]:
        if t[1] == "numpy.concatenate":
            return plain(t[2][0]) == obj
        if t[1].endswith("Block") or t[1].endswith("Batch"):
            return gives(t[2][0], obj, conds)
    t = t[2] if t[0] == "at" else t
    if t[0] in ("idx", "item") and plain(t[1]) == obj and t[2] in (("const", 0), 0):
        return any(a[0] == "cmp" and a[1] == "==" and v and ("const", 1) in a[2:] and any(has(x, lambda y: y == obj) for x in a[2:]) for a, v in conds)
    return False


def emptied(obj, conds):
    return any(plain(a) == obj and not v or a[0] == "cmp" and a[1] == "==" and v and any(x[0] == "len" and has(x, lambda y: y == obj) for x in a[2:]) and ("const", 0) in a[2:] or
               a[0] == "cmp" and a[1] == ">" and not v and has(a[2], lambda y: y == obj) and a[2][0] == "len" and a[3] == ("const", 0) for a, v in conds)


# -- sequential files -------------------------------------------------------------------------
def bare(t):
    """the term without marks of when it was read"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ("at", "cur") and len(t) == 3:
        return bare(t[2])
    return tuple(bare(x) for x in t)


def sets(s, field, base=None):
    return [o for o in s.log if o.op == "set" and o.args[0] == ("const", field) and (base is None or bare(o.obj) == base)]


def isnone(a, v, pred):
    """the atom says that a term satisfying pred is None (v: truth)"""
    if a[0] == "cmp" and a[1] == "is" and ("const", None) in a[2:]:
        return v and any(pred(x) for x in a[2:])
    return False


def ctor_sets(P, s, field, cname):
    out = []
    for o in sets(s, field):
        v = o.args[1]
        if v[0] == "call" and v[1].split(".")[-1] == cname:
            out.append((o, ctor_fields(P, v) or {}))
    return out


def sequential(P, rep):
    n = 0
    for c in P.classes():
        f = c.methods.get("next_envelope")
        if f is None or not c.module.name.startswith("dataset.") or not (calls_attr(f.node, "read_raw_entry") or any(calls_attr(g.node, "read_raw_entry") for g in c.methods.values() if not known(g))):
            continue
        n += 1
        entries(P, rep, c, f)
        g = c.methods.get("start_cycle")
        if g:
            opened(P, rep, c, g)
        h = c.methods.get("_has_data")
        if h:
            peeks(P, rep, c, h)
        g = c.methods.get("_file_order")
        if g:
            shares(P, rep, c, g)
    rep.floor("sequential sources", n, 1)


def calls_attr(node, name):
    return any(isinstance(x, ast.Attribute) and x.attr == name for x in ast.walk(node))


def entries(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, ("_next_pending_envelope", "_replace_or_remove", "_advance_turn", "_open_reader"))
    tag = f"{c.name}.{f.name}"
    N = lambda t: bare(norm(P, t))
    cur = P_("cursor")
    active, turn, nfp = A(cur, "active"), A(cur, "turn"), A(cur, "next_file_position")
    reader = ("idx", active, turn)
    saw = {"read": 0, "sub": 0, "next": 0, "gone": 0, "end": 0}
    for s in segs:
        w = where(s)
        conds = [positive(N(a), v) for a, v in s.conds]
        reads = [o for o in s.log if o.op in ("read_raw_entry", "read_entry")]
        bump = sets(s, "entry_index")
        pend = ctor_sets(P, s, "pending", "_PendingEntry")
        moved = sets(s, "next_file_position")
        gone = [o for o in s.log if o.op == "pop" and N(o.obj) == active]
        put = [o for o in s.log if o.op in ("setitem", "append") and N(o.obj) == active]
        turns = sets(s, "turn", cur)
        subs = sets(s, "next_subrecord")
        clear = [o for o in sets(s, "pending") if o.args[1] == ("const", None)]
        rets = s.ops(None, "return")
        if reads:
            saw["read"] += 1
            rep.check(len(reads) == 1 and has(N(reads[0].args[0]), lambda t: t == A(reader, "stream")), "entries", f"{tag}: entry read", w, "an entry is read more than once in a round, or not from the stream whose turn it is")
            ok = len(bump) == 1 and N(bump[0].obj) == reader and same(N(bump[0].args[1]), plus(A(reader, "entry_index"), one()))
            rep.check(ok, "entries", f"{tag}: entry counted", w, "reading an entry does not move that file's entry number on by one")
            skip = any(isnone(a, v, lambda x: has(x, lambda t: t[0] == "mcall" and t[2] == "shape_of")) for a, v in conds) or \
                any(a[0] == "cmp" and a[1] == "==" and v and ("const", 0) in a[2:] and any(has(x, lambda t: t[0] == "mcall" and t[2] == "subrecord_count") for x in a[2:]) for a, v in conds)
            idle = any(isnone(a, v, lambda x: x == A(reader, "pending")) or a == A(reader, "pending") and not v for a, v in conds)
            rep.check(idle, "entries", f"{tag}: entry unfinished", w, "the next entry is read although records of the previous one are left")
            if not pend:
                rep.check(skip, "entries", f"{tag}: entry dropped", w, "an entry that has records is passed over")
            else:
                rep.check(len(pend) == 1 and not skip, "entries", f"{tag}: entry kept", w, "an entry is kept twice or kept although it has no records")
                o, fs = pend[0]
                raw = N(fs.get("raw_entry", ("const", 0)))
                cnt = N(fs.get("subrecord_count", ("const", 0)))
                src = N(reads[0].res)
                okr = has(raw, lambda t: t == src) or reads[0].op == "read_entry" and has(raw, lambda t: t == N(reads[0].args[0]))
                rep.check(okr, "entries", f"{tag}: entry bytes", w, f"keeps {show(raw)[:100]} instead of the entry read")
                rep.check(same(N(fs.get("entry_index", ("const", None))), A(reader, "entry_index")), "entries", f"{tag}: entry number", w, "the entry is kept under another number than its own")
                rep.check(same(N(fs.get("next_subrecord", ("const", None))), one(0)), "entries", f"{tag}: first record", w, "an entry's records are not handed over from the first")
                one_ = any(isnone(a, v, lambda x: x == A(SELF, "subrecord_count")) for a, v in conds)
                okc = same(cnt, one()) if one_ else has(cnt, lambda t: t[0] == "mcall" and t[2] == "subrecord_count")
                some = one_ or any(a[0] == "cmp" and (a[1] == "==" and not v and ("const", 0) in a[2:] or a[1] == ">" and v and a[3] == ("const", 0)) and any(has(x, lambda t: t[0] == "mcall" and t[2] == "subrecord_count") for x in a[2:]) for a, v in conds)
                rep.check(some, "entries", f"{tag}: entry without records", w, "records of an entry that has none are handed over")
                rep.check(okc, "entries", f"{tag}: record count", w, f"an entry's records are counted as {show(cnt)[:100]}")
                rep.check(N(o.obj) == reader, "entries", f"{tag}: entry owner", w, "the entry is kept with another file")
        else:
            rep.check(not bump and not pend, "entries", f"{tag}: entry number kept", w, "the entry number or pending entry changes although nothing was read")
        # files opened and closed
        data = [(a, v) for a, v in conds if has(a, lambda t: t[0] == "mcall" and t[2] in ("_has_data",)) or
                has(a, lambda t: t[0] == "mcall" and t[2] in ("peek", "read") and t[3] == (("const", 1),))]
        if moved or gone or put:
            ended = any(not v and a[0] == "mcall" or v and a[0] == "cmp" and a[1] == "==" and ("const", b"") in a[2:] for a, v in data)
            rep.check(ended and not reads, "entries", f"{tag}: file closed", w, "a file is left although it may have entries")
            if gone:
                saw["gone"] += 1
                left = any(a[0] == "cmp" and a[1] == ">" and not v and has(a[2], lambda t: t == A(cur, "file_order")) and same(a[3], nfp) for a, v in conds)
                rep.check(bool(turns) or any(N(a)[0] in ("attr", "len") and has(N(a), lambda t: t == active) and not v for a, v in s.conds), "entries", f"{tag}: turn after a stream ends", w, "the turn may be past the last stream")
                rep.check(left and not moved and not put and [N(x) for x in gone[0].args] == [turn], "entries", f"{tag}: stream ends", w,
                          "a stream ends while there are files left to open, or another stream than the finished one ends")
            else:
                saw["next"] += 1
                ok = len(moved) == 1 and same(N(moved[0].args[1]), plus(nfp, one())) and len(put) == 1 and put[0].op == "setitem" and N(put[0].args[0]) == turn \
                    and has(N(put[0].args[1]), lambda t: t == ("idx", A(cur, "file_order"), nfp))
                if ok:
                    rd = ctor_fields(P, put[0].args[1])
                    if rd is not None:
                        want = ("idx", A(cur, "file_order"), nfp)
                        ok = N(rd["descriptor_index"]) == want and same(N(rd.get("entry_index", one(0))), one(0)) and rd.get("pending", ("const", None)) == ("const", None) and \
                            has(N(rd["stream"]), lambda t: t == A(("idx", A(SELF, "descriptors"), want), "path"))
                rep.check(ok, "entries", f"{tag}: next file opened", w, "the finished file is not replaced by the next one in order")
        for o in turns:
            v = N(o.args[1])
            ok = v[0] == "bin" and v[1] == "Mod" and (same(v[2], plus(turn, one())) and not gone or v[2] == turn and bool(gone))
            if not ok and not gone:
                ok = same(v, turn)
            rep.check(ok, "entries", f"{tag}: turn", w, f"the turn changes to {show(v)[:80]}")
        # subrecords
        if subs or clear:
            saw["sub"] += 1
            b = subs[0].obj if subs else None
            nxt = A(N(b), "next_subrecord") if b else None
            ok = len(subs) == 1 and same(N(subs[0].args[1]), plus(nxt, one()))
            rep.check(ok, "entries", f"{tag}: record counted", w, "handing over one of an entry's records does not move on by exactly one record")
            if ok:
                d = [(v, a) for a, v in conds if a[0] == "cmp" and a[1] in ("==", ">") and any(has(x, lambda t: t[0] == "attr" and t[2] == "subrecord_count" and t[1] == N(b)) for x in a[2:])
                     and any(has(x, lambda t: t == nxt) for x in a[2:])]
                full = any(a[1] == "==" and v and {freeze(lin(x)) for x in a[2:]} == {freeze(lin(plus(nxt, one()))), freeze(lin(A(N(b), "subrecord_count")))} or
                           a[1] == ">" and not v and same(a[2], A(N(b), "subrecord_count")) and same(a[3], plus(nxt, one())) for v, a in d)
                more = any(a[1] == "==" and not v and {freeze(lin(x)) for x in a[2:]} == {freeze(lin(plus(nxt, one()))), freeze(lin(A(N(b), "subrecord_count")))} or
                           a[1] == ">" and v and same(a[2], A(N(b), "subrecord_count")) and same(a[3], plus(nxt, one())) for v, a in d)
                rep.check((bool(clear) and full) or (not clear and more), "entries", f"{tag}: last record", w, "an entry is finished before its last record was handed over, or kept after it")
            if rets:
                env = delivered(rets[-1].args[0]) or ("const", None)
                fs = ctor_fields(P, env)
                pay = ctor_fields(P, fs.get("payload", ("const", None))) if fs else None
                if pay and "raw_entry" in pay and b:
                    rep.check(N(pay["raw_entry"]) == A(N(b), "raw_entry"), "entries", f"{tag}: record bytes", w, "the record handed over is not of the pending entry")
                    single = any(isnone(a, v, lambda x: x == A(SELF, "subrecord_count")) for a, v in conds)
                    sub = N(pay.get("subrecord", ("const", None)))
                    rep.check(sub == ("const", None) if single else same(sub, nxt), "entries", f"{tag}: record number", w, f"hands over record {show(sub)[:60]} instead of the next one")
                    adm = [v for a, v in conds if has(a, lambda t: t[0] == "call" and t[1].endswith("sample_is_admitted"))]
                    rep.check(all(adm) and bool(adm), "entries", f"{tag}: record admitted", w, "a record is handed over that was not admitted")
                    key = fs.get("record_key")
                    rep.check(key is not None and hasval(N(key), A(N(b), "entry_index")) and (single or hasval(N(key), nxt)), "entries", f"{tag}: record key", w,
                              "the record's key is not made of its entry and record number")
                    if adm:
                        k2 = next(t for a, v in conds for t in subterms(a) if t[0] == "call" and t[1].endswith("sample_is_admitted"))
                        rep.check(len(k2[2]) > 3 and N(k2[2][3]) == N(key), "entries", f"{tag}: admission key", w, "another record's admission is drawn")
                else:
                    rep.bad("entries", f"{tag}: record", w, f"returns {show(env)[:120]} for the pending record")
            elif not rets:
                adm = [v for a, v in conds if has(a, lambda t: t[0] == "call" and t[1].endswith("sample_is_admitted"))]
                rep.check(bool(adm) and not any(adm), "entries", f"{tag}: record dropped", w, "a record is passed over although it was admitted")
        if rets and delivered(rets[-1].args[0]) == ("const", None) or s.b is fl.g.exit and not rets:
                saw["end"] += 1
                rep.check(any(N(a) == active and not v or a[0] == "cmp" and ("len", active) in [N(x)[:2] if N(x)[0] != "len" else ("len", active) for x in a[2:] if has(N(x), lambda t: t == active) and N(x)[0] == "len"] and
                              (a[1] == "==" and v or a[1] == ">" and not v) for a, v in conds), "entries", f"{tag}: end of the data", w,
                          "reports the end of the data while streams are open")
        elif rets and not (subs or clear):
            rep.bad("entries", f"{tag}: repeated record", w, "returns a record without moving on")
    for k in saw:
        if not saw[k]:
            rep.bad("entries", f"{tag}: no {k} step", f.qual, {"read": "no entry is read", "sub": "records of an entry are not counted", "next": "files beyond the first streams are never opened",
                                                              "gone": "finished streams are never removed", "end": "the end of the data is never reported"}[k])


def opened(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, ())
    N = lambda t: norm(P, t)
    tag = f"{c.name}.{f.name}"
    n = 0
    for s in segs:
        for r in s.ops(None, "return"):
            fs = ctor_fields(P, r.args[0])
            if not fs or "next_file_position" not in fs:
                continue
            n += 1
            w = where(s)
            act = fs["active"]
            act = act[2] if act[0] == "new" else act
            k = N(fs["next_file_position"])
            ok = False
            if act[0] == "comp" and len(act[3]) == 1 and not act[4]:
                it = N(act[3][0])
                order = N(fs["file_order"])
                cnt = it[2][0] if it[0] == "call" and it[1] == "range" and len(it[2]) == 1 else None
                if cnt is None and it[0] == "slice" and it[1] == order:
                    cnt = it[3] if it[2] in (("const", None), ("const", 0)) else None
                    ok = cnt is not None and same(cnt, k) and has(N(act[2]), lambda t: t[0] == "elem")
                elif cnt is not None:
                    ok = same(cnt, k) and has(N(act[2]), lambda t: t[0] == "idx" and t[1] == order and t[2][0] in ("elem", "index"))
            rep.check(ok, "entries", f"{tag}: first files", w, "the files opened at the start are not the first ones in order, or the position does not follow them")
            fo = N(fs["file_order"])
            rep.check(fo[0] == "mcall" and fo[2] == "_file_order" and fo[3] == (P_("epoch"), P_("cycle"), P_("rank")) or "_file_order" not in c.methods, "entries", f"{tag}: file order", w, f"reads the files in order {show(fo)[:80]}")
            rep.check(same(N(fs.get("turn", one(0))), one(0)) and same(N(fs.get("quantum_used", one(0))), one(0)), "entries", f"{tag}: start turn", w, "the pass does not start at the first stream")
    rep.check(n > 0, "entries", f"{tag}: start", f.qual, "no start of a pass found")


def peeks(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, ())
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    for s in segs:
        w = where(s)
        rd = s.ops(None, "read")
        if s.b is fl.g.exit and not s.ops(None, "return"):
            rep.bad("entries", f"{tag}: data left", w, "does not say whether data is left")
        for r in s.ops(None, "return"):
            v = N(r.args[0])
            ok = v[0] == "cmp" and v[1] == "!=" and ("const", b"") in v[2:] or v[0] == "call" and v[1] == "bool" or v[0] == "cmp" and v[1] == ">" and v[2][0] == "len"
            rep.check(ok and has(v, lambda t: t[0] == "mcall" and t[2] in ("read", "peek")), "entries", f"{tag}: data left", w, f"reports data by {show(v)[:100]}")
        if rd:
            i = s.log.index(rd[0])
            back = [o for o in s.log[i + 1:] if o.op == "seek" and o.obj == rd[0].obj]
            tell = [o for o in s.log[:i] if o.op == "tell" and o.obj == rd[0].obj]
            ok = back and tell and back[-1].args and back[-1].args[0] == tell[-1].res or back and len(back[-1].args) == 2 and same(back[-1].args[0], ("const", -1))
            rep.check(bool(ok), "entries", f"{tag}: looked-at byte returned", w, "looking for data consumes a byte of the entry that follows")


def shares(P, rep, c, f):
    """file assignment to ranks: one loop over all files, each appended to one rank's list; the rank only chooses its list"""
    fl, segs = trace(P, rep, f, c, (), refute=world((lambda t: t == A(SELF, "_rank_sharded"), True)))
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    n = 0
    everyfile = ("call", "range", (("len", A(SELF, "descriptors")),), ())
    lists = {N(o.obj)[1] for s in segs for o in s.log if s.a is s.b and o.op == "append" and o.obj[0] in ("idx", "at", "item")}
    for s in segs:
        adds = [o for o in s.log if o.op == "append" and o.obj[0] in ("idx", "at", "item")]
        loops = [x for x in s.conds if x[0][0] == "more"]
        if s.a is s.b and s.a.kind == "for":
            it = N(next(a for a, v in s.conds if a[0] == "more")[2])
            src = it
            while src[0] == "call" and src[1] in ("sorted", "tuple", "list", "enumerate", "reversed") and src[2]:
                src = src[2][0]
            if not adds:
                rep.bad("share", f"{tag}: file left out", where(s), "a file is given to no rank")
                continue
            n += 1
            ob = N(adds[0].obj)
            el = N(adds[0].args[0])
            rep.check(len(adds) == 1 and src[0] == "call" and src[1] == "range" and same(src[2][0], ("len", A(SELF, "descriptors"))), "share", f"{tag}: each file once", where(s),
                      f"files are shared out {len(adds)} at a time from {show(src)[:80]}")
            rep.check(el[0] == "elem" or el[0] == "item" and el[2] == 1 or el[0] == "elem", "share", f"{tag}: file given", where(s), f"gives away {show(el)[:80]}")
            ix = ob[2]
            rep.check(not has(ix, lambda t: t == P_("rank") or t == A(SELF, "_rank")), "share", f"{tag}: same division everywhere", where(s), "ranks divide the files differently")
        for r in s.ops(None, "return"):
            t = N(r.args[0])
            ok = any(has(t, lambda x: x[0] in ("idx", "item") and x[1] == q and x[2] == P_("rank")) for q in lists) or not lists
            rep.check(ok, "share", f"{tag}: own share", where(s), f"a rank reads {show(t)[:120]} instead of its own share")
            for cp in [x for x in subterms(t) if x[0] == "comp" and has(x[3][0], lambda y: y[0] == "call" and y[1].endswith("deterministic_permutation"))]:
                pm = next(y for y in subterms(cp[3][0]) if y[0] == "call" and y[1].endswith("deterministic_permutation"))
                own = lambda y: y[0] in ("idx", "item") and y[1] in lists and y[2] == P_("rank")
                ok = not cp[4] and norm(P, cp[3][0]) == norm(P, pm) and cp[2][0] == "idx" and cp[2][2][0] == "elem" and pm[2][0][0] == "len" and has(pm[2][0], own) and has(cp[2][1], own)
                rep.check(ok, "share", f"{tag}: whole share", where(s), f"the share is not read in full: {show(cp)[:200]}")
        if s.b is fl.g.exit and not s.ops(None, "return"):
            rep.bad("share", f"{tag}: own share", where(s), "returns nothing")
    fl, segs = trace(P, rep, f, c, (), refute=world((lambda t: t == A(SELF, "_rank_sharded"), False)))
    for s in segs:
        if s.b is not fl.g.exit:
            continue
        t = N(s.ops(None, "return")[-1].args[0]) if s.ops(None, "return") else ("const", None)
        t = plain(t[2] if t[0] == "new" else t)
        cnt = ("len", A(SELF, "descriptors"))
        if t[0] == "comp" and len(t[3]) == 1 and not t[4]:
            t = plain(N(t[3][0])) if t[2][0] in ("elem", "idx") else t
        ok = t[0] == "call" and (t[1] == "range" and same(t[2][-1], cnt) and len(t[2]) == 1 or t[1].endswith("deterministic_permutation") and
                                 (same(N(t[2][0]), cnt) or s.tr.len_of(t[2][0]) == cnt or same(t[2][0], ("len", ("call", "range", (cnt,), ())))))
        rep.check(ok, "share", f"{tag}: all files", where(s), f"reads {show(t)[:120]} instead of all files")
    rep.check(n > 0, "share", f"{tag}: division", f.qual, "no division of the files between ranks found")


# -- shuffle reservoir ---------------------------------------------------------------------------
def pools(P, rep):
    n = 0
    for c in P.classes():
        if not c.module.name.startswith("dataset.") or "drain" not in c.methods:
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr == "_slots" for m in c.methods.values() for x in ast.walk(m.node)):
            continue
        n += 1
        for name, f in c.methods.items():
            if name.startswith("offer"):
                offers(P, rep, c, f)
        ev = c.methods.get("_evict_slot")
        if ev:
            evicts(P, rep, c, ev)
        drains(P, rep, c, c.methods["drain"])
    rep.floor("object reservoirs", n, 1)


SLOTS, SIZES = A(SELF, "_slots"), A(SELF, "_slot_sizes")


def evicted(o):
    return o.op == "_evict_slot"


def offers(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, ())
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    outs = set()
    for s in segs:
        for r in s.ops(None, "return"):
            t = plain(N(r.args[0]))
            if t[0] == "new":
                outs.add(t)
    took = counted = 0
    heads = [s.b for s in segs if s.b.kind == "for" and (s.ops(SLOTS, "append") or s.ops(SIZES, "append"))]
    many = bool(heads)
    for s in segs:
        w = where(s)
        conds = [positive(N(a), v) for a, v in s.conds]
        for o in s.log:
            if evicted(o):
                kept = [q for q in s.log if q.op in ("append",) and q.obj in outs and q.args[0] == o.res]
                rep.check(len(kept) == 1, "pool", f"{tag}: evicted record", w, "a record taken out of the reservoir is not handed over exactly once")
                arg = N(o.args[0]) if o.args else ("const", None)
                rep.check(arg[0] == "mcall" and arg[2] == "_random_slot", "pool", f"{tag}: evicted slot", w, f"evicts slot {show(arg)[:60]}")
        for q in s.log:
            if q.obj in outs and q.op in ("append", "extend"):
                rep.check(any(evicted(o) and o.res == q.args[0] for o in s.log), "pool", f"{tag}: handed over", w, f"hands over {show(q.args[0])[:80]} which did not leave the reservoir")
            if q.obj in outs and q.op in ("pop", "clear", "remove", "popleft"):
                rep.bad("pool", f"{tag}: handed over", w, "removes records that were to be handed over")
        ins, szs = s.ops(SLOTS, "append"), s.ops(SIZES, "append")
        ends = s.b is fl.g.exit and s.ops(None, "return")
        # the part of a run that must take the item: after the eviction loop, back to the item loop or to the return
        if ins or szs:
            took += 1
            item = N(ins[0].args[0]) if ins else None
            ok = len(ins) == 1 and len(szs) == 1
            if ok and many:
                ok = item[0] in ("elem", "item", "loop", "idx")
            elif ok:
                ok = item == P_("item")
            rep.check(ok, "pool", f"{tag}: record kept", w, f"{len(ins)} records and {len(szs)} sizes are put in the reservoir for one offered")
            if szs:
                z = N(szs[0].args[0])
                dr = minus(N(s.attr(SELF, "_resident_bytes")), N(s.attr(SELF, "_resident_bytes", False)))
                rep.check(same(z, one(0)) or dr == lin(z), "pool", f"{tag}: bytes kept", w, f"{show(z)[:40]} bytes are kept with the record, but the total changes by {fmt(dr)}")
        elif many and s.b in heads and (s.a is s.b or inloop(s.a, s.b)):
            rep.bad("pool", f"{tag}: record lost", w, "an offered record is not put in the reservoir")
        elif not many and ends and s.b is fl.g.exit:
            rep.bad("pool", f"{tag}: record lost", w, "an offered record is not put in the reservoir")
        d = minus(N(s.attr(SELF, "_offered")), N(s.attr(SELF, "_offered", False)))
        if ins or d:
            tot = [k for k in d if isinstance(k, tuple) and k[0] == "len"] if d else []
            if is1(d) and ins:
                counted += 1
            elif ins and not d and many:
                pass
            elif tot and d == {tot[0]: 1} and many and not ins:
                counted += 1
            else:
                rep.bad("pool", f"{tag}: offered count", w, f"counts {fmt(d)} records as offered")
        if ends and many:
            t = plain(N(s.ops(None, "return")[-1].args[0]))
            ok = t in outs or t == ("seq",) and any(not v for a, v in conds)
            rep.check(ok, "pool", f"{tag}: result", w, f"returns {show(t)[:80]}")
        elif ends:
            t = plain(N(s.ops(None, "return")[-1].args[0]))
            rep.check(t in outs, "pool", f"{tag}: result", w, f"returns {show(t)[:80]}")
    rep.check(took > 0, "pool", f"{tag}: takes records", f.qual, "no record is put in the reservoir")
    rep.check(counted > 0, "pool", f"{tag}: counts records", f.qual, "offered records are not counted")
    if many:
        its = {N(a[2]) for s in segs for a, v in s.conds if a[0] == "more" and v and (s.ops(SLOTS, "append") or s.ops(SIZES, "append") or s.b is not s.a)}
        for i in sorted(its, key=repr):
            rep.check(fullseq(i, P_(f.params[1]) if f.params[0] == "self" else P_(f.params[0])) or i[0] == "call" and i[1] == "zip", "pool", f"{tag}: every record offered", f.qual,
                      f"takes {show(i)[:80]} instead of all records offered")


def fullseq(t, src):
    t = t[2] if t[0] == "new" else t
    while t[0] == "call" and t[1] in ("tuple", "list", "iter", "enumerate") and t[2]:
        t = t[2][0]
    if t[0] == "phi":
        return all(fullseq(x, src) for x in t[1:])
    return t == src


def inloop(a, h):
    b = getattr(h, "body", None)
    return a is not h and b is not None and b[0] <= a.id < b[1]


def evicts(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, ())
    N = lambda t: bare(norm(P, t))
    raw = lambda t: norm(P, t)
    tag = f"{c.name}.{f.name}"
    ix = P_(f.params[1] if f.params[0] == "self" else f.params[0])
    for s in segs:
        if s.b is not fl.g.exit:
            continue
        w = where(s)
        conds = [positive(N(a), v) for a, v in s.conds]
        ret = s.ops(None, "return")
        t = raw(ret[-1].args[0]) if ret else ("const", None)
        pops = {o.obj: o for o in s.log if o.op == "pop"}
        ok = set(pops) == {SLOTS, SIZES} and sum(o.op == "pop" for o in s.log) == 2
        rep.check(ok, "pool", f"{tag}: one out", w, "taking a record out does not shorten records and sizes by one each")
        if not ok:
            continue
        swap = {o.obj: o for o in s.log if o.op == "setitem"}
        direct = N(pops[SLOTS].args[0]) == ix if pops[SLOTS].args else False
        if direct:
            rep.check(t == raw(pops[SLOTS].res) and (pops[SIZES].args and N(pops[SIZES].args[0]) == ix) and not swap, "pool", f"{tag}: slot", w, "the record taken out is not the one returned")
        else:
            rep.check(t == ("idx", SLOTS, ix), "pool", f"{tag}: slot", w, f"returns {show(t)[:80]} instead of the record in the slot")
            lastslot = any(a[0] == "cmp" and a[1] == ">" and not v and a[3] == ix and a[2][0] in ("len", "bin") or a[0] == "cmp" and a[1] == "==" and v and ix in a[2:] for a, v in conds)
            if lastslot:
                rep.check(not swap, "pool", f"{tag}: last slot", w, "a removed slot is written again")
            else:
                good = set(swap) == {SLOTS, SIZES} and all(N(o.args[0]) == ix and raw(o.args[1]) == raw(pops[k].res) for k, o in swap.items())
                rep.check(good, "pool", f"{tag}: moved record", w, "the record removed from the end is not moved into the freed slot")
        d = minus(raw(s.attr(SELF, "_resident_bytes")), raw(s.attr(SELF, "_resident_bytes", False)))
        want = [{("idx", SIZES, ix): -1}] + ([{raw(pops[SIZES].res): -1}] if direct else [])
        rep.check(d in want, "pool", f"{tag}: bytes", w, f"the total of bytes changes by {fmt(d)}")
        rep.check(is1(minus(N(s.attr(SELF, "_emitted")), N(s.attr(SELF, "_emitted", False)))), "pool", f"{tag}: emitted count", w, "the record is not counted as emitted")


def drains(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, ())
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    n = 0
    for s in segs:
        if s.b is not fl.g.exit:
            continue
        w = where(s)
        conds = [positive(N(a), v) for a, v in s.conds]
        if any(v and a[0] == "attr" and a[2] in ("_closed", "closed") for a, v in conds):
            t = plain(N(s.ops(None, "return")[-1].args[0])) if s.ops(None, "return") else ("const", None)
            rep.check(t == ("seq",), "pool", f"{tag}: drained twice", w, "draining again hands records over again")
            continue
        n += 1
        t = plain(N(s.ops(None, "return")[-1].args[0])) if s.ops(None, "return") else ("const", None)
        t = t[2] if t[0] == "new" else t
        cnt = lambda x: x == ("len", SLOTS)
        ok = t[0] == "comp" and not t[4] and len(t[3]) == 1 and t[2] == ("idx", SLOTS, ("elem", t[3][0])) and permof(N(t[3][0]), cnt)
        rep.check(ok, "pool", f"{tag}: rest handed over", w, f"hands over {show(t)[:140]} instead of each remaining record once")
        for o, nm in ((SLOTS, "records"), (SIZES, "sizes")):
            gone = s.ops(o, "clear") or [x for x in s.log if x.op == "set" and x.args[0] == ("const", o[2]) and plain(x.args[1][2] if x.args[1][0] == "new" else x.args[1]) == ("seq",)]
            rep.check(bool(gone), "pool", f"{tag}: {nm} cleared", w, f"the {nm} stay in the reservoir after being handed over")
        rep.check(s.attr(SELF, "_closed") == ("const", True), "pool", f"{tag}: closed", w, "a drained reservoir is not closed")
        d = minus(N(s.attr(SELF, "_emitted")), N(s.attr(SELF, "_emitted", False)))
        rep.check(len(d) == 1 and list(d.values()) == [1] and all(isinstance(k, tuple) and k[0] == "len" for k in d), "pool", f"{tag}: emitted count", w, f"the records are counted as {fmt(d)} emitted")
        rep.check(same(N(s.attr(SELF, "_resident_bytes")), one(0)), "pool", f"{tag}: bytes", w, "the total of bytes is not reset")
    rep.check(n > 0, "pool", f"{tag}: drains", f.qual, "never hands over the remaining records")


def permof(t, cnt):
    t = plain(t)
    if t[0] == "call" and t[1].endswith("deterministic_permutation"):
        return cnt(t[2][0])
    if t[0] == "call" and t[1] == "range":
        return len(t[2]) == 1 and cnt(t[2][0])
    return False


# -- packed ready buffer ---------------------------------------------------------------------------
def buffers(P, rep):
    n = 0
    for c in P.classes():
        if not c.module.name.startswith("dataset.") or not {"pop", "extend"} <= set(c.methods):
            continue
        flds = {x.attr for m in c.methods.values() for x in ast.walk(m.node) if isinstance(x, ast.Attribute)}
        if not {"_chunks", "_head", "_size"} <= flds:
            continue
        n += 1
        bufpop(P, rep, c, c.methods["pop"])
        bufext(P, rep, c, c.methods["extend"])
    rep.floor("packed buffers", n, 1)


CH, HEAD, SIZE = A(SELF, "_chunks"), A(SELF, "_head"), A(SELF, "_size")


def bufext(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, ())
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    v0 = P_(f.params[1] if f.params[0] == "self" else f.params[0])
    for s in segs:
        if s.b is not fl.g.exit:
            continue
        w = where(s)
        add = s.ops(CH, "append")
        conds = [positive(N(a), v) for a, v in s.conds]
        if add:
            val = add[0].args[0]
            d = minus(s.attr(SELF, "_size"), s.attr(SELF, "_size", False))
            ok = len(add) == 1 and has(val, lambda t: t == v0) and (d == {("len", val): 1} or d == lin(s.tr.len_of(val)))
            rep.check(ok, "buffer", f"{tag}: ids kept", w, f"{len(add)} blocks are added and the size changes by {fmt(d)}")
        else:
            emp = any(not v and (a[0] == "len" or a[0] == "cmp" and has(a, lambda t: t[0] == "len")) or v and a[0] == "cmp" and a[1] == "==" and ("const", 0) in a[2:] for a, v in conds)
            d = minus(s.attr(SELF, "_size"), s.attr(SELF, "_size", False))
            rep.check(emp and not d, "buffer", f"{tag}: ids lost", w, "ids may be dropped or counted without being kept")
        rep.check(not s.ops(CH, "appendleft", "pop", "popleft", "clear"), "buffer", f"{tag}: others kept", w, "adding disturbs ids already waiting")


def bufpop(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, ())
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    cnt = P_(f.params[1] if f.params[0] == "self" else f.params[0])
    first = ("item", CH, 0)
    outs = {o.obj for s in segs for o in s.log if o.op == "append" and o.obj and o.obj[0] == "new"}
    loops = [s for s in segs if s.a is s.b]
    remk = None
    for s in segs:
        w = where(s)
        conds = [positive(N(a), v) for a, v in s.conds]
        zero_ = any(a[0] == "cmp" and a[1] == "==" and v and cnt in a[2:] and ("const", 0) in a[2:] or a == cnt and not v for a, v in conds)
        h0, h1 = s.attr(SELF, "_head", False), s.attr(SELF, "_head")
        pl = s.ops(CH, "popleft") + [o for o in s.ops(CH, "pop")]
        outp = [o for o in s.log if o.op == "append" and o.obj in outs]
        ret = s.ops(None, "return")
        dsz = minus(s.attr(SELF, "_size"), s.attr(SELF, "_size", False))
        slices = [N(o.args[0]) for o in outp]
        if ret and not (s.a is not fl.g.entry):
            v = plain(N(ret[-1].args[0]))
            if v[0] == "slice":
                slices.append(v)
        if zero_:
            rep.check(not slices and not pl and not dsz and h0 == h1, "buffer", f"{tag}: none taken", w, "taking nothing changes the buffer")
            continue
        if slices:
            ok = len(slices) == 1
            sl = slices[0]
            base = sl[1] if sl[0] == "slice" else None
            ok = ok and base == first
            lo, hi = (sl[2], sl[3]) if ok else (None, None)
            H0 = N(h0)
            ok = ok and same(lo, H0)
            n = minus(hi, H0) if ok else {}
            rep.check(ok, "buffer", f"{tag}: front taken", w, f"takes {show(sl)[:120]} instead of the ids at the front")
            if not ok:
                continue
            # how far the head moved before a finished block was dropped
            hs = sets(s, "_head", SELF)
            moved = minus(N(hs[0].args[1]), H0) if hs else {}
            rep.check(moved == n, "buffer", f"{tag}: head follows", w, f"takes {fmt(n)} ids but moves on by {fmt(moved)}")
            full = [(a, v) for a, v in conds if a[0] == "cmp" and a[1] in ("==", ">") and any(x == ("len", first) for x in a[2:]) and any(freeze(lin(x)) == freeze(lin(plus(H0, *[fromlin(n)]))) for x in a[2:])]
            isfull = any(a[1] == "==" and v or a[1] == ">" and a[2] == ("len", first) and not v for a, v in full)
            notfull = any(a[1] == "==" and not v or a[1] == ">" and a[2] == ("len", first) and v for a, v in full)
            if isfull:
                rep.check(len(pl) == 1 and pl[0].op == "popleft" and same(N(h1), one(0)), "buffer", f"{tag}: block finished", w, "a finished block stays in the buffer, or the next one is not read from its start")
            else:
                rep.check(not pl and notfull and same(N(h1), N(hs[0].args[1]) if hs else H0), "buffer", f"{tag}: block kept", w, "a block is dropped before its ids were taken")
            if ret and s.a is fl.g.entry:
                rep.check(n == lin(cnt), "buffer", f"{tag}: count taken", w, f"takes {fmt(n)} ids instead of the number asked for")
                rep.check(dsz == {cnt: -1}, "buffer", f"{tag}: size", w, f"the size changes by {fmt(dsz)}")
            else:
                # the countdown
                ks = [k for k in s.s0.vars if s.s0.vars[k] != s.s1.vars.get(k) and minus(N(s.s1.vars[k]), N(s.s0.vars[k])) == {q: -z for q, z in n.items()} and s.a is not fl.g.entry] if s.a is s.b else []
                rep.check(bool(ks), "buffer", f"{tag}: countdown", w, "the number still to take does not fall by what was taken")
                if ks:
                    remk = ks[0]
                    okb = any(isinstance(k, tuple) and k[0] == "min" and any(dict(x) == {N(s.s0.vars[remk]): 1} for x in k[1]) and any(dict(x) == minus(("len", first), H0) for x in k[1]) for k in n) and len(n) == 1
                    rep.check(okb, "buffer", f"{tag}: piece", w, f"takes a piece of {fmt(n)}")
        elif ret:
            v = plain(N(ret[-1].args[0]))
            ok = v[0] == "call" and v[1] == "numpy.concatenate" and plain(v[2][0]) in outs
            rep.check(ok, "buffer", f"{tag}: pieces joined", w, f"returns {show(v)[:100]}")
            rep.check(dsz == {cnt: -1}, "buffer", f"{tag}: size", w, f"the size changes by {fmt(dsz)}")
    if remk is not None:
        for s in segs:
            if s.a is fl.g.entry and s.b is not fl.g.exit:
                rep.check(s.s1.vars.get(remk) == cnt, "buffer", f"{tag}: all asked for", where(s), "the pieces do not add up to the number asked for")
            if s.a is not fl.g.entry and s.b is fl.g.exit and s.ops(None, "return"):
                r = s.s0.vars.get(remk)
                ok = any(a == r and not v or a[0] == "cmp" and (a[1] == ">" and not v and a[2] == r and same(a[3], one(0)) or a[1] == "==" and v and r in a[2:] and ("const", 0) in a[2:])
                         for a, v in [positive(N(a), v) for a, v in s.conds])
                rep.check(ok, "buffer", f"{tag}: all taken", where(s), "stops before all ids asked for were taken")


def fromlin(d):
    t = ("const", d.get(1, 0))
    for k, v in d.items():
        if k != 1:
            t = ("bin", "Add", t, ("bin", "Mult", ("const", v), ("min_", k) if k[0] in ("min_",) else k))
    return t


# -- several datasets read together ------------------------------------------------------------
def lanes(P, rep):
    n = 0
    for c in P.classes():
        if not c.module.name.startswith("dataset.") or not {"next_envelope", "next_envelopes"} & set(c.methods):
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr == "pending_position" for m in c.methods.values() for x in ast.walk(m.node)):
            continue
        n += 1
        fills, nexts = set(), set()
        for m in ("next_envelope", "next_envelopes"):
            f = c.find(m)
            if f:
                fills |= queue(P, rep, c, f)
        fills = sorted(x for x in fills if c.find(x))
        if not fills:
            rep.bad("lanes", f"{c.name}: rounds", c.qual, "no method fetches the next round of records")
        for x in fills:
            nexts |= rounds(P, rep, c, c.find(x))
        for x in sorted(nexts):
            child(P, rep, c, c.find(x))
        if "start_cycle" in c.methods:
            lanestart(P, rep, c, c.methods["start_cycle"])
    rep.floor("composite sources", n, 1)


def param(f, name, i=None):
    return P_(name) if name in f.params else P_(f.params[i])


def queue(P, rep, c, f):
    """records waiting at the cursor are handed over from the first to the last, and refetched only when none is left"""
    fl, segs = trace(P, rep, f, c, (), effects=True)
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    cur = P_([p for p in f.params if p != "self"][0])
    pend, pos, term = A(cur, "pending"), A(cur, "pending_position"), A(cur, "terminal")
    fills, gave = set(), 0
    outs = {o.obj for s in segs for o in s.log if o.op in ("append", "extend") and o.obj and o.obj[0] == "new"}
    for s in segs:
        w = where(s)
        conds = [positive(N(a), v) for a, v in s.conds]
        calls = [o for o in s.log if o.obj == SELF and "pending" in written(c, o.op)]
        fills |= {o.op for o in calls}
        empty = any(a[0] == "cmp" and (a[1] == ">" and not v and a[2] == ("len", pend) and a[3] == pos or a[1] == "==" and v and {a[2], a[3]} == {("len", pend), pos}) or a == pend and not v for a, v in conds)
        filled = {N(o.res): next((v for a, v in conds if a == N(o.res)), None) for o in calls}
        rep.check(len(calls) <= 1 and (empty or not calls), "lanes", f"{tag}: next round", w, "the next round is fetched although records of this one are waiting")
        last = s.log.index(calls[-1]) if calls else -1
        ext = [o for o in s.log if o.op in ("append", "extend") and o.obj in outs]
        ret = s.ops(None, "return")
        taken, k = [N(o.args[0]) for o in ext], None
        rec = delivered(ret[-1].args[0]) if ret else None
        if ret:
            t = ret[-1].args[0]
            rep.check(t[0] == "seq" and len(t) == 3 and t[2] == cur, "lanes", f"{tag}: result", w, f"returns {show(t)[:100]}")
            rec = N(rec) if rec else ("const", 0)
            if rec[0] in ("idx", "item") and not outs:
                taken.append(rec)
            elif outs:
                rep.check(plain(rec) in outs, "lanes", f"{tag}: records kept", w, f"returns {show(rec)[:100]} instead of the records taken")
            elif rec == ("const", None):
                ok = any(v is False for v in filled.values()) or any(a == term and v for a, v in conds) and not calls
                rep.check(ok, "lanes", f"{tag}: end of the data", w, "reports the end of the data although there may be more")
            else:
                rep.bad("lanes", f"{tag}: result", w, f"returns {show(rec)[:100]}")
        moves = [o for o in s.log if o.op == "set" and o.args[0] == ("const", "pending_position") and s.log.index(o) > last]
        drops = [o for o in s.log if o.op == "set" and o.args[0] == ("const", "pending") and s.log.index(o) > last]
        zero_ = [o for o in s.log if o.op == "set" and s.log.index(o) < last and o.args[0][1] in ("pending", "pending_position")]
        rep.check(all(any(v is False for v in filled.values()) or v is not None for v in filled.values()), "lanes", f"{tag}: round fetched", w, "does not look whether there was another round")
        if not taken:
            rep.check(not moves and not drops, "lanes", f"{tag}: records waiting", w, "records waiting are passed over")
        else:
            gave += 1
            t = taken[0]
            if t[0] == "slice":
                ok = len(taken) == 1 and t[1] == pend and same(t[2], pos) and t[4] in (None, ("const", None))
                k = minus(t[3], pos) if ok and t[3] not in (None, ("const", None)) else minus(("len", pend), pos) if ok else None
                fits = ok and (any(isinstance(q, tuple) and q[0] == "min" and any(dict(x) == minus(("len", pend), pos) for x in q[1]) for q in k) or k == minus(("len", pend), pos))
                ok = ok and fits
            else:
                ok = len(taken) == 1 and t[0] in ("idx", "item") and t[1] == pend and same(t[2] if t[0] == "idx" else one(t[2]), pos)
                k = {1: 1}
            rep.check(bool(ok), "lanes", f"{tag}: records handed over", w, f"hands over {show(t)[:120]} instead of the next records waiting")
            if ok:
                first = moves[:1]
                d = minus(N(first[0].args[1]), pos) if first else {}
                rep.check(d == k, "lanes", f"{tag}: position", w, f"hands over {fmt(k)} records but moves on by {fmt(d)}")
                full = next((v for a, v in conds if a[0] == "cmp" and a[1] == "==" and {freeze(lin(a[2])), freeze(lin(a[3]))} == {freeze(lin(("len", pend))), freeze(lin(plus(pos, *[fromlin(k)])))}), None)
                if full is None:
                    full = next((not v for a, v in conds if a[0] == "cmp" and a[1] == ">" and a[2] == ("len", pend) and same(a[3], plus(pos, fromlin(k)))), None)
                if drops or len(moves) > 1:
                    rep.check(full is True, "lanes", f"{tag}: round finished", w, "drops records that were not handed over")
                    okz = same(N(s.attr(cur, "pending_position")), one(0)) and (not drops or N(drops[-1].args[1]) in (("seq",), ("new", drops[-1].args[1][1], ("seq",))))
                    rep.check(okz, "lanes", f"{tag}: round emptied", w, "a finished round is not emptied")
        for o in zero_:
            rep.check(empty, "lanes", f"{tag}: records waiting", w, "records waiting are dropped")
        if outs and s.b is fl.g.exit and s.a is not fl.g.entry:
            lim = P_([p for p in f.params if p != "self"][1])
            ok = any(a[0] == "cmp" and a[1] == ">" and not v and a[2] == lim and a[3][0] == "len" or a == term and v for a, v in conds) or any(v is False for v in filled.values())
            rep.check(ok, "lanes", f"{tag}: stops early", w, "stops with fewer records than asked for although there may be more")
    rep.check(gave > 0, "lanes", f"{tag}: records handed over", f.qual, "no record waiting is handed over")
    return fills


def settled(segs, s, t, N, seen=()):
    """truth of the unchanging t on every run that goes through s, None when not the same on all"""
    v = {w for a, w in (positive(N(a), w) for a, w in s.conds) if a == t}
    if v or not any(q.b is s.a for q in segs) or s.a in seen:
        return v.pop() if len(v) == 1 else None
    vs = [settled(segs, q, t, N, seen + (s.a,)) for q in segs if q.b is s.a and q.a is not s.a]
    return vs[0] if vs and all(x is vs[0] for x in vs) else None


def rounds(P, rep, c, f):
    """one round: each record fetched from a dataset waits at the cursor; the pass ends only when the datasets are through"""
    fl, segs = trace(P, rep, f, c, (), effects=True)
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    cur = P_([p for p in f.params if p != "self"][0])
    sync = A(SELF, "sync_length")
    sched = A(SELF, "schedule")
    term, exh = A(cur, "terminal"), A(cur, "exhausted")
    nexts = {o.op for s in segs for o in s.log if o.obj == SELF and "child_cursors" in written(c, o.op)}
    lists = {o.obj for s in segs for o in s.log if o.op in ("append", "extend") and o.obj[0] == "new"}
    steps = good = 0
    fetched = set()
    for s in segs:
        w = where(s)
        conds = [positive(N(a), v) for a, v in s.conds]
        got = [o for o in s.log if o.obj == SELF and o.op in nexts and not any(has(x, lambda t: t[0] in ("elem", "index") and t[1] == A(SELF, "weights")) for x in o.args)]
        adds = [o for o in s.log if o.op in ("append", "extend") and o.obj in lists]
        sets_ = [o for o in s.log if o.op == "set" and o.obj == cur]
        ret = s.ops(None, "return")
        ends = [o for o in sets_ if o.args[0] == ("const", "terminal") and o.args[1] != ("const", False)]
        # fetching one record
        for o in got:
            r = N(o.res)
            none = next((v for a, v in conds if isnone(a, True, lambda x: x == r)), None)
            if none is None:
                none = next((not v for a, v in conds if a == r), None)
            kept = [a for a in adds if N(a.args[0]) == r]
            if none is False:
                rep.check(len(kept) == 1, "lanes", f"{tag}: record fetched", w, f"a record fetched waits {len(kept)} times")
            elif none is True:
                rep.check(not kept, "lanes", f"{tag}: end of a dataset", w, "the end of a dataset is kept as a record")
            else:
                rep.bad("lanes", f"{tag}: record fetched", w, "a record is kept or dropped without looking whether there was one")
            ch = [N(x) for x in o.args if N(x) != cur]
            rep.check(bool(ch) and ch[0] == ("elem", sched), "lanes", f"{tag}: order of the datasets", w, f"fetches from dataset {show(ch[0])[:60] if ch else '?'} instead of the next one in the schedule")
        # one step over records fetched in blocks
        blk = [a for a in adds if a not in [k for o in got for k in adds if N(k.args[0]) == N(o.res)]]
        inner_ = s.a is s.b and s.a.kind == "for" and any(a[0] == "more" and v and N(a[2]) == sched for a, v in s.conds)
        if blk:
            steps += 1
            rec = N(blk[0].args[0])
            wrapped = rec[3] if rec[0] == "mcall" and rec[1] == SELF else ()
            at = next((x for x in wrapped if x[0] == "idx"), None)
            ok = len(blk) == 1 and at is not None and wrapped[0] == ("elem", sched) and at[1][0] == "idx" and at[1][2] == ("elem", sched)
            p_ = at[2] if at else None
            ok = ok and p_[0] == "idx" and p_[2] == ("elem", sched)
            rep.check(bool(ok), "lanes", f"{tag}: record of the block", w, f"takes {show(rec)[:140]} from the block of its dataset")
            if ok:
                mv = [o for o in s.log if o.op == "setitem" and N(o.obj) == p_[1]]
                okm = len(mv) == 1 and N(mv[0].args[0]) == ("elem", sched) and same(N(mv[0].args[1]), plus(p_, one()))
                rep.check(okm, "lanes", f"{tag}: position in the block", w, "taking a record does not move on by one in its block")
                ins = any(a[0] == "cmp" and a[1] == ">" and v and a[2] == ("len", at[1]) and a[3] == p_ for a, v in conds)
                rep.check(ins, "lanes", f"{tag}: end of the block", w, "does not look whether the block has another record")
                z = p_[1][2] if p_[1][0] == "new" else p_[1]
                rep.check(z[0] == "bin" and z[2] == ("seq", ("const", 0)) or z[0] == "comp" and z[2] == ("const", 0), "lanes", f"{tag}: block start", w, "the blocks are not read from their first record")
                b = at[1][1][2] if at[1][1][0] == "new" else at[1][1]
                blockcheck(P, rep, c, tag, w, f, b, nexts, N)
        elif inner_ and not got:
            done = any(a[0] == "idx" and a[1] == exh and v or a[0] == "cmp" and a[1] == ">" and not v and a[2][0] == "len" and a[3][0] == "idx" for a, v in conds)
            rep.check(done, "lanes", f"{tag}: dataset passed over", w, "a dataset that has records left is passed over")
        for v in ({True, False} if settled(segs, s, sync, N) is None else {settled(segs, s, sync, N)}) if got or blk else ():
            fetched.add(v)
        if s.a.kind == "for" and s.b is not s.a and any(a[0] == "more" and v and N(a[2]) == sched and a[1] == s.a.id for a, v in s.conds):
            rep.check(bool(ends), "lanes", f"{tag}: round cut short", w, "the datasets after this one are left out of the round")
        for a, v in conds:
            for t in subterms(a):
                if t[0] == "comp" and any(has(x, lambda y: y[0] == "mcall" and y[2] in nexts) for x in t[3]):
                    it = t[3][0]
                    parts = it[2] if it[0] == "call" and it[1] == "zip" else (it,)
                    ok = len(t[3]) == 1 and not t[4] and all(p[0] in ("new", "comp") or p == A(SELF, "weights") for p in parts)
                    rep.check(ok, "lanes", f"{tag}: all datasets looked at", w, f"looks at {show(it)[:100]}")
        # leaving
        if ret:
            res = N(ret[-1].args[0])
            waits = [o for o in sets_ if o.args[0] == ("const", "pending")]
            if res == ("const", True):
                good += 1
                some = settled(segs, s, sync, N) is True and s.a is not fl.g.entry or any(a in lists and v or a[0] == "cmp" and ("len", lists) == (a[2][0], lists) and a[2][1] in lists and a[1] == ">" and v for a, v in conds)
                rep.check(some, "lanes", f"{tag}: empty round", w, "a round without records is kept")
                ok = bool(waits) and waits[-1].args[1] in lists
                rep.check(ok, "lanes", f"{tag}: round kept", w, "the records of the round are not kept")
                rep.check(same(N(s.attr(cur, "pending_position")), one(0)), "lanes", f"{tag}: round start", w, "the round is not handed over from its first record")
                rep.check(not ends, "lanes", f"{tag}: ended", w, "the pass ends although there are records")
            elif res == ("const", False):
                isync = settled(segs, s, sync, N) is True
                ok = False
                for a, v in conds:
                    if a[0] == "call" and a[1] == "all" and v and (has(a, lambda t: t == exh) or has(a, lambda t: t[0] == "mcall" and t[2] in nexts) and has(a, lambda t: t[0] == "not")):
                        ok = True
                    if a[0] == "call" and a[1] == "any" and not v and has(a, lambda t: t[0] == "mcall" and t[2] in nexts):
                        ok = True
                    if a in lists and not v:
                        ok = True
                    if isync and a[0] == "cmp" and (a[1] == "==" and v or a[1] == ">" and not v) and ("const", 0) in a[2:] and has(a, lambda t: t[0] == "call" and t[1] == "min"):
                        ok = True
                    if isync and isnone(a, v, lambda x: x[0] == "mcall" and x[2] in nexts):
                        ok = True
                rep.check(ok, "lanes", f"{tag}: end of the data", w, "the pass can end although the datasets have more records")
                rep.check(bool(ends), "lanes", f"{tag}: ended", w, "the end of the pass is not kept")
            else:
                rep.bad("lanes", f"{tag}: result", w, f"returns {show(res)[:80]}")
        elif ends:
            rep.bad("lanes", f"{tag}: ended", w, "the pass ends in the middle of a round")
        if s.b is fl.g.exit and not ret:
            rep.bad("lanes", f"{tag}: result", w, "returns nothing")
        # the loops
        for a, v in s.conds:
            if a[0] == "more":
                it = N(a[2])
                it = it[2][0] if it[0] == "call" and it[1] in ("tuple", "list", "enumerate") else it
                if it == sched:
                    continue
                ok = it[0] == "call" and it[1] == "range" and len(it[2]) == 1
                if ok:
                    cnt = it[2][0]
                    ok = cnt == P_([p for p in f.params if p != "self"][1]) or has(cnt, lambda t: t[0] == "call" and t[1] == "min") and has(cnt, lambda t: t[0] == "bin" and t[1] == "FloorDiv")
                rep.check(ok, "lanes", f"{tag}: rounds taken", w, f"takes rounds over {show(it)[:100]}")
    rep.check(fetched == {True, False}, "lanes", f"{tag}: datasets read", f.qual, "the datasets are not read at all with lengths " + ("not " if False not in fetched else "") + "synchronised")
    rep.check(good > 0, "lanes", f"{tag}: rounds", f.qual, "no round is kept")
    return nexts


def blockcheck(P, rep, c, tag, w, f, b, nexts, N):
    cnt = P_([p for p in f.params if p != "self"][1])
    W = A(SELF, "weights")
    ok = b[0] == "comp" and len(b[3]) == 1 and not b[4] and b[2][0] == "mcall" and b[2][2] in nexts and has(b[3][0], lambda t: t == W)
    rep.check(ok, "lanes", f"{tag}: blocks fetched", w, f"the blocks are {show(b)[:140]}")
    if ok:
        a = [x for x in b[2][3] if x[0] != "param"]
        okw = len(a) == 2 and a[0] == ("index", W) and freeze(lin(a[1])) == freeze(lin(("bin", "Mult", ("elem", W), cnt)))
        rep.check(okw, "lanes", f"{tag}: block size", w, "a block does not hold the records of the rounds taken from it, which loses the rest" if len(a) == 2 else "unexpected arguments")


def child(P, rep, c, f):
    """one dataset's records are fetched at its own position, which is kept; it ends only when it gave none"""
    fl, segs = trace(P, rep, f, c, (), effects=True)
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    ps = [p for p in f.params if p != "self"]
    cur, ch = P_(ps[0]), P_(ps[1])
    src, at, exh = ("idx", A(SELF, "child_sources"), ch), ("idx", A(cur, "child_cursors"), ch), A(cur, "exhausted")
    outs = {o.obj for s in segs for o in s.log if o.op in ("append", "extend") and o.obj and o.obj[0] == "new"}
    var = {k for s in segs if s.a is fl.g.entry and s.b is not fl.g.exit for k, v in s.s1.vars.items() if N(v) == at}
    n = 0
    for s in segs:
        w = where(s)
        conds = [positive(N(a), v) for a, v in s.conds]
        reads = [o for o in s.log if o.op in ("next_envelope", "next_envelopes")]
        keep = [o for o in s.log if o.op == "setitem" and N(o.obj) == A(cur, "child_cursors")]
        done = [o for o in s.log if o.op == "setitem" and N(o.obj) == exh]
        adds = [o for o in s.log if o.op in ("append", "extend") and o.obj in outs]
        ret = s.ops(None, "return")
        new = None
        here = {N(s.s0.vars[k]) for k in var if k in s.s0.vars} | {at}
        if reads:
            n += 1
            o = reads[0]
            rep.check(len(reads) == 1 and N(o.obj) == src and N(o.args[0]) in here, "lanes", f"{tag}: dataset read", w, "a dataset is not read at its own position")
            r = N(o.res)
            rec, new = ("item", r, 0), ("item", r, 1)
            if o.op == "next_envelopes" and len(ps) > 2:
                ask = N(o.args[1]) if len(o.args) > 1 else ("const", None)
                d = minus(P_(ps[2]), ask)
                okn = len(d) == 1 and all(isinstance(k, tuple) and k[0] == "len" and has(k, lambda t: t in outs) and z == 1 for k, z in d.items()) or not d and not outs
                rep.check(okn, "lanes", f"{tag}: records asked for", w, f"asks a dataset for {show(ask)[:80]} records, which the rounds may not use up")
            none = any(isnone(a, v, lambda x: x == rec) or a == rec and not v or a[0] == "cmp" and a[1] == "==" and v and ("const", 0) in a[2:] and ("len", rec) in a[2:] for a, v in conds)
            some = any(isnone(a, not v, lambda x: x == rec) or a == rec and v or a[0] == "cmp" and a[1] == "==" and not v and ("const", 0) in a[2:] and ("len", rec) in a[2:] for a, v in conds)
            rep.check(none or some, "lanes", f"{tag}: end of the dataset", w, "does not look whether there was a record")
            rep.check((bool(done) and all(N(q.args[1]) == ("const", True) and N(q.args[0]) == ch for q in done)) == none and bool(done) == none, "lanes", f"{tag}: dataset ended", w, "a dataset is marked as through although it gave a record" if done else "a dataset that gave no record is not marked as through")
            if some:
                if ret and not adds:
                    t = N(ret[-1].args[0])
                    ok = has(t, lambda x: x == rec) and (t == rec or t[0] == "mcall" and t[1] == SELF and t[3] == (ch, rec))
                    rep.check(ok, "lanes", f"{tag}: record passed on", w, f"passes on {show(t)[:100]} instead of the record read")
                else:
                    ok = len(adds) == 1 and N(adds[0].args[0]) == rec and adds[0].op == ("append" if o.op == "next_envelope" else "extend")
                    rep.check(ok, "lanes", f"{tag}: record passed on", w, "records read are dropped or kept more than once")
            elif adds:
                rep.check(adds[0].op == "extend" and N(adds[0].args[0]) == rec, "lanes", f"{tag}: end of the dataset", w, "the end of the dataset is kept as a record")
            elif ret and outs == set():
                rep.check(N(ret[-1].args[0]) == ("const", None), "lanes", f"{tag}: end of the dataset", w, f"passes on {show(ret[-1].args[0])[:80]}")
            if ret or s.b is fl.g.exit:
                okk = len(keep) == 1 and N(keep[0].args[0]) == ch and N(keep[0].args[1]) == new
                rep.check(okk, "lanes", f"{tag}: position kept", w, "the position of the dataset is not kept, so its records are read again")
            else:
                moved = [k for k in var if N(s.s1.vars.get(k, ("const", None))) == new]
                rep.check(bool(moved) or bool(keep), "lanes", f"{tag}: position moved", w, "reads on at the old position")
        else:
            rep.check(not done and not adds, "lanes", f"{tag}: nothing read", w, "records or the end of the dataset are kept although nothing was read")
            if ret and s.a is fl.g.entry:
                ok = any(a == ("idx", exh, ch) and v for a, v in conds)
                rep.check(ok, "lanes", f"{tag}: dataset passed over", w, "a dataset that is not through gives no record")
            elif ret:
                okk = len(keep) == 1 and N(keep[0].args[0]) == ch and N(keep[0].args[1]) in here
                rep.check(okk, "lanes", f"{tag}: position kept", w, "the position of the dataset is not kept, so its records are read again")
                lim = P_(ps[2]) if len(ps) > 2 else None
                ok = any(a[0] == "cmp" and a[1] == ">" and not v and a[2] == lim and a[3][0] == "len" for a, v in conds)
                rep.check(ok, "lanes", f"{tag}: stops early", w, "stops with fewer records than asked for")
        if ret and outs and s.a is not fl.g.entry:
            rep.check(plain(N(ret[-1].args[0])) in outs, "lanes", f"{tag}: result", w, f"returns {show(ret[-1].args[0])[:80]} instead of the records read")
    rep.check(n > 0, "lanes", f"{tag}: reads", f.qual, "no record is read")


def lanestart(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, ())
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    srcs = A(SELF, "child_sources")
    n = 0
    for s in segs:
        for r in s.ops(None, "return"):
            n += 1
            fs = ctor_fields(P, r.args[0]) or {}
            w = where(s)
            e = N(fs.get("exhausted", ("const", None)))
            e = e[2] if e[0] == "new" else e
            rep.check(e[0] == "bin" and e[2] == ("seq", ("const", False)) and e[3][0] == "len" or e[0] == "comp" and e[2] == ("const", False), "lanes", f"{tag}: datasets open", w, "a dataset starts as through")
            pd = N(fs.get("pending", ("seq",)))
            rep.check((pd[2] if pd[0] == "new" else pd) == ("seq",), "lanes", f"{tag}: nothing waiting", w, "records wait before any was read")
            rep.check(same(N(fs.get("pending_position", one(0))), one(0)) and fs.get("terminal", ("const", False)) == ("const", False), "lanes", f"{tag}: start", w, "the pass does not start at its beginning")
            cc = N(fs.get("child_cursors", ("const", None)))
            adds = {N(o.args[0]) for q in segs for o in q.log if o.op == "append" and N(o.obj) == cc}
            if cc[0] == "comp" or cc[0] == "new" and cc[2][0] == "comp":
                cp = cc if cc[0] == "comp" else cc[2]
                adds, its = {x for x in (cp[2][1:] if cp[2][0] == "phi" else (cp[2],))}, {cp[3][0]} if len(cp[3]) == 1 and not cp[4] else set()
            else:
                its = {N(a[2]) for q in segs for a, v in q.conds if a[0] == "more" and v and any(N(o.obj) == cc for o in q.log if o.op == "append")}
                for q in segs:
                    if q.a is q.b and any(N(a[2]) in its for a, v in q.conds if a[0] == "more"):
                        k = [o for o in q.log if o.op == "append" and N(o.obj) == cc]
                        rep.check(len(k) == 1, "lanes", f"{tag}: each dataset", where(q), f"a dataset is started {len(k)} times")
            ok = its == {srcs} and bool(adds) and all(x[0] == "mcall" and x[1] == ("elem", srcs) and x[3] in ((P_("epoch"), P_("cycle"), P_("rank")), (P_("epoch"), P_("rank"))) and
                                                      (x[2] == "start_cycle") == (len(x[3]) == 3) for x in adds)
            rep.check(ok, "lanes", f"{tag}: datasets started", w, "the datasets are not each started for this epoch, cycle and rank")
    rep.check(n > 0, "lanes", f"{tag}: start", f.qual, "no start found")


# -- batches ----------------------------------------------------------------------------------
READS = ("next_envelope", "next_envelopes", "next_packed_records")
QUEUES = (A(SELF, "_ready"), A(SELF, "_packed_ready"))
BSIZE = (A(SELF, "planning_batch_size"), ("mcall", SELF, "planning_batch_size", (), ()))


def plans(P, rep):
    n = 0
    for c in P.classes():
        if not c.module.name.startswith("dataset.") or not any(isinstance(x, ast.Attribute) and x.attr == "_source_exhausted" and isinstance(x.ctx, ast.Store) for m in c.methods.values() for x in ast.walk(m.node)):
            continue
        if not any(calls_attr(m.node, r) for r in READS for m in c.methods.values()):
            continue
        n += 1
        fresh = [m for m in c.methods.values() if not known(m)]
        does = lambda f, names: any(calls_attr(g.node, x) for x in names for g in [f] + [h for h in fresh if calls_attr(f.node, h.name)])
        made = 0
        for name, f in sorted(c.methods.items()):
            if not known(f):
                continue
            if does(f, READS):
                refill(P, rep, c, f)
            if does(f, ("_make_batch",)) and name != "_make_batch":
                made += 1
                batches(P, rep, c, f)
        rep.floor("planning methods", made, 3)
        for name, g in (("_make_batch", making), ("_append_shape", shapes), ("local_slice", slicing), ("_restart_source_cycle", restart), ("_next_emitted", emitting)):
            if name in c.methods:
                g(P, rep, c, c.methods[name])
    rep.floor("planners", n, 1)


def full0(a, v, x):
    """x is empty"""
    return a == x and not v or a[0] == "cmp" and a[1] == "==" and v and ("len", x) in a[2:] and ("const", 0) in a[2:] or a[0] == "cmp" and a[1] == ">" and not v and a[2] == ("len", x) and a[3] == ("const", 0) or isnone(a, v, lambda y: y == x) \
        or a == ("len", x) and not v


def some0(a, v, x):
    return full0(a, not v, x)


def refill(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, (), effects=True)
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    exh = A(SELF, "_source_exhausted")
    n = 0
    for s in segs:
        w = where(s)
        conds = [positive(N(a), v) for a, v in s.conds]
        reads = [o for o in s.log if o.op in READS]
        offers_ = [o for o in s.log if o.op.startswith("offer")]
        drains_ = [o for o in s.log if o.op == "drain"]
        fed = [o for o in s.log if o.op in ("extend", "append", "appendleft", "extendleft") and N(o.obj) in QUEUES]
        ends = sets(s, "_source_exhausted", SELF)
        moved = sets(s, "_source_cursor", SELF)
        lost = [o for o in s.log if N(o.obj) in QUEUES and o.op in ("pop", "popleft", "clear", "remove")] if True else []
        rep.check(not lost, "plan", f"{tag}: waiting records", w, "waiting records are dropped while more are fetched")
        if not reads:
            rep.check(not offers_ and not drains_ and not ends and not fed and not moved, "plan", f"{tag}: nothing read", w, "records are offered or the data ended although nothing was read")
            continue
        n += 1
        rep.check(len(reads) == 1 and N(reads[0].args[0]) == A(SELF, "_source_cursor"), "plan", f"{tag}: records read", w, "records are not read at the current position, or read twice")
        r = N(reads[0].res)
        rec, new = ("item", r, 0), ("item", r, 1)
        rep.check(len(moved) == 1 and N(moved[0].args[1]) == new, "plan", f"{tag}: position", w, "the new position is not kept, so records are read again or left out")
        rep.check(any(a == exh and not v for a, v in conds) or settled(segs, s, exh, N) is False, "plan", f"{tag}: read after the end", w, "reads on after the end of the data")
        none = any(full0(a, v, rec) for a, v in conds)
        some = any(some0(a, v, rec) for a, v in conds)
        rep.check(none or some, "plan", f"{tag}: end of the data", w, "does not look whether there were records")
        if none:
            ok = len(drains_) == 1 and N(drains_[0].obj) == A(SELF, "_reservoir") and len(fed) == 1 and fed[0].op == "extend" and N(fed[0].args[0]) == N(drains_[0].res)
            rep.check(ok and not offers_, "plan", f"{tag}: reservoir emptied", w, "at the end of the data the records in the reservoir are not handed over, once")
            rep.check(len(ends) == 1 and ends[0].args[1] == ("const", True), "plan", f"{tag}: ended", w, "the end of the data is not kept")
        elif some:
            ok = len(offers_) == 1 and N(offers_[0].obj) == A(SELF, "_reservoir") and len(fed) == 1 and fed[0].op == "extend" and N(fed[0].args[0]) == N(offers_[0].res)
            rep.check(ok, "plan", f"{tag}: records offered", w, "records read are not offered to the reservoir once, or what it gives back is dropped")
            if ok:
                a = N(offers_[0].args[0])
                a = a[2] if a[0] == "new" else a
                okr = plain(a) == rec
                if a[0] == "comp":
                    okr = len(a[3]) == 1 and not a[4] and a[3][0] == rec and a[2][0] == "seq" and a[2][1] == ("elem", rec) and (len(a[2]) == 2 or a[2][2] == A(("elem", rec), "resident_bytes"))
                rep.check(okr, "plan", f"{tag}: records offered", w, f"offers {show(a)[:100]} instead of the records read")
                if offers_[0].op == "offer_zero_sized":
                    rep.check(any(has(x, lambda t: t == ("const", "zero_resident_envelopes") or t[0] == "attr" and t[2] == "zero_resident_envelopes") and v for x, v in conds), "plan", f"{tag}: sizes", w, "records are offered as taking no memory")
            rep.check(not drains_ and not ends, "plan", f"{tag}: ended", w, "the data ends although there were records")
    rep.check(n > 0, "plan", f"{tag}: reads", f.qual, "no record is read")


def batches(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, (), effects=True)
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    sizes = set(BSIZE)
    train = ("cmp", "==", A(SELF, "runtime_context", "mode"), ("const", "train"))
    lists = {N(o.obj) for s in segs for o in s.log if o.op in ("append", "extend") and o.obj and o.obj[0] == "new"}
    more = A(SELF, "config", "steps_per_epoch")
    made = took = 0
    fills = {o.op for s in segs for o in s.log if o.obj == SELF and "_source_exhausted" in written(c, o.op) and "_reservoir" not in written(c, o.op)} - {"_make_batch"}
    istrain = lambda s: settled(segs, s, train, N)
    for s in segs:
        w = where(s)
        conds = [positive(N(a), v) for a, v in s.conds]
        outs = [o for o in s.log if o.op in ("popleft", "pop", "clear") and N(o.obj) in QUEUES]
        ret = s.ops(None, "return")
        # waiting records taken
        for o in outs:
            took += 1
            if o.op == "pop" and N(o.obj) == QUEUES[1]:
                k = lin(N(o.args[0])) if o.args else {}
                m = next(iter(k), None)
                okn = len(k) == 1 and isinstance(m, tuple) and m[0] == "min" and any(room(dict(x), sizes, lists) for x in m[1]) and any(len(dict(x)) == 1 and next(iter(dict(x)))[0] == "len" for x in m[1] if isinstance(next(iter(dict(x)), 1), tuple))
                rep.check(okn, "plan", f"{tag}: records taken", w, f"takes {fmt(k)} records")
            adds = [q for q in s.log if q.op in ("append", "extend") and N(q.obj) in lists and N(q.args[0]) == N(o.res)]
            rep.check(o.op in ("popleft", "pop") and len(adds) == 1, "plan", f"{tag}: record taken", w, f"a waiting record taken is put in the batch {len(adds)} times")
        calls = [o for o in s.log if o.op == "_make_batch" and o.obj == SELF]
        emits = [o for o in s.log if o.obj == SELF and o.op == "_next_emitted"]
        app = [o for o in s.log if o.obj == SELF and o.op == "_append_shape"]
        for o in emits:
            took += 1
            r = N(o.res)
            got = next((not v for a, v in conds if isnone(a, True, lambda x: x == r)), None)
            if got:
                rep.check(len(app) == 1 and N(app[0].args[0]) == r, "plan", f"{tag}: record taken", w, "a record taken is not put with those of its board size, once")
                if app and not calls:
                    notfull = any(a[0] == "cmp" and (a[1] == "==" and not v or a[1] == ">" and v and a[2] in sizes) and any(x in sizes for x in a[2:]) and any(x == ("len", N(app[0].res)) for x in a[2:]) for a, v in conds)
                    rep.check(notfull, "plan", f"{tag}: full batch", w, "records wait although they fill a batch")
            else:
                rep.check(got is False and not app, "plan", f"{tag}: record taken", w, "does not look whether there was a record")
        looked = bool(fills & {o.op for o in s.log if o.obj == SELF}) or any(o.op in READS for q in segs for o in q.log)
        dry = looked and any(full0(a, v, q) for a, v in conds for q in QUEUES) or any(isnone(a, v, lambda x: x == N(o.res)) for a, v in conds for o in emits)
        held = [x for x in lists]
        if len(calls) > 1:
            rep.bad("plan", f"{tag}: batch", w, "two batches are made at once")
        for o in calls:
            made += 1
            envs, mask = N(o.args[0]), N(o.args[1]) if len(o.args) > 1 else N(o.kw.get("is_real", ("const", None)))
            last = N(o.kw.get("is_last", o.args[2] if len(o.args) > 2 else ("const", None)))
            rep.check(bool(ret) and N(ret[-1].args[0]) == N(o.res), "plan", f"{tag}: batch made", w, "a batch is made but not handed over")
            if envs[0] == "call" and envs[1].endswith("PackedEnvelopeBatch"):
                envs = envs[2][0]
            padded = False
            if envs[0] == "call" and envs[1] == "numpy.resize":
                padded = True
                rep.check(len(envs[2]) == 2 and envs[2][1] in sizes, "plan", f"{tag}: padding", w, "a batch is not padded to the batch size")
                envs = envs[2][0]
            core = plain(envs)
            if core[0] == "call" and core[1] == "numpy.concatenate":
                core = plain(core[2][0])
            elif core[0] in ("item", "idx") and core[2] in (0, ("const", 0)) and any(single(a, v, core[1]) for a, v in conds):
                core = core[1]
            core = unlen(core)
            okc = core in lists or any(core == N(q.res) for q in app)
            rep.check(okc, "plan", f"{tag}: batch content", w, f"the batch holds {show(core)[:100]} instead of the records collected")
            fullmask = mask[0] == "bin" and mask[1] == "Mult" and mask[2] == ("seq", ("const", True)) and mask[3] in sizes
            if fullmask:
                ok = not padded and any(fullcond(a, v, sizes, segs, s, core, N) for a, v in conds)
                rep.check(ok, "plan", f"{tag}: full batch", w, "rows are marked as real without looking whether the batch is full of records")
                rep.check(last == ("const", False), "plan", f"{tag}: last batch", w, f"a full batch is marked as last: {show(last)[:40]}")
                if app:
                    z = [q for q in s.log if q.op == "setitem" and N(q.obj) == A(SELF, "_shape_queues")]
                    cl = [q for q in s.log if q.op in ("pop", "clear") and N(q.obj) in (A(SELF, "_shape_queues"), N(app[0].res))]
                    okz = len(z) == 1 and N(z[0].args[0]) == A(N(app[0].args[0]), "shape_code") and N(z[0].args[1])[0] == "new" and N(z[0].args[1])[2] == ("seq",) or bool(cl)
                    rep.check(okz, "plan", f"{tag}: batch taken", w, "the records of a batch stay waiting, so they are handed over again")
            else:
                ok = mask[0] == "bin" and mask[1] == "Add" and all(x[0] == "bin" and x[1] == "Mult" for x in mask[2:]) and mask[2][2] == ("seq", ("const", True)) and mask[3][2] == ("seq", ("const", False))
                rep.check(ok, "plan", f"{tag}: mask", w, f"the mask is {show(mask)[:120]}")
                if ok:
                    real, fake = mask[2][3], mask[3][3]
                    okf = any(freeze(lin(fake)) == freeze(minus(b, real)) for b in sizes)
                    rep.check(okf, "plan", f"{tag}: mask", w, f"the mask marks {show(fake)[:80]} rows as padding")
                    okr = real[0] == "len" and (unlen(real[1]) == core or plain(real[1]) == core or padded and plain(real[1]) == plain(envs) or padbase(segs, s, fl, unlen(real[1]), core, N))
                    rep.check(okr, "plan", f"{tag}: real rows", w, f"marks {show(real)[:80]} rows as real")
                    if not padded:
                        padding(rep, tag, w, fl, segs, s, core, real, sizes, N)
                rep.check(istrain(s) is False, "plan", f"{tag}: padding", w, "training batches are padded with repeated records")
                fin = sets(s, "_finished", SELF)
                if last == ("const", True):
                    rep.check(bool(fin) and fin[-1].args[1] == ("const", True), "plan", f"{tag}: finished", w, "the pass goes on after its last batch")
                else:
                    t = next((v for a, v in conds if a == last or a[0] == "not" and a[1] == last), None)
                    wait = [t for t in subterms(last) if t[0] == "call" and t[1] in ("any", "len", "bool") or t[0] == "attr"]
                    okl = last[0] == "not" and has(last, lambda t: t == A(SELF, "_shape_queues")) and not (last[1][0] == "call" and last[1][1] == "all")
                    rep.check(okl, "plan", f"{tag}: last batch", w, f"whether this is the last batch is told by {show(last)[:80]}")
                    anyleft = last[1] if okl else None
                    left = next((v for a, v in conds if a == anyleft), None)
                    rep.check(left is not None and bool(fin) == (not left), "plan", f"{tag}: finished", w, "the pass ends while records wait, or goes on when none is left")
        if ret and not calls:
            t = N(ret[-1].args[0])
            if t == ("const", None):
                fin = sets(s, "_finished", SELF)
                was = any(a == A(SELF, "_finished") and v for a, v in conds)
                rep.check(was or bool(fin) and fin[-1].args[1] == ("const", True), "plan", f"{tag}: finished", w, "reports the end of the pass without keeping it")
                if not was:
                    nothing = istrain(s) is True or any(full0(a, v, x) for a, v in conds for x in held) or any(not v and has(a, lambda y: y == A(SELF, "_shape_queues")) for a, v in conds) or any(emptycount(a, v, segs, s, fl) for a, v in conds)
                    rep.check(bool(dry) and nothing, "plan", f"{tag}: pass ended", w, "the pass ends while there are records to hand over")
                    if c.methods.get("_restart_source_cycle") and any(q.ops(SELF, "_restart_source_cycle") for q in segs):
                        again = [v for a, v in conds if a == A(SELF, "_rank_sharded") or isnone(a, True, lambda x: x == more) or a[0] == "cmp" and a[1] == ">" and a[2] == more and a[3] == A(SELF, "_batch_index")]
                        okb = any(a == A(SELF, "_rank_sharded") and not v or isnone(a, v, lambda x: x == more) or a[0] == "cmp" and a[1] == ">" and a[2] == more and a[3] == A(SELF, "_batch_index") and not v for a, v in conds)
                        rep.check(okb, "plan", f"{tag}: steps asked for", w, "an epoch of a given number of batches ends before it")
            elif not (t[0] == "mcall" and t[1] == SELF and "_make_batch" in deep(c, t[2])):
                rep.bad("plan", f"{tag}: result", w, f"returns {show(t)[:100]}")
        rs = s.ops(SELF, "_restart_source_cycle")
        if rs:
            ok = len(rs) == 1 and dry
            rep.check(bool(ok), "plan", f"{tag}: next round of the data", w, "the data is started again while records wait")
            ok = any(a == A(SELF, "_rank_sharded") and v for a, v in conds) and any(a[0] == "cmp" and a[1] == ">" and a[2] == more and a[3] == A(SELF, "_batch_index") and v for a, v in conds)
            rep.check(ok, "plan", f"{tag}: next round of the data", w, "the data is started again although the epoch has its batches")
        cl = [o for o in s.log if o.op == "clear" and N(o.obj) == A(SELF, "_shape_queues")]
        if cl:
            rep.check(istrain(s) is True and bool(dry), "plan", f"{tag}: records dropped", w, "waiting records are dropped, other than the rest of a training pass")
        # loops over how many to take
        for a, v in s.conds:
            if a[0] == "more":
                it = N(a[2])
                ok = it[0] == "call" and it[1] == "range" and len(it[2]) == 1 and it[2][0][0] in ("call", "min")
                cnt = lin(it[2][0]) if ok else {}
                k = next(iter(cnt), None)
                ok = ok and len(cnt) == 1 and isinstance(k, tuple) and k[0] == "min" and any(islen(dict(x), q) for x in k[1] for q in QUEUES) and any(room(dict(x), sizes, lists) for x in k[1])
                rep.check(ok, "plan", f"{tag}: records taken", w, f"takes records over {show(it)[:80]}")
    rep.check(made > 0, "plan", f"{tag}: batches", f.qual, "no batch is made")
    if took == 0:
        rep.bad("plan", f"{tag}: records", f.qual, "no waiting record is taken")


def single(a, v, x):
    """x has one element at most"""
    if a[0] != "cmp":
        return False
    n = lambda t: t[0] == "len" and unlen(t[1]) == x
    return a[1] == ">" and (not v and n(a[2]) and a[3] == ("const", 1) or v and n(a[3]) and a[2] == ("const", 2)) or a[1] == "==" and v and ("const", 1) in a[2:] and any(n(t) for t in a[2:])


def islen(d, q):
    k = next(iter(d), None)
    return len(d) == 1 and isinstance(k, tuple) and k[0] == "len" and unlen(k[1]) == q and d[k] == 1


def room(d, sizes, lists):
    """the linear form d is: batch size less the records collected"""
    ks = [k for k in d if k in sizes and d[k] == 1]
    o = [k for k in d if k not in sizes]
    return len(ks) == 1 and len(o) == 1 and o[0] != 1 and d[o[0]] == -1 and (o[0][0] == "loop" or o[0][0] == "len" and unlen(o[0][1]) in lists)


def deep(c, name, seen=None):
    f = c.find(name)
    if f is None:
        return set()
    seen = seen if seen is not None else set()
    if name in seen:
        return set()
    seen.add(name)
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
            out.add(x.func.attr)
            out |= deep(c, x.func.attr, seen)
    return out


def unlen(t):
    """the list whose length (as of some loop) this is about"""
    while isinstance(t, tuple) and t and t[0] == "loop" and isinstance(t[-1], tuple):
        t = t[-1]
    return t


def fullcond(a, v, sizes, segs, s, core, N):
    if a[0] != "cmp":
        return False
    for b in sizes:
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if x == b:
                isl = y[0] == "len" and (unlen(y[1]) == core or y[1] == core)
                iscount = y[0] == "loop"
                if not (isl or iscount):
                    continue
                if iscount and not counts(segs, s, y, core, N):
                    continue
                if a[1] == "==" and v:
                    return True
                if a[1] == ">" and not v and a[2] == b:
                    return True
    return False


def counts(segs, s, y, core, N):
    """the loop variable y counts the records put in core"""
    ks = [k for k, v in s.s0.vars.items() if N(v) == y]
    if not ks:
        return False
    k = ks[0]
    seen = False
    for q in segs:
        if q.a is s.a and q.b is s.a:
            d = minus(N(q.s1.vars[k]), N(q.s0.vars[k]))
            adds = [o for o in q.log if o.op in ("append", "extend") and N(o.obj) == core]
            want = {}
            for o in adds:
                r = N(o.args[0])
                if o.op == "append" and r[0] == "res" and r[3] == "pop" and len(r) > 5:
                    want = lin(r[5])
                elif o.op == "append":
                    want = {1: 1}
                else:
                    return False
            if len(adds) > 1 or d != want:
                return False
            seen = seen or bool(adds)
        elif q.b is s.a and q.a is not s.a:
            if k in q.s1.vars and q.s1.vars[k] != ("const", 0):
                return False
    return seen


def emptycount(a, v, segs, s, fl):
    return a[0] == "loop" and not v


def padbase(segs, s, fl, base, core, N):
    """core is a copy of base made before padding"""
    return core[0] == "new" and plain(core[2]) == base or base == core


def padding(rep, tag, w, fl, segs, s, core, real, sizes, N):
    """the loop that pads repeats real rows until the batch is full"""
    loops = [q for q in segs if q.a is s.a and q.b is s.a]
    ok = bool(loops)
    for q in loops:
        adds = [o for o in q.log if o.op in ("append", "extend") and N(o.obj) == core]
        ok = ok and len(adds) == 1 and adds[0].op == "append"
        if ok:
            r = N(adds[0].args[0])
            base = unlen(real[1])
            okr = r[0] in ("idx", "item") and (r[1] == core or r[1] == base) and (r[0] == "item" or r[2][0] == "bin" and r[2][1] == "Mod" and r[2][3] == real)
            rep.check(okr, "plan", f"{tag}: padding", w, f"pads with {show(r)[:80]}")
    rep.check(ok, "plan", f"{tag}: padding", w, "the batch is not padded row by row")
    ok = any(a[0] == "cmp" and a[1] == ">" and not v and a[2] in sizes and a[3][0] == "len" and unlen(a[3][1]) == core for a, v in [positive(N(a), v) for a, v in s.conds])
    rep.check(ok, "plan", f"{tag}: padding", w, "the batch is not padded to the batch size")


def parts_and(t):
    if t[0] == "and" or t[0] == "bool" and t[1] in ("And", "and"):
        return [y for x in t[1:] if isinstance(x, tuple) for z in (x if x and isinstance(x[0], tuple) else (x,)) for y in parts_and(z)]
    return [t]


def making(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, (), effects=True)
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    bi = A(SELF, "_batch_index")
    stop = any(o.obj == SELF and "_finished" in written(c, o.op) or o.op == "set" and o.args[0] == ("const", "_finished") for s in segs for o in s.log)
    rep.check(stop, "plan", f"{tag}: epoch of given length", f.qual, "the epoch goes on after the number of batches asked for")
    for s in segs:
        if s.b is not fl.g.exit:
            continue
        w = where(s)
        ret = s.ops(None, "return")
        fs = ctor_fields(P, ret[-1].args[0]) if ret else None
        rep.check(bool(fs), "plan", f"{tag}: batch", w, "no batch is returned")
        for k, want in (("envelopes", P_("envelopes")), ("is_real", P_("is_real")), ("epoch", A(SELF, "_epoch")), ("batch_index", bi)):
            if fs:
                rep.check(same(N(fs.get(k, ("const", None))), want), "plan", f"{tag}: batch {k}", w, f"the batch's {k} is {show(fs.get(k))[:80]}")
        st = sets(s, "_batch_index", SELF)
        rep.check(len(st) == 1 and same(N(st[0].args[1]), plus(bi, one())), "plan", f"{tag}: batch counted", w, "making a batch does not move the batch number on by one")
        ends = [o for o in s.log if o.obj == SELF and o.op != "return" and "_finished" in written(c, o.op)] + sets(s, "_finished", SELF)
        rep.check(not fs or has(N(fs.get("is_last", ("const", None))), lambda t: t == P_("is_last")), "plan", f"{tag}: last batch", w, "the batch is not told whether it is the last")
        due = any(v and has(N(a), lambda t: t[0] == "cmp" and A(SELF, "config", "steps_per_epoch") in t[2:]) and not isnone(*positive(N(a), v), lambda x: True) and not (N(a)[0] == "cmp" and N(a)[1] in ("is", "is not")) for a, v in s.conds)
        rep.check(bool(ends) or not due, "plan", f"{tag}: epoch finished", w, "the epoch goes on after the number of batches asked for")
        if ends:
            steps = A(SELF, "config", "steps_per_epoch")
            ok = any(a[0] == "cmp" and a[1] == ">" and not v and a[2] == steps and same(a[3], plus(bi, one())) for a, v in [positive(x, v) for a, v in s.conds for x in (parts_and(N(a)) if v else (N(a),))])
            rep.check(ok, "plan", f"{tag}: epoch finished", w, "the epoch can end before the number of batches asked for")


def shapes(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, (), effects=True)
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    env = P_([p for p in f.params if p != "self"][0])
    qs = A(SELF, "_shape_queues")
    key = A(env, "shape_code")
    for s in segs:
        if s.b is not fl.g.exit:
            continue
        w = where(s)
        conds = [positive(N(a), v) for a, v in s.conds]
        adds = [o for o in s.log if o.op == "append" and N(o.args[0]) == env]
        ret = s.ops(None, "return")
        new = [o for o in s.log if o.op == "setitem" and N(o.obj) == qs]
        ok = len(adds) == 1 and bool(ret) and N(ret[-1].args[0]) == N(adds[0].obj)
        rep.check(ok, "plan", f"{tag}: record kept", w, "a record is not put with those of its board size, once")
        if ok:
            q = N(adds[0].obj)
            if new:
                okn = N(new[0].args[0]) == key and N(new[0].args[1]) == q and any(isnone(a, v, lambda x: x[0] == "mcall" and x[1] == qs and x[3][:1] == (key,)) or a[0] == "cmp" and a[1] == "in" and not v and a[2] == key for a, v in conds)
                rep.check(okn and q[0] == "new" and q[2] == ("seq",), "plan", f"{tag}: new board size", w, "records waiting are replaced")
            else:
                okq = q[0] == "mcall" and q[1] == qs and q[2] in ("get", "setdefault") and q[3][0] == key or q[0] == "idx" and q[1] == qs and q[2] == key or q[0] == "res" and q[4] == qs and q[5:6] == (key,)
                rep.check(okq, "plan", f"{tag}: board size", w, f"the record is put in {show(q)[:80]}")


def emitting(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, (), effects=True)
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    for s in segs:
        w = where(s)
        conds = [positive(N(a), v) for a, v in s.conds]
        pops = [o for o in s.log if o.op in ("pop", "popleft", "clear") and N(o.obj) in QUEUES]
        for r in s.ops(None, "return"):
            t = N(r.args[0])
            if t == ("const", None):
                rep.check(not pops and any(full0(a, v, q) for a, v in conds for q in QUEUES), "plan", f"{tag}: end of the data", w, "reports the end of the data while records wait")
            else:
                rep.check(len(pops) == 1 and pops[0].op == "popleft" and N(pops[0].res) == t, "plan", f"{tag}: record", w, "a record taken is not the one handed over")


def slicing(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, (), effects=True)
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    b = P_([p for p in f.params if p != "self"][0])
    ident = A(SELF, "runtime_context", "rank_local_identity")
    own = lambda t: ("slice", t, A(ident, "slice_start"), A(ident, "slice_stop"), None)
    for s in segs:
        if s.b is not fl.g.exit:
            continue
        w = where(s)
        conds = [positive(N(a), v) for a, v in s.conds]
        sh = next((v for a, v in conds if a == A(SELF, "_rank_sharded")), None)
        ret = s.ops(None, "return")
        t = N(ret[-1].args[0]) if ret else ("const", None)
        ok = t[0] == "seq" and len(t) == 3
        rep.check(ok and sh is not None, "plan", f"{tag}: share of the batch", w, f"returns {show(t)[:80]}")
        if not ok or sh is None:
            continue
        for x, fld in ((plain(t[1]), "envelopes"), (plain(t[2]), "is_real")):
            x = x if x[0] != "slice" else x[:4] + (None if x[4] in (None, ("const", None)) else x[4],)
            want = A(b, fld) if sh else own(A(b, fld))
            rep.check(x == want, "plan", f"{tag}: share of {fld}", w, f"takes {show(x)[:100]} of the batch")


def restart(P, rep, c, f):
    fl, segs = trace(P, rep, f, c, (), effects=True)
    N = lambda t: bare(norm(P, t))
    tag = f"{c.name}.{f.name}"
    n = 0
    cyc = A(SELF, "_source_cycle")
    for s in segs:
        if s.b is not fl.g.exit:
            continue
        n += 1
        w = where(s)
        conds = [positive(N(a), v) for a, v in s.conds]
        rep.check(any(a == A(SELF, "_source_exhausted") and v for a, v in conds), "plan", f"{tag}: data read", w, "the data is started again before its end")
        st = [o for o in s.log if o.op == "start_cycle"]
        nxt = plus(cyc, one())
        ok = len(st) == 1 and same(N(st[0].args[1]), nxt) and N(st[0].args[0]) == A(SELF, "_epoch") and same(N(s.attr(SELF, "_source_cycle")), nxt)
        rep.check(ok, "plan", f"{tag}: next round", w, "the next round of the data is not the one after this")
        rep.check(bool(st) and N(s.attr(SELF, "_source_cursor")) == N(st[0].res), "plan", f"{tag}: position", w, "the next round is not read from its start")
        rep.check(N(s.attr(SELF, "_source_exhausted")) == ("const", False), "plan", f"{tag}: data open", w, "the next round starts as ended")
        r = N(s.attr(SELF, "_reservoir"))
        rep.check(r[0] == "mcall" and r[2] == "_new_reservoir" and same(r[3][0], nxt), "plan", f"{tag}: reservoir", w, f"the next round's reservoir is {show(r)[:80]}")
    rep.check(n > 0, "plan", f"{tag}: next round", f.qual, "no next round starts")
