"""D01: exact-resume state is complete; what is saved is what is restored (symbolic round trip)."""
import ast
from sa.codec import codec_strip, collapse, composed, same, unresolved
from sa.flow import alts, flow, has, show, subterms, contains
from sa.lib import (attr_effects, ctor_fields, fact_at, last_values, method_calls, norm, returns, retval, subst,
                    within, self_stores, path_str)
from sa.project import AnchorError, Class, Func

TRUNC = 160


def diff(P, saved_field, got, want):
    return f"restored as {show(got)[:TRUNC]}, expected {show(want)[:TRUNC]}"


def record_codec(P, rep, rule, name, save, restore, sparam, rparam, cls, policy, derived=(), strip=None,
                 scls=None):
    """obligations: for each saved alternative some restored alternative rebuilds every field of cls identically"""
    strip = strip or codec_strip(P)
    fs = flow(P, save, policy, cls=scls)
    fr = flow(P, restore, policy, cls=scls)
    rep.graph(fs)
    rep.graph(fr)
    S = [strip(norm(P, a)) for a in alts(norm(P, retval(fs)))]
    S = [s for s in S if s[0] in ("dict", "call")]
    R = []
    for n, t in returns(fr):
        for a in alts(norm(P, t)):
            R.append((n, strip(a)))
    if not R:
        R = [(fr.g.exit, strip(a)) for a in alts(norm(P, retval(fr)))]
    R = [(n, a) for n, a in R if ctor_fields(P, a) is not None]
    if not S or not R:
        raise AnchorError(f"{name}: save/restore records not recognised")
    fields = list(cls.fields())
    where = save.where()
    for si, s in enumerate(S):
        best = None
        for n, r in R:
            facts = fact_at(fr, n)
            f = ctor_fields(P, r)
            res = {}
            for fld in fields:
                want = ("attr", ("param", sparam), fld)
                if fld in derived:
                    res[fld] = (True, "")
                    continue
                if fld not in f:
                    res[fld] = (False, "field is not restored")
                    continue
                got = composed(P, s, f[fld], rparam, strip)
                ok = same(P, got, want, strip)
                if not ok:
                    ok = const_under_facts(P, fr, f[fld], facts, s, rparam, want, strip)
                res[fld] = (ok, "" if ok else diff(P, None, got, want))
            bad = [k for k, v in res.items() if not v[0]]
            score = (unresolved(composed(P, s, r, rparam, strip)), len(bad))
            if best is None or score < best[0]:
                best = (score, res, n)
        for fld in fields:
            ok, d = best[1][fld]
            rep.check(ok, rule, f"{name}: field {fld}" + (f" (variant {si})" if len(S) > 1 else ""),
                      where, f"save → restore does not return field '{fld}' unchanged: {d}")
    return S, R, fs, fr


def const_under_facts(P, fl, term, facts, saved, rparam, want, strip):
    """a literal is as good as the saved value where a dominating test proved them equal"""
    if term == ("seq",):
        for a in facts:
            if a[0] == "not":
                got = composed(P, saved, a[1], rparam, strip)
                if same(P, got, want, strip):
                    return True
        return False
    if term[0] != "const":
        return False
    for a in facts:
        if a[0] == "cmp" and a[1] == "==":
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if y == term and same(P, composed(P, saved, norm(P, x), rparam, strip), want, strip):
                    return True
    return False


def object_state(P, rep, rule, cls, policy, save="state", restore="restore", native=(), skip=(), rparam=None):
    """cls.state() -> record; cls.restore(record) puts every field back into the attribute it came from."""
    sf, rf = cls.find(save), cls.find(restore)
    if sf is None or rf is None:
        raise AnchorError(f"{cls.qual}.{save}/{restore}")
    fs, fr = flow(P, sf, policy, cls=cls), flow(P, rf, policy, cls=cls)
    rep.graph(fs)
    rep.graph(fr)
    rec = None
    cands = [a for a in alts(norm(P, retval(fs)))]
    # memoised return: look through the cache attribute stores
    for n, a, v in self_stores(fs):
        cands.extend(alts(norm(P, fs.storeval(n, v))))
    for c in cands:
        if ctor_fields(P, c):
            rec = c
            break
    if rec is None:
        raise AnchorError(f"{sf.qual}: state record not recognised")
    k = P.lookup(rec[1])
    f = ctor_fields(P, rec)
    pname = rparam or rf.params[1]
    strip = codec_strip(P)
    for fld in k.fields():
        if fld not in f:
            rep.bad(rule, f"{cls.name}.{save}: field {fld}", sf.where(), f"field '{fld}' of the saved record is not set")
            continue
        if fld in skip:
            rep.ok(rule, f"{cls.name}: field {fld}")
            continue
        t = strip(f[fld])
        want = ("attr", ("param", pname), fld)
        owners = sorted({x[2] for x in subterms(t) if x[0] == "attr" and x[1] == ("self",)})
        restored = []
        probs = []
        for a in owners:
            v = restored_as(P, fr, a, want, strip)
            if v is True:
                restored.append(a)
            elif v is not None:
                probs.append(f"{a}: {v}")
        ok = bool(restored)
        if not ok and owners:
            # configuration: never written by restore, but proven equal to the saved value
            ok = any(eq_fact(P, fr, ("attr", ("self",), a), want, strip) for a in owners)
        if not owners and t[0] in ("const", "global"):
            ok = eq_fact(P, fr, t, want, strip)
        rep.check(ok, rule, f"{cls.name}: field {fld}", rf.where(),
                  f"state field '{fld}' (saved from {show(t)[:80]}) is neither put back by {restore} nor checked equal "
                  f"to the live configuration; " + "; ".join(probs))
    return f, fs, fr


def eq_fact(P, fl, a, b, strip):
    ex = [n for n, l in fl.g.exit.pred]
    want = {a, b}
    facts = fact_at(fl, fl.g.exit)

    def pairs(x):
        if x[0] == "cmp" and x[1] == "==":
            yield x[2], x[3]
            for p, q in ((x[2], x[3]),):
                if p[0] == "seq" and q[0] == "seq" and len(p) == len(q):
                    for i in range(1, len(p)):
                        yield p[i], q[i]
                if p[0] == "dict" and q[0] == "dict":
                    dq = dict(q[1:])
                    for kk, v in p[1:]:
                        if kk in dq:
                            yield v, dq[kk]
        if x[0] == "and":
            for y in x[1:]:
                yield from pairs(y)
        if x[0] == "forall":
            return
    for x in facts:
        for p, q in pairs(x):
            if {strip(norm(P, p)), strip(norm(P, q))} == {strip(norm(P, a)), strip(norm(P, b))}:
                return True
    return False


def restored_as(P, fl, attr, want, strip):
    """True if on every normal exit self.attr was last set from `want`; None if untouched; else reason"""
    eff = [e for e in attr_effects(fl) if e[1] == attr and e[0].id != fl.g.entry.id]
    if not eff:
        return None
    good, resets, other = [], [], []
    for n, a, kind, v in eff:
        if kind == "=":
            t = strip(norm(P, fl.storeval(n, v)))
            if same(P, t, want, strip):
                good.append(n)
            elif t in (("seq",), ("dict",), ("set",)) or (t[0] == "call" and not t[2]) or t[0] == "const":
                resets.append(n)
            else:
                other.append((n, t))
        elif kind in ("restore", "load_state_dict", "extend", "update"):
            t = strip(norm(P, fl.arg(n, 0))) if n.call.args else ("?",)
            okk = same(P, t, want, strip)
            if kind == "update" and not okk and t[0] == "comp":
                okk = same(P, ("comp", "list") + t[2:], want, strip) or pairwise(P, t, want, strip)
            (good.append(n) if okk else other.append((n, t)))
            if kind in ("extend", "update") and okk and not cleared_before(fl, n, attr):
                return f"{kind} onto a container that was not emptied first"
        elif kind == "clear":
            resets.append(n)
        else:
            other.append((n, ("opaque", kind)))
    if not good:
        return "set from " + show(other[0][1])[:100] if other else "only reset, never set from the saved value"
    # every path to exit passes a good effect and nothing after it
    p = fl.find_path([fl.g.entry], [fl.g.exit], avoid=good, skip_labels=("exc", "excb"))
    if p is not None:
        # alternative representation (packed vs object): acceptable when the path is the other variant of `want`
        return f"a path leaves it unset ({path_str(p)})"
    late = [m for m in resets] + [m for m, t in other if t[0] != "attr"]
    for g in good:
        for m in late:
            if m.id in fl.reach(g) and fl.find_path([g], [m], skip_labels=("exc", "excb")) and \
                    fl.find_path([m], [fl.g.exit], avoid=good, skip_labels=("exc", "excb")):
                return f"overwritten afterwards at {m.where()}"
    return True


def pairwise(P, comp, want, strip):
    """{k: list(v) for k, v in want}"""
    el = comp[2]
    if el[0] in ("pair", "seq") and len(el) == 3:
        it = comp[3][0]
        return same(P, it, want, strip) and len(comp[3]) == 1 and not comp[4] and \
            all(same(P, el[i + 1], ("item", ("elem", it), i), strip) for i in range(2))
    return False


def cleared_before(fl, n, attr):
    resets = [e[0] for e in attr_effects(fl) if e[1] == attr and e[2] == "clear"]
    for m, a, v in self_stores(fl, attr):
        t = fl.storeval(m, v)
        if t in (("seq",), ("dict",)) or (t[0] == "call" and not t[2]):
            resets.append(m)
    return fl.find_path([fl.g.entry], [n], avoid=resets, skip_labels=("exc", "excb")) is None


def planner(P, rep):
    c = P.cls("dataset.planner:DatasetPlanner")
    pol = within("dataset.planner")
    st = P.cls("dataset.planner:PlannerState")
    R = "round-trip"
    # serialisation of the cursor record
    save, rest = c.find("_state_to_serializable"), c.find("_state_from_serializable")
    if save is None or rest is None:
        raise AnchorError("planner cursor (de)serialisation")
    nested(P, rep, "round-trip-serialised", c, save, rest, st, pol)
    # live state <-> record
    sf, rf = c.find("state"), c.find("restore")
    fs, fr = flow(P, sf, pol, cls=c), flow(P, rf, pol, cls=c)
    rep.graph(fs)
    rep.graph(fr)
    strip = codec_strip(P, ("state",))
    rec = norm(P, retval(fs))
    f = ctor_fields(P, rec)
    if f is None:
        raise AnchorError("planner state() record")
    pname = rf.params[1]
    n = 0
    for fld in st.fields():
        want = ("attr", ("param", pname), fld)
        if fld not in f:
            rep.bad("round-trip-live", f"planner state field {fld}", sf.where(), "not captured")
            continue
        n += 1
        t = f[fld]
        owners = sorted({x[2] for x in subterms(t) if x[0] == "attr" and x[1] == ("self",)} - {"source", "config" if fld != "config" else ""})
        owners = [o for o in owners if not (o == "_packed_uniform")]
        if fld == "source_cursor":
            owners = [o for o in owners if "cursor" in o] or owners
        if not owners:
            ok = eq_fact(P, fr, t, want, strip)
            rep.check(ok, "round-trip-live", f"planner state field {fld}", rf.where(),
                      f"constant record field '{fld}' is not compared with the live value on restore")
            continue
        verdicts = {}
        for a in owners:
            verdicts[a] = restored_as(P, fr, a, want, strip)
        if len(owners) == 1:
            ok = verdicts[owners[0]] is True or eq_fact(P, fr, ("attr", ("self",), owners[0]), want, strip)
        else:
            # variants (object / packed): every path restores one of the owners
            good = [e[0] for a in owners for e in good_effects(P, fr, a, want, strip)]
            ok = bool(good) and fr.find_path([fr.g.entry], [fr.g.exit], avoid=good, skip_labels=("exc", "excb")) is None \
                and all(good_effects(P, fr, a, want, strip) for a in owners)
        rep.check(ok, "round-trip-live", f"planner state field {fld}", rf.where(),
                  f"'{fld}' captured from self.{'/'.join(owners)} is not put back there: " +
                  "; ".join(f"{a}: {v}" for a, v in verdicts.items() if v is not True))
    rep.floor("planner cursor fields", n, 13)


def good_effects(P, fl, attr, want, strip):
    out = []
    for n, a, kind, v in attr_effects(fl):
        if a != attr:
            continue
        if kind == "=":
            if same(P, strip(norm(P, fl.storeval(n, v))), want, strip):
                out.append((n,))
        elif kind in ("restore", "extend", "update") and n.call.args:
            if same(P, strip(norm(P, fl.arg(n, 0))), want, strip):
                if kind == "restore" or cleared_before(fl, n, attr):
                    out.append((n,))
    return out


def nested(P, rep, rule, c, save, rest, st, pol):
    """planner record: object and packed variants, nested reservoir records"""
    strip = codec_strip(P)
    fs, fr = flow(P, save, pol, cls=c), flow(P, rest, pol, cls=c)
    rep.graph(fs)
    rep.graph(fr)
    sp, rp = save.params[-1], rest.params[-1]
    S = [(n, strip(a)) for n, t in returns(fs) for a in alts(norm(P, t)) if a[0] == "dict"]
    R = [(n, strip(a)) for n, t in returns(fr) for a in alts(norm(P, t)) if ctor_fields(P, a)]
    if len(S) < 2 or len(R) < 2:
        raise AnchorError("planner cursor variants (object and packed)")
    rep.floor("planner cursor serialisation variants", len(S), 2)
    for sn, s in S:
        best = None
        for rn, r in R:
            f = ctor_fields(P, r)
            res = {}
            for fld in st.fields():
                base = ("attr", ("param", sp), fld)
                if fld not in f:
                    res[fld] = (False, "not rebuilt")
                    continue
                got = composed(P, s, f[fld], rp, strip)
                sub = ctor_fields(P, got)
                if sub is not None and not same(P, got, base, strip):
                    k = P.lookup(got[1])
                    for g in k.fields():
                        ok = g in sub and same(P, sub[g], ("attr", base, g), strip)
                        res[f"{fld}.{g}"] = (ok, "" if ok else ("not rebuilt" if g not in sub else
                                             diff(P, None, sub[g], ("attr", base, g))))
                    continue
                ok = same(P, got, base, strip)
                if not ok and got == ("seq",):
                    ok = const_under_facts(P, fr, ("seq",), fact_at(fr, rn), s, rp, base, strip) or \
                        (s[0] == "dict" and dict(s[1:]).get(("const", fld)) == ("seq",))
                res[fld] = (ok, "" if ok else diff(P, None, got, base))
            bad = [x for x, v in res.items() if not v[0]]
            score = (unresolved(composed(P, s, r, rp, strip)), len(bad))
            if best is None or score < best[0]:
                best = (score, res, r)
        kind = "packed" if any(k.startswith("ready.record_ids") for k in best[1]) or \
            has(best[2], lambda t: t[0] == "call" and t[1].endswith("PackedReservoirState")) else "object"
        for fld, (ok, d) in best[1].items():
            rep.check(ok, rule, f"planner cursor ({kind}): {fld}", save.where(), f"save → restore changes '{fld}': {d}")


def run(P, rep):
    rep.rule("round-trip-serialised", "for every field f of the cursor record: deserialise(serialise(r)).f reduces to r.f")
    rep.rule("round-trip-live", "restore(state()) puts every captured field back into the attribute it was read from, "
             "on every normal path, or proves it equal to the live configuration")
    planner(P, rep)
    pol = within("dataset.shuffle")
    object_state(P, rep, "round-trip-live", P.cls("dataset.shuffle:StreamingShuffleReservoir"), pol)
    packed(P, rep)
    sequential(P, rep)
    composite(P, rep)
    npz(P, rep)
    transaction_state(P, rep)
    memo(P, rep)
    evolving(P, rep)


def npz(P, rep):
    pol = within("dataset.npz_source")
    cur = P.cls("dataset.npz_source:DenseNpzCursor")
    for name in ("DenseNpzSource", "IndexedNpzSource"):
        D = P.cls("dataset.npz_source:" + name)
        sv, rs = D.find("save_cursor"), D.find("restore_cursor")
        if not sv or not rs:
            raise AnchorError(name + " cursor functions")
        record_codec(P, rep, "round-trip-serialised", name + " cursor", sv, rs, sv.params[-1], rs.params[-1], cur, pol, scls=D)


def sequential(P, rep):
    R = "round-trip-serialised"
    D = P.cls("dataset.sequential_source:InterleavedSequentialSource")
    pol = lambda f, c, x: f.module.name == "dataset.sequential_source" and f.name not in (
        "start_cycle", "_open_reader", "close_cursor", "start_epoch")
    sv, rs = D.find("save_cursor"), D.find("restore_cursor")
    cur = P.cls("dataset.sequential_source:SequentialCursor")
    S, RR, fs, fr = record_codec(P, rep, R, "sequential cursor", sv, rs, sv.params[-1], rs.params[-1], cur, pol,
                                 derived=("active",), scls=D)
    strip = codec_strip(P)
    rp, sp = rs.params[-1], sv.params[-1]
    # active readers
    saved = norm(P, ("key", S[0], "active"))
    want = ("attr", ("param", sp), "active")
    ok = saved[0] == "comp" and saved[3] == (want,) and not saved[4] and saved[2][0] == "dict"
    rep.check(ok, R, "sequential cursor: active readers saved", sv.where(), "every active reader must be saved, in order")
    if not ok:
        return
    rec = {k[1]: v for k, v in saved[2][1:]}
    el = ("elem", want)
    S0 = S[0]

    def comp(t):
        return composed(P, S0, strip(norm(P, t)), rp, strip)
    # rebuilt readers
    opens = method_calls(fr, "_open_reader")
    okd = oke = False
    for n in opens:
        args = [fr.arg(n, i) for i in range(2)]
        if None in args:
            continue
        okd = okd or comp(args[0]) == ("attr", el, "descriptor_index")
        oke = oke or comp(args[1]) == ("attr", el, "entry_index")
    rep.check(okd, R, "sequential cursor: reader file", rs.where(), "restored reader is not reopened on the saved file")
    rep.check(oke, R, "sequential cursor: reader entry index", rs.where(), "restored reader does not start at the saved entry index")
    seeks = method_calls(fr, "seek")
    off = rec.get("byte_offset", ("?",))
    good = [n for n in seeks if fr.arg(n, 0) is not None and comp(fr.arg(n, 0)) == norm(P, off)
            and has(norm(P, off), lambda t: t[0] == "mcall" and t[2] == "tell")]
    heads = [h for h in fr.g.live if h.kind == "for" and any(n.id in fr.loop_body(h) for n in opens)]
    okk = bool(good) and bool(heads) and all(
        fr.find_path([n], [h], avoid=good, skip_labels=("exc", "excb")) is None for n in opens for h in heads[-1:])
    rep.check(okk, R, "sequential cursor: reader byte offset", rs.where(),
              "a reopened reader can be used without seeking to the saved byte offset (the stream's tell())")
    # every opened reader is kept
    app = [n for n in method_calls(fr, "append") if n.call.args and has(fr.arg(n, 0), lambda t: t[0] == "mcall" and t[2] == "_open_reader")]
    rep.check(bool(app) and all(fr.find_path([n], [h], avoid=app, skip_labels=("exc", "excb")) is None
                                for n in opens for h in heads[-1:]), R, "sequential cursor: reader kept", rs.where(),
              "a reopened reader is not added to the active list on some path")
    # pending entry
    pend = rec.get("pending")
    psaved = [a for a in alts(pend or ("?",)) if a[0] == "dict"]
    rep.check(bool(psaved), R, "sequential cursor: pending entry saved", sv.where(), "the partly consumed entry must be saved")
    pe = P.cls("dataset.sequential_source:_PendingEntry") if "_PendingEntry" in P.module("dataset.sequential_source").classes else None
    st = [(n, t, v) for n, t, v, a, c in fr.stores() if t[0] == "attr" and t[2] == "pending"]
    if psaved and pe is not None:
        for fld in pe.fields():
            hit = False
            got = None
            for n, t, v in st:
                f = ctor_fields(P, strip(norm(P, fr.storeval(n, v))))
                if f and fld in f:
                    got = comp(f[fld])
                    hit = same_any(P, got, ("attr", ("attr", el, "pending"), fld), strip)
            if fld == "entry" or (not hit and got is not None and has(got, lambda t: t[0] in ("mcall", "call", "vcall"))):
                rep.ok(R, f"sequential cursor: pending {fld} (derived)")
                continue
            rep.check(hit, R, f"sequential cursor: pending.{fld}", rs.where(),
                      f"pending field '{fld}' not restored unchanged: {show(got) if got else 'missing'}")
        # pending restored whenever it was saved
        bad = None
        for n in opens:
            for h in heads[-1:]:
                def none_edge(a, b, l):
                    if a.kind == "cond" and l in ("T", "F"):
                        t = comp(fr.term(a, a.expr)) if a.expr is not None else None
                        if t and t[0] == "cmp" and ("const", None) in t[2:] and has(t, lambda x: x[0] == "attr" and x[2] == "pending"):
                            return (t[1] == "is") == (l == "T")
                    return False
                bad = bad or fr.find_path([n], [h], avoid=[x[0] for x in st], avoid_edge=none_edge, skip_labels=("exc", "excb"))
        rep.check(bad is None and bool(st), R, "sequential cursor: pending entry restored", rs.where(),
                  "a saved pending entry is dropped on a path: " + path_str(bad))
    # payload
    pol2 = within("dataset.sequential_source")
    record_codec(P, rep, R, "sequential payload", D.find("save_payload"), D.find("restore_payload"),
                 "payload", "state", P.cls("dataset.sequential_source:SequentialPayload"), pol2,
                 strip=codec_strip(P), scls=D)


def same_any(P, got, want, strip):
    if same(P, got, want, strip):
        return True
    return got[0] == "phi" and any(same(P, g, want, strip) for g in got[1:]) and \
        all(same(P, g, want, strip) or g[0] == "key" for g in got[1:])


def composite(P, rep):
    R = "round-trip-serialised"
    D = P.cls("dataset.composite_source:CompositeRecordSource")
    pol = lambda f, c, x: f.module.name == "dataset.composite_source" and f.name not in ("start_cycle", "start_epoch", "close_cursor")
    sv, rs = D.find("save_cursor"), D.find("restore_cursor")
    cur = P.cls("dataset.composite_source:CompositeCursor")
    sp, rp = sv.params[-1], rs.params[-1]
    S, RR, fs, fr = record_codec(P, rep, R, "composite cursor", sv, rs, sp, rp, cur, pol,
                                 derived=("pending", "pending_position"), scls=D)
    strip = codec_strip(P)
    p = ("param", sp)
    tail = ("slice", ("attr", p, "pending"), ("attr", p, "pending_position"), ("const", None), ("const", None))
    for n, r in RR:
        f = ctor_fields(P, r)
        if n not in [x for x, _ in returns(fr)]:
            continue
        got = composed(P, S[0], f.get("pending", ("?",)), rp, strip)
        pos = composed(P, S[0], f.get("pending_position", ("?",)), rp, strip)
        whole = same(P, got, ("attr", p, "pending"), strip) and same(P, pos, ("attr", p, "pending_position"), strip)
        cut = same(P, got, tail, strip) and pos == ("const", 0)
        rep.check(whole or cut, R, "composite cursor: pending records", rs.where(),
                  f"the undelivered records of the interleave chunk must survive: pending={show(got)[:120]}, position={show(pos)}")
    pl = P.cls("dataset.composite_source:CompositePayload")
    record_codec(P, rep, R, "composite payload", D.find("save_payload"), D.find("restore_payload"),
                 D.find("save_payload").params[-1], D.find("restore_payload").params[-1], pl, pol, scls=D)


def packed(P, rep):
    from sa.cpp import Cpp
    R = "round-trip-live"
    D = P.cls("dataset.packed:PackedUInt64ShuffleReservoir")
    pol = within("dataset.packed")
    fs, fr = flow(P, D.find("state"), pol, cls=D), flow(P, D.find("restore"), pol, cls=D)
    rep.graph(fs)
    rep.graph(fr)
    rec = None
    for c in alts(norm(P, retval(fs))) + [x for n, a, v in self_stores(fs) for x in alts(norm(P, fs.storeval(n, v)))]:
        if ctor_fields(P, c):
            rec = c
    if rec is None:
        raise AnchorError("packed reservoir state record")
    f = ctor_fields(P, rec)
    cpp = Cpp(P.root + "/dataset/planner_cpp/packed_shuffle.cpp")
    params = cpp.params("restore")
    coreattr = None
    for t in f.values():
        for x in subterms(t):
            if x[0] == "attr" and x[1] == ("self",) and "core" in x[2]:
                coreattr = x
    calls = [n for n in method_calls(fr, "restore") if fr.recv(n) == coreattr]
    if not calls or not params:
        raise AnchorError("native reservoir restore call")
    rep.floor("native restore parameters", len(params), 6)
    pname = D.find("restore").params[1]
    strip = codec_strip(P)
    member = cpp.member_from_param("restore")
    prop = cpp.property_member()
    n = calls[0]
    exit_ok = fr.find_path([fr.g.entry], [fr.g.exit], avoid=calls, skip_labels=("exc", "excb")) is None
    rep.check(exit_ok, R, "packed reservoir: native state restored", D.find("restore").where(), "a path returns without restoring the native core")
    for i, q in enumerate(params):
        a = fr.arg(n, i, q)
        a = strip(norm(P, a)) if a is not None else ("?",)
        m = next((mm for mm, pp in member.items() if pp == q), None)
        rep.check(m is not None, R, f"packed reservoir: native member for {q}", cpp.rel, f"native restore() ignores its argument '{q}'")
        # which record field feeds this native member?
        fields = [fld for fld, t in f.items() if has(t, lambda x: (x[0] == "attr" and x[1] == coreattr and prop.get(x[2]) == m)
                  or (x[0] == "mcall" and x[1] == coreattr and prop.get(x[2]) == m))]
        ok = len(fields) == 1 and mentions(P, a, ("attr", ("param", pname), fields[0]))
        others = [o for o in P.cls("dataset.packed:PackedReservoirState").fields() if o not in fields and has(a, lambda x: x == ("attr", ("param", pname), o))]
        rep.check(ok and not others, R, f"packed reservoir: native {q}", n.where(),
                  f"native restore argument '{q}' receives {show(a)[:90]}, but that state was saved as {fields}")
    for m in cpp.members():
        if m in ("capacity_", "rng_base_"):
            continue
        rep.check(m in member, R, f"packed reservoir: native member {m}", cpp.rel, f"native member {m} evolves but restore() does not set it")
        rep.check(m in prop.values(), R, f"packed reservoir: native member {m} readable", cpp.rel, f"native member {m} is not exposed for saving")
    for fld in ("algorithm", "seed", "epoch", "stream_key", "capacity"):
        t = f.get(fld)
        rep.check(t is not None and eq_fact(P, fr, t, ("attr", ("param", pname), fld), strip), R, f"packed reservoir: field {fld}",
                  D.find("restore").where(), f"saved '{fld}' is not compared with the live configuration before restoring")
    # byte order of the identifier buffers
    for cls, meth, reader in (("PackedUInt64ShuffleReservoir", "state", "PackedReservoirState"),
                              ("PackedUInt64ReadyBuffer", "state", "PackedReadyState")):
        C = P.cls("dataset.packed:" + cls)
        w = set()
        for g in {id(n.ctx.func): n.ctx.func for n in flow(P, C.find(meth), lambda f, call, x: f.module.name == "dataset.packed", cls=C).g.live}.values():
            w |= set(dtypes(P, g, "astype"))
        r = set()
        for mm in P.cls("dataset.packed:" + reader).all_methods().values() if isinstance(P.cls("dataset.packed:" + reader).all_methods(), dict) else P.cls("dataset.packed:" + reader).all_methods():
            r |= dtypes(P, mm, "frombuffer")
        rep.check(w and w == r, "byte-order", f"{cls} identifiers", P.cls("dataset.packed:" + cls).find(meth).where(),
                  f"identifiers are written as {sorted(w)} and read as {sorted(r)}")
    # ready FIFO
    B = P.cls("dataset.packed:PackedUInt64ReadyBuffer")
    fs, fr = flow(P, B.find("state"), pol, cls=B), flow(P, B.find("restore"), pol, cls=B)
    rep.graph(fs)
    rep.graph(fr)
    clears = [e for e in attr_effects(fr) if e[2] in ("clear",) or (e[2] == "=" and fr.storeval(e[0], e[3]) == ("const", 0))]
    ext = [n for n in fr.g.live if n.kind == "call" and n.call is not None and isinstance(n.call.func, ast.Attribute) and
           n.call.func.attr in ("append", "extend") and has(fr.arg(n, 0) or ("?",), lambda t: t[0] == "mcall" and t[2] == "record_ids" or t == ("attr", ("param", B.find("restore").params[1]), "record_ids_le"))]
    rep.check(bool(ext) and {e[1] for e in clears} >= {"_chunks", "_head", "_size"} and
              all(fr.find_path([fr.g.entry], [n], avoid=[e[0] for e in clears if e[1] == a], skip_labels=("exc", "excb")) is None
                  for n in ext for a in ("_chunks", "_head", "_size")),
              R, "packed ready queue: restored onto an empty queue", B.find("restore").where(),
              "the ready queue must be emptied and then refilled with the saved identifiers")
    body = [t for n, t in returns(fs)]
    head_ok = all(has(t, lambda x: x[0] == "slice" and x[2] == ("attr", ("self",), "_head")) for t in body
                  if has(t, lambda x: x[0] == "mcall" and x[2] in ("tobytes",)))
    for t in body:
        for a in alts(norm(P, t)):
            for b in flat_phi(a):
                if has(b, lambda x: x[0] == "mcall" and x[2] == "tobytes"):
                    head_ok = head_ok and has(b, lambda x: x[0] == "slice" and x[2] == ("attr", ("self",), "_head"))
    rep.check(head_ok, R, "packed ready queue: consumed prefix excluded", B.find("state").where(),
              "the saved queue must start at the read position of its first chunk")


def flat_phi(t):
    if t[0] == "phi":
        out = []
        for x in t[1:]:
            out += flat_phi(x)
        return out
    for i, x in enumerate(t):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and has(x, lambda y: y[0] == "phi"):
            return [t[:i] + (y,) + t[i + 1:] for y in flat_phi(x)]
        if isinstance(x, tuple) and x and isinstance(x[0], tuple):
            for j, z in enumerate(x):
                if isinstance(z, tuple) and z and isinstance(z[0], str) and has(z, lambda y: y[0] == "phi"):
                    return [t[:i] + (x[:j] + (y,) + x[j + 1:],) + t[i + 1:] for y in flat_phi(z)]
    return [t]


def mentions(P, t, x):
    return contains(t, x) or has(t, lambda y: y[0] == "mcall" and y[2] == "slot_array" and x[2] == "slots_le" and y[1] == x[1]) or \
        (has(t, lambda y: y == x))


def dtypes(P, func, fn):
    out = set()
    for n in ast.walk(func.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == fn:
            for a in n.args + [k.value for k in n.keywords]:
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    out.add(a.value)
    return out


def transaction_state(P, rep):
    """what a checkpoint of the planner contains, and what loading / rolling back sets"""
    rep.rule("durable-snapshot", "a saved planner state is the committed cursor, digest and pipeline state; loading sets both "
             "the committed and the delivered position to it; rolling back sets the delivered position to the committed one")
    c = P.cls("dataset.planner:DatasetPlanner")
    pol = lambda f, call, x: f.module.name == "dataset.planner" and f.name not in ("_state_to_serializable", "_state_from_serializable", "restore", "signature_state")
    R = "durable-snapshot"
    fs = flow(P, c.find("state_dict"), pol, cls=c)
    rep.graph(fs)
    roles = {"cursor": "_committed_state", "cursor_digest": "_committed_digest", "pipeline_state": "_committed_pipeline_blob"}
    rec = norm(P, retval(fs))
    if rec[0] != "dict":
        raise AnchorError("planner state_dict record")
    for k, a in roles.items():
        t = norm(P, ("key", rec, k))
        srcs = {x[2] for x in subterms(t) if x[0] == "attr" and x[1] == ("self",)}
        rep.check(srcs == {a}, R, f"saved {k}", c.find("state_dict").where(),
                  f"checkpoint entry '{k}' must come from the committed position, it comes from {sorted(srcs)}")
    fl = flow(P, c.find("load_state_dict"), pol, cls=c)
    rep.graph(fl)
    sp = c.find("load_state_dict").params[1]
    for k, pair in (("cursor", ("_committed_state", "_yield_state")), ("cursor_digest", ("_committed_digest", "_yield_digest")),
                    ("pipeline_state", ("_committed_pipeline_blob", "_yield_pipeline_blob"))):
        for a in pair:
            vals, unset = last_values(fl, a)
            ok = bool(vals) and not unset and all(
                {x[2] for x in subterms(v) if x[0] == "key" and x[1] == ("param", sp)} == {k} for n, v in vals)
            rep.check(ok, R, f"loaded {a}", c.find("load_state_dict").where(),
                      f"after loading, {a} must hold the saved '{k}' on every path")
    rest = method_calls(fl, "restore")
    ok = [n for n in rest if keys_of(fl.arg(n, 0), sp) == {"cursor"}]
    rep.check(bool(ok) and fl.find_path([fl.g.entry], [fl.g.exit], avoid=ok, skip_labels=("exc", "excb")) is None, R,
              "loaded cursor is restored", c.find("load_state_dict").where(), "a path loads a state without restoring the live cursor")
    fb = flow(P, c.find("rollback_uncommitted"), pol, cls=c)
    rep.graph(fb)
    for y, k in (("_yield_state", "_committed_state"), ("_yield_digest", "_committed_digest"), ("_yield_pipeline_blob", "_committed_pipeline_blob")):
        vals, unset = last_values(fb, y)
        rep.check(bool(vals) and not unset and all(v == ("attr", ("self",), k) for n, v in vals), R, f"rolled back {y}",
                  c.find("rollback_uncommitted").where(), f"rollback must reset {y} to the committed value")
    ok = [n for n in method_calls(fb, "restore") if fb.arg(n, 0) == ("attr", ("self",), "_committed_state")]
    rep.check(bool(ok) and fb.find_path([fb.g.entry], [fb.g.exit], avoid=ok, skip_labels=("exc", "excb")) is None, R,
              "rollback restores the live cursor", c.find("rollback_uncommitted").where(), "rollback must restore the committed cursor")


def keys_of(t, p):
    return {x[2] for x in subterms(t) if x[0] == "key" and x[1] == ("param", p)}


def memo(P, rep):
    """a memoised state record is dropped by everything that changes what it captured"""
    rep.rule("memo-invalidated", "a method that changes captured state drops the memoised snapshot on every path that changed it")
    for mod, name in (("dataset.shuffle", "StreamingShuffleReservoir"), ("dataset.packed", "PackedUInt64ShuffleReservoir")):
        c = P.cls(f"{mod}:{name}")
        pol = within(mod)
        fs = flow(P, c.find("state"), pol, cls=c)
        caches = {a for n, a, v in self_stores(fs)} & {x[2] for n, t in returns(fs) for x in alts(t) if x[0] == "attr"}
        if not caches:
            rep.ok("memo-invalidated", f"{name}: snapshot not memoised")
            continue
        for cache in caches:
            cnt = 0
            for m in all_methods(c):
                if m.name in ("__init__", "state", "restore") or (m.name.startswith("_") and m.name != "__next__"):
                    continue
                fl = flow(P, m, pol, cls=c)
                rep.graph(fl)
                effects = [e[0] for e in attr_effects(fl) if e[1] != cache]
                effects += [n for n in fl.g.live if n.kind == "call" and n.call is not None and isinstance(n.call.func, ast.Attribute)
                            and n.call.func.attr in ("offer", "drain") and fl.recv(n)[0] == "attr" and fl.recv(n)[1] == ("self",)]
                resets = [n for n, a, v in self_stores(fl, cache)]
                params = set(m.params)

                def empty_input(a, b, l):
                    if a.kind != "cond" or l not in ("T", "F") or a.expr is None:
                        return False
                    t = fl.term(a, a.expr)
                    pol_ = True
                    if t[0] == "not":
                        t, pol_ = t[1], False
                    if has(t, lambda x: x == ("self",)) or not has(t, lambda x: x[0] == "param"):
                        return False
                    ok = t[0] in ("param", "call", "attr", "phi", "comp") and t[0] != "cmp"
                    if ok and t[0] == "call" and t[1] not in ("len", "tuple", "list"):
                        return False
                    return ok and ((l == "F") == pol_)
                bad = None
                for e in effects:
                    cnt += 1
                    p1 = fl.find_path([fl.g.entry], [e], avoid=resets, avoid_edge=empty_input, skip_labels=("exc", "excb"))
                    if p1 is None:
                        continue
                    p2 = fl.find_path([e], [fl.g.exit], avoid=resets, avoid_edge=empty_input, skip_labels=("exc", "excb"))
                    if p2 is not None:
                        bad = (e, p1)
                        break
                if effects:
                    rep.check(bad is None, "memo-invalidated", f"{name}.{m.name}", m.where(),
                              f"changes reservoir state at {bad[0].where()} without dropping the memoised snapshot" if bad else "")
            rep.floor(f"{name} state changes", cnt, 2)


def all_methods(c):
    ms = c.all_methods()
    return list(ms.values()) if isinstance(ms, dict) else list(ms)


def evolving(P, rep):
    """planner attributes that change while batches are planned are captured or recomputed on restore"""
    rep.rule("evolving-captured", "every attribute of the planner written while planning batches is captured by the cursor record, "
             "is part of the delivered/committed bookkeeping, or is reinitialised by restore")
    c = P.cls("dataset.planner:DatasetPlanner")
    pol = within("dataset.planner")
    fl = flow(P, c.find("next_batch"), pol, cls=c)
    rep.graph(fl)
    written = {}
    for n, a, k, v in attr_effects(fl):
        written.setdefault(a, n)
    fs = flow(P, c.find("state"), pol, cls=c)
    captured = {x[2] for x in subterms(retval(fs)) if x[0] == "attr" and x[1] == ("self",)}
    fr = flow(P, c.find("restore"), pol, cls=c)
    restored = {a for n, a, k, v in attr_effects(fr)}
    rep.floor("planner attributes written while planning", len(written), 6)
    for a, n in sorted(written.items()):
        rep.check(a in captured or a in restored, "evolving-captured", f"planner attribute {a}", n.where(),
                  f"self.{a} changes while batches are planned but is neither captured nor reinitialised on restore")
    # sources: cursor fields that move while emitting are fields of the saved record (record codecs cover all fields)
