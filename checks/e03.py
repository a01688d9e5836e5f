"""E03: a weight written as an integer lies inside its integer type: it is clipped or the export is refused, it never wraps around."""
import ast, math
from sa.ranges import INTS, Interp


def run(P, rep):
    rep.rule("narrow", "each value converted to an integer of at most 32 bits lies inside that type, by clipping or by a check that refuses the export")
    rep.rule("field", "each value packed into a bit field lies inside the width of the field")
    base = next(c for c in P.classes() if c.name == "BaseSerializer")
    n, sites = 0, set()
    for c in sorted(P.classes(), key=lambda c: c.name):
        if not c.module.name.startswith("model.serialization") or c is base or base not in c.mro:
            continue
        f = c.find("serialize")
        if f is None or f.cls is base:
            continue
        n += 1
        export(P, rep, c, f, sites)
    rep.floor("serializers", n, 9)
    rep.floor("conversions and packed fields", len(sites), 90)


def width(v):
    """the number of bits of a mask 2**w - 1, or None"""
    if v.lo != v.hi or not 0 < v.lo < 2 ** 63:
        return None
    w = round(math.log2(v.lo + 1))
    return w if 2 ** w - 1 == v.lo else None


def export(P, rep, c, f, sites):
    out = {}

    def judge(it, e, rule, kind, ok, lo, hi, what):
        sites.add((it.module.rel, e.lineno, e.col_offset))
        key = (rule, it.module.rel, e.lineno, e.col_offset, kind, ast.unparse(e)[:110])
        if key not in out or out[key][0] and not ok:
            out[key] = (ok, f"values in [{fmt(lo)}, {fmt(hi)}] {what}")

    def sink(it, e, v, lo, hi, dt, env):
        if dt in INTS:
            if dt not in ("int64", "uint64"):
                a, b = INTS[dt]
                judge(it, e, "narrow", dt, lo > a - 1 and hi < b + 1, lo, hi, f"are converted to {dt}")
            return
        x, m = v
        if dt == "BitAnd":
            w = width(m)
            if w is None:
                return
            lo, hi = it.range(x, env)
            judge(it, e, "field", f"{w} bits", -2 ** (w - 1) <= lo and hi < 2 ** (w - 1) or 0 <= lo and hi < 2 ** w, lo, hi, f"are packed into {w} bits")
        elif dt == "LShift":
            w = 8 - int(m.lo) if m.lo == m.hi else 0
            if x.kind == "i" and x.lo != x.hi and 0 < w < 8:
                lo, hi = it.range(x, env)
                judge(it, e, "field", f"{w} bits", 0 <= lo and hi < 2 ** w, lo, hi, f"are packed into {w} bits")
        elif dt == "BitOr":
            for y in (x, m):
                if y.kind == "i":
                    lo, hi = it.range(y, env)
                    judge(it, e, "field", "4 bits", 0 <= lo and hi < 16, lo, hi, "are packed into 4 bits")

    it = Interp(P, sink)
    it.run(f, c, [])
    rep.seen(f"{c.name}.serialize")
    for (rule, rel, line, _, kind, text), (ok, msg) in sorted(out.items()):
        rep.check(ok, rule, f"{c.name}: {text} ({kind})", f"{rel}:{line}", msg)


def fmt(x):
    return str(x) if math.isinf(x) else f"{x:.12g}"
