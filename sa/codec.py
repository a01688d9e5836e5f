"""Symbolic round trip: compose a save function's result term into the matching restore function."""
from .flow import alts, has, item, show, subterms
from .lib import ctor_fields, fact_at, norm, returns, retval, subst
from .project import Class

CODECS = {"save_payload", "restore_payload", "save_cursor", "restore_cursor"}


def codec_strip(P, extra=()):
    names = CODECS | set(extra)

    def m(t):
        if t[0] == "mcall" and t[2] in names and len(t[3]) == 1:
            return strip(t[3][0])
        if t[0] == "call" and t[1].split(".")[-1] in names and len(t[2]) == 1:
            return strip(t[2][0])
        return None

    def strip(t):
        return subst(P, t, m)
    return strip


def collapse(P, t):
    """phi{x, rebuild(x)} == x where rebuild maps a recursive function over the elements of x"""
    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        y = tuple(go(z) if isinstance(z, tuple) else z for z in x)
        if y and y[0] == "phi":
            parts = list(y[1:])
            keep = []
            for p in parts:
                if p[0] == "comp" and len(p[3]) == 1 and p[3][0] in parts and p[2][0] in ("call", "mcall") \
                        and ("elem", p[3][0]) in (p[2][2] if p[2][0] == "call" else p[2][3]):
                    continue
                if p not in keep:
                    keep.append(p)
            return keep[0] if len(keep) == 1 else ("phi",) + tuple(keep)
        return y
    return norm(P, go(t))


def expand(t, limit=64):
    """phi at the top level of a record (dict/ctor fields) -> alternatives"""
    return alts(t)[:limit]


def composed(P, saved, restored, param, strip):
    """restored term with parameter `param` replaced by the saved term"""
    r = subst(P, restored, lambda t: saved if t == ("param", param) else None)
    return collapse(P, strip(r))


def same(P, got, want, strip):
    got, want = collapse(P, strip(got)), collapse(P, strip(want))
    if got == want:
        return True
    if got[0] == "phi":
        return all(same(P, g, want, strip) or g == ("const", None) for g in got[1:])
    if want[0] == "comp" and got[0] == "comp":
        return got[2:] == want[2:]
    # field-wise identity of a rebuilt record list: elementwise ctor == element
    if got[0] == "comp" and len(got[3]) == 1:
        it = got[3][0]
        return same(P, it, want, strip) and same(P, got[2], ("elem", it), strip)
    f = ctor_fields(P, got)
    if f is not None:
        k = P.lookup(got[1])
        return set(f) == set(k.fields()) and all(same(P, v, ("attr", want, n), strip) for n, v in f.items())
    if got[0] == "seq" and not any(x[0] == "star" for x in got[1:]) and got[1:]:
        return all(same(P, x, item(want, i), strip) for i, x in enumerate(got[1:]))
    return False


def unresolved(t):
    """lookups of keys the saved record does not have"""
    return sum(1 for x in subterms(t) if x[0] == "key" and x[1][0] in ("dict", "seq"))
