"""debug: print the inlined CFG of a function with terms.  meta/dump.py module:Class.func [policy-module…]"""
import sys; sys.path.insert(0, "/verif")
from sa.project import Project
from sa.flow import flow, show
P = Project("/repo")
spec = sys.argv[1]
mods = sys.argv[2:] or [spec.split(":")[0]]
cls = None
if "." in spec.split(":")[1]:
    cls = P.cls(spec.rsplit(".", 1)[0]); f = cls.find(spec.rsplit(".", 1)[1])
else:
    f = P.func(spec)
fl = flow(P, f, lambda g, c, x: g.module.name in mods, cls=cls)
for n in fl.g.live:
    s = ""
    if n.kind == "call" and n.call is not None:
        a = [show(fl.term(n, x)) for x in n.call.args if not hasattr(x, "value") or True]
        kw = [f"{k.arg}={show(fl.term(n, k.value))}" for k in n.call.keywords]
        r = ""
        if fl.callee(n) and fl.callee(n)[0] == "method":
            r = show(fl.recv(n)) + " ."
        s = f"{r}{fl.callee(n)} ({', '.join(a + kw)}) {n.note or ''}"
    elif n.expr is not None:
        s = show(fl.term(n, n.expr))
    for t, v, c in n.stores:
        s += f"  STORE {show(fl.target(n, t, c))} := {show(fl.storeval(n, v))}"
    print(n.id, n.kind, n.ctx.func.name, n.line, s[:260], "->", [(m.id, l) for m, l in n.succ])
