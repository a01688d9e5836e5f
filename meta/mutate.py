"""Mutation survey: which small edits of a function does a check not notice?
meta/mutate.py IDS module:Class.func[,func…] […] [-o ops] [-n max]     prints the surviving mutants as one line each"""
import ast, copy, importlib, io, os, sys, tempfile, contextlib
from multiprocessing import Pool
sys.path.insert(0, "/verif")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from sa.project import AnchorError, Module, Project
from sa.report import Report
import sa.report

REPO = "/repo"
_P = None


def targets(tree, qual):
    cur = tree
    for part in qual.split("."):
        cur = next(n for n in cur.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part)
    return cur


def blocks(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b
        if isinstance(n, ast.Try):
            for h in n.handlers:
                yield h.body


def mutants(tree, qual):
    """yield (description, apply, undo)"""
    fn = targets(tree, qual)
    for b in list(blocks(fn)):
        for i, s in enumerate(list(b)):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Nonlocal, ast.Global, ast.Import, ast.ImportFrom)):
                new = ast.Pass()
                def ap(b=b, i=i, new=new): b[i] = new
                def un(b=b, i=i, s=s): b[i] = s
                yield f"del  {s.lineno}: {short(s)}", ap, un
            if i + 1 < len(b) and not isinstance(s, (ast.Return, ast.Raise, ast.FunctionDef)) and not isinstance(b[i + 1], (ast.Return, ast.Raise, ast.FunctionDef)):
                t = b[i + 1]
                def ap(b=b, i=i, s=s, t=t): b[i], b[i + 1] = t, s
                def un(b=b, i=i, s=s, t=t): b[i], b[i + 1] = s, t
                yield f"swap {s.lineno}: {short(s)} <> {short(t)}", ap, un
            if isinstance(s, ast.Return) and s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None):
                v = s.value
                def ap(s=s): s.value = ast.Constant(None)
                def un(s=s, v=v): s.value = v
                yield f"ret0 {s.lineno}: {short(s)}", ap, un
            if isinstance(s, (ast.Break,)):
                def ap(b=b, i=i): b[i] = ast.Continue()
                def un(b=b, i=i, s=s): b[i] = s
                yield f"cont {s.lineno}: break->continue", ap, un
            if isinstance(s, (ast.Continue,)):
                def ap(b=b, i=i): b[i] = ast.Break()
                def un(b=b, i=i, s=s): b[i] = s
                yield f"brk  {s.lineno}: continue->break", ap, un
    anns = {id(x) for a in ast.walk(fn) for f in ("annotation", "returns") if isinstance(getattr(a, f, None), ast.AST) for x in ast.walk(getattr(a, f))}
    for n in ast.walk(fn):
        if id(n) in anns:
            continue
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = n.test
            def ap(n=n, t=t): n.test = ast.UnaryOp(ast.Not(), t)
            def un(n=n, t=t): n.test = t
            yield f"neg  {n.lineno}: {short(t)}", ap, un
            if isinstance(n, ast.If) and n.orelse:
                o = n.orelse
                def ap(n=n): n.orelse = []
                def un(n=n, o=o): n.orelse = o
                yield f"else {n.lineno}: drop else of {short(t)}", ap, un
        if isinstance(n, (ast.For, ast.comprehension)):
            it = n.iter
            for lo, hi, d in ((1, None, "[1:]"), (None, -1, "[:-1]")):
                def ap(n=n, it=it, lo=lo, hi=hi):
                    n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [it], []), ast.Slice(ast.Constant(lo) if lo else None, ast.UnaryOp(ast.USub(), ast.Constant(1)) if hi else None), ast.Load())
                def un(n=n, it=it): n.iter = it
                yield f"iter {it.lineno}: {short(it)} -> {d}", ap, un
        if isinstance(n, ast.comprehension) and n.ifs:
            f = n.ifs
            def ap(n=n): n.ifs = []
            def un(n=n, f=f): n.ifs = f
            yield f"cif  {f[0].lineno}: drop filter {short(f[0])}", ap, un
        if isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                vs = n.values
                def ap(n=n, k=k, vs=vs): n.values = vs[:k] + vs[k + 1:]
                def un(n=n, vs=vs): n.values = vs
                yield f"bool {n.lineno}: drop {short(vs[k])}", ap, un
            op = n.op
            def ap(n=n, op=op): n.op = ast.Or() if isinstance(op, ast.And) else ast.And()
            def un(n=n, op=op): n.op = op
            yield f"andor {n.lineno}: {short(n)}", ap, un
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = n.ops[0]
            M = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            new = M[type(op)]()
            def ap(n=n, new=new): n.ops = [new]
            def un(n=n, op=op): n.ops = [op]
            yield f"cmp  {n.lineno}: {short(n)} -> {type(new).__name__}", ap, un
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, bool)) and hasattr(n, "lineno"):
            v = n.value
            news = [not v] if isinstance(v, bool) else [v + 1]
            for nv in news:
                def ap(n=n, nv=nv): n.value = nv
                def un(n=n, v=v): n.value = v
                yield f"const {n.lineno}: {v} -> {nv}", ap, un
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            op = n.op
            M = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.BitXor: ast.BitOr, ast.Div: ast.Mult}
            if type(op) in M:
                new = M[type(op)]()
                def ap(n=n, new=new): n.op = new
                def un(n=n, op=op): n.op = op
                yield f"arith {n.lineno}: {short(n)} -> {type(new).__name__}", ap, un
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for k in range(len(n.args) - 1):
                    a = n.args
                    def ap(n=n, k=k, a=a): n.args = a[:k] + [a[k + 1], a[k]] + a[k + 2:]
                    def un(n=n, a=a): n.args = a
                    yield f"args {n.lineno}: swap {k},{k+1} in {short(n)}", ap, un
            for k in range(len(n.keywords)):
                kw = n.keywords
                def ap(n=n, k=k, kw=kw): n.keywords = kw[:k] + kw[k + 1:]
                def un(n=n, kw=kw): n.keywords = kw
                yield f"kw   {n.lineno}: drop {kw[k].arg} in {short(n)}", ap, un
            if isinstance(n.func, ast.Name) and n.func.id in ("max", "min", "any", "all"):
                f = n.func.id
                def ap(n=n, f=f): n.func.id = {"max": "min", "min": "max", "any": "all", "all": "any"}[f]
                def un(n=n, f=f): n.func.id = f
                yield f"fn   {n.lineno}: {short(n)}", ap, un
        if isinstance(n, ast.Dict) and len(n.keys) > 1:
            for k in range(len(n.keys)):
                ks, vs = n.keys, n.values
                def ap(n=n, k=k, ks=ks, vs=vs): n.keys, n.values = ks[:k] + ks[k + 1:], vs[:k] + vs[k + 1:]
                def un(n=n, ks=ks, vs=vs): n.keys, n.values = ks, vs
                yield f"dict {n.lineno}: drop {short(ks[k]) if ks[k] else '**'}", ap, un
        if isinstance(n, ast.Try) and n.finalbody and n.handlers:
            pass


def short(n):
    try:
        return ast.unparse(n).replace("\n", "; ")[:80]
    except Exception:
        return "?"


def job(a):
    ids, modname, rel, src, desc = a
    import signal
    signal.alarm(120)
    fd, path = tempfile.mkstemp(suffix=".py", dir="/tmp/mut")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(src)
        global _P
        P = Project.__new__(Project)
        pid = os.fork()
        if pid == 0:
            rc = 9
            try:
                rc = run(ids, modname, rel, path)
            finally:
                os._exit(rc)
        _, st = os.waitpid(pid, 0)
        return desc, os.waitstatus_to_exitcode(st)
    finally:
        os.unlink(path)
        signal.alarm(0)


def run(ids, modname, rel, path):
    P = _P
    old = P.modules[modname]
    P.all_funcs = [f for f in P.all_funcs if f.module is not old]
    for k in [k for k, f in list(P.func_of.items()) if f.module is old]:
        del P.func_of[k]
    P.modules[modname] = Module(P, modname, rel, path)
    worst = 0
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for pid in ids:
            rep = Report(pid, "quick", REPO)
            sa.report.VERIF = "/tmp/mut/v"
            try:
                importlib.import_module(f"checks.{pid.lower()}").run(P, rep)
                bad = [o for o in rep.obl if not o[3]]
                rc = 1 if bad else 2 if rep.errors else 0
            except AnchorError:
                rc = 1 if [o for o in rep.obl if not o[3]] else 2
            except Exception:
                rc = 3
            if rc == 1 or rc and worst != 1:
                worst = rc
    return worst


def main(argv):
    global _P
    os.makedirs("/tmp/mut", exist_ok=True)
    ops = None
    if "-o" in argv:
        i = argv.index("-o"); ops = argv[i + 1].split(","); argv = argv[:i] + argv[i + 2:]
    ids = argv[0].split(",")
    _P = Project(REPO)
    import subprocess
    if subprocess.run([os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check"), *ids], capture_output=True).returncode:
        sys.exit("baseline is not quiet")
    jobs = []
    for spec in argv[1:]:
        mod, quals = spec.split(":")
        m = _P.module(mod)
        tree = ast.parse(m.source)
        for q in quals.split(","):
            for desc, ap, un in mutants(tree, q):
                if ops and desc.split()[0] not in ops:
                    continue
                ap()
                try:
                    src = ast.unparse(ast.fix_missing_locations(copy.deepcopy(tree)))
                    compile(src, "x", "exec")
                    jobs.append((ids, mod, m.rel, src, f"{q.split('.')[-1]} {desc}"))
                except Exception:
                    pass
                finally:
                    un()
    jobs = jobs[::int(os.environ.get("MUT_EVERY", "1"))]
    with Pool(8) as pool:
        res = pool.map(job, jobs, chunksize=1)
    n = {0: 0, 1: 0, 2: 0}
    for desc, rc in res:
        n[rc] = n.get(rc, 0) + 1
        if rc != 1:
            print("SURVIVED" if rc == 0 else f"rc={rc}", desc)
    print(f"{len(res)} mutants: {n.get(1,0)} caught, {n.get(0,0)} survived, {sum(v for k, v in n.items() if k not in (0,1))} errors")


main(sys.argv[1:])
