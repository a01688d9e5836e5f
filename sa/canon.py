"""Canonical loops: a list or dict built by one simple loop is written as the comprehension it is equal to."""
import ast

REDUCE = {"tuple", "list", "sorted", "set", "sum", "any", "all", "min", "max", "frozenset", "dict"}


def canonical(tree):
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            blocks(f, f)
    return tree


def blocks(node, f):
    for fld in ("body", "orelse", "finalbody"):
        b = getattr(node, fld, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            for s in b:
                if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    blocks(s, f)
            block(b, f)
    for h in getattr(node, "handlers", []):
        blocks(h, f)
    for c in getattr(node, "cases", []):
        blocks(c, f)


def names(n, ctx=None):
    return [x for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))]


def empty(s):
    t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
    v = getattr(s, "value", None)
    if not isinstance(t, ast.Name) or v is None:
        return None
    if isinstance(v, ast.List) and not v.elts or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "list" and not v.args:
        return t.id, "list"
    if isinstance(v, ast.Dict) and not v.keys or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict" and not v.args and not v.keywords:
        return t.id, "dict"
    return None


BAD = (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda)


def comp(s, acc, kind, f):
    if not isinstance(s, ast.For) or s.orelse or len(s.body) != 1:
        return None
    conds, b = [], s.body[0]
    while isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
        conds.append(b.test)
        b = b.body[0]
    if kind == "list":
        c = b.value if isinstance(b, ast.Expr) else None
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and c.func.value.id == acc and len(c.args) == 1 and not c.keywords
                and not isinstance(c.args[0], ast.Starred)):
            return None
        parts = [c.args[0]]
    else:
        if not (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Subscript) and isinstance(b.targets[0].value, ast.Name) and b.targets[0].value.id == acc
                and not isinstance(b.targets[0].slice, ast.Slice)):
            return None
        parts = [b.targets[0].slice, b.value]
    exprs = parts + conds
    if any(isinstance(x, BAD) for e in exprs + [s.iter] for x in ast.walk(e)) or any(n.id == acc for e in exprs + [s.iter] for n in names(e)):
        return None
    tg = names(s.target)
    if not tg or any(not isinstance(x, (ast.Name, ast.Tuple, ast.List)) and isinstance(x, ast.expr) for x in ast.walk(s.target)):
        return None
    inside = {id(x) for x in ast.walk(s)}
    bound = set()
    for n in ast.walk(f):
        if isinstance(n, (ast.For, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and n is not s and id(n) not in inside:
            t = [n.target] if isinstance(n, ast.For) else [g.target for g in n.generators]
            ids = {x.id for q in t for x in names(q)}
            for x in names(n, ast.Load):
                if x.id in ids:
                    bound.add(id(x))
    mine = {x.id for x in tg}
    if any(x.id in mine and id(x) not in inside and id(x) not in bound for x in names(f, ast.Load)):
        return None
    g = ast.comprehension(target=s.target, iter=s.iter, ifs=conds, is_async=0)
    r = ast.ListComp(elt=parts[0], generators=[g]) if kind == "list" else ast.DictComp(key=parts[0], value=parts[1], generators=[g])
    return ast.copy_location(r, s)


def block(b, f):
    i = 0
    while i < len(b):
        e = empty(b[i])
        if e:
            acc, kind = e
            for j in range(i + 1, len(b)):
                if any(n.id == acc for n in names(b[j])):
                    r = comp(b[j], acc, kind, f)
                    if r is not None:
                        b[j] = ast.copy_location(ast.Assign(targets=[ast.copy_location(ast.Name(id=acc, ctx=ast.Store()), b[j])], value=r), b[j])
                        del b[i]
                        inline(b, j - 1, acc, r, f)
                        i -= 1
                    break
        i += 1


def inline(b, k, acc, r, f):
    """use the comprehension directly when the next statement is the only one to read it"""
    if k + 1 >= len(b) or not isinstance(b[k + 1], (ast.Return, ast.Assign, ast.Expr, ast.AugAssign)):
        return
    n = b[k + 1]
    uses = [x for x in names(f, ast.Load) if x.id == acc]
    here = [x for x in names(n, ast.Load) if x.id == acc]
    if len(uses) != 1 or len(here) != 1 or any(isinstance(x, BAD + (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.IfExp, ast.BoolOp)) for x in ast.walk(n)):
        return
    class T(ast.NodeTransformer):
        def visit_Call(self, c):
            if isinstance(c.func, ast.Name) and c.func.id in REDUCE and len(c.args) == 1 and isinstance(c.args[0], ast.Name) and c.args[0].id == acc and isinstance(r, ast.ListComp):
                if c.func.id == "list" and not c.keywords:
                    return r
                c.args = [ast.copy_location(ast.GeneratorExp(elt=r.elt, generators=r.generators), r)]
                return c
            return self.generic_visit(c)

        def visit_Name(self, x):
            return r if x.id == acc and isinstance(x.ctx, ast.Load) else x
    T().visit(n)
    del b[k]
