#!/usr/bin/env python3
"""Robustness harness (not a check): apply behaviour-preserving source rewrites to a scratch copy of /repo and run the checks there.

    python3 meta/refactor.py [-t rename,flip,…] [-c D01,T06] [-k] [--one FILE:FUNC]
Every alarm or non-zero exit reported here is a false alarm of the machinery (or a bug in the rewrite)."""
import argparse, ast, copy, os, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRS = ("dataset", "trainer", "utils", "model", ".")
RD = os.environ.get('RD') or f'/tmp/refac.{os.getpid()}'
ctr = [0]


def fresh(p="tmp"):
    ctr[0] += 1
    return f"_{p}{ctr[0]}"


FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def has(node, *types):
    return any(isinstance(x, types) for x in ast.walk(node))


def is_jump(s):
    return isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break))


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        if type(t.ops[0]) in m:
            return ast.Compare(t.left, [m[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


class Blocks(ast.NodeTransformer):
    """rewrite every statement list inside functions"""
    infn = 0

    def block(self, body):
        return body

    def stmt(self, s):
        return [s]

    def visit_body(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            if s is None:
                continue
            for x in (s if isinstance(s, list) else [s]):
                out.extend(self.stmt(x) if self.infn else [x])
        return self.block(out) if self.infn else out

    def generic_visit(self, node):
        isf = isinstance(node, FN)
        self.infn += isf
        for f in ("body", "orelse", "finalbody"):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.visit_body(v))
        for h in getattr(node, "handlers", []) or []:
            h.body = self.visit_body(h.body)
        self.infn -= isf
        return node


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        args = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
        bad = set(args)
        for x in ast.walk(fn):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                bad |= set(x.names)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                bad.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                bad |= {(a.asname or a.name).split(".")[0] for a in x.names}
            elif isinstance(x, (ast.ClassDef,) + FN) and x is not fn:
                bad.add(x.name)
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                bad.add(x.name)
        names = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - bad
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in names:
                x.id = x.id + "_rn"
        return fn
    visit_AsyncFunctionDef = visit_FunctionDef


class Flip(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            return [ast.If(neg(s.test), s.orelse, s.body)]
        return [s]


class SplitAnd(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            inner = s.body
            for t in reversed(s.test.values):
                inner = [ast.If(t, inner, [])]
            return inner
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and is_jump(s.body[-1]) and len(s.body) == 1:
            return [ast.If(t, copy.deepcopy(s.body), []) for t in s.test.values]
        return [s]


class GuardElse(Blocks):
    def block(self, body):
        for i, s in enumerate(body[:-1]):
            if isinstance(s, ast.If) and not s.orelse and is_jump(s.body[-1]) and not any(isinstance(x, FN + (ast.ClassDef,)) for x in body[i + 1:]):
                return body[:i] + [ast.If(s.test, s.body, self.block(body[i + 1:]))]
        return body


class ElseGuard(Blocks):
    """if a: ...jump else: rest -> guard; elif chains flattened where bodies jump"""
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and is_jump(s.body[-1]):
            return [ast.If(s.test, s.body, [])] + [y for x in s.orelse for y in self.stmt(x)]
        return [s]


class HoistRet(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            v = fresh("ret")
            return [ast.Assign([name(v, ast.Store())], s.value), ast.Return(name(v))]
        return [s]


class HoistTest(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name) and not has(s.test, ast.NamedExpr):
            v = fresh("cond")
            return [ast.Assign([name(v, ast.Store())], s.test), ast.If(name(v), s.body, s.orelse)]
        return [s]


class HoistArgs(Blocks):
    def stmt(self, s):
        c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
        if isinstance(c, ast.Call) and not has(c, ast.Await, ast.Yield, ast.YieldFrom, ast.Starred, ast.NamedExpr):
            pre = []
            for i, a in enumerate(c.args):
                if isinstance(a, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript, ast.BoolOp, ast.Compare, ast.Tuple, ast.List, ast.ListComp)):
                    v = fresh("arg")
                    pre.append(ast.Assign([name(v, ast.Store())], a))
                    c.args[i] = name(v)
            for k in c.keywords:
                if k.arg and isinstance(k.value, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript, ast.BoolOp, ast.Compare, ast.Tuple)):
                    v = fresh("kw")
                    pre.append(ast.Assign([name(v, ast.Store())], k.value))
                    k.value = name(v)
            return pre + [s]
        return [s]


class CompLoop(Blocks):
    def stmt(self, s):
        v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
        wrap = None
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("tuple", "list", "sorted", "set", "sum") and len(v.args) == 1 \
                and not v.keywords and isinstance(v.args[0], ast.GeneratorExp):
            wrap, v = v, v.args[0]
        if isinstance(v, (ast.ListComp, ast.GeneratorExp)) and (wrap or isinstance(v, ast.ListComp)) and len(v.generators) == 1 and not v.generators[0].is_async \
                and not has(v, ast.NamedExpr, ast.Lambda):
            acc = fresh("acc")
            g = v.generators[0]
            ren = {x.id: fresh(x.id) for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if any(isinstance(x, ast.comprehension) and x is not g for x in ast.walk(v)):
                return [s]
            elt, ifs, tgt = v.elt, g.ifs, g.target
            for root in [elt, tgt] + ifs:
                for x in ast.walk(root):
                    if isinstance(x, ast.Name) and x.id in ren:
                        x.id = ren[x.id]
            body = [ast.Expr(ast.Call(ast.Attribute(name(acc), "append", ast.Load()), [elt], []))]
            for t in reversed(ifs):
                body = [ast.If(t, body, [])]
            if wrap:
                wrap.args = [name(acc)]
                res = wrap
            else:
                res = name(acc)
            s.value = res
            return [ast.Assign([name(acc, ast.Store())], ast.List([], ast.Load())), ast.For(tgt, g.iter, body, []), s]
        if isinstance(v, ast.DictComp) and len(v.generators) == 1 and not has(v, ast.NamedExpr, ast.Lambda) \
                and not any(isinstance(x, ast.comprehension) and x is not v.generators[0] for x in ast.walk(v)):
            acc = fresh("acc")
            g = v.generators[0]
            ren = {x.id: fresh(x.id) for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for root in [v.key, v.value, g.target] + g.ifs:
                for x in ast.walk(root):
                    if isinstance(x, ast.Name) and x.id in ren:
                        x.id = ren[x.id]
            body = [ast.Assign([ast.Subscript(name(acc), v.key, ast.Store())], v.value)]
            for t in reversed(g.ifs):
                body = [ast.If(t, body, [])]
            s.value = name(acc)
            return [ast.Assign([name(acc, ast.Store())], ast.Dict([], [])), ast.For(g.target, g.iter, body, []), s]
        return [s]


class AnyLoop(Blocks):
    """if any(c for v in it): jump  ->  for v in it: if c: jump   (raise/return only)"""
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.Call) and isinstance(s.test.func, ast.Name) and s.test.func.id == "any" \
                and len(s.test.args) == 1 and isinstance(s.test.args[0], ast.GeneratorExp) and isinstance(s.body[-1], (ast.Raise, ast.Return)):
            g = s.test.args[0]
            if len(g.generators) == 1 and not any(isinstance(x, ast.comprehension) and x is not g.generators[0] for x in ast.walk(g)):
                c = g.generators[0]
                ren = {x.id: fresh(x.id) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
                for root in [g.elt, c.target] + c.ifs:
                    for x in ast.walk(root):
                        if isinstance(x, ast.Name) and x.id in ren:
                            x.id = ren[x.id]
                body = [ast.If(g.elt, s.body, [])]
                for t in reversed(c.ifs):
                    body = [ast.If(t, body, [])]
                return [ast.For(c.target, c.iter, body, [])]
        return [s]


class IfExp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.IfExp) and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
            e = s.value
            return [ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)])]
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            e = s.value
            return [ast.If(e.test, [ast.Return(e.body)], []), ast.Return(e.orelse)]
        return [s]


class MakeIfExp(Blocks):
    """if c: x = a else: x = b -> x = a if c else b"""
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 for x in (s.body[0], s.orelse[0])) \
                and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
            return [ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
        return [s]


class Aug(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)) and (isinstance(s.target, ast.Name) or isinstance(s.target.value, ast.Name)) \
                and isinstance(s.op, (ast.Add, ast.Sub)):
            l = copy.deepcopy(s.target)
            l.ctx = ast.Load()
            return [ast.Assign([s.target], ast.BinOp(l, s.op, s.value))]
        return [s]


class Noop(Blocks):
    def block(self, body):
        out = []
        for i, s in enumerate(body):
            if i or not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                out.append(ast.Assign([name("_noop", ast.Store())], ast.Constant(None)))
            out.append(s)
        return out


class SwapCmp(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n


class RangeWhile(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) \
                and s.iter.func.id == "range" and len(s.iter.args) == 1 and not has(s, ast.Continue):
            i, e = fresh("i"), fresh("end")
            return [ast.Assign([name(i, ast.Store())], ast.Constant(0)), ast.Assign([name(e, ast.Store())], s.iter.args[0]),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [name(e)]),
                              [ast.Assign([s.target], name(i))] + s.body + [ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return [s]


class Enum(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.For) and not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ("range", "enumerate")):
            return [ast.For(ast.Tuple([name(fresh("n"), ast.Store()), s.target], ast.Store()), ast.Call(name("enumerate"), [s.iter], []), s.body, s.orelse)]
        return [s]


class Inline(Blocks):
    """x = e; <stmt using x exactly once, x unused elsewhere> -> inline (adjacent, first evaluated expression only)"""
    def visit_FunctionDef(self, fn):
        self.fn = fn
        cnt = {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name):
                cnt[x.id] = cnt.get(x.id, 0) + 1
        old, self.cnt = getattr(self, "cnt", None), cnt
        r = self.generic_visit(fn)
        self.cnt = old
        return r

    def block(self, body):
        out = []
        for s in body:
            if out and isinstance(out[-1], ast.Assign) and len(out[-1].targets) == 1 and isinstance(out[-1].targets[0], ast.Name) \
                    and self.cnt.get(out[-1].targets[0].id) == 2 and isinstance(s, (ast.Return, ast.Expr, ast.If, ast.Assign, ast.For)):
                v = out[-1].targets[0].id
                slot = {ast.If: "test", ast.For: "iter"}.get(type(s), "value")
                e = getattr(s, slot)
                if e is not None and not has(e, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.BoolOp, ast.IfExp, ast.Yield):
                    uses = [x for x in ast.walk(e) if isinstance(x, ast.Name)]
                    # only if x is the first thing evaluated that is not a plain name
                    if sum(x.id == v for x in uses) == 1 and not has(out[-1].value, ast.Yield, ast.Await):
                        first = next((x for x in ast.walk(e) if isinstance(x, ast.Name) and x.id == v))
                        others = [x for x in ast.walk(e) if isinstance(x, ast.Call)]
                        inner = [c for c in others if not any(y is first for y in ast.walk(c))]
                        if not inner:
                            val = out[-1].value

                            class R(ast.NodeTransformer):
                                def visit_Name(self, n):
                                    return val if n is first else n
                            setattr(s, slot, R().visit(e))
                            out.pop()
            out.append(s)
        return out


class HelperBase:
    def run(self, tree):
        for cls in [x for x in ast.walk(tree) if isinstance(x, ast.ClassDef)]:
            new = []
            for f in list(cls.body):
                if isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == "self" and not f.decorator_list:
                    new += self.method(f)
            cls.body += new
        return tree


def locals_of(fn):
    s = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | \
        ({fn.args.kwarg.arg} if fn.args.kwarg else set())
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            s.add(x.id)
        elif isinstance(x, FN) and x is not fn:
            s.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            s.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            s |= {(a.asname or a.name).split(".")[0] for a in x.names}
    return s


class CondHelper(HelperBase):
    """if <test>: -> if self._test_k(names): """
    def method(self, fn):
        new = []
        loc = locals_of(fn)
        for s in ast.walk(fn):
            if isinstance(s, ast.If) and isinstance(s.test, (ast.BoolOp, ast.Compare)) and \
                    not has(s.test, ast.NamedExpr, ast.Yield, ast.Await, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp) and \
                    not any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(s.test)):
                names = sorted({x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)} & loc - {"self"})
                if isinstance(s.test, ast.BoolOp) and names:
                    # a later operand may use a name only bound when an earlier one holds: keep to parameters/self
                    pass
                h = fresh("test")
                new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg("self")] + [ast.arg(n) for n in names], None, [], [], None, []),
                                           [ast.Return(s.test)], [], None, type_params=[]))
                s.test = ast.Call(ast.Attribute(name("self"), h, ast.Load()), [name(n) for n in names], [])
        return new


class RaiseHelper(HelperBase):
    """if c: raise E(...) -> self._fail_k(...) """
    def method(self, fn):
        new = []
        loc = locals_of(fn)
        for s in ast.walk(fn):
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Raise) and s.body[0].exc is not None and s.body[0].cause is None \
                    and not s.orelse and not has(s, ast.Yield, ast.Await, ast.NamedExpr):
                names = sorted({x.id for x in ast.walk(s) if isinstance(x, ast.Name)} & loc - {"self"} -
                               {y.id for c in ast.walk(s) if isinstance(c, ast.comprehension) for y in ast.walk(c.target) if isinstance(y, ast.Name)})
                comp = {y.id for c in ast.walk(s) if isinstance(c, ast.comprehension) for y in ast.walk(c.target) if isinstance(y, ast.Name)}
                if comp & loc and False:
                    continue
                h = fresh("require")
                inner = ast.If(s.test, s.body, [])
                new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg("self")] + [ast.arg(n) for n in names], None, [], [], None, []),
                                           [inner], [], None, type_params=[]))
                s._replace = ast.Expr(ast.Call(ast.Attribute(name("self"), h, ast.Load()), [name(n) for n in names], []))

        class R(ast.NodeTransformer):
            def visit_If(self, n):
                if hasattr(n, "_replace"):
                    return n._replace
                return self.generic_visit(n)
        R().visit(fn)
        return new


class BlockHelper(HelperBase):
    """move a run of top-level statements of a method into a new method"""
    size = 3
    pos = 0

    def ok(self, s):
        for x in ast.walk(s):
            if isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal, ast.Global, ast.Import, ast.ImportFrom, ast.NamedExpr) + FN):
                return False
            if isinstance(x, ast.Name) and x.id in ("super", "__class__"):
                return False
            if isinstance(x, (ast.Break, ast.Continue)) and not any(isinstance(l, (ast.For, ast.While)) and any(y is x for y in ast.walk(l)) for l in ast.walk(s)):
                return False
            if isinstance(x, ast.Delete):
                return False
        return True

    def method(self, fn):
        body = fn.body
        n = len(body)
        if n < self.size + 1:
            return []
        params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | \
            ({fn.args.kwarg.arg} if fn.args.kwarg else set())
        starts = list(range(0, n - self.size + 1))
        starts = starts[self.pos:] + starts[:self.pos] if self.pos >= 0 else starts[::-1]
        for i in starts:
            blk = body[i:i + self.size]
            if not all(self.ok(s) for s in blk) or (isinstance(blk[0], ast.Expr) and isinstance(blk[0].value, ast.Constant)):
                continue
            bound = set(params)
            definite = set(params)
            for s in body[:i]:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        bound.add(x.id)
                    elif isinstance(x, FN):
                        bound.add(x.name)
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    definite |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                if isinstance(s, FN):
                    definite.add(s.name)
            loads = {x.id for s in blk for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            stores = {x.id for s in blk for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for s in blk:
                for x in ast.walk(s):
                    if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                        loads.add(x.target.id)
            reads = (loads | stores) & bound - {"self"}
            if not reads <= definite:
                continue
            top = {x.id for s in blk if isinstance(s, (ast.Assign, ast.AnnAssign)) for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            after = {x.id for s in body[i + self.size:] for x in ast.walk(s) if isinstance(x, ast.Name)}
            nested = {x.id for s in body for f in ast.walk(s) if isinstance(f, FN + (ast.Lambda,)) for x in ast.walk(f) if isinstance(x, ast.Name)}
            if stores & nested:
                continue
            out = sorted(stores & after)
            if not set(out) <= (top | definite):
                continue
            reads = sorted(reads & (loads | set(out)))
            h = fresh("part")
            ret = []
            if out:
                rv = name(out[0]) if len(out) == 1 else ast.Tuple([name(o) for o in out], ast.Load())
                ret = [ast.Return(rv)]
            new = ast.FunctionDef(h, ast.arguments([], [ast.arg("self")] + [ast.arg(r) for r in reads], None, [], [], None, []), blk + ret, [], None, type_params=[])
            call = ast.Call(ast.Attribute(name("self"), h, ast.Load()), [name(r) for r in reads], [])
            if out:
                tgt = name(out[0], ast.Store()) if len(out) == 1 else ast.Tuple([name(o, ast.Store()) for o in out], ast.Store())
                st = ast.Assign([tgt], call)
            else:
                st = ast.Expr(call)
            fn.body = body[:i] + [st] + body[i + self.size:]
            return [new]
        return []


class BlockHelper1(BlockHelper):
    size = 1
    pos = -1


class BlockHelper2(BlockHelper):
    size = 2
    pos = 1


class BodyHelper(BlockHelper):
    """extract the body of the first for/while/if/with of a method (no control flow out of it)"""
    def method(self, fn):
        new = []
        loc = locals_of(fn)
        for c in ast.walk(fn):
            if isinstance(c, (ast.For, ast.If, ast.With)) and len(c.body) >= 2 and all(self.ok(s) for s in c.body) and not any(is_jump(s) for s in c.body):
                stores = {x.id for s in c.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                inside = sum(1 for s in c.body for x in ast.walk(s) if isinstance(x, ast.Name) and x.id in stores)
                total = sum(1 for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id in stores)
                if stores and inside != total:
                    continue
                if any(isinstance(x, ast.arg) and x.arg in stores for x in ast.walk(fn)):
                    continue
                loads = {x.id for s in c.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                reads = sorted((loads & loc) - stores - {"self"})
                # every read must be certainly bound: parameters, or the loop target, or assigned at function top level before
                definite = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
                for s in fn.body:
                    if any(x is c for x in ast.walk(s)):
                        break
                    if isinstance(s, (ast.Assign, ast.AnnAssign)):
                        definite |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                if isinstance(c, ast.For):
                    definite |= {x.id for x in ast.walk(c.target) if isinstance(x, ast.Name)}
                if isinstance(c, ast.With):
                    definite |= {x.id for i in c.items if i.optional_vars for x in ast.walk(i.optional_vars) if isinstance(x, ast.Name)}
                if not set(reads) <= definite:
                    continue
                h = fresh("body")
                new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg("self")] + [ast.arg(r) for r in reads], None, [], [], None, []), c.body, [], None, type_params=[]))
                c.body = [ast.Expr(ast.Call(ast.Attribute(name("self"), h, ast.Load()), [name(r) for r in reads], []))]
                break
        return new


class Alias(ast.NodeTransformer):
    """self.X read twice or more and never assigned in the class outside __init__ -> local alias"""
    def visit_ClassDef(self, cls):
        stored = set()
        for f in cls.body:
            if isinstance(f, FN) and f.name != "__init__":
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        stored.add(x.attr)
        init = set()
        for f in cls.body:
            if isinstance(f, FN) and f.name == "__init__":
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
                        init.add(x.attr)
        for f in cls.body:
            if isinstance(f, ast.FunctionDef) and f.name != "__init__" and f.args.args and f.args.args[0].arg == "self" and not f.decorator_list:
                cnt = {}
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load):
                        cnt[x.attr] = cnt.get(x.attr, 0) + 1
                pick = [a for a, k in cnt.items() if k >= 2 and a in init and a not in stored]
                if pick:
                    a = pick[0]
                    v = fresh("al")

                    class R(ast.NodeTransformer):
                        def visit_Attribute(self, n):
                            self.generic_visit(n)
                            if n.attr == a and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
                                return name(v)
                            return n
                    f.body = [R().visit(s) for s in f.body]
                    k = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                    f.body.insert(k, ast.Assign([name(v, ast.Store())], ast.Attribute(name("self"), a, ast.Load())))
        return cls


class DictCall(ast.NodeTransformer):
    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
            return ast.Call(name("dict"), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n


class Kwargs(ast.NodeTransformer):
    """f(a, b) of module-level/dataclass callee: positional -> keyword not attempted; keyword order reversed when arguments are pure names"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if len(n.keywords) > 1 and all(k.arg and isinstance(k.value, (ast.Name, ast.Constant, ast.Attribute)) for k in n.keywords):
            n.keywords = n.keywords[::-1]
        return n


class Unpack(Blocks):
    """a, b = x, y -> sequential when independent"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                len(s.targets[0].elts) == len(s.value.elts) and all(isinstance(t, ast.Name) for t in s.targets[0].elts):
            tn = {t.id for t in s.targets[0].elts}
            if not any(isinstance(x, ast.Name) and x.id in tn for x in ast.walk(s.value)):
                return [ast.Assign([t], v) for t, v in zip(s.targets[0].elts, s.value.elts)]
        return [s]


class ForElse(Blocks):
    """tuple assignment target of a for loop unpacked in the body"""
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
            v = fresh("it")
            return [ast.For(name(v, ast.Store()), s.iter, [ast.Assign([s.target], name(v))] + s.body, s.orelse)]
        return [s]


class ReorderDefs(ast.NodeTransformer):
    def visit_ClassDef(self, c):
        fs = [f for f in c.body if isinstance(f, FN) and not f.decorator_list]
        rest = [f for f in c.body if f not in fs]
        c.body = rest + fs[::-1]
        return c


class Deco:
    pass


T = dict(rename=Rename, flip=Flip, splitand=SplitAnd, guardelse=GuardElse, elseguard=ElseGuard, hoistret=HoistRet, hoisttest=HoistTest,
         hoistargs=HoistArgs, comploop=CompLoop, anyloop=AnyLoop, ifexp=IfExp, mkifexp=MakeIfExp, aug=Aug, noop=Noop, swapcmp=SwapCmp,
         rangewhile=RangeWhile, enum=Enum, inline=Inline, condhelper=CondHelper, raisehelper=RaiseHelper, blockhelper=BlockHelper,
         blockhelper1=BlockHelper1, blockhelper2=BlockHelper2, bodyhelper=BodyHelper, alias=Alias, dictcall=DictCall, kwargs=Kwargs,
         unpack=Unpack, fortuple=ForElse, reorderdefs=ReorderDefs)


def transform(src, tname, only=None):
    tree = ast.parse(src)
    tr = T[tname]()
    if hasattr(tr, "run"):
        tree = tr.run(tree)
    else:
        tree = tr.visit(tree)
    ast.fix_missing_locations(tree)
    out = ast.unparse(tree) + "\n"
    compile(out, "x", "exec")
    return out


def make(tname, dst):
    shutil.copytree("/repo", dst, ignore=shutil.ignore_patterns(".git", "build", "__pycache__", "*.so"), symlinks=True)
    for d in DIRS:
        base = os.path.join(dst, d)
        for r, ds, fs in os.walk(base):
            if d == ".":
                ds[:] = []
            for f in fs:
                if f.endswith(".py") and f != "setup.py":
                    p = os.path.join(r, f)
                    s = open(p, encoding="utf-8").read()
                    for t in tname.split("+"):
                        s = transform(s, t)
                    open(p, "w", encoding="utf-8").write(s)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-t", default=",".join(T))
    ap.add_argument("-c", default="all")
    ap.add_argument("-k", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    bad = 0
    for t in a.t.split(","):
        ctr[0] = 0
        d = f"{RD}/{t}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(RD, exist_ok=True)
        make(t, d)
        r = subprocess.run([os.path.join(ROOT, "check"), *a.c.split(","), "--repo", d], capture_output=True, text=True, cwd=ROOT)
        fails = [l for l in r.stdout.splitlines() if "VIOLATED" in l or "ERROR" in l or "rror:" in l]
        if r.returncode: print(f"{t:14s} rc={r.returncode} {'; '.join(x[:90] for x in fails)}", flush=True)
        bad += r.returncode != 0
        if a.v and r.returncode:
            print(r.stdout[-6000:], r.stderr[-3000:])
        if not a.k:
            shutil.rmtree(d, ignore_errors=True)
    return bad


sys.exit(1 if main() else 0)
