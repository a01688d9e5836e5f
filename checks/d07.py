"""D07: augmentation transforms board, features, policy and moves by one and the same symmetry, and sides by one and the same swap."""
import ast, itertools
from sa.geo import Arr, Batch, Geo, Lin, Obj, Raised, Sym, Unknown, key, lin, sym
from sa.project import dotted, own_nodes

DU = "utils.data_utils"
SIDE12 = (4, 5, 6, 7, 0, 1, 2, 3, 9, 8, 11, 10)
H, W = sym("H"), sym("W")


def run(P, rep):
    rep.rule("tables", "each symmetry moves a cell of an array and a move at that cell to the same place, without loss, and the symmetries differ")
    rep.rule("offered", "the symmetries offered for a board keep its shape, include the identity and are all different")
    rep.rule("sample", "in one sample the board, the features, the policy and the moves get the same symmetry, and sides are swapped everywhere or nowhere")
    rep.rule("batch", "in a batch each row's board and policy get that row's symmetry, and a row's sides are swapped exactly if white is to move")
    rep.rule("rows", "a batch is processed row by row with the row's own fields and symmetry")
    rep.rule("padding", "padding adds zeros on the far sides only, after the symmetry, and equally to every array")
    rep.rule("stored", "no stored array is written to")
    rep.rule("once", "a record is transformed in one pass, while it still has its moves")
    rep.rule("options", "each reader passes its own side, size and symmetry options")
    S = P.cls(f"{DU}:Symmetry")
    members = {}
    for s in S.node.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
            members[s.targets[0].id] = s.value.value
    rep.floor("symmetries", len(members), 8)
    tables(P, rep, S, members)
    sample(P, rep)
    batch(P, rep)
    rows(P, rep)
    sites(P, rep)


# ---------------------------------------------------------------- the eight symmetries
def member_attr(S, members):
    def attr(it, o, a):
        if o is S and a in members:
            return Obj(S, name=a, value=members[a])
        return None
    return attr


def tables(P, rep, S, members):
    offered = offers(P, rep, S, members)
    app, mov = S.find("apply_to_array"), S.find("apply_to_move")
    rep.seen(app.qual)
    rep.seen(mov.qual)
    maps = {}
    free = set(offered.get(("default", False), ()))
    for name in sorted(members, key=lambda n: members[n]):
        dims = {"H": H, "W": W} if name in free else {"H": sym("S"), "W": sym("S")}
        h, w = dims["H"], dims["W"]
        it = Geo(P, {"attr": member_attr(S, members), f"{DU}.Symmetry.available_symmetries": lambda it, a, k: [Sym("any")], f"{DU}.Move": lambda it, a, k: Obj(None, **dict(zip("xy", a)), **k)})
        me = lambda: Obj(S, name=name, value=members[name])
        arr, mv = set(), set()
        for r, log in it.runs(lambda it: it.call_func(it.as_fn(app), [Arr("a", (h, w))], {}, bound=me())):
            if isinstance(r, Unknown):
                continue
            if isinstance(r, Arr):
                arr.add(coords(r, h, w) if r.own else "shares storage with its input")
            else:
                arr.add("unknown")
        it.prims["attr"] = lambda it, o, a, f=member_attr(S, members): f(it, o, a) if not (isinstance(o, Obj) and o.at.get("mv") and a == "is_pass") else False
        for r, log in it.runs(lambda it: it.call_func(it.as_fn(mov), [Obj(None, x=sym("x"), y=sym("y"), mv=1), (h, w)], {}, bound=me())):
            if isinstance(r, Unknown):
                continue
            mv.add((lin(r.at["x"]), lin(r.at["y"])) if isinstance(r, Obj) and "x" in r.at and all(isinstance(r.at[k], (int, Lin)) for k in "xy") else "unknown")
        where = app.where()
        if not arr or not mv or "unknown" in arr | mv:
            continue
        if len(arr) != 1 or len(mv) != 1 or not all(isinstance(next(iter(s)), tuple) for s in (arr, mv)):
            rep.check(False, "tables", f"{name}: the effect on arrays and on moves is one coordinate map each", where, f"arrays {sorted(map(str, arr))}, moves {sorted(map(str, mv))}")
            continue
        (sy, sx, oh, ow), (mx, my) = next(iter(arr)), next(iter(mv))
        # the cell at (y, x) lands where the move (x, y) lands: source of the landing place is (y, x)
        back = (lin(sy.sub({"y": my, "x": mx})), lin(sx.sub({"y": my, "x": mx})))
        rep.check(back == (sym("y"), sym("x")), "tables", f"{name}: a move lands on the cell its square lands on", mov.where(),
                  f"the move (x, y) goes to ({mx}, {my}), where the array holds row {back[0]}, column {back[1]}")
        rep.check((lin(oh), lin(ow)) == (lin(h), lin(w)), "tables", f"{name}: the transformed array has the shape of the board", where, f"{oh} x {ow}")
        maps[name] = (repr(sy).replace("S", "N").replace("H", "N").replace("W", "N"), repr(sx).replace("S", "N").replace("H", "N").replace("W", "N"))
    for a, b in itertools.combinations(sorted(maps), 2):
        rep.check(maps[a] != maps[b], "tables", f"{a} and {b} are different symmetries", app.where(), f"{maps[a]}")
    rep.check(maps.get("IDENTITY") == ("y", "x"), "tables", "IDENTITY changes nothing", app.where(), f"{maps.get('IDENTITY')}")
    # passing stays passing
    it = Geo(P, {"attr": lambda it, o, a: True if isinstance(o, Obj) and o.at.get("mv") and a == "is_pass" else None})
    ps = Obj(None, x=-1, y=-1, mv=1)
    res = [r for r, _ in it.runs(lambda it: it.call_func(it.as_fn(mov), [ps, (H, W)], {}, bound=Obj(S, name="ROTATE_90", value=1)))]
    rep.check(bool(res) and all(r is ps or isinstance(r, Obj) and (r.at.get("x"), r.at.get("y")) == (-1, -1) for r in res), "tables", "a pass stays a pass", mov.where())


def coords(a, h, w):
    """source (row, column) of the cell at (y, x) of the result, and the result's shape"""
    sy, sx = sym("y"), sym("x")      # output -> expressed while walking the operations backwards
    dims = [(h, w)]
    for o in a.ops:
        dh, dw = dims[-1]
        dims.append((dw, dh) if o[0] == "swap" else (dh, dw))
    # walking back: coordinates in the array before operation i
    y, x = sy, sx
    for o, (dh, dw) in zip(reversed(a.ops), reversed(dims[:-1])):
        if o[0] == "flip":
            if o[1] == 0:
                y = lin(lin(dh) + (-1) + lin(y).neg())
            else:
                x = lin(lin(dw) + (-1) + lin(x).neg())
        elif o == ("swap", 0, 1):
            y, x = x, y
        else:
            return f"unknown operation {o[0]}"
    return (lin(y), lin(x)) + tuple(lin(d) for d in dims[-1])


def offers(P, rep, S, members):
    f = S.find("available_symmetries")
    rep.seen(f.qual)
    out = {}
    kinds = sorted({n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.replace("_", "").isalnum() and n.value != "" and len(n.value) < 40})
    swaps = {"ROTATE_90", "ROTATE_270", "FLIP_XY", "FLIP_YX"}
    n = 0
    for kind in kinds:
        for square in (True, False):
            it = Geo(P, {"attr": member_attr(S, members)})
            got = []
            for r, _ in it.runs(lambda it: it.call_func(it.as_fn(f), [(7, 7) if square else (7, 9), kind], {})):
                got.append([m.at["name"] for m in r] if isinstance(r, (list, tuple)) and all(isinstance(m, Obj) and "name" in m.at for m in r) else None)
            what = f"{kind} on a {'square' if square else 'non-square'} board"
            if not got:
                continue
            n += 1
            for g in got:
                if not rep.check(g is not None, "offered", f"{what}: a list of symmetries", f.where(), "not a list of members"):
                    continue
                rep.check(len(set(g)) == len(g), "offered", f"{what}: all different", f.where(), ", ".join(g))
                rep.check("IDENTITY" in g, "offered", f"{what}: includes the identity", f.where(), ", ".join(g))
                rep.check(square or not set(g) & swaps, "offered", f"{what}: keeps the shape", f.where(), ", ".join(sorted(set(g) & swaps)))
                out[(kind, square)] = g
    rep.floor("kinds of symmetry set", n, 5)
    d = out.get(("default", True), [])
    rep.check(set(d) == set(members), "offered", "the default set on a square board has every symmetry", f.where(), ", ".join(sorted(set(members) - set(d))))
    return out


# ---------------------------------------------------------------- primitives for samples and batches
ITERS = (("mine", "b", "c"), ("a", "mine", "c"), ("a", "b", "mine"))


def prims(ITER=ITERS[1]):
    def symlist(it, a, k):
        bs = a[0] if a else k.get("boardsize")
        kind = a[1] if len(a) > 1 else k.get("symmetry_type", "default")
        return Sym("symlist", key(bs), key(kind))

    def attr(it, o, a):
        if isinstance(o, Sym) and o.k[0] == "symm" and a in ("apply_to_array", "apply_to_move"):
            return Sym("bound", o.k, a)
        return None

    def getitem(it, o, i):
        if isinstance(o, Sym) and o.k[0] == "symlist":
            if isinstance(i, Sym) and i.k[0] == "int":
                i = Sym(*i.k[1]) if isinstance(i.k[1], tuple) else i
            return Sym("symm", o.k, key(i))
        return None

    def call(it, f, a, k):
        if isinstance(f, Sym) and f.k[0] == "bound":
            tok = f.k[1]
            if f.k[2] == "apply_to_move":
                return Sym("moved", tok, key(a[1] if len(a) > 1 else k.get("boardsize")), key(a[0] if a else k.get("move")))
            x = a[0] if a else k.get("array")
            ax = (a[1] if len(a) > 1 else k.get("y_dim", -2), a[2] if len(a) > 2 else k.get("x_dim", -1))
            row = x.row if isinstance(x, Batch) else x
            if isinstance(row, Arr):
                n = len(row.shape) + isinstance(x, Batch)
                ok = all(isinstance(v, int) for v in ax) and tuple(v % n for v in ax) == (n - 2, n - 1) and len(row.shape) >= 2
                r = row.op("sym", tok) if ok else row.op("sym on other axes", tok)
                return x.lift(r, own=True) if isinstance(x, Batch) else r
            return Sym("transformed", tok, key(x))
        return None

    def iterate(it, v):
        if isinstance(v, Sym) and v.k[0] == "symlist":
            return [Sym("symm", v.k, ("i", k)) for k in ITER]
        if isinstance(v, Sym) and v.k[0] == "range" and v.k[1] and "symlist" in str(v.k[1]):
            return [Sym("i", k) for k in ITER]
        if isinstance(v, Sym) and v.k[0] == "range":
            return [Sym("i", 0), Sym("i", 1)]
        if isinstance(v, Batch) and v.name and v.name[0] == "draw":
            return [Sym("i", k) for k in ITER]
        if isinstance(v, Sym):
            return [Sym("elem", v.k)]
        return None

    def enum(it, a, k):
        v = a[0]
        if isinstance(v, Sym) and v.k[0] == "symlist":
            return [(Sym("i", x), Sym("symm", v.k, ("i", x))) for x in ITER]
        if isinstance(v, Sym):
            return [(Sym("i", 0), Sym("elem", v.k, 0)), (Sym("i", 1), Sym("elem", v.k, 1))]
        if isinstance(v, (list, tuple)):
            return list(enumerate(v))
        raise Unknown("enumerate")

    def bcmp(it, n, x, y):
        if x.name and x.name[0] == "draw" and isinstance(y, Sym) and y.k[0] == "i" and n in ("Eq", "NotEq"):
            return x.lift((y.k[1] == "mine") == (n == "Eq"), name=("is", n, y.k[1]))
        return None

    def drawn(it, a, k):
        return Batch(Sym("drawn"), None, ("draw", key(a[0])), True)

    def below(it, a, k):
        return (Sym("draw", key(a[0])), Sym("counter"))

    nop = lambda it, a, k: None
    return {f"{DU}.Symmetry.available_symmetries": symlist, "attr": attr, "getitem": getitem, "call": call, "iterate": iterate, "enumerate": enum, "batch_compare": bcmp,
            "dataset.core.validate_field_dict": nop, "dataset.core.uniform_below": below,
            "dataset.decoder._uniform_below_for_packed_processed_rows_v2": drawn, "dataset.decoder._uniform_below_for_processed_sample_keys_v2": drawn,
            "dataset.core._uniform_below_for_packed_processed_rows_v2": drawn, "dataset.core._uniform_below_for_processed_sample_keys_v2": drawn,
            "dataset.core._uniform_below_for_processed_sample_keys": drawn}


def split(a, kind):
    """operations of an array: (sides swapped?, [symmetries and paddings in order]) or a complaint"""
    side, seq = 0, []
    ops = list(a.ops)
    i = 0
    while i < len(ops):
        o = ops[i]
        if kind == "flat" and o == ("cut", 0, (None, -1, None)):
            j = next((j for j in range(i + 1, len(ops)) if ops[j][0] == "join"), None)
            if j is None:
                return "the pass column is cut off and not put back"
            inner = ops[i + 1:j]
            if not inner or inner[0] != ("grid", ("H", "W")) and inner[0][0] != "grid" or inner[-1][0] != "flat":
                return "the board cells are not laid out as a board and back"
            if inner[0][1] != ("H", "W"):
                return f"the board cells are laid out as {' x '.join(inner[0][1])}"
            if tuple(ops[j][1]) != tuple(ops[:i]):
                return "the pass column is not the policy's own"
            for p in inner[1:-1]:
                if p[0] not in ("sym", "pad"):
                    return f"{p[0]} of the policy"
                seq.append(p)
            i = j + 1
            continue
        if o[0] in ("sym", "pad") and kind != "flat":
            seq.append(o)
        elif kind == "board" and o in (("flip", 0), ("take", 0, (1, 0)), ("map", 0, ((0, 1), (1, 0)))):
            side += 1
        elif kind == "value" and o in (("take", 0, (1, 0, 2)), ("map", 0, ((0, 1), (1, 0)))):
            side += 1
        elif kind == "sparse" and o == ("take", 0, SIDE12):
            side += 1
        elif kind == "sparse" and o[0] == "map" and o[1] == 0 and dict(o[2]) == {k: v for k, v in enumerate(SIDE12) if k != v}:
            side += 1
        else:
            return f"{o[0]} {o[1:2]} of the {kind}"
        i += 1
    return side % 2 == 1, seq


def vague(v):
    """a value the interpreter has no description of"""
    return isinstance(v, Sym) and v.k[0] in ("np", "call", "mcall", "concat", "item", "attr", "bin", "un", "partly written", "T", "rowof", "elem", "cmp", "transformed", "g")


# ---------------------------------------------------------------- one sample
def make_sample(flat, sparse, moves, stm):
    d = {"board_size": (H, W), "board_input": Arr("board_input", (2, H, W)), "stm_input": stm, "value_target": Arr("value_target", (3,)),
         "policy_target": Arr("policy_target", (lin(sym("H*W") + 1),)) if flat else Arr("policy_target", (H, W))}
    if sparse:
        d["sparse_feature_input"] = Arr("sparse_feature_input", (12, H, W))
        d["sparse_feature_dim"] = Arr("sparse_feature_dim", (12,))
    if moves is not None:
        d["position"] = [Sym("move", i) for i in range(moves)]
    d["raw_eval"] = Sym("raw_eval")
    return d


def sample(P, rep):
    f = P.cls(f"{DU}:SamplePostProcessor").find("process_sample")
    rep.seen(f.qual)
    n = runs = bad = 0
    out = {}

    def say(ok, rule, text, detail=""):
        if text not in out or out[text][0] and not ok:
            out[text] = (ok, rule, detail)

    for flat, sparse, moves, fixed_side, stm, size, typ, index, drop in itertools.product(
            (False, True), (False, True), (None, 0, 2), (False, True), (-1.0, 0.0, 1.0), (None, 1), (None, False, True, "rotate"), ("given", None), (False, True)):
        if not typ and index is None or stm == 0 and (moves or drop or size) or drop and moves == 0:
            continue
        if bad > 5:
            break
        it = Geo(P, prims())

        def go(it):
            d = make_sample(flat, sparse, moves, stm)
            it.start = d
            it.held = dict(d)
            return it.call_func(it.as_fn(f), [d], {"fixed_side_input": fixed_side, "fixed_board_size": (sym("PH"), sym("PW")) if size else None, "symmetry_type": typ,
                                                   "symmetry_index": sym("index") if index else None, "drop_extra": drop}, bound=Obj(P.cls(f"{DU}:SamplePostProcessor")))
        k = 0
        for r, log in it.runs(go):
            k += 1
            if isinstance(r, Unknown):
                bad += 1      # a form the interpreter does not know: no verdict for this run
                continue
            if not isinstance(r, dict):
                say(False, "sample", "the result of a sample is its fields", f"{r!r}"[:80])
                continue
            runs += 1
            judge_sample(say, r, it, flat, sparse, moves, fixed_side, stm, size, typ, index, drop, log)
        if bad > 5:
            break
        say(k > 0, "sample", "a well-formed sample is accepted", f"flat policy {flat}, features {sparse}, fixed side {fixed_side}, padding {bool(size)}, symmetry {typ!r}")
        n += 1
    for text, (ok, rule, detail) in sorted(out.items()):
        rep.check(ok, rule, text, f.where(), detail)
    if bad <= 5:
        rep.floor("combinations of sample and options", n, 500)


def judge_sample(say, r, it, flat, sparse, moves, fixed_side, stm, size, typ, index, drop, log):
    case = f"policy {'flat' if flat else 'board'}, features {sparse}, side to move {stm}, fixed side {fixed_side}, symmetry {typ!r}, padding {bool(size)}"
    swap = fixed_side and stm > 0
    kinds = [("board_input", "board", "board"), ("policy_target", "flat" if flat else "grid", "policy")] + ([("sparse_feature_input", "sparse", "features")] if sparse and (not drop) else [])
    want_tok = ("symm", ("symlist", key((H, W)), "default" if typ is True else typ), key(sym("index")) if index else ("draw", ("len", ("symlist", key((H, W)), "default" if typ is True else typ)))) if typ else None
    pad = ((("0", repr(lin(sym("PH") + H.neg()))), ("0", repr(lin(sym("PW") + W.neg())))), "constant", 0.0, True)
    for k, kind, name in kinds:
        a = r.get(k)
        if vague(a):
            continue
        if not say2(say, isinstance(a, Arr) and a.field == k, "sample", f"the {name} of the result is made from the {name} of the sample", f"{a!r}"[:90] + "; " + case):
            continue
        s = split(a, kind)
        if not say2(say, not isinstance(s, str), "sample", f"the {name} is only mirrored, rotated, padded or swapped between sides", f"{s}; {case}"):
            continue
        side, seq = s
        syms = [o for o in seq if o[0] == "sym"]
        pads = [o for o in seq if o[0] == "pad"]
        say2(say, [o[1] for o in syms] == ([want_tok] if typ else []), "sample", f"the {name} gets the picked symmetry of the list for its board, once, exactly if augmentation is on",
             f"{'no symmetry' if not syms else f'{len(syms)} symmetries' if len(syms) > 1 else 'another symmetry'}; {case}")
        say2(say, [o[1:] for o in pads] == ([pad] if size else []), "padding", f"the {name} is padded with zeros on the far sides to the fixed size, exactly if there is one", f"{[o[1:] for o in pads]}"[:120] + "; " + case)
        say2(say, not (syms and pads) or seq.index(pads[0]) > seq.index(syms[0]), "padding", f"the {name} is padded after the symmetry", case)
        if kind in ("board", "sparse"):
            say2(say, side == swap, "sample", f"the {name} swaps sides exactly if white is to move and the side is fixed", case)
    v = r.get("value_target")
    if vague(v):
        return
    s = split(v, "value") if isinstance(v, Arr) and v.field == "value_target" else "not the value of the sample"
    if say2(say, not isinstance(s, str), "sample", "the value of the result is the sample's", f"{s}; {case}"):
        say2(say, s[0] == swap and not s[1], "sample", "win and loss are swapped exactly if white is to move and the side is fixed", case)
    say2(say, r.get("stm_input") == stm, "sample", "the side to move is kept", case)
    say2(say, key(r.get("board_size")) == key((H, W)), "sample", "the board size is kept", case)
    if moves is not None and not drop:
        mv = [("moved", want_tok, key((H, W)), ("move", i)) if typ else ("move", i) for i in range(moves)]
        say2(say, key(r.get("position_string")) == ("join", "", tuple(("str", m) for m in mv)), "sample", "the rendered moves are the moves under the same symmetry, all of them and in order", f"{key(r.get('position_string'))}"[:100] + "; " + case)
        lm = r.get("last_move")
        want = ("attr", mv[-1], "pos") if moves else None
        say2(say, key(lm) == want if moves else key(lm) in ((-1, -1),), "sample", "the last move is the last of them, or none", f"{key(lm)}"[:100] + "; " + case)
    if not drop:
        say2(say, r.get("raw_eval") == Sym("raw_eval") and (not sparse or isinstance(r.get("sparse_feature_dim"), Arr) and not r["sparse_feature_dim"].ops), "sample", "other fields are kept as they are", case)
    for w in log:
        say2(say, w[0] != "write" or w[1], "stored", "an array is copied before it is written to", f"{w[2][:60]}; {case}")
    say2(say, all(it.start.get(k) is v for k, v in it.held.items()) and len(it.start) == len(it.held), "stored", "the caller's sample keeps its fields", case)


def say2(say, ok, rule, text, detail):
    say(bool(ok), rule, text, detail)
    return ok


# ---------------------------------------------------------------- the vectorised reader
def batch(P, rep):
    done = 0
    for c in sorted(P.classes(), key=lambda c: c.name):
        f = c.methods.get("_post_process_vectorized")
        if f is None:
            continue
        done += 1
        one_batch(P, rep, c, f)
    if not done:      # the scalar path serves every batch then
        rep.ok("batch", "no vectorised augmentation")


def one_batch(P, rep, c, f):
    rep.seen(f.qual)
    out, runs = {}, 0

    def say(ok, rule, text, detail=""):
        if text not in out or out[text][0] and not ok:
            out[text] = (ok, rule, detail)

    for flat, fixed_side, stm, typ, order in itertools.product((False, True), (False, True), (-1.0, 0.0, 1.0), (False, True, "rotate"), ITERS):
        if not typ and order != ITERS[0]:
            continue
        it = Geo(P, prims(order))

        def go(it):
            d = {"board_size": Batch(Arr("board_size", (2,)), None, "board_size"), "board_input": Batch(Arr("board_input", (2, H, W)), None, "board_input"),
                 "stm_input": Batch(stm, None, "stm_input"), "value_target": Batch(Arr("value_target", (3,)), None, "value_target"),
                 "policy_target": Batch(Arr("policy_target", (lin(sym("H*W") + 1),)) if flat else Arr("policy_target", (H, W)), None, "policy_target")}
            me = Obj(c, fixed_side_input=fixed_side, apply_symmetry=typ, fixed_board_size=None, has_pass_move=flat)
            return it.call_func(it.as_fn(f), [d, Sym("refs")], {}, bound=me)
        k = 0
        case = f"policy {'flat' if flat else 'board'}, side to move {stm}, fixed side {fixed_side}, symmetry {typ!r}"
        for r, log in it.runs(go):
            k += 1
            if isinstance(r, Unknown) or vague(r):
                continue
            if not say2(say, isinstance(r, dict), "batch", "the result of a batch is its fields", f"{r!r}"[:80]):
                continue
            runs += 1
            swap = fixed_side and stm > 0
            kind = "default" if typ is True else typ
            for q, sh, name in (("board_input", "board", "board"), ("policy_target", "flat" if flat else "grid", "policy")):
                b = r.get(q)
                a = b.row if isinstance(b, Batch) and b.sel is None else None
                if vague(b) or vague(a):
                    continue
                if not say2(say, isinstance(a, Arr) and a.field == q, "batch", f"a row's {name} is made from that row's {name}", f"{getattr(b, 'row', b)!r}"[:90] + "; " + case):
                    continue
                s = split(a, sh)
                if not say2(say, not isinstance(s, str), "batch", f"a row's {name} is only mirrored, rotated or swapped between sides", f"{s}; {case}"):
                    continue
                got = [o[1] for o in s[1]]
                ok = len(got) == 1 and got[0][0] == "symm" and got[0][2] == ("i", "mine") and got[0][1][:1] == ("symlist",) and got[0][1][1:] == (key((H, W)), kind) if typ else not got
                say2(say, ok, "batch", f"a row's {name} gets exactly the symmetry drawn for that row", f"{'none' if not got else 'another one' if len(got) == 1 else str(len(got))}; {case}")
                if sh == "board":
                    say2(say, s[0] == swap, "batch", "a row's board swaps sides exactly if white is to move and the side is fixed", case)
            b = r.get("value_target")
            if vague(b) or isinstance(b, Batch) and vague(b.row):
                continue
            s = split(b.row, "value") if isinstance(b, Batch) and isinstance(b.row, Arr) and b.row.field == "value_target" and b.sel is None else "not that row's value"
            if say2(say, not isinstance(s, str), "batch", "a row's value is that row's", f"{s}; {case}"):
                say2(say, s[0] == swap and not s[1], "batch", "a row's win and loss are swapped exactly if white is to move and the side is fixed", case)
            b = r.get("stm_input")
            say2(say, isinstance(b, Batch) and b.row == stm, "batch", "a row's side to move is kept", case)
            for w in log:
                say2(say, w[0] != "write" or w[1], "stored", "a batch array is copied before it is written to", f"{w[2][:60]}; {case}")
        say(k > 0, "batch", "a well-formed batch is accepted", case)
    for text, (ok, rule, detail) in sorted(out.items()):
        rep.check(ok, rule, f"{c.name}: {text}", f.where(), detail)


# ---------------------------------------------------------------- row by row
def rows(P, rep):
    c = P.cls(f"{DU}:SamplePostProcessor")
    f = c.find("process_batch")
    rep.seen(f.qual)
    out, runs, bad = {}, 0, 0

    def say(ok, rule, text, detail=""):
        if text not in out or out[text][0] and not ok:
            out[text] = (ok, rule, detail)

    fields = ("board_size", "board_input", "stm_input", "value_target", "policy_target")
    for fixed_side, typ, drawn in itertools.product((False, True), (None, "rotate"), (False, True)):
        pr = prims()
        seen = []

        def one(it, a, k):
            names = ("self", "data", "fixed_side_input", "fixed_board_size", "symmetry_type", "symmetry_index", "drop_extra")
            kw = dict(zip(names, a))
            kw.update(k)
            seen.append(kw)
            i = len(seen) - 1
            return {q: Sym("out", i, q) for q in fields}
        pr[c.find("process_sample").qual] = one
        def getitem(it, o, i, old=pr["getitem"]):
            if isinstance(o, Sym) and o.k == ("g", "dataset.core.FIELD_SPECS"):
                return Sym("spec", i)
            return old(it, o, i)
        pr["getitem"] = getitem
        pr["isinstance"] = lambda it, a, k: "ndarray" in str(key(a[1]))
        pr["attr"] = lambda it, o, a, old=pr["attr"]: "batch" if a == "scope" and isinstance(o, Sym) else old(it, o, a)
        it = Geo(P, pr)

        def go(it):
            seen.clear()
            d = {q: Batch(Arr(q, (H, W)), None, q) for q in fields}
            it.d = d
            kw = {"fixed_side_input": fixed_side, "symmetry_type": typ, "symmetry_indices": Batch(Sym("indices"), None, "indices") if drawn else None}
            r = it.call_func(it.as_fn(f), [d], kw, bound=Obj(c))
            return r, list(seen)
        for r, log in it.runs(go):
            case = f"fixed side {fixed_side}, symmetry {typ!r}, indices {'given' if drawn else 'absent'}"
            if isinstance(r, Unknown):
                bad += 1
                continue
            res, kws = r
            runs += 1
            if not fixed_side and not typ:
                ok = isinstance(res, dict) and all(isinstance(res.get(q), Batch) and isinstance(res[q].row, Arr) and not res[q].row.ops and res[q].row.field == q for q in fields)
                say(ok or bool(kws), "rows", "nothing to do leaves the batch as it is", case)
                continue
            say(len(kws) == 2, "rows", "each row is processed once", f"{len(kws)} calls for two rows; {case}")
            for i, kw in enumerate(kws):
                d = kw.get("data")
                ok = isinstance(d, dict) and set(d) == set(fields)
                say(ok, "rows", "each row is processed with all its fields", case)
                if ok:
                    for q, v in d.items():
                        say(isinstance(v, Sym) and v.k[0] == "rowof" and v.k[1] == key(it.d[q]) and v.k[2] == ("i", i), "rows", f"row's {q} is row i of the batch's {q}", f"{key(v)}"[:100])
                say(kw.get("fixed_side_input", False) == fixed_side, "rows", "each row gets the side option", case)
                say(kw.get("symmetry_type") == typ, "rows", "each row gets the symmetry option", case)
                s = kw.get("symmetry_index")
                want = ("rowof", key(Batch(Sym("indices"), None, "indices")), ("i", i)) if drawn else None
                say(key(s) == want or isinstance(s, Sym) and s.k == ("int", want), "rows", "each row gets its own symmetry index", f"{key(s)}; {case}")
                say(kw.get("fixed_board_size") is None and not kw.get("drop_extra"), "rows", "rows are not padded or stripped on the way", case)
            say(isinstance(res, dict), "rows", "the result of a batch is its fields", f"{res!r}"[:80])
            if isinstance(res, dict):
                for q in fields:
                    t = str(key(res.get(q)))
                    a, b = t.find(f"('out', 0, '{q}')"), t.find(f"('out', 1, '{q}')")
                    say(0 <= a < b, "rows", f"the batch's {q} is the rows' {q} in their order", t[:80])
    for text, (ok, rule, detail) in sorted(out.items()):
        rep.check(ok, rule, text, f.where(), detail)
    if all(v[0] for v in out.values()) and not bad:
        rep.floor("row runs", runs, 6)


# ---------------------------------------------------------------- the readers
OPT = {"fixed_side_input": ("fixed_side_input",), "fixed_board_size": ("fixed_board_size",), "symmetry_type": ("apply_symmetry",)}


def sites(P, rep):
    n, passed = 0, {}
    target = {f.qual: f for f in P.all_funcs if f.module.name == DU and f.name in ("post_process_data", "post_process_batch")}
    for f in P.all_funcs:
        if f.module.name == DU:
            continue
        for e in own_nodes(f.node):
            if not isinstance(e, ast.Call):
                continue
            d = f.module.resolve(dotted(e.func) or "")
            q = getattr(d, "qual", d)
            t = target.get(q)
            if t is None:
                from_local = [v for k, v in target.items() if isinstance(e.func, ast.Name) and e.func.id == v.name]
                t = from_local[0] if from_local else None
            if t is None:
                continue
            n += 1
            rep.seen(f.qual)
            bound = dict(zip(t.params, e.args))
            bound.update({k.arg: k.value for k in e.keywords if k.arg})
            got = passed.setdefault(f.cls or f, {})
            for p, names in OPT.items():
                v = bound.get(p)
                if v is None or isinstance(v, ast.Constant) and v.value in (None, False):
                    continue
                src = set(resolve(f, v))
                got.setdefault(p, f.where(e))
                other = src & {x for q, xs in OPT.items() if q != p for x in xs}
                rep.check(not isinstance(v, ast.Constant) and (bool(src & set(names)) or not other), "options", f"{f.qual.split('.', 1)[-1]}: {p}", f.where(e),
                          f"is taken from {', '.join(sorted(src)) or ast.unparse(v)[:60]}")
    once(P, rep, target)
    for c, got in passed.items():
        if not hasattr(c, "mro"):
            continue
        has = {x.attr for k in c.mro for m in k.methods.values() for x in own_nodes(m.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        for p, names in OPT.items():
            if has & set(names):
                rep.check(p in got, "options", f"{c.name}: {names[0]} reaches the post-processor", next(iter(got.values()), ""), "is a field of the reader that no call of the post-processor is given")
    rep.floor("calls of the post-processor", n, 7)


def once(P, rep, target):
    """a record with moves is transformed in one pass: the pass that consumes the moves is the one that gets the symmetry"""
    n = 0
    for m in P.modules.values():
        if m.name == DU or not any(isinstance(x, ast.Dict) and any(isinstance(k, ast.Constant) and k.value == "position" for k in x.keys) for x in ast.walk(m.tree)):
            continue
        funcs = [f for f in P.all_funcs if f.module is m]
        names = {t.name for t in target.values()}
        sites = [(f, e) for f in funcs for e in own_nodes(f.node) if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in names]
        through = {f.name for f, _ in sites}
        while True:
            more = {f.name for f in funcs if f.name not in through and any(isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] in through for e in own_nodes(f.node))}
            if not more:
                break
            through |= more
        for f, e in sites:
            n += 1
            arg = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg == "data"), None)
            again = sorted({c for c in made_by(f, arg) if c in through} | {c for c in made_by(f, arg) if c in names})
            rep.check(not again, "once", f"{f.qual.split('.', 1)[-1]}: the record is transformed once, while it has its moves", f.where(e), f"is given the finished sample of {', '.join(again)}")
    rep.floor("readers of records with moves", n, 2)


def made_by(f, v, depth=4, before=None):
    """names of the calls a value was made by, through local names"""
    out = set()
    for x in ast.walk(v) if v is not None else ():
        if isinstance(x, ast.Call):
            out.add((dotted(x.func) or "").split(".")[-1])
        elif isinstance(x, ast.Name) and depth:
            for s in own_nodes(f.node):
                if isinstance(s, ast.Assign) and s.value is not before and any(isinstance(t, ast.Name) and t.id == x.id for t in s.targets) and not any(y is v or y is x for y in ast.walk(s.value)):
                    out |= made_by(f, s.value, depth - 1)
    return out


def resolve(f, v, depth=4):
    out = set()
    for x in ast.walk(v):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
            out.add(x.attr)
        elif isinstance(x, ast.Name) and depth:
            for s in ast.walk(f.node):
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in s.targets):
                    out.update(resolve(f, s.value, depth - 1))
            if x.id in f.all_params:
                out.add(x.id)
    return sorted(out)
