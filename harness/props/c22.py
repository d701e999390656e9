"""C22: printing and re-reading program text preserves its meaning."""
import ast, glob, os, warnings
from hypothesis import strategies as st

from .. import dl, env, world
from ..core import Sub, Violation
from . import c01

PROPERTY = "C22"
RULE = ("A case is a Python expression or module from a grammar (all operators, calls, comprehensions, literals, f-strings, functions, classes, control flow), or a decision "
        "logic of the C01 grammar; non-trivial when the tree has at least six nodes.")
ASSUMPTIONS = ["programs are what Python's own parser accepts; coroutines, generators with yield, match statements and type parameters are left out; so are expressions nested deeper than the parser's limit of 200 parentheses"]

names = st.sampled_from(["ego", "others", "x", "vx", "o", "lane_map", "Mode"])
texts = st.one_of(st.sampled_from(["", "a", "it's", 'say "x"', "a\nb", "{", "}", "\\n", "\\", "'''", '"""', "é", "a'b\"c", "tab\t", "#", "%s"]), st.text(max_size=4))


def const(draw):
    v = draw(st.one_of(st.integers(0, 20), st.floats(0, 100, allow_nan=False), st.sampled_from([0.1, 1e20, 1e-7, 1e400, 2.0, 10 ** 30, 3j]), st.booleans(), st.none(), texts,
                       st.binary(max_size=3), st.just(Ellipsis)))
    return ast.Constant(v)


def args(draw, d):
    k = draw(st.integers(0, 3))
    pos = [ast.arg("p%d" % i, expr(draw, 0) if draw(st.booleans()) else None) for i in range(k)]
    po = draw(st.integers(0, k)) if draw(st.integers(0, 3)) == 0 else 0
    nd = draw(st.integers(0, k))
    kw = [ast.arg("k%d" % i, None) for i in range(draw(st.sampled_from([0, 0, 1, 2])))]
    return ast.arguments(posonlyargs=pos[:po], args=pos[po:], vararg=ast.arg("va", None) if draw(st.integers(0, 4)) == 0 else None, kwonlyargs=kw,
                         kw_defaults=[expr(draw, d - 1) if draw(st.booleans()) else None for _ in kw], kwarg=ast.arg("kwa", None) if draw(st.integers(0, 4)) == 0 else None,
                         defaults=[expr(draw, d - 1) for _ in range(nd)])


def bare(a):
    """lambda takes no annotations"""
    for x in a.posonlyargs + a.args:
        x.annotation = None
    return a


def comps(draw, d):
    return [ast.comprehension(target(draw), expr(draw, d - 1), [expr(draw, d - 1) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))], 0)
            for _ in range(draw(st.sampled_from([1, 1, 2])))]


def target(draw):
    k = draw(st.integers(0, 5))
    n = ast.Name(draw(names), ast.Store())
    if k == 0:
        return ast.Tuple([n, ast.Name("y", ast.Store())], ast.Store())
    return n


def index(draw, d):
    k = draw(st.integers(0, 4))

    def sl():
        return ast.Slice(*[expr(draw, d - 1) if draw(st.booleans()) else None for _ in range(3)])
    if k == 0:
        return sl()
    if k == 1:
        return ast.Tuple([sl() if draw(st.booleans()) else expr(draw, d - 1) for _ in range(draw(st.integers(1, 3)))], ast.Load())
    return expr(draw, d - 1)


def joined(draw, d, spec=False):
    out = []
    for _ in range(draw(st.integers(0 if not spec else 1, 3))):
        if draw(st.booleans()):
            t = draw(texts) if not spec else draw(st.sampled_from([">", "5", ".2f", "x"]))
            if t:
                out.append(ast.Constant(t))
        else:
            out.append(ast.FormattedValue(expr(draw, d - 1 if not spec else 0), draw(st.sampled_from([-1, 115, 114, 97])),
                                          joined(draw, 0, True) if not spec and draw(st.integers(0, 3)) == 0 else None))
    return ast.JoinedStr(out)


BIN = [ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Mod, ast.Pow, ast.FloorDiv, ast.MatMult, ast.LShift, ast.RShift, ast.BitOr, ast.BitXor, ast.BitAnd]
CMP = [ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Is, ast.IsNot, ast.In, ast.NotIn]


def expr(draw, d):
    if d <= 0:
        return ast.Name(draw(names), ast.Load()) if draw(st.booleans()) else const(draw)
    k = draw(st.integers(0, 21))

    def e():
        return expr(draw, d - 1)

    def es(lo, hi=3):
        out = []
        for _ in range(draw(st.integers(lo, hi))):
            x = e()
            out.append(ast.Starred(x, ast.Load()) if draw(st.integers(0, 7)) == 0 else x)
        return out
    if k <= 3:
        return ast.BinOp(e(), draw(st.sampled_from(BIN))(), e())
    if k <= 5:
        n = draw(st.integers(1, 3))
        return ast.Compare(e(), [draw(st.sampled_from(CMP))() for _ in range(n)], [e() for _ in range(n)])
    if k <= 7:
        return ast.BoolOp(draw(st.sampled_from([ast.And, ast.Or]))(), [e() for _ in range(draw(st.integers(2, 3)))])
    if k <= 9:
        return ast.UnaryOp(draw(st.sampled_from([ast.Not, ast.USub, ast.UAdd, ast.Invert]))(), e())
    if k == 10:
        return ast.IfExp(e(), e(), e())
    if k == 11:
        return ast.Lambda(bare(args(draw, d)), e())
    if k == 12:
        return draw(st.sampled_from([ast.GeneratorExp, ast.ListComp, ast.SetComp]))(e(), comps(draw, d))
    if k == 13:
        kw = [ast.keyword(draw(st.sampled_from(["a", "b", None])), e()) for _ in range(draw(st.integers(0, 2)))]
        seen = [x for i, x in enumerate(kw) if x.arg is None or x.arg not in [y.arg for y in kw[:i]]]
        return ast.Call(e(), es(0), seen)
    if k == 14:
        return ast.Attribute(e(), draw(st.sampled_from(["x", "agent_mode", "real"])), ast.Load())
    if k == 15:
        return ast.Subscript(e(), index(draw, d), ast.Load())
    if k == 16:
        return ast.Tuple(es(0), ast.Load())
    if k == 17:
        return ast.List(es(0), ast.Load())
    if k == 18:
        n = draw(st.integers(0, 3))
        return ast.Dict([e() if draw(st.integers(0, 4)) else None for _ in range(n)], [e() for _ in range(n)])
    if k == 19:
        return joined(draw, d)
    if k == 20:
        return ast.NamedExpr(ast.Name(draw(names), ast.Store()), e()) if draw(st.booleans()) else ast.Set(es(1))
    return ast.Call(ast.Name(draw(st.sampled_from(["any", "all", "sum"])), ast.Load()), [ast.GeneratorExp(e(), comps(draw, d))], [])


def block(draw, d, loop=False, fn=False):
    return [stmt(draw, d - 1, loop, fn) for _ in range(draw(st.integers(1, 3)))]


def stmt(draw, d, loop=False, fn=False):
    def e():
        return expr(draw, 2)

    def t():
        k = draw(st.integers(0, 3))
        return ast.Attribute(ast.Name(draw(names), ast.Load()), "y", ast.Store()) if k == 0 else ast.Subscript(ast.Name(draw(names), ast.Load()), index(draw, 1), ast.Store()) if k == 1 else target(draw)
    k = draw(st.integers(0, 18 if d > 0 else 10))
    if k <= 1:
        return ast.Assign([t() for _ in range(draw(st.integers(1, 2)))], e())
    if k == 2:
        return ast.AugAssign(ast.Name(draw(names), ast.Store()), draw(st.sampled_from(BIN))(), e())
    if k == 3:
        n = draw(st.booleans())
        return ast.AnnAssign(ast.Name(draw(names), ast.Store()) if n else ast.Attribute(ast.Name("ego", ast.Load()), "x", ast.Store()), expr(draw, 1), e() if draw(st.booleans()) else None,
                             draw(st.integers(0, 1)) if n else 0)
    if k == 4:
        return ast.Assert(e(), e() if draw(st.booleans()) else None)
    if k == 5:
        return ast.Expr(e())
    if k == 6:
        return ast.Return(e() if draw(st.booleans()) else None) if fn else ast.Pass()
    if k == 7:
        return ast.Import([ast.alias("copy", draw(st.sampled_from([None, "c"])))])
    if k == 8:
        return ast.ImportFrom(draw(st.sampled_from(["enum", "a.b"])), [ast.alias("Enum", None), ast.alias("auto", draw(st.sampled_from([None, "q"])))], draw(st.integers(0, 2)))
    if k == 9:
        return draw(st.sampled_from([ast.Break, ast.Continue]))() if loop else ast.Delete([ast.Attribute(ast.Name("ego", ast.Load()), "x", ast.Del())])
    if k == 10:
        return ast.Raise(*draw(st.sampled_from([(None, None), (ast.Name("x", ast.Load()), None), (ast.Name("x", ast.Load()), ast.Name("vx", ast.Load()))])))
    if k <= 13:
        return ast.If(e(), block(draw, d, loop, fn), block(draw, d, loop, fn) if draw(st.booleans()) else [])
    if k == 14:
        return ast.For(target(draw), e(), block(draw, d, True, fn), block(draw, d, loop, fn) if draw(st.integers(0, 2)) == 0 else [])
    if k == 15:
        return ast.While(e(), block(draw, d, True, fn), block(draw, d, loop, fn) if draw(st.integers(0, 2)) == 0 else [])
    if k == 16:
        deco = [expr(draw, 1) for _ in range(draw(st.sampled_from([0, 0, 1])))]
        return ast.FunctionDef("f", args(draw, 1), block(draw, d, False, True), deco, expr(draw, 1) if draw(st.booleans()) else None, type_params=[])
    if k == 17:
        return ast.ClassDef("C", [ast.Name("Enum", ast.Load())] if draw(st.booleans()) else [], [ast.keyword("metaclass", ast.Name("x", ast.Load()))] if draw(st.integers(0, 3)) == 0 else [],
                            block(draw, d), [], type_params=[])
    if draw(st.booleans()):
        h = [ast.ExceptHandler(ast.Name("ValueError", ast.Load()), draw(st.sampled_from([None, "e"])), block(draw, d, loop, fn)) for _ in range(draw(st.integers(0, 2)))]
        fin = block(draw, d, loop, fn) if not h or draw(st.booleans()) else []
        return ast.Try(block(draw, d, loop, fn), h, block(draw, d, loop, fn) if h and draw(st.booleans()) else [], fin)
    return ast.With([ast.withitem(e(), ast.Name("w", ast.Store()) if draw(st.booleans()) else None) for _ in range(draw(st.integers(1, 2)))], block(draw, d, loop, fn))


def source(tree):
    """Program text by Python's own printer, if Python reads it back."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            text = ast.unparse(ast.fix_missing_locations(tree))
            ast.parse(text)
            return text
        except (SyntaxError, ValueError):
            return None


@st.composite
def exprs(draw):
    return {"text": source(ast.Expression(expr(draw, draw(st.integers(1, 4)))))}


@st.composite
def modules(draw):
    return {"text": source(ast.Module([stmt(draw, draw(st.integers(0, 3))) for _ in range(draw(st.integers(1, 3)))], []))}


def count(t):
    return sum(1 for _ in ast.walk(t))


def reread(tree, text, mode="exec"):
    from verse.parser import unparse
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = unparse(tree)
        try:
            again = ast.parse(out.strip("\n"), mode=mode)
        except (SyntaxError, ValueError) as e:
            if "too many nested parentheses" in str(e):
                return None
            raise Violation("printed text cannot be read back (%s):\n%s\nprinted from:\n%s" % (e, out, text))
    if ast.dump(again) != ast.dump(tree):
        raise Violation("printed text reads back differently:\n%s\nprinted from:\n%s" % (out, text))
    return out


def check_text(case, mode):
    if case["text"] is None:
        return None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tree = ast.parse(case["text"], mode=mode)
    reread(tree, case["text"], mode)
    if count(tree) < 6:
        return None
    kinds = {type(n).__name__ for n in ast.walk(tree)}
    return sorted(kinds & {"BinOp", "Compare", "BoolOp", "UnaryOp", "IfExp", "Lambda", "GeneratorExp", "Call", "Subscript", "JoinedStr", "If", "For", "While", "FunctionDef", "ClassDef", "Try", "With", "Assert", "Dict", "NamedExpr"})


def check_files(case):
    fs = sorted(f for d in ("demo", "tests", "verse") for f in glob.glob("%s/%s/**/*.py" % (env.REPO, d), recursive=True))
    f = fs[int(case["f"] * len(fs))]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            text = open(f, encoding="utf8").read()
            tree = ast.parse(text)
    except (SyntaxError, ValueError):
        return None
    if any(type(n).__name__ in ("Match", "TryStar", "TypeAlias") for n in ast.walk(tree)):
        return None
    if reread(tree, os.path.relpath(f, env.REPO)) is None:
        return None
    return [os.path.relpath(f, env.REPO).split("/")[0]]


def check_logic(case):
    """A decision logic printed and loaded again has the same paths, assertions and definitions, and the same transitions."""
    from verse.parser.parser import ControllerIR
    from verse.parser import unparse
    prog = case["prog"]
    text = dl.render(prog)
    printed = reread(ast.parse(text), text)
    a, b = ControllerIR.parse(code=text), ControllerIR.parse(code=printed)
    for what, f in (("paths", lambda c: [(unparse(p.cond_veri), p.var, unparse(p.val_veri)) for p in c.paths]),
                    ("assertions", lambda c: [(unparse(x.cond), x.label, [unparse(p) for p in x.pre]) for x in c.asserts]),
                    ("states", lambda c: {k: (v.cont, v.disc, v.static) for k, v in c.state_defs.items()}), ("modes", lambda c: {k: v.modes for k, v in c.mode_defs.items()})):
        x, y = f(a), f(b)
        if x != y:
            raise Violation("the printed decision logic has the %s\n%s\ninstead of\n%s\n%s" % (what, y, x, printed))
    # the transitions of the printed text are the ones of the original program
    fails, want = c01.ref_of(case).transitions()
    sp = c01.spec_of(case)
    sc = world.build(sp, text=printed)
    got = set()
    tree = sc.simulate(1.0, 1.0, max_height=2)
    eid = "ag%d" % case["ego"]
    for ch in tree.root.child:
        got.add((tuple(ch.mode[eid]), tuple(float(v) for v in ch.init[eid])))
    if got != want:
        raise Violation("transitions of the printed text are %s, of the program %s\n%s" % (sorted(got), sorted(want), printed))
    # what is printed of a path's condition reads back as that condition
    for p in a.paths:
        for v in (p.cond_veri, p.val_veri):
            if v is not None and not any(type(n).__name__ == "Reduction" for n in ast.walk(v)):
                reread(ast.Expression(v), text, "eval")
    return ["transitions"] if want else ["no transition"]


def subs():
    return [Sub("expressions", exprs(), lambda c: check_text(c, "eval"), 6000), Sub("modules", modules(), lambda c: check_text(c, "exec"), 2500),
            Sub("files", st.fixed_dictionaries({"f": st.floats(0, 1, exclude_max=True)}), check_files, 250),
            Sub("decision logics", c01.cases(), check_logic, 700)]
