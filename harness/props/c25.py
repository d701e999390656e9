"""C25: the fixed-point test on reach-tube trees."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import dl, world
from ..core import Sub, Violation, sized, TooBig
from . import c07

PROPERTY = "C25"
RULE = ("A case is two families of boxes, or a reach-tube tree (built by hand with branching, modes, branches ended early and nodes not expanded; or computed by verify for "
        "generated scenarios); non-trivial when late states and earlier states in the same modes exist.")
ASSUMPTIONS = ["rows 2i and 2i+1 of a tube are the corners of one box, as verify produces them",
               "late means the last time step before the horizon; when no branch reaches the horizon, the case is trivial"]


# ---------------------------------------------------------------- oracle

def covered(box, boxes):
    """Is the closed box inside the union of the closed boxes?  Exact: the union is closed, so it is enough that it covers every open cell
    of the grid spanned by the boxes' bounds inside the box."""
    lo, hi = box
    boxes = [b for b in boxes if all(l <= h and bl <= h and l <= bh for l, h, bl, bh in zip(lo, hi, *b))]
    return _covered(lo, hi, boxes, 0)


def _covered(lo, hi, boxes, d):
    if not boxes:
        return False
    if d == len(lo):
        return True
    if lo[d] == hi[d]:
        pts = [Fraction(lo[d])]
    else:
        cuts = sorted({lo[d], hi[d]} | {v for b in boxes for v in (b[0][d], b[1][d]) if lo[d] < v < hi[d]})
        pts = [(Fraction(x) + Fraction(y)) / 2 for x, y in zip(cuts, cuts[1:])]
    return all(_covered(lo, hi, [b for b in boxes if b[0][d] <= p <= b[1][d]], d + 1) for p in pts)


# ---------------------------------------------------------------- containment of families of boxes

grid = st.integers(-3, 3).map(float)
nums = st.one_of(grid, grid, grid, st.integers(-8, 8).map(lambda i: i / 10), st.sampled_from([1e-7, -1e-9, 2.5e-12, 1e7, 123456.789, -0.0]))


@st.composite
def families(draw):
    n = draw(st.integers(1, 3))
    wide = draw(st.booleans())
    v = nums if wide else grid

    def one():
        c = [sorted([draw(v), draw(v)]) for _ in range(n)]
        if draw(st.integers(0, 5)) == 0:
            c[0][1] = c[0][0]
        return [[x[0] for x in c], [x[1] for x in c]]

    def pieces(b):
        """The box cut into two or four parts, possibly one of them lost."""
        out = [b]
        for _ in range(draw(st.integers(1, 2))):
            d = draw(st.integers(0, n - 1))
            nxt = []
            for lo, hi in out:
                m = (lo[d] + hi[d]) / 2
                h2, l2 = list(hi), list(lo)
                h2[d] = m
                l2[d] = m
                nxt += [[lo, h2], [l2, hi]]
            out = nxt
        if draw(st.integers(0, 2)) == 0:
            out.pop(draw(st.integers(0, len(out) - 1)))
        return out

    def fam(k):
        return [[one() for _ in range(draw(st.integers(0 if i else 1, 3)))] for i in range(k)]

    r1 = fam(draw(st.integers(1, 2)))
    r2 = fam(draw(st.integers(1, 3)))
    if draw(st.integers(0, 2)) > 0:
        for f in r1:
            for b in f:
                r2[draw(st.integers(0, len(r2) - 1))].extend(pieces(b))
    if draw(st.integers(0, 9)) == 0:
        r2 = []
    return {"r1": r1, "r2": r2, "none": draw(st.booleans())}


def as_dict(fam, none):
    d = {}
    for i, f in enumerate(fam):
        rows = [list(c) for b in f for c in b]
        if rows:
            d[len(d)] = rows
    if none or not d:  # reach_at_fix leaves such an entry for a node without states
        d[len(d)] = None
    return d


def check_families(case):
    from verse.utils.fixed_points import contain_all_fix
    b1 = [b for f in case["r1"] for b in f]
    b2 = [b for f in case["r2"] for b in f]
    bad = [b for b in b1 if not covered(b, b2)]
    got = contain_all_fix(as_dict(case["r1"], case["none"]), as_dict(case["r2"], not case["none"]))
    if bool(got) != (not bad):
        raise Violation("containment of the boxes %s in %s is %s, %s" % (b1, b2, got, "but %s is not covered" % bad[0] if bad else "but they are all covered"))
    return ["contained" if not bad else "not"] if b2 else None


# ---------------------------------------------------------------- trees

class _Agent:
    pass


def make_tree(nodes, ids):
    from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode, AnalysisTreeNodeType
    made = []
    for n in nodes:
        made.append(AnalysisTreeNode(trace={a: np.array(t, dtype=float) for a, t in n["trace"].items()}, init={}, child=[], mode={a: tuple(m) for a, m in n["mode"].items()}, static={}, uncertain_param={},
                                     agent={a: _Agent() for a in ids}, height=n["height"], assert_hits={}, type=AnalysisTreeNodeType.REACH_TUBE, ndigits=10, start_time=n["start"], id=len(made)))
    for n, m in zip(nodes, made):
        m.child = [made[k] for k in n["kids"]]
    return AnalysisTree(made[0])


MODES = ["A", "B"]


@st.composite
def tree_cases(draw):
    ids = ["a0", "a1"][:draw(st.sampled_from([1, 1, 2]))]
    dims = {a: draw(st.integers(1, 2 if len(ids) == 1 else 1)) for a in ids}
    nmode = {a: draw(st.sampled_from([1, 1, 2])) for a in ids}
    dt = draw(st.sampled_from([0.25, 0.1, 1.0, 0.01, 0.05]))
    N = draw(st.integers(2, 6))
    T = N * dt
    v = draw(st.sampled_from([st.integers(0, 2), st.integers(0, 3), st.sampled_from([0, 0.5, 1, 1e-6])]))
    nodes = []

    def node(k0, start, height):
        me = {"mode": {a: [draw(st.sampled_from(MODES)) for _ in range(nmode[a])] for a in ids}, "trace": {}, "kids": [], "start": start, "height": height}
        at = len(nodes)
        nodes.append(me)
        last = N
        end = draw(st.sampled_from(["full", "full", "full", "early", "none"])) if height else "full"
        if end == "none":  # not expanded; some agents' tubes may still be there
            keep = draw(st.lists(st.sampled_from(ids), max_size=len(ids) - 1)) if len(ids) > 1 else []
        else:
            keep = ids
            if end == "early":
                last = draw(st.integers(k0 + 1, N))
        ts = [start]
        # as the tube computations accumulate it
        style = draw(st.booleans())
        for i in range(1, last - k0 + 1):
            ts.append(ts[-1] + dt if style else start + i * dt)
        for a in keep:
            rows = []
            for i in range(last - k0):
                c = [sorted([float(draw(v)), float(draw(v))]) for _ in range(dims[a])]
                rows += [[ts[i]] + [x[0] for x in c], [ts[i + 1]] + [x[1] for x in c]]
            me["trace"][a] = rows
        if end == "none":
            return at
        if height < 3:
            for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2])) if len(nodes) < 6 else 0):
                k = draw(st.integers(k0, last - 1))
                if k < N:
                    me["kids"].append(node(k, ts[k - k0], height + 1))
        return at

    node(0, 0.0, 0)
    return {"ids": ids, "nodes": nodes, "T": T, "dt": dt}


def steps(tree, ids):
    """(start, end, modes, lo, hi) of every joint box in the tree."""
    out = []
    for n in tree.nodes:
        if any(a not in n.trace or len(n.trace[a]) == 0 for a in ids):
            continue
        tr = [np.asarray(n.trace[a]) for a in ids]
        for i in range(0, min(len(t) for t in tr) - 1, 2):
            lo = [float(x) for t in tr for x in t[i][1:]]
            hi = [float(x) for t in tr for x in t[i + 1][1:]]
            out.append((float(tr[0][i][0]), float(tr[0][i + 1][0]), tuple(tuple(map(str, n.mode[a])) for a in ids), lo, hi))
    return out


def expected(tree, ids, T, dt):
    """None: nothing is reached at the horizon."""
    boxes = steps(tree, ids)
    late = [b for b in boxes if b[1] > T - dt / 2]
    if not late:
        return None, None, None
    early = [b for b in boxes if b[1] < T - dt / 2]
    bad = [b for b in late if not covered(b[3:], [e[3:] for e in early if e[2] == b[2]])]
    return bad, late, early


def check_tree(case):
    from verse.utils.fixed_points import fixed_points_fix
    ids, T, dt = case["ids"], case["T"], case["dt"]
    tree = case["nodes"] if not isinstance(case["nodes"], list) else make_tree(case["nodes"], ids)
    bad, late, early = expected(tree, ids, T, dt)
    if bad is None:
        return None
    with sized(20):
        got = bool(fixed_points_fix(tree, T, dt))
    if got != (not bad):
        raise Violation("the fixed-point test with horizon %s and step %s answers %s, %s; earlier: %s" % (
            T, dt, got, ("but the late box %s is not inside the earlier ones" % (bad[0],)) if bad else "but every one of the late boxes %s is inside earlier ones" % (late,), early))
    if not early:
        return None
    return [{True: "fixed", False: "not fixed"}[got], "%d nodes" % min(len(tree.nodes), 4)]


# ---------------------------------------------------------------- time selection

@st.composite
def window_cases(draw):
    c = draw(tree_cases())
    n = round(c["T"] / c["dt"])
    a = draw(st.integers(0, n))
    b = draw(st.integers(a, n))
    c["k"] = [a, b]
    return c


def check_window(case):
    """reach_at_fix with bounds that enclose steps a..b-1 gives exactly those boxes."""
    from verse.utils.fixed_points import reach_at_fix
    ids, dt = case["ids"], case["dt"]
    tree = make_tree(case["nodes"], ids)
    a, b = case["k"]
    t0, t1 = a * dt - dt * 0.05, b * dt + dt * 0.05
    got = reach_at_fix(tree, t0, t1)
    code = {}
    rows = []
    for r in got.values():
        r = r or []
        rows += [(r[i], r[i + 1]) for i in range(0, len(r), 2)]
    want = [x for x in steps(tree, ids) if x[0] >= t0 and x[1] <= t1]
    if len(rows) != len(want):
        raise Violation("the states in [%s, %s] are %d boxes, %s, instead of %d, %s" % (t0, t1, len(rows), rows, len(want), want))
    nm = [len(case["nodes"][0]["mode"][x]) for x in ids]
    nd = [(len(want[0][3]) if len(ids) == 1 else 1)] * len(ids) if want else []
    for (lo, hi), w in zip(rows, want):
        i = 0
        glo, ghi, gm = [], [], []
        for d, m in zip(nd, nm):
            glo += lo[i:i + d]
            ghi += hi[i:i + d]
            if lo[i + d:i + d + m] != hi[i + d:i + d + m]:
                raise Violation("the two corners of a box have different modes: %s and %s" % (lo, hi))
            gm.append(tuple(lo[i + d:i + d + m]))
            i += d + m
        if [float(x) for x in glo] != w[3] or [float(x) for x in ghi] != w[4]:
            raise Violation("the states in [%s, %s] contain the box %s, %s instead of %s" % (t0, t1, glo, ghi, w))
        for ai, g, ms in zip(ids, gm, w[2]):
            for c, m in zip(g, ms):
                if code.setdefault((ai, m), c) != c:
                    raise Violation("agent %s's mode %s is encoded as %s and as %s" % (ai, m, code[(ai, m)], c))
    for ai in ids:
        cs = [c for (x, _), c in code.items() if x == ai]
        if len(set(cs)) != len(cs):
            raise Violation("agent %s's modes share an encoding: %s" % (ai, code))
    return ["%d boxes" % min(len(want), 3)] if want else None


# ---------------------------------------------------------------- computed trees

LOGIC = '''from enum import Enum, auto
import copy

class AgentMode(Enum):
    A = auto()
    B = auto()

class State:
    x: float
    y: float
    agent_mode: AgentMode

    def __init__(self, x, y, agent_mode: AgentMode):
        pass

def decisionLogic(ego: State):
    output = copy.deepcopy(ego)
    if ego.agent_mode == AgentMode.A and ego.x >= %s:
        output.agent_mode = AgentMode.B
        %s
    if ego.agent_mode == AgentMode.B and ego.x <= %s:
        output.agent_mode = AgentMode.A
        %s
    %s
    return output
'''


@st.composite
def runs(draw):
    if draw(st.integers(0, 2)) == 0:
        c = draw(c07.cases(draw(st.booleans())))
        c.pop("pts")
        return c
    hi, lo = draw(st.sampled_from([1, 2])), draw(st.sampled_from([0, 0, -1]))
    up, down = draw(st.sampled_from([1, 2, 0.5, 0])), draw(st.sampled_from([1, 2, 0.5, 0, 0, 0]))
    yr = draw(st.sampled_from([0, 0, 0, 0, 0.25]))
    res = [draw(st.sampled_from(["output.x = %s" % hi, "output.x = %s" % hi, "pass"])), draw(st.sampled_from(["output.x = %s" % lo, "output.x = %s" % lo, "pass"]))]
    x0 = draw(st.sampled_from([0, 0.25, 0.5]))
    w = draw(st.sampled_from([0, 0.25, 0.5]))
    text = LOGIC % (hi, res[0], lo, res[1], draw(st.sampled_from(["pass", "pass", "assert ego.x < %s, 'top'" % (hi + 0.25)])))
    if text.count("pass") > 1:  # keep __init__'s
        text = text.replace("        pass\n    if", "    if").replace("        pass\n    pass", "    pass").replace("    pass\n    return", "    return").replace("        pass\n    assert", "    assert")
    return {"text": text, "agents": [{"id": "a0", "prog": True, "rates": {"A": [up, yr], "B": [-down, yr]}, "init": [[x0, 0.0], [x0 + w, 0.25]], "mode": ["A"], "key": 0}],
            "dt": draw(st.sampled_from([0.25, 0.5, 0.1])), "n": draw(st.integers(2, 16)), "H": draw(st.sampled_from([2, 4, 8])), "seg": 1000}


def check_run(case):
    cfg = world.config(init_seg_length=case["seg"])
    if case.get("text"):
        spec = {"agents": [dict(a, prog={"other": None}, mode=[world.Named(m) for m in a["mode"]]) for a in case["agents"]]}
        sc = world.build(spec, cfg, text=case["text"])
    else:
        sc = world.build({"agents": case["agents"]}, cfg)
    T, dt = case["n"] * case["dt"], case["dt"]
    with sized(5):
        tree = sc.verify(T, dt, max_height=case["H"])
    ids = [a["id"] for a in case["agents"]]
    if len(steps(tree, ids)) > 300 or len(ids) * len(case["agents"][0]["init"][0]) > 6:
        raise TooBig()
    return check_tree({"ids": ids, "nodes": tree, "T": T, "dt": dt})


def subs():
    return [Sub("families", families(), check_families, 2400), Sub("windows", window_cases(), check_window, 2500), Sub("trees", tree_cases(), check_tree, 4500), Sub("runs", runs(), check_run, 1500)]
