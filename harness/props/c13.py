"""C13: partitioned verification covers everything, and is as precise as its pieces."""
import numpy as np
from hypothesis import strategies as st

from .. import dl, world, execref
from ..core import Sub, Violation, sized
from . import c02, c07, c09, c12

PROPERTY = "C13"
RULE = ("A case is a scenario with a box of initial states, a partition count, a choice of dimensions and whether the initial box is "
        "partitioned; non-trivial when the verified tree has a transition, or, for pieces, when the box is cut into at least two.")
ASSUMPTIONS = ["in trees, flows are constant-rate, so that partitioning changes no box and the tree has to be that of ordinary verification; "
               "cases where ordinary verification of a slightly larger or smaller box branches differently are left out",
               "in pieces, flows are linear and the tube is compared with the union of the tubes computed for each piece alone"]
TOL = 1e-6
SAME = 1e-5  # each step adds up to 1e-6 to an enclosure, and a jump passes it on


@st.composite
def dims(draw, d):
    k = draw(st.integers(0, 2))
    if k == 0:
        return None
    return sorted(draw(st.sets(st.integers(0, d), min_size=0 if k == 1 else 1)))


@st.composite
def cases(draw):
    c = draw(c07.cases(draw(st.integers(0, 3)) == 0, road=draw(st.integers(0, 5)) == 0))
    for a in c["agents"]:
        if a["prog"] and draw(st.integers(0, 2)) == 0:
            c12.fork(draw, a["prog"])
    d = len(c["agents"][0]["init"][0])
    c.update(k=draw(st.sampled_from([2, 1, 3, 2, 4])), dims=draw(dims(d)), initial=draw(st.booleans()), seg=1000,
             H=min(c["H"], 4))
    return c


def shape(n):
    return [sorted((a, "".join(m)) for a, m in n.mode.items()), sorted((n.assert_hits or {}).items()), round(n.start_time, 9),
            sorted((a, len(t)) for a, t in n.trace.items()), sorted((shape(c) for c in n.child), key=repr)]


def hull(rects):
    a = np.array(rects, dtype=float)
    return np.concatenate([a[:, 0].min(axis=0), a[:, 1].max(axis=0)])


def same(p, v, path="root"):
    """Two trees with equal shapes: equal boxes, up to the order of siblings with equal shapes."""
    for a in v.trace:
        x, y = np.array(p.trace[a]), np.array(v.trace[a])
        if x.shape != y.shape or not np.allclose(x, y, rtol=0, atol=SAME):
            return "%s: tube of %s is %s, ordinarily %s" % (path, a, x.tolist()[:8], y.tolist()[:8])
    for a in v.init:
        if not np.allclose(hull(p.init[a]), hull(v.init[a]), rtol=0, atol=SAME):
            return "%s: initial set of %s has hull %s, ordinarily %s" % (path, a, hull(p.init[a]).tolist(), hull(v.init[a]).tolist())
    left = list(p.child)
    for c in v.child:
        why = None
        for q in left:
            if shape(q) == shape(c):
                why = same(q, c, path + "/" + "+".join("".join(m) for m in c.mode.values()))
                if why is None:
                    left.remove(q)
                    break
        else:
            return why or path + ": no such successor"
    return None


def check(case):
    T, dt, H = case["n"] * case["dt"], case["dt"], case["H"]
    refs = []
    for f in case["pts"]:
        rs = execref.RefSim({"agents": c07.point(case, f)}, T, dt, H, cap=40)
        dl.margin = [float("inf")]
        try:
            ref = rs.run()
        except execref.TooBig:
            continue
        finally:
            tight, dl.margin = dl.margin[0] < TOL, None
        if not tight:
            c07.mark(ref, N=case["n"], dt=dt, jumpers={a["id"] for a in case["agents"] if a["prog"]})
            refs.append(ref)

    def verify(eps, part):
        ags = [dict(a, init=[[x - eps for x in a["init"][0]], [x + eps for x in a["init"][1]]]) for a in case["agents"]]
        sc = world.build({"agents": ags}, world.config())
        if not part:
            return sc.verify(T, dt, max_height=H)
        kw = {} if case["dims"] is None else {"partition_dims": list(case["dims"])}
        return sc.verify_partitioned(T, dt, case["k"], max_height=H, partition_initial=case["initial"], **kw)

    with sized(6.0):
        tree = verify(0, True)
        v = verify(0, False)
        if not v.root.child and not v.root.assert_hits:
            return None
        for ref in refs:
            d = c07.covered(ref, tree.root, "root")
            if d:
                raise Violation("simulation from %s: %s" % (ref["init"], d))
        if shape(tree.root) != shape(v.root):
            if any(shape(verify(e, False).root) != shape(v.root) for e in (1e-5, 1e-7)):
                return ["covering only"]
            raise Violation("%s partitions of dimensions %s: the tree is %s, ordinarily %s" % (
                case["k"], case["dims"], shape(tree.root), shape(v.root)))
    d = same(tree.root, v.root)
    if d:
        raise Violation("%s partitions of dimensions %s: %s" % (case["k"], case["dims"], d))
    return ["k=%d" % case["k"], "dims" if case["dims"] is not None else "all"] + (["initial"] if case["initial"] else [])


# --- pieces: one agent, linear flow, no decision logic


def _agent(A):
    from scipy.linalg import expm

    class Lin(world.RateAgent):
        def TC_simulate(self, mode, initialSet, time_horizon, time_step, map=None):
            n = int(round(time_horizon / time_step)) + 1
            E = expm(np.array(A, dtype=float) * time_step)
            x = np.array(initialSet, dtype=float)
            tr = np.empty((n, 1 + len(x)))
            for i in range(n):
                tr[i, 0], tr[i, 1:] = i * time_step, x
                x = E @ x
            return tr
    return Lin("car", None, {"A": [0.0] * len(A)}, 0)


@st.composite
def piece_cases(draw):
    d = draw(st.sampled_from([1, 2, 2, 3]))
    q = st.integers(-4, 4).map(lambda v: v / 4)
    lo = [draw(q) for _ in range(d)]
    hi = [v + draw(st.sampled_from([0, 0.5, 1.0, 0.75])) for v in lo]
    return {"A": [[draw(q) for _ in range(d)] for _ in range(d)], "lo": lo, "hi": hi, "k": draw(st.sampled_from([1, 2, 3, 4] if d < 3 else [1, 2])),
            "dims": draw(dims(d)), "n": draw(st.integers(1, 5)), "dt": draw(st.sampled_from([0.25, 0.5, 0.1])), "initial": draw(st.integers(0, 3)) > 0,
            "method": draw(st.sampled_from(["PW", "GLOBAL"])), "disc": draw(st.integers(0, 3)) == 0}


def pieces(case):
    cut = range(1, len(case["lo"]) + 1) if case["dims"] is None else case["dims"]
    boxes = [[list(case["lo"]), list(case["hi"])]]
    for j in cut:
        if j == 0:
            continue
        new = []
        for lo, hi in boxes:
            a, b = lo[j - 1], hi[j - 1]
            if a == b:
                new.append([lo, hi])
                continue
            for i in range(case["k"]):
                l, h = list(lo), list(hi)
                l[j - 1], h[j - 1] = a + i * (b - a) / case["k"], a + (i + 1) * (b - a) / case["k"]
                new.append([l, h])
        boxes = new
    return boxes


def check_pieces(case):
    import random
    from verse.analysis import ReachabilityMethod
    T, dt = case["n"] * case["dt"], case["dt"]
    kw = {"reachability_method": ReachabilityMethod.DRYVR_DISC} if case["disc"] else {}

    def run(lo, hi, part):
        random.seed(1)
        sc = world.Scenario(world.config(**kw))
        sc.add_agent(_agent(case["A"]))
        sc.set_init_single("car", [list(lo), list(hi)], (world.Named("A"),))
        p = {"bloating_method": case["method"]}
        if part is None:
            tree = sc.verify(T, dt, params=p)
        else:
            d = {} if case["dims"] is None else {"partition_dims": list(case["dims"])}
            tree = sc.verify_partitioned(T, dt, case["k"], partition_initial=part, params=p, **d)
        return np.array(tree.root.trace["car"])

    got = run(case["lo"], case["hi"], case["initial"])
    boxes = pieces(case) if case["initial"] else [[case["lo"], case["hi"]]]
    tubes = [run(lo, hi, None) for lo, hi in boxes]
    if any(t.shape != got.shape for t in tubes):
        raise Violation("tube has shape %s, those of the pieces %s" % (got.shape, [t.shape for t in tubes]))
    lo, hi = np.min([t[0::2] for t in tubes], axis=0), np.max([t[1::2] for t in tubes], axis=0)
    # the sampled points differ between the runs, so that the bloating does, too
    slack = 0.02 * (np.max(hi, axis=0) - np.min(lo, axis=0)) + 1e-6
    for i in range(len(lo)):
        g = got[2 * i: 2 * i + 2]
        if np.any(g[0] < lo[i] - slack) or np.any(g[1] > hi[i] + slack):
            raise Violation("step %d: box %s is wider than the hull of the pieces' boxes %s (%s partitions of %s)" % (
                i, g.tolist(), [lo[i].tolist(), hi[i].tolist()], case["k"], case["dims"]))
        if np.any(g[0] > lo[i] + slack) or np.any(g[1] < hi[i] - slack):
            raise Violation("step %d: box %s does not cover the pieces' boxes %s (%s partitions of %s)" % (
                i, g.tolist(), [lo[i].tolist(), hi[i].tolist()], case["k"], case["dims"]))
    if len(boxes) < 2:
        return None
    return ["pieces=%d" % len(boxes), case["method"]]


def subs():
    return [Sub("trees", cases, check, 900), Sub("pieces", piece_cases, check_pieces, 2000)]
