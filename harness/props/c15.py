"""C15: comparison of analysis trees."""
import copy
import numpy as np
from hypothesis import strategies as st

from .. import world
from ..core import Sub, Violation, sized, HarnessError
from . import c02, c08, c12

PROPERTY = "C15"
RULE = ("A case is a computed tree, and a second one made from it by a sequence of edits (moved, widened or narrowed boxes, perturbed states, dropped, added or "
        "reordered branches, other agents) or computed for another initial set; non-trivial when the trees differ or have several nodes.")
ASSUMPTIONS = ["the reference decides containment of unions of intervals directly; cases it decides differently for a tolerance a tenth larger or smaller are left out",
               "both trees have the same time step"]


@st.composite
def edits(draw, sim):
    kinds = ["perturb", "move", "reorder", "drop", "twin", "twin"] if sim else ["move", "widen", "narrow", "drop", "cut", "move", "split"]
    out = []
    for _ in range(draw(st.integers(0, 3))):
        out.append({"kind": draw(st.sampled_from(kinds)), "node": draw(st.integers(0, 7)), "agent": draw(st.integers(0, 2)), "row": draw(st.integers(0, 7)),
                    "dim": draw(st.integers(0, 2)), "by": draw(st.sampled_from([0.5, 0.0625, 0.25, 2.0])) * draw(st.sampled_from([1, -1])),
                    "which": draw(st.integers(0, 1))})
    return out


@st.composite
def cases(draw, sim):
    c = draw(c02.cases(hs=(6, 3, 4))) if sim else draw(c08.cases())
    if sim:
        c["cont"] = False
    for a in c["agents"]:
        if a["prog"] and draw(st.integers(0, 1)):
            c12.fork(draw, a["prog"])
    c.update(sim=sim, edits=draw(edits(sim)), tol=draw(st.sampled_from([None, None, 0.1] if not sim else [None, 1e-3])),
             strict=draw(st.booleans()), drop=draw(st.sampled_from([0, 0, 0, 1, 2])), more=draw(st.sampled_from([0, 0, 0, 1, -1])),
             other=draw(st.sampled_from([None, None, 0.25, -0.25])))
    return c


def clone(tree):
    """A copy of the tree (the agents are shared)."""
    from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode

    def go(n):
        m = AnalysisTreeNode(trace={a: (t.copy() if isinstance(t, np.ndarray) else [list(r) for r in t]) for a, t in n.trace.items()}, init=dict(n.init),
                             mode=dict(n.mode), static=n.static, uncertain_param=n.uncertain_param, agent=dict(n.agent), height=n.height,
                             assert_hits=n.assert_hits, child=[go(c) for c in n.child], start_time=n.start_time, ndigits=n.ndigits, type=n.type, id=n.id)
        return m
    return AnalysisTree(go(tree.root))


def edit(tree, e):
    from verse.analysis.analysis_tree import AnalysisTree
    n = tree.nodes[e["node"] % len(tree.nodes)]
    k = e["kind"]
    if k == "drop":
        if n.child:
            n.child.pop(e["row"] % len(n.child))
    elif k == "reorder":
        n.child.reverse()
    elif k == "twin":  # one branch becomes a copy of another
        forks = [m for m in tree.nodes if len(m.child) > 1]
        if forks:
            m = forks[e["node"] % len(forks)]
            i = e["row"] % len(m.child)
            m.child[i] = clone(AnalysisTree(m.child[i - 1])).root
    elif n.trace:
        a = sorted(n.trace)[e["agent"] % len(n.trace)]
        t = n.trace[a]
        if len(t) == 0:
            return AnalysisTree(tree.root)
        j = 1 + e["dim"] % (len(t[0]) - 1)
        if isinstance(t, np.ndarray):
            i = e["row"] % len(t)
            t[i][j] += e["by"] if k == "move" else 1e-8
        else:
            i = e["row"] % (len(t) // 2)
            r = t[2 * i], t[2 * i + 1]
            if k == "move":
                r[0][j] += e["by"]
                r[1][j] += e["by"]
            elif k == "widen":
                r[0][j] -= abs(e["by"])
                r[1][j] += abs(e["by"]) / 2
            elif k == "narrow":
                r[0][j] += 0.25 * (r[1][j] - r[0][j])
            elif k == "cut":  # fewer steps
                n.trace[a] = t[: 2 * i + 2]
            elif k == "split":  # only the two ends of the box's range, in two nodes
                if n.child:
                    return AnalysisTree(tree.root)
                m = clone(AnalysisTree(n)).root
                w = r[1][j] - r[0][j]
                r[1][j] -= 0.75 * w
                m.trace[a][2 * i][j] += 0.75 * w
                m.id = max(x.id for x in tree.nodes) + 1
                m.child = []
                n.child.append(m)
    return AnalysisTree(tree.root)


# --- reference


def ranges(tree, ids, dt):
    out = {}
    stack = [tree.root]
    while stack:
        n = stack.pop()
        stack += n.child
        for a in ids:
            t = n.trace.get(a)
            if t is None:
                continue
            for i in range(0, len(t) - 1, 2):
                k = t[i][0] / dt
                if abs(k - round(k)) > 1e-4:
                    raise HarnessError("odd time %s" % t[i][0])
                for j in range(1, len(t[i])):
                    out.setdefault((a, int(round(k)), j), []).append((t[i][j], t[i + 1][j]))
    return out


def reach_contains(x, y, ids, dt, tol):
    a, b = ranges(x, ids, dt), ranges(y, ids, dt)
    for key, ivs in b.items():
        if key not in a:
            return False
        mine = sorted((l - tol, h + tol) for l, h in a[key])
        merged = []
        for l, h in mine:
            if merged and l <= merged[-1][1]:
                merged[-1][1] = max(merged[-1][1], h)
            else:
                merged.append([l, h])
        if not all(any(l <= p and q <= h for l, h in merged) for p, q in ivs):
            return False
    return True


def sim_contains(x, y, ids, tol):
    for a in ids:
        if (a in x.trace) != (a in y.trace):
            return False
        if a in x.trace:
            p, q = np.asarray(x.trace[a]), np.asarray(y.trace[a])
            if p.shape != q.shape or np.any(np.abs(p[:, 1:] - q[:, 1:]) >= tol):
                return False
    if len(x.child) != len(y.child):
        return False

    def pair(xs, ys):
        if not xs:
            return True
        return any(sim_contains(xs[0], y, ids, tol) and pair(xs[1:], ys[:i] + ys[i + 1:]) for i, y in enumerate(ys))
    return pair(x.child, y.child)


def check(case):
    T, dt, H = case["n"] * case["dt"], case["dt"], case["H"]

    def run(agents, n):
        sc = world.build({"agents": agents}, world.config(unsafe_continue=case["cont"]))
        with sized(4.0):
            return (sc.simulate if case["sim"] else sc.verify)(n * dt, dt, max_height=H)

    x = run(case["agents"], case["n"])
    ags, n = case["agents"], max(1, case["n"] + case["more"])
    if case["other"]:
        ags = [dict(a, init=[[v + case["other"] * (-1 if i and len(a["init"]) > 1 else 1) for v in p] for i, p in enumerate(a["init"])]) for a in ags]
        ags = [dict(a, init=[[min(p) for p in zip(*a["init"])], [max(p) for p in zip(*a["init"])]] if len(a["init"]) > 1 else a["init"]) for a in ags]
    y = run(ags, n) if case["other"] or n != case["n"] else clone(x)
    ids = sorted(a["id"] for a in case["agents"])
    for e in case["edits"]:
        if e["which"]:
            y = edit(y, e)
        else:
            x = edit(x, e)
    xi = yi = set(ids)
    if case["drop"] and len(ids) > 1:
        z = y if case["drop"] == 1 else x
        for m in z.nodes:
            m.agent = {a: v for a, v in m.agent.items() if a != ids[0]}
            m.trace = {a: v for a, v in m.trace.items() if a != ids[0]}
        xi, yi = (xi, yi - {ids[0]}) if case["drop"] == 1 else (xi - {ids[0]}, yi)
    tags = {"sim" if case["sim"] else "reach"}
    for p, q, pi, qi, w in ((x, y, xi, yi, "first contains second"), (y, x, yi, xi, "second contains first")):
        ok = pi == qi if case["strict"] else pi >= qi
        tol = 1e-6 if case["tol"] is None else case["tol"]

        def ref(t):
            return ok and (sim_contains(p.root, q.root, sorted(qi), t) if case["sim"] else reach_contains(p, q, sorted(qi), dt, t))
        want = ref(tol)
        if ref(tol * 0.9) != want or ref(tol * 1.1) != want:
            return None
        kw = {} if case["tol"] is None else {"tol": case["tol"]}
        got = p.contains(q, strict=case["strict"], **kw)
        if bool(got) != want:
            raise Violation("%s: answered %s, should be %s (tolerance %s, strict %s)" % (w, got, want, tol, case["strict"]))
        tags.add("%s %s" % (w, want))
    for t in (x, y):
        if not t.contains(t) or not t.is_equal(t):
            raise Violation("a tree does not contain itself")
    if xi == yi and case["tol"] is None and case["strict"]:
        want = "first contains second True" in tags and "second contains first True" in tags
        if x.is_equal(y) != want:
            raise Violation("is_equal answers %s, should be %s" % (not want, want))
    if not case["edits"] and not case["other"] and n == case["n"] and xi == yi and len(x.nodes) < 2:
        return None
    return sorted(tags)


def subs():
    return [Sub("reachability", lambda: cases(False), check, 1000), Sub("simulation", lambda: cases(True), check, 900)]
