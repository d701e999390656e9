"""C14: saved analysis trees load back unchanged."""
import json, os, tempfile
import numpy as np
from hypothesis import strategies as st

from .. import world
from ..core import Sub, Violation, sized
from . import c02, c08, c12

PROPERTY = "C14"
RULE = ("A case is a scenario and an analysis of it (simulation, simple simulation, verification or verification by partitions), whose tree is saved, "
        "loaded and saved again; non-trivial when the tree has at least two nodes or an assertion report.")
ASSUMPTIONS = ["sequences are compared by content (a tuple may load back as a list); agents are saved by the name of their class only"]


def plain(v):
    if isinstance(v, np.ndarray):
        return plain(v.tolist())
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, np.generic):
        return v.item()
    return v


def content(n):
    return {"id": n.id, "height": n.height, "modes": plain(n.mode), "initial sets": plain(n.init), "start time": n.start_time, "traces": plain(n.trace),
            "assertion results": plain(n.assert_hits), "type": str(n.type), "static parameters": plain(n.static), "uncertain parameters": plain(n.uncertain_param),
            "agents": sorted(n.agent), "digits": n.ndigits}


def compare(a, b, path="root"):
    x, y = content(a), content(b)
    for k in x:
        if x[k] != y[k]:
            raise Violation("%s: %s %s loads back as %s" % (path, k, str(x[k])[:500], str(y[k])[:500]))
    if type(a.type) is not type(b.type) or a.type != b.type:
        raise Violation("%s: type %r loads back as %r" % (path, a.type, b.type))
    for k in a.trace:
        if isinstance(a.trace[k], np.ndarray) != isinstance(b.trace[k], np.ndarray):
            raise Violation("%s: trace of %s is a %s, loads back as a %s" % (path, k, type(a.trace[k]).__name__, type(b.trace[k]).__name__))
    if len(a.child) != len(b.child):
        raise Violation("%s: %d successors load back as %d" % (path, len(a.child), len(b.child)))
    for c, d in zip(a.child, b.child):
        compare(c, d, path + "/%s" % c.id)


@st.composite
def cases(draw):
    how = draw(st.sampled_from(["simulate", "verify", "simulate", "verify", "simple", "partitioned"]))
    if how in ("verify", "partitioned"):
        c = draw(c08.cases())
    else:
        c = draw(c02.cases(feats={"asserts": True, "ite": False, "sum": False} if draw(st.booleans()) else None, hs=(6, 3, 2)))
        c["cont"] = draw(st.booleans())
    for a in c["agents"]:
        if a["prog"] and draw(st.integers(0, 2)) == 0:
            c12.fork(draw, a["prog"])
    c.update(how=how, unc=draw(st.booleans()), suffix=draw(st.sampled_from([".json", ".txt", ""])))
    return c


def analyse(case):
    T, dt, H = case["n"] * case["dt"], case["dt"], case["H"]
    sc = world.build({"agents": case["agents"]}, world.config(unsafe_continue=case.get("cont", False)))
    if case["unc"]:
        for i, a in enumerate(case["agents"]):
            sc.uncertain_param_dict[a["id"]] = [[0.5, i], [0.75, i + 1]]
    with sized(5.0):
        if case["how"] == "verify":
            return sc.verify(T, dt, max_height=H)
        if case["how"] == "partitioned":
            return sc.verify_partitioned(T, dt, 2, max_height=H)
        if case["how"] == "simple":
            return sc.simulate_simple(T, dt, max_height=H)
        return sc.simulate(T, dt, max_height=H)


def check(case):
    from verse.analysis.analysis_tree import AnalysisTree
    tree = analyse(case)
    with tempfile.TemporaryDirectory(prefix="verif_c14_") as d:
        f, g = os.path.join(d, "a" + case["suffix"]), os.path.join(d, "b" + case["suffix"])
        before = [content(n) for n in tree.nodes]
        tree.dump(f)
        if [content(n) for n in tree.nodes] != before:
            raise Violation("saving changed the tree")
        back = AnalysisTree.load(f)
        compare(tree.root, back.root)
        if back.type != tree.type or sorted(n.id for n in back.nodes) != sorted(n.id for n in tree.nodes):
            raise Violation("nodes %s load back as %s" % ([n.id for n in tree.nodes], [n.id for n in back.nodes]))
        if back.leaves() != tree.leaves() or back.height(back.root) != tree.height(tree.root):
            raise Violation("a tree with %s leaves and height %s loads back with %s and %s" % (
                tree.leaves(), tree.height(tree.root), back.leaves(), back.height(back.root)))
        back.dump(g)
        if json.load(open(f)) != json.load(open(g)):
            raise Violation("saving the loaded tree gives other content")
        if not tree.is_equal(back) or not back.is_equal(tree):
            raise Violation("the loaded tree does not compare equal to the saved one")
    if len(tree.nodes) < 2 and not any(n.assert_hits for n in tree.nodes):
        return None
    return [case["how"]]


def subs():
    return [Sub("round trip", cases, check, 2400)]
