"""C11: incremental analysis gives the same answer as a fresh one."""
import copy
from hypothesis import strategies as st

from .. import dl, world, execref
from ..core import Sub, Violation, TooBig, sized
from . import c02, c07

PROPERTY = "C11"
RULE = ("A case is a scenario and a history of edits (initial states, modes, static parameters, decision logics, horizon, transition limit), with a run "
        "after each edit in one incremental scenario; non-trivial when some run after the first has a transition in its reference execution and a "
        "node of it was met by an earlier run.")
ASSUMPTIONS = ["simulation runs are compared exactly with the reference executor (whose agreement with fresh runs is C02)",
               "verification runs must cover the reference executions from sampled points (the relation of C07), and take every branch of a fresh run",
               "the number and names of agents, their flows, the map and the sensor are not edited (the documentation excludes these)"]
TOL = 1e-6


def nums(o, out):
    """All ["num", v] leaves."""
    if isinstance(o, list):
        if len(o) == 2 and o[0] == "num":
            out.append(o)
        else:
            for x in o:
                nums(x, out)
    return out


def edit(ags, e):
    """Applies edit e to the list of agents (a deep copy is returned)."""
    ags = copy.deepcopy(ags)
    if e["kind"] in ("none", "horizon", "height"):
        return ags
    a = ags[e["agent"] % len(ags)]
    if e["kind"] == "init":
        x = a["init"]
        i = e["pos"] % len(x[0])
        d = e["val"]
        for r in x:
            r[i] += d
    elif e["kind"] == "shrink":
        x = a["init"]
        if len(x) == 2:
            i = e["pos"] % len(x[0])
            mid = (x[0][i] + x[1][i]) / 2
            x[e["pos"] % 2][i] = mid
    elif e["kind"] == "twin":  # start where another agent starts
        b = ags[(e["agent"] + 1) % len(ags)]
        if len(b["init"][0]) == len(a["init"][0]):
            a["init"] = copy.deepcopy(b["init"])
            if a["lay"]["modes"] == b["lay"]["modes"] and e["pos"] % 2:
                a["mode"] = list(b["mode"])
    elif e["kind"] == "mode":
        lay = a["lay"]
        i = e["pos"] % len(lay["disc"])
        ms = lay["modes"][lay["disc"][i][0]]
        a["mode"] = list(a["mode"])
        a["mode"][i] = ms[(ms.index(a["mode"][i]) + 1) % len(ms)]
    elif e["kind"] == "map" and a["lay"].get("road"):
        road = copy.deepcopy(a["lay"]["road"])
        if e["pos"] % 3 == 0 and road["h"]:
            road["h"].pop(e["pos"] // 3 % len(road["h"]))
        elif e["pos"] % 3 == 1:
            road["at"] = [road["at"][0] + 2 * e["val"], road["at"][1] - 4 * e["val"]]
        else:
            for l in road["lanes"]:
                l["w"] += 1.0
        for b in ags:
            b["lay"]["road"] = road
            if b.get("prog"):
                b["prog"]["lay"]["road"] = road
    elif e["kind"] == "static" and a.get("static"):
        a["static"] = [dl.KINDS[(dl.KINDS.index(a["static"][0]) + 1) % len(dl.KINDS)]]
    elif e["kind"] == "num" and a.get("prog"):
        ns = nums(a["prog"]["body"], [])
        if ns:
            n = ns[e["pos"] % len(ns)]
            n[1] = n[1] + e["val"]
    elif e["kind"] == "drop" and a.get("prog"):
        b = a["prog"]["body"]
        i = e["pos"] % len(b)
        if len(b) > 1 and b[i][0] != "let":
            b.pop(i)
    elif e["kind"] == "swap" and a.get("prog"):
        b = a["prog"]["body"]
        i = e["pos"] % len(b)
        if b[i][0] != "let":
            b.append(b.pop(i))
    elif e["kind"] == "add" and a.get("prog") and e.get("prog"):
        p = e["prog"]
        if p["lay"] == a["prog"]["lay"] and not p["helpers"]:
            have = {k for k, _ in a["prog"].get("consts", [])}
            a["prog"]["consts"] = list(a["prog"].get("consts", [])) + [c for c in p.get("consts", []) if c[0] not in have]
            a["prog"]["body"] = a["prog"]["body"] + p["body"]
    return ags


@st.composite
def edits(draw, ags, extra, veri=False):
    kinds = ["none", "init", "init", "mode", "static", "num", "num", "drop", "swap", "add", "horizon", "height", "twin"] + (["map"] * 3 if ags[0]["lay"].get("road") else [])
    e = {"kind": draw(st.sampled_from(kinds + (["shrink", "shrink"] if veri else []))), "agent": draw(st.integers(0, len(ags) - 1)), "pos": draw(st.integers(0, 11)),
         "val": draw(st.sampled_from([0.25, -0.25, 0.5, -0.5, 1.0, -1.0, 0.125]))}
    if e["kind"] == "add":
        e["prog"] = extra
    if e["kind"] == "horizon":
        e["n"] = draw(st.integers(1, 10))
    if e["kind"] == "height":
        e["H"] = draw(st.sampled_from([None, 6, 4, 2] if not veri else [5, 4, 3, 2]))
    return e


@st.composite
def cases(draw):
    c = draw(c02.cases(feats={"asserts": True} if draw(st.booleans()) else None, road=draw(st.integers(0, 4)) == 0))
    lay = c["agents"][0]["lay"]
    extra = draw(dl.programs(lay=lay, other="list", feats={"helper": False}, max_ifs=1))
    c["edits"] = draw(st.lists(edits(c["agents"], extra), min_size=1, max_size=4))
    c["back"] = draw(st.integers(0, 3)) == 0  # finally, return to the original scenario
    return c


def text(a):
    return dl.render(a["prog"]) if a.get("prog") else None


def apply_to(sc, before, after, route):
    road = after[0]["lay"].get("road")
    if road != before[0]["lay"].get("road"):
        sc.set_map(dl.road_map(road))
    for a, b in zip(before, after):
        if text(a) != text(b):
            code = dl.render(b["prog"])
            if route % 2:
                sc.agent_dict[b["id"]].decision_logic = world.ControllerIR.parse(code=code)
            else:
                sc.add_agent(world.make_agent(b, code))
        if a != b:
            kw = {"static": [world.Named(s) for s in b["static"]]} if b.get("static") else {}
            sc.set_init_single(b["id"], [list(p) for p in b["init"]], tuple(b["mode"]), **kw)


def history(case):
    """[(agents, n, H)] of the runs."""
    out = [(case["agents"], case["n"], case["H"])]
    for e in case["edits"]:
        ags, n, H = out[-1]
        out.append((edit(ags, e), e.get("n", n), e["H"] if e["kind"] == "height" else H))
    if case.get("back"):
        out.append(out[0])
    return out


def nodes(ref, out, key=True):
    out.add((str(sorted(ref["modes"].items())), str(sorted(ref["init"].items()))))
    for c in ref["child"]:
        nodes(c, out)
    return out


def check(case):
    hist, dt = history(case), case["dt"]
    sc = world.build({"agents": hist[0][0]}, world.config(incremental=True))
    prev, tags, seen = hist[0][0], set(), set()
    for i, (ags, n, H) in enumerate(hist):
        rs = execref.RefSim({"agents": ags}, n * dt, dt, H)
        ref = rs.run()
        apply_to(sc, prev, ags, i)
        prev = ags
        tree = sc.simulate(n * dt, dt, max_height=H)
        d = execref.compare(tree.root, ref, dt, 1e-9)
        if d:
            raise Violation("run %d%s: %s" % (i + 1, " after %s" % case["edits"][i - 1]["kind"] if 0 < i <= len(case["edits"]) else "", d))
        if len(tree.nodes) != rs.count:
            raise Violation("run %d: tree lists %d nodes, execution has %d" % (i + 1, len(tree.nodes), rs.count))
        new = nodes(ref, set())
        if i and ref["child"] and new & seen:
            tags.add("after " + (case["edits"][i - 1]["kind"] if i <= len(case["edits"]) else "back"))
        seen |= new
    return sorted(tags) or None


# ---- verification

def branches(node, depth=0):
    """Mode paths of the tree."""
    out = set()

    def go(n, path):
        path = path + (tuple(sorted((a, tuple(m)) for a, m in n.mode.items())),)
        out.add(path)
        for c in n.child:
            go(c, path)
    go(node, ())
    return out


@st.composite
def veri_cases(draw):
    c = draw(c07.cases(draw(st.booleans()), road=draw(st.integers(0, 4)) == 0))
    c["H"] = min(c["H"], 4)
    lay = c["agents"][0]["lay"]
    extra = draw(dl.programs(lay=lay, other="list", feats={"helper": False, "eqs": False, "any": False, "sum": False, "road_resets": False}, max_ifs=1))
    c["edits"] = draw(st.lists(edits(c["agents"], extra, True), min_size=1, max_size=3))
    c["back"] = draw(st.integers(0, 3)) == 0
    return c


def refs_of(case, ags, n, H):
    dt, out = case["dt"], []
    for f in case["pts"]:
        rs = execref.RefSim({"agents": c07.point({"agents": ags}, f)}, n * dt, dt, H, cap=40)
        dl.margin = [float("inf")]
        try:
            ref = rs.run()
        finally:
            tight, dl.margin = dl.margin[0] < TOL, None
        if not tight:
            c07.mark(ref, N=n, dt=dt, jumpers={a["id"] for a in ags if a["prog"]})
            out.append((f, ref))
    return out


def check_veri(case):
    hist, dt = history(case), case["dt"]
    cfg = dict(init_seg_length=case.get("seg", 1000))
    sc = world.build({"agents": hist[0][0]}, world.config(incremental=True, **cfg))
    prev, tags = hist[0][0], set()
    for i, (ags, n, H) in enumerate(hist):
        refs = refs_of(case, ags, n, H)
        apply_to(sc, prev, ags, i)
        prev = ags
        with sized(4.0):
            tree = sc.verify(n * dt, dt, max_height=H)
            fresh = world.build({"agents": ags}, world.config(**cfg)).verify(n * dt, dt, max_height=H)
        what = "run %d%s" % (i + 1, " after %s" % case["edits"][i - 1]["kind"] if 0 < i <= len(case["edits"]) else "")
        for f, ref in refs:
            d = c07.covered(ref, tree.root, "root")
            if d:
                raise Violation("%s: simulation from %s: %s" % (what, {a["id"]: a["init"][0] for a in c07.point({"agents": ags}, f)}, d))
            if i and (ref["child"] or ref["asserts"]):
                tags.add("after " + (case["edits"][i - 1]["kind"] if i <= len(case["edits"]) else "back"))
        if not any(x.assert_hits for x in tree.nodes):
            miss = branches(fresh.root) - branches(tree.root)
            if miss:
                raise Violation("%s: a fresh verification has the branch %s, the incremental one has not" % (what, sorted(miss, key=len)[0]))
            if any(x.assert_hits for x in fresh.nodes):
                raise Violation("%s: a fresh verification violates an assertion, the incremental one does not" % what)
    return sorted(tags) or None


def subs():
    return [Sub("simulate", cases, check, 2400), Sub("verify", veri_cases, check_veri, 800)]
