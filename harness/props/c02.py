"""C02: the simulation tree is the hybrid execution."""
import numpy as np
from hypothesis import strategies as st, assume

from .. import dl, world, execref
from ..core import Sub, Violation

PROPERTY = "C02"
RULE = ("A case is a scenario: 1-3 agents with generated decision logics (some agents have none), per-mode flows, "
        "initial states and modes, horizon, step and transition limit; it is non-trivial when the reference execution "
        "has at least one transition.")
ASSUMPTIONS = [
    "in the exact subtest, flows are constant-rate and all numbers lie on a binary grid, so the reference execution "
    "is exact; in the decimal subtest flows are integrated by the library and guards keep a margin from every sample",
    "executions with more than 60 nodes are skipped (counted as trivial)",
]

vals = st.integers(-8, 8).map(lambda i: i / 4)
rates_v = st.integers(-4, 4).map(lambda i: i / 2)


@st.composite
def drivers(draw, lay, init):
    """An agent on a road: moves along it, sideways while it changes lanes"""
    r = dl.RoadRef(lay["road"])
    key = [m for m, _ in lay["disc"]].index("agent_mode")
    v, w = draw(st.sampled_from([2, 1, 3, 4, -1, 0])) / 2, draw(st.sampled_from([0.5, 1.0, 2.0]))
    rates = {}
    for m, side in (("Normal", 0), ("SwitchLeft", w), ("SwitchRight", -w)):
        f = v if draw(st.booleans()) else draw(st.integers(-1, 4)) / 2
        rates[m] = [{"x": f * r.d[0] + side * r.l[0], "y": f * r.d[1] + side * r.l[1]}.get(c, 0) or draw(st.sampled_from([0.0, 0.0, 0.5])) * (c == "v") for c in lay["cont"]]
    lane = draw(st.sampled_from(sorted(r.lanes, key=lambda l: -sum(t == l for t, *_ in lay["road"]["h"]))))
    p = r.point(draw(init), draw(st.sampled_from([0, 0, 0.5, -0.25, 1])), lane)
    x0 = [{"x": p[0], "y": p[1], "v": v}[c] for c in lay["cont"]]
    mode = {"agent_mode": "Normal", "track_mode": lane}
    if not draw(st.integers(0, 4)):
        mode = {m: draw(st.sampled_from(lay["modes"][m])) for m in mode}
    return key, rates, x0, [mode[m] for m, _ in lay["disc"]]


@st.composite
def agents(draw, lay, nag, feats, max_ifs, all_dl=False, init=vals, chain=False):
    out = []
    for i in range(nag):
        has = i == 0 or all_dl or draw(st.integers(0, 3)) > 0
        key = draw(st.integers(0, len(lay["disc"]) - 1))
        if lay.get("road"):
            key, rates, x0, m0 = draw(drivers(lay, init))
        else:
            modes = lay["modes"][lay["disc"][key][0]]
            rates = {m: [draw(rates_v) for _ in lay["cont"]] for m in modes}
            x0 = [draw(init) for _ in lay["cont"]]
            m0 = None
        mapped = bool(lay.get("road")) and draw(st.integers(0, 3)) == 0
        prog = None
        if has and not chain and draw(st.integers(0, 3)) == 0:
            prog = draw(dl.programs(lay=lay, other="list", feats=feats, max_ifs=max_ifs))
        elif has:
            prog = draw(dl.phased_programs(lay, "list", feats, hint={"rates": rates, "init": x0, "key": key, "track": m0 and m0[1 - key]}, chain=chain))
        out.append({"id": draw(st.sampled_from(["car", "b", "z"])) + str(i), "prog": prog, "lay": lay, "rates": rates, "key": key, "mapped": mapped,
                    "init": [x0],
                    "mode": m0 or [draw(st.sampled_from(lay["modes"][m])) for m, _ in lay["disc"]],
                    "static": [draw(st.sampled_from(dl.KINDS))] if lay.get("static") else []})
    return out


# guards that fire at some later time: one-directional threshold guards dominate
FEATS = {"helper": True, "sum": True, "eqs": False}


def rescale(ags, dt):
    """The same motion on a finer time scale"""
    if dt < 0.01:
        for a in ags:
            a["rates"] = {m: [64 * r for r in rs] for m, rs in a["rates"].items()}


@st.composite
def cases(draw, feats=None, max_ifs=2, chain=False, static=True, hs=(None, None, 6, 4, 3, 2, 1), road=False):
    lay = draw(dl.road_layouts() if road else dl.layouts(static=static))
    nag = draw(st.sampled_from([1, 1, 2, 2, 3]))
    ags = draw(agents(lay, nag, dict(FEATS, **(feats or {})), max_ifs, chain=chain))
    dt = draw(st.sampled_from([0.25, 0.5, 1.0, 0.125, 1 / 256]))
    n = draw(st.integers(4, 12) if road else st.integers(1, 10))
    rescale(ags, dt)
    return {"agents": ags, "dt": dt, "n": n, "H": draw(st.sampled_from(list(hs)))}


def check(case, want_assert=False):
    spec = {"agents": case["agents"]}
    T, dt, H = case["n"] * case["dt"], case["dt"], case["H"]
    rs = execref.RefSim(spec, T, dt, H)
    try:
        ref = rs.run()
    except execref.TooBig:
        return None
    sc = world.build(spec)
    tree = sc.simulate(T, dt, max_height=H)
    d = execref.compare(tree.root, ref, dt)
    if d:
        raise Violation(d)
    ids = sorted(n.id for n in tree.nodes)
    if len(tree.nodes) != rs.count or ids != sorted(set(ids)):
        raise Violation("tree lists %d nodes with ids %s, execution has %d" % (len(tree.nodes), ids, rs.count))
    if not ref["child"]:
        return None
    depth = max(n.height for n in tree.nodes)
    return sorted(rs.tags) + ["agents=%d" % len(case["agents"]), "depth=%d" % min(depth, 5)]


# ----- decimal steps, library integration


class FlowAgent(world.BaseAgent):
    def __init__(self, id, code, rates, key):
        super().__init__(id, code=code)
        self.rates, self.key = rates, key

    def TC_simulate(self, mode, initialSet, time_horizon, time_step, map=None):
        c = np.array(self.rates[mode[self.key]], dtype=float)
        self.dynamics = lambda t, y: c
        return world.BaseAgent.TC_simulate(self, mode, initialSet, time_horizon, time_step, map)


@st.composite
def decimal_cases(draw):
    nag = draw(st.integers(1, 2))
    lay = {"cont": ["x", "t"], "disc": [["agent_mode", "AgentMode"]], "modes": {"agent_mode": ["A", "B", "C"]}, "static": False}
    ags = []
    for i in range(nag):
        body = []
        for m in ["A", "B", "C"]:
            thr = draw(st.integers(1, 40)) / 20 + 0.0171 + i * 0.003
            tgt = draw(st.sampled_from([q for q in "ABC" if q != m]))
            var = draw(st.sampled_from(["x", "t"]))
            acts = [["mode", "agent_mode", "AgentMode", tgt]]
            if var == "t" or draw(st.booleans()):
                acts.append(["set", "t", ["num", 0.0]])
            if var == "x":
                acts.append(["set", "x", ["num", draw(st.integers(-4, 0)) / 4]])
            body.append(["if", [[["and", [["meq", "ego", "agent_mode", "AgentMode", m, False],
                                          ["cmp", ["attr", "ego", var], [[">", ["num", thr]]]]]], acts]], None])
        prog = {"lay": lay, "other": "list", "helpers": [], "body": body}
        ags.append({"id": "a%d" % i, "prog": prog, "lay": lay, "key": 0,
                    "rates": {m: [draw(st.sampled_from([0.5, 1.0, 2.0])), 1.0] for m in "ABC"},
                    "init": [[draw(st.integers(-4, 2)) / 4, 0.0]], "mode": [draw(st.sampled_from("ABC"))]})
    return {"agents": ags, "dt": draw(st.sampled_from([0.1, 0.05, 0.2, 0.01, 0.3])), "n": draw(st.integers(3, 60)),
            "H": draw(st.sampled_from([None, 5, 3]))}


def check_decimal(case):
    spec = {"agents": case["agents"]}
    T, dt, H = round(case["n"] * case["dt"], 8), case["dt"], case["H"]
    rs = execref.RefSim(spec, T, dt, H, cap=40)
    try:
        ref = rs.run()
    except execref.TooBig:
        return None
    sc = world.Scenario(world.config())
    for a in spec["agents"]:
        sc.add_agent(FlowAgent(a["id"], dl.render(a["prog"]), a["rates"], 0))
    sc.set_init([a["init"] for a in spec["agents"]], [tuple(a["mode"]) for a in spec["agents"]])
    tree = sc.simulate(T, dt, max_height=H)
    d = execref.compare(tree.root, ref, dt, tol=1e-5)
    if d:
        raise Violation(d)
    if not ref["child"]:
        return None
    return ["dt=%s" % dt, "depth=%d" % min(5, max(n.height for n in tree.nodes))]


def subs():
    return [
        Sub("exact", lambda: cases(), check, 4000),
        Sub("roads", lambda: cases(road=True), check, 1500),
        Sub("decimal", lambda: decimal_cases(), check_decimal, 600),
    ]
