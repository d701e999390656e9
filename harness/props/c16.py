"""C16: sensors report exactly the agents' states."""
import copy, itertools
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation

PROPERTY = "C16"
RULE = ("A case is a decision logic's argument list and state layout, a number of agents with states (points or boxes), and the agent that senses; "
        "non-trivial when there are at least two agents.")
ASSUMPTIONS = ["all other agents have the layout of the parameter they are reported under"]

NAMES = ["x", "x1", "y", "vx", "theta", "ego_x", "t", "map_x"]
DISC = [("agent_mode", "AgentMode"), ("track_mode", "TrackMode"), ("other_mode", "OtherMode")]


@st.composite
def layout(draw):
    return {"cont": draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=5)),
            "disc": draw(st.lists(st.sampled_from(DISC), unique=True, min_size=1, max_size=3)),
            "static": draw(st.booleans())}


@st.composite
def cases(draw, fixed=False):
    n = draw(st.integers(1, 5))
    box = draw(st.booleans())
    val = st.one_of(st.integers(-100, 100).map(lambda v: v / 8), st.sampled_from([0.1, -1e-9, 1e6, 3.3]))
    if fixed:
        which = draw(st.sampled_from(sorted(EXAMPLES)))
        names, modes = EXAMPLES[which]
        lay = olay = {"cont": names, "disc": [(m, "AgentMode") for m in modes], "static": False}
        args = ["ego", "others"]
    else:
        which = draw(st.just("default"))
        lay = draw(layout())
        olay = draw(layout()) if draw(st.integers(0, 2)) == 0 else lay
        args = draw(st.permutations(["ego", draw(st.sampled_from(["others", "other", "cars"]))] + draw(st.sampled_from([[], ["track_map"], ["lane_map"]]))))
        if which == "default" and draw(st.integers(0, 5)) == 0:
            args = ["ego"]
    ids = draw(st.permutations(["car%d" % i for i in range(n)]))
    ego = draw(st.integers(0, n - 1))
    ags = []
    for i, a in enumerate(ids):
        l = lay if i == ego else olay
        lo = [draw(val) for _ in l["cont"]]
        ags.append({"id": a, "lo": lo, "hi": [v + draw(st.sampled_from([0, 0.5, 2.0])) for v in lo] if box else None,
                    "mode": [draw(st.sampled_from(["A", "B", "C"])) for _ in l["disc"]], "static": [draw(st.sampled_from(["car", "bike"]))] if l["static"] else []})
    return {"which": which, "lay": lay, "olay": olay, "args": list(args), "agents": ags, "ego": ego, "box": box, "t": draw(val), "array": draw(st.booleans()),
            "static": draw(st.booleans())}


EXAMPLES = {"thermo": (["temp", "total_time", "cycle_time"], ["thermo_mode"]),
            "craft": (["xp", "yp", "xd", "yd", "total_time", "cycle_time"], ["craft_mode"]),
            "quadrotor": (["x", "y", "z", "vx", "vy", "vz", "waypoint_index", "done_flag"], ["craft_mode", "lane_mode"])}


def source(case):
    out = ["from enum import Enum, auto", "from typing import List", "import copy"]
    for e in ("AgentMode", "TrackMode", "OtherMode", "KindMode"):
        out += ["class %s(Enum):" % e] + ["    %s = auto()" % m for m in (["car", "bike"] if e == "KindMode" else ["A", "B", "C"])]
    out += ["class LaneMap:", "    pass"]
    for name, l in (("State", case["lay"]), ("OtherState", case["olay"])):
        out += ["class %s:" % name] + ["    %s: float" % c for c in l["cont"]] + ["    %s: %s" % (m, e) for m, e in l["disc"]]
        if l["static"]:
            out.append("    type: KindMode")
        out += ["    def __init__(self, %s):" % ", ".join(l["cont"] + [m for m, _ in l["disc"]] + (["type"] if l["static"] else [])), "        pass"]
    typ = {"ego": "State", "track_map": "LaneMap", "lane_map": "LaneMap"}
    other = "List[State]" if case["olay"] is case["lay"] or case["olay"] == case["lay"] else "List[OtherState]"
    out.append("def decisionLogic(%s):" % ", ".join("%s: %s" % (a, typ.get(a, other)) for a in case["args"]))
    out += ["    output = copy.deepcopy(ego)", "    return output"]
    return "\n".join(out) + "\n"


def sensor(which):
    if which == "default":
        from verse.sensor.base_sensor import BaseSensor
        return BaseSensor()
    if which == "thermo":
        from verse.sensor.example_sensor.thermo_sensor import ThermoSensor
        return ThermoSensor()
    if which == "craft":
        from verse.sensor.example_sensor.craft_sensor import CraftSensor
        return CraftSensor()
    from verse.sensor.example_sensor.quadrotor_sensor import QuadrotorSensor
    return QuadrotorSensor()


def norm(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v.item() if isinstance(v, np.generic) else v


def check(case):
    from verse.agents.base_agent import BaseAgent
    ags, e = case["agents"], case["ego"]
    agent = BaseAgent(ags[e]["id"], source(case))
    states = {}
    for a in ags:
        s = [case["t"]] + a["lo"] if not case["box"] else [[case["t"]] + a["lo"], [case["t"] + 0.5] + a["hi"]]
        states[a["id"]] = (np.array(s) if case["array"] else s, tuple(a["mode"]), list(a["static"]))
    before = copy.deepcopy(states)
    s = sensor(case["which"])
    got = s.sense(agent, states, None, not case["box"])
    again = s.sense(agent, states, None, not case["box"])
    for a in states:
        if norm(states[a]) != norm(before[a]):
            raise Violation("sensing changed the state of %s" % a)
    if any(norm(list(x.items())) != norm(list(y.items())) for x, y in zip(got, again)):
        raise Violation("sensing twice gives different results")
    cont, disc, lens = {}, {}, {"others": len(ags) - 1}
    args = [a for a in case["args"] if "map" not in a]
    other = [a for a in args if a != "ego"]
    for i, a in enumerate(ags):
        l = case["lay"] if i == e else case["olay"]
        if i != e and not other:
            continue
        thing = "ego" if i == e else other[0]
        vals = {c: (a["lo"][k] if not case["box"] else [a["lo"][k], a["hi"][k]]) for k, c in enumerate(l["cont"])}
        dv = dict(zip([m for m, _ in l["disc"]], a["mode"]))
        if l["static"]:
            dv["type"] = a["static"][0]
        for d, v in ((cont, vals), (disc, dv)):
            for k, x in v.items():
                if i == e:
                    d[thing + "." + k] = x
                else:
                    d.setdefault(thing + "." + k, []).append(x)
    want = (cont, disc, lens)
    for w, g, what in zip(want, got, ("continuous values", "modes", "numbers of agents")):
        g = {k: norm(v) for k, v in g.items()}
        if g != w:
            raise Violation("%s senses %s %s, should be %s" % (ags[e]["id"], what, g, w))
    if len(ags) < 2 or not other:
        return None
    return [case["which"], "box" if case["box"] else "point", "agents=%d" % len(ags)]


def subs():
    return [Sub("default", cases, check, 4000), Sub("examples", lambda: cases(True), check, 2400)]
