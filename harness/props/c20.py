"""C20: agents' flows start at the given state and follow their equations."""
import copy, importlib, json, math, os
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation
from . import c17, c18

PROPERTY = "C20"
RULE = ("A case is a shipped agent (or a user's agent with generated linear dynamics), an initial state, mode, horizon and step, for cars and aircraft with a generated map; "
        "non-trivial when the state moves.")
ASSUMPTIONS = ["horizons are whole numbers of steps",
               "integration accuracy is 1e-4 relative to the step's largest value",
               "vehicles stay within 0.8 radii of the centreline; steps that start exactly facing against the lane are skipped (the controller turns either way)",
               "the equations are those of the agents' sources as published: kinematic bicycle with a Stanley rule, van der Pol, thermostat, rendezvous (ARCH benchmark), "
               "particles, and the quadrotor with its stored neural controller"]

DT = [0.05, 0.1, 0.2, 0.25, 0.3, 0.5, 1.0]


def steps(draw, top=8):
    n, dt = draw(st.integers(1, top)), draw(st.sampled_from(DT))
    return n, dt, round(n * dt, 10)


def integrate(f, y, dt):
    from scipy.integrate import solve_ivp
    r = solve_ivp(lambda t, y: np.array(f(y), float), (0, dt), np.array(y, float), rtol=1e-9, atol=1e-11, method="RK45" if dt < 10 else "LSODA")
    return r.y[:, -1]


def times(tr, n, dt, init, what):
    tr = np.asarray(tr, float)
    if tr.shape != (n + 1, 1 + len(init)):
        raise Violation("%s: %d steps of %r over %d variables give a trace of shape %s" % (what, n, dt, len(init), tr.shape))
    if not np.allclose(tr[:, 0], [i * dt for i in range(n + 1)], rtol=0, atol=1e-7):
        raise Violation("%s: the samples of %d steps of %r are at %s" % (what, n, dt, tr[:, 0]))
    if not np.array_equal(tr[0, 1:], np.array(init, float)):
        raise Violation("%s: the trace from %s starts at %s" % (what, init, tr[0, 1:]))
    return tr


def run(agent, mode, init, case, m=None):
    keep = copy.deepcopy(init), list(mode)
    what = "%s from %s in mode %s" % (type(agent).__name__, init, mode)
    tr = times(agent.TC_simulate(mode, init, case["T"], case["dt"], m), case["n"], case["dt"], init, what)
    if keep != (init, list(mode)):
        raise Violation("%s: simulating changes the caller's initial state or mode" % what)
    return tr, what


def agree(got, want, what, scale=None, tol=1e-4):
    want = np.asarray(want, float)
    s = tol * (1 + (np.abs(want).max() if scale is None else scale))
    if not np.all(np.abs(got - want) <= s):
        raise Violation("%s: reached %s, the equations lead to %s" % (what, list(got), list(want)))


def follow(tr, f, what, dt, clamp=None, tol=1e-4):
    """Each sample follows from the one before."""
    for i in range(len(tr) - 1):
        y = tr[i, 1:]
        g = f(y)
        if g is None:
            continue
        want = integrate(g, y, dt)
        if clamp is not None and want[clamp] < 0:
            want[clamp] = 0
        agree(tr[i + 1, 1:], want, "%s, step %d from %s" % (what, i, y.tolist()), tol=tol)


def halves(agent, mode, tr, case, what, m=None):
    n, dt = case["n"], case["dt"]
    k = case["cut"] % n
    if not k:
        return
    a = np.asarray(agent.TC_simulate(mode, tr[0, 1:].tolist(), round(k * dt, 10), dt, m), float)
    b = np.asarray(agent.TC_simulate(mode, a[-1, 1:].tolist(), round((n - k) * dt, 10), dt, m), float)
    if a.shape != (k + 1, tr.shape[1]) or b.shape != (n - k + 1, tr.shape[1]):
        raise Violation("%s: %d and %d steps of %r give %d and %d samples" % (what, k, n - k, dt, len(a), len(b)))
    s = 1 + np.abs(tr[:, 1:]).max()
    if not np.allclose(a[:, 1:], tr[:k + 1, 1:], rtol=0, atol=2e-4 * s) or not np.allclose(b[:, 1:], tr[k:, 1:], rtol=0, atol=2e-4 * s):
        raise Violation("%s: simulating %d steps and then %d from there gives %s and %s instead of %s" % (what, k, n - k, a[:, 1:].tolist(), b[:, 1:].tolist(), tr[:, 1:].tolist()))


CODE = """
import copy
from enum import Enum, auto
class Mode(Enum):
    ON = auto()
    OFF = auto()
class State:
    mode: Mode
    def __init__(self, mode: Mode):
        pass
def decisionLogic(ego: State, map):
    output = copy.deepcopy(ego)
    return output
"""


# ---------------------------------------------------------------- agents without a map

A_PROX = {"ProxA": ([-2.89995083970656, -0.0576765518445905, 0.00877200894463775, 0.000200959896519766], [-0.00875351105536225, -0.000174031357370456, -2.90300269286856, -0.0664932019993982]),
          "ProxB": ([-19.2299795908647, -0.576076729033652, 0.00876275931760007, 0.000262486079431672], [-0.00876276068239993, -0.000262486080737868, -19.2299765959399, -0.575980743701182])}


def craft(mode, y):
    x, z, u, w = y[:4]
    if mode == "Passive":
        return [u, w, 0.00005758947211320 * x + 0.00876276 * w, -0.00876276 * u, 1, 1]
    a, b = A_PROX[mode]
    r3 = (z * z + (x + 42164000) ** 2) ** 1.5
    return [u, w, a[0] * u + a[1] * x + a[2] * w + a[3] * z - (1.43496e18 * x + 6.050365344e25) / r3 + 807.153595726846,
            b[0] * u + b[1] * x + b[2] * w + b[3] * z - 1.43496e18 * z / r3, 1, 1]


@st.composite
def plain(draw):
    kind = draw(st.sampled_from(["vanderpol", "thermo", "craft", "sign", "robot", "line", "ball", "ballg", "user"]))
    n, dt, T = steps(draw, 20)
    v = st.one_of(st.integers(-20, 20).map(lambda k: k / 4), st.floats(-5, 5, allow_nan=False))
    c = {"kind": kind, "n": n, "dt": dt, "T": T, "cut": draw(st.integers(0, 19)), "mode": ["ON"]}
    k = {"vanderpol": 2, "thermo": 3, "sign": draw(st.integers(1, 4)), "robot": 1, "line": 2, "ball": 4, "ballg": 4}.get(kind)
    if kind == "user":
        k = draw(st.integers(1, 4))
        c["A"] = [[draw(st.integers(-4, 4)) / 4 for _ in range(k)] for _ in range(k)]
        c["b"] = [draw(st.integers(-4, 4)) / 2 for _ in range(k)]
    if kind == "craft":
        c["mode"] = [draw(st.sampled_from(["ProxA", "ProxB", "Passive"]))]
        c["init"] = [draw(st.integers(-925, 100)), draw(st.integers(-500, 500)), draw(v), draw(v), draw(st.integers(0, 100)), draw(st.integers(0, 20))]
    else:
        c["init"] = [draw(v) for _ in range(k)]
    if kind == "thermo":
        c["mode"] = [draw(st.sampled_from(["ON", "OFF"]))]
    if kind == "ballg":
        c["g"] = draw(st.sampled_from([9.8, 1.6, 3.5]))
    return c


def check_plain(case):
    k = case["kind"]
    ex = "verse.agents.example_agent."
    tol = 1e-4
    if k in ("vanderpol", "thermo", "craft"):
        a = getattr(importlib.import_module(ex + "origin_agent"), k + "_agent")("a", code=CODE)
    elif k == "sign":
        a = importlib.import_module(ex + "sign_agent").SignAgent("a")
    elif k == "robot":
        a = importlib.import_module(ex + "robot_agent").RobotAgent("a", code=CODE)
    elif k == "line":
        a = importlib.import_module(ex + "line_agent").LineAgent("a", code=CODE)
    elif k == "ball":
        a = importlib.import_module(ex + "ball_agent").BallAgent("a", code=CODE)
    elif k == "ballg":
        a = importlib.import_module(ex + "ballg_agent").Ball_g_agent("a", code=CODE, g_acc_val=case["g"])
    else:
        from verse import BaseAgent
        A, b = np.array(case["A"]), np.array(case["b"])

        class User(BaseAgent):
            @staticmethod
            def dynamics(t, y):
                return A @ np.asarray(y, float) + b
        a = User("a", code=CODE)
    init = list(case["init"])
    tr, what = run(a, case["mode"], init, case)
    f = {"vanderpol": lambda y: [y[1], (1 - y[0] ** 2) * y[1] - y[0]], "thermo": lambda y: [y[0] * (0.1 if case["mode"][0] == "ON" else -0.1), 1, 1],
         "craft": lambda y: craft(case["mode"][0], y), "sign": lambda y: [0] * len(y), "robot": lambda y: [1], "line": lambda y: [y[1], 0],
         "ball": lambda y: [y[2], y[3], 0, 0], "ballg": lambda y: [y[2], y[3], -case.get("g", 0), 0], "user": lambda y: np.array(case["A"]) @ y + np.array(case["b"])}[k]
    follow(tr, lambda y: f, what, case["dt"], tol=tol)
    halves(a, case["mode"], tr, case, what)
    if np.array_equal(tr[0, 1:], tr[-1, 1:]):
        return None
    return [k]


# ---------------------------------------------------------------- cars

@st.composite
def road(draw):
    """Lanes beside each other, straight or along an arc."""
    k, w = draw(st.integers(1, 3)), draw(st.integers(8, 24)) / 4
    ang = draw(st.one_of(st.integers(-3, 4).map(lambda i: i * math.pi / 4), st.floats(-3.2, 3.2)))
    p = np.array([draw(st.integers(-50, 50)), draw(st.integers(-50, 50))], float)
    out = []
    if draw(st.booleans()):
        ln = draw(st.integers(150, 300))
        d, nrm = np.array([math.cos(ang), math.sin(ang)]), np.array([-math.sin(ang), math.cos(ang)])
        for i in range(k):
            s = p - i * w * nrm
            out.append({"type": "S", "start": s.tolist(), "end": (s + ln * d).tolist(), "width": w})
    else:
        cw, R, turn = draw(st.booleans()), draw(st.integers(30, 80)), draw(st.floats(2.0, 5.5))
        for i in range(k):
            r = R + (i if not cw else -i) * w
            out.append({"type": "C", "center": p.tolist(), "radius": r, "start_phase": ang, "end_phase": ang - turn if cw else ang + turn, "clockwise": cw, "width": w})
    return out


CARS = {"NPCAgent": ["Normal", "Brake", "SwitchLeft"], "CarAgent": ["Normal", "Stop", "SwitchLeft", "SwitchRight", "Brake", "Accel"],
        "CarAgentDebounced": ["Normal", "Stop", "SwitchLeft", "SwitchRight", "Brake", "Accel"],
        "CarAgentSwitch2": ["Normal", "Stop", "SwitchLeft", "SwitchRight", "SwitchLeft2", "SwitchRight2", "Brake", "Accel"], "WeirdCarAgent": ["Normal", "SwitchLeft", "SwitchRight"]}
SHIFT = {"SwitchLeft": 1, "SwitchRight": -1, "SwitchLeft2": 2, "SwitchRight2": -2}


@st.composite
def cars(draw):
    kind = draw(st.sampled_from(sorted(CARS)))
    n, dt, T = steps(draw, 10)
    lanes = draw(road())
    i = draw(st.integers(0, len(lanes) - 1))
    v0 = draw(st.one_of(st.just(0.0), st.floats(0, 5), st.integers(0, 5).map(float)))
    five = kind in ("CarAgentDebounced", "CarAgentSwitch2") or kind == "NPCAgent" and draw(st.booleans())
    return {"kind": kind, "n": n, "dt": dt, "T": T, "cut": draw(st.integers(0, 9)), "road": lanes, "lane": i, "mode": draw(st.sampled_from(CARS[kind])),
            "at": [draw(st.floats(0.3, 0.7)), draw(st.floats(-1.5, 1.5))], "off": draw(st.one_of(st.floats(-0.5, 0.5), st.floats(-3.1, 3.1))), "turns": draw(st.integers(-2, 2)),
            "v": v0, "timer": [draw(st.integers(0, 20)) / 4] if five else [], "accel": draw(st.sampled_from([1, 2, 0.5])), "speed": draw(st.sampled_from([2, 4, 0.5]))}


def control(case, ref, y):
    """Steering and acceleration; None where the rule is not continuous."""
    lon, lat = local(ref, y[:2])
    mode, theta, v = case["mode"], y[2], y[3]
    if case["kind"] == "WeirdCarAgent":
        if abs(abs(theta) - 0.8) < 1e-9:
            return None
        if abs(theta) > 0.8:
            return 0, 0
        return (0.2 if mode == "SwitchLeft" and theta >= 0 else -0.2 if mode == "SwitchRight" and theta <= 0 else 0), 0
    if ref.g["type"] == "C" and abs(lat) > 0.8 * ref.g["radius"]:
        return None
    a, d = 0, -lat
    if case["kind"] != "NPCAgent":
        d += SHIFT.get(mode, 0) * ref.g["width"]
        a = max(-case["accel"], -v) if mode == "Brake" else min(case["accel"], case["speed"] - v) if mode == "Accel" else 0
    psi = c17.wrap(ref.heading(lon) - theta)
    if abs(psi) > math.pi - 1e-3 or v < 1e-9 and abs(d) < 1e-4:
        return None
    return min(max(psi + math.atan2(0.45 * d, v), -0.61), 0.61), a


def local(ref, p):
    g = ref.g
    if g["type"] == "S":
        d = p - np.array(g["start"])
        return float(d @ ref.d) / ref.length, float(ref.d[0] * d[1] - ref.d[1] * d[0]) / ref.length
    d = p - np.array(g["center"])
    sg = -1 if g["clockwise"] else 1
    mid = (g["start_phase"] + g["end_phase"]) / 2
    return ref.length / 2 + sg * c17.wrap(math.atan2(d[1], d[0]) - mid) * g["radius"], sg * (g["radius"] - float(np.hypot(*d)))


def check_cars(case):
    from verse.map.lane import Lane
    from verse.map.lane_map import LaneMap
    mod = importlib.import_module("verse.agents.example_agent.car_agent")
    if case["kind"] == "NPCAgent":
        a = mod.NPCAgent("a")
    elif case["kind"] == "WeirdCarAgent":
        a = mod.WeirdCarAgent("a", code=CODE)
    else:
        a = getattr(mod, case["kind"])("a", code=CODE, speed=case["speed"], accel=case["accel"])
    m = LaneMap([Lane("T%d" % i, [c17.make(g, "s%d" % i)]) for i, g in enumerate(case["road"])])
    ref = c17.Ref(case["road"][case["lane"]])
    lon = case["at"][0] * ref.length
    p = ref.position(lon, case["at"][1] * ref.g["width"])
    init = [float(p[0]), float(p[1]), ref.heading(lon) + case["off"] + c17.TAU * case["turns"], case["v"]] + case["timer"]
    mode = [case["mode"], "T%d" % case["lane"]]
    tr, what = run(a, mode, init, case, m)

    def f(y):
        u = control(case, ref, y)
        if u is None:
            return None
        # the rates are those of the step's start
        return lambda z: [z[3] * math.cos(z[2] + u[0]), z[3] * math.sin(z[2] + u[0]), z[3] / 1.75 * math.sin(u[0]), u[1]] + [1] * len(case["timer"])
    follow(tr, f, what, case["dt"], clamp=3)
    if case["kind"] == "WeirdCarAgent" and any(abs(abs(t) - 0.8) < 1e-2 or abs(t) < 1e-2 for t in tr[:, 3]) or any(control(case, ref, y) is None for y in tr[:, 1:]):
        return [case["kind"], case["mode"]]
    if case["v"] > 0.5:
        halves(a, mode, tr, case, what, m)
    return [case["kind"], case["mode"]] + (["several turns"] if abs(init[2]) > 4 else []) + [ref.g["type"]]


# ---------------------------------------------------------------- the quadrotor

@st.composite
def quads(draw):
    w = draw(c18.waypoints())
    w["dt"] = draw(st.sampled_from([0.05, 0.1, 0.25]))
    w["tlim"] = w["dt"] * draw(st.integers(2, 10))
    w["tlim"] = round(w["tlim"], 10)
    w["speed"] = draw(st.integers(1, 8)) / 2
    w["n"] = draw(st.integers(1, 25))
    w["T"] = round(w["n"] * w["dt"], 10)
    w["vel"] = [draw(st.integers(-4, 4)) / 4 for _ in range(3)]
    w["mode"] = draw(st.sampled_from(["Normal", "MoveUp"]))
    return w


NET = {}


def net():
    if not NET:
        f = importlib.import_module("verse.agents.example_agent.quadrotor_agent").__file__
        NET.update({k: np.array(v, np.float64) for k, v in json.load(open(os.path.join(os.path.dirname(f), "prarm.json"))).items() if k.startswith(("weight", "bias"))})
    return NET


def scores(x):
    w = net()
    x = np.tanh(w["weight1"] @ x + w["bias1"])
    x = np.tanh(w["weight2"] @ x + w["bias2"])
    return w["weight3"] @ x + w["bias3"]


INPUTS = [(a, b, c) for a in (-0.1, 0.1) for b in (-0.1, 0.1) for c in (7.81, 11.81)]


def check_quads(case):
    from verse.map.lane_3d import Lane_3d
    from verse.map.lane_map_3d import LaneMap_3d
    Q = importlib.import_module("verse.agents.example_agent.quadrotor_agent").QuadrotorAgent
    dt, tl = case["dt"], case["tlim"]

    def world():
        return LaneMap_3d([Lane_3d("T0", [c18.make(case["lane"])])])
    a = Q("q", code=CODE, t_v_pair=[tl, case["speed"]], box_side=[1, 1, 1, 1, 1, 1])
    r = c18.Ref3(case["lane"])
    p = r.centre(case["lon"] + 5) + case["lat"] * c18.perp(r.t, case["ang"])
    init = [float(v) for v in p] + [float(v) for v in case["vel"]]
    tr, what = run(a, [case["mode"], "T0"], init, case, world())
    # follow the waypoints
    m = world()
    wp = m.get_next_point("T0", "x", np.array(init[:3]), None, [tl, case["speed"]])
    per = round(tl / dt)
    for i in range(case["n"]):
        if i and i % per == 0:
            wp = m.get_next_point("T0", "x", None, None, [tl, case["speed"]])
        vref = (np.array(wp[3:]) - np.array(wp[:3])) / tl
        pref = np.array(wp[:3]) + vref * (i % per) * dt
        y = tr[i, 1:]
        s = scores(np.concatenate([0.2 * (y[:3] - pref), 0.1 * (y[3:] - vref)]))
        o = np.argsort(s)
        good = False
        for k in o[::-1]:
            if s[o[-1]] - s[k] > 1e-3:
                break
            u = INPUTS[k]
            acc = np.array([9.81 * math.tan(u[0]), -9.81 * math.tan(u[1]), u[2] - 9.81])
            want = np.concatenate([y[:3] + y[3:] * dt + acc * dt * dt / 2, y[3:] + acc * dt])
            if np.all(np.abs(tr[i + 1, 1:] - want) <= 1e-4 * (1 + np.abs(want).max())):
                good = True
                break
        if not good:
            raise Violation("%s along %s at %r for %r: step %d from %s reaches %s, the controller's input %s leads to %s"
                            % (what, case["lane"], case["speed"], tl, i, y.tolist(), tr[i + 1, 1:].tolist(), INPUTS[int(o[-1])], want.tolist()))
    return ["several waypoints"] if case["n"] > per else ["one waypoint"]


# ---------------------------------------------------------------- in a scenario

SCEN = """
import copy
from enum import Enum, auto
class AgentMode(Enum):
%s
class TrackMode(Enum):
    T0 = auto()
    T1 = auto()
    T2 = auto()
class State:
    x: float
    y: float
    theta: float
    v: float
%s    agent_mode: AgentMode
    track_mode: TrackMode
    def __init__(self, x, y, theta, v, %sagent_mode: AgentMode, track_mode: TrackMode):
        pass
def decisionLogic(ego: State, others: State, track_map):
    output = copy.deepcopy(ego)
    return output
"""


@st.composite
def scenes(draw):
    n, dt, T = steps(draw, 6)
    lanes = draw(road())
    ags = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["NPCAgent", "CarAgent", "CarAgentDebounced"]))
        ags.append({"kind": kind, "mode": draw(st.sampled_from(CARS[kind])), "lane": draw(st.integers(0, len(lanes) - 1)), "at": [draw(st.floats(0.3, 0.7)), draw(st.floats(-1, 1))],
                    "off": draw(st.floats(-0.5, 0.5)), "v": draw(st.integers(1, 8)) / 2, "timer": [0.0] if kind == "CarAgentDebounced" else []})
    return {"n": n, "dt": dt, "T": T, "road": lanes, "agents": ags}


def check_scenes(case):
    """In a scenario an agent moves as it does alone."""
    from verse import Scenario
    from verse.map.lane import Lane
    from verse.map.lane_map import LaneMap
    from .. import world
    mod = importlib.import_module("verse.agents.example_agent.car_agent")
    m = LaneMap([Lane("T%d" % i, [c17.make(g, "s%d" % i)]) for i, g in enumerate(case["road"])])
    sc = Scenario(world.config())
    sc.set_map(m)
    alone = {}
    for i, g in enumerate(case["agents"]):
        ref = c17.Ref(case["road"][g["lane"]])
        lon = g["at"][0] * ref.length
        p = ref.position(lon, g["at"][1] * ref.g["width"])
        init = [float(p[0]), float(p[1]), ref.heading(lon) + g["off"], g["v"]] + g["timer"]
        src = SCEN % ("".join("    %s = auto()\n" % x for x in CARS[g["kind"]]), "    timer: float\n" if g["timer"] else "", "timer, " if g["timer"] else "")
        mk = lambda: mod.NPCAgent("c%d" % i) if g["kind"] == "NPCAgent" else getattr(mod, g["kind"])("c%d" % i, code=src)
        a = mk()
        sc.add_agent(a)
        E = [world.Named(x) for x in (g["mode"], "T%d" % g["lane"])]
        sc.set_init_single("c%d" % i, [init], tuple(E))
        alone["c%d" % i] = np.asarray(mk().TC_simulate([g["mode"], "T%d" % g["lane"]], init, case["T"], case["dt"], m), float)
    tree = sc.simulate(case["T"], case["dt"])
    if len(tree.nodes) != 1:
        raise Violation("no agent has a transition, the tree has %d nodes" % len(tree.nodes))
    for k, want in alone.items():
        got = np.asarray(tree.root.trace[k], float)
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-9):
            raise Violation("%s in a scenario: %s; alone: %s" % (k, got.tolist(), want.tolist()))
    return ["%d agents" % len(alone)]


def subs():
    return [Sub("plain", plain(), check_plain, 1500), Sub("cars", cars(), check_cars, 2500), Sub("quadrotor", quads(), check_quads, 250), Sub("scenario", scenes(), check_scenes, 300)]
