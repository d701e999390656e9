"""C09: computed tubes enclose trajectories."""
import math
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm

from .. import world
from ..core import Sub, Violation, HarnessError

PROPERTY = "C09"
RULE = ("A case is a flow (constant-rate, linear, or a nonlinear closed form), an initial box, step, horizon, bloating method and number "
        "of sampled trajectories; non-trivial when the box has positive width and the horizon at least two steps.")
ASSUMPTIONS = ["a point's trajectory is required inside the tube when its normalised distance to the centre's trajectory never exceeds the "
               "largest growth seen between the recorded sampled trajectories (recomputed here), which always holds for flows that preserve distances",
               "tolerance 1e-9 relative, plus 1e-9 of the radius (rounding)"]


def flow(spec, x0, t):
    """State at time t."""
    k = spec["kind"]
    x0 = np.array(x0, dtype=float)
    if k == "rate":
        return x0 + t * np.array(spec["c"])
    if k == "lin":
        return expm(np.array(spec["A"]) * t) @ x0 + t * np.array(spec["c"])
    if k == "relax":  # contraction towards c
        c = np.array(spec["c"])
        return c + (x0 - c) * math.exp(-spec["k"] * t)
    if k == "wave":  # bounded nonlinear spreading
        return x0 + np.sin(spec["k"] * t) * np.tanh(x0 * np.array(spec["c"])) * 0.5
    if k == "clip":
        return np.maximum(x0 - t * np.abs(np.array(spec["c"])), np.minimum(x0, spec["k"]))
    if k == "mix":  # every dimension also depends on the first one
        return x0 + t * np.array(spec["c"]) * np.cos(x0[0])
    raise HarnessError(k)


def simulate(spec, x0, T, dt):
    n = int(round(T / dt))
    if spec["kind"] == "lin":  # one-step matrix, as an integrator would
        M, c = expm(np.array(spec["A"]) * dt), np.array(spec["c"])
        x = np.array(x0, dtype=float)
        rows = [x]
        for i in range(n):
            x = M @ x
            rows.append(x + (i + 1) * dt * c)
        return np.column_stack([np.arange(n + 1) * dt, np.array(rows)])
    return np.array([[i * dt] + list(flow(spec, x0, i * dt)) for i in range(n + 1)])


small = st.integers(-6, 6).map(lambda i: i / 4)


@st.composite
def flows(draw, d):
    k = draw(st.sampled_from(["rate", "rate", "lin", "lin", "relax", "wave", "clip", "mix"]))
    s = {"kind": k, "c": [draw(small) for _ in range(d)], "k": draw(st.sampled_from([0.25, 0.5, 1.0, 2.0]))}
    if k == "lin":
        s["A"] = [[draw(st.integers(-4, 4)) / 4 for _ in range(d)] for _ in range(d)]
    return s


@st.composite
def cases(draw):
    d = draw(st.integers(1, 4))
    f = draw(flows(d))
    scale = draw(st.sampled_from([1.0, 1.0, 10.0, 0.01]))
    lo = [draw(st.integers(-20, 20)) / 8 * scale for _ in range(d)]
    w = [draw(st.sampled_from([0, 0, 0.1, 0.25, 1.0, 2.0, 1e-3])) * scale for _ in range(d)]
    hi = [a + b for a, b in zip(lo, w)]
    if draw(st.integers(0, 5)) == 0:  # a width that is just rounding
        i = draw(st.integers(0, d - 1))
        hi[i] = draw(st.sampled_from([float(np.nextafter(lo[i], 1e9)), lo[i] + 4e-16 * abs(lo[i]), lo[i] + 1e-10 * max(1, abs(lo[i])), lo[i] + 1e-9 * max(1, abs(lo[i]))]))
    return {"flow": f, "init": [lo, hi], "dt": draw(st.sampled_from([0.1, 0.05, 0.25, 1.0, 0.01])),
            "n": draw(st.sampled_from([1, 2, 3, 5, 10, 20])), "method": draw(st.sampled_from(["PW", "PW", "GLOBAL"])),
            "traces": draw(st.sampled_from([10, 10, 10, 1, 3, 30])),
            "pts": [[draw(st.sampled_from([0.0, 1.0, 0.25, 0.5, 0.9])) for _ in range(d)] for _ in range(6)]}


def scales(lo, hi):
    """Radius per dimension; widths that are just rounding do not count."""
    r = (np.array(hi) - np.array(lo)) / 2
    return np.where(r <= 2e-12 * np.abs(np.array(lo)), 1.0, np.where(r == 0, 1.0, r))


def distance(p, center, r1):
    """Normalised distance, less what rounding may add to it."""
    return max(0.0, np.max(np.abs((p - center) / r1)) - np.max(1e-15 * (np.abs(p) + np.abs(center)) / r1))


def growth(recorded, r):
    """Largest growth between recorded trajectories, per step and dimension, of the normalised distance."""
    tr = [np.array(t)[:, 1:] / r for t in recorded]
    n = len(tr[0])
    out = np.zeros((n, len(r)))
    for i in range(len(tr)):
        for j in range(i):
            d0 = np.max(np.abs(tr[i][0] - tr[j][0]))
            if d0 > 1e-9:
                out = np.maximum(out, np.abs(tr[i] - tr[j]) / d0)
    return out


def enclosed(tube, k, x, slack):
    """Is sample x at index k inside both neighbouring steps of the tube?"""
    for s in (k - 1, k):
        if 0 <= s < len(tube) // 2:
            lo, hi = np.array(tube[2 * s][1:]), np.array(tube[2 * s + 1][1:])
            if np.any(x < lo - slack) or np.any(x > hi + slack):
                return s, lo, hi
    return None


def judge(spec, init, dt, n, tube, recorded, pts, t0=0.0):
    lo, hi = np.array(init[0]), np.array(init[1])
    radii, center = (hi - lo) / 2, (hi + lo) / 2
    slack = 1e-9 * (1 + np.abs(lo) + np.abs(hi) + (hi - lo)) + 1e-9
    tube = [list(map(float, r)) for r in tube]
    if len(tube) != 2 * n:
        raise Violation("%d steps of %s computed as %d rows" % (n, dt, len(tube)))
    for s in range(n):
        a, b = tube[2 * s][0], tube[2 * s + 1][0]
        if abs(a - t0 - s * dt) > 1e-9 * (1 + n) or abs(b - t0 - (s + 1) * dt) > 1e-9 * (1 + n):
            raise Violation("step %d of the tube covers times [%s, %s] instead of [%s, %s]" % (s, a, b, t0 + s * dt, t0 + (s + 1) * dt))
    if np.any(np.array(tube[0][1:]) > lo + slack) or np.any(np.array(tube[1][1:]) < hi - slack):
        raise Violation("first step %s does not contain the initial box %s" % (tube[:2], init))
    for tr in recorded:
        for k in range(n + 1):
            e = enclosed(tube, k, np.array(tr[k][1:]), slack * (1 + np.abs(np.array(tr[k][1:]))))
            if e:
                raise Violation("sampled trajectory from %s: state %s at sample %d is outside step %d [%s, %s]"
                                % (list(tr[0][1:]), list(tr[k][1:]), k, e[0], list(e[1]), list(e[2])))
    r1 = scales(lo, hi)
    S = growth(recorded, r1)
    c = simulate(spec, center, n * dt, dt)[:, 1:]
    judged = 0
    for f in pts:
        p = lo + (hi - lo) * np.array(f)
        tr = simulate(spec, p, n * dt, dt)[:, 1:]
        if np.any(np.abs(tr - c) / r1 > S * distance(p, center, r1) + 1e-12):
            continue
        judged += 1
        for k in range(n + 1):
            e = enclosed(tube, k, tr[k], slack * (1 + np.abs(tr[k])))
            if e:
                raise Violation("trajectory from %s, which spreads no faster than the sampled ones: state %s at sample %d is outside step %d [%s, %s]"
                                % (list(p), list(tr[k]), k, e[0], list(e[1]), list(e[2])))
    if spec["kind"] == "rate" and judged < len(pts) and len(recorded) >= 11:
        # distances are preserved: every point is covered
        for f in pts:
            p = lo + (hi - lo) * np.array(f)
            for k in range(n + 1):
                x = flow(spec, p, k * dt)
                e = enclosed(tube, k, x, 1e-6 * (1 + np.abs(x)))
                if e:
                    raise Violation("distances are preserved, but the state %s of the trajectory from %s at sample %d is outside step %d" % (list(x), list(p), k, e[0]))
    return judged


def check(case):
    from verse.analysis import dryvr
    spec, recorded = case["flow"], []

    def sim(mode, x0, T, dt, lane_map=None):
        tr = simulate(spec, x0, T, dt)
        recorded.append(tr)
        return tr

    init = case["init"]
    tube = dryvr.calc_bloated_tube("A", [list(init[0]), list(init[1])], case["n"] * case["dt"], case["dt"], sim, case["method"], 100, case["traces"])
    lo, hi = np.array(init[0]), np.array(init[1])
    for tr in recorded:
        if np.any(tr[0][1:] < lo - 1e-12) or np.any(tr[0][1:] > hi + 1e-12):
            raise Violation("sampled state %s lies outside the initial box %s" % (tr[0][1:], init))
    if len(recorded) != case["traces"] + 1:
        raise Violation("asked for %d sampled trajectories besides the centre's, got %d" % (case["traces"], len(recorded) - 1))
    j = judge(spec, init, case["dt"], case["n"], tube, recorded, case["pts"])
    if not np.any(hi > lo) or case["n"] < 2:
        return None
    return [spec["kind"], case["method"], "points" if j else "samples only"]


class FlowAgent(world.BaseAgent):
    def __init__(self, id, spec):
        self.id = id
        self.spec = spec
        self.decision_logic = world.ControllerIR.empty()
        self.init_cont = self.init_disc = None
        self.static_parameters = self.uncertain_parameters = None
        self.recorded = []

    def TC_simulate(self, mode, x0, T, dt, lane_map=None):
        tr = simulate(self.spec, x0, T, dt)
        self.recorded.append(tr)
        return tr


def check_scenario(case):
    sc = world.Scenario(world.config())
    for i, c in enumerate(case["parts"]):
        sc.add_agent(FlowAgent("a%d" % i, c["flow"]))
    for i, c in enumerate(case["parts"]):
        sc.set_init_single("a%d" % i, [list(c["init"][0]), list(c["init"][1])], (world.Named("A"),))
    params = {} if case["method"] == "PW" else {"bloating_method": case["method"]}
    tree = sc.verify(case["n"] * case["dt"], case["dt"], params=params)
    tot = 0
    for i, c in enumerate(case["parts"]):
        a = "a%d" % i
        tot += judge(c["flow"], c["init"], case["dt"], case["n"], tree.root.trace[a], sc.agent_dict[a].recorded, c["pts"])
    if len(tree.nodes) != 1 or case["n"] < 2 or not any(h > l for c in case["parts"] for l, h in zip(*c["init"])):
        return None
    return [case["method"], "agents=%d" % len(case["parts"])] + (["points"] if tot else [])


@st.composite
def scenarios(draw):
    parts = draw(st.lists(cases(), min_size=1, max_size=3))
    d = len(parts[0]["init"][0])
    for p in parts:
        for k in ("dt", "n", "method", "traces"):
            p.pop(k)
    return {"parts": parts, "dt": draw(st.sampled_from([0.1, 0.05, 0.25])), "n": draw(st.sampled_from([1, 2, 5, 10])),
            "method": draw(st.sampled_from(["PW", "GLOBAL"]))}


def subs():
    return [Sub("tubes", lambda: cases(), check, 12000),
            Sub("scenarios", lambda: scenarios(), check_scenario, 3500)]
