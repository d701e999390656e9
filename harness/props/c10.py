"""C10: discrete-time and mixed-monotone reachability."""
import importlib.util, os, sys, tempfile, types, ast, atexit, shutil, hashlib
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm

from .. import world, dl, execref
from ..core import Sub, Violation, sized, HarnessError
from . import c07, c09

if "astunparse" not in sys.modules:
    try:
        import astunparse  # noqa
    except ImportError:  # a dependency this environment lacks; Python's own unparser stands in
        m = types.ModuleType("astunparse")
        m.unparse = ast.unparse
        sys.modules["astunparse"] = m

PROPERTY = "C10"
RULE = ("A case is a discrete-time map or flow (affine or strictly monotone, with uncertain inputs), an initial box, step and horizon; "
        "non-trivial when the box or the uncertainty has positive width; for the discrete sampling method inside scenarios, when some sampled "
        "execution jumps.")
ASSUMPTIONS = ["decomposition functions given to the library are correct ones (exact for affine maps), Jacobians are exact",
               "for the library's own decompositions (from a Jacobian or from the program text), maps are strictly monotone in each variable, so that local optimisation is global",
               "executions for uncertain inputs use an input that is constant during each step"]
TOL = 1e-6


# ---- sampling

def check_sampled(case):
    from verse.analysis import dryvr_disc
    spec, recorded = case["flow"], []

    def sim(mode, x0, T, dt, lane_map=None):
        tr = c09.simulate(spec, x0, T, dt)
        recorded.append(tr)
        return tr

    init, n, dt = case["init"], case["n"], case["dt"]
    kw = {}
    if case["given"]:
        rs = np.random.RandomState(case["n"])
        lo, hi = np.array(init[0]), np.array(init[1])
        for p in [(lo + hi) / 2] + [lo + (hi - lo) * rs.rand(len(lo)) for _ in range(case["traces"])]:
            sim("A", p, n * dt, dt)
        kw["traces"] = list(recorded)
    tube = dryvr_disc.calc_bloated_tube_dryvr("A", [list(init[0]), list(init[1])], n * dt, dt, sim, case["method"], 100, case["traces"], **kw)
    tube = [list(map(float, r)) for r in tube]
    if len(recorded) != case["traces"] + 1:
        raise Violation("asked for %d sampled executions, got %d" % (case["traces"] + 1, len(recorded)))
    lo, hi = np.array(init[0]), np.array(init[1])
    slack = 1e-9 * (1 + np.abs(lo) + np.abs(hi) + (hi - lo)) + 1e-9
    if len(tube) != 2 * (n + 1):
        raise Violation("%d steps yield %d boxes instead of one per sample" % (n, len(tube) // 2))
    for k in range(n + 1):
        if abs(tube[2 * k][0] - k * dt) > 1e-9 or abs(tube[2 * k + 1][0] - k * dt) > 1e-9:
            raise Violation("box %d is for times %s, %s instead of %s" % (k, tube[2 * k][0], tube[2 * k + 1][0], k * dt))
    if np.any(np.array(tube[0][1:]) > lo + slack) or np.any(np.array(tube[1][1:]) < hi - slack):
        raise Violation("first box %s does not contain the initial box %s" % (tube[:2], init))

    def inside(tr, what):
        for k in range(n + 1):
            x = np.array(tr[k][1:])
            s = slack * (1 + np.abs(x))
            if np.any(x < np.array(tube[2 * k][1:]) - s) or np.any(x > np.array(tube[2 * k + 1][1:]) + s):
                raise Violation("%s from %s: state %s at step %d is outside %s" % (what, list(tr[0][1:]), list(x), k, tube[2 * k: 2 * k + 2]))

    for tr in recorded:
        inside(tr, "sampled execution")
    radii, center = (hi - lo) / 2, (hi + lo) / 2
    r1 = c09.scales(lo, hi)
    S = c09.growth(recorded, r1)
    c = c09.simulate(spec, center, n * dt, dt)[:, 1:]
    j = 0
    for f in case["pts"]:
        p = lo + (hi - lo) * np.array(f)
        tr = c09.simulate(spec, p, n * dt, dt)
        if not np.any(np.abs(tr[:, 1:] - c) / r1 > S * c09.distance(p, center, r1) + 1e-12):
            inside(tr, "execution that spreads no faster than the sampled ones")
            j += 1
        elif spec["kind"] == "rate" and case["traces"] >= 10:
            slack = slack + 1e-6
            inside(tr, "execution of a distance-preserving flow")
    if not np.any(hi > lo):
        return None
    return [spec["kind"], case["method"], "points" if j else "samples only"]


@st.composite
def sampled(draw):
    c = draw(c09.cases())
    c["given"] = draw(st.integers(0, 4)) == 0
    return c


# ---- scenarios with the discrete method

def covered_disc(ref, v, path):
    """Every sample of the execution lies in the box of the same step since the jump."""
    if not ref["expanded"]:
        return None
    ids = list(ref["modes"])
    n = min(len(v.trace[a]) for a in ids) // 2 if v.trace else 0
    start = int(round(v.start_time / ref["dt"]))
    length = min(len(t) for t in ref["trace"].values())
    for k in range(length):
        for a in ids:
            kk = k if a in ref["jumpers"] else ref["i0"] + k - start
            if kk >= n:
                if a not in ref["jumpers"]:
                    continue
                return "%s: no box for sample %d" % (path, kk)
            if not c07.inside(ref["trace"][a][k], v.trace[a][2 * kk][1:], v.trace[a][2 * kk + 1][1:]):
                return "%s: %s at sample %d is %s, outside %s" % (path, a, k, ref["trace"][a][k], v.trace[a][2 * kk: 2 * kk + 2])
    for c in ref["child"]:
        if not c["expanded"]:
            continue
        why = []
        for w in v.child:
            if {a: tuple(m) for a, m in w.mode.items()} == c["modes"]:
                d = covered_disc(c, w, path + "/" + "+".join("".join(m) for m in c["modes"].values()))
                if d is None:
                    break
                why.append(d)
        else:
            return " && ".join(why) if why else "%s: the execution jumps to %s at sample %d, no such successor" % (path, c["modes"], length - 1)
    return None


def check_disc(case):
    from verse.analysis import ReachabilityMethod
    T, dt = case["n"] * case["dt"], case["dt"]
    refs, jumps = [], False
    for f in case["pts"]:
        rs = execref.RefSim({"agents": c07.point(case, f)}, T, dt, case["H"], cap=40)
        dl.margin = [float("inf")]
        try:
            ref = rs.run()
        except execref.TooBig:
            return None
        finally:
            tight, dl.margin = dl.margin[0] < TOL, None
        if not tight:
            c07.mark(ref, N=case["n"], dt=dt, jumpers={a["id"] for a in case["agents"] if a["prog"]})
            refs.append((f, ref))
            jumps = jumps or bool(ref["child"])
    if not jumps:
        return None
    with sized(4.0):
        tree = world.build({"agents": case["agents"]}, world.config(reachability_method=ReachabilityMethod.DRYVR_DISC)).verify(T, dt, max_height=case["H"])
    for f, ref in refs:
        d = covered_disc(ref, tree.root, "root")
        if d:
            raise Violation("execution from %s: %s" % ({a["id"]: a["init"][0] for a in c07.point(case, f)}, d))
    return ["scenario", "agents=%d" % len(case["agents"])]


# ---- mixed monotone

def pm(A):
    A = np.array(A, dtype=float)
    return np.maximum(A, 0), np.minimum(A, 0)


class MM(world.BaseAgent):
    """x+ = x + dt * (A x + B w + c)   or   x' = A x + B w + c, with the exact decomposition"""

    def __init__(self, id, case):
        self.id = id
        self.case = case
        self.decision_logic = world.ControllerIR.empty()
        self.init_cont = self.init_disc = None
        self.static_parameters = self.uncertain_parameters = None
        A, B, self.c = np.array(case["A"], dtype=float), np.array(case["B"], dtype=float), np.array(case["c"], dtype=float)
        dt, d = case["dt"], len(self.c)
        self.M, self.N = np.eye(d) + dt * A, dt * B
        self.A, self.B = A, B

    def dynamics(self, x, args):
        w, dt = np.array(args[:-1]), args[-1]
        return list(self.M @ np.array(x) + self.N @ w + dt * self.c)

    def step(self, x, w):
        return self.M @ x + self.N @ w + self.case["dt"] * self.c


class MMDecomp(MM):
    def decomposition(self, x, w, xhat, what, dt=None):
        if dt is None:  # continuous: off-diagonal entries decide
            D = np.diag(np.diag(self.A))
            Ap, An = pm(self.A - D)
            Bp, Bn = pm(self.B)
            return list(D @ x + Ap @ x + An @ xhat + Bp @ w + Bn @ what + self.c)
        Mp, Mn = pm(self.M)
        Np, Nn = pm(self.N)
        return list(Mp @ x + Mn @ xhat + Np @ w + Nn @ what + dt * self.c)


def phi(y):
    return y + 0.5 * np.sin(y)


class MMJac(MM):
    """Strictly monotone nonlinear: every term of M and N goes through y + sin(y)/2."""

    def dynamics(self, x, args):
        w, dt = np.array(args[:-1]), args[-1]
        return list(self.M @ phi(np.array(x)) + self.N @ phi(w) + dt * self.c)

    def step(self, x, w):
        return np.array(self.dynamics(x, list(w) + [self.case["dt"]]))

    def dynamics_jac(self, x, args):
        w = np.array(args[:-1])
        return np.hstack([self.M * (1 + 0.5 * np.cos(np.array(x))[None, :]), self.N * (1 + 0.5 * np.cos(w)[None, :])])


_dir = []


def text_agent(case):
    """An agent whose dynamics are written out in program text, which the library reads."""
    d, k = len(case["c"]), len(case["B"][0])
    xs, ws = ["x%d" % i for i in range(d)], ["w%d" % i for i in range(k)]
    lines = ["class TextAgent(MM):", "    def dynamics(self, x, args):",
             "        %s, dt = args" % ", ".join(ws), "        %s = x" % (", ".join(xs) if d > 1 else "x0,"), "        'Begin Dynamic'"]
    for i in range(d):
        t = [xs[i]] + ["dt * (%s)" % " + ".join(["%r * %s" % (a, v) for a, v in zip(case["A"][i], xs)] + ["%r * %s" % (b, v) for b, v in zip(case["B"][i], ws)] + ["%r" % case["c"][i]])]
        lines.append("        %s_plus = %s" % (xs[i], " + ".join(t)))
    lines += ["        'End Dynamic'", "        return [%s]" % ", ".join(x + "_plus" for x in xs)]
    src = "\n".join(lines) + "\n"
    if not _dir or _dir[0][0] != os.getpid():
        _dir[:] = [(os.getpid(), tempfile.mkdtemp(prefix="verif_mm_"))]
    name = "mm_" + hashlib.md5(src.encode()).hexdigest()[:12]
    path = os.path.join(_dir[0][1], name + ".py")
    open(path, "w").write(src)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    mod.MM = MM
    spec.loader.exec_module(mod)
    return mod.TextAgent("a", case)


small = st.integers(-4, 4).map(lambda i: i / 4)


@st.composite
def mm_cases(draw):
    kind = draw(st.sampled_from(["decomp", "cont", "jac", "text"]))
    d, k = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    pos = draw(st.booleans())
    ent = st.integers(0, 4).map(lambda i: i / 4) if pos else small
    lo = [draw(st.integers(-8, 8)) / 4 for _ in range(d)]
    wlo = [draw(st.integers(-4, 4)) / 4 for _ in range(k)]
    return {"kind": kind, "A": [[draw(ent) for _ in range(d)] for _ in range(d)], "B": [[draw(ent) for _ in range(k)] for _ in range(d)],
            "c": [draw(small) for _ in range(d)], "init": [lo, [v + draw(st.sampled_from([0, 0.25, 0.5, 1.0])) for v in lo]],
            "w": [wlo, [v + draw(st.sampled_from([0, 0.1, 0.25, 0.5])) for v in wlo]], "dt": draw(st.sampled_from([0.1, 0.25, 0.05, 0.3])),
            "n": draw(st.sampled_from([1, 2, 3, 4, 5, 7, 9])), "pts": [[[draw(st.sampled_from([0, 1, 0.5, 0.25])) for _ in range(d)],
                                                  [[draw(st.sampled_from([0, 1, 0.5])) for _ in range(k)] for _ in range(5)]] for _ in range(4)],
            "via": draw(st.sampled_from(["direct", "scenario"]))}


def check_mm(case):
    from verse.analysis import ReachabilityMethod, mixmonotone
    kind, n, dt = case["kind"], case["n"], case["dt"]
    ag = {"decomp": MMDecomp, "cont": MMDecomp, "jac": MMJac}[kind]("a", case) if kind != "text" else text_agent(case)
    init, w = [list(r) for r in case["init"]], [list(r) for r in case["w"]]
    if case["via"] == "direct":
        f = mixmonotone.calculate_bloated_tube_mixmono_cont if kind == "cont" else mixmonotone.calculate_bloated_tube_mixmono_disc
        tube = f(("A",), [init], w, round(n * dt, 10), dt, ag, None)
    else:
        m = ReachabilityMethod.MIXMONO_CONT if kind == "cont" else ReachabilityMethod.MIXMONO_DISC
        sc = world.Scenario(world.config(reachability_method=m))
        sc.add_agent(ag)
        sc.set_init([init], [(world.Named("A"),)], uncertain_param_list=[w])
        tube = sc.verify(n * dt, dt).root.trace["a"]
    if len(tube) != 2 * n:
        raise Violation("%d steps yield %d rows" % (n, len(tube)))
    for k in range(n):
        if abs(tube[2 * k][0] - k * dt) > 1e-9 or abs(tube[2 * k + 1][0] - (k + 1) * dt) > 1e-9:
            raise Violation("step %d covers times %s" % (k, [tube[2 * k][0], tube[2 * k + 1][0]]))
    lo, hi, wl, wh = (np.array(v, dtype=float) for v in (*init, *w))
    tol = TOL

    def run(x, ws):
        out = [x]
        for j in range(n):
            u = ws[j % len(ws)]
            if kind == "cont":
                d = len(x)
                E = expm(np.block([[ag.A, (ag.B @ u + ag.c)[:, None]], [np.zeros((1, d + 1))]]) * dt)
                x = E[:d, :d] @ x + E[:d, d]
            else:
                x = ag.step(x, u)
            out.append(x)
        return out

    for f, us in case["pts"]:
        x0, ws = lo + (hi - lo) * np.array(f), [wl + (wh - wl) * np.array(u) for u in us]
        tr = run(x0, ws)
        for k in range(n):
            a, b = np.array(tube[2 * k][1:]), np.array(tube[2 * k + 1][1:])
            for y in (tr[k], tr[k + 1]):
                t = tol * (1 + np.abs(y))
                if np.any(y < a - t) or np.any(y > b + t):
                    raise Violation("execution from %s with inputs %s is at %s, outside step %d [%s, %s]" % (list(x0), [list(u) for u in ws], list(y), k, list(a), list(b)))
    mono = np.all(ag.B >= 0) and (np.all(ag.A - np.diag(np.diag(ag.A)) >= 0) if kind == "cont" else np.all(ag.M >= 0))
    if mono:
        a, b = run(lo, [wl]), run(hi, [wh])
        for k in range(n):
            A, B = np.minimum.reduce([a[k], a[k + 1], b[k], b[k + 1]]), np.maximum.reduce([a[k], a[k + 1], b[k], b[k + 1]])
            if np.any(np.abs(A - tube[2 * k][1:]) > tol * (1 + np.abs(A))) or np.any(np.abs(B - tube[2 * k + 1][1:]) > tol * (1 + np.abs(B))):
                raise Violation("monotone: step %d is [%s, %s], the extreme executions reach [%s, %s]" % (k, tube[2 * k][1:], tube[2 * k + 1][1:], list(A), list(B)))
    if not (np.any(hi > lo) or np.any(wh > wl)):
        return None
    return [kind, case["via"]] + (["monotone"] if mono else [])


# ---- mixed monotone inside scenarios

def check_mm_scenario(case):
    from verse.analysis import ReachabilityMethod
    for a in case["agents"]:  # these methods know one flow per agent
        first = list(a["rates"].values())[0]
        a["rates"] = {m: first for m in a["rates"]}
    T, dt = case["n"] * case["dt"], case["dt"]
    refs, jumps = [], False
    for f in case["pts"]:
        rs = execref.RefSim({"agents": c07.point(case, f)}, T, dt, case["H"], cap=40)
        dl.margin = [float("inf")]
        try:
            ref = rs.run()
        except execref.TooBig:
            return None
        finally:
            tight, dl.margin = dl.margin[0] < TOL, None
        if not tight:
            c07.mark(ref, N=case["n"], dt=dt, jumpers={a["id"] for a in case["agents"] if a["prog"]})
            refs.append((f, ref))
            jumps = jumps or bool(ref["child"])
    if not jumps:
        return None
    kind = case["kind"]
    sc = world.build({"agents": case["agents"]}, world.config(reachability_method=ReachabilityMethod[kind]))
    for a in case["agents"]:
        ag, c = sc.agent_dict[a["id"]], np.array(list(a["rates"].values())[0], dtype=float)
        ag.dynamics = lambda x, args, c=c: list(np.array(x) + args[-1] * c)
        ag.decomposition = lambda x, w, xhat, what, dt=None, c=c: list(c) if dt is None else list(np.array(x) + dt * c)
        kw = {"static": [world.Named(s) for s in a["static"]]} if a.get("static") else {}
        sc.set_init_single(a["id"], [list(p) for p in a["init"]], tuple(a["mode"]), uncertain_param=[[0.0], [0.0]], **kw)
    with sized(4.0):
        tree = sc.verify(T, dt, max_height=case["H"])
    for f, ref in refs:
        d = c07.covered(ref, tree.root, "root")
        if d:
            raise Violation("%s: execution from %s: %s" % (kind, {a["id"]: a["init"][0] for a in c07.point(case, f)}, d))
    return [kind, "scenario", "agents=%d" % len(case["agents"])]


@st.composite
def mm_scenarios(draw):
    c = draw(c07.cases())
    c["kind"] = draw(st.sampled_from(["MIXMONO_DISC", "MIXMONO_CONT"]))
    return c


def subs():
    return [Sub("sampled", sampled, check_sampled, 4000),
            Sub("sampled scenarios", lambda: c07.cases(), check_disc, 900),
            Sub("mixmono", mm_cases, check_mm, 1000),
            Sub("mixmono scenarios", mm_scenarios, check_mm_scenario, 600)]
