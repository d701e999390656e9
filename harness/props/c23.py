"""C23: repeated analyses of one scenario."""
import copy, random

import numpy as np
from hypothesis import strategies as st

from .. import dl, world, execref
from ..core import Sub, Violation, sized, TooBig
from . import c02, c07, c12

PROPERTY = "C23"
RULE = ("A case is a scenario and a sequence of 2-5 analyses of it (simulate, simulate_multi, simulate_simple, verify, verify_partitioned; some repeated), or an initial set with seeds, "
        "or initial conditions of given sizes; non-trivial when some analysis in the sequence makes a transition, when the set is not a point, or when some size is wrong.")
ASSUMPTIONS = ["incremental analysis is off (that it changes nothing is C11)"]


@st.composite
def histories(draw):
    c = draw(c07.cases(draw(st.integers(0, 3)) == 0, road=draw(st.integers(0, 5)) == 0))
    c.pop("pts")
    for a in c["agents"]:
        if a["prog"] and draw(st.integers(0, 3)) == 0:
            c12.fork(draw, a["prog"])
    ops = []
    for _ in range(draw(st.integers(2, 5))):
        if ops and draw(st.integers(0, 2)) == 0:
            ops.append(draw(st.sampled_from(ops)))
            continue
        k = draw(st.sampled_from(["simulate", "verify", "verify", "multi", "dicts", "simple", "partitioned"]))
        ops.append([k, draw(st.integers(0, 5)), draw(st.integers(1, c["n"])), draw(st.sampled_from([1, 2, 3, 4])), draw(st.integers(1, 3))])
    c["ops"] = ops
    return c


def name(m):
    return m if isinstance(m, str) else m.name


def val(x):
    return np.asarray(x, dtype=float).tolist()


def full(n):
    """Everything in a tree, in order."""
    return [n.id, [(a, list(m)) for a, m in n.mode.items()], [(a, val(x)) for a, x in n.init.items()], n.start_time, n.height, sorted((a, list(map(str, l))) for a, l in (n.assert_hits or {}).items()),
            [(a, val(t)) for a, t in n.trace.items()], [(a, list(s)) for a, s in n.static.items()], [(a, repr(u)) for a, u in n.uncertain_param.items()], str(n.type), [full(c) for c in n.child]]


def snapshot(sc):
    """What the user has set, and the agents as far as the user can see them."""
    ir = lambda d: [list(d.state_defs.items()), list(d.mode_defs.items()), len(d.paths), [str(x.label) for x in d.asserts_veri]]
    return repr([{a: val(x) for a, x in sc.init_dict.items()}, {a: [name(m) for m in x] for a, x in sc.init_mode_dict.items()}, {a: [name(m) for m in x] for a, x in sc.static_dict.items()},
                 sc.uncertain_param_dict, list(sc.agent_dict), type(sc.sensor), type(sc.map), sorted(sc.map.lane_dict),
                 [(a.id, val(a.init_cont), [name(m) for m in a.init_disc], [name(m) for m in a.static_parameters or []], ir(a.decision_logic), a.rates) for a in sc.agent_dict.values()], vars(sc.config)])


def run(sc, op, case):
    k, seed, n, H, m = op
    T, dt = n * case["dt"], case["dt"]
    with sized(5.0):
        if k == "simulate":
            return [sc.simulate(T, dt, max_height=H, seed=seed)]
        if k == "simple":
            return [sc.simulate_simple(T, dt, max_height=H, seed=seed)]
        if k == "multi":
            return sc.simulate_multi(T, dt, max_height=H, seed=seed, num_sims=m)
        if k == "dicts":
            ds = [{a["id"]: [(l * (4 - (seed + i) % 5) + h * ((seed + i) % 5)) / 4 for l, h in zip(*a["init"])] for a in case["agents"]} for i in range(m)]
            old = copy.deepcopy(ds)
            out = sc.simulate_multi(T, dt, init_dict_list=ds, max_height=H)
            if ds != old:
                raise Violation("simulate_multi changed the given initial states %s to %s" % (old, ds))
            if [[(a, val(x)) for a, x in t.root.init.items()] for t in out] != [list(d.items()) for d in old]:
                raise Violation("simulate_multi with initial states %s starts from %s" % (old, [t.root.init for t in out]))
            return out
        if k == "partitioned":
            return [sc.verify_partitioned(T, dt, m, max_height=H)]
        return [sc.verify(T, dt, max_height=H)]


def fresh(case):
    return world.build({"agents": case["agents"]}, world.config(init_seg_length=case["seg"]))


def check_history(case):
    T, dt = case["n"] * case["dt"], case["dt"]
    try:
        execref.RefSim({"agents": c07.point(case, [[0.5] * len(a["init"][0]) for a in case["agents"]])}, T, dt, 4).run()
    except execref.TooBig:
        return None
    sc = fresh(case)
    inits = {a["id"]: ([list(p) for p in a["init"]], tuple(a["mode"])) for a in case["agents"]}
    given = copy.deepcopy(inits)
    for a in case["agents"]:
        i, m = inits[a["id"]]
        sc.set_init_single(a["id"], i, m, **({"static": [world.Named(s) for s in a["static"]]} if a.get("static") else {}))
    before = snapshot(sc)
    kept, want = [], {}
    jumps = False
    for i, op in enumerate(case["ops"]):
        key = str(op)
        if key not in want:
            want[key] = [full(t.root) for t in run(fresh(case), op, case)]
        got = run(sc, op, case)
        now = snapshot(sc)
        if now != before:
            raise Violation("analysis %d, %s, changed the scenario from\n%s\nto\n%s" % (i, op, before, now))
        if inits != given:
            raise Violation("analysis %d, %s, changed the caller's initial conditions from %s to %s" % (i, op, given, inits))
        got_full = [full(t.root) for t in got]
        if got_full != want[key]:
            raise Violation("analysis %d of the history %s gives another result than on a fresh scenario: %s instead of %s" % (i, case["ops"], first(got_full, want[key]), first(want[key], got_full)))
        if any(t.root.child for t in got):
            jumps = True
        kept.append((got, got_full))
    for i, (got, f) in enumerate(kept):
        if [full(t.root) for t in got] != f:
            raise Violation("the tree of analysis %d of %s was changed by later ones" % (i, case["ops"]))
    return sorted({op[0] for op in case["ops"]}) if jumps else None


def first(a, b, path=""):
    """Where a and b differ."""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %d elements" % (path, len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first(x, y, "%s[%d]" % (path, i))
    return "%s: %s" % (path, a)


@st.composite
def seed_cases(draw):
    n = draw(st.integers(1, 4))
    ags = []
    for i in range(draw(st.integers(1, 3))):
        lo = [draw(st.one_of(st.integers(-10, 10).map(float), st.floats(-1e6, 1e6))) for _ in range(n)]
        ags.append([lo, [l + draw(st.sampled_from([0.0, 0.0, 1e-9, 0.5, 3.0, 1e5])) for l in lo]])
    return {"inits": ags, "pt": draw(st.integers(0, 5)) == 0, "seed": draw(st.integers(0, 2 ** 31)), "k": draw(st.integers(1, 4)), "noise": draw(st.integers(0, 3)), "arr": draw(st.integers(0, 4)) == 0}


def seed_scenario(case):
    sc = world.Scenario(world.config())
    n = len(case["inits"][0][0])
    for i, r in enumerate(case["inits"]):
        sc.add_agent(world.RateAgent("a%d" % i, None, {"A": [1.0] * n}, 0))
        r = [list(p) for p in (r[:1] if case["pt"] else r)]
        sc.set_init_single("a%d" % i, np.array(r) if case["arr"] and not case["pt"] else r, (world.Named("A"),))
    return sc


def check_seed(case):
    def stir():
        for _ in range(case["noise"]):
            np.random.random()
            random.random()

    sc = seed_scenario(case)
    runs = []
    for s in (sc, seed_scenario(case), sc):
        stir()
        runs.append(val([s.simulate(1.0, 0.5, seed=case["seed"]).root.init[a] for a in s.agent_dict]))
        stir()
        s.simulate(1.0, 0.5)
    if runs[0] != runs[1] or runs[0] != runs[2]:
        raise Violation("seed %s gives the initial states %s" % (case["seed"], runs))
    multi = []
    for s in (sc, seed_scenario(case)):
        stir()
        multi.append([val([t.root.init[a] for a in s.agent_dict]) for t in s.simulate_multi(1.0, 0.5, seed=case["seed"], num_sims=case["k"])])
    if multi[0] != multi[1]:
        raise Violation("seed %s gives the initial states %s in simulate_multi" % (case["seed"], multi))
    free = [val([t.root.init[a] for a in sc.agent_dict]) for t in sc.simulate_multi(1.0, 0.5, num_sims=case["k"])]
    if len(multi[0]) != case["k"] or len(free) != case["k"]:
        raise Violation("simulate_multi made %d runs instead of %d" % (len(free), case["k"]))
    for what in (runs, multi[0], free):
        for pts in what:
            for p, r in zip(pts, case["inits"]):
                lo, hi = (r[0], r[0]) if case["pt"] else r
                if len(p) != len(lo) or not all(l <= x <= h for l, x, h in zip(lo, p, hi)):
                    raise Violation("the initial state %s is outside the initial set %s" % (p, [lo, hi]))
    wide = not case["pt"] and any(h - l > 0.1 for r in case["inits"] for l, h in zip(*r))
    if wide and case["k"] > 1 and (all(p == free[0] for p in free) or all(p == multi[0][0] for p in multi[0])):
        raise Violation("the %d runs of simulate_multi all start from %s" % (case["k"], free[0]))
    return ["agents=%d" % len(case["inits"])] if wide else None


TEXT = """
from enum import Enum, auto
import copy
class Mode(Enum):
    A = auto()
    B = auto()
class AuxMode(Enum):
    P = auto()
%s
def decisionLogic(ego: State%s):
    output = copy.deepcopy(ego)
    if ego.agent_mode == Mode.A and ego.%s >= 1000:
        output.agent_mode = Mode.B
    return output
"""


def klass(nm, cont, disc):
    names = [("agent_mode", "Mode"), ("aux_mode", "AuxMode")][:disc]
    c = ["c%d" % i for i in range(cont)]
    return "class %s:\n%s%s    def __init__(self, %s):\n        pass\n" % (nm, "".join("    %s: float\n" % x for x in c), "".join("    %s: %s\n" % x for x in names),
                                                                      ", ".join(c + ["%s: %s" % x for x in names]))


@st.composite
def size_cases(draw):
    cont, disc = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    c = {"cont": cont, "disc": disc, "other": draw(st.sampled_from([None, None, "before", "after"])), "ocont": draw(st.integers(1, 3)), "odisc": draw(st.integers(1, 2)),
         "rows": draw(st.sampled_from([1, 2, 2, 2, 0, 3])), "m": disc + draw(st.sampled_from([0, 0, 0, 1, -1])), "nag": draw(st.integers(1, 2)), "api": draw(st.sampled_from(["single", "all"])),
         "lists": draw(st.sampled_from([0, 0, 0, 1, -1]))}
    c["w"] = [cont + draw(st.sampled_from([0, 0, 0, 0, 1, -1])) for _ in range(c["rows"])]
    return c


def check_sizes(case):
    """Initial conditions are accepted exactly when their sizes fit the agent's state."""
    defs = [klass("State", case["cont"], case["disc"])]
    if case["other"]:
        defs.insert(0 if case["other"] == "before" else 1, klass("OtherState", case["ocont"], case["odisc"]))
    from typing import List  # noqa
    text = TEXT % ("\n".join(defs), ", others: List[OtherState]" if case["other"] else "", "c0")
    sc = world.Scenario(world.config())
    n = case["cont"]
    for i in range(case["nag"]):
        sc.add_agent(world.RateAgent("a%d" % i, text, {"A": [1.0] * n, "B": [0.0] * n}, 0))
    ok_init = [[0.0] * n, [0.5] * n]
    ok_mode = (world.Named("A"), world.Named("P"))[: case["disc"]]
    init = [[float(k)] * w for k, w in enumerate(case["w"])]
    mode = (world.Named("A"), world.Named("P"), world.Named("A"))[: case["m"]]
    fits = case["rows"] in (1, 2) and all(w == n for w in case["w"]) and case["m"] == case["disc"]
    try:
        if case["api"] == "single":
            for i in range(case["nag"] - 1):
                sc.set_init_single("a%d" % i, ok_init, ok_mode)
            sc.set_init_single("a%d" % (case["nag"] - 1), init, mode)
        else:
            k = case["nag"] + case["lists"]
            fits = fits and case["lists"] == 0
            sc.set_init(([ok_init] * k + [init])[-case["nag"] - case["lists"]:] if k else [], ([ok_mode] * k + [mode])[-k:] if k else [])
        accepted = True
    except (AssertionError, ValueError) as e:
        accepted, why = False, e
    if accepted != fits:
        raise Violation("an initial set with rows of %s values and %d modes for an agent with %d variables and %d modes%s is %s" % (
            case["w"], case["m"], n, case["disc"], "" if case["api"] == "single" or not case["lists"] else ", for %d agents more than there are" % case["lists"],
            "accepted" if accepted else "rejected: %s" % why))
    if fits:
        r = sc.simulate(1.0, 0.5, seed=0).root
        x = val(r.init["a%d" % (case["nag"] - 1)])
        lo, hi = init[0], init[-1]
        if not all(l <= v <= h for l, v, h in zip(lo, x, hi)) or len(x) != n:
            raise Violation("the initial state %s is outside the initial set %s" % (x, init))
    return ["rejected"] if not fits else None if not case["other"] else ["accepted"]


def subs():
    return [Sub("histories", histories(), check_history, 500), Sub("seeds", seed_cases(), check_seed, 400), Sub("sizes", size_cases(), check_sizes, 600)]
