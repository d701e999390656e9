"""C03: simple simulation = calling the user's function in Python; deterministic logics agree with simulate."""
import types
from enum import Enum
from types import SimpleNamespace

from .. import dl, world, execref
from ..core import Sub, Violation
from . import c02

PROPERTY = "C03"
RULE = ("A case is a scenario (1-3 agents, generated decision logics with or without assertions, flows, horizon, step, "
        "transition limit); non-trivial when the execution has at least one jump or assertion.")
ASSUMPTIONS = ["flows are constant-rate on a binary grid, so that both executions are exact"]


class PyExec:
    """Calls the real decisionLogic function, compiled by Python from the source text."""

    def __init__(self, spec, T, dt, H, cap=60):
        self.spec, self.dt, self.H, self.cap = spec, dt, H, cap
        self.N = int(round(T / dt))
        self.mods = {}
        for a in spec["agents"]:
            if a["prog"]:
                m = types.ModuleType("user_dl")
                exec(compile(dl.render(a["prog"]), "user", "exec"), m.__dict__)
                self.mods[a["id"]] = m

    def ns(self, mod, a, cont, modes):
        lay = a["lay"]
        d = dict(zip(lay["cont"], [float(v) for v in cont]))
        for (mv, en), v in zip(lay["disc"], modes):
            d[mv] = getattr(mod, en)[v]
        if lay.get("static"):
            d["type"] = mod.KindMode[a["static"][0]]
        return SimpleNamespace(**d)

    def run(self):
        ags = self.spec["agents"]
        modes = {a["id"]: tuple(a["mode"]) for a in ags}
        init = {a["id"]: [float(v) for v in a["init"][0]] for a in ags}
        root, parent, i0, h = None, None, 0, 0
        while True:
            n = {"i0": i0, "modes": modes, "init": init, "trace": {}, "child": [], "asserts": {}, "height": h, "expanded": False}
            if parent is None:
                root = n
            else:
                parent["child"].append(n)
            if h > self.cap:
                raise execref.TooBig()
            if (self.H is not None and h >= self.H - 1) or i0 >= self.N:
                return root, h
            n["expanded"] = True
            for a in ags:
                r = world.rates(a, modes[a["id"]])
                n["trace"][a["id"]] = [[x + (k * self.dt) * c for x, c in zip(init[a["id"]], r)]
                                       for k in range(self.N - i0 + 1)]
            for k in range(self.N - i0 + 1):
                fails, jumps = {}, {}
                for a in ags:
                    if not a["prog"]:
                        continue
                    mod = self.mods[a["id"]]
                    objs = {b["id"]: self.ns(mod, b, n["trace"][b["id"]][k], modes[b["id"]]) for b in ags}
                    ego = self.ns(mod, a, n["trace"][a["id"]][k], modes[a["id"]])
                    try:
                        road = a["lay"].get("road")
                        out = mod.decisionLogic(ego, [o for i, o in objs.items() if i != a["id"]], *([dl.RoadRef(road)] if road else []))
                    except AssertionError as e:
                        fails[a["id"]] = [e.args[0] if e.args else None]
                        continue
                    if out != ego:
                        lay = a["lay"]
                        jumps[a["id"]] = (tuple(getattr(getattr(out, m), "name", getattr(out, m)) for m, _ in lay["disc"]),
                                          [float(getattr(out, c)) for c in lay["cont"]])
                if fails or jumps:
                    break
            if fails:
                n["asserts"] = fails
            if fails or jumps:
                full = n["trace"]
                n["trace"] = {b: t[: k + 1] for b, t in full.items()}
            if fails or not jumps:
                return root, h
            modes, init = dict(modes), {b: list(full[b][k]) for b in full}
            for b, (m, c) in jumps.items():
                modes[b], init[b] = m, c
            parent, i0, h = n, i0 + k, h + 1


def check_py(case):
    T, dt, H = case["n"] * case["dt"], case["dt"], case["H"]
    try:
        ref, h = PyExec(case, T, dt, H).run()
    except execref.TooBig:
        return None
    tree = world.build(case).simulate_simple(T, dt, max_height=H)
    fix_asserts(tree.root)
    d = execref.compare(tree.root, ref, dt)
    if d:
        raise Violation("simple simulation differs from calling decisionLogic: " + d)
    n = ref
    while n["child"]:
        n = n["child"][0]
    if not h and not n["asserts"]:
        return None
    return ["jumps=%d" % min(h, 5)] + (["assertion"] if n["asserts"] else []) + (["static"] if case["agents"][0]["lay"].get("static") else [])


def fix_asserts(node):
    """The simple simulator may report a single label instead of a list of labels."""
    if node.assert_hits:
        node.assert_hits = {a: [l] if isinstance(l, str) or l is None else l for a, l in node.assert_hits.items()}
    for c in node.child:
        fix_asserts(c)


def norm(mode):
    return {a: tuple(m) for a, m in mode.items()}


def flat(node):
    return (tuple(sorted(norm(node.mode).items())), round(node.start_time, 9),
            tuple(sorted((a, tuple(float(x) for x in v)) for a, v in node.init.items())),
            tuple(sorted((a, tuple(tuple(float(x) for x in r) for r in t)) for a, t in node.trace.items())) if node.trace else ())


def check_det(case):
    T, dt, H = case["n"] * case["dt"], case["dt"], case["H"]
    try:
        rs = execref.RefSim(case, T, dt, H)
        ref = rs.run()
    except execref.TooBig:
        return None
    if "refused by the map" in rs.tags:  # the simple simulation takes these too
        return None
    a = world.build(case).simulate(T, dt, max_height=H).root
    b = world.build(case).simulate_simple(T, dt, max_height=H).root
    depth = 0
    while True:
        expanded = not ((H is not None and a.height >= H - 1) or a.start_time >= T)
        if norm(a.mode) != norm(b.mode) or a.start_time != b.start_time:
            raise Violation("simulate is in %s from %s, simulate_simple in %s from %s" % (a.mode, a.start_time, b.mode, b.start_time))
        fa, fb = flat(a), flat(b)
        if fa[2] != fb[2] or (expanded and fa[3] != fb[3]):
            raise Violation("node at depth %d differs: simulate %s, simulate_simple %s" % (depth, fa, fb))
        if len(a.child) != len(b.child) or len(a.child) > 1:
            raise Violation("depth %d: simulate has %d successors, simulate_simple %d" % (depth, len(a.child), len(b.child)))
        if not a.child:
            break
        a, b, depth = a.child[0], b.child[0], depth + 1
    return ["jumps=%d" % min(depth, 5)] if depth else None


def subs():
    return [
        Sub("python", lambda: c02.cases(feats={"filters": True}), check_py, 2200),
        Sub("python_asserts", lambda: c02.cases(feats={"asserts": True}), check_py, 1200),
        Sub("roads", lambda: c02.cases(feats={"filters": True, "asserts": True}, road=True), check_py, 1000),
        Sub("roads_det", lambda: c02.cases(chain=True, road=True), check_det, 600),
        Sub("deterministic", lambda: c02.cases(chain=True), check_det, 1200),
    ]
