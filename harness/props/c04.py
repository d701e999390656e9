"""C04: safety assertions, in simulation and in verification."""
import z3
from hypothesis import strategies as st

from .. import dl, world, sym, execref
from ..core import Sub, Violation
from . import c02, c05

PROPERTY = "C04"
RULE = ("A case is a scenario with generated decision logics carrying assertions, at top level and inside branches; "
        "non-trivial when an assertion fails somewhere (simulation) or some assertion is neither valid nor "
        "unsatisfiable over all states (verification).")
ASSUMPTIONS = ["simulation: constant-rate flows on a binary grid; verification: constant flows, so that each step's box "
               "is the one reported in the tree"]


@st.composite
def sim_cases(draw):
    c = draw(c02.cases(feats={"asserts": True}, road=draw(st.integers(0, 3)) == 0))
    c["continue"] = draw(st.integers(0, 4)) == 0
    return c


def check_sim(case):
    spec = {"agents": case["agents"], "continue": case.get("continue", False)}
    T, dt, H = case["n"] * case["dt"], case["dt"], case["H"]
    rs = execref.RefSim(spec, T, dt, H)
    try:
        ref = rs.run()
    except execref.TooBig:
        return None
    tree = world.build(spec, world.config(unsafe_continue=spec["continue"])).simulate(T, dt, max_height=H)
    d = execref.compare(tree.root, ref, dt)
    if d:
        raise Violation(d)
    fails = []

    def walk(n):
        if n["asserts"]:
            fails.append(n)
        for c in n["child"]:
            walk(c)
    walk(ref)
    if not fails:
        return None
    return (["at depth %d" % min(3, max(n["height"] for n in fails))] + (["several agents"] if any(len(n["asserts"]) > 1 for n in fails) else [])
            + (["several branches"] if len(fails) > 1 else []) + (["later"] if any(n["assert_idx"] > 0 for n in fails) else []))


class G4(c05.G5):
    def blk(self, depth):
        out = c05.G5.blk(self, depth)
        if self.int(0, 2) == 0:
            out.insert(self.int(0, len(out)), self.assertion())
        return out

    def prog(self):
        p = c05.G5.prog(self)
        for _ in range(self.int(1, 2)):
            a = self.assertion()
            p["body"].insert(self.int(len([s for s in p["body"] if s[0] == "let"]), len(p["body"])), a)
        return p


@st.composite
def box_cases(draw, road=False):
    lay = draw(c05.road_layouts() if road else c05.layouts())
    nag = draw(st.sampled_from([1, 2, 2, 3]))
    two = nag > 1 and draw(st.booleans())
    ags = []
    for i in range(nag):
        prog = None
        if i == 0 or (two and i == 1):
            prog = G4(draw, lay, "list", {"filters": True}).prog()
        ags.append({"id": draw(st.sampled_from(["car", "b", "z"])) + str(i), "prog": prog, "lay": lay,
                    "rates": {m: [0.0] * len(lay["cont"]) for m in lay["modes"][lay["disc"][0][0]]}, "key": 0,
                    "init": c05.boxes(draw, lay["cont"], points="xy" if road else ()),
                    "mode": [draw(st.sampled_from(c05.first_modes(lay, m))) for m, _ in lay["disc"]],
                    "static": [draw(st.sampled_from(dl.KINDS))] if lay.get("static") else []})
    return {"agents": ags, "continue": draw(st.integers(0, 4)) == 0}


def check_box(case):
    ags = case["agents"]
    lay = ags[0]["lay"]
    vs = {a["id"]: [z3.Real("%s__%s" % (a["id"], c)) for c in lay["cont"]] for a in ags}
    objs = {a["id"]: world.obj(lay, vs[a["id"]], a["mode"], a.get("static") or ()) for a in ags}
    cs = []
    for a in ags:
        cs += c05.in_box(vs[a["id"]], *a["init"])
    must, may, interesting = {}, {}, False
    for a in ags:
        if not a["prog"]:
            continue
        s = sym.Sym(a["prog"], objs[a["id"]], [objs[b["id"]] for b in ags if b["id"] != a["id"]])
        asserts, _ = s.paths()
        for pre, cond, label in asserts:
            bad = sym.check(cs + [pre, z3.Not(cond)])
            if bad is None:
                return None
            if bad:
                must.setdefault(a["id"], []).append(label)
            if sym.check([pre, z3.Not(cond)]) and sym.check([pre, cond]):
                interesting = True
    go_on = case.get("continue", False)
    tree = world.build(case, world.config(unsafe_continue=go_on)).verify(2.0, 1.0, max_height=2)
    root = tree.root
    got = {k: execref.norm_labels(v) for k, v in (root.assert_hits or {}).items()}
    must = {k: execref.norm_labels(v) for k, v in must.items()}
    what = {a["id"]: (a["mode"], a["init"]) for a in ags}
    if got != must:
        raise Violation("over %s some state violates exactly the assertions %s, verification reports %s" % (what, must, got))
    if must:
        if root.child:
            raise Violation("explored beyond the step where %s is reported" % must)
        for a in ags:
            if len(root.trace[a["id"]]) != (4 if go_on else 2):
                raise Violation("assertion %s reported at the first step, but the tube of %s goes on for %d steps" % (
                    must, a["id"], len(root.trace[a["id"]]) // 2))
    if not interesting:
        return None
    return ["violated" if must else "satisfied"] + (["two agents"] if len(must) > 1 else [])


def subs():
    return [
        Sub("simulate", sim_cases, check_sim, 3000),
        Sub("verify", lambda: box_cases(), check_box, 2500),
        Sub("roads", lambda: box_cases(road=True), check_box, 600),
    ]
