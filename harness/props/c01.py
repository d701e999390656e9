"""C01: the transitions offered on a concrete state are those of the program text."""
from hypothesis import strategies as st

from .. import dl, world
from ..core import Sub, Violation

PROPERTY = "C01"
RULE = ("A case is a generated decision logic (grammar: nested if/elif/else, local definitions, helper "
        "functions, chained comparisons, and/or/not, any/all/sum over others, own and others' modes) with a "
        "concrete state of the ego agent and 0-3 others; it is non-trivial when the reference interpreter finds "
        "at least one enabled transition.")
ASSUMPTIONS = [
    "flows are static so that the first sampled instant is the generated state",
    "numbers are multiples of 1/4, so both sides compute exactly",
]

vals = st.integers(-8, 8).map(lambda i: i / 4)


@st.composite
def states(draw, lay):
    cont = [draw(vals) for _ in lay["cont"]]
    modes = [draw(st.sampled_from(lay["modes"][m])) for m, _ in lay["disc"]]
    s = {"cont": cont, "modes": modes}
    s["static"] = [draw(st.sampled_from(dl.KINDS))] if lay.get("static") else []
    return s


@st.composite
def cases(draw, feats=None, other=None, static=True, max_ifs=3):
    lay = draw(dl.layouts(static=static))
    oth = draw(st.sampled_from(["list", "list", "single", None])) if other is None else other
    prog = draw(dl.programs(lay=lay, other=oth, feats=feats, max_ifs=max_ifs))
    n = {"list": draw(st.integers(0, 3)), "single": 1, None: draw(st.integers(0, 1))}[oth]
    pos = draw(st.integers(0, n))
    return {"prog": prog, "states": [draw(states(lay)) for _ in range(n + 1)], "ego": pos}


def spec_of(case):
    prog, lay = case["prog"], case["prog"]["lay"]
    agents = []
    for i, s in enumerate(case["states"]):
        rates = {m: [0.0] * len(lay["cont"]) for m in lay["modes"][lay["disc"][0][0]]}
        agents.append({"id": "ag%d" % i, "prog": prog if i == case["ego"] else None, "rates": rates,
                       "init": [s["cont"]], "mode": s["modes"], "static": s["static"]})
    return {"agents": agents}


def ref_of(case):
    lay = case["prog"]["lay"]
    objs = [world.obj(lay, s["cont"], s["modes"], s["static"]) for s in case["states"]]
    ego = objs[case["ego"]]
    others = [o for i, o in enumerate(objs) if i != case["ego"]]
    return dl.Ref(case["prog"], ego, others)


def check(case):
    fails, want = ref_of(case).transitions()
    sc = world.build(spec_of(case))
    tree = sc.simulate(1.0, 1.0, max_height=2)
    eid = "ag%d" % case["ego"]
    got = set()
    for ch in tree.root.child:
        got.add((tuple(ch.mode[eid]), tuple(float(v) for v in ch.init[eid])))
        for aid in ch.mode:
            if aid != eid:
                s = case["states"][int(aid[2:])]
                if list(ch.mode[aid]) != s["modes"] or [float(v) for v in ch.init[aid]] != s["cont"]:
                    raise Violation("agent %s without decision logic changed: %s %s" % (aid, ch.mode[aid], ch.init[aid]))
    hits = tree.root.assert_hits
    if hits:
        raise Violation("assertion reported by a program without assertions: %s" % hits)
    if got != want:
        raise Violation("transitions offered %s, program text gives %s\n%s" % (
            sorted(got), sorted(want), dl.render(case["prog"])))
    if len(tree.root.child) != len(want):
        raise Violation("%d successors for %d distinct transitions" % (len(tree.root.child), len(want)))
    if not want:
        return None
    tags = ["transitions=%d" % min(len(want), 4), "others=%d" % (len(case["states"]) - 1)]
    for k in ("any", "all", "sum", "call", "not", "or", "loc", "oeq"):
        if dl.has(case["prog"]["body"], (k,)):
            tags.append("uses " + k)
    if dl.has(case["prog"]["body"], ("if",)):
        if any(dl.has(arm[1], ("if",)) for s in case["prog"]["body"] if s[0] == "if" for arm in s[1]):
            tags.append("nested if")
        if any(s[0] == "if" and (s[2] is not None or len(s[1]) > 1) for s in case["prog"]["body"]):
            tags.append("elif/else")
    return tags


def subs():
    return [
        Sub("one_step", lambda: cases(), check, 5000),
        Sub("shadowing", lambda: cases(feats={"shadow": True}, other="list", max_ifs=2), check, 1500),
        Sub("filters", lambda: cases(feats={"filters": True}, other="list", max_ifs=2), check, 1500),
    ]
