"""C05: guards over boxes."""
import itertools
from fractions import Fraction

import numpy as np
import z3
from hypothesis import strategies as st

from .. import dl, world, sym
from ..execref import RefSim
from . import c17
from ..core import Sub, Violation, HarnessError

PROPERTY = "C05"
RULE = ("A case is a generated decision logic with up to 8 conditional mode changes, 1-3 agents with boxes of states "
        "and modes; non-trivial when at least one branch is neither decided by the modes alone nor impossible for "
        "every box (some branch's condition is satisfiable over all reals).")
ASSUMPTIONS = ["flows are constant, so that each step's box is the one reported in the tree",
               "the oracle decides each branch's condition over the box exactly (linear real arithmetic), "
               "and is itself checked against the reference interpreter on points of the box"]

DEST = ["T%d" % i for i in range(8)]


class G5(dl.Gen):
    nd = 0

    def assign(self):
        t = DEST[self.nd % len(DEST)]
        self.nd += 1
        return ["mode", self.lay["disc"][0][0], self.lay["disc"][0][1], t]

    def blk(self, depth):
        out = []
        if self.nd < 8 and (depth == 0 or self.int(0, 2)):
            out.append(self.assign())
        if depth > 0 and self.nd < 6 and self.int(0, 2) == 0:
            out.append(self.ifs(depth - 1))
        if not out:
            out.append(self.assign())
        return out

    def ifs(self, depth):
        arms = [[self.bool(self.objs(), 2), self.blk(depth)]]
        if self.int(0, 2) == 0:
            arms.append([self.bool(self.objs(), 1), self.blk(depth)])
        els = self.blk(depth) if self.int(0, 2) == 0 else None
        return ["if", arms, els]

    def prog(self):
        self.make_helpers()
        body = []
        if self.f["local"] and self.int(0, 3) == 0:
            body.append(self.let(2))
        for _ in range(self.int(1, 3)):
            body.append(self.ifs(1))
        return {"lay": self.lay, "other": self.other, "consts": self.consts, "helpers": self.helpers, "body": body}


@st.composite
def layouts(draw, static=True):
    lay = draw(dl.layouts(static=static))
    lay = dict(lay, modes={m: list(v) for m, v in lay["modes"].items()})
    mv = lay["disc"][0][0]
    lay["modes"][mv] = lay["modes"][mv] + DEST
    return lay


@st.composite
def road_layouts(draw):
    """The map has some of the targets for every lane, and others for none"""
    lay = draw(dl.road_layouts())
    mv, _ = lay["disc"][0]
    lay["modes"][mv] = lay["modes"][mv] + [d for d in DEST if d not in lay["modes"][mv]]
    if mv == "agent_mode":
        h = lay["road"]["h"]
        for d in DEST[: draw(st.integers(0, 8))]:
            h += [[t, m, d, t] for t in lay["modes"]["track_mode"] for m in ("Normal", "SwitchLeft", "SwitchRight")]
    else:
        k = draw(st.integers(0, 2))
        lay["road"]["h"] += [[l["id"], m, m, DEST[k]] for l in lay["road"]["lanes"] for m in ("Normal", "SwitchLeft", "SwitchRight")]
    return lay


def boxes(draw, cont, widths=(0, 0.25, 0.5, 1, 2, 4), points=()):
    lo = [draw(st.integers(-12, 10)) / 4 for _ in cont]
    w = [0 if c in points else draw(st.sampled_from(list(widths))) for c in cont]
    return [lo, [a + b for a, b in zip(lo, w)]]


def first_modes(lay, m):
    if m == "track_mode" and lay.get("road"):
        ids = {l["id"] for l in lay["road"]["lanes"]}
        return sorted(ids | {t for a in lay["road"]["h"] for t in (a[0], a[3]) if t[0] == "M"})
    return [q for q in lay["modes"][m] if q not in DEST]


FEATS = {"filters": True}


@st.composite
def cases(draw, feats=None, nags=(1, 2, 2, 3), static=True, road=False):
    lay = draw(road_layouts() if road else layouts(static))
    nag = draw(st.sampled_from(list(nags)))
    prog = G5(draw, lay, "list", dict(FEATS, **(feats or {}))).prog()
    ags = []
    for i in range(nag):
        ags.append({"id": draw(st.sampled_from(["car", "b", "z"])) + str(i), "prog": prog if i == 0 else None, "lay": lay,
                    "rates": {m: [0.0] * len(lay["cont"]) for m in lay["modes"][lay["disc"][0][0]]}, "key": 0,
                    "init": boxes(draw, lay["cont"], points="xy" if road else ()),
                    "mode": [draw(st.sampled_from(first_modes(lay, m))) for m, _ in lay["disc"]],
                    "static": [draw(st.sampled_from(dl.KINDS))] if lay.get("static") else []})
    k = draw(st.integers(0, nag - 1))
    ags = ags[-k:] + ags[:-k] if k else ags  # the deciding agent is not always first
    return {"agents": ags}


def fr(v):
    f = Fraction(float(v))
    return z3.Q(f.numerator, f.denominator)


def in_box(vs, lo, hi):
    out = []
    for v, l, h in zip(vs, lo, hi):
        out += [v >= fr(l), v <= fr(h)]
    return out


def symbolic(case):
    ags = case["agents"]
    ego = [a for a in ags if a["prog"]][0]
    lay = ego["lay"]
    vs = {a["id"]: [z3.Real("%s__%s" % (a["id"], c)) for c in lay["cont"]] for a in ags}
    objs = {a["id"]: world.obj(lay, vs[a["id"]], a["mode"], a.get("static") or ()) for a in ags}
    s = sym.Sym(ego["prog"], objs[ego["id"]], [objs[a["id"]] for a in ags if a["id"] != ego["id"]])
    return ego, lay, vs, s


def selfcheck(case, ego, lay, vs, alts):
    """The symbolic oracle against the reference interpreter at the boxes' corners and centres."""
    ags = case["agents"]
    for pick in (lambda b: b[0], lambda b: b[1], lambda b: [(x + y) / 2 for x, y in zip(*b)]):
        pt = {a["id"]: pick(a["init"]) for a in ags}
        objs = {a["id"]: world.obj(lay, pt[a["id"]], a["mode"], a.get("static") or ()) for a in ags}
        fails, want = dl.Ref(ego["prog"], objs[ego["id"]], [objs[a["id"]] for a in ags if a["id"] != ego["id"]]).run()
        sub = [(v, fr(x)) for a in ags for v, x in zip(vs[a["id"]], pt[a["id"]])]
        got = {}
        for var, al in alts.items():
            for c, val in al:
                if z3.is_true(z3.simplify(z3.substitute(c, *sub))):
                    got.setdefault(var, set()).add(val)
        if got != {k: set(v) for k, v in want.items()}:
            raise HarnessError("oracle mismatch at %s: %s vs %s" % (pt, got, want))


def check(case):
    ags = case["agents"]
    ego, lay, vs, s = symbolic(case)
    _, alts = s.paths()
    selfcheck(case, ego, lay, vs, alts)
    mv = lay["disc"][0][0]
    conds = {}
    for c, val in alts.get(mv, []):
        if RefSim.permits(lay, ego["mode"], [val] + ego["mode"][1:]):
            conds.setdefault(val, []).append(c)
    tree = world.build(case).verify(2.0, 1.0, max_height=2)
    root = tree.root
    what = {a["id"]: (a["mode"], a["init"]) for a in ags}
    cs, inner = [], []
    for a in ags:
        lo, hi = root.trace[a["id"]][0][1:], root.trace[a["id"]][1][1:]
        if any(abs(p - q) > 1e-9 for p, q in zip(lo + hi, a["init"][0] + a["init"][1])):
            raise Violation("constant flow from %s: first step covers %s" % (a["init"], [lo, hi]))
        cs += in_box(vs[a["id"]], lo, hi)
        # the next step's box is the same up to rounding
        inner += in_box(vs[a["id"]], [p if p == q else p + 1e-6 for p, q in zip(lo, hi)], [q if p == q else q - 1e-6 for p, q in zip(lo, hi)])
    want, contained, again = set(), False, False
    for val, cl in conds.items():
        for c in cl:
            r, u, i = sym.check(cs + [c]), sym.check(cs + [z3.Not(c)]), sym.check(inner + [c])
            if r is None or u is None or i is None:
                return None
            if r:
                want.add(val)
            contained = contained or not u
            again = again or i
    got = {n.mode[ego["id"]][0] for n in root.child}
    n = len(root.trace[ego["id"]]) // 2
    if got != want:
        raise Violation("transitions to %s offered over %s; some state of the box enables exactly %s" % (sorted(got), what, sorted(want)))
    n_want = 2 if not want else 1 if contained else 2 if again else n
    if n != n_want:
        raise Violation("transitions %s over %s: %s every state of the box enables one of them, but the node goes on for %d step(s) instead of %d"
                        % (sorted(want), what, "" if contained else "not", n, n_want))
    free = [v for v, cl in conds.items() if any(sym.check([c]) for c in cl)]
    if not free:
        return None
    return (["possible"] if want else ["impossible"]) + (["unavoidable"] if contained else []) + ["agents=%d" % len(ags)]


# ---------------------------------------------------------------- lane-relative guards

WHO = ["ego", "other"]


@st.composite
def lane_atom(draw, two):
    """[query, whose, op, offset from the value at the boxes' centres], or a difference of two queries."""
    q = draw(st.sampled_from(["lon", "lon", "lat"]))
    who = draw(st.sampled_from(WHO if two else ["ego"]))
    op = draw(st.sampled_from(["<", "<=", ">", ">="]))
    off = draw(st.sampled_from([-6, -3, -1.5, -1, -0.5, -0.25, 0, 0.125, 0.25, 0.5, 1, 2, 4, 8]))
    if two and draw(st.integers(0, 2)) == 0:
        return ["diff", q, op, off]
    return [q, who, op, off]


@st.composite
def lane_cond(draw, two, depth=2):
    k = draw(st.integers(0, 5)) if depth else 0
    if k <= 2:
        return draw(lane_atom(two))
    if k == 3:
        return ["not", draw(lane_cond(two, depth - 1))]
    return [["and", "or"][k - 4], draw(lane_cond(two, depth - 1)), draw(lane_cond(two, depth - 1))]


@st.composite
def lane_cases(draw):
    lanes = [draw(c17.chain(n=draw(st.sampled_from([1, 1, 2, 3])))) for _ in range(draw(st.integers(1, 2)))]
    two = draw(st.booleans())
    ags = []
    for _ in range(2 if two else 1):
        ags.append({"lane": draw(st.integers(0, len(lanes) - 1)), "at": draw(st.floats(0.02, 0.98)), "lat": draw(st.floats(-1, 1)),
                    "w": [draw(st.sampled_from([0, 0.25, 0.5, 1, 2, 3])) for _ in range(2)], "virt": draw(st.booleans())})
    conds = [draw(lane_cond(two)) for _ in range(draw(st.integers(1, 3)))]
    return {"lanes": lanes, "agents": ags, "conds": conds, "share": draw(st.booleans()), "anyall": draw(st.sampled_from(["any", "all"]))}


def lane_where(refs, p):
    """(segment, longitudinal, lateral) of a point, None when it is not clear."""
    best, start = None, 0
    for i, r in enumerate(refs):
        g = r.g
        if g["type"] == "S":
            d = p - np.array(g["start"])
            lon = float(d[0] * np.cos(r.h) + d[1] * np.sin(r.h))
            lat = float(-d[0] * np.sin(r.h) + d[1] * np.cos(r.h))
        else:
            d = p - np.array(g["center"])
            rad = float(np.hypot(*d))
            if rad < 0.3 * g["radius"]:
                return None
            sg = -1 if g["clockwise"] else 1
            mid = (g["start_phase"] + g["end_phase"]) / 2
            ph = c17.wrap(float(np.arctan2(d[1], d[0])) - mid)
            lon = r.length / 2 + sg * ph * g["radius"]
            lat = sg * (g["radius"] - rad)
            room = (c17.TAU * g["radius"] - r.length) / 2
            if room < 3.2 and not 0 < lon < r.length:
                return None
        if -1e-6 <= lon <= r.length + 1e-6:
            cand = (abs(lat), i, start + lon, lat, lon)
            if best is None or cand < best:
                best = cand
        start += r.length
    if best is None or not c17.nearest(refs, best[1], p, best[0], best[4]):
        return None
    if best[2] > start - 1e-3 or best[2] < 1e-3:
        return None
    return best[1:4]


def lane_eval(c, vals, base):
    """True / False / None (too close to call)."""
    if c[0] == "not":
        v = lane_eval(c[1], vals, base)
        return None if v is None else not v
    if c[0] in ("and", "or"):
        a, b = lane_eval(c[1], vals, base), lane_eval(c[2], vals, base)
        if c[0] == "and":
            return False if a is False or b is False else None if a is None or b is None else True
        return True if a or b else None if a is None or b is None else False
    d = lane_term(c, vals) - lane_const(c, base)
    if abs(d) < 1e-6:
        return None
    return d < 0 if c[2][0] == "<" else d > 0


def lane_term(c, vals):
    if c[0] == "diff":
        k = 0 if c[1] == "lon" else 1
        return vals["other"][k] - vals["ego"][k]
    return vals[c[1]][0 if c[0] == "lon" else 1]


def lane_const(c, base):
    return round((lane_term(c, base) + c[3]) * 64) / 64


def lane_text(c, base):
    if c[0] == "not":
        return "not (%s)" % lane_text(c[1], base)
    if c[0] in ("and", "or"):
        return "(%s) %s (%s)" % (lane_text(c[1], base), c[0], lane_text(c[2], base))

    def q(kind, who):
        return "track_map.%s(%s.track_mode, [%s.x, %s.y])" % ({"lon": "get_longitudinal_position", "lat": "get_lateral_distance"}[kind], who, who, who)
    t = "%s - %s" % (q(c[1], "other"), q(c[1], "ego")) if c[0] == "diff" else q(c[0], c[1])
    return "%s %s %r" % (t, c[2], lane_const(c, base))


def lane_check(case):
    from verse.map.lane_map import LaneMap
    from verse.map.lane import Lane
    geo = [list(l) for l in case["lanes"]]
    segs = [[c17.make(g, "s") for g in l] for l in geo]
    lanes = [Lane("T%d" % i, l) for i, l in enumerate(segs)]
    if case["share"]:
        Lane("T9", [c17.make({"type": "S", "start": [0, 0], "end": [7, 0], "width": 3}, "x"), segs[0][-1]])  # another lane through the same segment

    class Map(LaneMap):
        def h(self, lane_idx, src, dest):
            return lane_idx
    mp = Map(lanes)
    refs = [[c17.Ref(g) for g in l] for l in geo]
    ids = ["car0", "car1"][:len(case["agents"])]
    boxes_, pts, base, segset = {}, {}, {}, {}
    for who, a in zip(WHO, case["agents"]):
        rs = refs[a["lane"]]
        s = a["at"] * sum(r.length for r in rs)
        i = 0
        while i + 1 < len(rs) and s >= rs[i].length:
            s -= rs[i].length
            i += 1
        c = np.round(rs[i].position(s, a["lat"]) * 8) / 8
        lo, hi = c - np.array(a["w"]) / 2, c + np.array(a["w"]) / 2
        boxes_[who] = [lo.tolist(), hi.tolist()]
        n = 5
        out = []
        for x in np.linspace(lo[0], hi[0], n if a["w"][0] else 1):
            for y in np.linspace(lo[1], hi[1], n if a["w"][1] else 1):
                w = lane_where(rs, np.array([x, y]))
                if w is None:
                    return None
                out.append(w)
        pts[who] = [w[1:] for w in out]
        segset[who] = {w[0] for w in out}
        base[who] = pts[who][len(out) // 2]
    two = len(ids) == 2
    src = ["from enum import Enum, auto", "from typing import List", "import copy", "class AgentMode(Enum):", "    Normal = auto()"]
    src += ["    T%d = auto()" % i for i in range(len(case["conds"]))]
    names = ["T%d" % i for i in range(len(lanes))] + ["M%d%d" % (i, (i + 1) % len(lanes)) for i in range(len(lanes))]
    src += ["class TrackMode(Enum):"] + ["    %s = auto()" % n for n in names]
    src += ["class LaneMap:", "    pass", "class State:", "    x: float", "    y: float", "    agent_mode: AgentMode", "    track_mode: TrackMode",
            "    def __init__(self, x, y, agent_mode: AgentMode, track_mode: TrackMode):", "        pass",
            "def decisionLogic(ego: State, others: List[State], track_map: LaneMap):", "    output = copy.deepcopy(ego)"]
    for i, c in enumerate(case["conds"]):
        t = lane_text(c, base)
        if two:
            t = "%s(%s for other in others)" % (case["anyall"], t)
        src += ["    if %s:" % t, "        output.agent_mode = AgentMode.T%d" % i]
    src += ["    return output"]
    sc = world.Scenario(world.config())
    sc.set_map(mp)
    for i, (k, a) in enumerate(zip(ids, case["agents"])):
        track = ("M%d%d" % (a["lane"], (a["lane"] + 1) % len(lanes))) if a["virt"] else "T%d" % a["lane"]
        rates = {"Normal": [0.0, 0.0], **{"T%d" % j: [0.0, 0.0] for j in range(len(case["conds"]))}}
        sc.add_agent(world.RateAgent(k, "\n".join(src) + "\n" if i == 0 else None, rates, 0))
        sc.set_init_single(k, boxes_[WHO[i]], ("Normal", track))
    root = sc.verify(2.0, 1.0, max_height=2).root
    got = {n.mode["car0"][0] for n in root.child}
    unavoidable = len(root.trace["car0"]) // 2 == 1
    combos = [dict(zip(WHO, v)) for v in itertools.product(*[pts[w] for w in WHO[:len(ids)]])]
    combos = [{"ego": v["ego"], "other": v.get("other")} for v in combos]
    labels, every = set(), None
    text = "\n".join(src[-1 - 2 * len(case["conds"]):-1])
    for i, c in enumerate(case["conds"]):
        verdicts = [lane_eval(c, v, base) for v in combos]
        if True in verdicts and "T%d" % i not in got:
            v = combos[verdicts.index(True)]
            raise Violation("over the boxes %s in lanes\n%s\nwith\n%s\nthe transition to T%d is not offered although (longitudinal, lateral) %s enable it"
                            % (boxes_, geo, text, i, v))
        every = verdicts if every is None else [a or b if a or b else None if a is None or b is None else False for a, b in zip(every, verdicts)]
        labels.add("possible" if True in verdicts else "impossible")
        if c[0] in ("lon", "lat"):
            who, k = c[1], 0 if c[0] == "lon" else 1
            vals = [p[k] for p in pts[who]]
            span = max(vals) - min(vals)
            slack = 0.3 * span + 0.05 if len(refs[case["agents"][WHO.index(who)]["lane"]]) == 1 else 3 * span + 1
            d = [v - lane_const(c, base) for v in (min(vals) - slack, max(vals) + slack)]
            sg = [x < 0 for x in d] if c[2][0] == "<" else [x > 0 for x in d]
            if not any(sg) and "T%d" % i in got:
                raise Violation("over the boxes %s in lanes %s the transition to T%d is offered although %s is between %r and %r:\n%s" % (boxes_, geo, i, c[:2], min(vals), max(vals), text))
            if all(sg) and not unavoidable:
                raise Violation("over the boxes %s in lanes %s the transition to T%d is unavoidable, as %s is between %r and %r, but the node goes on:\n%s" % (boxes_, geo, i, c[:2], min(vals), max(vals), text))
            labels.add("single test")
    if unavoidable and False in every:
        raise Violation("over the boxes %s in lanes\n%s\nwith\n%s\nthe node ends, although no transition is enabled at (longitudinal, lateral) %s"
                        % (boxes_, geo, text, combos[every.index(False)]))
    if unavoidable:
        labels.add("unavoidable")
    if max(len(s) for s in segset.values()) > 1:
        labels.add("box over a joint")
    labels |= {geo[a["lane"]][i]["type"] for a, s in zip(case["agents"], segset.values()) for i in s}
    return sorted(labels)


def subs():
    return [
        Sub("guards", lambda: cases(), check, 3000),
        Sub("roads", lambda: cases(road=True), check, 700),
        Sub("lanes", lambda: lane_cases(), lane_check, 1500),
    ]
