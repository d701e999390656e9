"""Decision-logic programs as JSON: generator, renderer to Python source, reference interpreter.

The reference interpreter works on the JSON, never on the source or on anything the code under
test produced, so it is an independent reading of what the program means.

Numbers are multiples of 1/4 and products are with small constants, so every value is exact in
binary floating point and comparisons (including equality) are exact on both sides.
"""
from hypothesis import strategies as st

from .core import TooBig

LISTNAMES = ["others", "agents"]
OPS = ["<", "<=", ">", ">=", "==", "!="]

# ---------------------------------------------------------------- layouts

LAYOUTS = [
    ["x", "y"],
    ["x", "x1", "v"],
    ["pos", "vel"],
    ["a", "ab", "abc"],
    ["x"],
    ["y", "x", "yx", "t"],
    ["vx", "x", "v"],
]
MODE_NAMES = [["A", "B"], ["A", "B", "C"], ["Normal", "Up", "Down"], ["On", "Off"], ["M0", "M1", "M10"]]
MODE_VARS = [["agent_mode"], ["agent_mode", "aux_mode"], ["craft_mode"], ["gps_mode", "agent_mode"]]
ENUMS = {"agent_mode": "AgentMode", "aux_mode": "AuxMode", "craft_mode": "CraftMode", "gps_mode": "GpsMode"}


@st.composite
def layouts(draw, max_disc=2, static=False):
    cont = draw(st.sampled_from(LAYOUTS))
    mv = draw(st.sampled_from([m for m in MODE_VARS if len(m) <= max_disc]))
    modes = {m: draw(st.sampled_from(MODE_NAMES)) for m in mv}
    lay = {"cont": list(cont), "disc": [[m, ENUMS[m]] for m in mv], "modes": {m: list(v) for m, v in modes.items()}}
    lay["static"] = bool(static and draw(st.booleans()))
    return lay


KINDS = ["Car", "Walker", "CarX"]

# ---------------------------------------------------------------- generator


class Gen:
    """Draws expressions and statements. `objs` are the object names in scope."""

    def __init__(self, draw, lay, other="list", feats=None):
        self.d = draw
        self.lay = lay
        self.other = other  # "list" | "single" | None
        self.f = dict(any=True, sum=True, helper=True, local=True, chain=True, nested_any=True, mul=True,
                      filters=False, eqs=True, numhelper=True, consts=True, shadow=False, bconst=False, resets_read=True, const_right=False)
        self.f.update(feats or {})
        self.helpers = []
        self.helping = False
        self.locs = {"num": [], "bool": []}
        self.nloc = 0
        self.nassert = 0
        self.consts = []
        self.listname = "others"

    def int(self, a, b):
        return self.d(st.integers(a, b))

    def pick(self, xs):
        return xs[self.int(0, len(xs) - 1)]

    def const(self):
        return self.int(-6, 6) / 2

    # numeric expressions
    def roadnum(self, objs):
        o = self.pick(objs)
        k = self.int(0, 7)
        if k == 7:
            return ["width", o]
        return [["lon", "lat", "lat"][k % 3], o if self.int(0, 3) else self.pick(objs), o]

    def num(self, objs, depth):
        if self.lay.get("road") and not self.helping and self.int(0, 1):
            return self.roadnum(objs)
        ch = self.int(0, 9) if depth > 0 else self.int(0, 3)
        if ch <= 2:
            return ["attr", self.pick(objs), self.pick(self.lay["cont"])]
        if ch == 3:
            if self.locs["num"] and self.int(0, 1):
                return ["loc", self.pick(self.locs["num"])]
            cs = [c[0] for c in self.consts if c[0] not in objs]
            if cs and self.int(0, 2) == 0:
                return ["loc", self.pick(cs)]
            return ["num", self.const()]
        if ch in (4, 5):
            return ["+", self.num(objs, depth - 1), self.num(objs, depth - 1)]
        if ch in (6, 7):
            return ["-", self.num(objs, depth - 1), self.num(objs, depth - 1)]
        if ch == 8 and self.f["mul"]:
            if self.f["numhelper"] and self.int(0, 2) == 0 and [h for h in self.helpers if h["kind"] == "num"]:
                h = self.pick([h for h in self.helpers if h["kind"] == "num"])
                return ["call", h["name"], [self.pick(objs) for _ in h["params"]]]
            c = ["num", self.pick([2.0, -1.0, 0.5, -2.0, 3.0])]
            e = self.num(objs, depth - 1)
            return ["*", c, e] if self.int(0, 1) else ["*", e, c]
        return ["neg", self.num(objs, depth - 1)]

    def cmp(self, objs, depth):
        left = self.num(objs, depth)
        if self.f["sum"] and self.other == "list" and len(objs) == 1 and self.int(0, 11) == 0:
            v = self.loopvar(objs)
            left = ["sum", v, self.num(objs + [v], 1), None]
        ops = OPS if self.f["eqs"] else OPS[:4]
        n = 1
        if self.f["chain"] and self.int(0, 4) == 0:
            n = 2 + self.int(0, 1)
        rest = []
        for i in range(n):
            right = ["num", self.const()] if self.int(0, 2) else self.num(objs, 1 if depth > 0 else 0)
            rest.append([self.pick(ops), right])
        return ["cmp", left, rest]

    def loopvar(self, objs):
        names = ["o", "other", "p", "oo"]
        names = [n for n in names if n not in objs]
        return self.pick(names)

    def modetest(self, objs):
        mv, en = self.pick(self.lay["disc"])
        neg = self.int(0, 2) == 0
        if self.lay.get("static") and self.int(0, 3) == 0:
            return ["meq", self.pick(objs), "type", "KindMode", self.pick(KINDS), neg]
        if len(objs) > 1 and self.int(0, 2) == 0:
            return ["oeq", objs[0], objs[1], mv, neg]
        return ["meq", self.pick(objs), mv, en, self.pick(self.lay["modes"][mv]), neg]

    def bool(self, objs, depth, inany=False):
        if self.lay.get("road") and not self.helping and self.int(0, 9) == 0:
            return ["hx", self.pick(self.lay["modes"]["agent_mode"])]
        ch = self.int(0, 13) if depth > 0 else self.int(0, 5)
        if ch <= 3:
            hs = [h for h in self.helpers_for(objs) if len(objs) > 1 and len(h["params"]) == 2 and h["kind"] == "bool"]
            if hs and self.int(0, 1):
                h = self.pick(hs)  # two different objects, either way round
                i = self.int(0, len(objs) - 1)
                j = self.pick([k for k in range(len(objs)) if k != i])
                return ["call", h["name"], [objs[i], objs[j]]]
            return self.cmp(objs, min(depth, 2))
        if ch in (4, 5):
            if self.locs["bool"] and self.int(0, 1):
                return ["loc", self.pick(self.locs["bool"])]
            return self.modetest(objs)
        if ch in (6, 7, 8):
            n = 2 if self.int(0, 2) else 3
            op = "and" if ch != 8 else "or"
            return [op, [self.bool(objs, depth - 1, inany) for _ in range(n)]]
        if ch == 9:
            return ["or", [self.bool(objs, depth - 1, inany) for _ in range(2)]]
        if ch == 10:
            return ["not", self.bool(objs, depth - 1, inany)]
        if ch == 11 and self.helpers_for(objs):
            h = self.pick(self.helpers_for(objs))
            return ["call", h["name"], ["others" if q in LISTNAMES else self.pick(objs) for q in h["params"]]]
        if ch >= 11 and self.f["any"] and self.other == "list" and (not inany or self.f["nested_any"] and self.int(0, 3) == 0):
            v = self.loopvar(objs)
            body = self.bool(objs + [v], depth - 1, True)
            flt = None
            if self.f["filters"] and self.int(0, 3) == 0:
                flt = self.bool(objs + [v], 0, True)
            return [self.pick(["any", "all"]), v, body, flt] + ([self.listname] if self.listname != "others" else [])
        return self.cmp(objs, min(depth, 2))

    def helpers_for(self, objs):
        if not self.f["helper"]:
            return []
        return [h for h in self.helpers if h["kind"] == "bool" or (h["kind"] == "list" and self.other == "list" and self.listname == "others")]

    def make_helpers(self):
        if self.f["consts"]:
            for i in range(self.int(0, 2)):
                self.consts.append(["%s" % self.pick([["limit", "o", "a"], ["K", "other", "p"]][i]) if self.f["shadow"] else ["limit", "K"][i], self.const()])
        if not self.f["helper"]:
            return
        for i in range(self.int(0, 2)):
            params = [["a"], ["a", "b"], ["me", "other"], ["ego"], ["other", "ego"], ["o", "ego"], ["ego", "p"]][self.int(0, 6)]
            kind = self.pick(["bool", "bool", "num"] + (["list", "list"] if self.other == "list" and self.f["any"] else []))
            if kind == "list":
                params = params[:1]
            saved = (self.locs, self.other, self.listname)
            self.locs = {"num": [], "bool": []}
            self.other = None
            self.helping = True
            lets = []
            for _ in range(self.int(0, 1)):
                nm = "d%d" % i
                lets.append([nm, self.num(params, 2)])
                self.locs["num"].append(nm)
            if kind == "list":
                params = params[:1] + [self.pick(LISTNAMES)]
                self.other, self.listname = "list", params[-1]
                body = ["any" if self.int(0, 1) else "all"]
                v = self.loopvar(params[:1])
                b = self.bool(params[:1] + [v], 2, True)
                body += [v, b, None, params[-1]]
                if self.int(0, 3) == 0:
                    body = ["not", body]
            elif kind == "num":
                body = self.num(params, 2)
                if body[0] in ("attr", "loc"):  # could make an assignment of a variable's own value
                    body = ["+", body, ["num", 1.0]]
            else:
                body = self.bool(params, 2)
            self.locs, self.other, self.listname = saved
            self.helping = False
            self.helpers.append({"name": "pred%d" % i, "kind": kind, "params": params, "lets": lets, "body": body})

    # statements
    def objs(self):
        return ["ego"] + (["other"] if self.other == "single" else [])

    def sumexpr(self, e):
        v = self.loopvar(["ego"])
        s = ["sum", v, self.num(["ego", v], 1), None]
        return s if self.int(0, 1) else [self.pick("+-"), s, e]

    def assign(self):
        """One conditional assignment to an output variable (never the variable's own value)."""
        if self.int(0, 1) or not self.lay["disc"]:
            var = self.pick(self.lay["cont"])
            helping, self.helping = self.helping, self.helping or not self.f.get("road_resets", True)
            e = self.num(self.objs() if self.f["resets_read"] else ["ego"], 2)
            if self.f["sum"] and self.other == "list" and self.int(0, 7) == 0:
                e = self.sumexpr(e)
            self.helping = helping
            if self.lay.get("road") and var in ("x", "y"):  # stay on the road
                e = ["+", ["attr", "ego", var], ["num", self.pick([-1, 1]) * self.int(1, 4) / 2]]
            if e[0] == "loc" or (e[0] == "attr" and e[1] == "ego" and e[2] == var):  # own value: not an assignment
                e = ["+", e, ["num", 1.0]]
            return ["set", var, e]
        mv, en = self.pick(self.lay["disc"])
        return ["mode", mv, en, self.pick(self.lay["modes"][mv])]

    def body(self, depth, lvl):
        out = []
        seen = set()
        n = self.int(1, 3)
        saved = {k: list(v) for k, v in self.locs.items()}
        for _ in range(n):
            ch = self.int(0, 9)
            if ch == 9 and depth > 0:
                out.append(self.ifstmt(depth - 1, lvl + 1))
            elif ch == 8 and self.f.get("asserts"):
                out.append(self.assertion())
            elif ch == 7 and self.f["local"]:
                out.append(self.let(2))
            else:
                s = self.assign()
                out.append(s)
        self.locs = saved
        if not any(s[0] in ("set", "mode", "if", "assert") for s in out):
            out.append(self.assign())
        return out

    def let(self, depth):
        nm = "loc%d" % self.nloc
        self.nloc += 1
        if self.int(0, 1):
            helping, self.helping = self.helping, self.helping or not self.f.get("road_resets", True)
            s = ["let", nm, "num", self.num(self.objs(), depth)]
            self.helping = helping
            self.locs["num"].append(nm)
        else:
            s = ["let", nm, "bool", self.bool(self.objs(), depth)]
            self.locs["bool"].append(nm)
        return s

    def assertion(self):
        lab = ["safe %d" % self.nassert, "A%d" % self.nassert, None][self.int(0, 2)]
        self.nassert += 1
        return ["assert", self.bool(self.objs(), 2), lab]

    def ifstmt(self, depth, lvl=0):
        arms = [[self.bool(self.objs(), 2), self.body(depth, lvl)]]
        k = self.int(0, 5)
        if k == 0:
            arms.append([self.bool(self.objs(), 1), self.body(depth, lvl)])
        els = self.body(depth, lvl) if self.int(0, 4) == 0 else None
        return ["if", arms, els]

    def program(self, max_ifs=3, asserts=0):
        self.make_helpers()
        stmts = []
        if self.f["local"]:
            for _ in range(self.int(0, 2)):
                stmts.append(self.let(2))
        n = self.int(1, max_ifs)
        for i in range(n):
            if self.f.get("asserts") and self.int(0, 3) == 0:
                stmts.append(self.assertion())
            stmts.append(self.ifstmt(1))
        if self.f.get("asserts"):
            stmts.append(self.assertion())
        return {"lay": self.lay, "other": self.other, "consts": self.consts, "helpers": self.helpers, "body": stmts}


@st.composite
def programs(draw, lay=None, other=None, feats=None, max_ifs=3):
    lay = lay if lay is not None else draw(layouts())
    g = Gen(draw, lay, other, feats)
    return g.program(max_ifs=max_ifs)


@st.composite
def phased_programs(draw, lay, other="list", feats=None, nondet=True, hint=None, chain=False):
    """Automaton-like programs: in each mode, guards over moving variables lead to another mode."""
    g = Gen(draw, lay, other, feats)
    g.make_helpers()
    mv, en = draw(st.sampled_from(lay["disc"])) if hint is None else lay["disc"][hint["key"]]
    body = []
    for m in lay["modes"][mv]:
        for _ in range(g.int(1, 2 if nondet else 1)):
            atom = ["cmp", ["attr", "ego", g.pick(lay["cont"])], [[g.pick(OPS[:4]), ["num", g.const()]]]]
            k = g.int(0, 4)
            moving = [] if hint is None else [(c, r, x) for c, r, x in zip(lay["cont"], hint["rates"][m], hint["init"]) if r]
            if moving and g.int(0, 3):
                # a threshold ahead of the flow: the jump comes later, not at once
                c, r, x = g.pick(moving)
                thr = ["num", x + (1 if r > 0 else -1) * g.int(1, 6) / 4]
                atom = ["cmp", ["attr", "ego", c], [[g.pick([">", ">="] if r > 0 else ["<", "<="]), thr]]]
                k = g.pick([0, 3, 3, 4])
            if k == 0:
                atom = ["and", [atom, g.cmp(g.objs(), 1)]]
            elif k == 1 and other == "list" and g.f["any"]:
                v = g.loopvar(["ego"])
                atom = [g.pick(["any", "all"]), v, g.bool(["ego", v], 1, True), None]
            elif k == 2:
                atom = g.bool(g.objs(), 2)
            tgt = g.pick([q for q in lay["modes"][mv] if q != m])
            if lay.get("road") and mv == "agent_mode":
                if m != "Normal" and g.int(0, 5):
                    tgt = "Normal"
                elif m == "Normal" and hint and g.int(0, 5):  # a change that the map has for the first lane
                    tgt = g.pick([c for t, _, c, _ in lay["road"]["h"] if t == hint.get("track")] or [tgt])
                if (m != "Normal" and g.int(0, 2)) or not g.int(0, 4):  # the change is over when far enough sideways
                    up = m == "SwitchLeft" or (m == "Normal" and g.int(0, 1))
                    atom = ["cmp", ["lat", "ego", "ego"], [[g.pick([">", ">="] if up else ["<", "<="]), ["num", (1 if up else -1) * g.int(1, 6) / 2]]]]
                elif not g.int(0, 3):
                    atom = ["cmp", ["lon", "ego", "ego"], [[g.pick([">", ">="]), ["num", ROAD_LEN + g.int(-8, 12) / 4]]]]
            acts = [["mode", mv, en, tgt]]
            if lay.get("road") and mv == "agent_mode" and g.int(0, 11):  # the next lane is the one the map gives
                atom = ["and", [["hx", tgt], atom] if g.int(0, 1) else [atom, ["hx", tgt]]]
                acts.append(["hmode", "track_mode", tgt])
            for _ in range(g.int(0, 2)):
                a = g.assign()
                if a[0] == "set":
                    acts.append(a)
            body.append(["if", [[["and", [["meq", "ego", mv, en, m, False], atom]], acts]], None])
    if chain:  # one if/elif chain: at most one arm is taken
        arms = [b[1][0] for b in body]
        body = [["if", arms, None]]
    if g.f.get("asserts"):
        for _ in range(g.int(1, 2)):
            body.insert(g.int(0, len(body)), g.assertion())
    return {"lay": lay, "other": other, "consts": g.consts, "helpers": g.helpers, "body": body}


# ---------------------------------------------------------------- rendering

def r_num(v):
    if v == int(v) and abs(v) < 1e6:
        return str(int(v)) if int(v) % 2 else repr(float(v))
    return repr(v)


def render_expr(e):
    k = e[0]
    if k == "num":
        return r_num(e[1]) if e[1] >= 0 else "(%s)" % r_num(e[1])
    if k == "attr":
        return "%s.%s" % (e[1], e[2])
    if k == "loc":
        return e[1]
    if k in "+-*":
        return "(%s %s %s)" % (render_expr(e[1]), k, render_expr(e[2]))
    if k == "neg":
        return "(-%s)" % render_expr(e[1])
    if k == "cmp":
        return "(%s %s)" % (render_expr(e[1]), " ".join("%s %s" % (o, render_expr(r)) for o, r in e[2]))
    if k == "meq":
        return "(%s.%s %s %s.%s)" % (e[1], e[2], "!=" if e[5] else "==", e[3], e[4])
    if k == "oeq":
        return "(%s.%s %s %s.%s)" % (e[1], e[3], "!=" if e[4] else "==", e[2], e[3])
    if k in ("and", "or"):
        return "(" + (" %s " % k).join(render_expr(x) for x in e[1]) + ")"
    if k == "not":
        return "(not %s)" % render_expr(e[1])
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(e[2]))
    if k in ("any", "all", "sum"):
        f = " if %s" % render_expr(e[3]) if e[3] else ""
        return "%s(%s for %s in %s%s)" % (k, render_expr(e[2]), e[1], e[4] if len(e) > 4 else "others", f)
    if k == "bool":
        return "True" if e[1] else "False"
    if k in ("lon", "lat"):
        return "track_map.%s(%s.track_mode, [%s.x, %s.y])" % ({"lon": "get_longitudinal_position", "lat": "get_lateral_distance"}[k], e[1], e[2], e[2])
    if k == "width":
        return "track_map.get_lane_width(%s.track_mode)" % e[1]
    if k == "hx":
        return "track_map.h_exist(ego.track_mode, ego.agent_mode, AgentMode.%s)" % e[1]
    raise KeyError(k)


def render_stmts(stmts, ind, out):
    p = "    " * ind
    for s in stmts:
        if s[0] == "let":
            out.append("%s%s = %s" % (p, s[1], render_expr(s[3])))
        elif s[0] == "set":
            out.append("%soutput.%s = %s" % (p, s[1], render_expr(s[2])))
        elif s[0] == "mode":
            out.append("%soutput.%s = %s.%s" % (p, s[1], s[2], s[3]))
        elif s[0] == "hmode":
            out.append("%soutput.%s = track_map.h(ego.track_mode, ego.agent_mode, AgentMode.%s)" % (p, s[1], s[2]))
        elif s[0] == "assert":
            out.append("%sassert %s%s" % (p, render_expr(s[1]), "" if s[2] is None else ", %r" % s[2]))
        elif s[0] == "if":
            for i, (c, b) in enumerate(s[1]):
                out.append("%s%s %s:" % (p, "if" if i == 0 else "elif", render_expr(c)))
                render_stmts(b, ind + 1, out)
            if s[2] is not None:
                out.append("%selse:" % p)
                render_stmts(s[2], ind + 1, out)


def render(prog, fname="decisionLogic"):
    lay = prog["lay"]
    o = ["from enum import Enum, auto", "import copy", "from typing import List", ""]
    seen = set()
    for mv, en in lay["disc"]:
        if en in seen:
            continue
        seen.add(en)
        o.append("class %s(Enum):" % en)
        for m in lay["modes"][mv]:
            o.append("    %s = auto()" % m)
        o.append("")
    if lay.get("static"):
        o.append("class KindMode(Enum):")
        for m in KINDS:
            o.append("    %s = auto()" % m)
        o.append("")
    o.append("class State:")
    args = []
    for c in lay["cont"]:
        o.append("    %s: float" % c)
        args.append(c)
    for mv, en in lay["disc"]:
        o.append("    %s: %s" % (mv, en))
        args.append(mv)
    if lay.get("static"):
        o.append("    type: KindMode")
        args.append("type")
    o.append("    def __init__(self, %s):" % ", ".join(args))
    o.append("        pass")
    o.append("")
    for nm, v in prog.get("consts", []):
        o.append("%s = %s" % (nm, r_num(v)))
    for h in prog["helpers"]:
        o.append("def %s(%s):" % (h["name"], ", ".join(
            "%s: List[State]" % a if a in LISTNAMES else "%s: State" % a for a in h["params"])))
        for nm, e in h["lets"]:
            o.append("    %s = %s" % (nm, render_expr(e)))
        o.append("    return %s" % render_expr(h["body"]))
        o.append("")
    sig = {"list": "ego: State, others: List[State]", "single": "ego: State, other: State", None: "ego: State"}[prog["other"]]
    o.append("def %s(%s):" % (fname, sig + (", track_map" if lay.get("road") else "")))
    o.append("    output = copy.deepcopy(ego)")
    render_stmts(prog["body"], 1, o)
    o.append("    return output")
    return "\n".join(o) + "\n"


# ---------------------------------------------------------------- roads: parallel straight lanes

@st.composite
def roads(draw):
    """Parallel lanes T0 (leftmost), T1, ... along one of the four axis directions; Mij is the change from Ti to Tj."""
    n = draw(st.sampled_from([3, 2, 3, 2, 1]))
    d = draw(st.sampled_from([[1, 0], [1, 0], [0, 1], [-1, 0], [0, -1]]))
    w = draw(st.sampled_from([3.0, 2.0, 4.0]))
    lanes = [{"id": "T%d" % i, "off": -w * i, "w": w, "cuts": sorted(draw(st.lists(st.sampled_from([-16, -2, -1, 0, 1, 2, 40]), max_size=2, unique=True)))} for i in range(n)]
    h = []
    for i in range(n):
        for j, m in ((i - 1, "SwitchLeft"), (i + 1, "SwitchRight")):
            if 0 <= j < n and draw(st.integers(0, 7)):
                h.append(["T%d" % i, "Normal", m, "M%d%d" % (i, j)])
                h.append(["M%d%d" % (i, j), m, "Normal", "T%d" % j])
    return {"d": d, "lanes": lanes, "h": h, "at": [draw(st.integers(-2, 2)), draw(st.integers(-2, 2))], "late": draw(st.booleans())}


ROAD_LEN = 256  # either way


@st.composite
def road_layouts(draw):
    r = draw(roads())
    names = sorted({l["id"] for l in r["lanes"]} | {x for a in r["h"] for x in (a[0], a[3])})
    return {"cont": draw(st.sampled_from([["x", "y"], ["x", "y", "v"], ["v", "x", "y"]])), "disc": draw(st.sampled_from([[["agent_mode", "AgentMode"], ["track_mode", "TrackMode"]]] * 2 + [[["track_mode", "TrackMode"], ["agent_mode", "AgentMode"]]])),
            "modes": {"agent_mode": ["Normal", "SwitchLeft", "SwitchRight"], "track_mode": names}, "static": False, "road": r}


class RoadRef:
    """The road's geometry and table, from its definition; also stands for the map in Python runs of a logic."""

    def __init__(self, road):
        self.r = road
        self.d = road["d"]
        self.l = [-self.d[1], self.d[0]]
        self.lanes = {x["id"]: x for x in road["lanes"]}

    def lane(self, track):
        track = getattr(track, "name", track)
        return self.lanes[track if track in self.lanes else "T" + track[1]]

    def line(self, track):
        return self.d, self.r["at"], self.lane(track)["off"]

    def pos(self, track, p):
        q = [p[0] - self.r["at"][0], p[1] - self.r["at"][1]]
        lon = q[0] * self.d[0] + q[1] * self.d[1]
        if abs(lon) > ROAD_LEN - 8:  # has left the road
            raise TooBig()
        return (lon + ROAD_LEN, q[0] * self.l[0] + q[1] * self.l[1] - self.lane(track)["off"])

    def h(self, track, mode, dest):
        key = [getattr(x, "name", x) for x in (track, mode, dest)]
        return next((t for *k, t in self.r["h"] if k == key), None)

    def h_exist(self, track, mode, dest):
        return self.h(track, mode, dest) is not None

    def get_longitudinal_position(self, track, p):
        return self.pos(track, p)[0]

    def get_lateral_distance(self, track, p):
        return self.pos(track, p)[1]

    def get_lane_width(self, track):
        return self.lane(track)["w"]

    def point(self, lon, lat, track):
        """Where the point `lon` from the middle and `lat` from the lane's axis is"""
        k = self.lane(track)["off"] + lat
        return [self.r["at"][i] + lon * self.d[i] + k * self.l[i] for i in (0, 1)]


def road_map(road):
    """The LaneMap"""
    from verse.map import LaneMap, StraightLane, Lane
    r = RoadRef(road)
    lanes = []
    for x in road["lanes"]:
        at = [-ROAD_LEN] + list(x["cuts"]) + [ROAD_LEN]
        lanes.append(Lane(x["id"], [StraightLane("%s seg%d" % (x["id"], i), r.point(a, 0, x["id"]), r.point(b, 0, x["id"]), x["w"]) for i, (a, b) in enumerate(zip(at, at[1:]))]))
    m = LaneMap(lanes) if len(lanes) % 2 else LaneMap()
    if not len(lanes) % 2:
        m.add_lanes(lanes)
    m.h_dict = {(a, b, c): t for a, b, c, t in road["h"]}
    return m


# ---------------------------------------------------------------- reference interpreter


margin = None  # set to [inf] to record how close any comparison of concrete values came


class Ref:
    """Reference semantics on one concrete state. ego / others: dict var -> value (modes are strings)."""

    def __init__(self, prog, ego, others):
        self.prog, self.ego, self.others = prog, ego, others
        self.helpers = {h["name"]: h for h in prog["helpers"]}
        self.objs0 = {"ego": ego}
        if prog["other"] == "single":
            self.objs0["other"] = others[0]
        self.visited = set()

    def ev(self, e, objs, locs):
        k = e[0]
        if k == "num" or k == "bool":
            return e[1]
        if k == "attr":
            return objs[e[1]][e[2]]
        if k == "loc":
            return locs[e[1]]
        if k == "+":
            return self.ev(e[1], objs, locs) + self.ev(e[2], objs, locs)
        if k == "-":
            return self.ev(e[1], objs, locs) - self.ev(e[2], objs, locs)
        if k == "*":
            return self.ev(e[1], objs, locs) * self.ev(e[2], objs, locs)
        if k == "neg":
            return -self.ev(e[1], objs, locs)
        if k == "cmp":
            l = self.ev(e[1], objs, locs)
            for op, r in e[2]:
                r = self.ev(r, objs, locs)
                if margin is not None and abs(l - r) < margin[0]:
                    margin[0] = abs(l - r)
                if not {"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r, "==": l == r, "!=": l != r}[op]:
                    return False
                l = r
            return True
        if k == "meq":
            return (objs[e[1]][e[2]] == e[4]) != e[5]
        if k == "oeq":
            return (objs[e[1]][e[3]] == objs[e[2]][e[3]]) != e[4]
        if k == "and":
            return all([self.ev(x, objs, locs) for x in e[1]])
        if k == "or":
            return any([self.ev(x, objs, locs) for x in e[1]])
        if k == "not":
            return not self.ev(e[1], objs, locs)
        if k == "call":
            h = self.helpers[e[1]]
            o2 = {p: objs[a] for p, a in zip(h["params"], e[2]) if p not in LISTNAMES}
            l2 = dict(self.prog.get("consts", []))
            for nm, x in h["lets"]:
                l2[nm] = self.ev(x, o2, l2)
            return self.ev(h["body"], o2, l2)
        if k in ("any", "all", "sum"):
            vals = []
            for o in self.others:
                o2 = dict(objs)
                o2[e[1]] = o
                if e[3] is None or self.ev(e[3], o2, locs):
                    vals.append(self.ev(e[2], o2, locs))
            return {"any": any, "all": all, "sum": sum}[k](vals)
        if k in ("lon", "lat"):
            return RoadRef(self.prog["lay"]["road"]).pos(objs[e[1]]["track_mode"], [objs[e[2]]["x"], objs[e[2]]["y"]])[k == "lat"]
        if k == "width":
            return RoadRef(self.prog["lay"]["road"]).lane(objs[e[1]]["track_mode"])["w"]
        if k == "hx":
            return RoadRef(self.prog["lay"]["road"]).h(self.ego["track_mode"], self.ego["agent_mode"], e[1]) is not None
        raise KeyError(k)

    def run(self):
        """-> (failed assert labels, {var: [alternatives]})"""
        fails = []
        alts = self.block(self.prog["body"], {}, dict(self.prog.get("consts", [])), fails, top=True)
        return fails, {v: a for v, a in alts.items() if a}

    def block(self, stmts, alts, locs, fails, top=False):
        """Nondeterministic reading: an assignment replaces what this block has gathered for the
        variable; an if whose condition holds adds what its body yields as further alternatives."""
        alts = dict(alts)
        for s in stmts:
            if s[0] == "let":
                locs = dict(locs)
                locs[s[1]] = self.ev(s[3], self.objs0, locs)
            elif s[0] == "set":
                alts[s[1]] = [self.ev(s[2], self.objs0, locs)]
            elif s[0] == "mode":
                alts[s[1]] = [s[3]]
            elif s[0] == "hmode":
                alts[s[1]] = [RoadRef(self.prog["lay"]["road"]).h(self.ego["track_mode"], self.ego["agent_mode"], s[2])]
            elif s[0] == "assert":
                if not self.ev(s[1], self.objs0, locs):
                    fails.append(s[2])
            elif s[0] == "if":
                body = s[2] or []
                for c, b in s[1]:
                    if self.ev(c, self.objs0, locs):
                        body = b
                        break
                sub = self.block(body, alts, locs, fails)
                for v, a in sub.items():
                    old = alts.get(v, [])
                    # what the body yields, plus what was there before it
                    alts[v] = list(dict.fromkeys(list(a) + list(old)))
        return alts

    def transitions(self):
        """Set of (modes tuple, cont tuple), or failed labels."""
        import itertools
        fails, alts = self.run()
        lay = self.prog["lay"]
        if fails:
            return fails, set()
        if not alts:
            return [], set()
        names = list(alts)
        out = set()
        for combo in itertools.product(*[alts[n] for n in names]):
            d = dict(zip(names, combo))
            modes = tuple(d.get(m, self.ego[m]) for m, _ in lay["disc"])
            cont = tuple(float(d.get(c, self.ego[c])) for c in lay["cont"])
            out.add((modes, cont))
        return [], out


def deterministic(prog):
    """No two different alternatives can ever arise: checked dynamically by len(alts) == 1."""
    return None


def count_nodes(e):
    if isinstance(e, list):
        return 1 + sum(count_nodes(x) for x in e)
    return 0


def has(e, kinds):
    if isinstance(e, list):
        return (len(e) > 0 and isinstance(e[0], str) and e[0] in kinds) or any(has(x, kinds) for x in e)
    if isinstance(e, dict):
        return any(has(x, kinds) for x in e.values())
    return False
