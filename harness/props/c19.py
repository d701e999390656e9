"""C19: maps' transition tables follow the road geometry, and analyses respect them."""
import importlib
import math
from enum import Enum

import numpy as np
from hypothesis import strategies as st

from .. import dl, world, execref
from ..core import Sub, Violation, sized
from . import c02, c07, c17

PROPERTY = "C19"
RULE = ("A case is a scenario on a generated transition table (refused), or a map - shipped, or generated with its size parameters - "
        "with a lane, a pair of modes and positions; non-trivial when some transition is refused, or the table lists the lane change.")
ASSUMPTIONS = ["a map transition is one that changes the first agent mode or the track mode of an agent that has both (as the library defines it)",
               "modes of shipped maps: Normal, Brake, SwitchLeft, SwitchRight, SwitchLeft2, SwitchRight2 and MoveUp, MoveDown in three dimensions"]

TRACKS = ["T0", "T1", "M01", "M10"]


# ---------------------------------------------------------------- analyses respect the table

@st.composite
def refused(draw, veri=False):
    am = draw(st.sampled_from([["A", "B"], ["Normal", "Left", "Right"]]))
    disc = [["agent_mode", "AgentMode"], ["track_mode", "TrackMode"]]
    lay = {"cont": draw(st.sampled_from([["x", "y"], ["x", "v", "y"]])), "disc": disc if draw(st.booleans()) else disc[::-1],
           "modes": {"agent_mode": am, "track_mode": TRACKS}, "static": False}
    nag = draw(st.sampled_from([1, 1, 2]))
    feats = {"helper": True, "sum": False, "eqs": False}
    if veri:
        feats["asserts"] = False
    ags = draw(c02.agents(lay, 1 if veri else nag, feats, 2))
    for i in range(1, nag if veri else 1):
        ags.append({"id": "z%d" % i, "prog": None, "lay": lay, "key": 0, "rates": {m: [0.0] * len(lay["cont"]) for m in lay["modes"][lay["disc"][0][0]]},
                    "mode": [draw(st.sampled_from(lay["modes"][m])) for m, _ in lay["disc"]], "init": [[draw(c02.vals) for _ in lay["cont"]]], "static": []})
    table = []
    for t in TRACKS:
        for a in am:
            for b in am:
                k = draw(st.integers(0, 3))
                if k == 0:
                    table.append([t, a, b, t])
                elif k == 1:
                    table.append([t, a, b, draw(st.sampled_from(TRACKS))])
    case = {"agents": ags, "dt": draw(st.sampled_from([0.25, 0.5, 1.0])), "n": draw(st.integers(1, 8)), "H": draw(st.sampled_from([6, 4, 3, 2])), "table": table}
    if veri:
        for i, a in enumerate(ags):
            lo = [v + (3 ** (i + j) + i) / 1024 for j, v in enumerate(a["init"][0])]
            a["init"] = [lo, [v + draw(st.sampled_from([0, 0.25, 0.5, 1.0])) for v in lo]]
        case["pts"] = [[[draw(st.integers(0, 4)) / 4 for _ in lay["cont"]] for _ in ags] for _ in range(4)]
    return case


class FilteredSim(execref.RefSim):
    table, dropped = {}, 0

    def step(self, aid, states, modes):
        f, t = execref.RefSim.step(self, aid, states, modes)
        ai, ti = [[m for m, _ in self.lay[aid]["disc"]].index(m) for m in ("agent_mode", "track_mode")]
        s = modes[aid]
        ok = {(d, c) for d, c in t if (d[ai], d[ti]) == (s[ai], s[ti]) or self.table.get((s[ti], s[ai], d[ai])) == d[ti]}
        self.dropped += len(t) - len(ok)
        return f, ok


def table_map(table):
    from verse.map.lane_map import LaneMap
    from verse.map.lane import Lane
    from verse.map.lane_segment import StraightLane
    mp = LaneMap([Lane("T%d" % i, [StraightLane("s", [0, -3 * i], [100, -3 * i], 3)]) for i in range(2)])
    mp.h_dict = {(t, a, b): d for t, a, b, d in table}
    return mp


def scenario(case, cfg=None):
    sc = world.build({"agents": case["agents"]}, cfg)
    sc.map = table_map(case["table"])
    return sc


def refsim(case, ags, cap):
    rs = FilteredSim({"agents": ags}, case["n"] * case["dt"], case["dt"], case["H"], cap=cap)
    rs.table = {(t, a, b): d for t, a, b, d in case["table"]}
    return rs


def check_refused_sim(case):
    rs = refsim(case, case["agents"], 60)
    try:
        ref = rs.run()
    except execref.TooBig:
        return None
    tree = scenario(case).simulate(case["n"] * case["dt"], case["dt"], max_height=case["H"])
    d = execref.compare(tree.root, ref, case["dt"])
    if d:
        raise Violation("with the table %s: %s" % (case["table"], d))
    if not rs.dropped:
        return None
    return ["refused"] + (["refused, other transition taken"] if ref["child"] else [])


def check_refused_veri(case):
    refs, hit = [], set()
    for f in case["pts"]:
        rs = refsim(case, c07.point(case, f), 40)
        dl.margin = [float("inf")]
        try:
            ref = rs.run()
        except execref.TooBig:
            return None
        finally:
            tight, dl.margin = dl.margin[0] < c07.TOL, None
        if tight:
            continue
        c07.mark(ref, N=case["n"], dt=case["dt"], jumpers={a["id"] for a in case["agents"] if a["prog"]})
        refs.append((f, ref))
        if rs.dropped:
            hit.add("refused")
            if ref["child"]:
                hit.add("refused, other transition taken")
    if not hit:
        return None
    with sized():
        tree = scenario(case).verify(case["n"] * case["dt"], case["dt"], max_height=case["H"])
    for f, ref in refs:
        d = c07.covered(ref, tree.root, "root")
        if d:
            raise Violation("with the table %s: simulation from %s: %s" % (case["table"], {a["id"]: a["init"][0] for a in c07.point(case, f)}, d))
    table = {(t, a, b): d for t, a, b, d in case["table"]}
    for n in tree.nodes:
        for c in n.child:
            for a in case["agents"]:
                names = [m for m, _ in a["lay"]["disc"]]
                ai, ti = names.index("agent_mode"), names.index("track_mode")
                s, d = n.mode[a["id"]], c.mode[a["id"]]
                if (s[ai], s[ti]) != (d[ai], d[ti]) and table.get((s[ti], s[ai], d[ai])) != d[ti]:
                    raise Violation("with the table %s verification takes %s to %s" % (case["table"], s, d))
    return sorted(hit)


# ---------------------------------------------------------------- the tables follow the geometry

MAPS_2D = [("simple_map2", n) for n in ("SimpleMap2", "SimpleMap3", "SimpleMap4", "SimpleMap4Switch2", "SimpleMap5", "SimpleMap6")] + [("map_tacas", n) for n in ("M1", "M2", "M3")]
MAPS_3D = [("simple_map_3d", "SimpleMap%d" % i) for i in range(1, 8)] + [("map_tacas", "M5"), ("map_tacas", "M6")]
MODES = ["Normal", "Brake", "SwitchLeft", "SwitchRight", "SwitchLeft2", "SwitchRight2"]
SHIFT = {"SwitchLeft": 1, "SwitchRight": -1, "SwitchLeft2": 2, "SwitchRight2": -2}


class Geo:
    """A lane's centreline, from its segments' defining points."""
    def __init__(self, lane):
        self.segs = []
        for s in lane.segment_list:
            g = {"width": s.width}
            if hasattr(s, "radius"):
                g.update(type="C", center=[float(v) for v in s.center], radius=float(s.radius), start_phase=float(s.start_phase),
                         end_phase=float(s.end_phase), clockwise=bool(s.clockwise))
            else:
                g.update(type="S", start=[float(v) for v in s.start], end=[float(v) for v in s.end])
            self.segs.append(c17.Ref(g))
        self.width = self.segs[0].g["width"]

    def samples(self, fr):
        return [(r.centre(f * r.length), r.heading(f * r.length)) for r in self.segs for f in fr]

    def dist(self, p):
        """Distance of a point from the centreline, and the heading there."""
        best = None
        for r in self.segs:
            g = r.g
            if g["type"] == "S":
                d = p - np.array(g["start"])
                t = min(max(float(d @ r.d) / r.length, 0), r.length)
            else:
                d = p - np.array(g["center"])
                sg = -1 if g["clockwise"] else 1
                mid = (g["start_phase"] + g["end_phase"]) / 2
                t = r.length / 2 + sg * c17.wrap(math.atan2(d[1], d[0]) - mid) * g["radius"]
                t = min(max(t, 0), r.length)
            e = float(np.hypot(*(r.centre(t) - p)))
            if best is None or e < best[0]:
                best = (e, r.heading(t))
        return best

    def joints(self):
        """None, or why the centreline is not continuous."""
        for a, b in zip(self.segs, self.segs[1:]):
            if float(np.hypot(*(a.centre(a.length) - b.centre(0)))) > 1e-6:
                return "segment ends at %s, the next one starts at %s" % (a.centre(a.length), b.centre(0))
        for r in self.segs:
            if r.length <= 0 or r.g["type"] == "C" and (r.g["end_phase"] - r.g["start_phase"]) * (-1 if r.g["clockwise"] else 1) <= 0:
                return "segment %s runs backwards" % r.g
        return None


def beside(geos, l, k, fr):
    """Lanes whose centreline runs k lane widths to the left of lane l all along it."""
    out = []
    for d in geos:
        if d == l:
            continue
        off = (geos[l].width + geos[d].width) / 2 * k
        for p, h in geos[l].samples(fr):
            q = p + off * np.array([-math.sin(h), math.cos(h)])
            e, h2 = geos[d].dist(q)
            if e > 1e-3 or abs(c17.wrap(h2 - h)) > 1e-3:
                break
        else:
            out.append(d)
    return out


def as_enum(names):
    return Enum("E", sorted(set(names)))


def ask(m, f, lane, a, b, enums):
    """h or h_exist; with strings or with enumeration members."""
    v = (lane, a, b)
    if enums:
        v = tuple(as_enum([x])[x] for x in v)
    return getattr(m, f)(*v)


def table(m, lane, a, b, enums):
    """The destination the map lists for a mode change, None if it does not."""
    e = ask(m, "h_exist", lane, a, b, enums)
    if e is not True and e is not False:
        raise Violation("h_exist(%s, %s, %s) is %r" % (lane, a, b, e))
    try:
        r = ask(m, "h", lane, a, b, enums)
    except KeyError:
        r = None
    if e != (r is not None):
        raise Violation("h_exist(%s, %s, %s) is %r but h is %r" % (lane, a, b, e, r))
    return r


def check_map(m, fr, enums, name):
    from verse.map.lane_map import LaneMap
    geos = {l: Geo(x) for l, x in m.lane_dict.items()}
    modes = MODES if name == "SimpleMap4Switch2" else MODES[:4]  # the other maps know single lane changes only
    lists = m.h_dict or type(m).h is not LaneMap.h
    n = 0

    def real(x, what):
        if LaneMap.get_phys_lane(x) not in m.lane_dict:
            raise Violation("%s: %s names %s, the map has %s" % (name, what, x, sorted(m.lane_dict)))
    for l, x in m.lane_dict.items():
        if x.id != l:
            raise Violation("%s: lane %s is listed as %s" % (name, x.id, l))
        j = geos[l].joints()
        if j:
            raise Violation("%s: lane %s: %s" % (name, l, j))
    for (t, a, b), d in m.h_dict.items():
        real(t, "the table's entry %s" % ((t, a, b),))
        real(d, "the table's entry %s" % ((t, a, b),))
    for l in m.lane_dict:
        for b in modes:
            if b not in SHIFT:
                r = table(m, l, "Normal", b, enums)
                if r is not None and r != l:
                    raise Violation("%s: going from Normal to %s in %s leads to %s" % (name, b, l, r))
                continue
            cand = beside(geos, l, SHIFT[b], fr)
            if abs(SHIFT[b]) == 2:
                cand = [d for c in beside(geos, l, SHIFT[b] // 2, fr) for d in beside(geos, c, SHIFT[b] // 2, fr)]
            r = table(m, l, "Normal", b, enums)
            if r is None:
                if cand and lists:
                    raise Violation("%s: %s is not offered in %s although %s is there" % (name, b, l, cand))
                continue
            n += 1
            real(r, "%s from %s" % (b, l))
            if LaneMap.get_phys_lane(r) != l:
                raise Violation("%s: %s from %s leads to %s, which does not follow %s" % (name, b, l, r, l))
            d = table(m, r, b, "Normal", enums)
            if d is None or d not in cand:
                raise Violation("%s: %s from %s leads to %s and back to Normal in %s; on that side is %s" % (name, b, l, r, d, cand))
            for b2 in modes:
                if b2 in SHIFT and table(m, r, b, b2, enums) not in (None, r):
                    raise Violation("%s: %s on %s may turn into %s leading to %s" % (name, b, r, b2, table(m, r, b, b2, enums)))
    for side, k in (("left", 1), ("right", -1)):
        dicts = [{a: [b] for a, b in getattr(m, side + "_dict", {}).items()}, getattr(m, side + "_lane_dict")]
        for dct in dicts:
            for l, ds in dct.items():
                real(l, side)
                for d in ds:
                    n += 1
                    real(d, "%s of %s" % (side, l))
                    if lists and d not in beside(geos, l, k, fr):
                        raise Violation("%s: the map lists %s to the %s of %s" % (name, d, side, l))
                    for p, h in geos[l].samples([0.5]):
                        q = p + k * 0.5 * np.array([-math.sin(h), math.cos(h)])
                        if not geos[d].dist(q)[0] < geos[d].dist(p)[0]:
                            raise Violation("%s: the map lists %s to the %s of %s" % (name, d, side, l))
            if lists and any(dct.values()):
                for l in m.lane_dict:
                    if beside(geos, l, k, fr) and not dct.get(l):
                        raise Violation("%s: the map lists nothing to the %s of %s" % (name, side, l))
    return n


@st.composite
def shipped(draw):
    k = draw(st.integers(0, 3))
    c = {"fr": sorted(draw(st.lists(st.floats(0, 1), min_size=1, max_size=4))), "enums": draw(st.booleans())}
    if k == 0:
        c.update(kind="2d", which=list(draw(st.sampled_from(MAPS_2D))))
    elif k == 1:
        c.update(kind="3d", which=list(draw(st.sampled_from(MAPS_3D))))
    else:
        lanes = draw(st.integers(1, 4))
        w = draw(st.integers(4, 20)) / 4
        c.update(kind="x", lanes=lanes, width=w, size=(1 + lanes) * w + draw(st.integers(0, 40)) / 4, length=draw(st.integers(1, 200)))
    return c


def check_shipped(case):
    if case["kind"] == "x":
        cls = importlib.import_module("verse.map.example_map.intersection").Intersection
        m = cls(width=case["width"], size=case["size"], length=case["length"], lanes=case["lanes"])
        want = {"%s%s_%d" % (a, b, i) for a in "NSEW" for b in "NSEW" if a != b for i in range(case["lanes"])}
        if set(m.lane_dict) != want:
            raise Violation("intersection of %d lanes has the lanes %s" % (case["lanes"], sorted(m.lane_dict)))
        ends = {"N": (0, 1), "S": (0, -1), "E": (1, 0), "W": (-1, 0)}
        far = case["size"] + case["length"]
        for l, x in m.lane_dict.items():
            g = Geo(x)
            for p, c, sg in ((g.segs[0].centre(0), l[0], 1), (g.segs[-1].centre(g.segs[-1].length), l[1], -1)):
                e = np.array(ends[c])
                off = sg * float(e[0] * p[1] - e[1] * p[0])  # traffic keeps to the right
                if abs(float(e @ p) - far) > 1e-6 or abs(off - case["width"] * (int(l[3:]) + 0.5)) > 1e-6:
                    raise Violation("lane %s of %s has its end %s at %s" % (l, case, c, p))
        n = check_map(m, case["fr"], case["enums"], "Intersection(%r, %r, %r, %r)" % (case["width"], case["size"], case["length"], case["lanes"]))
        return ["intersection"] if n else None
    m = getattr(importlib.import_module("verse.map.example_map." + case["which"][0]), case["which"][1])()
    if case["kind"] == "2d":
        return [case["which"][1]] if check_map(m, case["fr"], case["enums"], case["which"][1]) else None
    return check_3d(m, case["which"][1], case["enums"] and case["which"][0] == "map_tacas")


def check_3d(m, name, enums):
    n = 0
    side = {"MoveUp": 1, "MoveDown": -1}

    def height(l):
        s = m.lane_dict[l].segment_list[0]
        return float((s.start if hasattr(s, "start") else s.center)[2])
    if hasattr(m, "h_dict"):
        for (t, a, b), d in m.h_dict.items():
            for x in (t, d):
                if x not in m.lane_dict and not (x[0] == "M" and {"T" + x[1], "T" + x[2]} <= set(m.lane_dict)):
                    raise Violation("%s: the table names %s, the map has %s" % (name, x, sorted(m.lane_dict)))
        by_h = sorted(m.lane_dict, key=height)
        for l in m.lane_dict:
            for b, k in side.items():
                i = by_h.index(l) + k
                want = by_h[i] if 0 <= i < len(by_h) else None
                r = table(m, l, "Normal", b, enums)
                n += 1
                if (r is None) != (want is None):
                    raise Violation("%s: %s from %s leads to %s, next in that direction is %s" % (name, b, l, r, want))
                if r is None:
                    continue
                if r[:2] != "M" + l[1]:
                    raise Violation("%s: %s from %s leads to %s" % (name, b, l, r))
                if table(m, r, b, "Normal", enums) != want:
                    raise Violation("%s: %s from %s leads to %s and then to %s, next in that direction is %s" % (name, b, l, r, table(m, r, b, "Normal", enums), want))
                if m.trans_func(r) != want or m.trans_func(l) != l:
                    raise Violation("%s: %s is taken for lane %s, %s for %s" % (name, r, m.trans_func(r), l, m.trans_func(l)))
    # neighbours come in pairs, and lie on their side
    for a, b, axis, sg in (("left", "right", 1, 1), ("right", "left", 1, -1), ("up", "down", 2, 1), ("down", "up", 2, -1)):
        for l, ds in getattr(m, a + "_lane_dict").items():
            if getattr(m, "has_" + a)(l) != bool(ds) or ds and getattr(m, a + "_lane")(l) != ds[0]:
                raise Violation("%s: %s of %s is not %s" % (name, a, l, ds))
            for d in ds:
                n += 1
                if l not in getattr(m, b + "_lane_dict")[d]:
                    raise Violation("%s: %s is to the %s of %s but not the other way round" % (name, d, a, l))
                s, t = m.lane_dict[l].segment_list[0], m.lane_dict[d].segment_list[0]
                p, q = [np.array(x.start if hasattr(x, "start") else x.center, float) for x in (s, t)]
                if not (q - p)[axis] * sg > 0:
                    raise Violation("%s: %s is listed to the %s of %s, from %s to %s" % (name, d, a, l, p, q))
    return [name] if n else None


# ---------------------------------------------------------------- OpenDRIVE import

@st.composite
def roads(draw):
    """Reference lines (tangent-continuous lines and arcs) with lanes on both sides, each listed from the reference line outwards."""
    x, y, h = draw(st.integers(-50, 50)), draw(st.integers(-50, 50)), draw(st.integers(-6, 6)) / 2
    out = []
    for _ in range(draw(st.integers(1, 3))):
        geo = []
        for _ in range(draw(st.integers(1, 3))):
            ln = draw(st.integers(5, 60))
            cv = draw(st.sampled_from([0, 1, -1]))
            R = draw(st.integers(25, 80))
            if cv and ln / R > 2:
                ln = R
            geo.append({"x": x, "y": y, "hdg": h, "length": ln, "curv": cv / R})
            if cv:
                x, y = x - cv * R * math.sin(h) + cv * R * math.sin(h + cv * ln / R), y + cv * R * math.cos(h) - cv * R * math.cos(h + cv * ln / R)
                h += cv * ln / R
            else:
                x, y = x + ln * math.cos(h), y + ln * math.sin(h)
        out.append(geo)
    lanes = {}
    for side, k in (("left", draw(st.integers(0, 4))), ("right", draw(st.integers(0, 3)))):
        walk = draw(st.sampled_from([0, 0, 1.5, 2]))
        w = draw(st.sampled_from([2.5, 3, 5]))
        lanes[side] = ([["sidewalk", walk]] if walk and draw(st.booleans()) else []) + [["driving", w]] * k + ([["sidewalk", walk]] if walk else [])
    if not any(t == "driving" for s in lanes.values() for t, _ in s):
        lanes["left"] = [["driving", 3]]
    return {"roads": out, "lanes": lanes, "fr": sorted(draw(st.lists(st.floats(0, 1), min_size=1, max_size=3))), "enums": draw(st.booleans())}


def xodr(case):
    out = ['<?xml version="1.0"?>', "<OpenDRIVE>"]
    dummy = [{"x": 500, "y": 500, "hdg": 0, "length": 10, "curv": 0}]  # the importer leaves out the last road, a marker for the origin
    for i, geo in enumerate(case["roads"] + [dummy]):
        out.append('<road name="Road %d" id="%d" length="%r" junction="-1"><planView>' % (i, i, sum(g["length"] for g in geo)))
        s = 0
        for g in geo:
            out.append('<geometry s="%r" x="%r" y="%r" hdg="%r" length="%r">%s</geometry>'
                       % (s, g["x"], g["y"], g["hdg"], g["length"], '<arc curvature="%r"/>' % g["curv"] if g["curv"] else "<line/>"))
            s += g["length"]
        out.append('</planView><lanes><laneSection s="0">')
        for side, sg in (("left", 1), ("center", 0), ("right", -1)):
            if side == "center":
                out.append('<center><lane id="0" type="none" level="false"/></center>')
            elif case["lanes"][side]:
                out.append("<%s>" % side)
                for j, (t, w) in enumerate(case["lanes"][side]):
                    out.append('<lane id="%d" type="%s" level="false"><width sOffset="0" a="%r" b="0" c="0" d="0"/></lane>' % (sg * (j + 1), t, w))
                out.append("</%s>" % side)
        out.append("</laneSection></lanes></road>")
    out.append("</OpenDRIVE>")
    return "\n".join(out)


def check_opendrive(case):
    import os
    import tempfile
    from verse.map.opendrive_parser import opendrive_map
    with tempfile.NamedTemporaryFile("w", suffix=".xodr", delete=False) as f:
        f.write(xodr(case))
    try:
        m = opendrive_map(f.name)
    finally:
        os.unlink(f.name)
    offs = []
    for side, sg in (("left", 1), ("right", -1)):
        o = 0
        for t, w in case["lanes"][side]:
            if t == "driving":
                offs.append((sg * (o + w / 2), w))
            o += w
    if len(m.lane_dict) != len(offs):
        raise Violation("%d driving lanes are imported as %s" % (len(offs), sorted(m.lane_dict)))
    geos = {l: Geo(x) for l, x in m.lane_dict.items()}
    found = {}
    for o, w in offs:
        pts = []
        for r in case["roads"]:
            for g in r:
                for f in case["fr"]:
                    c, t = g["curv"], f * g["length"]
                    hd = g["hdg"] + c * t
                    p = np.array([g["x"] + (math.sin(hd) - math.sin(g["hdg"])) / c, g["y"] - (math.cos(hd) - math.cos(g["hdg"])) / c]) if c else \
                        np.array([g["x"] + t * math.cos(hd), g["y"] + t * math.sin(hd)])
                    pts.append((p + o * np.array([-math.sin(hd), math.cos(hd)]), hd))
        for l, g in geos.items():
            if abs(g.width - w) < 1e-9 and all((e := g.dist(p))[0] < 1e-5 and abs(c17.wrap(e[1] - hd)) < 1e-5 for p, hd in pts):
                found[o] = l
    if len(set(found.values())) != len(offs):
        raise Violation("lanes at the offsets %s of the reference line: only those at %s are in the map" % (offs, found))
    order = [found[o] for o, _ in sorted(offs)]  # from right to left
    gaps = [abs(b[0] - a[0]) - (a[1] + b[1]) / 2 for a, b in zip(sorted(offs), sorted(offs)[1:])]
    for i, l in enumerate(order):
        for b, k, dct in (("SwitchLeft", 1, m.left_lane_dict), ("SwitchRight", -1, m.right_lane_dict)):
            want = order[i + k] if 0 <= i + k < len(order) else None
            r = table(m, l, "Normal", b, case["enums"])
            got = None if r is None else table(m, r, b, "Normal", case["enums"])
            if got != want or (r is not None and m.get_phys_lane(r) != l):
                raise Violation("lanes from right to left are %s: %s from %s leads to %s and then %s" % (order, b, l, r, got))
            if list(dct[l]) != ([want] if want else []):
                raise Violation("lanes from right to left are %s: the map lists %s beside %s for %s" % (order, dct[l], l, b))
    arcs = {("arc left" if g["curv"] > 0 else "arc right") for r in case["roads"] for g in r if g["curv"]}
    return ["lanes=%d" % len(offs)] + sorted(arcs) + (["both sides"] if all(any(t == "driving" for t, _ in s) for s in case["lanes"].values()) else [])


def subs():
    return [Sub("refused-sim", refused(), check_refused_sim, 2000), Sub("refused-veri", refused(True), check_refused_veri, 1200),
            Sub("shipped", shipped(), check_shipped, 400), Sub("opendrive", roads(), check_opendrive, 500)]
