"""C17: planar lane coordinates are a faithful change of coordinates."""
import enum, importlib, json, math
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation

PROPERTY = "C17"
RULE = ("A case is a lane (straight or circular with its parameters, or a tangent-continuous chain of them put into a map) together with lane positions; "
        "non-trivial when the lane is not a straight lane along an axis starting at the origin.")
ASSUMPTIONS = ["lane positions are on the lane's side of a circular lane's centre and no nearer to another segment than to their own",
               "membership extends one vehicle length past both ends, as the lane's documentation has it",
               "composite lanes are queried before their end"]

TAU = 2 * math.pi


def wrap(a):
    return (a + math.pi) % TAU - math.pi


def num(lo, hi):
    return st.one_of(st.integers(math.ceil(lo * 8), math.floor(hi * 8)).map(lambda v: v / 8), st.floats(lo, hi, allow_nan=False, width=64))


@st.composite
def straight(draw):
    x, y = draw(num(-50, 50)), draw(num(-50, 50))
    ang = draw(st.one_of(st.integers(0, 7).map(lambda k: k * math.pi / 4), st.floats(-3.2, 3.2)))
    ln = draw(num(2, 200))
    return {"type": "S", "start": [x, y], "end": [x + ln * math.cos(ang), y + ln * math.sin(ang)], "width": draw(num(1, 6))}


@st.composite
def circular(draw):
    turn = draw(st.one_of(st.sampled_from([math.pi / 2, math.pi, 3 * math.pi / 2]), st.floats(0.1, 6.0)))
    cw = draw(st.booleans())
    s = draw(st.one_of(st.integers(-4, 8).map(lambda k: k * math.pi / 2), st.floats(-7, 7)))
    return {"type": "C", "center": [draw(num(-50, 50)), draw(num(-50, 50))], "radius": draw(num(3, 80)), "start_phase": s,
            "end_phase": s - turn if cw else s + turn, "clockwise": cw, "width": draw(num(1, 6))}


@st.composite
def single(draw):
    g = draw(st.one_of(straight(), circular(), circular()))
    pts = [[draw(st.floats(-0.3, 1.3)), draw(st.floats(-1.2, 1.2)), draw(num(-4, 4))] for _ in range(draw(st.integers(1, 6)))]
    return {"lane": g, "pts": pts, "margin": draw(st.sampled_from([0, 0, 0.5, 2])), "forbidden": draw(st.integers(0, 4)) == 0, "weight": draw(st.sampled_from([1.0, 0.5, 3.0])),
            "aslist": draw(st.booleans()), "speed": draw(st.sampled_from([20, 35.5])), "prio": draw(st.integers(0, 3))}


# ---------------------------------------------------------------- reference

class Ref:
    """Length, position, heading of a lane from its parameters."""
    def __init__(self, g):
        self.g = g
        if g["type"] == "S":
            self.d = np.array(g["end"], float) - np.array(g["start"], float)
            self.length = float(np.hypot(*self.d))
            self.h = math.atan2(self.d[1], self.d[0])
            self.side = 1e9
        else:
            self.length = g["radius"] * abs(g["end_phase"] - g["start_phase"])
            self.side = g["radius"]

    def heading(self, lon):
        g = self.g
        if g["type"] == "S":
            return self.h
        sgn = -1 if g["clockwise"] else 1
        return g["start_phase"] + sgn * lon / g["radius"] + sgn * math.pi / 2

    def centre(self, lon):
        g = self.g
        if g["type"] == "S":
            return np.array(g["start"], float) + lon * np.array([math.cos(self.h), math.sin(self.h)])
        sgn = -1 if g["clockwise"] else 1
        a = g["start_phase"] + sgn * lon / g["radius"]
        return np.array(g["center"], float) + g["radius"] * np.array([math.cos(a), math.sin(a)])

    def position(self, lon, lat):
        h = self.heading(lon)
        return self.centre(lon) + lat * np.array([-math.sin(h), math.cos(h)])


def make(g, id="seg", **kw):
    ls = importlib.import_module("verse.map.lane_segment")
    if g["type"] == "S":
        return ls.StraightLane(id, list(g["start"]), list(g["end"]), g["width"], **kw)
    return ls.CircularLane(id, list(g["center"]), g["radius"], g["start_phase"], g["end_phase"], g["clockwise"], g["width"], **kw)


def close(a, b, tol):
    return bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= tol))


def check_single(case):
    g, ref = case["lane"], Ref(case["lane"])
    lane = make(g, forbidden=case["forbidden"], speed_limit=case["speed"], priority=case["prio"])
    arr = (lambda p: p)
    tol = 1e-6
    if not close(lane.length, ref.length, tol):
        raise Violation("a lane of length %r reports length %r" % (ref.length, lane.length))
    cfg = lane.to_config()
    cfg = json.loads(json.dumps(cfg))
    mod, cls = cfg["class_path"].rsplit(".", 1)
    again = getattr(importlib.import_module(mod), cls).from_config(cfg["config"])
    for f, l, off in case["pts"]:
        lon = f * ref.length
        lat = l * g["width"]
        if g["type"] == "C":
            room = (TAU * g["radius"] - ref.length) / 2
            lon = min(max(lon, -0.9 * room), ref.length + 0.9 * room)
            if abs(lat) > 0.8 * g["radius"]:
                lat = math.copysign(0.8 * g["radius"], lat)
        pos = ref.position(lon, lat)
        got = lane.position(lon, lat)
        if not close(got, pos, tol):
            raise Violation("position(%r, %r) is %r, the lane's geometry says %r" % (lon, lat, list(got), pos.tolist()))
        back = lane.local_coordinates(np.array(pos))
        if not close(back, (lon, lat), 1e-5):
            raise Violation("lane position (%r, %r) comes back as %r" % (lon, lat, [float(v) for v in back]))
        if not close(wrap(lane.heading_at(lon) - ref.heading(lon)), 0, tol):
            raise Violation("heading at %r is %r, the centreline's direction is %r" % (lon, lane.heading_at(lon), wrap(ref.heading(lon))))
        if lane.width_at(lon) != g["width"]:
            raise Violation("width at %r is %r, not %r" % (lon, lane.width_at(lon), g["width"]))
        if not close(again.position(lon, lat), pos, tol) or again.id != lane.id or again.width_at(lon) != g["width"] or again.forbidden != case["forbidden"] \
                or again.speed_limit != case["speed"] or again.priority != case["prio"]:
            raise Violation("the lane rebuilt from its own configuration differs")
        VL = lane.VEHICLE_LENGTH
        p = np.array(pos)

        def edge(*vs):
            return any(abs(v) < 1e-4 for v in vs)
        if not edge(abs(lat) - g["width"] / 2 - case["margin"], lon + VL, lon - ref.length - VL):
            want = abs(lat) <= g["width"] / 2 + case["margin"] and -VL <= lon < ref.length + VL
            if bool(lane.on_lane(p, margin=case["margin"])) != want or bool(lane.on_lane(p, lon, lat, margin=case["margin"])) != want:
                raise Violation("on_lane(margin %r) at (%r, %r) of a lane %r long and %r wide does not say %r" % (case["margin"], lon, lat, ref.length, g["width"], want))
        if not edge(abs(lat) - 2 * g["width"], lon, lon - ref.length - VL):
            want = not case["forbidden"] and abs(lat) <= 2 * g["width"] and 0 <= lon < ref.length + VL
            if bool(lane.is_reachable_from(p)) != want:
                raise Violation("is_reachable_from at (%r, %r) does not say %r" % (lon, lat, want))
        if not edge(lon - ref.length + VL / 2, lon):
            want = lon > ref.length - VL / 2
            if bool(lane.after_end(p)) != want or bool(lane.after_end(p, lon, lat)) != want:
                raise Violation("after_end at longitudinal %r of %r does not say %r" % (lon, ref.length, want))
        d = abs(lat) + max(lon - ref.length, 0) + max(-lon, 0)
        if not close(lane.distance(p), d, 1e-5):
            raise Violation("distance from (%r, %r) is %r, not %r" % (lon, lat, float(lane.distance(p)), d))
        hd = ref.heading(lon) + off
        want = d + case["weight"] * abs(wrap(off))
        if abs(abs(wrap(off)) - math.pi) > 1e-3 and not close(lane.distance_with_heading(p, hd, case["weight"]), want, 1e-4):
            raise Violation("distance with heading %r off by %r: %r, not %r" % (hd, off, float(lane.distance_with_heading(p, hd, case["weight"])), want))
        if not close(lane.distance_with_heading(p, None), d, 1e-5):
            raise Violation("distance with no heading differs from the distance")
    if g["type"] == "S" and g["start"] == [0, 0]:
        return None
    return [g["type"]] + (["long arc"] if g["type"] == "C" and abs(g["end_phase"] - g["start_phase"]) > math.pi else [])


# ---------------------------------------------------------------- chains

@st.composite
def chain(draw, n=None):
    """A tangent-continuous sequence of segments."""
    n = n or draw(st.integers(1, 5))
    p = [draw(num(-30, 30)), draw(num(-30, 30))]
    h = draw(st.one_of(st.integers(0, 7).map(lambda k: k * math.pi / 4), st.floats(-3.2, 3.2)))
    w = draw(num(1, 4))
    out, kind = [], draw(st.booleans())
    for _ in range(n):
        if kind:
            ln = draw(num(5, 80))
            g = {"type": "S", "start": list(p), "end": [p[0] + ln * math.cos(h), p[1] + ln * math.sin(h)], "width": w}
            p = list(g["end"])
        else:
            R = draw(num(4, 40))
            turn = draw(st.one_of(st.sampled_from([math.pi / 2, math.pi, math.pi, 3 * math.pi / 2]), st.floats(0.3, 5.0)))
            cw = draw(st.booleans())
            sg = -1 if cw else 1
            c = [p[0] - sg * R * math.sin(h), p[1] + sg * R * math.cos(h)]
            s = math.atan2(p[1] - c[1], p[0] - c[0]) + TAU * draw(st.integers(-1, 1))
            g = {"type": "C", "center": c, "radius": R, "start_phase": s, "end_phase": s + sg * turn, "clockwise": cw, "width": w}
            h = h + sg * turn
            p = [c[0] + R * math.cos(s + sg * turn), c[1] + R * math.sin(s + sg * turn)]
        out.append(g)
        kind = not kind if draw(st.integers(0, 4)) else kind
    return out


@st.composite
def composite(draw):
    k = draw(st.integers(1, 3))
    lanes = [draw(chain()) for _ in range(k)]
    share = k > 1 and draw(st.booleans())       # the later lanes end with the first lane's last segment, as at a crossing
    pts = [[draw(st.integers(0, k - 1)), draw(st.floats(0, 1)), draw(st.floats(-1, 1))] for _ in range(draw(st.integers(2, 12)))]
    return {"lanes": lanes, "share": share, "pts": pts, "names": draw(st.sampled_from(["T", "X", "U"])), "how": draw(st.integers(0, 2)), "arr": draw(st.booleans())}


def phys(names, i):
    return {"T": "T%d", "X": "NS_%d", "U": "lane%d"}[names] % i


def virt(names, i, k):
    """Names of virtual lanes that start on physical lane i."""
    j = (i + 1) % max(k, 2)
    if names == "T":
        return "M%d%d" % (i, j)
    if names == "X":
        return "NS_%d_%d" % (i, j)
    return phys(names, i)


def nearest(refs, i, p, lat, lon):
    """True when segment i is clearly the one that p belongs to."""
    for j, r in enumerate(refs):
        if j == i:
            continue
        m = max(24, int(r.length / 0.25))
        ss = np.linspace(-3.0, r.length, m)
        if j == i + 1 and lon > refs[i].length - 8:
            ss = ss[ss > 6.0]
        elif j == i - 1 and lon < 8:
            ss = ss[ss < r.length - 6.0]
        if len(ss) and min(float(np.hypot(*(r.centre(s) - p))) for s in ss) < abs(lat) + 0.4:
            return False
    return True


def check_composite(case):
    lane_mod, map_mod = importlib.import_module("verse.map.lane"), importlib.import_module("verse.map.lane_map")
    segs = [[make(g, "s%d_%d" % (i, j)) for j, g in enumerate(l)] for i, l in enumerate(case["lanes"])]
    geo = [list(l) for l in case["lanes"]]
    if case["share"]:
        last, lastg = segs[0][-1], geo[0][-1]
        for i in range(1, len(segs)):
            segs[i] = [last] + segs[i][:0]
            geo[i] = [lastg]
    refs = [[Ref(g) for g in l] for l in geo]
    lanes = [lane_mod.Lane(phys(case["names"], i), l, speed_limit=10 + i) for i, l in enumerate(segs)]
    if case["how"] == 0:
        mp = map_mod.LaneMap(lanes)
    else:
        mp = map_mod.LaneMap()
        mp.add_lanes(lanes)
    done = 0
    labels = set()
    for li, f, l in case["pts"]:
        rs = refs[li]
        total = sum(r.length for r in rs)
        s = f * (total + 2.5) - 2.5
        i, lon = 0, s
        while i + 1 < len(rs) and lon >= rs[i].length:
            lon -= rs[i].length
            i += 1
        if not (-2.5 <= lon <= rs[i].length - 0.01) or (i and lon < 0.01):
            continue
        lat = l * geo[li][i]["width"] / 2
        p = rs[i].position(lon, lat)
        if geo[li][i]["type"] == "C" and TAU * geo[li][i]["radius"] - rs[i].length < 6.2:
            continue
        if not nearest(rs, i, p, abs(lat) + max(-lon, 0), lon):
            continue
        done += 1
        labels.add("segment %d" % min(i, 3))
        if geo[li][i]["type"] == "C":
            labels.add("arc")
        pid = phys(case["names"], li)
        vid = virt(case["names"], li, len(rs))
        E = enum.Enum("TrackMode", sorted({pid, vid}))
        ask = [pid, vid, E[pid], E[vid]]
        q = np.array(p) if case["arr"] else p.tolist()
        where = "at (%r, %r) of segment %d of lane %s, Cartesian %r" % (lon, lat, i, pid, p.tolist())
        idx, sg = lanes[li].get_lane_segment(np.array(p))
        if idx != i or sg is not segs[li][i]:
            raise Violation("%s: the lane chooses segment %r" % (where, idx))
        for a in ask:
            g = mp.get_longitudinal_position(a, q)
            if not close(g, s, 1e-5):
                raise Violation("%s: longitudinal position for %r is %r, not %r" % (where, a, float(g), s))
            g = mp.get_lateral_distance(a, q)
            if not close(g, lat, 1e-5):
                raise Violation("%s: lateral distance for %r is %r, not %r" % (where, a, float(g), lat))
            g = mp.get_lane_heading(a, q)
            if not close(wrap(g - rs[i].heading(lon)), 0, 1e-5):
                raise Violation("%s: heading for %r is %r, not %r" % (where, a, float(g), wrap(rs[i].heading(lon))))
            if mp.get_lane_segment(a, q) is not segs[li][i]:
                raise Violation("%s: the map chooses another segment for %r" % (where, a))
            if mp.get_lane_width(a) != geo[li][0]["width"] or mp.get_speed_limit(a) != 10 + li:
                raise Violation("%s: width or speed limit for %r is not the lane's" % (where, a))
    if mp.get_all_speed_limit() != {phys(case["names"], i): 10 + i for i in range(len(lanes))}:
        raise Violation("the table of speed limits is %r" % (mp.get_all_speed_limit(),))
    if not done:
        return None
    return sorted(labels) + (["composite"] if max(len(r) for r in refs) > 1 else ["one segment"])


def subs():
    return [Sub("single", single(), check_single, 12000), Sub("composite", composite(), check_composite, 5000)]
