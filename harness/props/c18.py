"""C18: three-dimensional lane coordinates are a faithful change of coordinates."""
import importlib, json, math
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation
from .c17 import num, wrap, TAU, close

PROPERTY = "C18"
RULE = ("A case is a lane segment (straight, or an arc given by its centre or by its ends) with lane positions, or a tangent-continuous chain of segments in a map, or a "
        "vehicle asking for its next waypoint; non-trivial when the segment is an arc or not parallel to an axis.")
ASSUMPTIONS = ["lane positions are within 0.8 radii of an arc's centreline and more than 0.01 off it where the angle is compared",
               "the angle around an arc is compared where the arc does not run vertically (its zero direction is not defined there)",
               "membership extends one vehicle length past both ends, as the lane's documentation has it",
               "arcs given by their ends have a normal perpendicular to the line between the ends",
               "waypoints are compared on straight segments, before their end"]


# ---------------------------------------------------------------- generation

@st.composite
def unit(draw):
    v = draw(st.one_of(st.sampled_from([[0, 0, 1], [0, 0, -1], [1, 0, 0], [0, 1, 0], [0, -1, 0], [-1, 0, 0], [1, 1, 1], [-1, -1, -1], [1, 1, 0], [0, 1, 1], [1, 0, -1]]),
                       st.lists(st.integers(-4, 4), min_size=3, max_size=3)))
    return v if any(v) else [0, 0, 1]


point = st.lists(num(-50, 50), min_size=3, max_size=3)
turns = st.one_of(st.sampled_from([math.pi / 2, math.pi, 1.5 * math.pi]), st.floats(0.1, 6.0))


def U(v):
    v = np.array(v, float)
    return v / np.linalg.norm(v)


def frame(n):
    """The directions an arc's phases are counted from and towards."""
    n = U(n)
    a = np.array([1.0, 0, 0]) if n[0] == 0 and n[1] == 0 else U([n[1], -n[0], 0])
    return a, np.cross(n, a)


def perp(v, ang):
    """A unit vector perpendicular to v."""
    a, b = frame(v)
    return np.round(math.cos(ang) * a + math.sin(ang) * b, 13) + 0.0  # no subnormal components


@st.composite
def segment(draw, at=None, tang=None):
    w = draw(num(1, 6))
    kind = draw(st.sampled_from(["S", "C", "E"]))
    if kind == "S":
        start = draw(point) if at is None else at
        d = U(draw(unit())) if tang is None else tang
        ln = draw(num(2, 100))
        return {"type": "S", "start": [float(v) for v in start], "end": [float(v) for v in np.array(start) + ln * d], "width": w}
    right, turn, R = draw(st.booleans()), draw(turns), draw(num(5, 60))
    if kind == "C" and at is None:
        s = draw(st.one_of(st.integers(0, 4).map(lambda k: k * math.pi / 2), st.floats(0, TAU)))
        return {"type": "C", "center": draw(point), "radius": R, "norm": draw(unit()), "start_phase": s, "end_phase": s + turn, "right": right, "width": w}
    start = np.array(draw(point) if at is None else at, float)
    if tang is None:
        t = U(draw(unit()))
    else:
        t = tang
    n = perp(t, draw(st.one_of(st.integers(0, 7).map(lambda k: k * math.pi / 4), st.floats(0, TAU))))
    sg = 1 if right else -1
    c = start + sg * R * np.cross(n, t)
    d = start - c
    end = c + math.cos(turn) * d + sg * math.sin(turn) * np.cross(n, d)
    if kind == "E":
        return {"type": "E", "start": start.tolist(), "end": end.tolist(), "norm": (n * draw(st.sampled_from([1, 1, 2.5, 0.25]))).tolist(), "turn": turn, "right": right, "width": w}
    a, b = frame(n)
    ph = math.atan2(sg * float(d @ b), float(d @ a)) % TAU
    return {"type": "C", "center": c.tolist(), "radius": R, "norm": n.tolist(), "start_phase": ph, "end_phase": ph + turn, "right": right, "width": w}


# ---------------------------------------------------------------- reference

class Ref3:
    def __init__(self, g):
        self.g, self.width = g, g["width"]
        if g["type"] == "S":
            self.p = np.array(g["start"], float)
            d = np.array(g["end"], float) - self.p
            self.length = float(np.linalg.norm(d))
            self.t = d / self.length
            self.side = float("inf")
            return
        self.n = U(g["norm"])
        self.sg = 1 if g["right"] else -1
        if g["type"] == "C":
            self.c, self.R, self.turn = np.array(g["center"], float), g["radius"], g["end_phase"] - g["start_phase"]
            a, b = frame(g["norm"])
            self.d = self.R * (math.cos(g["start_phase"]) * a + self.sg * math.sin(g["start_phase"]) * b)
        else:
            s, e = np.array(g["start"], float), np.array(g["end"], float)
            self.turn = g["turn"]
            h = e - s
            self.R = float(np.linalg.norm(h)) / 2 / math.sin(self.turn / 2)
            # the centre is to the side turned to for less than half a turn
            self.c = (s + e) / 2 + self.R * math.cos(self.turn / 2) * self.sg * np.cross(self.n, U(h))
            self.d = s - self.c
        self.length, self.side = self.R * self.turn, self.R

    def centre(self, lon):
        if self.g["type"] == "S":
            return self.p + lon * self.t
        a = lon / self.R
        return self.c + math.cos(a) * self.d + self.sg * math.sin(a) * np.cross(self.n, self.d)

    def tang(self, lon):
        if self.g["type"] == "S":
            return self.t
        return self.sg * np.cross(self.n, self.centre(lon) - self.c) / self.R

    def local(self, p):
        """Longitudinal and lateral position of a point."""
        if self.g["type"] == "S":
            lon = float((p - self.p) @ self.t)
        else:
            v = p - self.c
            a = math.atan2(self.sg * float(v @ np.cross(self.n, self.d)), float(v @ self.d))
            lon = self.R * (self.turn / 2 + wrap(a - self.turn / 2))
        return lon, float(np.linalg.norm(p - self.centre(lon)))


def make(g, id="seg", **kw):
    m = importlib.import_module("verse.map.lane_segment_3d")
    if g["type"] == "S":
        return m.StraightLane_3d(id, list(g["start"]), list(g["end"]), g["width"], **kw)
    if g["type"] == "C":
        return m.CircularLane_3d_v1(id, list(g["center"]), g["radius"], np.array(g["norm"]), g["start_phase"], g["end_phase"], g["right"], g["width"], **kw)
    return m.CircularLane_3d_v2(id, np.array(g["start"]), np.array(g["end"]), np.array(g["norm"]), g["turn"], g["right"], g["width"], **kw)


def name(g):
    return {"S": "straight", "C": "arc by centre", "E": "arc by ends"}[g["type"]] + ("" if g["type"] == "S" or g["right"] else ", left")


# ---------------------------------------------------------------- one segment

@st.composite
def single(draw):
    pts = [[draw(st.floats(-0.2, 1.2)), draw(st.one_of(st.just(0.0), st.floats(0, 1.2))), draw(st.floats(0, TAU)), draw(st.floats(0.1, 3.0))] for _ in range(draw(st.integers(1, 5)))]
    return {"lane": draw(segment()), "pts": pts, "margin": draw(st.sampled_from([0, 0, 0.5, 2])), "forbidden": draw(st.integers(0, 4)) == 0, "speed": draw(st.sampled_from([20, 35.5])),
            "prio": draw(st.integers(0, 3))}


def flat(t):
    """Whether the angle around the centreline is well defined."""
    return abs(t[0]) + abs(t[1]) > 1e-3


def check_single(case):
    g, ref = case["lane"], Ref3(case["lane"])
    kw = dict(forbidden=case["forbidden"], speed_limit=case["speed"], priority=case["prio"])
    lane = make(g, **kw)
    tol = 1e-5
    if not close(lane.length, ref.length, tol):
        raise Violation("a lane of length %r reports length %r" % (ref.length, lane.length))
    ends = [ref.centre(0), ref.centre(ref.length)]
    if not close(lane.altitude(), (ends[0][2] + ends[1][2]) / 2, tol):
        raise Violation("altitude is %r, the ends are at %r and %r" % (lane.altitude(), ends[0][2], ends[1][2]))
    cfg = json.loads(json.dumps(lane.to_config()))
    mod, cls = cfg["class_path"].rsplit(".", 1)
    again = getattr(importlib.import_module(mod), cls).from_config(cfg["config"])
    if again.id != lane.id or (again.forbidden, again.speed_limit, again.priority, again.width_at(0)) != (case["forbidden"], case["speed"], case["prio"], g["width"]):
        raise Violation("the lane rebuilt from its own configuration differs")
    for k, c in enumerate(lane.get_lane_center(5)[0]):
        if not close(c, ref.centre(ref.length * k / 4), tol):
            raise Violation("the centreline is drawn through %s at %d/4 of it, it runs through %s" % (c, k, ref.centre(ref.length * k / 4)))
    if g["type"] != "S":
        for p, t, lon in zip(*[iter(lane.get_start_end_tang())] * 2, (0, ref.length)):
            if not close(p, ref.centre(lon), tol) or not close(U(t), ref.tang(lon), tol):
                raise Violation("the arc's end at %r is %s in direction %s, its geometry says %s and %s" % (lon, p, U(t), ref.centre(lon), ref.tang(lon)))
    for f, l, th, dth in case["pts"]:
        lon, lat = f * ref.length, l * g["width"]
        if g["type"] != "S":
            room = (TAU * ref.R - ref.length) / 2
            lon = min(max(lon, -0.9 * room), ref.length + 0.9 * room)
            lat = min(lat, 0.8 * ref.R)
        c, t = ref.centre(lon), ref.tang(lon)
        what = "(%r, %r, %r)" % (lon, lat, th)
        pos = np.asarray(lane.position(lon, lat, th), float)
        off = pos - c
        if not close(np.linalg.norm(off), lat, tol) or not close(off @ t, 0, tol):
            raise Violation("position%s is %s: %r from the centreline's point %s, %r along it" % (what, pos, np.linalg.norm(off), c, off @ t))
        if not close(U(lane.get_tang(lon)), t, tol):
            raise Violation("the direction at %r is %s, the centreline runs in direction %s" % (lon, lane.get_tang(lon), t))
        if not close(again.position(lon, lat, th), pos, tol):
            raise Violation("position%s of the lane rebuilt from its own configuration is %s instead of %s" % (what, again.position(lon, lat, th), pos))
        if g["type"] == "S" or flat(t):
            off2 = np.asarray(lane.position(lon, lat, th + dth), float) - c
            if lat > 0.01 and not (close(off @ off2 / lat ** 2, math.cos(dth), 1e-4) and close(abs(np.cross(off, off2) @ t) / lat ** 2, abs(math.sin(dth)), 1e-4)):
                raise Violation("turning %s by %r turns the offset %s into %s" % (what, dth, off, off2))
        else:
            lat = lat if g["type"] == "S" else 0.0
            pos, off = c, c * 0
        back = [float(v) for v in lane.local_coordinates(pos)]
        if not close(back[:2], (lon, lat), tol):
            raise Violation("lane position %s comes back as %s" % (what, back))
        if lat > 0.01 and not close(wrap(back[2] - th), 0, 1e-4 / lat + 1e-4):
            raise Violation("lane position %s comes back with the angle %r" % (what, back[2]))
        VL = lane.VEHICLE_LENGTH

        def edge(*vs):
            return any(abs(v) < 1e-4 for v in vs)
        if not edge(lat - g["width"] / 2 - case["margin"], lon + VL, lon - ref.length - VL):
            want = lat <= g["width"] / 2 + case["margin"] and -VL <= lon < ref.length + VL
            if bool(lane.on_lane(pos, margin=case["margin"])) != want or bool(lane.on_lane(pos, lon, lat, margin=case["margin"])) != want:
                raise Violation("on_lane(margin %r) at %s of a lane %r long and %r wide does not say %r" % (case["margin"], what, ref.length, g["width"], want))
        if not edge(lat - 2 * g["width"], lon, lon - ref.length - VL):
            want = not case["forbidden"] and lat <= 2 * g["width"] and 0 <= lon < ref.length + VL
            if bool(lane.is_reachable_from(pos)) != want:
                raise Violation("is_reachable_from at %s of a lane %r long and %r wide does not say %r" % (what, ref.length, g["width"], want))
        if not edge(lon - ref.length + VL / 2) and bool(lane.after_end(pos)) != (lon > ref.length - VL / 2):
            raise Violation("after_end at %s of a lane %r long is %r" % (what, ref.length, lane.after_end(pos)))
        want = lat + max(lon - ref.length, 0) + max(-lon, 0)
        if not close(lane.distance(pos), want, tol):
            raise Violation("distance at %s of a lane %r long is %r, not %r" % (what, ref.length, lane.distance(pos), want))
    if g["type"] == "S" and sum(abs(v) > 1e-9 for v in ref.t) == 1:
        return None
    return [name(g)]


# ---------------------------------------------------------------- lanes and maps

@st.composite
def chains(draw):
    lanes = []
    for _ in range(draw(st.integers(1, 3))):
        g = draw(segment())
        lane = [g]
        for _ in range(draw(st.integers(0, 3))):
            r = Ref3(lane[-1])
            lane.append(draw(segment(at=r.centre(r.length), tang=r.tang(r.length))))
        lanes.append(lane)
    qs = [[draw(st.integers(0, 2)), draw(st.integers(0, 3)), draw(st.floats(0.01, 0.99)), draw(st.floats(0, 0.6)), draw(st.floats(0, TAU))] for _ in range(draw(st.integers(1, 6)))]
    return {"lanes": lanes, "qs": qs, "names": draw(st.sampled_from(["T%d", "Lane%d"])), "aslist": draw(st.booleans())}


def check_lanes(case):
    from verse.map.lane_3d import Lane_3d
    from verse.map.lane_map_3d import LaneMap_3d
    names = [case["names"] % i for i in range(len(case["lanes"]))]
    m = LaneMap_3d()
    m.add_lanes([Lane_3d(n, [make(g, "s%d" % j) for j, g in enumerate(l)]) for n, l in zip(names, case["lanes"])])
    m2 = LaneMap_3d([Lane_3d(n, [make(g, "s%d" % j) for j, g in enumerate(l)]) for n, l in zip(names, case["lanes"])])
    tags = set()
    for li, (n, l) in enumerate(zip(names, case["lanes"])):
        refs = [Ref3(g) for g in l]
        alt = sum((r.centre(0)[2] + r.centre(r.length)[2]) / 2 for r in refs) / len(refs)
        if not close(m.altitude(n), alt, 1e-5):
            raise Violation("altitude of lane %s is %r, the mean over its segments is %r" % (n, m.altitude(n), alt))
        if m.get_lane_width(n) != l[0]["width"]:
            raise Violation("width of lane %s is %r, not %r" % (n, m.get_lane_width(n), l[0]["width"]))
    for lk, sk, f, lat, th in case["qs"]:
        li = lk % len(names)
        n, l = names[li], case["lanes"][li]
        refs = [Ref3(g) for g in l]
        si = sk % len(l)
        r = refs[si]
        lon, lat = f * r.length, min(lat * r.width, 0.8 * r.side)
        pos = r.centre(lon) + lat * perp(r.tang(lon), th)
        loc = [x.local(pos) for x in refs]
        if any(abs(v - e) < 1e-3 for (v, _), x in zip(loc, refs) for e in (-1, 0, x.length)):
            continue
        cand = [(d, i) for i, ((v, d), x) in enumerate(zip(loc, refs)) if 0 <= v < x.length]
        near = [(d, i) for i, ((v, d), x) in enumerate(zip(loc, refs)) if -1 <= v < x.length]
        d, i = min(near)
        if len(near) > 1 and sorted(near)[1][0] - d < 1e-3:
            continue
        tags.add("one segment" if len(cand) == 1 else "several segments beside")
        tags.add(name(l[i]))
        p = pos.tolist() if case["aslist"] else pos
        what = "at %s of lane %s" % (pos, n)
        want = sum(x.length for x in refs[:i]) + loc[i][0]
        for mm in (m, m2):
            seg, poss = mm.get_lane_segment(n, p)
            if seg is not mm.lane_dict[n].segment_list[i]:
                raise Violation("%s segment %s is chosen, the nearest one is %d" % (what, getattr(seg, "id", None), i))
            if {id(s) for s in poss} != {id(mm.lane_dict[n].segment_list[k]) for _, k in near}:
                raise Violation("%s the segments beside are %s, reported are %s" % (what, sorted(k for _, k in near), [s.id for s in poss]))
            got = mm.get_longitudinal_position(n, p), mm.get_lateral_distance(n, p)
            if not close(got, (want, d), 1e-4):
                raise Violation("%s the position is %s, its segment says %s" % (what, got, (want, d)))
            l3 = mm.get_l_r_theta(n, p)
            if not close(l3[:2], loc[i], 1e-4):
                raise Violation("%s the position within the segment is %s, its segment says %s" % (what, l3, loc[i]))
            if d > 0.01 and flat(refs[i].tang(loc[i][0])):
                if not close(wrap(l3[2] - mm.get_theta_angle(n, p)), 0, 1e-6) or not close(seg.position(*l3), pos, 1e-3):
                    raise Violation("%s the lane position %s and angle %r lead to %s" % (what, l3, mm.get_theta_angle(n, p), seg.position(*l3)))
    return sorted(tags) or None


# ---------------------------------------------------------------- shipped maps

def check_shipped(case):
    mod, cls = case["map"]
    m = getattr(importlib.import_module("verse.map.example_map." + mod), cls)()
    for l, lane in m.lane_dict.items():
        segs = lane.segment_list
        if len(segs) == 1:
            continue
        # the segments, in whatever order they are listed, form one closed track
        for s in segs:
            e = np.asarray(s.position(s.length, 0, 0), float)
            nxt = [x for x in segs if x is not s and close(x.position(0, 0, 0), e, 1e-3)]
            if len(nxt) != 1:
                raise Violation("%s: segment %s of lane %s ends at %s, where %d segments start" % (cls, s.id, l, e, len(nxt)))
            if not close(U(s.get_tang(s.length)), U(nxt[0].get_tang(0)), 1e-3):
                raise Violation("%s: lane %s turns from %s to %s between two segments" % (cls, l, s.get_tang(s.length), nxt[0].get_tang(0)))
        for s in segs:
            c = np.asarray(s.position(case["f"] * s.length, 0, 0), float)
            if s not in m.get_lane_segment(l, c)[1] or m.get_lateral_distance(l, c) > 1e-3:
                raise Violation("%s: %s on the centreline of %s is %r from lane %s" % (cls, c, s.id, m.get_lateral_distance(l, c), l))
    return [cls] if any(len(x.segment_list) > 1 for x in m.lane_dict.values()) else None


MAPS = [["simple_map_3d", "SimpleMap%d" % i] for i in range(1, 8)] + [["map_tacas", "M6"]]
shipped = st.fixed_dictionaries({"map": st.sampled_from(MAPS), "f": st.floats(0.02, 0.98)})


# ---------------------------------------------------------------- waypoints

@st.composite
def waypoints(draw):
    x, y, z = draw(point)
    d = draw(unit())
    ln = draw(st.integers(200, 400))
    e = np.array([x, y, z]) + ln * U(d)
    return {"lane": {"type": "S", "start": [x, y, z], "end": e.tolist(), "width": 5}, "lon": draw(st.floats(0, 20)), "lat": draw(st.one_of(st.just(0.0), st.floats(0, 8))),
            "ang": draw(st.floats(0, TAU)), "tv": [[draw(st.integers(1, 8)) / 4, draw(st.integers(1, 20)) / 2] for _ in range(draw(st.integers(1, 6)))],
            "box": [draw(st.integers(0, 16)) / 4 for _ in range(3)], "probe": [[draw(st.floats(-3, 3)) for _ in range(3)] for _ in range(3)]}


def check_waypoints(case):
    from verse.map.lane_3d import Lane_3d
    from verse.map.lane_map_3d import LaneMap_3d
    r = Ref3(case["lane"])
    m = LaneMap_3d([Lane_3d("T0", [make(case["lane"])])])
    cur = r.centre(case["lon"]) + case["lat"] * perp(r.t, case["ang"])
    out = []
    for k, (t, v) in enumerate(case["tv"]):
        est = t * v
        wp = m.get_next_point("T0", "a", cur if k == 0 else None, r.t * v, [t, v])
        if not close(wp[:3], cur, 1e-6):
            raise Violation("waypoint %s does not start at %s" % (wp, cur))
        nxt = np.array(wp[3:], float)
        (lon, lat), (lon2, lat2) = r.local(cur), r.local(nxt)
        if not close(np.linalg.norm(nxt - cur), est, 1e-3):
            raise Violation("from %s the next waypoint is %s, %r away; in %r s at speed %r one gets %r far" % (cur, nxt, np.linalg.norm(nxt - cur), t, v, est))
        if lon2 < lon - 1e-6 or lat2 > lat + 1e-3:
            raise Violation("the next waypoint goes from lane position %s to %s" % ((lon, lat), (lon2, lat2)))
        out.append(wp)
        for q in case["probe"]:
            s = [a + b for a, b in zip(wp[3:], q)]
            if any(abs(abs(b) - x / 2) < 1e-6 for b, x in zip(q, case["box"])):
                continue
            want = all(abs(b) < x / 2 for b, x in zip(q, case["box"]))
            if m.check_guard_box("a", s, case["box"]) != want:
                raise Violation("reaching the box %s around %s from %s is %r" % (case["box"], wp[3:], s, not want))
        cur = nxt
    if [list(w) for w in m.get_curr_waypoint("a")] != [list(w) for w in out]:
        raise Violation("the waypoints handed out are %s, recorded are %s" % (out, m.get_curr_waypoint("a")))
    return ["off centre"] if case["lat"] > 0.01 else (["several"] if len(out) > 1 else None)


@st.composite
def joints(draw):
    x, y, z = draw(point)
    d = U(draw(unit()))
    ln, more = draw(st.integers(8, 40)), draw(st.integers(10, 60))
    mid = np.array([x, y, z]) + ln * d
    end = mid + more * d
    v = draw(st.integers(1, 20)) / 2
    return {"lanes": [{"type": "S", "start": [x, y, z], "end": mid.tolist(), "width": 5}, {"type": "S", "start": mid.tolist(), "end": end.tolist(), "width": 5}], "back": draw(st.floats(1.05, 6)),
            "lat": draw(st.one_of(st.just(0.0), st.floats(0.01, 8))), "ang": draw(st.floats(0, TAU)), "v": v, "t": draw(st.floats(0.3, 3))}


def check_joints(case):
    """A waypoint beyond the end of a segment is at the start of the next one, at the same place beside the axis (one metre before it, one already counts as on the next)."""
    from verse.map.lane_3d import Lane_3d
    from verse.map.lane_map_3d import LaneMap_3d
    r = Ref3(case["lanes"][0])
    segs = [make(l) for l in case["lanes"]]
    m = LaneMap_3d([Lane_3d("T0", segs)])
    off = case["lat"] * perp(r.t, case["ang"])
    ln = segs[0].length
    cur = r.centre(ln - case["back"]) + off
    est = case["t"] * case["v"]
    if est >= case["lat"] / 0.7 * (1 + 1e-6):
        go = math.sqrt(max(0, est ** 2 - case["lat"] ** 2))
    elif est < case["lat"] / 0.7 * (1 - 1e-6):
        go = est * math.sqrt(1 - 0.49)
    else:
        return None
    if abs(go - case["back"]) < 1e-3 or case["back"] >= ln - 1e-3 or go > case["back"] + segs[1].length - 1e-3:  # (it leaves the lane)
        return None
    wp = m.get_next_point("T0", "a", cur, r.t * case["v"], [case["t"], case["v"]])
    if not close(wp[:3], cur, 1e-6):
        raise Violation("waypoint %s does not start at %s" % (wp, cur))
    if go < case["back"]:
        if not close(np.linalg.norm(np.array(wp[3:]) - cur), est, 1e-3):
            raise Violation("from %s the next waypoint is %s; in %r s at speed %r one gets %r far" % (cur, wp[3:], case["t"], case["v"], est))
        return ["before"]
    want = r.centre(ln) + off
    if not close(wp[3:], want, 2e-3):
        raise Violation("from %s, %r before the end of a segment, the next waypoint is %s; the next segment starts at the same offset at %s" % (cur, case["back"], wp[3:], want))
    seg = m.curr_seg["a"]
    if seg is not segs[1]:
        raise Violation("after the waypoint at the start of the second segment the agent's segment is %s" % seg.id)
    return ["across", "off centre" if case["lat"] else "on the axis"]


def subs():
    return [Sub("segment", single(), check_single, 4000), Sub("lanes", chains(), check_lanes, 1500), Sub("shipped", shipped, check_shipped, 60),
            Sub("waypoints", waypoints(), check_waypoints, 1000), Sub("joints", joints(), check_joints, 1000)]
