"""C26: geometry and list utilities."""
import copy, math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation

PROPERTY = "C26"
RULE = ("A case is arguments of one utility function; non-trivial unless the arguments are degenerate (an empty list, a box or direction without extent) or, for geometric predicates, "
        "lie within 1e-6 of the boundary between the answers.")
ASSUMPTIONS = ["arguments are finite, of magnitude up to 1e6; rounding of a few units in the last place is allowed", "the statistics helpers for confidence regions are not covered: nothing in the library uses them"]
EPS = 1e-6


def U():
    import verse.utils.utils as u
    return u


def no(msg, *a):
    raise Violation(msg % a)


q = st.integers(-40, 40).map(lambda i: i / 4)
pos = st.integers(1, 24).map(lambda i: i / 4)
num = st.one_of(q, st.floats(-1e3, 1e3), st.floats(-1e6, 1e6))
ang = st.one_of(st.integers(-16, 16).map(lambda i: i * math.pi / 8), st.floats(-10, 10))
pt = st.lists(q, min_size=2, max_size=2)


# ---------------------------------------------------------------- scalars

@st.composite
def scalars(draw):
    k = draw(st.sampled_from(["wrap", "wrap", "lmap", "not_zero", "constrain", "split", "trinom", "every"]))
    c = {"k": k}
    if k == "wrap":
        c["x"] = draw(st.one_of(st.integers(-50, 50).map(lambda i: i * math.pi / 4), st.floats(-1e4, 1e4), st.integers(-30, 30).map(float)))
    elif k == "lmap":
        x0, x1 = draw(st.lists(q, min_size=2, max_size=2, unique=True))
        c.update(v=draw(q), x=[x0, x1], y=draw(pt))
    elif k == "not_zero":
        c.update(x=draw(st.one_of(st.sampled_from([0.0, 1e-3, -1e-3, 1e-9, -1e-9, 0.5, -0.5]), num)), eps=draw(st.sampled_from([1e-2, 1e-2, 0.25, 1e-6])))
    elif k == "constrain":
        c.update(x=draw(num), ab=sorted([draw(num), draw(num)]))
    elif k == "split":
        c.update(x=draw(st.integers(0, 60)), n=draw(st.integers(1, 12)), by=draw(st.sampled_from(["num", "size"])))
    elif k == "trinom":
        c.update(a=draw(q.filter(bool)), b=draw(q), c=draw(q))
    else:
        c.update(d=draw(q), t=draw(q))
    return c


def check_scalar(c):
    u = U()
    k = c["k"]
    if k == "wrap":
        x = c["x"]
        y = float(u.wrap_to_pi(x))
        if not -math.pi - 1e-9 <= y <= math.pi + 1e-9:
            no("wrap_to_pi(%r) = %r is outside [-pi, pi]", x, y)
        turns = (x - y) / (2 * math.pi)
        if abs(turns - round(turns)) > 1e-9:
            no("wrap_to_pi(%r) = %r differs from it by %s turns", x, y, turns)
        a = np.array([x, x + 1.0, -x])
        if not np.allclose(np.asarray(u.wrap_to_pi(a)), [u.wrap_to_pi(v) for v in a]):
            no("wrap_to_pi of an array differs from that of its elements at %s", a)
    elif k == "lmap":
        (x0, x1), (y0, y1), v = c["x"], c["y"], c["v"]
        want = Fraction(y0) + (Fraction(v) - Fraction(x0)) * (Fraction(y1) - Fraction(y0)) / (Fraction(x1) - Fraction(x0))
        got = u.lmap(v, [x0, x1], [y0, y1])
        if abs(got - float(want)) > 1e-9 * (1 + abs(float(want))):
            no("lmap(%r, %s, %s) = %r, not %r", v, c["x"], c["y"], got, float(want))
    elif k == "not_zero":
        x, e = c["x"], c["eps"]
        got = u.not_zero(x, e)
        want = x if abs(x) > e else e if x >= 0 else -e
        if got != want:
            no("not_zero(%r, %r) = %r, not %r", x, e, got, want)
    elif k == "constrain":
        a, b = c["ab"]
        if float(u.constrain(c["x"], a, b)) != min(max(c["x"], a), b):
            no("constrain(%r, %r, %r) = %r", c["x"], a, b, u.constrain(c["x"], a, b))
    elif k == "split":
        x, n = c["x"], c["n"]
        if c["by"] == "num":
            got = u.near_split(x, num_bins=n)
            if len(got) != n:
                no("near_split(%d, num_bins=%d) has %d bins", x, n, len(got))
        else:
            if x == 0:
                return None
            got = u.near_split(x, size_bins=n)
            if max(got) > n:
                no("near_split(%d, size_bins=%d) = %s has a larger bin", x, n, got)
        if sum(got) != x or max(got) - min(got) > 1:
            no("near_split(%d, %s=%d) = %s", x, c["by"], n, got)
    elif k == "trinom":
        a, b, cc = c["a"], c["b"], c["c"]
        r = u.solve_trinom(a, b, cc)
        d = b * b - 4 * a * cc
        if (r[0] is None) != (d < 0) or (r[1] is None) != (d < 0):
            no("solve_trinom(%s, %s, %s) = %s, discriminant %s", a, b, cc, r, d)
        if d >= 0:
            s = r[0] + r[1] + b / a
            p = r[0] * r[1] - cc / a
            if max(abs(s), abs(p)) > 1e-6 * (1 + abs(b / a) + abs(cc / a)):
                no("solve_trinom(%s, %s, %s) = %s are not the roots", a, b, cc, r)
    else:
        if bool(u.do_every(c["d"], c["t"])) != (c["d"] < c["t"]):
            no("do_every(%s, %s) = %s", c["d"], c["t"], u.do_every(c["d"], c["t"]))
    return [k]


# ---------------------------------------------------------------- rectangles

def local(p, center, angle):
    dx, dy = p[0] - center[0], p[1] - center[1]
    c, s = math.cos(angle), math.sin(angle)
    return c * dx + s * dy, -s * dx + c * dy


def corners(rect):
    (x, y), l, w, a = rect
    c, s = math.cos(a), math.sin(a)
    return [(x + c * dx - s * dy, y + s * dx + c * dy) for dx, dy in [(-l / 2, -w / 2), (-l / 2, w / 2), (l / 2, w / 2), (l / 2, -w / 2)]]


def gap(P, Q):
    """Separation of two convex polygons (negative: depth of the overlap)."""
    best = -math.inf
    for poly in (P, Q):
        for (x1, y1), (x2, y2) in zip(poly, poly[1:] + poly[:1]):
            n = math.hypot(x2 - x1, y2 - y1)
            if n < 1e-12:
                continue
            nx, ny = (y2 - y1) / n, (x1 - x2) / n
            p = [nx * x + ny * y for x, y in P]
            r = [nx * x + ny * y for x, y in Q]
            best = max(best, min(r) - max(p), min(p) - max(r))
    return best


rects = st.tuples(pt, pos, pos, ang).map(list)


@st.composite
def rect_cases(draw):
    k = draw(st.sampled_from(["in", "in", "box", "ellipse", "corners", "intersect", "intersect", "intersect"]))
    c = {"k": k, "r": draw(rects)}
    if k == "intersect":
        r = draw(rects)
        if draw(st.integers(0, 3)) == 0:  # long thin ones
            r[2] = r[1] / 16
            c["r"][1] = c["r"][2] / 16
        if draw(st.booleans()):
            r[0] = [c["r"][0][0] + draw(st.integers(-8, 8)) / 4, c["r"][0][1] + draw(st.integers(-8, 8)) / 4]
        c["s"] = r
    elif k == "corners":
        c.update(mid=draw(st.booleans()), cen=draw(st.booleans()))
    else:
        o = draw(st.booleans())
        f = (draw(st.integers(-12, 12)) / 16, draw(st.integers(-12, 12)) / 16)
        l, w, a = c["r"][1:]
        x, y = f[0] * l, f[1] * w
        c["p"] = [c["r"][0][0] + math.cos(a) * x - math.sin(a) * y, c["r"][0][1] + math.sin(a) * x + math.cos(a) * y] if o else draw(pt)
    return c


def check_rect(c):
    u = U()
    k = c["k"]
    (ctr, l, w, a) = c["r"]
    rect = (np.array(ctr), l, w, a)
    if k == "box":
        lo, hi = [ctr[0] - l / 2, ctr[1] - w / 2], [ctr[0] + l / 2, ctr[1] + w / 2]
        p = c["p"]
        if bool(u.point_in_rectangle(p, lo, hi)) != all(x <= v <= y for x, v, y in zip(lo, p, hi)):
            no("point_in_rectangle(%s, %s, %s) = %s", p, lo, hi, u.point_in_rectangle(p, lo, hi))
        return [k]
    if k in ("in", "ellipse"):
        x, y = local(c["p"], ctr, a)
        d = max(abs(x) - l / 2, abs(y) - w / 2) if k == "in" else math.hypot(x / l, y / w) - 1
        if abs(d) < EPS:
            return None
        f = u.point_in_rotated_rectangle if k == "in" else u.point_in_ellipse
        args = (np.array(c["p"]), rect[0]) + ((l, w, a) if k == "in" else (a, l, w))
        got = bool(f(*args))
        if got != (d < 0):
            no("%s(%s) = %s; in the figure's own axes the point is (%s, %s)", f.__name__, ", ".join(map(str, args)), got, x, y)
        return [k + (" yes" if got else " no")]
    if k == "corners":
        got = np.asarray(u.rect_corners(rect[0], l, w, a, include_midpoints=c["mid"], include_center=c["cen"]))
        cs = corners(c["r"])
        want = list(cs) + ([tuple(ctr)] if c["cen"] else []) + ([((p[0] + r[0]) / 2, (p[1] + r[1]) / 2) for p, r in zip(cs, cs[1:] + cs[:1])] if c["mid"] else [])
        if len(got) != len(want) or any(min(math.hypot(g[0] - p[0], g[1] - p[1]) for g in got) > 1e-9 * 100 for p in want):
            no("rect_corners(%s, midpoints=%s, center=%s) = %s instead of %s", c["r"], c["mid"], c["cen"], got.tolist(), want)
        for i in range(4):
            p, r = got[i], got[(i + 1) % 4]
            d = math.hypot(p[0] - r[0], p[1] - r[1])
            if min(abs(d - l), abs(d - w)) > 1e-9 * 100:
                no("rect_corners(%s) does not go around the rectangle: %s", c["r"], got.tolist())
        return [k]
    P, Q = corners(c["r"]), corners(c["s"])
    g = gap(P, Q)
    if abs(g) < EPS:
        return None
    r2 = (np.array(c["s"][0]), *c["s"][1:])
    got = bool(u.rotated_rectangles_intersect(rect, r2))
    if got != (g < 0):
        no("rotated_rectangles_intersect(%s, %s) = %s; the rectangles are %s by %s", c["r"], c["s"], got, "apart" if g > 0 else "overlapping", abs(g))
    # a corner, an edge's midpoint or the center of r inside s
    pts = P + [tuple(ctr)] + [((p[0] + r[0]) / 2, (p[1] + r[1]) / 2) for p, r in zip(P, P[1:] + P[:1])]
    ds = [max(abs(x) - c["s"][1] / 2, abs(y) - c["s"][2] / 2) for x, y in (local(p, c["s"][0], c["s"][3]) for p in pts)]
    if min(map(abs, ds)) > EPS and bool(u.has_corner_inside(rect, r2)) != (min(ds) < 0):
        no("has_corner_inside(%s, %s) = %s", c["r"], c["s"], u.has_corner_inside(rect, r2))
    return ["apart" if g > 0 else "overlap"]


# ---------------------------------------------------------------- polygons

def hull(pts):
    pts = sorted(set(map(tuple, pts)))
    if len(pts) < 3:
        return []
    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    h = half(pts) + half(pts[::-1])
    return h if len(h) > 2 else []


ints = st.integers(-6, 6)


@st.composite
def polygons(draw):
    s = draw(st.sampled_from([1, 0.25, 0.5]))
    P = draw(st.lists(st.lists(ints, min_size=2, max_size=2), min_size=3, max_size=7))
    Q = draw(st.lists(st.lists(ints, min_size=2, max_size=2), min_size=3, max_size=7))
    off = draw(st.lists(ints, min_size=2, max_size=2))
    d = [draw(st.sampled_from([[0, 0], [0, 0], [3, 0], [-2, 5], [8, 8]])) for _ in range(2)]
    return {"P": [[x * s for x in p] for p in P], "Q": [[x * s + o for x, o in zip(p, off)] for p in Q], "da": d[0], "db": d[1], "rev": draw(st.booleans()), "float": draw(st.integers(0, 4)) > 0}


def check_polygons(c):
    u = U()
    P, Q = hull(c["P"]), hull(c["Q"])
    if not P or not Q:
        return None
    g = gap(P, Q)
    if 0 < abs(g) < EPS:
        return None
    close = lambda h: np.array((h[::-1] if c["rev"] else h) + [(h[::-1] if c["rev"] else h)[0]], dtype=float if c["float"] else None)
    da, db = np.array(c["da"], dtype=float), np.array(c["db"], dtype=float)
    a, b = close(P), close(Q)
    now, will, tr = u.are_polygons_intersecting(a, b, da, db)
    if abs(g) > EPS and bool(now) != (g < 0):
        no("the polygons %s and %s %s, but are_polygons_intersecting says %s", P, Q, "overlap" if g < 0 else "are %s apart" % g, now)
    still = not np.any(da - db)
    if still and abs(g) > EPS and bool(will) != bool(now):
        no("two polygons %s, %s without relative motion intersect: %s, will intersect: %s", P, Q, now, will)
    # sampled positions along the way
    for t in np.linspace(0, 1, 17):
        M = [(x + t * (da - db)[0], y + t * (da - db)[1]) for x, y in P]
        if gap(M, Q) < -EPS and not will:
            no("%s moving by %s and %s moving by %s overlap after the fraction %s of the motion, but will not intersect", P, c["da"], Q, c["db"], t)
    if (tr is None) == bool(will):
        no("are_polygons_intersecting(%s, %s) will intersect: %s, translation %s", P, Q, will, tr)
    for f, ax in ((P, (1.0, 0.0)), (Q, (0.6, -0.8))):
        pr = [x * ax[0] + y * ax[1] for x, y in f]
        got = u.project_polygon(np.array(f, dtype=float), np.array(ax))
        if max(abs(got[0] - min(pr)), abs(got[1] - max(pr))) > 1e-9:
            no("project_polygon(%s, %s) = %s", f, ax, got)
    return ["overlap" if g < 0 else "touch" if g == 0 else "apart", "will" if will else "will not"]


# ---------------------------------------------------------------- rays

@st.composite
def rays(draw):
    k = draw(st.sampled_from(["circle", "rect", "rect", "interval"]))
    if k == "circle":
        a = draw(ang)
        return {"k": k, "c": draw(pt), "r": draw(pos), "a": a}
    if k == "interval":
        return {"k": k, "i": sorted([draw(q), draw(q)]), "j": sorted([draw(q), draw(q)])}
    c = {"k": k, "s": draw(rects), "r": draw(pt), "q": draw(pt), "rev": draw(st.booleans())}
    if draw(st.booleans()):
        c["q"] = [c["s"][0][0] + draw(st.integers(-4, 4)) / 8, c["s"][0][1] + draw(st.integers(-4, 4)) / 8]
    if draw(st.integers(0, 5)) == 0:  # along the axes
        c["s"][3] = draw(st.sampled_from([0.0, 0.0, math.pi / 2]))
        c["q"][draw(st.integers(0, 1))] = c["r"][draw(st.integers(0, 1))]
    return c


def check_ray(c):
    u = U()
    if c["k"] == "interval":
        (a, b), (x, y) = c["i"], c["j"]
        got = float(u.interval_distance(a, b, x, y))
        apart = max(x - b, a - y)
        if (got > 0) != (apart > 0) or (apart > 0 and abs(got - apart) > 1e-9) or (apart < 0 and got >= 0):
            no("interval_distance of [%s, %s] and [%s, %s] is %s", a, b, x, y, got)
        return ["interval"]
    if c["k"] == "circle":
        # nearest point of the disc on the ray from the origin
        d = np.array([[math.cos(c["a"])], [math.sin(c["a"])]])
        ctr = np.array(c["c"]).reshape(2, 1)
        t = float(c["c"][0] * d[0, 0] + c["c"][1] * d[1, 0])
        h2 = c["c"][0] ** 2 + c["c"][1] ** 2 - t * t
        r = c["r"]
        if abs(h2 - r * r) < EPS:
            return None
        if h2 > r * r:
            want = math.inf
        else:
            s = math.sqrt(r * r - h2)
            if min(abs(t - s), abs(t + s)) < EPS:
                return None
            want = t - s if t - s > 0 else 0 if t + s > 0 else math.inf
        got = float(np.squeeze(u.distance_to_circle(ctr, r, d)))
        if got != want and not abs(got - want) < 1e-6 * (1 + abs(want)):
            no("distance_to_circle(center %s, radius %s, direction %s) = %s, not %s", c["c"], r, d.ravel().tolist(), got, want)
        return ["circle hit" if want < math.inf else "circle miss"]
    cs = corners(c["s"])
    if c["rev"]:
        cs = cs[::-1]
    r, p = c["r"], c["q"]
    L = math.hypot(p[0] - r[0], p[1] - r[1])
    ctr, l, w, a = c["s"]
    x0, y0 = local(r, ctr, a)
    x1, y1 = local(p, ctr, a)
    if L < 1e-3 or max(abs(x0) - l / 2, abs(y0) - w / 2) < EPS:  # no segment, or one that starts inside
        return None
    if min(abs(abs(v) - e / 2) for v, e in ((x0, l), (x1, l), (y0, w), (y1, w))) < EPS:
        return None
    # where the segment enters and leaves, by slabs with exact handling of parallel lines
    t0, t1 = 0.0, 1.0
    for v0, v1, e in ((x0, x1, l / 2), (y0, y1, w / 2)):
        if abs(v1 - v0) < 1e-9:
            if abs(v0) > e:
                t0, t1 = 1.0, 0.0
                break
        else:
            s = sorted([(-e - v0) / (v1 - v0), (e - v0) / (v1 - v0)])
            t0, t1 = max(t0, s[0]), min(t1, s[1])
    if 0 < abs(t1 - t0) < 1e-6:
        return None
    want = t0 * L if t0 <= t1 else math.inf
    with np.errstate(all="ignore"):
        got = float(u.distance_to_rect((np.array(r), np.array(p)), [np.array(x) for x in cs]))
    if got != want and not abs(got - want) < 1e-6 * (1 + abs(want)):
        no("distance_to_rect(%s to %s, rectangle %s with corners %s) = %s, not %s", r, p, c["s"], cs, got, want)
    return ["rect hit" if want < math.inf else "rect miss"]


# ---------------------------------------------------------------- boxes and lists

@st.composite
def lists(draw):
    k = draw(st.sampled_from(["dedup", "dedup", "combine_all", "combine_rect", "partition", "union", "sample", "path", "serial"]))
    c = {"k": k}
    n = draw(st.integers(1, 4))
    box = lambda: [list(x) for x in zip(*[sorted([draw(num), draw(num)]) for _ in range(n)])]
    if k == "dedup":
        e = st.one_of(st.integers(0, 5), st.sampled_from(["a", "b", "ab"]), st.lists(st.integers(0, 1), max_size=2))
        c.update(l=draw(st.lists(e, max_size=12)), key=draw(st.sampled_from(["id", "str", "len", "mod"])))
    elif k == "combine_all":
        c.update(b=[box() for _ in range(draw(st.integers(1, 5)))], arr=draw(st.booleans()))
    elif k in ("combine_rect", "union"):
        m = draw(st.integers(1, 4))
        c["t"] = [[x for _ in range(m) for x in box()] for _ in range(draw(st.integers(1, 4)) if k == "union" else 1)]
    elif k == "partition":
        b = box()
        for i in range(n):
            if draw(st.integers(0, 3)) == 0:
                b[1][i] = b[0][i]
        c.update(b=[[0.0] + b[0], [draw(st.sampled_from([0.0, 0.5]))] + b[1]], n=draw(st.integers(1, 4)), dims=draw(st.one_of(st.none(), st.lists(st.integers(0, n), max_size=3, unique=True))))
    elif k == "sample":
        c.update(b=box(), seed=draw(st.one_of(st.none(), st.integers(0, 1000))))
    elif k == "path":
        c["c"] = draw(st.sampled_from(["verse.map.lane_segment.StraightLane", "verse.map.lane_map.LaneMap", "verse.agents.example_agent.car_agent.CarAgent", "verse.utils.utils.dedup", "verse.parser.parser.ControllerIR"]))
    else:
        c["b"] = box()
    return c


KEY = {"id": lambda x: x, "str": str, "len": lambda x: len(x) if not isinstance(x, int) else x, "mod": lambda x: x % 2 if isinstance(x, int) else 0}


def check_list(c):
    u = U()
    k = c["k"]
    if k == "dedup":
        l, f = c["l"], KEY[c["key"]]
        old = copy.deepcopy(l)
        calls = []
        got = u.dedup(l, f) if c["key"] != "id" else u.dedup(l)
        want, seen = [], []
        for x in old:
            if f(x) not in seen:
                seen.append(f(x))
                want.append(x)
        if got != want or [type(x) for x in got] != [type(x) for x in want]:
            no("dedup(%s) by %s = %s, not %s", old, c["key"], got, want)
        if l != old:
            no("dedup changed its argument %s to %s", old, l)
        return [k] if len(want) < len(l) else None
    if k == "combine_all":
        from verse.analysis.incremental import combine_all
        bs = c["b"]
        got = combine_all(np.array(bs) if c["arr"] else bs)
        want = [[min(b[0][i] for b in bs) for i in range(len(bs[0][0]))], [max(b[1][i] for b in bs) for i in range(len(bs[0][0]))]]
        if [list(map(float, r)) for r in got] != want:
            no("the smallest box around %s is given as %s, not %s", bs, got, want)
        return [k]
    if k == "combine_rect":
        from verse.analysis.verifier import combine_rect
        t = c["t"][0]
        want = [[min(r[i] for r in t) for i in range(len(t[0]))], [max(r[i] for r in t) for i in range(len(t[0]))]]
        if [list(map(float, r)) for r in combine_rect(t)] != want:
            no("combine_rect(%s) = %s, not %s", t, combine_rect(t), want)
        return [k]
    if k == "union":
        from verse.analysis.verifier import Verifier
        ts = c["t"]
        got = Verifier._union_traces([np.array(t) for t in ts], None)
        want = [[(min, max)[j % 2](t[j][i] for t in ts) for i in range(len(ts[0][0]))] for j in range(len(ts[0]))]
        if [list(map(float, r)) for r in got] != want:
            no("the union of the tubes %s is %s, not %s", ts, got, want)
        return [k]
    if k == "partition":
        from verse.analysis.verifier import Verifier
        b, n = c["b"], c["n"]
        if any(0 < h - l < 1e-9 * (1 + abs(l) + abs(h)) for l, h in zip(*b)):  # no room for parts
            return None
        old = copy.deepcopy(b)
        parts = Verifier._partition_rect(b, n, c["dims"])
        if b != old:
            no("partitioning changed the box %s to %s", old, b)
        dims = [i for i in range(1, len(b[0])) if (c["dims"] is None or i in c["dims"]) and b[0][i] != b[1][i]]
        if len(parts) != n ** len(dims):
            no("partitioning %s along %s into %d each gives %d parts", b, dims, n, len(parts))
        seen = set()
        for p in parts:
            key = []
            for i, (l, h) in enumerate(zip(*p)):
                lo, hi = b[0][i], b[1][i]
                tol = 1e-9 * (1 + abs(lo) + abs(hi))
                if i not in dims:
                    if (l, h) != (lo, hi):
                        no("partitioning %s along %s changes dimension %d: %s", b, dims, i, p)
                    continue
                j = round((l - lo) / (hi - lo) * n)
                key.append(j)
                if not 0 <= j < n or abs(l - (lo + (hi - lo) * j / n)) > tol or abs(h - (lo + (hi - lo) * (j + 1) / n)) > tol or l < lo or (j == n - 1 and h != hi) or (j == 0 and l != lo):
                    no("partitioning %s along %s into %d each gives the part %s", b, dims, n, p)
            seen.add(tuple(key))
        if len(seen) != len(parts):
            no("partitioning %s along %s into %d each repeats parts: %s", b, dims, n, parts)
        # neighbours share their common bound exactly, so that nothing is lost between them
        for i in dims:
            ls, hs = {p[0][i] for p in parts}, {p[1][i] for p in parts}
            for h in hs - {b[1][i]}:
                if not any(l <= h for l in ls - {b[0][i]} if abs(l - h) <= 1e-9 * (1 + abs(h))):
                    no("partitioning %s into %d leaves a gap above %r in dimension %d", b, n, h, i)
        return [k] if dims else None
    if k == "sample":
        b = c["b"]
        got = [u.sample_rect(copy.deepcopy(b), c["seed"]) for _ in range(3)]
        for x in got:
            if not isinstance(x, list) or len(x) != len(b[0]) or not all(l <= v <= h for l, v, h in zip(b[0], x, b[1])):
                no("sample_rect(%s) = %s", b, x)
        if c["seed"] is not None and got[0] != got[1]:
            no("sample_rect(%s, %s) = %s and %s", b, c["seed"], got[0], got[1])
        return [k]
    if k == "path":
        cls = u.class_from_path(c["c"])
        if u.get_class_path(cls) != c["c"]:
            no("the path of the class at %s is %s", c["c"], u.get_class_path(cls))
        return [k]
    if u.to_serializable(np.array(c["b"])) != c["b"] or u.to_serializable(c["b"]) != c["b"]:
        no("to_serializable(%s) = %s", c["b"], u.to_serializable(np.array(c["b"])))
    return [k]


def subs():
    return [Sub("scalars", scalars(), check_scalar, 4000), Sub("rectangles", rect_cases(), check_rect, 6000), Sub("polygons", polygons(), check_polygons, 4000),
            Sub("rays", rays(), check_ray, 5000), Sub("lists", lists(), check_list, 5000)]
