"""C21: star sets."""
import itertools
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from .. import dl, world, execref
from ..core import Sub, Violation, sized
from . import c02, c07

PROPERTY = "C21"
RULE = ("A case is a star set {c + sum a_i v_i : C a <= g} in 1-3 dimensions with 1-4 generators and a bounded predicate (a box on a, cut by up to three more rows), with points, maps "
        "and half-spaces; non-trivial when the set is not empty and has at least two points. In 'verification', a scenario with an initial star set; non-trivial as in C07.")
ASSUMPTIONS = ["sets are bounded; the ones of 'operations' may be empty or lower-dimensional",
               "answers within 1e-6 of changing are not judged (the library decides by linear programming)",
               "with star sets, assignments do not read other agents (the code says so)",
               "sklearn is missing here, so the method that fits stars by principal components is checked from given directions on"]
TOL = 1e-6

eighth = st.integers(-32, 32).map(lambda k: k / 8)
small = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5]), eighth)


@st.composite
def stars(draw, empty=True):
    n = draw(st.integers(1, 3))
    m = draw(st.sampled_from([n, n, n, 1, 2, 3, 4]))
    basis = [[draw(small) for _ in range(n)] for _ in range(m)]
    if draw(st.integers(0, 4)) == 0:
        basis = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(m)]
    C, g = [], []
    a0 = []
    for i in range(m):
        if draw(st.integers(0, 2)):
            lo, hi = -1.0, 1.0
        else:
            lo = draw(eighth)
            hi = lo + draw(st.sampled_from([0.0, 0.5, 1.0, 3.0]))
        for s, b in ((1.0, hi), (-1.0, -lo)):
            C.append([s if j == i else 0.0 for j in range(m)])
            g.append(b)
        a0.append(lo + (hi - lo) * draw(st.sampled_from([0.0, 0.25, 0.5, 1.0])))
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3]))):
        row = [draw(small) for _ in range(m)]
        C.append(row)
        slack = draw(st.sampled_from([0.0, 0.5, 1.0, 2.0] + ([-0.5, -4.0] if empty else [])))
        g.append(sum(r * a for r, a in zip(row, a0)) + slack)
    return {"c": [draw(eighth) for _ in range(n)], "V": basis, "C": C, "g": g}


def solve(A, b):
    """Exact solution of the square system, None if singular."""
    n = len(A)
    M = [[F(x) for x in r] + [F(y)] for r, y in zip(A, b)]
    for i in range(n):
        p = next((k for k in range(i, n) if M[k][i] != 0), None)
        if p is None:
            return None
        M[i], M[p] = M[p], M[i]
        M[i] = [x / M[i][i] for x in M[i]]
        for k in range(n):
            if k != i and M[k][i] != 0:
                M[k] = [x - M[k][i] * y for x, y in zip(M[k], M[i])]
    return [r[-1] for r in M]


def corners(C, g):
    """The vertices of {a: C a <= g}, exactly."""
    m = len(C[0])
    out = []
    for rows in itertools.combinations(range(len(C)), m):
        a = solve([C[i] for i in rows], [g[i] for i in rows])
        if a is not None and a not in out and all(sum(F(x) * y for x, y in zip(r, a)) <= F(b) for r, b in zip(C, g)):
            out.append(a)
    return out


def at(s, a):
    return [F(c) + sum(y * F(v[i]) for y, v in zip(a, s["V"])) for i, c in enumerate(s["c"])]


def dot(u, v):
    return sum(F(x) * F(y) for x, y in zip(u, v))


def make(s):
    from verse.stars.starset import StarSet
    return StarSet(np.array(s["c"]), np.array(s["V"]), np.array(s["C"]), np.array(s["g"]))


def state(star):
    return [np.array(x, dtype=float).tolist() for x in (star.center, star.basis, star.C, star.g)]


def eq(a, b, what, tol=TOL):
    if len(a) != len(b) or any(not abs(float(x) - float(y)) <= tol * max(1, abs(float(y))) for x, y in zip(a, b)):
        raise Violation("%s: %s, but it is %s" % (what, [float(x) for x in a], [float(x) for x in b]))


@st.composite
def op_cases(draw):
    s = draw(stars())
    n, m = len(s["c"]), len(s["V"])
    vec = lambda: [draw(small) for _ in range(n)]
    return {"s": s, "w": [[draw(st.integers(0, 4)) for _ in range(8)] for _ in range(2)], "dirs": [vec() for _ in range(3)],
            "half": [[vec(), draw(st.sampled_from([-1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 2.0]))] for _ in range(draw(st.integers(1, 2)))],
            "map": [vec() for _ in range(n)], "off": vec(), "far": draw(st.sampled_from([0.001, 0.5, 4.0]))}


def combine(vs, w):
    """A convex combination of the points vs."""
    w = [F(w[i % len(w)]) for i in range(len(vs))]
    t = sum(w)
    if t == 0:
        return vs[0]
    return [sum(x * v[j] for x, v in zip(w, vs)) / t for j in range(len(vs[0]))]


def check_ops(case):
    from verse.stars.starset import StarSet, containment_poly
    s = case["s"]
    n, m = len(s["c"]), len(s["V"])
    star = make(s)
    before = state(star)
    al = corners(s["C"], s["g"])
    loose = corners(s["C"], [b + 0.001 for b in s["g"]])
    tags = []
    # emptiness
    if al or not loose:
        got = bool(star.is_empty())
        if got != (not al):
            raise Violation("is_empty() of %s is %s" % (s, got))
    if not al:
        if loose:
            return None
        p = [float(x) for x in at(s, [0] * m)]
        if star.contains_point(np.array(p)) or containment_poly(star, np.array(p)):
            raise Violation("the empty set contains %s" % p)
        return ["empty"]
    pts = [at(s, a) for a in al]
    if m > n:
        tags.append("more generators than dimensions")
    elif m < n:
        tags.append("fewer generators than dimensions")
    # extent
    for d in range(n):
        lo, hi = star.get_max_min(d)
        eq([lo, hi], [min(p[d] for p in pts), max(p[d] for p in pts)], "extent of dimension %d" % d)
    rect = star.overapprox_rectangle()
    eq(rect[0], [min(p[d] for p in pts) for d in range(n)], "lower corner of the bounding box")
    eq(rect[1], [max(p[d] for p in pts) for d in range(n)], "upper corner of the bounding box")
    eq(star.get_true_center(), [(min(p[d] for p in pts) + max(p[d] for p in pts)) / 2 for d in range(n)], "centre of the bounding box")
    # extreme points
    for v in case["dirs"]:
        arg = np.array([[x] for x in v])
        got = [float(x) for x in np.asarray(star.maximize(arg)).reshape(-1)]
        best = max(dot(v, p) for p in pts)
        eq([dot(v, got)], [best], "the point %s maximizing %s: it attains" % (got, v))
        if n == m and not member(s, got, F(1, 10 ** 6)):
            raise Violation("the point %s maximizing %s is not in the set" % (got, v))
    # membership
    inside = [[float(x) for x in at(s, combine(al, w))] for w in case["w"]]
    exact = all(F(x) == y for x, y in zip(inside[0], at(s, combine(al, case["w"][0]))))
    if exact:
        if not star.contains_point(np.array(inside[0])):
            raise Violation("contains_point(%s) is false" % inside[0])
        if not containment_poly(star, np.array(inside[0])):
            raise Violation("containment_poly(%s) is false" % inside[0])
        tags.append("member")
    for v in case["dirs"][:2]:
        if not any(v):
            continue
        top = max(pts, key=lambda p: dot(v, p))
        out = [float(x + F(case["far"]) * F(y)) for x, y in zip(top, v)]
        if dot(v, out) > max(dot(v, p) for p in pts) + F(1, 10 ** 6):
            if star.contains_point(np.array(out)):
                raise Violation("contains_point(%s) is true, the point is %s beyond the set in direction %s" % (out, case["far"], v))
            if containment_poly(star, np.array(out)):
                raise Violation("containment_poly(%s) is true, the point is %s beyond the set in direction %s" % (out, case["far"], v))
    # half-spaces
    cut = star.copy()
    ref = dict(s, C=list(s["C"]), g=list(s["g"]))
    for v, f in case["half"]:
        vals = [dot(v, p) for p in pts]
        lo, hi = min(vals), max(vals)
        rhs = float(lo + (hi - lo) * F(f)) if hi > lo else float(lo + F(f))
        sat = bool(star.satisfies(np.array(v), rhs))
        if hi < F(rhs) - F(1, 10 ** 4) * max(1, sum(abs(x) for x in map(F, v))) and not sat:
            raise Violation("satisfies(%s, %s) is false, the largest value is %s" % (v, rhs, float(hi)))
        if hi > F(rhs) + F(1, 10 ** 4) and sat:
            raise Violation("satisfies(%s, %s) is true, the largest value is %s" % (v, rhs, float(hi)))
        new = StarSet.get_halfspace_intersection(cut, np.array(v), rhs)
        cut.intersection_halfspace(np.array(v), rhs)
        if state(new) != state(cut):
            raise Violation("get_halfspace_intersection and intersection_halfspace differ")
        ref["C"].append([float(dot(v, b)) for b in s["V"]])
        ref["g"].append(rhs - float(dot(v, s["c"])))
    al2 = corners(ref["C"], ref["g"])
    if al2:
        p2 = [at(s, a) for a in al2]
        if len(p2) < len(pts) or p2 != pts:
            tags.append("cut")
        for d in range(n):
            eq(cut.get_max_min(d), [min(p[d] for p in p2), max(p[d] for p in p2)], "after cutting with %s: extent of dimension %d" % (case["half"], d))
    elif not corners(ref["C"], [b + 0.001 for b in ref["g"]]) and not cut.is_empty():
        raise Violation("the cut with %s is empty, but is_empty() is false" % case["half"])
    many = star.copy()
    many.intersection_poly(np.array([v for v, _ in case["half"]]), np.array([1.0] * len(case["half"])))
    if state(star) != before:
        raise Violation("operations on a copy changed the set to %s" % state(star))
    # affine images
    M, b = np.array(case["map"]), np.array(case["off"])
    image = [[dot(r, p) + F(o) for r, o in zip(case["map"], case["off"])] for p in pts]
    for what, new in (("post_cont", star.post_cont(lambda x, t: M @ x + b, 1.0)), ("apply_reset", star.apply_reset(lambda x, e, r: M @ np.array(x) + b, {}, {})),
                      ("superposition", star.superposition(M @ star.center + b, [M @ v for v in star.basis]))):
        for d in range(n):
            eq(new.get_max_min(d), [min(p[d] for p in image), max(p[d] for p in image)], "%s: extent of dimension %d" % (what, d))
        for v in case["dirs"]:
            got = np.asarray(new.maximize(np.array([[x] for x in v]))).reshape(-1)
            eq([dot(v, got)], [max(dot(v, p) for p in image)], "%s: extent in direction %s" % (what, v))
    # a linear flow
    def sim(mode, x0, T, dt, lane_map=None):
        k = int(round(T / dt))
        return np.array([[i * dt] + list(np.array(x0, dtype=float) + i * dt * (M @ np.array(x0, dtype=float) + b)) for i in range(k + 1)])
    tube = star.calc_reach_tube_linear("m", 1.0, 0.5, sim, None)
    if [float(t) for t, _ in tube] != [0.0, 0.5, 1.0]:
        raise Violation("the tube of a linear flow has times %s" % [t for t, _ in tube])
    for t, x in tube:
        img = [[y + F(float(t)) * z for y, z in zip(p, q)] for p, q in zip(pts, image)]
        for d in range(n):
            eq(x.get_max_min(d), [min(p[d] for p in img), max(p[d] for p in img)], "linear flow at %s: extent of dimension %d" % (t, d))
    # hulls and boxes
    mapped = star.superposition(M @ star.center + b, [M @ v for v in star.basis])
    moved = star.superposition(star.center + b, list(star.basis))
    shift = [[x + F(y) for x, y in zip(p, case["off"])] for p in pts]
    for what, sets, w in (("two sets", [star, mapped], pts + image), ("three sets", [moved, mapped, star], pts + image + shift), ("three sets", [star, mapped, moved], pts + image + shift), ("one set", [star], pts)):
        hull = StarSet.combine_stars(sets)
        for d in range(n):
            lo, hi = hull.get_max_min(d)
            v = [p[d] for p in w]
            if lo > min(v) + F(1, 10 ** 6) or hi < max(v) - F(1, 10 ** 6):
                raise Violation("combine_stars of %s: extent %s of dimension %d, the sets have %s" % (what, [lo, hi], d, [float(min(v)), float(max(v))]))
    box = StarSet.rect_to_star(*rect)
    for d in range(n):
        eq(box.get_max_min(d), [rect[0][d], rect[1][d]], "rect_to_star: extent of dimension %d" % d)
    # boundary
    if n >= 2:
        dims = [(0, 1), (1, 0)] + ([(0, 2), (2, 1)] if n == 3 else [])
        for i, j in dims[: 4]:
            xs, ys = star.get_verts(i, j)
            boundary(xs, ys, [[p[i], p[j]] for p in pts], "get_verts(%d, %d)" % (i, j))
        xs, ys = star.get_verts()
        boundary(xs, ys, [[p[0], p[1]] for p in pts], "get_verts()")
    if state(star) != before:
        raise Violation("queries changed the set from %s to %s" % (before, state(star)))
    if len(al) < 2:
        return None
    return tags + ["dim=%d" % n]


def boundary(xs, ys, pts, what):
    """The polygon's points are points of the set, and reach as far as the set in the sampled directions."""
    for k in range(8):
        th = k * 2 * np.pi / 8
        v = (np.cos(th), np.sin(th))
        got = max(v[0] * x + v[1] * y for x, y in zip(xs, ys))
        want = max(v[0] * float(p[0]) + v[1] * float(p[1]) for p in pts)
        size = max(1.0, max(abs(float(x)) for p in pts for x in p))
        if got > want + TOL * size or got < want - 0.01 * size:
            raise Violation("%s reaches %s in direction %s, the set %s" % (what, got, v, want))


def member(s, x, tol):
    """For invertible V: is x in the set (up to tol)?"""
    a = solve([[v[i] for v in s["V"]] for i in range(len(s["c"]))], [F(y) - F(c) for y, c in zip(x, s["c"])])
    return a is None or all(dot(r, a) <= F(b) + tol * (1 + max(abs(F(z)) for z in r) * 1000) for r, b in zip(s["C"], s["g"]))


@st.composite
def fit_cases(draw):
    s = draw(stars(empty=False).filter(lambda s: len(s["V"]) == len(s["c"])))
    n = len(s["c"])
    B = [[draw(small) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        B[i][i] = draw(st.sampled_from([1.0, -2.0, 5.0]))
    return {"s": s, "B": B, "pts": [[draw(eighth) for _ in range(n)] for _ in range(draw(st.integers(1, 6)))], "k": draw(st.integers(1, 6)), "seed": draw(st.integers(0, 10 ** 6))}


def check_fit(case):
    """A star fitted to points along given directions contains them; points sampled from a star are in it."""
    import random
    from verse.stars.starset import post_cont_pca, sample_star
    s = case["s"]
    n = len(s["c"])
    if not corners(s["C"], s["g"]):
        return None
    if solve(case["B"], [0] * n) is None:
        return None
    star = make(s)
    new = post_cont_pca(star, np.array(case["B"]), np.array(case["pts"]))
    t = {"c": new.center.tolist(), "V": new.basis.tolist(), "C": new.C.tolist(), "g": new.g.tolist()}
    for p in case["pts"]:
        if not member(t, p, F(1, 10 ** 7)):
            raise Violation("the star %s fitted to %s does not contain %s" % (t, case["pts"], p))
    tags = ["fit"]
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    try:
        got = sample_star(star, case["k"], tol=200)
    except Exception as e:
        if "misses" not in str(e):
            raise
        got = None
    if got is not None:
        if len(got) != case["k"]:
            raise Violation("sample_star returned %d points of %d" % (len(got), case["k"]))
        for p in got:
            if not member(s, [float(x) for x in p], F(1, 10 ** 9)):
                raise Violation("the sampled point %s is not in the star" % p)
        tags.append("sampled")
    return tags if len(case["pts"]) > 1 else None


# ---- verification from star sets ----
@st.composite
def veri_cases(draw, several):
    c = draw(c07.cases(draw(st.booleans())).filter(lambda c: len(c["agents"]) == 1 if not several else len(c["agents"]) == 2))
    c["stars"] = []
    for a in c["agents"]:
        lo, hi = a["init"]
        n = len(lo)
        basis = [[(h - l) / 2 if i == j else 0.0 for j, (l, h) in enumerate(zip(lo, hi))] for i in range(n)]
        for i in range(1, n):
            basis[i][0] += draw(st.sampled_from([0.0, 0.0, 0.25, -0.5]))
        c["stars"].append({"c": [(l + h) / 2 for l, h in zip(lo, hi)], "V": basis})
    c["H"] = min(c["H"], 4)
    c["seg"] = 1000
    return c


def others_in_resets(e):
    if isinstance(e, list):
        if e and e[0] in ("set", "let") and "sum" in str(e):
            return True
        return any(others_in_resets(x) for x in e)
    return False


class Rows:
    """A node of a star tree, read as boxes."""

    def __init__(self, n, dt):
        self.start_time, self.mode, self.assert_hits = n.start_time, n.mode, n.assert_hits
        self.trace = {}
        for a, tr in n.trace.items():
            rows = []
            for t, s in tr:
                lo, hi = s.overapprox_rectangle()
                rows += [[float(t)] + list(lo), [float(t) + dt] + list(hi)]
            self.trace[a] = rows
        self.init = {a: [s.overapprox_rectangle() for s in (x if isinstance(x, (list, tuple)) else [x])] for a, x in n.init.items()}
        self.child = [Rows(c, dt) for c in n.child]


def start(case, fr):
    return [dict(a, init=[[c + sum((2 * t - 1) * v[i] for t, v in zip(f, x["V"])) for i, c in enumerate(x["c"])]])
            for a, x, f in zip(case["agents"], case["stars"], fr)]


def check_veri(case):
    from verse.stars.starset import StarSet
    from verse.sensor.base_sensor_stars import BaseStarSensor
    T, dt = case["n"] * case["dt"], case["dt"]
    if any(a["prog"] and others_in_resets([a["prog"]["body"], a["prog"]["helpers"]]) for a in case["agents"]):
        return None
    refs, hit = [], set()
    for f in case["pts"]:
        ags = start(case, f)
        rs = execref.RefSim({"agents": ags}, T, dt, case["H"], cap=40)
        dl.margin = [float("inf")]
        try:
            ref = rs.run()
        except execref.TooBig:
            return None
        finally:
            tight, dl.margin = dl.margin[0] < TOL, None
        if tight:
            continue
        c07.mark(ref, N=case["n"], dt=dt, jumpers={a["id"] for a in ags if a["prog"]})
        refs.append(({a["id"]: a["init"][0] for a in ags}, ref))
        if ref["asserts"]:
            hit.add("assert")
        if ref["child"]:
            hit.add("jump")
    if not hit:
        return None
    sc = world.Scenario(world.config(reachability_method=world.ReachabilityMethod.STAR_SETS, pca=False))
    sc.set_sensor(BaseStarSensor())
    for a, x in zip(case["agents"], case["stars"]):
        n = len(x["c"])
        ag = world.RateAgent(a["id"], dl.render(a["prog"]) if a["prog"] else None, a["rates"], a.get("key", 0))
        C = np.array([[s if i == j else 0.0 for j in range(n)] for i in range(n) for s in (1.0, -1.0)])
        ag.set_initial(StarSet(np.array(x["c"]), np.array(x["V"]), C, np.ones(2 * n)), tuple(world.Named(m) for m in a["mode"]))
        if a.get("static"):
            ag.set_static_parameter([world.Named(s) for s in a["static"]])
        sc.add_agent(ag)
    with sized(6.0):
        tree = sc.verify(T, dt, max_height=case["H"])
    root = Rows(tree.root, dt)
    for x0, ref in refs:
        d = c07.covered(ref, root, "root")
        if d:
            raise Violation("simulation from %s: %s" % (x0, d))
    return sorted(hit)


def subs():
    return [Sub("operations", op_cases(), check_ops, 320), Sub("fitting", fit_cases(), check_fit, 150), Sub("verification", veri_cases(False), check_veri, 150),
            Sub("two agents", veri_cases(True), check_veri, 100)]
