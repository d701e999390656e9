"""C07: the verified tree covers every simulation."""
from hypothesis import strategies as st

from .. import dl, world, execref
from ..core import Sub, Violation, sized
from . import c02, c05

PROPERTY = "C07"
RULE = ("A case is a scenario with a box of initial states, a generated decision logic (with or without assertions) and a "
        "sample of points of the box; non-trivial when the reference execution from some sampled point makes a transition "
        "or fails an assertion.")
ASSUMPTIONS = ["flows are constant-rate, which the tube computation encloses up to 1e-6 (that is C09)",
               "one agent makes transitions; the others are stationary, or move and are not read by its decision logic",
               "simulations are computed by the reference executor (its agreement with the library's simulator is C02)",
               "executions with more than 40 nodes are skipped, and executions in which some comparison is decided by less than 1e-6"]
TOL = 1e-6


@st.composite
def cases(draw, asserts=False, road=False):
    lay = draw(dl.road_layouts() if road else dl.layouts(static=True))
    nag = draw(st.sampled_from([1, 1, 2, 2, 3]))
    feats = {"eqs": False, "asserts": asserts, "road_resets": False}
    moving_others = nag > 1 and draw(st.integers(0, 2)) == 0
    if moving_others:
        feats.update(any=False, sum=False, helper=False)
    ags = draw(c02.agents(lay, 1, feats, 2))
    modes0 = lay["modes"][lay["disc"][0][0]]
    for i in range(1, nag):
        if road:
            key, rates, x0, m0 = draw(c02.drivers(lay, c02.vals))
            ags.append({"id": "b%d" % i, "prog": None, "lay": lay, "key": key, "mode": m0, "init": [x0], "static": [],
                        "rates": rates if moving_others else {m: [0.0 for _ in r] for m, r in rates.items()}})
            continue
        ags.append({"id": draw(st.sampled_from(["car", "b", "z"])) + str(i), "prog": None, "lay": lay, "key": 0,
                    "rates": {m: [draw(c02.rates_v) if moving_others else 0.0 for _ in lay["cont"]] for m in modes0},
                    "mode": [draw(st.sampled_from(lay["modes"][m])) for m, _ in lay["disc"]],
                    "init": [[draw(c02.vals) for _ in lay["cont"]]],
                    "static": [draw(st.sampled_from(dl.KINDS))] if lay.get("static") else []})
    off = 1
    for a in ags:
        lo = [v + (off * 3 ** i) / 1024 for i, v in enumerate(a["init"][0])]
        off += 1
        a["init"] = [lo, [v + draw(st.sampled_from([0, 0.25, 0.5, 1.0, 2.0])) for v in lo]]
    k = draw(st.integers(0, nag - 1))
    ags = ags[-k:] + ags[:-k] if k else ags
    dt = draw(st.sampled_from([0.25, 0.5, 1.0, 0.125, 1 / 256]))
    c02.rescale(ags, dt)
    pts = [[[draw(st.integers(0, 4)) / 4 for _ in lay["cont"]] for _ in ags] for _ in range(4)]
    return {"agents": ags, "dt": dt, "n": draw(st.integers(2, 8) if road else st.integers(1, 8)), "H": draw(st.sampled_from([6, 4, 3, 2])), "pts": pts,
            "seg": draw(st.sampled_from([1000, 1000, 1, 2]))}


def point(case, fr):
    ags = []
    for a, f in zip(case["agents"], fr):
        lo, hi = a["init"]
        ags.append(dict(a, init=[[l + (h - l) * t for l, h, t in zip(lo, hi, f)]]))
    return ags


def box(rows):
    lo = [min(r[j] for r in rows) for j in range(1, len(rows[0]))]
    hi = [max(r[j] for r in rows) for j in range(1, len(rows[0]))]
    return lo, hi


def inside(x, lo, hi, tol=TOL):
    return all(l - tol <= v <= h + tol for v, l, h in zip(x, lo, hi))


def covered(ref, v, path):
    """None, or why the execution `ref` (from its node on) is not covered by tree node v."""
    if not ref["expanded"]:
        return None
    ids = list(ref["modes"])
    n = min(len(v.trace[a]) for a in ids) // 2 if v.trace else 0
    length = min(len(t) for t in ref["trace"].values())
    asserted = bool(v.assert_hits)
    start = int(round(v.start_time / ref["dt"]))
    # the states that enter within the window may be followed from its start or from the step in which they enter
    why = None
    for shift in range(ref["i0"] - start + 1):
        d = _samples(ref, v, path, ids, n, length, asserted, start, shift)
        if d is None:
            break
        why = why or d
    else:
        return why
    if ref["asserts"]:
        if not asserted:
            return "%s: the simulation fails %s at local sample %d, verification reports no assertion" % (path, ref["asserts"], ref["assert_idx"])
        return None
    if ref["child"] and asserted and n <= length - 1:
        return None
    for c in ref["child"]:
        if not c["expanded"]:
            continue
        why = []
        for w in v.child:
            if {a: tuple(m) for a, m in w.mode.items()} != c["modes"]:
                continue
            ok = True
            for a in ids:
                if c["modes"][a] != ref["modes"][a] or c["init"][a] != ref["trace"][a][-1]:
                    if not any(inside(c["init"][a], r[0], r[1]) for r in w.init[a]):
                        ok = False
                        why.append("%s: reset state %s of %s not in %s" % (path, c["init"][a], a, w.init[a]))
            if ok:
                d = covered(c, w, path + "/" + "+".join("".join(m) for m in c["modes"].values()))
                if d is None:
                    break
                why.append(d)
        else:
            if asserted:
                return None
            return " && ".join(why) if why else "%s: the simulation jumps to %s at local sample %d, no such successor among %s" % (
                path, c["modes"], length - 1, [w.mode for w in v.child])
    return None


def _samples(ref, v, path, ids, n, length, asserted, start, shift):
    for k in range(length):
        if k + shift >= n:
            if asserted or i_end(ref, k):
                return None
            return "%s: the simulation is still in this node at local sample %d, the tube has only %d steps" % (path, k, n)
        for a in ids:
            kk = k + shift if a in ref["jumpers"] else ref["i0"] + k - start
            if kk >= n:
                continue
            lo, hi = box(v.trace[a][2 * kk: 2 * kk + 2])
            if not inside(ref["trace"][a][k], lo, hi):
                return "%s: %s at local sample %d is %s, outside the box %s" % (path, a, k, ref["trace"][a][k], [lo, hi])
    return None


def i_end(ref, k):
    """Sample k is the horizon itself (the tube's last step ends there)."""
    return ref["i0"] + k >= ref["N"]


def mark(ref, **kw):
    ref.update(kw)
    for c in ref["child"]:
        mark(c, **kw)


def check(case):
    T, dt = case["n"] * case["dt"], case["dt"]
    refs = []
    hit = set()
    for f in case["pts"]:
        rs = execref.RefSim({"agents": point(case, f)}, T, dt, case["H"], cap=40)
        dl.margin = [float("inf")]
        try:
            ref = rs.run()
        except execref.TooBig:
            return None
        finally:
            tight, dl.margin = dl.margin[0] < TOL, None
        if tight:
            continue
        mark(ref, N=case["n"], dt=dt, jumpers={a["id"] for a in case["agents"] if a["prog"]})
        refs.append((f, ref))
        if ref["asserts"]:
            hit.add("assert")
        if ref["child"]:
            hit.add("jump")
            if any(c["child"] for c in ref["child"]):
                hit.add("second jump")
    if not hit:
        return None
    with sized():
        tree = world.build({"agents": case["agents"]}, world.config(init_seg_length=case.get("seg", 1000))).verify(T, dt, max_height=case["H"])
    for f, ref in refs:
        d = covered(ref, tree.root, "root")
        if d:
            raise Violation("simulation from %s: %s" % ({a["id"]: a["init"][0] for a in point(case, f)}, d))
    return sorted(hit) + ["agents=%d" % len(case["agents"])]


def subs():
    return [Sub("plain", lambda: cases(), check, 1600),
            Sub("roads", lambda: cases(road=True), check, 700),
            Sub("road_asserts", lambda: cases(True, road=True), check, 400),
            Sub("asserts", lambda: cases(True), check, 1200)]
