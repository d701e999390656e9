"""C24: plots."""
import copy
import re
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from .. import dl, world, execref
from ..core import Sub, Violation, sized, TooBig
from . import c07, c17, c21, c25

PROPERTY = "C24"
RULE = ("A case is a tree (computed by simulate or verify for a generated scenario, or built by hand with branches that end early or at once and nodes that were not expanded), the plotted "
        "dimensions and options; non-trivial when some agent has at least two samples, or one box, in the tree.")
ASSUMPTIONS = ["the root node has been computed; there are no more agents than colours", "the trail mode of animations, the pixels of exported videos, plots of polyhedra are not covered (they need a screen or an encoder)",
               "identical boxes or trajectories of one agent may be drawn once"]


def P():
    import verse.plotter.plotter2D as p
    return p


# ---------------------------------------------------------------- trees

@st.composite
def options(draw, kind):
    o = {"dims": [draw(st.integers(0, 3)) for _ in range(3)], "label": draw(st.sampled_from(["None", "None", "Detailed"])), "rate": draw(st.sampled_from([1, 1, 1, 2, 3])),
         "print": draw(st.sampled_from([None, None, [0], [1]])), "again": draw(st.booleans()), "given": draw(st.integers(0, 3)) == 0, "node": draw(st.booleans()), "combine": draw(st.sampled_from([1, 1, 1, None, 2, 3])),
         "wrong": draw(st.integers(0, 11)) == 0}
    o["colors"] = draw(st.permutations(["red", "blue", "green", "yellow", "magenta", "cyan", "orange", "pink", "purple"]).filter(lambda l: not {"magenta", "purple"} <= set(l[:3])))[:3]
    o["palette"] = draw(st.sampled_from([None, None, 0, 1, 3, 6]))
    if kind == "slice":
        o["win"] = sorted([draw(st.integers(0, 6)), draw(st.integers(0, 6))])
    return o


def handmade_sim(draw):
    """As tree_cases, with one row per sample."""
    c = draw(c25.tree_cases())
    for n in c["nodes"]:
        for a, rows in n["trace"].items():
            n["trace"][a] = rows[::2] + rows[-1:] if rows else []
            if n["height"] and draw(st.integers(0, 7)) == 0:
                n["trace"][a] = []
    return c


@st.composite
def handmade(draw, sim):
    c = handmade_sim(draw) if sim else draw(c25.tree_cases())
    if not sim:
        for n in c["nodes"]:
            if n["height"] and not n["kids"] and draw(st.integers(0, 7)) == 0:
                for a in n["trace"]:
                    n["trace"][a] = []
    for n in c["nodes"]:
        n["hits"] = {a: draw(st.lists(st.sampled_from(["safe", "low", "x > 3"]), min_size=1, max_size=2, unique=True)) for a in c["ids"] if draw(st.integers(0, 4)) == 0}
    return c


@st.composite
def cases(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    sim = kind.startswith("sim")
    if draw(st.booleans()):
        c = {"tree": draw(handmade(sim))}
    else:
        c = {"sc": draw(c07.cases(draw(st.booleans())))}
        c["sc"].pop("pts")
    c.update(kind=kind, o=draw(options(kind)))
    return c


def tree_of(c):
    """The tree, its agents' ids."""
    from verse.analysis.analysis_tree import AnalysisTreeNodeType
    sim = c["kind"].startswith("sim")
    if "tree" in c:
        t = c25.make_tree(c["tree"]["nodes"], c["tree"]["ids"])
        made = {m.id: m for m in t.nodes}
        for i, n in enumerate(c["tree"]["nodes"]):
            m = made[i]
            m.assert_hits = dict(n["hits"])
            dims = {a: len(c["tree"]["nodes"][0]["trace"][a][0]) for a in c["tree"]["ids"]}
            m.trace = {a: (x if len(x) else np.zeros((0, dims[a]))) for a, x in m.trace.items()}
            if sim:
                m.type = AnalysisTreeNodeType.SIM_TRACE
        return t, c["tree"]["ids"], c["tree"]["dt"]
    s = c["sc"]
    T, dt = s["n"] * s["dt"], s["dt"]
    try:
        execref.RefSim({"agents": c07.point(s, [[0.5] * len(a["init"][0]) for a in s["agents"]])}, T, dt, 4).run()
    except execref.TooBig:
        raise TooBig()
    sc = world.build({"agents": s["agents"]}, world.config())
    with sized(5):
        t = sc.simulate(T, dt, max_height=max(s["H"], 2), seed=1) if sim else sc.verify(T, dt, max_height=max(s["H"], 2))
    if sum(len(x) for n in t.nodes for x in n.trace.values()) > 400:
        raise TooBig()
    return t, [a["id"] for a in s["agents"]], dt


def rows(n, a):
    x = n.trace.get(a)
    return [] if x is None else [[float(v) for v in r] for r in x]


def freeze(t):
    return [[n.id, {a: (type(x).__name__, rows(n, a)) for a, x in n.trace.items()}, str(n.mode), str(n.assert_hits), [c.id for c in n.child], n.start_time] for n in t.nodes]


# ---------------------------------------------------------------- figures

def seq(v):
    return [] if v is None else list(v)


def lines(fig):
    """Drawn traces as (group, colour, mode, points, texts)."""
    out = []
    for d in fig.data:
        pts = list(zip(*[map(float, seq(getattr(d, k))) for k in ("x", "y", "z") if getattr(d, k, None) is not None]))
        tx = d.text
        out.append({"group": d.legendgroup, "color": (d.line.color if getattr(d, "line", None) is not None else None), "mode": d.mode if hasattr(d, "mode") else None, "pts": pts,
                    "text": ([tx] if isinstance(tx, str) else [] if tx is None else [str(x) for x in np.asarray(tx).tolist()] if False else list(tx)), "type": d.type, "fill": getattr(d, "fill", None)})
    return out


NUM = re.compile(r"-?(?:\d+\.\d+|inf|nan)")


def fmt(x):
    return "{:.2f}".format(x)


def in_ranges(fig, pts, what):
    for ax, i in ((fig.layout.xaxis.range, 0), (fig.layout.yaxis.range, 1)):
        if ax is None or not pts:
            continue
        lo, hi = sorted(ax)
        bad = [p for p in pts if not lo - 1e-9 * (1 + abs(lo)) <= p[i] <= hi + 1e-9 * (1 + abs(hi))]
        if bad:
            raise Violation("%s: the point %s is outside the axis range %s" % (what, bad[0], ax))


def marks(ls, t, ids, d, o, what, last):
    """The single labelled points: assertion hits at the last point of a trace, mode labels at the first."""
    allowed_hit, allowed_lab = {}, {}
    for n in t.nodes:
        for a in ids:
            r = rows(n, a)
            if r:
                allowed_lab.setdefault(tuple(r[0][k] for k in d), set()).add(a)
                if n.assert_hits and a in n.assert_hits:
                    allowed_hit.setdefault(tuple(r[-1][k] for k in d), set()).update(n.assert_hits[a])
    seen = {}
    for l in ls:
        txt = " ".join(map(str, l["text"]))
        if len(l["pts"]) != 1:
            raise Violation("%s: unexpected drawing %s" % (what, l))
        p = l["pts"][0]
        if "HIT" in txt:
            if p not in allowed_hit:
                raise Violation("%s: an assertion is marked as hit at %s (%s), where there is none: %s" % (what, p, txt, allowed_hit))
            seen.setdefault(p, []).append(txt)
        elif o["label"] == "None" or not any(a in txt for a in allowed_lab.get(p, ())):
            raise Violation("%s: unexpected point %s labelled %s" % (what, p, txt))
    return allowed_hit, seen


def hits_shown(allowed, seen, what):
    for p, labels in allowed.items():
        for lab in labels:
            if not any(lab in s for s in seen.get(p, [])):
                raise Violation("%s: the assertion %s that fails at %s is not marked there: %s" % (what, lab, p, seen))


def draw(c, t, fun, ndim, **kw):
    o = c["o"]
    names = ["x_dim", "y_dim", "z_dim"]
    d = [k % ndim for k in o["dims"]][:3 if "3d" in c["kind"] else 2]
    args = {names[i]: k for i, k in enumerate(d)}
    if o["print"] is not None:
        args["print_dim_list"] = [k for k in o["print"] if k < ndim]
    args.update(kw)
    if o["palette"] is not None and c["kind"] in ("sim", "reach", "slice"):
        args["plot_color"] = P().colors[o["palette"]:]
    root = t.root if o["node"] else t
    import plotly.graph_objects as go
    base = None
    if o["wrong"]:
        bad = dict(args)
        bad[names[o["dims"][0] % len(d)]] = ndim + o["dims"][1]
        try:
            fun(root, **bad)
        except ValueError:
            pass
        else:
            raise Violation("plotting dimension %s of states with %d entries is not refused" % (bad, ndim))
    if o["given"]:
        cls = go.Scatter3d if "3d" in c["kind"] else go.Scatter
        base = go.Figure(cls(x=[1e6], y=[1e6], name="mine", **({"z": [1e6]} if "3d" in c["kind"] else {})))
        fig = fun(root, fig=base, **args)
        if not any(x.name == "mine" for x in fig.data):
            raise Violation("plotting into a figure removes what it shows")
        fig = SimpleNamespace(data=[x for x in fig.data if x.name != "mine"], layout=fig.layout, frames=fig.frames)
    else:
        if o["again"]:  # an earlier plot, of other data
            other = copy.deepcopy(t)
            for n in other.nodes:
                n.trace = {a: [[v + 1000.5 for v in r] for r in x] if len(x) else x for a, x in n.trace.items()}
            fun(other, **args)
        fig = fun(root, **args)
    return fig, d


# ---------------------------------------------------------------- simulations

def check_sim(c):
    t, ids, dt = tree_of(c)
    p = P()
    o = c["o"]
    before = freeze(t)
    ndim = min(len(r) for a in ids for r in rows(t.root, a)[:1]) if all(rows(t.root, a) for a in ids) else None
    if ndim is None:
        if all(len(rows(t.root, a)) == 0 for a in ids):
            p.simulation_tree(t, x_dim=0, y_dim=1)  # there is nothing to see, but it can be looked at
        return None
    if "3d" in c["kind"]:
        import verse.plotter.plotter3D_new as p3
        fig, d = draw(c, t, p3.simulation_tree_3d, ndim, sample_rate=o["rate"])
    elif c["kind"] == "sim single":
        figs = []
        o = dict(o, rate=1)
        fig, d = None, None
        import plotly.graph_objects as go
        d = [k % ndim for k in o["dims"]][:2]
        fig = go.Figure()
        for i, a in enumerate(ids):
            fig = p.simulation_tree_single(t, a, fig, d[0], d[1], o["colors"][i], range(ndim))
    else:
        fig, d = draw(c, t, p.simulation_tree, ndim, sample_rate=o["rate"], label_mode=o["label"])
    what = "%s of dimensions %s" % (c["kind"], d)
    if freeze(t) != before:
        raise Violation("%s changed the tree" % what)
    pd = o["print"] if o["print"] is not None and c["kind"] != "sim single" else list(range(ndim))
    pd = [k for k in pd if k < ndim]
    want = {}
    for n in t.nodes:
        for a in ids:
            r = rows(n, a)[::o["rate"]]
            if r:
                want.setdefault(a, []).append(([tuple(x[k] for k in d) for x in r], [[fmt(x[k]) for k in pd] for x in r]))
    rest = []
    got = {}
    for l in lines(fig):
        if l["mode"] == "lines":
            got.setdefault(l["group"], []).append((l["pts"], [NUM.findall(str(x)) for x in l["text"]]))
        else:
            rest.append(l)
    for a in set(want) | set(got):
        w, g = want.get(a, []), got.get(a, [])
        for x in w:
            if x[0] not in [y[0] for y in g]:
                raise Violation("%s: the trajectory %s of agent %s is not drawn: %s" % (what, x[0], a, [y[0] for y in g]))
            if x not in g:
                raise Violation("%s: the trajectory %s of agent %s is annotated with %s instead of %s" % (what, x[0], a, [y[1] for y in g if y[0] == x[0]], x[1]))
        for y in g:
            if y not in w:
                raise Violation("%s: the trajectory %s of agent %s is drawn, which it does not have: %s" % (what, y[0], a, [x[0] for x in w]))
    if o["rate"] == 1:
        allowed, seen = marks(rest, t, ids, d, o, what, True)
        if c["kind"] != "sim single":
            hits_shown(allowed, seen, what)
    if c["kind"] == "sim":
        in_ranges(fig, [q for w in want.values() for x in w for q in x[0]], what)
    return ["%s %d nodes" % (c["kind"], min(3, len(t.nodes)))] if any(len(x[0]) > 1 for w in want.values() for x in w) else None


# ---------------------------------------------------------------- reach tubes

def box_of(pts):
    return tuple((min(v), max(v)) for v in zip(*pts))


def boxes(n, a, d, lo=None, hi=None):
    r = rows(n, a)
    return [tuple((min(r[i][k], r[i + 1][k]), max(r[i][k], r[i + 1][k])) for k in d) for i in range(0, len(r) - 1, 2) if (lo is None or r[i][0] >= lo) and (hi is None or r[i + 1][0] <= hi)]


def check_reach(c):
    t, ids, dt = tree_of(c)
    p = P()
    o = c["o"]
    before = freeze(t)
    if not all(rows(t.root, a) for a in ids):
        return None
    ndim = min(len(rows(t.root, a)[0]) for a in ids)
    lo = hi = None
    comb = o["combine"]
    rate = o["rate"]
    if c["kind"] == "slice":
        lo, hi = o["win"][0] * dt - dt * 0.05, o["win"][1] * dt + dt * 0.05
        rate = 1
        fig, d = draw(c, t, p.reachtube_tree_slice, ndim, label_mode=o["label"], combine_rect=comb, t_lower=lo, t_upper=hi)
    elif c["kind"] == "reach 3d":
        import verse.plotter.plotter3D_new as p3
        comb = 1
        fig, d = draw(c, t, p3.reachtube_tree_3d, ndim, sample_rate=rate)
    elif c["kind"] == "reach single":
        import plotly.graph_objects as go
        rate = 1
        d = [k % ndim for k in o["dims"]][:2]
        fig = go.Figure()
        for i, a in enumerate(ids):
            fig = p.reachtube_tree_single(t, a, fig, d[0], d[1], o["colors"][i], combine_rect=comb)
    else:
        if comb != 1:
            rate = 1
        fig, d = draw(c, t, p.reachtube_tree, ndim, sample_rate=rate, label_mode=o["label"], combine_rect=comb)
    what = "%s of dimensions %s" % (c["kind"], d)
    if freeze(t) != before:
        raise Violation("%s changed the tree" % what)
    # what the agents have, node by node
    want = {a: [b for b in (boxes(n, a, d, lo, hi) for n in t.nodes) if b] for a in ids}
    rest, got = [], {}
    for l in lines(fig):
        if l["type"] == "mesh3d":
            continue
        if l["mode"] in ("markers+lines", "lines"):
            got.setdefault(l["color"], []).append(l)
        else:
            rest.append(l)
    if "3d" in c["kind"]:
        check_cubes(fig, got, want, rate, what)
    else:
        groups = list(got.values())
        if len(groups) != len([a for a in ids if want[a]]):
            raise Violation("%s: %d agents have boxes, but %d colours are drawn" % (what, len([a for a in ids if want[a]]), len(groups)))
        # traces of one agent are drawn one after the other, in the order of the agents
        left = [a for a in ids if want[a]]
        for g, (a, w) in match(groups, {a: want[a] for a in left}, comb, rate, what):
            compare(g, w, comb, rate, "%s, agent %s" % (what, a))
    if rate == 1 and lo is None:
        allowed, seen = marks(rest, t, ids, d, o, what, False)
        if o["label"] != "None" and c["kind"] == "reach":
            hits_shown(allowed, seen, what)
    if c["kind"] in ("reach", "slice"):
        in_ranges(fig, [q for w in want.values() for n in w for b in n for q in zip(*b)], what)
    return ["%s %d nodes" % (c["kind"], min(3, len(t.nodes))), "combine %s" % comb] if any(want.values()) else None


def match(groups, want, comb, rate, what):
    """Pairs colours and agents so that they agree, if that is possible."""
    left = dict(want)
    out = []
    for g in groups:
        for a in left:
            try:
                compare(g, left[a], comb, rate, what)
            except Violation:
                continue
            out.append((g, (a, left.pop(a))))
            break
        else:
            out.append((g, None))
    for i, (g, x) in enumerate(out):
        if x is None:
            a = next(iter(left))
            out[i] = (g, (a, left.pop(a)))
    return out


def rect_path(l, what):
    """A closed rectangle, as its bounds."""
    pts = l["pts"]
    b = box_of(pts)
    if len(pts) == 1:
        return b
    (x0, x1), (y0, y1) = b
    cs = {(x0, y0), (x1, y0), (x0, y1), (x1, y1)}
    if pts[0] != pts[-1] or set(pts) != cs or any(p[0] != q[0] and p[1] != q[1] for p, q in zip(pts, pts[1:])):
        raise Violation("%s: the path %s is not the outline of a box" % (what, pts))
    return b


def hulls(bs, k):
    return [tuple((min(b[i][0] for b in g), max(b[i][1] for b in g)) for i in range(len(g[0]))) for g in (bs[j:j + k] for j in range(0, len(bs), k))]


def compare(g, nodes, comb, rate, what):
    if comb == 1:
        got = {rect_path(l, what) for l in g}
        want = {b for n in nodes for b in hulls(n, rate)}
        if got - want:
            raise Violation("%s: the box %s is drawn, which is not there: %s" % (what, min(got - want), sorted(want)))
        if want - got:
            raise Violation("%s: the box %s is not drawn: %s" % (what, min(want - got), sorted(got)))
        return
    # outlines through the corners of several boxes
    got = {q for l in g for q in l["pts"]}
    xs = [{v for n in nodes for b in n for v in b[i]} for i in (0, 1)]
    for q in got:
        if q[0] not in xs[0] or q[1] not in xs[1]:
            raise Violation("%s: the outline goes through %s, with values that no box has" % (what, q))
    for n in nodes:
        for b in n:
            for q in zip(*b):
                if q not in got:
                    raise Violation("%s: the outline leaves out the corner %s of the box %s: %s" % (what, q, b, sorted(got)))


def check_cubes(fig, wires, want, rate, what):
    exp = {b for w in want.values() for n in w for b in hulls(n, rate)}
    mesh = set()
    groups = {}
    for m in fig.data:
        if m.type != "mesh3d":
            continue
        pts = list(zip(*[map(float, seq(v)) for v in (m.x, m.y, m.z)]))
        tri = list(zip(seq(m.i), seq(m.j), seq(m.k)))
        if len(pts) % 8 or len(tri) != len(pts) // 8 * 12:
            raise Violation("%s: a mesh of %d vertices and %d triangles" % (what, len(pts), len(tri)))
        for c in range(len(pts) // 8):
            vs = pts[8 * c:8 * c + 8]
            b = box_of(vs)
            corners = sorted((x, y, z) for x in b[0] for y in b[1] for z in b[2])
            if sorted(vs) != corners:
                raise Violation("%s: the vertices %s are not the corners of a box" % (what, vs))
            mesh.add(b)
            groups.setdefault(m.color, set()).add(b)
            # every side is covered by two triangles
            ts = [x for x in tri if 8 * c <= min(x) and max(x) < 8 * c + 8]
            area = sum(np.linalg.norm(np.cross(np.subtract(pts[j], pts[i]), np.subtract(pts[k], pts[i]))) / 2 for i, j, k in ts)
            w = [h - l for l, h in b]
            full = 2 * (w[0] * w[1] + w[1] * w[2] + w[0] * w[2])
            flat = all(any(len({pts[v][ax] for v in x}) == 1 for ax in range(3)) for x in ts)
            if not flat or abs(area - full) > 1e-9 * (1 + full):
                raise Violation("%s: the triangles %s do not cover the sides of the box %s" % (what, ts, b))
    wire = set()
    for l in sum(wires.values(), []):
        b = box_of(l["pts"])
        ok = {(x, y, z) for x in b[0] for y in b[1] for z in b[2]}
        edges = {frozenset(e) for e in zip(l["pts"], l["pts"][1:]) if e[0] != e[1]}
        full = {frozenset((p, q)) for p in ok for q in ok if sum(u != v for u, v in zip(p, q)) == 1}
        if edges != full:
            raise Violation("%s: the lines %s are not the edges of a box" % (what, l["pts"]))
        wire.add(b)
    for name, got in (("mesh", mesh), ("edges", wire)):
        if got - exp:
            raise Violation("%s (%s): the box %s is drawn, which is not there: %s" % (what, name, min(got - exp), sorted(exp)))
        if exp - got:
            raise Violation("%s (%s): the box %s is not drawn: %s" % (what, name, min(exp - got), sorted(got)))
    per = sorted(sorted({b for n in w for b in hulls(n, rate)}) for w in want.values() if w)
    if sorted(sorted(g) for g in groups.values()) != per:
        raise Violation("%s: by colour, the boxes are %s, by agent %s" % (what, groups, per))


# ---------------------------------------------------------------- animations

def check_anime(c):
    t, ids, dt = tree_of(c)
    p = P()
    o = c["o"]
    sim = c["kind"].startswith("sim")
    if not all(rows(t.root, a) for a in ids):
        return None
    ndim = min(len(rows(t.root, a)[0]) for a in ids)
    before = freeze(t)
    nd = 3
    kw = {}
    if not sim:
        kw["combine_rect"] = 1
    elif o["again"]:
        kw["full_trace"] = True
    o = dict(o, rate=1, wrong=False, again=False, given=False)
    fig, d = draw(dict(c, o=o), t, p.simulation_anime if sim else p.reachtube_anime, ndim, label_mode=o["label"], **kw)
    what = "%s of dimensions %s" % (c["kind"], d)
    if freeze(t) != before:
        raise Violation("%s changed the tree" % what)
    want = {}
    for n in t.nodes:
        for a in ids:
            r = rows(n, a)
            for i in range(0, len(r), 1 if sim else 2):
                s = want.setdefault(round(r[i][0], nd), {}).setdefault(a if sim else "", set())
                s.add(tuple(r[i][k] for k in d) if sim else tuple((min(r[i][k], r[i + 1][k]), max(r[i][k], r[i + 1][k])) for k in d))
    got = {}
    for f in fig.frames:
        at = got.setdefault(float(f.name), {})
        if sim:
            for x in f.data:
                at.setdefault(x.name, set()).update(zip(map(float, seq(x.x)), map(float, seq(x.y))))
        else:
            for s in f.layout.shapes:
                at.setdefault("", set()).add(((min(s.x0, s.x1), max(s.x0, s.x1)), (min(s.y0, s.y1), max(s.y0, s.y1))))
    for k in sorted(set(want) | set(got)):
        w, g = want.get(k, {}), got.get(k, {})
        if w != g:
            raise Violation("%s: the frame for time %s shows %s instead of %s" % (what, k, g, w))
    steps = [float(s.label) for s in fig.layout.sliders[0].steps] if fig.layout.sliders else []
    if sorted(set(steps)) != sorted(want):
        raise Violation("%s: the slider has steps for the times %s instead of %s" % (what, steps, sorted(want)))
    return [c["kind"]] if len(want) > 1 else None


# ---------------------------------------------------------------- videos

@st.composite
def videos(draw):
    c = draw(cases(["reach video"]))
    c["v"] = {"frames": draw(st.sampled_from([None, None, 1, 2, 3, 5])), "slider": draw(st.sampled_from([100, 1, 2, None])), "legend": draw(st.booleans())}
    return c


def check_video(c):
    t, ids, dt = tree_of(c)
    p = P()
    o = dict(c["o"], wrong=False, again=False, given=False)
    if not all(rows(t.root, a) for a in ids):
        return None
    ndim = min(len(rows(t.root, a)[0]) for a in ids)
    before = freeze(t)
    fig, d = draw(dict(c, o=o), t, p.reachtube_tree_video, ndim, output_path=None, max_frame_steps=c["v"]["frames"], max_slider_steps=c["v"]["slider"], show_legend=c["v"]["legend"])
    what = "video of dimensions %s" % d
    if freeze(t) != before:
        raise Violation("%s changed the tree" % what)
    at = {}
    for n in t.nodes:
        for a in ids:
            r = rows(n, a)
            for i in range(0, len(r) - 1, 2):
                at.setdefault(round(r[i][0], 3), set()).add(tuple((min(r[i][k], r[i + 1][k]), max(r[i][k], r[i + 1][k])) for k in d))
    names = [float(f.name) for f in fig.frames]
    if sorted(set(names)) != names or not set(names) <= set(at):
        raise Violation("%s: the frames are for the times %s, the tree has %s" % (what, names, sorted(at)))
    k = c["v"]["frames"]
    if len(names) != (len(at) if k is None else min(k, len(at))) or (k != 1 and names[-1] != max(at)):
        raise Violation("%s: with at most %s frames, those of the times %s are made of %s" % (what, k, names, sorted(at)))
    for f, tm in zip(fig.frames, names):
        shown = set()
        for v, tr in zip(f.data, fig.data):
            if v.visible is not False:
                shown.add(rect_path({"pts": list(zip(map(float, tr.x), map(float, tr.y)))}, what))
        want = {b for x in at if x <= tm for b in at[x]}
        if shown != want:
            raise Violation("%s: the frame for time %s shows %s instead of %s" % (what, tm, sorted(shown), sorted(want)))
    in_ranges(fig, [q for s in at.values() for b in s for q in zip(*b)], what)
    return ["%d frames" % min(3, len(names))] if len(names) > 1 else None


# ---------------------------------------------------------------- maps

@st.composite
def maps(draw):
    lanes = [{"segs": draw(st.lists(st.one_of(c17.straight(), c17.circular()), min_size=1, max_size=3)), "speed": draw(st.sampled_from([None, 5, 10, 30.5]))} for _ in range(draw(st.integers(1, 3)))]
    return {"lanes": lanes, "fill": draw(st.sampled_from(["lines", "fill", "detailed", "detailed"]))}


def check_map(c):
    from verse.map import LaneMap
    from verse.map.lane import Lane
    mp = LaneMap([Lane("T%d" % i, [c17.make(g, "s%d" % j) for j, g in enumerate(l["segs"])], l["speed"]) for i, l in enumerate(c["lanes"])])
    fig = P().draw_map(mp, fill_type=c["fill"])
    left = [(ref, g, l) for l in c["lanes"] for g in l["segs"] for ref in [c17.Ref(g)]]
    shapes = [x for x in fig.data if x.mode == "lines"]
    if len(shapes) != len(left):
        raise Violation("%d lane segments are drawn, the map has %d" % (len(shapes), len(left)))
    for x, (ref, g, l) in zip(shapes, left):
        pts = np.array([seq(x.x), seq(x.y)], float).T
        w = g["width"] / 2
        tol = 1e-6 * (1 + np.max(np.abs(pts)))
        if np.hypot(*(pts[0] - pts[-1])) > tol:
            raise Violation("the outline of the segment %s is not closed: %s" % (g, pts))
        need = [ref.position(s, v) for s in (0.0, ref.length) for v in (-w, w)]
        for q in need:
            if min(np.hypot(*(pts - q).T)) > tol:
                raise Violation("the corner %s of the segment %s is not on its outline %s" % (q, g, pts))
        lon = np.linspace(0, ref.length, 400)
        if g["type"] == "C":
            dist = np.hypot(*(pts - np.array(g["center"], float)).T)
            off = np.minimum(np.abs(dist - (g["radius"] - w)), np.abs(dist - (g["radius"] + w)))
            if off.max() > tol:
                raise Violation("the outline of the segment %s has a point %s away from its sides" % (g, off.max()))
            gap = np.hypot(*np.diff(pts, axis=0).T)
            step = (g["radius"] + w) * abs(g["end_phase"] - g["start_phase"]) / 40
            if (gap > np.maximum(step, g["width"] + tol)).any():
                raise Violation("the outline of the segment %s cuts a corner" % g)
        else:
            if len(pts) != 5:
                raise Violation("the outline of the straight segment %s has %d points" % (g, len(pts)))
            for u, v in zip(pts, pts[1:]):  # along a side or across an end
                if min(abs(np.hypot(*(u - v)) - ref.length), abs(np.hypot(*(u - v)) - g["width"])) > tol:
                    raise Violation("the outline of the segment %s is crossed: %s" % (g, pts))
        in_ranges(fig, [tuple(q) for q in pts], "map")
    if c["fill"] == "detailed":
        # faster lanes are darker, lanes with the same limit look the same
        seen = {}
        for x, (ref, g, l) in zip(shapes, left):
            seen.setdefault(l["speed"], set()).add((x.fill, x.fillcolor))
        if any(len(v) > 1 for v in seen.values()):
            raise Violation("lanes with the same speed limit are drawn differently: %s" % seen)
        vals = [next(iter(v)) for v in seen.values()]
        if len(set(vals)) != len(vals):
            raise Violation("lanes with different speed limits are drawn alike: %s" % seen)
    elif any((x.fill == "toself") != (c["fill"] == "fill") for x in shapes):
        raise Violation("drawing mode %s, fills %s" % (c["fill"], [x.fill for x in shapes]))
    return [c["fill"]] if len(left) > 1 else None


# ---------------------------------------------------------------- tree graphs

@st.composite
def graphs(draw):
    c = draw(cases(["sim", "reach"]))
    c["graph"] = draw(st.sampled_from(["dot", "networkx", "networkx"]))
    c["font"] = draw(st.sampled_from([None, "Courier"]))
    return c


def blue(color):
    from matplotlib import colors
    r, g, b = colors.to_rgb(color)
    return b - r


def check_graph(c):
    t, ids, dt = tree_of(c)
    if "tree" in c:
        for n in t.nodes:
            n.init = {a: (rows(n, a) or [[0.0]])[0][1:] for a in ids}
    before = freeze(t)
    edges = {(n.id, k.id): [a for a in ids if tuple(n.mode[a]) != tuple(k.mode[a])] for n in t.nodes for k in n.child}
    labels = None
    if c["graph"] == "dot":
        import os, tempfile
        import xml.etree.ElementTree as ET
        with tempfile.TemporaryDirectory() as f:
            t.visualize_dot(os.path.join(f, "tree"), "svg", c["font"])
            if not os.path.exists(os.path.join(f, "tree.dot")):
                raise Violation("the graph's source is not saved: %s" % os.listdir(f))
            svg = ET.parse(os.path.join(f, "tree.svg")).getroot()
        ns = "{http://www.w3.org/2000/svg}"
        got, col, labels = set(), {}, {}
        for g in svg.iter(ns + "g"):
            title = g.find(ns + "title")
            if g.get("class") == "node":
                got.add(int(title.text))
                col[int(title.text)] = blue(next(g.iter(ns + "ellipse")).get("stroke"))
                if [x.text for x in g.iter(ns + "text")] != [title.text]:
                    raise Violation("node %s is labelled %s" % (title.text, [x.text for x in g.iter(ns + "text")]))
            elif g.get("class") == "edge":
                labels[tuple(map(int, title.text.split("->")))] = [y for x in g.iter(ns + "text") for y in (x.text or "").split(", ")]
        drawn = set(labels)
    else:
        import matplotlib
        matplotlib.use("Agg", force=True)
        import matplotlib.pyplot as plt
        from matplotlib.collections import LineCollection, PathCollection
        plt.close("all")
        show, plt.show = plt.show, lambda *a, **k: None
        try:
            t.visualize()
        finally:
            plt.show = show
        ax = plt.gcf().axes[0]
        at = {}
        for x in ax.texts:
            m = re.fullmatch(r"\((\d+), ([^)]*)\)", x.get_text())
            if not m:
                raise Violation("unexpected label %r" % x.get_text())
            at[int(m[1])] = (tuple(np.round(x.get_position(), 9)), float(m[2]))
        got = set(at)
        for n in t.nodes:
            if n.id in at and abs(at[n.id][1] - n.start_time) > 1e-9:
                raise Violation("node %s starts at %s, the graph says %s" % (n.id, n.start_time, at[n.id][1]))
        where = {v[0]: k for k, v in at.items()}
        dots = [x for x in ax.collections if isinstance(x, PathCollection)]
        col = {}
        for x in dots:
            cs = x.get_facecolors()
            for i, q in enumerate(x.get_offsets()):
                col[where[tuple(np.round(q, 9))]] = blue(cs[i % len(cs)][:3])
        drawn = set()
        for x in ax.collections:
            if isinstance(x, LineCollection):
                for q in x.get_segments():
                    a, b = (where[tuple(np.round(v, 9))] for v in (q[0], q[-1]))
                    drawn.add((a, b) if (a, b) in edges else (b, a))
        plt.close("all")
    if freeze(t) != before:
        raise Violation("drawing the graph changed the tree")
    if got != {n.id for n in t.nodes} or set(col) != got:
        raise Violation("the graph shows the nodes %s, coloured %s; the tree has %s" % (sorted(got), sorted(col), sorted(n.id for n in t.nodes)))
    if drawn != set(edges):
        raise Violation("the graph shows the edges %s, the tree has %s" % (sorted(drawn), sorted(edges)))
    if labels is not None:
        for e, want in edges.items():
            if sorted(labels[e]) != sorted(want):
                raise Violation("the transition %s is labelled %s, the modes of %s change" % (e, labels[e], want))
    for a, b in edges:
        if col[b] > col[a] + 0.02:
            raise Violation("node %s comes after %s, but is drawn as older" % (b, a))
    return [c["graph"]] if edges else None


# ---------------------------------------------------------------- star sets

@st.composite
def star_trees(draw):
    n = draw(st.integers(2, 3))
    some = c21.stars(empty=False).filter(lambda s: len(s["c"]) == n and len(s["V"]) <= 3)
    ids = ["a0", "a1"][:draw(st.sampled_from([1, 1, 2]))]
    nodes = []
    for i in range(draw(st.sampled_from([1, 1, 2, 3]))):
        sets = {a: [draw(some) for _ in range(draw(st.integers(1, 3)))] for a in ids}
        if i and draw(st.integers(0, 5)) == 0:  # not expanded
            sets = {a: x for a, x in sets.items() if a != draw(st.sampled_from(ids))}
        nodes.append({"sets": sets, "above": draw(st.integers(0, i - 1)) if i else None})
    for i, m in enumerate(nodes):  # nodes that were not expanded have no children
        up = m["above"]
        while up is not None and len(nodes[up]["sets"]) < len(ids):
            up = nodes[up]["above"]
        m["above"] = up
    x = draw(st.integers(0, n - 1))
    return {"nodes": nodes, "ids": ids, "dims": [x, draw(st.integers(0, n - 1).filter(lambda y: y != x))], "rate": draw(st.sampled_from([1, 1, 2, 3, 100])), "tree": draw(st.booleans())}


def check_stars(c):
    """Each of an agent's star sets is drawn as its outline in the chosen dimensions, in one colour per agent."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode, AnalysisTreeNodeType
    from verse.plotter.plotterStar import plot_reachtube_stars
    made, pts = [], {a: [] for a in c["ids"]}
    groups = {a: [] for a in c["ids"]}
    for i, n in enumerate(c["nodes"]):
        trace = {a: [[0.5 * k, c21.make(s)] for k, s in enumerate(x)] for a, x in n["sets"].items()}
        made.append(AnalysisTreeNode(trace=trace, init={}, child=[], mode={a: ("A",) for a in c["ids"]}, static={}, uncertain_param={}, agent={a: c25._Agent() for a in c["ids"]}, height=0, assert_hits={},
                                     type=AnalysisTreeNodeType.REACH_TUBE, ndigits=10, start_time=0.0, id=i))
        if i:
            made[n["above"]].child.append(made[i])
        for a, x in n["sets"].items():
            for s in x:
                al = c21.corners(s["C"], s["g"])
                if not al:
                    return None
                pts[a].append([[float(y) for y in c21.at(s, w)] for w in al])
            groups[a].append(list(range(len(pts[a]) - len(x), len(pts[a]))))

    def look():
        return [[n.id, {a: [[t, c21.state(s)] for t, s in x] for a, x in n.trace.items()}, [k.id for k in n.child]] for n in made]
    before = look()
    plt.close("all")
    try:
        plot_reachtube_stars(AnalysisTree(made[0]) if c["tree"] else made[0], None, c["dims"][0], c["dims"][1], c["rate"])
        drawn = [(str(matplotlib.colors.to_hex(l.get_color())), [float(x) for x in l.get_xdata()], [float(y) for y in l.get_ydata()]) for k in plt.get_fignums() for ax in plt.figure(k).axes for l in ax.lines]
    finally:
        plt.close("all")
    if look() != before:
        raise Violation("plotting changed the tree")

    def fits(l, p):
        try:
            c21.boundary(l[1], l[2], [[q[c["dims"][0]], q[c["dims"][1]]] for q in p], "")
        except Violation:
            return False
        return True
    fit = {a: [[fits(l, p) for l in drawn] for p in pts[a]] for a in c["ids"]}
    for i, l in enumerate(drawn):
        if not any(fit[a][k][i] for a in c["ids"] for k in range(len(pts[a]))):
            raise Violation("the plot of dimensions %s has an outline of %d points from %s that is no set of an agent" % (c["dims"], len(l[1]), [l[1][0], l[2][0]]))
    shown = {a: {l[0] for i, l in enumerate(drawn) if any(f[i] for f in fit[a])} for a in c["ids"]}
    if len(c["ids"]) == 2 and not any(fit["a0"][k][i] and fit["a1"][j][i] for k in range(len(pts["a0"])) for j in range(len(pts["a1"])) for i in range(len(drawn))):
        if shown["a0"] & shown["a1"]:
            raise Violation("sets of both agents have colour %s" % (shown["a0"] & shown["a1"]))
    for a in c["ids"]:
        for g in groups[a]:
            there = [k for k in g if any(fit[a][k])]
            want = -(-len(g) // c["rate"])
            if len(there) < want:
                raise Violation("dimensions %s, one set in %d shown: %d of the %d sets of a node of %s are drawn" % (c["dims"], c["rate"], len(there), len(g), a))
    return ["sampled" if c["rate"] > 1 else "all", "nodes=%d" % len(made), "agents=%d" % len(c["ids"])]


def subs():
    return [Sub("simulations", cases(["sim", "sim", "sim 3d", "sim single"]), check_sim, 500), Sub("reach tubes", cases(["reach", "reach", "reach 3d", "reach single", "slice"]), check_reach, 450),
            Sub("animations", cases(["sim anime", "reach anime"]), check_anime, 150),
            Sub("videos", videos(), check_video, 100), Sub("maps", maps(), check_map, 200), Sub("graphs", graphs(), check_graph, 200), Sub("star sets", star_trees(), check_stars, 150)]
