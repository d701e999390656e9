"""C12: parallel analysis gives the same answer as sequential analysis."""
import contextlib, copy, sys
from hypothesis import strategies as st

from .. import dl, world, execref, rayless
from ..core import Sub, Violation, sized
from . import c02, c07

PROPERTY = "C12"
RULE = ("A case is a scenario, a look-ahead and an order in which the dispatched tasks complete; non-trivial when at least two tasks are "
        "pending at the same time, so that the order matters.")
ASSUMPTIONS = ["ray is replaced by a stand-in that serialises arguments and results with ray's pickler and completes tasks in the generated order"]


@contextlib.contextmanager
def stand_in(rt):
    import verse.analysis.verifier as v
    import verse.analysis.simulator as s
    m, old = rt.module(), sys.modules.get("ray")
    saved = [(x, x.ray) for x in (v, s) if hasattr(x, "ray")]
    sys.modules["ray"] = m
    for x, _ in saved:
        x.ray = m
    try:
        yield
    finally:
        sys.modules["ray"] = old
        for x, r in saved:
            x.ray = r


def num(v):
    import numpy as np
    return np.round(np.asarray(v, dtype=float), 9).tolist()


def canon(n):
    """Content of a tree, independent of the order of siblings and of ids."""
    kids = sorted((canon(c) for c in n.child), key=repr)
    return [sorted((a, list(m)) for a, m in n.mode.items()), sorted((a, num(x)) for a, x in n.init.items()),
            round(n.start_time, 9), n.height, sorted((a, sorted(l)) for a, l in (n.assert_hits or {}).items()),
            sorted((a, num(t)) for a, t in n.trace.items()), sorted((a, list(s)) for a, s in n.static.items()), str(n.type), kids]


def diff(a, b, path="root"):
    names = ["modes", "initial states", "start time", "height", "assertions", "traces", "static parameters", "type"]
    for i, w in enumerate(names):
        if a[i] != b[i]:
            return "%s: %s %s in parallel, %s sequentially" % (path, w, str(a[i])[:600], str(b[i])[:600])
    if len(a[8]) != len(b[8]):
        return "%s: %d successors in parallel, %d sequentially" % (path, len(a[8]), len(b[8]))
    for x, y in zip(a[8], b[8]):
        d = diff(x, y, path + "/" + "+".join("".join(m) for _, m in y[0]))
        if d:
            return d
    return None


def check(case):
    veri = case["veri"]
    spec = {"agents": case["agents"]}
    T, dt, H = case["n"] * case["dt"], case["dt"], case["H"]
    kw = {"incremental": case["incremental"], "try_local": case["local"]}
    if veri:
        kw["init_seg_length"] = case.get("seg", 1000)
    if not veri:
        execref.RefSim(spec, T, dt, H).run()  # bounds the size

    def go(sc):
        out = []
        for _ in range(2 if case["incremental"] else 1):
            out.append(sc.verify(T, dt, max_height=H) if veri else sc.simulate(T, dt, max_height=H))
        return out

    with sized(4.0):
        seq = go(world.build(spec, world.config(**kw)))
    rt = rayless.Runtime(case["order"])
    with stand_in(rt):
        par = go(world.build(spec, world.config(parallel=True, parallel_sim_ahead=case["ahead"], parallel_ver_ahead=case["ahead"], **kw)))
    for i, (p, s) in enumerate(zip(par, seq)):
        d = diff(canon(p.root), canon(s.root))
        if d:
            raise Violation("run %d (%s, look-ahead %d): %s" % (i + 1, "verify" if veri else "simulate", case["ahead"], d))
        if len(p.nodes) != len(s.nodes) or len({n.id for n in p.nodes}) != len(p.nodes):
            raise Violation("run %d: %d nodes with ids %s in parallel, %d sequentially" % (i + 1, len(p.nodes), [n.id for n in p.nodes], len(s.nodes)))
    if rt.most < 2:
        return None
    return ["verify" if veri else "simulate", "ahead=%d" % case["ahead"]] + (["incremental"] if case["incremental"] else [])


def fork(draw, prog):
    """Adds alternatives under the same guard, so that executions branch."""
    out = []
    for s in prog["body"]:
        out.append(s)
        if s[0] != "if" or len(s[1]) != 1 or draw(st.integers(0, 3)) == 0:
            continue
        guard, acts = copy.deepcopy(s[1][0])
        m = guard[1][0][4] if guard[0] == "and" and guard[1][0][0] == "meq" else None
        for a in acts:
            if a[0] == "mode":
                more = [q for q in prog["lay"]["modes"][a[1]] if q not in (m, a[3])]
                if more and m:
                    a[3] = draw(st.sampled_from(more))
            elif a[0] == "set":
                a[2] = ["+", a[2], ["num", 0.5]]
        if not any(a[0] == "set" for a in acts) and draw(st.booleans()):
            acts.append(["set", draw(st.sampled_from(prog["lay"]["cont"])), ["num", draw(st.integers(-4, 4)) / 4 + 0.125]])
        out.append(["if", [[guard, acts]], None])
    prog["body"] = out


@st.composite
def cases(draw, veri):
    if veri:
        c = draw(c07.cases(draw(st.booleans()), road=draw(st.integers(0, 4)) == 0))
        c.pop("pts")
        c["H"] = min(c["H"], 4)
    else:
        c = draw(c02.cases(feats={"asserts": True} if draw(st.integers(0, 3)) == 0 else None, hs=(6, 5, 4), road=draw(st.integers(0, 4)) == 0))
    for a in c["agents"]:
        if a["prog"] and draw(st.integers(0, 4)):
            fork(draw, a["prog"])
    c.update(veri=veri, ahead=draw(st.sampled_from([1, 2, 3, 4, 8])),
             incremental=not veri and draw(st.integers(0, 4)) == 0, local=draw(st.booleans()),
             order=draw(st.lists(st.integers(0, 7), min_size=1, max_size=12)))
    return c


def subs():
    return [Sub("simulate", lambda: cases(False), check, 2000), Sub("verify", lambda: cases(True), check, 700)]
