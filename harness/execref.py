"""Reference executor of scenarios of RateAgents: the hybrid execution computed directly."""
import itertools

from . import dl, world


from .core import TooBig


class RefSim:
    def __init__(self, spec, horizon, dt, max_height, cap=60):
        self.spec, self.T, self.dt, self.H, self.cap = spec, horizon, dt, max_height, cap
        self.N = int(round(horizon / dt))
        self.ids = [a["id"] for a in spec["agents"]]
        self.ag = {a["id"]: a for a in spec["agents"]}
        self.lay = {a["id"]: (a.get("lay") or a["prog"]["lay"]) for a in spec["agents"]}
        self.count = 0
        self.tags = set()

    def rate(self, aid, modes):
        a = self.ag[aid]
        return world.rates(a, modes)

    def run(self):
        modes = {a["id"]: tuple(a["mode"]) for a in self.spec["agents"]}
        init = {a["id"]: [float(v) for v in a["init"][0]] for a in self.spec["agents"]}
        return self.node(0, modes, init, {}, 0)

    def flow(self, aid, modes, x0, i0):
        r = self.rate(aid, modes)
        return [[x + (k * self.dt) * c for x, c in zip(x0, r)] for k in range(self.N - i0 + 1)]

    def step(self, aid, states, modes):
        """(failed labels, set of (modes, cont)) for agent aid in the given joint state."""
        a = self.ag[aid]
        if not a.get("prog"):
            return [], set()
        lay = a["prog"]["lay"]
        objs = {}
        for b in self.ids:
            objs[b] = world.obj(lay, states[b], modes[b], self.ag[b].get("static") or ())
        others = [objs[b] for b in self.ids if b != aid]
        fails, trans = dl.Ref(a["prog"], objs[aid], others).transitions()
        ok = {t for t in trans if self.permits(lay, modes[aid], t[0])}
        if len(ok) < len(trans):
            self.tags.add("refused by the map")
        return fails, ok

    @staticmethod
    def permits(lay, src, dest):
        """On a road, a change of track or mode has to be one of the map's"""
        if not lay.get("road") or tuple(src) == tuple(dest):
            return True
        at = {m: i for i, (m, _) in enumerate(lay["disc"])}
        return dl.RoadRef(lay["road"]).h(src[at["track_mode"]], src[at["agent_mode"]], dest[at["agent_mode"]]) == dest[at["track_mode"]]

    def node(self, i0, modes, init, inherited, height):
        """i0: index of the node's first sample on the absolute grid."""
        self.count += 1
        if self.count > self.cap:
            raise TooBig()
        n = {"i0": i0, "modes": modes, "init": init, "trace": dict(inherited), "child": [], "asserts": {},
             "height": height}
        if (self.H is not None and height >= self.H - 1) or i0 >= self.N:
            n["expanded"] = False
            return n
        n["expanded"] = True
        tr = n["trace"]
        for aid in self.ids:
            if aid not in tr:
                tr[aid] = self.flow(aid, modes[aid], init[aid], i0)
        for k in range(self.N - i0 + 1):
            states = {aid: tr[aid][k] for aid in self.ids}
            fails, trans = {}, {}
            for aid in self.ids:
                f, t = self.step(aid, states, modes)
                if f:
                    fails[aid] = f
                if t:
                    trans[aid] = t
            if fails:
                n["asserts"] = fails
                n["assert_idx"] = k
                if not self.spec.get("continue"):
                    n["trace"] = {aid: t[:k] for aid, t in tr.items()}
                return n
            if trans:
                break
        else:
            return n
        full = tr
        n["trace"] = {aid: t[: k + 1] for aid, t in full.items()}
        who = sorted(trans)
        for combo in itertools.product(*[sorted(trans[w]) for w in who]):
            m2 = dict(modes)
            init2 = {}
            inh = {}
            for w, (md, ct) in zip(who, combo):
                m2[w] = md
                init2[w] = list(ct)
            for aid in self.ids:
                if aid not in init2:
                    inh[aid] = full[aid][k:]
                    init2[aid] = list(full[aid][k])
            n["child"].append(self.node(i0 + k, m2, init2, inh, height + 1))
        if len(who) > 1:
            self.tags.add("simultaneous agents")
        if len(n["child"]) > 1:
            self.tags.add("branching")
        if k == 0:
            self.tags.add("immediate jump")
        if i0 + k == self.N:
            self.tags.add("jump at horizon")
        return n


def norm_labels(ls):
    return sorted("<assert>" if (l is None or l.startswith("<assert")) else l for l in ls)


def compare(real, ref, dt, tol=0.0, path="root", ids=None):
    """Returns None or a description of the first difference."""
    import numpy as np
    t0 = ref["i0"] * dt
    if abs(real.start_time - t0) > 1e-9:
        return "%s: start time %s, expected %s" % (path, real.start_time, t0)
    if real.height != ref["height"]:
        return "%s: height %s, expected %s" % (path, real.height, ref["height"])
    if {a: tuple(m) for a, m in real.mode.items()} != ref["modes"]:
        return "%s: modes %s, expected %s" % (path, real.mode, ref["modes"])
    for a, x in ref["init"].items():
        got = [float(v) for v in real.init[a]]
        if len(got) != len(x) or any(abs(g - w) > tol for g, w in zip(got, x)):
            return "%s: initial state of %s is %s, expected %s" % (path, a, got, x)
    ha = {a: norm_labels(l) for a, l in (real.assert_hits or {}).items()}
    hw = {a: norm_labels(l) for a, l in ref["asserts"].items()}
    if ha != hw:
        return "%s: assertions reported %s, expected %s" % (path, real.assert_hits, ref["asserts"])
    if ref["expanded"]:
        for a, w in ref["trace"].items():
            if a not in real.trace:
                return "%s: no trace for %s" % (path, a)
            g = np.asarray(real.trace[a], dtype=float)
            if len(g) != len(w):
                return "%s: trace of %s has %d samples, expected %d" % (path, a, len(g), len(w))
            for k in range(len(w)):
                if abs(g[k][0] - (t0 + k * dt)) > max(1e-9, tol):
                    return "%s: sample %d of %s is at time %r, expected %r" % (path, k, a, g[k][0], t0 + k * dt)
                if len(g[k]) != 1 + len(w[k]) or any(abs(p - q) > tol for p, q in zip(g[k][1:], w[k])):
                    return "%s: %s at time %s is %s, expected %s" % (path, a, t0 + k * dt, g[k][1:].tolist(), w[k])
    if len(real.child) != len(ref["child"]):
        return "%s: %d successors, expected %d (real %s; expected %s)" % (
            path, len(real.child), len(ref["child"]), [(c.mode, c.init) for c in real.child],
            [(c["modes"], c["init"]) for c in ref["child"]])

    def key(modes, init):
        return tuple(sorted((a, tuple(m), tuple(round(float(v), 6) + 0.0 for v in init[a])) for a, m in modes.items()))

    byk = {}
    for c in real.child:
        byk.setdefault(key(c.mode, c.init), []).append(c)
    for c in ref["child"]:
        k = key(c["modes"], c["init"])
        if not byk.get(k):
            return "%s: no successor %s %s (real %s)" % (path, c["modes"], c["init"], [(d.mode, d.init) for d in real.child])
        d = compare(byk[k].pop(), c, dt, tol, path + "/" + "+".join("".join(m) for m in c["modes"].values()))
        if d:
            return d
    return None
