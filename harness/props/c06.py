"""C06: resets over boxes."""
import itertools

import z3
from hypothesis import strategies as st

from .. import dl, world, sym
from ..core import Sub, Violation, HarnessError
from . import c05

PROPERTY = "C06"
RULE = ("A case is a decision logic with up to 6 guarded resets over 1-3 agents with boxes, modes and constant-rate flows; "
        "non-trivial when at least one transition that assigns a continuous variable an expression over the state is taken "
        "from a box of positive width.")
ASSUMPTIONS = ["reset expressions are polynomials of degree at most one in each variable (sums, differences, products with "
               "constants, products of two different variables), so that the exact range over a box is the range of its corners",
               "the boxes are those the tree reports for each step; guards within 1e-6 of deciding either way are not judged"]

TOL = 1e-6


class G6(dl.Gen):
    def reset(self):
        var = self.pick(self.lay["cont"])
        k = self.int(0, 9)
        objs = self.objs()
        if k == 0:
            e = ["num", self.const()]
        elif k <= 3:  # each variable at most once
            vs = [["attr", o, c] for o in objs for c in self.lay["cont"]]
            n = self.int(1, min(3, len(vs)))
            pick = []
            for _ in range(n):
                v = self.pick(vs)
                vs.remove(v)
                pick.append(v)
            e = None
            for v in pick:
                c = self.pick([1.0, -1.0, 2.0, 0.5, -0.5, 3.0])
                t = v if c == 1.0 else ["neg", v] if c == -1.0 else ["*", ["num", c], v] if self.int(0, 1) else ["*", v, ["num", c]]
                e = t if e is None else [self.pick("+-"), e, t]
            if self.int(0, 1):
                e = [self.pick("+-"), e, ["num", self.const()]]
        elif k == 4 and len(objs) * len(self.lay["cont"]) > 1:
            vs = [["attr", o, c] for o in objs for c in self.lay["cont"]]
            a = self.pick(vs)
            vs.remove(a)
            b = self.pick(vs)
            e = ["*", a, b]
            if self.int(0, 1):
                e = [self.pick("+-"), e, self.pick(vs)] if self.int(0, 1) else ["-", ["num", self.const()], e]
        elif k == 5 and self.other == "list":
            e = self.sumexpr(self.num(objs, 1))
        else:
            e = self.num(objs, 2)
        if e[0] == "loc" or e[0] == "attr" and e[1] == "ego" and e[2] == var:
            e = ["+", e, ["num", 1.0]]
        return ["set", var, e]

    def assign(self):
        return self.reset() if self.int(0, 2) else dl.Gen.assign(self)

    def prog(self):
        self.make_helpers()
        body = []
        if self.f["local"] and self.int(0, 2) == 0:
            body.append(self.let(2))
        for _ in range(self.int(1, 2)):
            cond = self.cmp(self.objs(), 1) if self.int(0, 1) else self.bool(self.objs(), 1)
            acts = [self.reset()]
            if self.int(0, 3):
                mv, en = self.pick(self.lay["disc"])
                acts.append(["mode", mv, en, self.pick(self.lay["modes"][mv])])
            if self.int(0, 1):
                acts.append(self.reset())
            if self.int(0, 3) == 0:
                acts.append(["if", [[self.cmp(self.objs(), 1), [self.assign()]]], None])
            body.append(["if", [[cond, acts]], [self.assign()] if self.int(0, 4) == 0 else None])
        return {"lay": self.lay, "other": self.other, "consts": self.consts, "helpers": self.helpers, "body": body}


@st.composite
def cases(draw):
    lay = draw(dl.layouts(static=True))
    other = draw(st.sampled_from(["list", "single"]))
    nag = 2 if other == "single" else draw(st.sampled_from([1, 2, 3]))
    prog = G6(draw, lay, other, {"eqs": False}).prog()
    ags = []
    mv0 = lay["disc"][0][0]
    still = draw(st.booleans())
    for i in range(nag):
        ags.append({"id": draw(st.sampled_from(["car", "b", "z"])) + str(i), "prog": prog if i == 0 else None, "lay": lay,
                    "rates": {m: [0.0 if still else draw(st.integers(-4, 4)) / 2 for _ in lay["cont"]] for m in lay["modes"][mv0]}, "key": 0,
                    "init": c05.boxes(draw, lay["cont"]), "mode": [draw(st.sampled_from(lay["modes"][m])) for m, _ in lay["disc"]],
                    "static": [draw(st.sampled_from(dl.KINDS))] if lay.get("static") else []})
    k = draw(st.integers(0, nag - 1))
    return {"agents": ags[-k:] + ags[:-k] if k else ags, "n": draw(st.sampled_from([1, 2, 4]))}


def once(e, seen):
    """Does every variable occur at most once?  (Values are z3 terms.)"""
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        if e.get_id() in seen:
            return False
        seen.add(e.get_id())
        return True
    return all(once(c, seen) for c in e.children())


def value(e, sub):
    r = z3.simplify(z3.substitute(e, *sub))
    return r.numerator_as_long() / r.denominator_as_long()


def free(e, acc):
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        acc[e.decl().name()] = e
    for c in e.children():
        free(c, acc)
    return acc


def rng(e, box):
    """Exact range over a box of a polynomial of degree at most one in each variable."""
    vs = free(e, {})
    out = [value(e, [(vs[n], c05.fr(v)) for n, v in zip(vs, combo)])
           for combo in itertools.product(*[box[n] for n in vs])]
    return min(out), max(out)


def degree_ok(e, vs):
    """At most degree one in each variable: the second difference vanishes (checked by z3)."""
    for v in vs.values():
        d = z3.substitute(e, (v, v + 2)) - 2 * z3.substitute(e, (v, v + 1)) + e
        if not z3.is_true(z3.simplify(d == 0, som=True)):
            return False
    return True


def check(case):
    ags = case["agents"]
    ego, lay, vs, s = c05.symbolic(case)
    _, alts = s.paths()
    names = [c for c in lay["cont"]]
    for c in names:
        for _, v in alts.get(c, []):
            if z3.is_expr(v) and not degree_ok(v, free(v, {})):
                return None
    dt = 0.25
    tree = world.build(case).verify(case["n"] * dt, dt, max_height=2)
    root = tree.root
    eid = ego["id"]
    steps = len(root.trace[eid]) // 2
    may = []
    for i in range(steps):
        box, wide, inner = {}, [], []
        for a in ags:
            lo, hi = [], []
            for r in root.trace[a["id"]][2 * i: 2 * i + 2]:
                lo = r[1:] if not lo else [min(p, q) for p, q in zip(lo, r[1:])]
                hi = r[1:] if not hi else [max(p, q) for p, q in zip(hi, r[1:])]
            for v, p, q in zip(vs[a["id"]], lo, hi):
                box[v.decl().name()] = (p, q)
            wide += c05.in_box(vs[a["id"]], [p - TOL for p in lo], [q + TOL for q in hi])
            inner += c05.in_box(vs[a["id"]], [min(p + TOL, (p + q) / 2) for p, q in zip(lo, hi)],
                                [max(q - TOL, (p + q) / 2) for p, q in zip(lo, hi)])
        conds = {}
        for var, al in alts.items():
            for c, v in al:
                m = sym.check(wide + [c])
                if m is None:
                    return None
                if m:
                    conds.setdefault(c.get_id(), (c, []))[1].append((var, v))
        # which alternatives can be enabled together, and nothing else: for some state of the box for sure (inner),
        # or at most up to tolerance (wide)
        cells = [([], [])]
        for c, vals in conds.values():
            nxt = []
            for on, cs in cells:
                for more, extra in ((vals, c), ([], z3.Not(c))):
                    m = sym.check(wide + cs + [extra])
                    if m is None:
                        return None
                    if m:
                        nxt.append((on + more, cs + [extra]))
            cells = nxt
        for on, cs in cells:
            poss = {}
            for var, v in on:
                poss.setdefault(var, []).append(v)
            if not poss:
                continue
            sure = bool(sym.check(inner + cs))
            for combo in itertools.product(*poss.values()):
                _combo(lay, ego, vs, box, list(poss), combo, may, i, sure)
    must = [x for x in may if x["sure"]]
    # one box per step and destination: it joins the results of all combinations with the same destination
    got = {}
    for n in root.child:
        for j, rect in enumerate(n.init[eid]):
            got.setdefault((int(round(n.start_time / dt)) + j, tuple(n.mode[eid])), []).append([list(map(float, rect[0])), list(map(float, rect[1]))])
    show = lambda x: "%s %s" % (x["modes"], x["rect"])
    what = (root.mode, [a["init"] for a in ags])
    for x in must:
        gs = got.get((x["i"], x["modes"]), [])
        if not any(all(a <= p + TOL for a, p in zip(g[0], x["rect"][0])) and all(b >= q - TOL for b, q in zip(g[1], x["rect"][1])) for g in gs):
            raise Violation("step %d of %s from %s: the reset yields modes %s and box %s, but the successors are %s"
                            % (x["i"], *what, x["modes"], x["rect"], gs or sorted(got)))
    for key, gs in got.items():
        xs = [x for x in may if (x["i"], x["modes"]) == key]
        for g in gs:
            for j in range(len(lay["cont"])):
                for side, worse in ((0, lambda v, w: v < w - TOL), (1, lambda v, w: v > w + TOL)):
                    if not xs or all(worse(g[side][j], x["rect"][side][j]) and x["exact"][j] for x in xs):
                        raise Violation("successor %s %s of %s from %s is not the result of any enabled combination of resets: %s"
                                        % (key, g, *what, sorted({show(x) for x in xs or may if x["i"] == key[0]})[:6]))
    nt = [x for x in must if x["reads"]]
    if not nt:
        return None
    return ["agents=%d" % len(ags)] + (["tight"] if any(all(x["exact"]) for x in nt) else ["repeated"]) + (["steps"] if len({x["i"] for x in must}) > 1 else [])


def _combo(lay, ego, vs, box, keys, combo, out, i, sure):
    modes = list(ego["mode"])
    rect = [[box[v.decl().name()][0] for v in vs[ego["id"]]], [box[v.decl().name()][1] for v in vs[ego["id"]]]]
    exact = [True] * len(lay["cont"])
    reads = False
    for k, v in zip(keys, combo):
        if k in lay["cont"]:
            j = lay["cont"].index(k)
            if not z3.is_expr(v):
                rect[0][j] = rect[1][j] = float(v)
            else:
                rect[0][j], rect[1][j] = rng(v, box)
                exact[j] = once(v, set())
                reads = reads or rect[0][j] < rect[1][j]
        else:
            modes[[m for m, _ in lay["disc"]].index(k)] = v
    out.append({"i": i, "modes": tuple(modes), "rect": rect, "exact": exact, "sure": sure, "reads": reads})


def subs():
    return [Sub("resets", lambda: cases(), check, 2500)]
