"""Symbolic reading of a decision-logic program over boxes: for each alternative assignment, the
condition under which it is offered, as a z3 formula over the agents' continuous variables (modes
are concrete).  Built from the JSON program only."""
import z3

from . import dl


def q(v):
    return z3.RealVal(str(v)) if not isinstance(v, z3.ExprRef) else v


class Sym(dl.Ref):
    def ev(self, e, objs, locs):
        k = e[0]
        if k == "num":
            return z3.Q(int(e[1] * 64), 64)
        if k == "cmp":
            l = self.ev(e[1], objs, locs)
            out = []
            for op, r in e[2]:
                r = self.ev(r, objs, locs)
                out.append({"<": lambda: l < r, "<=": lambda: l <= r, ">": lambda: l > r, ">=": lambda: l >= r,
                            "==": lambda: l == r, "!=": lambda: l != r}[op]())
                l = r
            return z3.And(*out)
        if k in ("meq", "oeq"):
            return z3.BoolVal(bool(dl.Ref.ev(self, e, objs, locs)))
        if k == "bool":
            return z3.BoolVal(e[1])
        if k == "and":
            return z3.And(*[self.ev(x, objs, locs) for x in e[1]])
        if k == "or":
            return z3.Or(*[self.ev(x, objs, locs) for x in e[1]])
        if k == "not":
            return z3.Not(self.ev(e[1], objs, locs))
        if k == "loc":
            v = locs[e[1]]
            return z3.Q(int(v * 64), 64) if isinstance(v, (int, float)) else v
        if k in ("any", "all", "sum"):
            vals = []
            for o in self.others:
                o2 = dict(objs)
                o2[e[1]] = o
                f = None if e[3] is None else self.ev(e[3], o2, locs)
                v = self.ev(e[2], o2, locs)
                if f is not None:
                    v = z3.If(f, v, z3.RealVal(0)) if k == "sum" else z3.And(f, v) if k == "any" else z3.Implies(f, v)
                vals.append(v)
            if k == "sum":
                return sum(vals, z3.RealVal(0))
            return (z3.Or if k == "any" else z3.And)(*vals) if vals else z3.BoolVal(k == "all")
        if k in ("lon", "lat"):
            d, at, off = dl.RoadRef(self.prog["lay"]["road"]).line(objs[e[1]]["track_mode"])
            x, y = objs[e[2]]["x"] - q(at[0]), objs[e[2]]["y"] - q(at[1])
            return x * d[0] + y * d[1] + dl.ROAD_LEN if k == "lon" else y * d[0] - x * d[1] - q(off)
        if k == "width":
            return q(dl.Ref.ev(self, e, objs, locs))
        if k == "hx":
            return z3.BoolVal(bool(dl.Ref.ev(self, e, objs, locs)))
        return dl.Ref.ev(self, e, objs, locs)

    def paths(self):
        """-> (asserts [(pre, cond, label)], {var: [(cond, value ast or mode)]})"""
        self.asserts = []
        alts = self.sblock(self.prog["body"], {}, dict(self.prog.get("consts", [])), z3.BoolVal(True))
        return self.asserts, {v: a for v, a in alts.items() if a}

    def sblock(self, stmts, alts, locs, pc):
        alts = dict(alts)
        for s in stmts:
            if s[0] == "let":
                locs = dict(locs)
                locs[s[1]] = self.ev(s[3], self.objs0, locs)
            elif s[0] == "set":
                alts[s[1]] = [(pc, self.ev(s[2], self.objs0, locs))]
            elif s[0] == "mode":
                alts[s[1]] = [(pc, s[3])]
            elif s[0] == "assert":
                self.asserts.append((pc, self.ev(s[1], self.objs0, locs), s[2]))
            elif s[0] == "if":
                neg = z3.BoolVal(True)
                new = {}
                arms = [(c, b) for c, b in s[1]] + ([(None, s[2])] if s[2] else [])
                for c, b in arms:
                    cc = z3.BoolVal(True) if c is None else self.ev(c, self.objs0, locs)
                    sub = self.sblock(b, alts, locs, z3.And(pc, neg, cc))
                    neg = z3.And(neg, z3.Not(cc))
                    for v, a in sub.items():
                        for x in a:
                            if not any(x is y for y in alts.get(v, [])):
                                new.setdefault(v, []).append(x)
                for v, a in new.items():
                    alts[v] = list(alts.get(v, [])) + a
        return alts


def names(ids, lay):
    return {i: [z3.Real("%s__%s" % (i, c)) for c in lay["cont"]] for i in ids}


def box_constraints(vs, box):
    out = []
    for v, lo, hi in zip(vs, box[0], box[-1]):
        out += [v >= z3.Q(int(lo * 64), 64), v <= z3.Q(int(hi * 64), 64)]
    return out


def check(cs):
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(*cs)
    r = s.check()
    if r == z3.unknown:
        return None
    return r == z3.sat
