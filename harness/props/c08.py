"""C08: reach-tube trees are well formed."""
from hypothesis import strategies as st

from .. import dl, world
from ..core import Sub, Violation, sized, HarnessError
from . import c02

PROPERTY = "C08"
RULE = ("A case is a scenario with boxes of initial states and generated decision logics (several agents may jump), a horizon, "
        "step, transition limit, segment length and continue-after-assertion setting; non-trivial when the verified tree has at least two "
        "nodes or an assertion report.")
ASSUMPTIONS = ["flows are constant-rate; trees with more than 300 nodes are checked as far as computed within the case's transition limit"]
TOL = 1e-6


@st.composite
def cases(draw, several=True, asserts=True, road=False):
    lay = draw(dl.road_layouts() if road else dl.layouts(static=True))
    nag = draw(st.sampled_from([1, 2, 2, 3])) if several else 1
    feats = {"eqs": False, "asserts": asserts and draw(st.booleans()), "road_resets": False}
    ags = draw(c02.agents(lay, nag, feats, 2))
    for i, a in enumerate(ags):
        lo = [v + (3 ** (i + k)) / 1024 for k, v in enumerate(a["init"][0])]
        a["init"] = [lo, [v + draw(st.sampled_from([0, 0.25, 0.5, 1.0])) for v in lo]]
    k = draw(st.integers(0, nag - 1))
    ags = ags[-k:] + ags[:-k] if k else ags
    dt = draw(st.sampled_from([0.25, 0.5, 1.0, 0.1, 0.05, 1 / 256]))
    c02.rescale(ags, dt)
    return {"agents": ags, "dt": dt, "n": draw(st.integers(1, 8)),
            "H": draw(st.sampled_from([4, 3, 2, 1] if nag == 1 else [3, 3, 2, 1])), "seg": draw(st.sampled_from([1000, 1000, 1, 2])),
            "cont": draw(st.integers(0, 4)) == 0}


def rows_eq(a, b):
    return all(abs(x - y) <= 1e-9 * max(1, abs(x)) for p, q in zip(a, b) for x, y in zip(p, q))


def check(case):
    T, dt, H = case["n"] * case["dt"], case["dt"], case["H"]
    sc = world.build({"agents": case["agents"]}, world.config(init_seg_length=case["seg"], unsafe_continue=case["cont"]))
    with sized():
        tree = sc.verify(T, dt, max_height=H)
    ids = [a["id"] for a in case["agents"]]
    tags = structure(tree, ids, T, dt, H, case["cont"], {a["id"]: a for a in case["agents"]}, case["seg"])
    summaries(tree, ids)
    if case["agents"][0]["lay"].get("road"):
        from ..execref import RefSim
        for n in tree.nodes:
            for c in n.child:
                for a in ids:
                    if not RefSim.permits(case["agents"][0]["lay"], n.mode[a], c.mode[a]):
                        raise Violation("%s changes from %s to %s, which the map %s does not have" % (a, n.mode[a], c.mode[a], case["agents"][0]["lay"]["road"]["h"]))
    if len(tree.nodes) < 2 and not any(n.assert_hits for n in tree.nodes):
        return None
    return tags + ["agents=%d" % len(ids)]


def summaries(tree, ids):
    """The tree's queries, recomputed from its nodes."""
    from verse.analysis.analysis_tree import first_transitions

    def deep(n):
        return 1 + max([deep(c) for c in n.child], default=0)

    leaves = [n for n in tree.nodes if not n.child]
    if tree.leaves() != len(leaves):
        raise Violation("leaves() is %s, %d nodes have no children" % (tree.leaves(), len(leaves)))
    for n in tree.nodes:
        below, queue = [], [n]
        while queue:
            m = queue.pop()
            queue += m.child
            below += [] if m.child else [m]
        if sorted(x.id for x in tree.get_leaf_nodes(n)) != sorted(x.id for x in below):
            raise Violation("get_leaf_nodes of node %s gives %s instead of %s" % (n.id, sorted(x.id for x in tree.get_leaf_nodes(n)), sorted(x.id for x in below)))
        if tree.height(n) != deep(n):
            raise Violation("the height below node %s is said to be %s, it is %s" % (n.id, tree.height(n), deep(n)))
    first = {}
    for n in tree.nodes:
        for c in n.child:
            for a in ids:
                if tuple(n.mode[a]) != tuple(c.mode[a]):
                    first[a] = min(first.get(a, c.start_time), c.start_time)
    if first_transitions(tree) != first:
        raise Violation("first_transitions says %s, the earliest changes of mode are %s" % (first_transitions(tree), first))


def check_summaries(c):
    from . import c25
    t = c25.make_tree(c["nodes"], c["ids"])
    summaries(t, c["ids"])
    return ["made"] if len(t.nodes) > 1 else None


def structure(tree, ids, T, dt, H, cont, specs=None, seg=1000):
    def bad(n, msg, *a):
        raise Violation("node %s (height %s, start %s, %s): %s" % (n.id, n.height, n.start_time, n.mode, msg % a if a else msg))

    tags = set()
    root = tree.root
    seen, queue = [], [root]
    while queue:
        n = queue.pop()
        seen.append(n)
        queue += n.child
        if len(seen) > 3000:
            if len(set(map(id, seen))) < len(seen):
                raise Violation("the tree has a cycle")
            raise HarnessError("huge tree")
    if len({id(n) for n in seen}) != len(seen):
        raise Violation("a node has two parents")
    if sorted(map(id, seen)) != sorted(map(id, tree.nodes)):
        raise Violation("tree.nodes lists %d nodes, the tree has %d" % (len(tree.nodes), len(seen)))
    if len({n.id for n in seen}) != len(seen) or root.id != 0:
        raise Violation("node ids are not unique (root 0): %s" % sorted(n.id for n in seen))
    if root.height != 0 or root.start_time != 0:
        bad(root, "root has to start at time 0 and height 0")
    if specs:
        for a in ids:
            if tuple(root.mode[a]) != tuple(specs[a]["mode"]):
                bad(root, "initial modes of %s are %s", a, specs[a]["mode"])
    for n in seen:
        if list(n.agent) != list(ids) or set(n.mode) != set(ids) or set(n.init) != set(ids):
            bad(n, "agents %s, modes of %s, initial sets of %s; the scenario has %s", list(n.agent), list(n.mode), list(n.init), ids)
        i0 = n.start_time / dt
        if abs(i0 - round(i0)) > 1e-6:
            bad(n, "start time is not a multiple of the step %s", dt)
        i0 = int(round(i0))
        expanded = n.height < H - 1 and n.start_time < T - 1e-9
        if not expanded:
            if n.child or n.assert_hits:
                bad(n, "beyond the horizon or transition limit, but was explored further")
            tags.add("limit" if n.height >= H - 1 else "horizon")
        for a in (ids if expanded else n.trace):
            if a not in n.trace:
                bad(n, "no tube for %s", a)
            tr = n.trace[a]
            if len(tr) % 2 or not len(tr):
                bad(n, "tube of %s has %d rows", a, len(tr))
            for k in range(len(tr) // 2):
                lo, hi = tr[2 * k], tr[2 * k + 1]
                if len(lo) != len(hi) or len(lo) != len(tr[0]):
                    bad(n, "tube of %s has rows of different length at step %d", a, k)
                if abs(lo[0] - (i0 + k) * dt) > 1e-6 * dt or abs(hi[0] - (i0 + k + 1) * dt) > 1e-6 * dt:
                    bad(n, "step %d of %s's tube covers times [%s, %s] instead of [%s, %s]", k, a, lo[0], hi[0], (i0 + k) * dt, (i0 + k + 1) * dt)
                if any(p > q for p, q in zip(lo, hi)):
                    bad(n, "step %d of %s's tube has lower bounds %s above upper bounds %s", k, a, lo, hi)
            if tr[-1][0] > T + dt * 1e-6:
                bad(n, "tube of %s goes on to %s beyond the horizon %s", a, tr[-1][0], T)
        if len({len(n.trace[a]) for a in n.trace}) > 1:
            bad(n, "tubes of different lengths: %s", {a: len(n.trace[a]) for a in n.trace})
        if not expanded:
            continue
        end = n.trace[ids[0]][-1][0]
        # the tube starts with the initial set (segments of it enter later)
        for a in ids:
            jumped = n is root or True
            for j, r in enumerate(n.init[a]):
                k = j // seg * seg
                if 2 * k >= len(n.trace[a]):
                    continue
                lo, hi = n.trace[a][2 * k][1:], n.trace[a][2 * k + 1][1:]
                if any(p < l - TOL for p, l in zip(r[0], lo)) or any(p > h + TOL for p, h in zip(r[1], hi)):
                    bad(n, "tube of %s at step %d, %s, does not contain the initial set %s", a, k, [lo, hi], r)
        if n.assert_hits:
            tags.add("assert")
            if n.child:
                bad(n, "explored further after an assertion failed")
            if cont and abs(end - T) > dt * 1e-6:
                bad(n, "tube ends at %s, before the horizon %s, in spite of unsafe_continue", end, T)
            continue
        if not n.child and abs(end - T) > dt * 1e-6:
            bad(n, "tube ends at %s, before the horizon %s, without transition or assertion", end, T)
        jumps = {}
        for c in n.child:
            tags.add("jump")
            if c.height != n.height + 1:
                bad(c, "child of a node of height %s", n.height)
            if not n.start_time - 1e-9 <= c.start_time < end - 1e-9:
                bad(c, "starts outside the parent's tube [%s, %s]", n.start_time, end)
            off = int(round((c.start_time - n.start_time) / dt))
            jump = [a for a in ids if a not in c.trace or tuple(c.mode[a]) != tuple(n.mode[a])
                    or not rows_eq(c.trace[a][:2], n.trace[a][2 * off: 2 * off + 2])]
            jumps[id(c)] = jump
            if len(jump) > 1:
                bad(c, "more than one agent (%s) changes mode or state", jump)
            for a in ids:
                at = n.trace[a][2 * off: 2 * off + 2]
                if a in jump:
                    if off + len(c.init[a]) > len(n.trace[a]) // 2:
                        bad(c, "%s enters in %d consecutive steps from step %d of a tube of %d steps", a, len(c.init[a]), off, len(n.trace[a]) // 2)
                    continue
                if len(c.init[a]) != 1 or not rows_eq(c.init[a][0], [r[1:] for r in at]):
                    if jump:
                        bad(c, "%s does not jump, but starts at %s instead of %s", a, c.init[a], at)
                m = min(len(c.trace[a]) // 2, len(n.trace[a]) // 2 - off)
                if not rows_eq(c.trace[a][: 2 * m], n.trace[a][2 * off: 2 * (off + m)]):
                    bad(c, "%s does not jump, but its tube is not the continuation of the parent's", a)
                tags.add("others continue")
            for d in n.child:
                if d is c:
                    break
                for a in ids:  # tubes of agents that jump in neither agree
                    if jump and jumps[id(d)] and a not in jump + jumps[id(d)]:
                        o2 = int(round((d.start_time - n.start_time) / dt))
                        s = max(off, o2)
                        x, y = c.trace[a][2 * (s - off):], d.trace[a][2 * (s - o2):]
                        m = min(len(x), len(y))
                        if not rows_eq(x[:m], y[:m]):
                            bad(c, "%s does not jump, but its tube differs from that in sibling %s", a, d.id)
    return sorted(tags)


def subs():
    from . import c25
    return [Sub("trees", lambda: cases(), check, 2200), Sub("roads", lambda: cases(road=True), check, 500), Sub("summaries", c25.tree_cases(), check_summaries, 1200)]
