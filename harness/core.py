"""Runner: drives generated cases against the oracles, in parallel shards, deterministically.

A property module defines PROPERTY, RULE, ASSUMPTIONS and subtests() -> [Sub].  A Sub has a
Hypothesis strategy producing a JSON-serialisable case and a function fn(case) which raises
Violation when the code under test breaks the property on that case, and otherwise returns None
(trivial case), or a list of labels (non-trivial; the labels feed the distribution in the
evidence file).
"""
import contextlib, hashlib, io, json, os, pickle, signal, sys, time, traceback
import multiprocessing as mp

from . import env


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, shards=8, weight=1.0, crash_ok=()):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.n = {"quick": quick, "thorough": thorough or quick * 12}
        self.shards = shards
        self.crash_ok = crash_ok


def canon(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, tuple):
        return list(o)
    raise TypeError(type(o))


@contextlib.contextmanager
def quiet():
    """Silences prints of the code under test."""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


CPU_LIMIT = 90.0  # seconds of CPU one case may burn; ordinary cases take well under a second


class _CpuLimit(BaseException):
    pass


def _on_prof(sig, frame):
    raise _CpuLimit()


class TooBig(Exception):
    """The case is larger than is worth computing; it counts as trivial."""


class _TooLong(BaseException):
    pass


_late = [False]


def _on_vtalrm(sig, frame):
    _late[0] = True
    raise _TooLong()


@contextlib.contextmanager
def sized(seconds=8.0):
    """For computations whose result may grow exponentially: gives the case up after so much CPU time."""
    signal.signal(signal.SIGVTALRM, _on_vtalrm)
    _late[0] = False
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, 0.5)  # again, where the exception is swallowed (a finaliser, a ctypes call)
    try:
        yield
    except BaseException:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if _late[0]:
            raise TooBig() from None
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if _late[0]:
        raise TooBig()


def in_repo(tb):
    """Does the traceback end in (or pass through, after the harness) the code under test?"""
    frames = traceback.extract_tb(tb)
    return any(os.path.abspath(f.filename).startswith(env.REPO + "/verse") for f in frames)


def run_case(sub, case):
    """Runs one case; turns a crash inside the code under test into a Violation."""
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with quiet():
            return sub.fn(case)
    except Violation:
        raise
    except TooBig:
        return None
    except _CpuLimit:
        raise Violation("no result after %d s of CPU time on one small case" % CPU_LIMIT) from None
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if in_repo(e.__traceback__) and not isinstance(e, HarnessError):
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("valid input makes the code raise %s: %s (%s:%s)" % (
                type(e).__name__, str(e)[:300], os.path.basename(last.filename), last.name)) from e
        if isinstance(e, (AttributeError, TypeError, LookupError, ArithmeticError, ValueError, AssertionError)) and "verse" not in str(e):
            # the oracles read every result the library gives on valid inputs today: one that they cannot read is malformed
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("the result is malformed: %s: %s (reading it in %s:%d: %s)" % (
                type(e).__name__, str(e)[:200], os.path.basename(last.filename), last.lineno, last.line)) from e
        raise HarnessError("%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _seed_for(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def _worker(mod, subs, tier, seed, shard, nshards, deadline, stop, outdir, scale):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 40
    res = {"subs": {}, "violation": None, "error": None}
    try:
        for sub in subs:
            st = {"evals": 0, "hashes": set(), "tags": {}, "samples": [], "cut": False, "t": 0.0}
            res["subs"][sub.name] = st
            act = min(sub.shards, nshards)
            if shard >= act:
                continue
            n = max(1, int(sub.n[tier] * scale + act - 1 - shard) // act)
            state = {"fail": None}
            t0 = time.time()

            class _Stop(BaseException):
                pass

            def body(case):
                if stop.value or time.time() > deadline:
                    st["cut"] = True
                    raise _Stop()
                st["evals"] += 1
                try:
                    r = run_case(sub, case)
                except (Violation, HarnessError) as e:
                    state["fail"] = (case, e)
                    raise
                if r is not None:
                    h = hashlib.md5(canon(case).encode()).digest()[:8]
                    if h not in st["hashes"]:
                        st["hashes"].add(h)
                        if len(st["samples"]) < 2 and shard < 2:
                            st["samples"].append(json.loads(canon(case)))
                    for t in r:
                        st["tags"][t] = st["tags"].get(t, 0) + 1

            test = given(sub.strategy() if callable(sub.strategy) else sub.strategy)(body)
            test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                            phases=[Phase.generate, Phase.shrink], print_blob=False,
                            suppress_health_check=list(HealthCheck))(test)
            test = hypothesis.seed(_seed_for(seed, mod.PROPERTY, sub.name, shard, tier))(test)
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    test()
            except _Stop:
                if state["fail"] is not None and isinstance(state["fail"][1], Violation):  # time ran out while shrinking
                    case, err = state["fail"]
                    res["violation"] = (sub.name, json.loads(canon(case)), str(err))
                    stop.value = 1
            except BaseException as e:
                if state["fail"] is None:
                    raise HarnessError("%s in %s: %s\n%s" % (type(e).__name__, sub.name, e, traceback.format_exc()))
                case, err = state["fail"]
                if isinstance(err, HarnessError):
                    raise err
                res["violation"] = (sub.name, json.loads(canon(case)), str(err))
                stop.value = 1
            st["t"] = time.time() - t0
            if res["violation"] or stop.value:
                break
    except BaseException as e:
        res["error"] = "%s\n%s" % (e, traceback.format_exc())
        stop.value = 1
    tmp = os.path.join(outdir, "shard%d.tmp" % shard)
    with open(tmp, "wb") as f:
        pickle.dump(res, f)
    os.rename(tmp, os.path.join(outdir, "shard%d.pkl" % shard))
    sys.stdout.flush()
    os._exit(0)


def load_findings(prop):
    """known: property=<id> sub=<name> case=<path> :: what   /   fixed: property=<id> <commit> what"""
    out = []
    path = os.path.join(env.VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        head, what = line[6:].split("::", 1)
        d = dict(x.split("=", 1) for x in head.split())
        if d["property"] == prop:
            d["what"] = what.strip()
            out.append(d)
    return out


def run_property(mod, tier="quick", seed=1, only=None, scale=1.0):
    t0 = time.time()
    prop = mod.PROPERTY
    subs = mod.subs()
    if only:
        subs = [s for s in subs if s.name in only]
        assert subs, "no such subtest"
    byname = {s.name: s for s in subs}
    nshards = int(os.environ.get("VERIF_SHARDS", "8"))
    budget = float(os.environ.get("VERIF_BUDGET", "480" if tier == "quick" else "7200"))
    deadline = t0 + budget
    # known findings: re-run each listed input on its own
    known = []
    for k in load_findings(prop):
        if k["sub"] not in byname:
            continue
        case = json.load(open(os.path.join(env.VERIF, k["case"])))["case"]
        try:
            run_case(byname[k["sub"]], case)
        except Violation as e:
            known.append(k)
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
    if hasattr(mod, "prepare"):
        mod.prepare()
    import tempfile, shutil
    outdir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    stop = mp.get_context("fork").Value("i", 0)
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for s in range(nshards):
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                _worker(mod, subs, tier, seed, s, nshards, deadline, stop, outdir, scale)
            finally:
                os._exit(3)
        pids[pid] = s
    hard = deadline + 120
    died = []
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > hard:
                for q in list(pids):
                    try:
                        os.killpg(q, signal.SIGKILL)
                    except OSError:
                        pass
                hard = time.time() + 30
            time.sleep(0.05)
            continue
        if pid in pids:
            s = pids.pop(pid)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            if status != 0:
                died.append((s, status))
    merged = {s.name: {"evals": 0, "hashes": set(), "tags": {}, "samples": [], "cut": False, "t": 0.0} for s in subs}
    violations, errors = [], []
    for s in range(nshards):
        f = os.path.join(outdir, "shard%d.pkl" % s)
        if not os.path.exists(f):
            continue
        r = pickle.load(open(f, "rb"))
        for name, st in r["subs"].items():
            m = merged[name]
            m["evals"] += st["evals"]
            m["hashes"] |= st["hashes"]
            m["cut"] |= st["cut"]
            m["t"] = max(m["t"], st["t"])
            m["samples"] += st["samples"]
            for t, c in st["tags"].items():
                m["tags"][t] = m["tags"].get(t, 0) + c
        if r["violation"]:
            violations.append(r["violation"])
        if r["error"]:
            errors.append(r["error"])
    shutil.rmtree(outdir, ignore_errors=True)
    if died:
        errors.append("shards died: %s" % died)
    code = 0
    paths = []
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v[1])))
        name, case, msg = violations[0]
        d = os.path.join(env.VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (prop, hashlib.md5(canon(case).encode()).hexdigest()[:8]))
        json.dump({"property": prop, "sub": name, "case": case, "message": msg}, open(path, "w"), indent=1)
        print("%s/%s: %s" % (prop, name, msg))
        print("case: %s" % canon(case)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        code = 1
    elif errors:
        print("HARNESS ERROR", prop, "\n".join(errors), file=sys.stderr)
        code = 2
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(m["evals"] for m in merged.values()),
            "distinct_nontrivial": sum(len(m["hashes"]) for m in merged.values()),
            "rule": mod.RULE,
            "samples": [{"sub": n, "case": c} for n, m in merged.items() for c in m["samples"][:2]],
            "per_subtest": {n: {"evaluations": m["evals"], "distinct_nontrivial": len(m["hashes"]),
                                "classes": dict(sorted(m["tags"].items())), "cut_short": m["cut"],
                                "wall_s": round(m["t"], 1)} for n, m in merged.items()},
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if known:
        ev["coverage"]["known_findings"] = [k["what"] for k in known]
    if not only:
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=_default)
    return code, ev
