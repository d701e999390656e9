import argparse, importlib, json, os, sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from . import env
    env.setup()
    from . import core
    mod = importlib.import_module("harness.props.%s" % a.prop.lower())
    if a.replay:
        d = json.load(open(a.replay))
        sub = [s for s in mod.subs() if s.name == d["sub"]][0]
        try:
            r = core.run_case(sub, d["case"])
        except core.Violation as e:
            print(e)
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            sys.exit(1)
        print("held", r)
        sys.exit(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    code, ev = core.run_property(mod, a.tier, seed, a.sub, a.scale)
    c = ev["coverage"]
    print("%s tier=%s seed=%d evaluations=%d nontrivial=%d wall=%.1fs exit=%d" % (
        a.prop, a.tier, seed, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"], code))
    if a.v:
        print(json.dumps(c["per_subtest"], indent=1))
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
