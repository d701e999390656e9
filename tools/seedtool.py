#!/usr/bin/env python3
"""Development tool for /verif/seeded: tries planted bugs in scratch worktrees, several at a time.
  seedtool.py diff ID PROP      store the current diff of /tmp/wt as seeded/ID/patch.diff and reset /tmp/wt
  seedtool.py test [-t] [IDS]   demo on clean / patched tree, the property's check, (-t) the stable tests
"""
import json, os, subprocess, sys, shutil, tempfile

VERIF = "/verif"
S = VERIF + "/seeded"


def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def wt(path):
    if not os.path.exists(path):
        print(sh("git -C /repo worktree add --detach %s HEAD" % path)[1][-200:])
    sh("git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD); git -C %s checkout -q -- . ; git -C %s clean -fdq" % (path, path, path))


def stable(path):
    s = open("/opt/vp/test.sh").read().replace("/repo", path)
    f = tempfile.NamedTemporaryFile("w", suffix=".sh", delete=False)
    f.write(s)
    f.close()
    out = f.name + ".json"
    env = dict(os.environ, PYTHONPATH=path)
    sh("bash %s %s" % (f.name, out), env=env)
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    got = json.load(open(out))
    os.unlink(f.name)
    txt = json.dumps(got)
    res = got.get("passed", got)
    return [w for w in want if w not in (res if isinstance(res, list) else [k for k, v in res.items() if v in ("passed", True, "PASS", "pass")])]


def main():
    a = sys.argv[1:]
    if a[0] == "wt":
        wt("/tmp/wt")
    elif a[0] == "diff":
        d = "%s/%s" % (S, a[1])
        os.makedirs(d, exist_ok=True)
        rc, out = sh("git -C /tmp/wt diff")
        assert out.strip(), "empty diff"
        open(d + "/patch.diff", "w").write(out)
        sh("git -C /tmp/wt checkout -q -- .")
    elif a[0] == "test":
        a = a[1:]
        t = "-t" in a
        nochk = "-n" in a
        ids = [x for x in a if x not in ("-t", "-n")] or sorted(os.listdir(S))
        w = "/tmp/wt_test"
        for i in ids:
            d = "%s/%s" % (S, i)
            meta = json.load(open(d + "/meta.json"))
            wt(w)
            env = dict(os.environ)
            r0, o0 = sh("bash %s/demo.sh" % d, cwd=w, env=env, timeout=400)
            ra, oa = sh("git -C %s apply %s/patch.diff" % (w, d))
            if ra:
                print(i, "DOES NOT APPLY", oa[-300:])
                continue
            r1, o1 = sh("bash %s/demo.sh" % d, cwd=w, env=env, timeout=400)
            msg = "%-28s %s clean=%d patched=%d" % (i, meta["property"], r0, r1)
            if r0:
                msg += "\n   clean demo fails: " + o0[-600:]
            if not r1:
                msg += "\n   DEMO DOES NOT FAIL: " + o1[-300:]
            if not nochk:
                rc, oc = sh("./check %s" % meta["property"], cwd=VERIF, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1"))
                v = [l for l in oc.splitlines() if l.startswith("VIOLATION")]
                m = [l for l in oc.splitlines() if l.startswith(meta["property"] + "/")]
                msg += " check=%d %s" % (rc, "caught" if rc == 1 and v else "MISSED")
                msg += "  " + (m[0][:200] if m else "")
            if t:
                f = stable(w)
                msg += "  stable: %s" % ("ok" if not f else "FAILS %s" % f)
            print(msg, flush=True)
        sh("git -C /repo worktree remove --force %s" % w)


main()
