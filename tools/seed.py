#!/usr/bin/env python3
"""seed.py [--checks P,Q] [--no-check] ID...: tries planted bugs of seeded/ in a scratch copy of /repo (/tmp/seed/repo).

For each: the demonstration passes on the unchanged copy, the patch applies and
touches only lines of the original repository, the copy builds, the stable test
passes, the demonstration fails, and says whether the property's check catches it.
"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("SEED_W", "/tmp/seed/repo")
BASE = "c73cc34"
sys.path.insert(0, ROOT)
import check
ENV = check.cargo_env(os.path.join(W, "target"))
ENV.pop("CARGO_TARGET_DIR")


def sh(cmd, cwd=W, env=ENV, timeout=1200):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, executable="/bin/bash")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)


def reset():
    sh("git fetch -q %s HEAD && git checkout -qf FETCH_HEAD && git checkout -q -- . && git status --short | grep -v '^??'" % os.environ.get("SEED_FROM", "/repo"))


def build():
    a, o = sh("cargo build --lib --offline && cargo test --no-run --offline --lib --test nbayes")
    return a, o


def demo(d):
    return sh("bash %s/demo.sh" % d, timeout=300)


def original_lines(d):
    """removed/changed lines must already be in the original repository"""
    bad = []
    f = None
    for ln in open(os.path.join(d, "patch.diff")):
        if ln.startswith("--- a/"):
            f = ln[6:].strip()
            old = sh("git show %s:%s" % (BASE, f))[1].split("\n")
        elif ln.startswith("-") and not ln.startswith("---"):
            if ln[1:].rstrip("\n") not in old:
                bad.append(ln.rstrip())
    return bad


def main():
    args = sys.argv[1:]
    checks = None
    nocheck = "--no-check" in args
    args = [a for a in args if a != "--no-check"]
    if args and args[0] == "--checks":
        checks = args[1].split(",")
        args = args[2:]
    ids = args or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    reset()
    rc, o = build()
    assert rc == 0, o
    unch = {i: demo(os.path.join(ROOT, "seeded", i)) for i in ids}
    for i in ids:
        d = os.path.join(ROOT, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        msg = []
        if unch[i][0] != 0:
            msg.append("DEMO FAILS UNCHANGED: " + unch[i][1][-600:])
        b = original_lines(d)
        if b:
            msg.append("touches own lines: %s" % b)
        rc, o = sh("git apply %s/patch.diff" % d)
        if rc:
            print(i, "DOES NOT APPLY", o); continue
        rc, o = build()
        if rc:
            print(i, "DOES NOT BUILD", o[-1500:]); reset(); continue
        rc, o = sh("cargo test --offline --test nbayes")
        if rc:
            msg.append("STABLE TEST FAILS")
        rc, o = demo(d)
        msg.append("demo %d (%s)" % (rc, o.strip().split("\n")[-1][-140:]))
        if rc == 0:
            msg.append("DEMO PASSES WITH PATCH")
        if not nocheck:
            for p in checks or [meta["property"]]:
                t = time.time()
                e = dict(os.environ, VERIF_REPO=W, VERIF_SEED="1", VERIF_TIER="quick")
                rc, o = sh("python3 check.py %s" % p, cwd=ROOT, env=e, timeout=900)
                why = [x for x in o.split("\n") if x.startswith("rejected") or x.startswith("TOOL")]
                msg.append("%s: %s %.0fs %s" % (p, {0: "MISSED", 1: "caught"}.get(rc, "ERROR %d" % rc), time.time() - t,
                                                (why or [""])[0][:200] if rc != 2 else o[-800:]))
                f = os.environ.get("SEED_OUT", "/tmp/seed_new.json")
                res = json.load(open(f)) if os.path.exists(f) else {}
                clause = (why or [""])[0].split(": ", 2)[-1].split(" event ")[0][:90]
                res.setdefault(i, {})[p] = clause if rc == 1 else {0: "MISSED"}.get(rc, "ERROR %d" % rc)
                json.dump(res, open(f, "w"), indent=1, sort_keys=True)
        print(i, meta["property"], "; ".join(msg), flush=True)
        reset()


main()
