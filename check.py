#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY

1. rebuilds the conformance harness from /repo's working tree;
2. model checks the property's specification (TLC), which also emits
   behaviours for replay;
3. has the harness replay those behaviours, and generated scenarios, on the
   real code, recording a trace file;
4. has TLC check the recorded runs against the specification.

Exit 0: held; 1: VIOLATION; 2: the machinery itself failed.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CLASSES = os.path.join(BUILD, "classes")

sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, PROPERTIES  # noqa: E402


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for base in (os.path.join(REPO, "src"), os.path.join(ROOT, "harness", "src")):
        for d, ds, fs in os.walk(base):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0" + open(f, "rb").read())
    return h.hexdigest()


def cargo_env(target):
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
             CARGO_TARGET_DIR=target)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e["PATH"]
    return e


def build():
    """The harness binary for the current tree."""
    os.makedirs(CLASSES, exist_ok=True)
    src = os.path.join(ROOT, "tla", "java", "RealArith.java")
    stamp = os.path.join(CLASSES, "stamp")
    want = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if not os.path.exists(stamp) or open(stamp).read() != want:
        r = subprocess.run(["javac", "-d", CLASSES, "-cp", TLAJAR, src], capture_output=True, text=True)
        if r.returncode:
            raise ToolError("javac: " + r.stderr)
        open(stamp, "w").write(want)

    target = os.path.join(REPO, "target")
    env = cargo_env(target)
    cwd = os.path.join(ROOT, "harness")
    if REPO != "/repo":     # a scratch copy: a harness that depends on it
        cwd = os.path.join(REPO, "target", "verif-harness")
        shutil.rmtree(cwd, ignore_errors=True)
        shutil.copytree(os.path.join(ROOT, "harness"), cwd, ignore=shutil.ignore_patterns("target"))
        toml = os.path.join(cwd, "Cargo.toml")
        txt = open(toml).read().replace('"/repo"', '"%s"' % REPO)
        open(toml, "w").write(txt)
    h = tree_hash()
    stamp = os.path.join(target, "verif-harness.hash")
    exe = os.path.join(target, "debug", "harness")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old == h and os.path.exists(exe):
        return exe
    # content decides, not timestamps
    subprocess.run(["cargo", "clean", "--offline", "-p", "miniboosts", "-p", "harness"], cwd=cwd, env=env, capture_output=True)
    first = None
    # should a hook not compile, everything that does not need it still runs
    for feats in (None, "net", "utils", ""):
        cmd = ["cargo", "build", "--offline"]
        r = subprocess.run(cmd if feats is None else cmd + ["--no-default-features", "--features", feats], cwd=cwd, env=env, capture_output=True, text=True)
        first = first or r
        if r.returncode == 0:
            break
    if r.returncode:
        raise ToolError("building the harness failed:\n" + first.stderr[-6000:])
    if feats is not None:
        print("built with hooks [%s] only:\n%s" % (feats, first.stderr[-1500:]))
    open(stamp, "w").write(h)
    return exe


# ----------------------------------------------------------------------- TLC
def tlc(name, module, cfg, work, env=None, workers=8, timeout=800, heap=None):
    d = os.path.join(work, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, module + ".cfg"), "w").write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-Xss64m", "-Xmx" + (heap or "6g"),
           "-cp", CLASSES + ":" + TLAJAR, "-DTLA-Library=" + os.path.join(ROOT, "tla"),
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
           "-config", os.path.join(d, module + ".cfg"), os.path.join(ROOT, "tla", module + ".tla")]
    outp = os.path.join(d, "out.txt")
    with open(outp, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    txt = open(outp, errors="replace").read()
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, txt, gen, dist


def model_check(job, tier, work):
    """One exhaustive model; returns stats and the behaviours it emitted."""
    t0 = time.time()
    rc, txt, gen, dist = tlc("mc-" + job["name"], job["module"], job["cfg"], work, workers=job.get("workers", 8),
                             timeout=job.get("timeout", 600))
    if rc == -1:
        if job.get("cut_ok"):
            pass
        else:
            raise ToolError("model checking %s timed out" % job["name"])
    elif rc != 0:
        raise ToolError("model checking %s failed (specification error):\n%s" % (job["name"], txt[-3000:]))
    beh = sorted(set(x[1:-1] if x[0] == '"' else x for x in re.findall(r'@BEH (.*?)"?$', txt, re.M)))
    beh = [b.replace('\\"', '"') for b in beh]
    return dict(name=job["name"], states=dist, transitions=gen, behaviours=beh, wall=time.time() - t0)


def thin(beh, n, seed):
    if len(beh) <= n:
        return beh
    import random
    r = random.Random(seed)
    return sorted(r.sample(beh, n))


def record(exe, job, tier, seed, work, behaviours):
    """Runs the real code; returns (trace file, fatal) where fatal names a run that hung or died."""
    d = os.path.join(work, "rec-" + job["name"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    trace = os.path.join(d, "trace.ndjson")
    env = dict(os.environ, RAYON_NUM_THREADS=str(job.get("rayon", 3)), POLARS_MAX_THREADS="2", RUST_BACKTRACE="0",
               VERIF_SCRATCH=os.path.join(d, "scratch"))
    os.makedirs(env["VERIF_SCRATCH"])
    env.update(job.get("env", {}))
    cmd = [exe, job["task"], "--seed", str(seed), "--tier", tier, "--out", trace]
    if behaviours is not None:
        bf = os.path.join(d, "behaviours.txt")
        open(bf, "w").write("".join(b + "\n" for b in behaviours))
        cmd += ["--behaviours", bf]
    fatal = None
    try:
        r = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, timeout=job.get("timeout", 420))
        if r.returncode == 3:
            raise ToolError("harness: " + r.stderr[-2000:])
        if r.returncode != 0:
            cur = trace + ".current"
            who = open(cur).read() if os.path.exists(cur) else "?"
            if who == "?":
                raise ToolError("harness died: " + r.stderr[-2000:])
            fatal = (who, "does not return" if r.returncode == 4 else "process died (%d)" % r.returncode)
    except subprocess.TimeoutExpired:
        cur = trace + ".current"
        raise ToolError("harness timed out in run " + (open(cur).read() if os.path.exists(cur) else "?"))
    shutil.rmtree(env["VERIF_SCRATCH"], ignore_errors=True)
    return trace, fatal


TCFG = "SPECIFICATION TSpec\nINVARIANT Progress\nCHECK_DEADLOCK FALSE\nVIEW TView\n"


def validate(job, trace, family, work, spec):
    n = sum(1 for _ in open(trace))
    if n == 0:
        return dict(n=0, ok=set(), excused=set(), bad={}, gen=0, dist=0)
    rc, txt, gen, dist = tlc("val-" + job["name"] + "-" + spec, spec, TCFG, work, env={"TRACE": trace, "FAMILY": family},
                             timeout=job.get("tlc_timeout", 800), workers=job.get("workers", 8))
    if rc != 0:
        i = txt.find("Error:")
        raise ToolError("trace validation %s %s failed (%d):\n%s" % (job["name"], spec, rc, txt[max(0, i - 200):i + 4000]))
    ids = [json.loads(x)["id"] for x in open(trace)]
    assert len(set(ids)) == len(ids), "duplicate run ids"
    ok = set(re.findall(r'^"?@DONE (\S+)', txt, re.M))
    exc = set(re.findall(r'^"?@EXCUSED (\S+)', txt, re.M))
    bad = {}
    for fam, name, rid, at, info in re.findall(r'^"?@CLAUSE (\S+) \| (.*?) \| (\S+) \| (\d+) \| (.*)$', txt, re.M):
        if rid not in ok and rid not in exc:
            bad.setdefault(rid, (name, int(at), info[:600]))
    for rid in ids:
        if rid not in ok and rid not in exc and rid not in bad:
            bad[rid] = ("event not allowed by the specification", -1, "")
    return dict(n=n, ok=ok, excused=exc, bad=bad, gen=gen, dist=dist)


# ---------------------------------------------------------------------- main
def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) job=(\S+) run=(\S+) clause=(.*?) :: (.*)$", ln.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    work = os.path.join(BUILD, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    plan = PLAN(prop, tier, seed)
    exe = build()
    log("built in %.1fs" % (time.time() - t0))

    mcs, jobs, excused = [], [], 0
    viol = []           # (job, run, clause, info, trace)
    states = trans = traces = 0
    samples = []
    beh = {}
    # models run side by side
    if plan["mc"]:
        par = max(1, min(3, len(plan["mc"])))
        for j in plan["mc"]:
            j.setdefault("workers", max(2, 8 // par))
        with ThreadPoolExecutor(par) as ex:
            for r in ex.map(lambda j: model_check(j, tier, work), plan["mc"]):
                mcs.append(r)
                beh[r["name"]] = r["behaviours"]
                states += r["states"]
                trans += r["transitions"]
                log("model %-28s %8d states %9d transitions %6d behaviours %.1fs" %
                    (r["name"], r["states"], r["transitions"], len(r["behaviours"]), r["wall"]))

    def one(job):
        b = None
        if job.get("behaviours"):
            b = []
            for k in job["behaviours"]:
                b += thin(beh[k], job.get("nbeh", 400), seed)
        t1 = time.time()
        trace, fatal = record(exe, job, tier, seed, work, b)
        t2 = time.time()
        vs = []
        for spec in job["specs"]:
            vs.append((spec, validate(job, trace, prop, work, spec)))
        return job, trace, fatal, vs, t2 - t1, time.time() - t2

    par = max(1, min(plan.get("par", 3), len(plan["jobs"])))
    for j in plan["jobs"]:
        j.setdefault("workers", max(2, 8 // par))
    with ThreadPoolExecutor(par) as ex:
        results = list(ex.map(one, plan["jobs"]))
    for job, trace, fatal, vs, tr, tv in results:
        if fatal:
            viol.append((job, fatal[0], fatal[1], "", trace))
        for spec, v in vs:
            states += v["dist"]
            trans += v["gen"]
            traces += len(v["ok"])
            excused += len(v["excused"])
            log("trace %-20s %-16s %5d runs, %5d accepted, %d excused, %d rejected; %d states; record %.1fs check %.1fs" %
                (job["name"], spec, v["n"], len(v["ok"]), len(v["excused"]), len(v["bad"]), v["dist"], tr, tv))
            for rid, (name, at, info) in sorted(v["bad"].items()):
                viol.append((job, rid, name, "event %d: %s" % (at, info), trace))
        with open(trace) as f:
            for ln in f:
                if len(ln) < 3000:
                    samples.append(dict(job=job["name"], run=json.loads(ln)))
                    break
    kf = known_findings()
    left = []
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    for job, rid, clause, info, trace in viol:
        hit = [k for k in kf if k[0] == prop and k[1] == job["name"] and k[2] == rid and k[3] == clause]
        if hit:
            log("KNOWN-FINDING: property=%s %s" % (prop, hit[0][4]))
            continue
        left.append((job, rid, clause, info, trace))
    for job, rid, clause, info, trace in left[:5]:
        rp = os.path.join(rdir, "%s-%s-%s.json" % (prop, job["name"], re.sub(r"[^A-Za-z0-9._-]", "_", rid)))
        rec = None
        if os.path.exists(trace):
            for ln in open(trace):
                if '"id":"%s"' % rid in ln:
                    rec = json.loads(ln)
        json.dump(dict(property=prop, clause=clause, info=info, run=rid, job={k: v for k, v in job.items()},
                       rerun="cd /verif && VERIF_SEED=%d python3 check.py %s --tier %s" % (seed, prop, tier), record=rec),
                  open(rp, "w"), indent=1)
        log("rejected: %s/%s: %s %s" % (job["name"], rid, clause, info[:300]))
        log("VIOLATION property=%s replay=%s" % (prop, rp))
    if len(left) > 5:
        log("(%d more rejected runs)" % (len(left) - 5))

    level = PROPERTIES[prop]["level"]
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=traces,
                            runs_excused=excused, runs_rejected=len(viol),
                            models=[dict(name=m["name"], states=m["states"], transitions=m["transitions"],
                                         behaviours_emitted=len(m["behaviours"])) for m in mcs],
                            samples=samples[:3] or [dict(models=[m["name"] for m in mcs])]),
              assumptions=PROPERTIES[prop].get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(left))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    log("%s: %s, %d states, %d runs accepted, %.1fs" % (prop, "VIOLATED" if left else "held", states, traces, time.time() - t0))
    if os.environ.get("VERIF_KEEP", "") == "":
        shutil.rmtree(work, ignore_errors=True)
    return 1 if left else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("TOOL-ERROR", e, flush=True)
        sys.exit(2)
