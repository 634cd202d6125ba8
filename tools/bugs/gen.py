"""Writes seeded/<id>/ from the planted bugs described in this folder's b_*.py.

Each bug: bug(id, prop, needs, breaks, [(file, old, new)...], demo) against /repo's HEAD.
"""
import difflib, glob, json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
REPO = os.environ.get("BUGS_REPO", "/repo")
BUGS = {}


def bug(id, prop, needs, breaks, edits, demo):
    assert id not in BUGS, id
    BUGS[id] = (prop, needs, breaks, edits, demo)


def head(f):
    return subprocess.run(["git", "-C", REPO, "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout


def write(id):
    prop, needs, breaks, edits, demo = BUGS[id]
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in edits:
        f = "src/" + f
        if f not in files:
            files[f] = [head(f)] * 2
        assert files[f][1].count(old) == 1, (id, f, files[f][1].count(old), old)
        files[f][1] = files[f][1].replace(old, new)
    out = ""
    for f, (a, b) in files.items():
        out += "diff --git a/%s b/%s\n" % (f, f)
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(out)
    open(os.path.join(d, "demo.rs"), "w").write(open(os.path.join(HERE, "prelude.rs")).read() + "\n" + demo.strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(open(os.path.join(HERE, "demo_nn.sh" if prop.startswith("N") or prop == "B17" else "demo_json.sh" if "serde_json" in demo else "demo.sh")).read())
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


for f in sorted(glob.glob(os.path.join(HERE, "b_*.py"))):
    exec(compile(open(f).read(), f, "exec"))
for i in sys.argv[1:] or sorted(BUGS):
    write(i)
print(len(BUGS), "bugs")
