"""plant.py SPEC.py : writes seeded/<id>/ from a spec (id, prop, edits[(file, old, new)],
demo (Rust), deps, needs, breaks), then applies it to /repo, runs the demo with and
without it and the property's check, and undoes it."""
import sys, os, subprocess, json, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("RQ_REPO", "/repo")   # a scratch copy: cp -a /repo /tmp/pr; RQ_REPO=/tmp/pr
TESTS = "--no-tests" not in sys.argv


def sh(c, cwd=R, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def plant(s, checks=True):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    assert not sh("git status --short").stdout.strip(), "/repo is dirty"
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            n = s.get("count", 1)
            assert t.count(old) == n, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff").stdout)
    finally:
        sh("git checkout -- .")
    open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
    t = open(os.path.join(V, "tools", "demo_template.sh")).read().replace("@DEPS@", " ".join("'%s'" % x for x in s["deps"]))
    open(os.path.join(d, "demo.sh"), "w").write(t)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    a = sh("bash %s/demo.sh" % d)
    print(s["id"], "demo unchanged:", a.returncode, (a.stdout + a.stderr)[-600:] if a.returncode else "")
    try:
        assert sh("git apply %s/patch.diff" % d).returncode == 0
        b = sh("bash %s/demo.sh" % d)
        print(s["id"], "demo patched:", b.returncode, (b.stdout + b.stderr)[-300:])
        if TESTS:
            for x in ("build", "test"):
                src = open("/opt/vp/%s.sh" % x).read().replace("cd /repo", "cd " + R).replace("/opt/vp/log", "/tmp/plant_log")
                open("/tmp/plant_%s.sh" % x, "w").write(src)
                sh("bash /tmp/plant_%s.sh /tmp/plant_out.json" % x)
            bad = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/plant_out.json"))["passed"])
            print(s["id"], "tests:", "pass" if not bad else "BROKEN " + str(sorted(bad)[:5]), flush=True)
        if checks:
            c = sh("python3-vt engine/check.py %s" % s["prop"], cwd=V)
            print(s["id"], "check:", c.returncode, c.stdout[-900:])
    finally:
        sh("git checkout -- .")


if __name__ == "__main__":
    g = runpy.run_path(sys.argv[1])
    for s in g["BUGS"]:
        ids = [x for x in sys.argv[2:] if x[0] != "-"]
        if ids and s["id"] not in ids:
            continue
        plant(s)
