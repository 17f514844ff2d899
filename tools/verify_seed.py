#!/usr/bin/env python3
"""verify_seed.py ID... : in a scratch copy of /repo, confirms for each planted change that it builds, passes the
existing tests, that its demonstration passes without and fails with it, and runs the property's check against it."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif/seeded/"
FL = ["-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
      "-DCMAKE_CXX_FLAGS=-Wno-error -include string -include functional -DEIGEN_MAX_CPP_VER=3",
      "-DCMAKE_PROJECT_INCLUDE=/opt/vp/project_include.cmake"]
def run(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def build(r):
    q = run("cmake", "-S", r, "-B", r + "/_build", *FL, env=dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++"))
    if q.returncode: return q.stdout[-800:]
    q = run("ninja", "-C", r + "/_build", "all", "test_all")
    return q.stdout[-1500:] if q.returncode else ""
def tests(r):
    rep = tempfile.mkdtemp(prefix="rep", dir="/tmp")
    try:
        run("python3", "/opt/vp/run_gtest.py", r + "/_build/test_all", rep)
        out = rep + "/o.json"; open(out, "w").write('{"passed": [], "failed": []}')
        run("python3", "/opt/vp/results.py", out, "junit:" + rep + "/*.xml", "lines:" + rep + "/crashed.txt")
        j = json.load(open(out)); return len(j["passed"]), j["failed"]
    finally: shutil.rmtree(rep)
d = tempfile.mkdtemp(prefix="vseed", dir="/tmp"); r = d + "/r"
try:
    run("git", "clone", "-q", "/repo", r)
    e = build(r)
    if e: sys.exit(e)
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V))
    for i in ids:
        p = V + i + "/"; meta = json.load(open(p + "meta.json"))
        demo = d + "/demo"; shutil.copytree(p, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        a = run("bash", demo + "/demo.sh", cwd=r)
        q = run("git", "-C", r, "apply", p + "patch.diff")
        msg = [i, meta["property"]]
        if q.returncode: print(i, "does not apply", q.stdout); shutil.rmtree(demo); continue
        e = build(r)
        if e: print(i, "does not build", e[-600:])
        else:
            t = tests(r); b = run("bash", demo + "/demo.sh", cwd=r)
            msg += ["demo clean=%d bug=%d" % (a.returncode, b.returncode), "tests %d failed %s" % (t[0], t[1])]
            if a.returncode: msg.append(a.stdout[-300:])
            if "--nocheck" not in sys.argv:
                c = run(sys.executable, "/verif/check.py", meta["property"], env=dict(os.environ, VERIF_REPO=r))
                msg.append("check rc=%d" % c.returncode)
                if c.returncode != 1: msg.append(c.stdout[-300:])
                else: msg.append(next((l for l in c.stdout.splitlines() if "VIOLATION" not in l and ":" in l), "")[:160])
            print(*msg, sep=" | ", flush=True)
        run("git", "-C", r, "checkout", "-q", "--", "."); shutil.rmtree(demo)
        # bring the products back in step with the sources
        build(r)
finally:
    shutil.rmtree(d)
