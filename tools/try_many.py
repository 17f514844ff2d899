#!/usr/bin/env python3
"""try_many.py LIST.py [ids]: LIST.py defines BUGS = [(id, props, [(file, old, new), ...]), ...]; runs the checks of props on a scratch copy with each."""
import os, shutil, subprocess, sys, runpy, time
R = "/tmp/many/r"
bugs = runpy.run_path(sys.argv[1])["BUGS"]; want = sys.argv[2:]
if not want or True:
    os.makedirs("/tmp/many", exist_ok=True)
for i, props, subs in bugs:
    if want and i not in want: continue
    if os.path.exists(R): shutil.rmtree(R)
    os.makedirs(R)
    for x in ("include", "src"): shutil.copytree(os.environ.get("SRC", "/repo") + "/" + x, R + "/" + x)
    bad = None
    for f, o, n in subs:
        t = open(R + "/" + f).read()
        if o not in t: bad = "text not found: " + o[:80]; break
        open(R + "/" + f, "w").write(t.replace(o, n, 1))
    if bad: print(i, bad, flush=True); continue
    for p in props.split():
        t0 = time.time()
        q = subprocess.run([sys.executable, "/verif/check.py", p], env=dict(os.environ, VERIF_REPO=R), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        l = [x for x in q.stdout.splitlines() if ": " in x and "VIOLATION" not in x and not x.startswith("mc:")]
        print("%s %s rc=%d %s [%.0f s] %s" % (i, p, q.returncode, {0: "MISSED", 1: "caught"}.get(q.returncode, "ERROR"), time.time() - t0, (l[0] if l and q.returncode == 1 else q.stdout[-300:] if q.returncode > 1 else "")[:200]), flush=True)
