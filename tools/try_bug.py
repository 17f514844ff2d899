#!/usr/bin/env python3
"""try_bug.py PATCH|SED-EDIT... : runs checks on a scratch copy of /repo with a patch applied.
usage: try_bug.py patch.diff C01 C02 ...        (patch from a git diff)
       try_bug.py --sub FILE 'OLD' 'NEW' -- C01 ..."""
import os, shutil, subprocess, sys, tempfile
a = sys.argv[1:]
d = tempfile.mkdtemp(prefix="trybug", dir="/tmp")
try:
    for x in ("include", "src", "slda.cpp"):
        s = os.path.join("/repo", x)
        if os.path.isdir(s): shutil.copytree(s, os.path.join(d, x))
        elif os.path.exists(s): shutil.copy(s, d)
    if a[0] == "--sub":
        i = a.index("--")
        subs = a[1:i]; ids = a[i + 1:]
        for k in range(0, len(subs), 3):
            f = os.path.join(d, subs[k]); t = open(f).read()
            if subs[k + 1] not in t: sys.exit("text not found: " + subs[k + 1])
            open(f, "w").write(t.replace(subs[k + 1], subs[k + 2], 1))
    else:
        subprocess.check_call(["patch", "-s", "-p1", "-d", d, "-i", os.path.abspath(a[0])]); ids = a[1:]
    env = dict(os.environ, VERIF_REPO=d)
    for pid in ids:
        r = subprocess.run([sys.executable, "/verif/check.py", pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "ERROR" in l or "KNOWN" in l]
        print("%s rc=%d" % (pid, r.returncode))
        if r.returncode: print("\n".join(r.stdout.splitlines()[-7:])[:1800])
finally:
    shutil.rmtree(d)
