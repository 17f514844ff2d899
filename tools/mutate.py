#!/usr/bin/env python3
"""mutate.py OUT [--files SUBSTR,..] [--stride N] [--offset K] [--list]: small mechanical changes of the repository's sources, each run
against the checks that depend on the file; prints the ones nothing notices.  Works on a scratch copy only."""
import os, re, shutil, subprocess, sys, time, random, hashlib
R = "/tmp/mut/r"; V = "/tmp/mut/v"
ORDER = {
 "e_step_utils": "C09 C10 C08 C02", "AbstractEStep": "C07 C09 C04 C22", "UnsupervisedEStep": "C09 C10 C04 C02 C22", "FastSupervisedEStep": "C09 C10 C08 C14 C04 C20",
 "MultinomialSupervisedEStep": "C09 C10 C08 C20", "CorrespondenceSupervisedEStep": "C09 C10 C08 C20", "SemiSupervised": "C14", "SupervisedEStep": "C09 C10 C08",
 "OnlineSupervisedMStep": "C13 C12 C25", "MStep": "C11 C12 C14", "MultinomialLogistic": "C16 C12", "SecondOrder": "C16 C12", "GradientDescent": "C17 C12",
 "LDA.cpp": "C01 C02 C03 C04 C06 C15 C22 C21", "LDA.hpp": "C01 C02 C15 C21 C06", "LDABuilder": "C21 C22 C23 C20", "NumpyFormat": "C18 C19", "Document": "C23 C07 C11 C22",
 "Parameters": "C21 C19 C02", "Events": "C05 C04", "ProgressEvents": "C25 C04 C10", "utils.hpp": "C24 C07 C22", "lda_io": "C19 C20", "applications": "C20 C25 C19", "e_step_utils.hpp": "C09",
}
def order(f):
    for k, v in ORDER.items():
        if k in f: return v.split()
    return []
REL = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), (" < ", " <= "), (" > ", " >= "), ("<", "<="), ("&&", "||"), ("||", "&&")]
def mutants(f):
    t = open("/repo/" + f).read().split("\n"); out = []; com = False
    for n, l in enumerate(t):
        s = l.strip()
        if s.startswith("/*"): com = True
        if com:
            if "*/" in s: com = False
            continue
        if not s or s.startswith(("//", "#", "*", "template", "using", "typedef", "namespace", "class", "struct", "public", "private")): continue
        if re.match(r"^[\d., e+-]+$", s): continue
        c = l.split("//")[0]
        def add(new, what):
            if new != l: out.append((n, new, what))
        for a, b in [(" + ", " - "), (" - ", " + "), ("*", "/"), ("/", "*"), ("+=", "-="), ("-=", "+="), ("+=", "=")] + REL[:6] + REL[7:]:
            i = c.find(a)
            if a in ("*", "/") and (i < 0 or re.search(r"\*\w+\s*=|/\*|->|#", c) and a == "*" and "* " in c and False): continue
            if i >= 0 and not (c[i:i+3] in ("<<=",)) and "\"" not in c[:i]: add(l[:i] + b + l[i + len(a):], a + "->" + b)
        m = re.search(r"(?<![\w.\"'])(\d+)(?![\w.\"'])", c)
        if m and '"' not in c[:m.start()]: add(l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "const+1")
        m = re.search(r"\b(true|false)\b", c)
        if m: add(l[:m.start()] + ("false" if m.group(1) == "true" else "true") + l[m.end():], "bool")
        m = re.match(r"^(\s*(?:\} else )?(?:if|while)) \((.*)\) \{\s*$", c)
        if m: add("%s (!(%s)) {" % (m.group(1), m.group(2)), "negate")
        if s.endswith(";") and (n == 0 or t[n-1].strip().endswith((";", "{", "}", "")) or True) and not s.startswith(("return", "}", ")", "break")):
            p = t[n-1].strip()
            if p == "" or p.endswith((";", "{", "}", ":")) or p.startswith(("//", "*/")) : add("", "delete")
    return out
def main():
    out = sys.argv[1]; a = sys.argv
    sub = a[a.index("--files") + 1].split(",") if "--files" in a else [""]
    stride = int(a[a.index("--stride") + 1]) if "--stride" in a else 1; off = int(a[a.index("--offset") + 1]) if "--offset" in a else 0
    fs = [f for f in subprocess.check_output(["git", "-C", "/repo", "ls-files"], text=True).split() if f.endswith((".cpp", ".hpp")) and f.startswith(("src/", "include/")) and any(x in f for x in sub)]
    jobs = [(f,) + m for f in fs if order(f) for m in mutants(f)]
    jobs.sort(key=lambda j: hashlib.md5(repr(j[:4]).encode()).hexdigest()); jobs = jobs[off::stride]
    print(len(jobs), "mutants"); 
    if "--list" in a: return
    shutil.rmtree(R, ignore_errors=True); shutil.rmtree(V, ignore_errors=True); os.makedirs(R)
    for x in ("include", "src"): shutil.copytree("/repo/" + x, R + "/" + x)
    shutil.copytree("/verif", V, ignore=shutil.ignore_patterns("build", ".git", "seeded", "evidence")); os.makedirs(V + "/evidence")
    o = open(out, "a")
    for k, (f, n, new, what) in enumerate(jobs):
        src = open("/repo/" + f).read().split("\n"); old = src[n]; src[n] = new; open(R + "/" + f, "w").write("\n".join(src))
        t0 = time.time(); res = "SURVIVED"
        tus = subprocess.run(["clang++", "-std=gnu++11", "-w", "-fsyntax-only", "-include", "string", "-include", "functional", "-DEIGEN_MAX_CPP_VER=3", "-I" + R + "/include", "-I/usr/include/eigen3", "-x", "c++", R + "/" + f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if tus.returncode: res = "nocompile"
        else:
            for c in order(f):
                try: p = subprocess.run([sys.executable, V + "/check.py", c], env=dict(os.environ, VERIF_REPO=R), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
                except subprocess.TimeoutExpired: res = "timeout " + c; break
                if p.returncode == 1: res = "caught " + c; break
                if p.returncode: res = ("nocompile " if "cannot compile" in p.stdout else "ERROR ") + c + " " + ("" if "cannot compile" in p.stdout else p.stdout[-200:].replace("\n", " ")); break
        if res != "nocompile": o.write("%s | %s:%d | %s | %s | %s  [%.0f s]\n" % (res, f, n + 1, what, old.strip(), new.strip(), time.time() - t0)); o.flush()
        open(R + "/" + f, "w").write(open("/repo/" + f).read())
        if k % 10 == 9:   # keep the cache small
            b = V + "/build"
            for x in os.listdir(b):
                q = b + "/" + x
                try:
                    if time.time() - os.path.getatime(q) > 1200 and os.path.isfile(q): os.unlink(q)
                except OSError: pass
main()
