#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  check.py C01 [--tier quick|thorough] [--replay FILE] [--only SUBSTR]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Anything else: an error of the check itself.
"""
import argparse, hashlib, json, os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, ROOT)
import specs  # noqa: E402

BUILD = os.path.join(ROOT, "build")
EVID = os.path.join(ROOT, "evidence")
INC = ["-I" + REPO + "/include", "-isystem", "/usr/include/eigen3", "-I" + ROOT + "/harness"]
BASE = ["-std=gnu++14", "-w", "-include", "string", "-include", "functional", "-include", "cstdint",
        "-DEIGEN_MAX_CPP_VER=3", "-pthread", "-fno-omit-frame-pointer"]
MODES = {
    # sequential harnesses: sanitizer and Eigen assertions on
    "asan": dict(cc=["-O1", "-g1", "-fsanitize=address", "-fno-sanitize-address-use-after-scope"], ld=["-fsanitize=address"]),
    # plain build, used where uninitialised memory is perturbed
    "plain": dict(cc=["-O1", "-g1"], ld=[]),
    # instrumented for the controlled scheduler (runtime supplied by mc.cpp)
    "mc": dict(cc=["-O1", "-g1", "-fsanitize=thread", "-DEIGEN_DONT_PARALLELIZE"], ld=["-rdynamic"]),
}


class CheckError(Exception):
    pass


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def files_under(d, exts):
    out = []
    for r, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(r, f))
    return out


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        _hdr = tree_hash(files_under(REPO + "/include", (".hpp", ".h", ".hh", ".ipp", ".tpp")) +
                         files_under(REPO + "/src", (".hpp", ".h", ".hh", ".ipp", ".tpp")) +
                         files_under(ROOT + "/harness", (".hpp", ".h")))
    return _hdr


def compile_tu(src, mode, extra=()):
    flags = BASE + MODES[mode]["cc"] + INC + list(extra)
    if src.endswith("mc/mc.cpp"):
        flags = BASE + ["-O2", "-g1"] + INC
    key = hashlib.sha256((header_hash() + " ".join(flags) + src + tree_hash([src])).encode()).hexdigest()[:24]
    obj = os.path.join(BUILD, key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        p = subprocess.run(["clang++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError("cannot compile %s (%s):\n%s" % (src, mode, p.stdout[-4000:]))
        os.rename(tmp, obj)
    return obj


def lib_sources():
    return sorted(files_under(REPO + "/src/ldaplusplus", (".cpp", ".cc")))


def build(prog):
    os.makedirs(BUILD, exist_ok=True)
    mode = prog["mode"]
    harness = [os.path.join(ROOT, "harness", prog["src"])]
    harness += [os.path.join(REPO, r) for r in prog.get("repo", [])]
    if mode == "mc":
        harness.append(os.path.join(ROOT, "harness/mc/mc.cpp"))
    lib = lib_sources()
    need = prog.get("tus")
    if need is not None:
        first = [s for s in lib if any(s.endswith("/" + n) for n in need)]
    else:
        first = lib
    libs = prog.get("libs", [])

    def attempt(srcs):
        with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            # the slowest first
            order = sorted(srcs, key=lambda s: -os.path.getsize(s))
            objs = list(ex.map(lambda s: compile_tu(s, mode, prog.get("flags", []) if s.startswith(ROOT) else []), order))
        key = hashlib.sha256(("|".join(sorted(objs)) + mode).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, os.path.basename(prog["src"]).replace(".cpp", "") + "-" + mode + "-" + key)
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            p = subprocess.run(["clang++", "-pthread"] + MODES[mode]["ld"] + objs + ["-o", tmp, "-ldl"] + libs,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                return None, p.stdout
            os.rename(tmp, exe)
        return exe, ""

    exe, err = attempt(harness + first)
    if exe is None and need is not None:
        exe, err = attempt(harness + lib)       # code may have moved between files
    if exe is None and prog.get("repo"):
        apps = [f for f in sorted(files_under(REPO + "/src/applications", (".cpp", ".cc")))
                if os.path.basename(f) not in ("lda.cpp", "slda.cpp", "fslda.cpp") and f not in harness]
        exe, err = attempt(harness + lib + apps)
    if exe is None:
        raise CheckError("cannot link %s:\n%s" % (prog["src"], err[-4000:]))
    return exe


def build_apps(mode):
    """The console programs, built like the repository builds them."""
    d = REPO + "/src/applications"
    mains = ("lda.cpp", "slda.cpp", "fslda.cpp")
    common = [f for f in sorted(files_under(d, (".cpp", ".cc"))) if os.path.basename(f) not in mains] + lib_sources()
    os.makedirs(BUILD, exist_ok=True)
    out = []
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        objs = list(ex.map(lambda s: compile_tu(s, mode), sorted(common, key=lambda s: -os.path.getsize(s))))
        mobjs = list(ex.map(lambda m: compile_tu(os.path.join(d, m), mode), mains))
    for m, o in zip(mains, mobjs):
        key = hashlib.sha256(("|".join(sorted(objs)) + o + mode).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "app-" + m[:-4] + "-" + key)
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            p = subprocess.run(["clang++", "-pthread"] + MODES[mode]["ld"] + [o] + objs + ["-o", tmp, "-ldl", "-ldocopt"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise CheckError("cannot link %s:\n%s" % (m, p.stdout[-4000:]))
            os.rename(tmp, exe)
        out.append(m[:-4] + "=" + exe)
    return ":".join(out)


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    with open(p) as f:
        return json.load(f)["findings"]


def add(a, b):
    for k, v in b.items():
        if k in ("samples",):
            a.setdefault(k, []).extend(v)
        elif isinstance(v, bool):
            a[k] = a.get(k, True) and v
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, str):
            if v:
                a[k] = (a.get(k, "") + " " + v).strip()
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)
        elif isinstance(v, dict):
            add(a.setdefault(k, {}), v)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    spec = specs.SPECS[pid]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    scratch = os.path.join(BUILD, "scratch-%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    try:
        return run(a, pid, spec, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, pid, spec, tier, seed, scratch, t0):
    env = dict(os.environ)
    env.update(VERIF_SCRATCH=scratch, VERIF_REPO=REPO, VERIF_TIER=tier,
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:handle_abort=0:print_summary=1")
    coverage, violations = {}, []
    progs = spec["programs"]
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        progs = [p for p in progs if p["src"] == rp["program"]]
    build_s = 0.0
    for prog in progs:
        tb = time.time()
        exe = build(prog) if prog.get("mode") else [sys.executable, os.path.join(ROOT, "harness", prog["src"])]
        cmd = exe if isinstance(exe, list) else [exe]
        if prog.get("apps"):
            env["VERIF_APPS"] = build_apps(prog["mode"])
        build_s += time.time() - tb
        if a.build_only:
            continue
        out = os.path.join(scratch, "out.json")
        if os.path.exists(out):
            os.unlink(out)
        if a.replay:
            rf = os.path.join(scratch, "replay.txt")
            with open(rf, "w") as f:
                f.write(rp["replay"])
            r = subprocess.run(cmd + ["--tier", tier, "--replay", rf], env=env, cwd=scratch)
            return r.returncode
        args = ["--tier", tier, "--out", out, "--budget", str(prog.get("budget", {}).get(tier, 300 if tier == "quick" else 3000))]
        if a.only:
            args += ["--only", a.only]
        r = subprocess.run(cmd + args, env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        sys.stdout.write(r.stdout[-6000:])
        if r.returncode not in (0, 1) or not os.path.exists(out):
            raise CheckError("%s ended with %d" % (prog["src"], r.returncode))
        with open(out) as f:
            res = json.load(f)
        add(coverage, res["coverage"])
        for v in res["violations"]:
            v["program"] = prog["src"]
            violations.append(v)
    if a.build_only:
        return 0
    # cut the samples to something readable
    if isinstance(coverage.get("samples"), list):
        coverage["samples"] = coverage["samples"][:60]
    known, fresh = [], []
    kf = [k for k in load_known() if k["property"] == pid]
    for v in violations:
        hit = [k for k in kf if re.fullmatch(k["match"], v["key"])]
        (known if hit else fresh).append((v, hit[0] if hit else None))
    seen = set()
    for v, k in known:
        if k["id"] not in seen:
            seen.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    code = 0
    for i, (v, _) in enumerate(fresh):
        rp = os.path.join(EVID, "replays", "%s-%d.json" % (pid, i))
        with open(rp, "w") as f:
            json.dump({"property": pid, "program": v["program"], "key": v["key"], "message": v["message"], "replay": v["replay"]}, f, indent=1)
        print("%s: %s" % (v["key"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        code = 1
    coverage["build_s"] = round(build_s, 1)
    if "rule" in spec:
        coverage["rule"] = spec["rule"]
    coverage["bounds"] = spec["bounds"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": coverage,
          "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if code == 0:
        print("%s: held (%s) in %.1f s" % (pid, ", ".join("%s=%s" % (k, coverage[k]) for k in
              ("states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial", "exhaustive") if k in coverage), time.time() - t0))
    return code


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
