#!/usr/bin/env python3
"""Build and run the harness of one property against the current tree of /repo.

usage: run.py PROPERTY [--tier quick|thorough] [--aspect A] [--replay FILE] [--scale X]
exit 0: held on everything explored; 1: VIOLATION; 2: could not decide (build error etc.)
"""
import argparse, glob, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
H = os.path.join(VERIF, "harness")
DEFS = ["-DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK", "-DBOOST_CHRONO_HEADER_ONLY", "-DBOOST_PARAMETER_MAX_ARITY=20"]
BASE = ["-std=gnu++14", "-w", "-fno-strict-aliasing", "-DVP_HARNESS"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"]

def build(prop, out, cxx="g++", extra=(), opt="-O1"):
    srcs = sorted(glob.glob(os.path.join(H, prop + "*.cpp")))
    if not srcs:
        print("no harness for", prop); return None
    flags = BASE + [opt] + DEFS + SAN + ["-I" + REPO, "-I" + H, '-DVP_PROPERTY="%s"' % prop] + list(extra)
    jobs = []
    for s in sorted(glob.glob(os.path.join(H, prop + "*.c"))):
        o = os.path.join(out, os.path.basename(s) + ".o")
        jobs.append((s, o, ["gcc", "-std=gnu89", "-w", opt, "-ffp-contract=off", "-I" + REPO, "-c", s, "-o", o]))
    for s in [os.path.join(H, "vp_main.cpp")] + srcs:
        o = os.path.join(out, os.path.basename(s) + ".o")
        f = list(flags)
        if s.endswith("vp_main.cpp"):
            f = [x for x in f if x not in ("-O1",)] + ["-O1"]
        head = open(s, errors="replace").read(4000)
        for line in head.split("\n"):
            if line.startswith("// FLAGS:"):
                f += line[len("// FLAGS:"):].split()
        jobs.append((s, o, [cxx] + f + ["-c", s, "-o", o], [l[len("// FALLBACK:"):].split() for l in head.split("\n") if l.startswith("// FALLBACK:")]))
    def one(j):
        r = subprocess.run(j[2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        for extra_flags in (j[3] if len(j) > 3 else []):  # narrower builds: leave out an instantiation that no longer compiles, and say so
            if r.returncode == 0:
                break
            print("NOTE %s does not compile in full, trying %s" % (os.path.basename(j[0]), " ".join(extra_flags)))
            r = subprocess.run(j[2] + extra_flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return j, r
    with ThreadPoolExecutor(8) as ex:
        for j, r in ex.map(one, jobs):
            if r.returncode:
                print("BUILD FAILED", j[0]); print("\n".join([l for l in r.stdout.split("\n") if "error" in l or "required from here" in l][:20])[:5000]); return None
    exe = os.path.join(out, prop)
    r = subprocess.run([cxx] + SAN[:1] + list(extra) + [j[1] for j in jobs] + ["-o", exe, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print("LINK FAILED"); print(r.stdout[:4000]); return None
    return exe

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--aspect"); ap.add_argument("--replay"); ap.add_argument("--scale", default="1")
    ap.add_argument("--keep", help="build directory to use and keep")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    out = a.keep or tempfile.mkdtemp(prefix="vpbuild-")
    os.makedirs(out, exist_ok=True)
    try:
        exe = build(a.property, out)
        if not exe:
            return 2
        tb = time.time() - t0
        if a.replay:
            return subprocess.run([exe, "--replay", a.replay]).returncode
        ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
        seed = a.seed if a.seed.isdigit() else "1"
        cmd = [exe, "--tier", a.tier, "--seed", seed, "--known", os.path.join(VERIF, "known_findings.tsv"), "--replaydir", ev, "--scale", a.scale]
        if not a.no_evidence:
            cmd += ["--evidence", os.path.join(ev, a.property + ".json")]
        if a.aspect:
            cmd += ["--aspect", a.aspect]
        r = subprocess.run(cmd, cwd=ev)
        print("build_s=%.1f total_s=%.1f" % (tb, time.time() - t0))
        return r.returncode if r.returncode in (0, 1) else 2
    finally:
        if not a.keep:
            shutil.rmtree(out, ignore_errors=True)

sys.exit(main())
