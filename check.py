#!/usr/bin/env python3
"""Builds tsym from /repo's working tree and the explorer of one property, explores, and writes the evidence.

usage: check.py ID [--tier quick|thorough] [--replay FILE] [--space NAME] [--build-only]
Exit 0: property held on everything explored; 1: VIOLATION line printed; 2: the check itself could not run.
"""
import argparse, fcntl, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TSYM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
H = os.path.join(HERE, "harness")
FLAGS = ["-O2", "-std=c++17", "-w", "-I" + H, "-I" + os.path.join(REPO, "include")]


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def run(cmd, log):
    with open(log, "w") as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if r.returncode:
        sys.stderr.write(open(log).read()[-4000:])
        die("failed: " + " ".join(cmd))


def lib():
    env_clean = ["env", "-u", "CXXFLAGS", "-u", "LDFLAGS", "CC=gcc", "CXX=g++"]
    d = os.path.join(BUILD, "lib")
    if not os.path.exists(os.path.join(d, "build.ninja")):
        run(env_clean + ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DBUILD_TESTING=OFF", "-DBUILD_SHARED_LIBS=OFF",
                         "-DCMAKE_BUILD_TYPE=", "-DCMAKE_CXX_FLAGS=-O2"], os.path.join(BUILD, "cmake.log"))
    run(["ninja", "-C", d, "tsym"], os.path.join(BUILD, "ninja.log"))
    return os.path.join(d, "src", "libtsym.a")


def obj(src):
    out = os.path.join(BUILD, os.path.basename(src) + ".o")
    dep = out + ".d"
    if os.path.exists(out) and os.path.exists(dep):
        files = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
        t = os.path.getmtime(out)
        if all(os.path.exists(f) and os.path.getmtime(f) < t for f in files):
            return out
    run(["g++"] + FLAGS + ["-MMD", "-MF", dep, "-c", src, "-o", out], out + ".log")
    return out


def build(ids):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        srcs = [os.path.join(H, f + ".cpp") for f in ("core", "engine", "main")]
        drv = {i: os.path.join(H, "drv", i.lower() + ".cpp") for i in ids}
        with ThreadPoolExecutor(8) as ex:
            fobj = {s: ex.submit(obj, s) for s in srcs + list(drv.values())}
            flib = ex.submit(lib)
            a = flib.result()
            objs = {s: f.result() for s, f in fobj.items()}
        for i in ids:
            exe = os.path.join(BUILD, "mc_" + i.lower())
            run(["g++"] + [objs[s] for s in srcs] + [objs[drv[i]], a, "-o", exe], exe + ".log")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--space")
    ap.add_argument("--budget")
    ap.add_argument("--max-report", default="5")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.id == "all":
        build(sorted(f[:-4].upper() for f in os.listdir(os.path.join(H, "drv")) if f.endswith(".cpp")))
        return 0
    build([a.id])
    if a.build_only:
        return 0
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    cmd = [os.path.join(BUILD, "mc_" + a.id.lower())]
    if a.replay:
        r = json.load(open(a.replay))
        cmd += ["--tier", r["tier"]]
        if r["space"]:
            cmd += ["--space", r["space"], "--index", str(r["index"]), "--from", str(r["from"])]
        return subprocess.run(cmd).returncode
    tier = "thorough" if a.tier == "thorough" else "quick"
    cmd += ["--tier", tier, "--out", os.path.join(HERE, "replays"), "--known", os.path.join(HERE, "known_findings.tsv"),
            "--budget", a.budget or ("600" if tier == "quick" else "36000"), "--max-report", a.max_report]
    if a.space:
        cmd += ["--space", a.space]
    else:
        cmd += ["--evidence", os.path.join(ev, a.id + ".json")]
    sys.stdout.flush()
    return subprocess.run(cmd, stdin=subprocess.DEVNULL).returncode


sys.exit(main())
