#!/usr/bin/env python3
"""Builds one property's check from /repo's current sources and runs it.

usage: run_check.py ID [--tier quick|thorough] [--seed N] [--build-only] [...]

Exit status: 0 the property held on everything explored, 1 a violation was
found (with a VIOLATION line), anything else: no answer.
"""
import argparse
import fcntl
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from variants import CHECKS, VARIANTS  # noqa: E402

REPO = "/repo"


def sh(cmd, log):
    with open(log, "ab") as f:
        f.write(("$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        return subprocess.call(cmd, stdout=f, stderr=f,
                               stdin=subprocess.DEVNULL)


def build(variant, targets):
    """Returns True if the targets of a build variant are up to date."""
    v = VARIANTS[variant]
    out = os.path.join(ROOT, "build", variant)
    os.makedirs(out, exist_ok=True)
    log = os.path.join(out, "build.log")
    with open(os.path.join(ROOT, "build", variant + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        open(log, "w").close()
        conf = ["cmake", "-S", os.path.join(ROOT, "harness"), "-B", out,
                "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                "-DCMAKE_CXX_COMPILER=" + v.get("cxx", "g++"),
                "-DCMAKE_C_COMPILER=" + v.get("cc", "gcc"),
                "-DCMAKE_CXX_FLAGS=" + v.get("flags", ""),
                "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=" + v.get("opt", "-O2 -g1"),
                "-DCMAKE_EXE_LINKER_FLAGS=" + v.get("link", ""),
                "-DRUY_DIR=" + REPO, "-DVARIANT=" + variant] + v.get("cmake", [])
        for attempt in (1, 2):
            if sh(conf, log) == 0 and \
               sh(["ninja", "-C", out] + targets, log) == 0:
                return True
            # A stale or foreign build directory: start over once.
            if attempt == 1 and os.path.exists(os.path.join(out, "CMakeCache.txt")):
                with open(log, "rb") as f:
                    text = f.read()
                if b"error:" in text:
                    break
                shutil.rmtree(out)
                os.makedirs(out)
    with open(log, "rb") as f:
        sys.stderr.buffer.write(f.read()[-6000:])
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--build-only", action="store_true")
    args, rest = ap.parse_known_args()
    if args.id == "all":
        ok = True
        todo = {}
        for c in CHECKS.values():
            for variant, targets in c["targets"].items():
                todo.setdefault(variant, []).extend(targets)
        for variant, targets in todo.items():
            ok = build(variant, sorted(set(targets))) and ok
        return 0 if ok else 2
    check = CHECKS[args.id]
    for variant, targets in check["targets"].items():
        if not build(variant, targets):
            print("%s: build of variant %s failed" % (args.id, variant))
            return 2
    if args.build_only:
        return 0
    evidence = os.path.join(ROOT, "evidence")
    os.makedirs(evidence, exist_ok=True)
    variant, target = check["run"]
    cmd = [os.path.join(ROOT, "build", variant, target), "--seed", args.seed,
           "--tier", args.tier, "--evidence-dir", evidence]
    regress = os.path.join(ROOT, "regress", args.id)
    if os.path.isdir(regress):
        cmd += ["--regress", regress]
    env = dict(os.environ)
    for k in ("RUY_PATHS", "ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
        env.pop(k, None)
    env["VERIF_BUILD"] = os.path.join(ROOT, "build")
    return subprocess.call(cmd + rest, env=env)


if __name__ == "__main__":
    sys.exit(main())
