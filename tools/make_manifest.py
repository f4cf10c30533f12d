#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks and the notes below."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from variants import CHECKS  # noqa: E402

# technique, level, what the exploration does and does not cover
NOTES = {
    "C01": ("property-based testing against exact 64-bit sums",
            "generated multiplications; sums in 64-bit integers are an exact oracle; x86 code paths of the host CPU only"),
    "C02": ("property-based testing against 128-bit exact scaling",
            "generated multiplications; an interval oracle follows the rounding allowed by the property"),
    "C03": ("property-based testing against extended precision sums",
            "generated multiplications; exact oracle for integer-valued data, error bound otherwise"),
    "C04": ("property-based testing with guard pages, canaries and sanitizers",
            "caller memory placed against inaccessible pages, margins compared, address and UB sanitizer on"),
    "C05": ("metamorphic property-based testing",
            "pairs of multiplications differing only in what must not matter, compared bit for bit"),
    "C06": ("differential property-based testing across settings",
            "same multiplication under generated thread counts, strategies and simulated caches, compared byte for byte"),
    "C07": ("property-based testing under a race detector",
            "happens-before race detection on generated multi-threaded histories; only the interleavings that occurred, but reports do not depend on unlucky timing"),
    "C08": ("property-based testing with generated schedules",
            "whole multiplications run under a scheduler that owns every atomic, lock and condition variable step"),
    "C09": ("property-based testing with generated schedules",
            "thread pool histories under the controlled scheduler"),
    "C10": ("property-based testing with generated schedules",
            "waits and countdowns under the controlled scheduler with virtual time"),
    "C11": ("stateful property-based testing against uncached multiplication",
            "histories on one context with caching compared with uncached results; sanitizers on; small cache through the build hook"),
    "C12": ("stateful property-based testing against a model of an LRU map",
            "lookup histories against a model, real allocator traffic measured"),
    "C13": ("stateful property-based testing against fresh contexts",
            "histories of settings and multiplications on several contexts compared with a fresh context"),
    "C14": ("property-based testing under a race detector",
            "generated programs of concurrent contexts; happens-before race detection and result comparison"),
    "C15": ("property-based testing with simulated CPU features",
            "generated CPU features, enabled sets, environment overrides and compiled path sets against a model of the choice"),
    "C16": ("fuzzing of CPU descriptions",
            "generated CPU descriptions behind the cpuinfo interface"),
    "C17": ("property-based testing with exhaustive tiling check per case",
            "generated partition requests up to addressable extremes"),
    "C18": ("stateful property-based testing with a memory model",
            "allocation histories; system allocator traffic measured"),
    "C19": ("systematic allocation fault injection on generated multiplications",
            "every allocation of a generated history is made to fail in turn"),
    "C20": ("property-based testing with guard pages",
            "generated roundings and channel counts; arrays end at inaccessible memory"),
    "C21": ("property-based testing of floating-point state and denormals",
            "generated control states and denormal data"),
    "C22": ("stateful property-based testing with resource accounting",
            "generated repetition histories; system memory and threads counted"),
    "C23": ("property-based testing of argument validation",
            "generated supported and unsupported argument sets, the latter in child processes"),
    "C24": ("property-based testing against direct counts",
            "generated stack sets against direct counting"),
    "C25": ("property-based testing of live sampling",
            "generated scope programs sampled live under the controlled scheduler with virtual time and race detection"),
    "C26": ("property-based testing against 128-bit arithmetic",
            "generated accumulators, multipliers and exponents; exact oracle"),
    "C27": ("differential property-based testing across builds",
            "the same generated multiplications in differently configured builds, compared bit for bit"),
    "C28": ("stateful property-based testing against a model",
            "generated histories with changing data; a model says which version of each operand is used"),
    "C29": ("property-based testing of the assertion macros",
            "generated operand pairs of fifteen types for every macro, with and without assertions; abort and message observed"),
    "C30": ("property-based testing of the traced build",
            "generated histories in child processes; the printed trace is parsed and compared with what was called"),
    "C31": ("stateful property-based testing against a model",
            "generated sequences of setters, copies and assignments; generated layouts and positions"),
    "C32": ("stateful property-based testing in virtual time",
            "generated histories of resolutions, settings, moves between kinds of cores and passing time; generated durations"),
    "C33": ("property-based testing of a program's command line",
            "generated flags in generated order against the recorded multiplications; generated illegal values"),
    "C34": ("stateful property-based testing with simulated system calls",
            "generated histories of recordings with generated event counts; out-of-order calls and failing system calls"),
    "C35": ("property-based testing of the ARM build in an interpreter",
            "generated multiplications and histories run by an interpreter of 64-bit ARM code, against exact oracles"),
}
LEVELS = {"C19": "fault_enumeration"}
HOOK_COMMIT = "Let verification builds choose the default packed matrix cache size"


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    commit = subprocess.run(
        ["git", "-C", "/repo", "log", "--format=%H", "-F", "--grep", HOOK_COMMIT],
        stdout=subprocess.PIPE, text=True).stdout.split()
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CHECKS:
            cmd = "python3 /verif/run_check.py %s --tier " % i
            checks.append({
                "property": i, "quick_cmd": cmd + "quick",
                "thorough_cmd": cmd + "thorough",
                "evidence_file": "evidence/%s.json" % i,
                "technique": NOTES[i][0], "level": LEVELS.get(i, "exploration"),
                "level_note": NOTES[i][1]})
        else:
            na.append({"property": i, "reason": "its check is not finished"})
    manifest = {
        "version": 1,
        "setup_cmd": "python3 /verif/run_check.py all",
        "hooks": {
            "guard": "RUY_VERIF_PREPACKED_CACHE_MAX_BYTES",
            "enable": "run_check.py builds the variant smallcache of the harness with "
                      "-DRUY_VERIF_PREPACKED_CACHE_MAX_BYTES=24000",
            "source_commits": commit},
        "checks": checks, "not_applicable": na,
        "notes": "See DESIGN.md. Findings are listed in KNOWN_FINDINGS.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
