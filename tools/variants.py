"""Build variants, and which check needs which."""

VARIANTS = {
    # As the repository builds itself: assertions on.
    "plain": {},
    "asan": {
        "cxx": "clang++", "cc": "clang",
        "flags": "-fsanitize=address,undefined -fno-sanitize-recover=all "
                 "-fno-omit-frame-pointer",
        "opt": "-O1 -g1",
    },
    # As asan, with a packed operand cache that small matrices can fill.
    "smallcache": {
        "cxx": "clang++", "cc": "clang",
        "flags": "-fsanitize=address,undefined -fno-sanitize-recover=all "
                 "-fno-omit-frame-pointer "
                 "-DRUY_VERIF_PREPACKED_CACHE_MAX_BYTES=24000",
        "opt": "-O1 -g1",
    },
    # Schedules chosen by the test case; see harness/sched.h.
    "sched": {"cxx": "clang++", "cc": "clang", "opt": "-O1 -g1"},
    "schedprof": {"cxx": "clang++", "cc": "clang", "opt": "-O1 -g1",
                  "cmake": ["-DRUY_PROFILER=ON"]},
    "asanprof": {
        "cxx": "clang++", "cc": "clang",
        "flags": "-fsanitize=address,undefined -fno-sanitize-recover=all "
                 "-fno-omit-frame-pointer",
        "opt": "-O1 -g1",
        "cmake": ["-DRUY_PROFILER=ON"],
    },
    # Build options which must not change results.
    "ndebug": {"flags": "-DNDEBUG"},
    "prof": {"cmake": ["-DRUY_PROFILER=ON"]},
    # Intrinsics, assembly and tuning only.
    "noopt": {"flags": "-DRUY_OPT_SET=0x7"},
    # Without fat kernels; Z-order instead of U-order and the Hilbert curve.
    "someopt": {"flags": "-DRUY_OPT_SET=~0x1808"},
    # Prints what each thread did when the process exits.
    "trace": {"flags": "-DRUY_TRACE -Wno-format-security"},
    # The library itself is compiled for 64-bit ARM and interpreted.
    "arm": {},
    "tsan": {
        "cxx": "clang++", "cc": "clang",
        "flags": "-fsanitize=thread",
        "opt": "-O1 -g1",
    },
}


def _variant(v, *ids):
    return {i: {"targets": {v: ["check_" + i.lower()]},
                "run": (v, "check_" + i.lower())} for i in ids}


CHECKS = {}
CHECKS.update(_variant("plain", "C01", "C02", "C03", "C05", "C06", "C12", "C13",
                       "C15", "C16", "C18", "C19", "C20",
                       "C21", "C22", "C23", "C26", "C28", "C29",
                       "C31", "C32", "C34"))
CHECKS.update(_variant("asan", "C04", "C17", "C33"))
CHECKS.update(_variant("smallcache", "C11"))
CHECKS.update(_variant("tsan", "C07", "C14"))
CHECKS.update(_variant("sched", "C08", "C09", "C10"))
CHECKS.update(_variant("asanprof", "C24"))
CHECKS.update(_variant("schedprof", "C25"))
CHECKS.update(_variant("trace", "C30"))
CHECKS.update(_variant("arm", "C35"))
CHECKS["C27"] = {
    "targets": {v: ["check_c27"]
                for v in ("plain", "ndebug", "prof", "noopt", "someopt")},
    "run": ("plain", "check_c27"),
}
