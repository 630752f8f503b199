#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os

import checks

HERE = os.path.dirname(os.path.abspath(__file__))
MON = "runtime monitoring: "
SAN = "; executions also run under AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer and library assertions"
TECH = {
    "G01": "online bijection and row-major monitor over exhaustive small and random huge grids",
    "G02": "online congruence monitor (128-bit arithmetic) on wrapping and relative sites",
    "G03": "online monitor of shortest displacements and offline conservation check of walks",
    "G04": "online monitor of pair packing against exact integers",
    "L01": "online oracle in quad precision (independent Gauss-Jordan inverse)",
    "L02": "online oracle: exhaustive search of the periodic images",
    "L03": "online oracle rebuilding the neighbour lists, symmetry monitor",
    "L04": "online oracle: quantisation and pairwise inequivalence of all momenta",
    "L05": "online oracle: discrete Fourier sum with exact integer phases, conservation (sum rule) and translation metamorphic monitors",
    "L06": "offline checker parsing the written tables back and comparing them with queries",
    "A01": "online error-bound monitor against exact (Shewchuk) summation",
    "A02": "online oracle: two-pass quad-precision moments",
    "A03": "online oracle: two-pass quad-precision weighted moments",
    "A04": "online oracle: 128-bit integer moments",
    "A05": "differential monitor of the checked and unchecked library in one process, overflow predicted exactly",
    "H01": "online model of the histogram with exact sums (conservation)",
    "S01": "differential monitor: restored object, original and never-saved twin run side by side",
    "O01": "offline checker of the output file against a model after every operation",
    "M01": "online trace-specification monitor of the propose/outcome protocol with exact counters",
    "R01": "online oracle: 128-bit fractions",
    "R02": "online oracle: 128-bit cross products, all six operators",
    "R03": "online round-trip monitor and independent grammar",
    "E01": "online round-trip monitor and lifetime monitor (ASan) of exception messages",
    "C01": "online oracle replaying the draw on a copy of the generator, frequency monitor",
    "U01": "differential monitor against std::upper_bound on exactly sized heap blocks under ASan",
    "U02": "online oracle: 128-bit integers and quad precision",
    "U03": "online element-wise oracle in wide types, aliasing monitor",
    "N01": "online oracle: closed form in quad precision over random access histories",
    "N02": "online oracle: geometric sequence in quad precision over random access histories",
    "X01": "online oracle: tolerance in quad precision, consistency monitor of all twelve operators",
    "X02": "online consistency monitor of all generated operators",
    "F01": "online oracle through plain system calls, metadata and byte monitor",
    "D01": "offline checker of the real program's output against the published generator",
    "T01": "ThreadSanitizer race detection with random pauses plus result comparison with sequential runs",
    "K01": "online monitor of aliasing: live objects against twins replaying the same history",
    "Q01": "differential monitor: each object's trace alone, in a pristine process, and among others",
    "B01": "fault injection at every allocation with online state, leak and retry monitors",
    "W01": "fault injection into output paths, twin with a good path and file system monitor",
    "X03": "online lifetime and content monitor of exceptions under ASan",
    "Z01": "sanitizers: ASan, LSan, UBSan, _GLIBCXX_DEBUG, library assertions and memcheck over all workloads",
    "I01": "generated multi-unit programs built, linked and run; result comparison between units",
}
NOTE = {
    "T01": "Races are found on the interleavings that occurred (their number is in the evidence); ThreadSanitizer reports "
           "unordered conflicting accesses even when they did not collide. Trusts ThreadSanitizer; uninstrumented "
           "libstdc++ and libboost_serialization code is seen only through interceptors.",
    "Z01": "Covers the executed call sequences; trusts the sanitizers and memcheck. MemorySanitizer is not usable with the "
           "installed uninstrumented libstdc++, so uninitialised reads are left to memcheck.",
    "I01": "Covers the generated programs with the installed g++ and clang++ in C++17 and C++20.",
    "D01": "Covers the seeds tried; the program is compiled from applications/dumpmt.cpp by the check.",
}
DEFAULT = ("Every monitored execution was judged by an oracle independent of the library; seeds, shapes and histories are "
           "sampled, not enumerated, so this is evidence over the counted executions, not a proof. Trusts the compilers, "
           "libstdc++ and the harness; the minimum number of observations of each clause is enforced.")


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": [], "not_applicable": []}
    for p in props:
        i = p["id"]
        if i not in checks.CHECKS:
            m["not_applicable"].append({"property": i, "reason": "its monitor is not built yet"})
            continue
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": MON + TECH[i] + (SAN if i not in ("T01", "Z01", "I01") else ""),
            "level": "exploration",
            "level_note": NOTE.get(i, DEFAULT),
        })
    m["notes"] = ("No hooks are needed in /repo: the library is header-only and everything the properties speak of is "
                  "observable through its public interface, files, streams and the sanitizers.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
