"""What is checked for each property: harness, builds, case counts, the
observations a run must have made, and the text of MANIFEST and evidence."""

import os


def build_dumpmt(st, run):
    """Compile the real program, optimised and with sanitizers."""
    src = os.path.join(run.REPO, "applications", "dumpmt.cpp")
    inc = ["-std=gnu++17", "-I" + os.path.join(run.REPO, "include"), "-DFMT_HEADER_ONLY", "-w"]
    env = {}
    for tag, cmd in (("REL", run.BUILDS["rel"]), ("SAN", run.BUILDS["san"])):
        exe = os.path.join(st.work, "dumpmt." + tag)
        rc, _, err = run.sh(cmd + inc + [src, "-o", exe] + run.LINK, 600)
        if rc != 0:
            ctl = os.path.join(st.work, "control.cpp")
            with open(ctl, "w") as f:
                f.write("#include <iostream>\nint main() { std::cout << 1; }\n")
            crc, _, cerr = run.sh(cmd + inc + [ctl, "-o", ctl + ".exe"] + run.LINK, 600)
            if rc is None or crc != 0:
                raise run.NoVerdict("building fails even without the program: " + cerr[-800:])
            bad = [l for l in err.splitlines() if "error" in l]
            st.violation("build", "applications/dumpmt.cpp no longer builds: " + " | ".join(bad[:4])[:900])
            return False
        env["VF_DUMPMT_" + tag] = exe
    st.extra["env"] = env
    return True


CHECKS = {
    "G01": dict(
        cases={"san": 20000, "rel": 80000},
        need={"coordinates": 100000, "on_grid": 10000, "big_grids": 1000, "free_functions": 10000},
        fuzz=60000,
        rule="random grid shapes (1-6 dimensions, equal/unequal/1/2/odd/even/huge sizes, both boundaries); "
             "small grids enumerated completely, huge ones sampled; non-trivial: more than one site; "
             "distinct by shape and boundary",
    ),
    "G02": dict(
        cases={"san": 8000, "rel": 40000},
        need={"wrap.closed": 10000, "wrap.open": 3000, "mapped": 100000, "translation": 1000, "lattices": 300,
              "wrap.very_far": 10000},
        fuzz=30000,
        rule="random grid and lattice shapes; wrapping of edge and far coordinates, all pairs of small grids and "
             "sampled pairs of huge ones; non-trivial: more than one site; distinct by shape and boundary",
    ),
    "G03": dict(
        cases={"san": 12000, "rel": 40000},
        need={"jump.range": 50000, "jump.open": 10000, "walk.whole_turns": 5000, "wound_walks": 1000, "winding": 5000},
        fuzz=30000,
        rule="random shapes with all pairs or pairs near ties, and random closed walks with drifts; non-trivial: more "
             "than one site or a walk that really closes; distinct by shape and visited sites",
    ),
    "G04": dict(
        cases={"san": 12000, "rel": 60000},
        need={"round_trip": 100000, "distinct": 100000, "big_n": 1000, "grid.round_trip": 20000},
        fuzz=30000,
        rule="every n up to 150 exhaustively with a bitmap, random n up to 2^32-1, and grids; non-trivial: n > 1; "
             "distinct by n and pairs",
    ),
    "L01": dict(
        cases={"san": 4000, "rel": 20000},
        need={"real_space": 10000, "inverse": 10000, "reciprocal": 10000, "neighbour.opposite": 10000,
              "neighbour.unit": 5000, "neighbour.custom": 5000},
        fuzz=30000,
        rule="the four predefined lattices and random bases (1-4 dimensions, sheared, unequal, scaled, permuted) with "
             "random directions; random integer and real coordinates up to 1e6 against quad-precision linear algebra; "
             "every case is non-trivial; distinct by basis and directions",
    ),
    "L02": dict(
        cases={"san": 1200, "rel": 5000},
        need={"high_dimension": 60, "many_directions": 40, "distance.min_image": 100000, "distance.open": 20000, "vector.image": 100000, "translation": 5000,
              "images": 20000},
        fuzz=6000,
        rule="random and predefined bases with random sizes and boundaries; all ordered pairs of sites against an "
             "exhaustive search of the periodic images; non-trivial: more than one site; distinct by basis, sizes, boundary",
    ),
    "L03": dict(
        cases={"san": 2500, "rel": 12000},
        need={"high_dimension": 60, "many_directions": 40, "list": 20000, "are_neighbours": 200000, "neighbour_pairs": 20000, "dropped": 5000, "wrapped": 5000},
        fuzz=10000,
        rule="random and predefined bases with random directions, sizes and boundaries; all sites and all pairs; every "
             "case is non-trivial; distinct by basis, directions, sizes, boundary",
    ),
    "L04": dict(
        cases={"san": 1500, "rel": 6000},
        need={"high_dimension": 60, "many_directions": 40, "compatible": 50000, "index": 50000, "inequivalent": 1000},
        fuzz=8000,
        rule="random and predefined bases with random sizes; all momenta of each lattice; non-trivial: more than one "
             "site; distinct by basis and sizes",
    ),
    "L05": dict(
        cases={"san": 1500, "rel": 6000},
        need={"high_dimension": 60, "many_directions": 40, "spectrum": 20000, "sum_rule": 2000, "translation": 20000, "accumulate": 10000, "open.zero": 1000,
              "open.unchanged": 1000},
        fuzz=6000,
        rule="random lattices, occupation vectors of five types, multipliers and snapshot sequences against a discrete "
             "Fourier sum with exact integer phases; non-trivial: closed with more than one site; distinct by lattice "
             "and occupations",
    ),
    "L06": dict(
        cases={"san": 600, "rel": 2500},
        need={"high_dimension": 60, "many_directions": 40, "positions.value": 10000, "vectors.value": 10000, "momenta.value": 10000, "pairs.vector": 50000,
              "momenta.open": 200, "preexisting": 500},
        fuzz=2000,
        rule="random lattices; the four tables written over absent, empty, longer or older files and parsed back; "
             "non-trivial: more than one site; distinct by lattice",
    ),
    "A01": dict(
        marathon=2,
        cases={"san": 12000, "rel": 60000},
        need={"hidden_values": 2000, "interleaved": 4000, "error_bound": 200000, "mean": 100000, "long_sequences": 200, "resets": 5000, "reset.fresh": 20000,
              "apply.same_object": 5000},
        fuzz=100000,
        rule="sequences of 14 shapes (cancellation, values below half an ulp, wide exponents, sorted, constant, up to "
             "30000 terms) interleaved with queries and resets, against exact summation; non-trivial: two or more "
             "values; distinct by the values added",
    ),
    "A02": dict(
        marathon=1,
        cases={"san": 8000, "rel": 40000},
        need={"mean": 100000, "scaled_variance": 100000, "variance": 100000, "error": 100000, "undefined": 5000,
              "large_mean": 3000, "tiny_data": 300, "resets": 5000},
        fuzz=60000,
        rule="random sequences (constant, huge mean, wide exponents, scales from 2^-500 to 2^460) with queries and resets at random points, against "
             "quad-precision two-pass moments; non-trivial: two or more values; distinct by the values added",
    ),
    "A03": dict(
        marathon=1,
        cases={"san": 8000, "rel": 40000},
        need={"mean": 100000, "population": 50000, "frequency": 40000, "reliability": 40000, "undefined": 5000,
              "ignored_pairs": 10000, "enormous_weights": 5000, "resets": 5000},
        fuzz=60000,
        rule="random value/weight sequences (zero, negative, tiny and huge weights) with queries and resets, against "
             "quad-precision weighted moments; non-trivial: two or more counted pairs; distinct by the pairs added",
    ),
    "A04": dict(
        marathon=1,
        cases={"san": 12000, "rel": 60000},
        need={"sum": 100000, "scaled_variance": 100000, "variance": 100000, "undefined": 5000, "large_values": 10000,
              "at_the_limit": 200, "resets": 5000, "product_beyond_long": 50000},
        fuzz=60000,
        rule="random integer sequences up to the limit where the sum of squares fits a long, with queries and resets, "
             "against 128-bit integers; non-trivial: two or more values; distinct by the values added",
    ),
    "A05": dict(
        cases={"san": 12000, "rel": 60000},
        sources=[("A05.cpp", []), ("A05_adapter.cpp", ["-DADAPTER_NAME=make_plain"]),
                 ("A05_adapter.cpp", ["-DADAPTER_NAME=make_checked", "-DBWSL_ACCUMULATORS_CHECKS", "-Dbwsl=bwsl_chk"])],
        need={"same_results": 200000, "throws": 10000, "overflow.integer": 5000, "unchanged": 10000},
        fuzz=60000,
        rule="every accumulator compiled with and without checks receives the same random sequence; overflowing "
             "additions are predicted with 128-bit integers and tried only where checks are on; states near the "
             "limits come from edited archives; non-trivial: two or more values; distinct by accumulator and values",
    ),
}
CHECKS.update({
    "H01": dict(
        marathon=1,
        cases={"san": 12000, "rel": 50000},
        need={"bin": 500000, "bin_count": 500000, "normalised": 100000, "growth": 20000, "resizes": 20000,
              "shrunk": 10000, "resets": 10000, "empty_bin": 50000, "millions_of_bins": 3},
        fuzz=60000,
        rule="random sequences of Add, ForceAdd, Resize, Reset and queries with unit, integer, float and cancelling "
             "double values, against exact per-bin sums; non-trivial: two or more measurements; distinct by operations",
    ),
})
CHECKS.update({
    "S01": dict(
        marathon=7,
        cases={"san": 4000, "rel": 16000},
        need={"other_locale": 50, "program": 500, "restored": 20000, "continues": 200000, "saved.text": 5000, "saved.binary": 5000, "dirty_target": 5000,
              "fresh_target": 5000, "damaged": 1000},
        fuzz=15000,
        rule="random histories of one to six serialisable objects (five accumulators, histogram, move statistics, two "
             "kinds of observable group, three generators, a program holding such objects in containers and behind pointers) saved together at random points as text or binary and loaded "
             "into fresh or used objects, then continued side by side; damaged generator states; non-trivial: some "
             "operation happened; distinct by the operations",
    ),
})
CHECKS.update({
    "O01": dict(
        cases={"san": 3000, "rel": 12000},
        need={"wild_means": 1000, "many_keys": 20, "mean.value": 20000, "mean.empty": 5000, "row.count": 20000, "headers": 10000, "append": 20000,
              "refused": 5000, "registered_twice": 1000, "empty_group": 500},
        fuzz=6000,
        rule="random interleavings of registrations, measurements, headers and outputs on three groups with text and "
             "integer keys over new and existing files, the file compared with a model after every operation; "
             "non-trivial: more than three operations; distinct by operations and values",
    ),
    "M01": dict(
        marathon=3,
        cases={"san": 15000, "rel": 60000},
        need={"ratios": 200000, "probability": 200000, "illegal": 20000, "unchanged": 20000, "results_added": 50000,
              "print.value": 50000, "reset": 5000, "result": 100000},
        fuzz=100000,
        rule="random sequences of legal and illegal proposals, outcomes, results, resets and prints against exact "
             "counters; non-trivial: two or more proposals; distinct by operations",
    ),
})
CHECKS.update({
    "R01": dict(
        cases={"san": 150000, "rel": 600000},
        need={"exact": 1000000, "to_double": 1000000, "to_integer": 1000000, "is_int": 1000000, "integers": 50000,
              "negative_denominator": 100000, "negative_divisor": 30000, "chained": 100000, "zero": 10000},
        fuzz=300000,
        rule="random numerators and denominators of all magnitudes and signs for int and long, all operators and operand "
             "orders whose products fit, and chains of operations, against 128-bit fractions; every single operation is "
             "non-trivial; distinct by operands",
    ),
    "R02": dict(
        cases={"san": 150000, "rel": 600000},
        need={"rational": 300000, "integer_right": 100000, "integer_left": 100000, "equal": 50000, "equal_integer": 5000,
              "non_integer_with_integer": 100000, "sorted": 100000},
        fuzz=300000,
        rule="random, equal, neighbouring and opposite pairs of rationals and nearby integers for int and long against "
             "128-bit cross products, all six operators; sorts; every comparison is non-trivial; distinct by operands",
    ),
    "R03": dict(
        cases={"san": 60000, "rel": 200000},
        need={"malformed.unchanged": 20000, "round_trip": 50000, "canonical": 50000, "sequence": 50000, "malformed": 30000, "malformed.stream": 30000,
              "reduced": 10000},
        fuzz=200000,
        rule="random rationals written and read back alone and in sequence, unreduced and signed texts, and malformed "
             "texts classified by an independent grammar; every case is non-trivial; distinct by numbers or text",
    ),
})
CHECKS.update({
    "E01": dict(
        cases={"san": 30000, "rel": 120000},
        need={"round_trip": 50000, "refused": 80000, "message.text": 80000, "message.lasting": 150000, "outside": 3000,
              "target": 80000},
        fuzz=150000,
        rule="six enumerations (one to 44 enumerators, prefixes, case variants, namespaces, long names); names, mutated "
             "names, empty, long and zero-containing texts, values outside; every case is non-trivial; distinct by texts",
    ),
    "C01": dict(
        cases={"san": 15000, "rel": 60000},
        need={"interval": 50000, "positive": 50000, "psums": 50000, "probability": 20000, "never": 3000, "always": 3000,
              "frequencies": 200, "scripted": 10000, "subnormal_total": 1000},
        fuzz=50000,
        rule="random weight vectors (zeros, one element, wide exponents, float and double, four containers) and generator "
             "states including the extreme draws of a scripted generator; the draw is repeated on a copy of the generator; "
             "non-trivial: two or more weights; distinct by weights and generator state",
    ),
    "U01": dict(
        cases={"san": 1500, "rel": 8000},
        need={"pointers": 20000, "vector": 20000, "list": 500, "deque": 5000, "subrange": 1000, "interpolated": 30000,
              "below_threshold": 10000},
        fuzz=3000,
        rule="sorted ranges of five element types, 13 distributions and up to 5e5 (thorough 1.6e6) elements, as exactly "
             "sized heap blocks, vectors, deques and lists, values at, between and beyond elements, against "
             "std::upper_bound; non-trivial: two or more elements; distinct by size, distribution and content",
    ),
})
CHECKS.update({
    "U02": dict(
        cases={"san": 200000, "rel": 800000},
        need={"square": 200000, "cube": 50000, "sgn": 200000, "absdiff": 100000, "signeddiff": 100000,
              "signeddiff.lowest": 1000, "binomial": 100000, "binomial.large": 50000, "binomial.near_limit": 100, "gcd": 100000, "gcd.common": 5000,
              "heaviside": 50000, "heaviside2": 50000, "lerp.ends": 50000, "lerp.affine": 200000, "lerpi.ends": 50000},
        fuzz=300000,
        rule="random arguments of every magnitude and the extremes for up to six types per function against 128-bit "
             "integers or quad precision; every case is non-trivial; distinct by arguments",
    ),
    "U03": dict(
        cases={"san": 40000, "rel": 160000},
        need={"sum": 100000, "product": 50000, "sum_squared": 100000, "norm": 50000, "max": 50000, "min": 50000,
              "sum_into": 50000, "subtract_into": 50000, "self_sum": 50000, "get_inverted": 50000, "invert": 50000,
              "array": 3000, "list": 10000, "deque": 10000, "vector": 20000},
        fuzz=100000,
        rule="random vectors, lists, deques and arrays of six element types and lengths 0 to 500, reductions into wider "
             "types, element-wise operations with another container and with itself; non-trivial: two or more elements; "
             "distinct by elements",
    ),
    "N01": dict(
        cases={"san": 15000, "rel": 60000},
        need={"value": 1000000, "visits": 50000, "same_sequence": 500000, "collect.pure": 20000, "call": 20000,
              "post_increment": 20000, "end": 20000, "equality": 20000, "integer": 10000, "long_range": 200},
        fuzz=50000,
        rule="random intervals and step counts (up to 20000) for float, double, int and long; random histories of all "
             "access methods; values against the closed form in quad precision; every case is non-trivial; distinct by "
             "interval, steps and history",
    ),
    "N02": dict(
        cases={"san": 10000, "rel": 40000},
        need={"value": 500000, "visits": 30000, "same_sequence": 300000, "collect.pure": 10000, "call": 10000,
              "post_increment": 10000, "end": 10000, "equality": 10000, "exponents": 5000, "interval": 10000,
              "long_range": 200, "decreasing": 500, "wide_exponents": 500, "wide_interval": 1000},
        fuzz=30000,
        rule="random intervals, bases (also below one), exponents and step counts for float and double; random histories of all access "
             "methods; values against the quad-precision geometric sequence; every case is non-trivial; distinct by "
             "interval, steps and history",
    ),
    "X01": dict(
        cases={"san": 80000, "rel": 300000},
        need={"within": 300000, "beyond": 300000, "swap": 500000, "not_equal": 500000, "less": 500000,
              "less_equal": 500000, "greater": 500000, "greater_equal": 500000, "defaults": 20000, "SetAbs": 100000,
              "SetRel": 100000},
        fuzz=200000,
        rule="random values, tolerances of either sign and sequences of settings; numbers at, just inside and just "
             "outside the tolerance in quad precision, all twelve operators; non-trivial: a number other than the value; "
             "distinct by value, tolerances and numbers",
    ),
    "X02": dict(
        cases={"san": 4000, "rel": 12000},
        need={"plain": 200000, "weak": 200000, "own_equality": 200000, "mixed": 200000, "mixed_own_equality": 200000,
              "template": 200000, "template_value": 200000, "value_template": 200000, "template_text": 200000,
              "friends": 200000, "friends_mixed": 200000},
        fuzz=20000,
        rule="nine types generated with the four macros (strict and weak orders, own equality, mixed operands, templates, "
             "friends), all small pairs and random pairs; every case is non-trivial; distinct by pairs",
    ),
})
CHECKS.update({
    "K01": dict(
        cases={"san": 2500, "rel": 6000},
        need={"answers": 100000, "operation": 50000, "copy_construction": 1000, "copy_assignment": 800,
              "self_assignment": 1000, "move_construction": 800, "move_assignment": 800, "swap": 800, "vector": 1000,
              "containers": 1000, "chain": 1000, "by_value": 1000, "temporary": 800, "changed_copy": 1000,
              "assigned_after_move": 1000, "lattice": 300, "histogram": 300, "observables (text)": 300},
        fuzz=10000,
        rule="two to four live objects of each of 16 types with random histories; copies, moves, assignments, swaps and "
             "containers between them; after every step all objects answer everything like twins that replayed the same "
             "history without ever being copied; every case is non-trivial; distinct by type, operations and copies",
    ),
})
CHECKS.update({
    "Q01": dict(
        cases={"san": 2000, "rel": 8000},
        need={"pristine": 500, "lattice": 200, "histogram": 200, "free functions": 200, "asked_twice": 20000,
              "over_a_corpse": 2000, "other_locale": 2000, "other_thread": 500, "guests": 5000},
        fuzz=8000,
        rule="two to five objects of 17 kinds (the free functions count as one) with fixed histories; each runs alone, "
             "alone in a process that never used the library, repeated backwards, and among the others with guests, "
             "extra questions, reused storage, other threads and other locales, and must leave the same trace; every "
             "case is non-trivial; distinct by kinds and operations",
    ),
})
CHECKS.update({
    "B01": dict(
        cases={"san": 3000, "rel": 4000},
        need={"faults": 20000},
        rule="objects of 12 kinds with random histories and the allocating free functions; every operation, question, "
             "copy, assignment, construction and table repeated with each (or many) of its allocations failing, once or "
             "from then on; non-trivial: at least one failure was injected; distinct by kind, history and actions",
    ),
})
CHECKS.update({
    "W01": dict(
        cases={"san": 3000, "rel": 9000},
        need={"missing_directory": 1000, "directory": 1000, "below_file": 1000, "full_device": 1000, "long_name": 1000,
              "loop": 1000, "after_repair": 3000, "harmless": 10000, "lattice.after_repair": 1000},
        fuzz=6000,
        rule="observable groups with random histories and lattices writing to paths that are unusable in six ways, some of "
             "them only for a time, next to a twin whose file is always good; non-trivial: at least one output failed; "
             "distinct by way and history",
    ),
    "X03": dict(
        cases={"san": 6000, "rel": 12000},
        need={"enum": 500, "enum_in_namespace": 500, "move_sequence": 500, "move_outcome": 500, "probability": 500,
              "rational": 500, "overflow": 500, "observable": 500, "generator": 500, "other_thread": 300,
              "message.lasts": 50000},
        fuzz=20000,
        rule="every error of the library, raised with random texts and caught by its type and as std::exception, copied, "
             "assigned, moved, rethrown, nested and carried to another thread after its origin is gone; every case is "
             "non-trivial; distinct by error and text",
    ),
})
CHECKS.update({
    "T01": dict(
        cases={"tsan": 3000, "rel": 6000},
        need={"results": 50000, "interleaved": 1500, "shared": 3000, "separate": 3000, "untouched": 5000},
        alarm=90,
        rule="two to six threads query up to four shared objects of ten types and use private objects, generators, "
             "files and free functions at once, with random pauses, under ThreadSanitizer and at full speed; results "
             "compared with the same calls made alone; non-trivial: the threads alternated; distinct by the order in "
             "which calls of the threads began",
    ),
})
CHECKS.update({
    "F01": dict(
        alarm=120,
        cases={"san": 8000, "rel": 20000},
        need={"identical": 5000, "different": 5000, "unreadable": 3000, "symmetric": 20000, "untouched.bytes": 20000,
              "kind.prefix": 2000, "kind.byte": 3000, "kind.missing": 1000, "kind.symlink": 500, "kind.dangling": 1000,
              "kind.changing": 3000, "kind.summary": 1000, "kind.megabytes": 3},
        fuzz=20000,
        rule="pairs of files (empty to megabytes, text, zeros, 0xff, newlines; equal, one byte changed at any position, "
             "prefixes, swapped bytes, links, sparse files over 4 GiB), missing, dangling and unreadable ones, against "
             "plain system calls; every pair is non-trivial; distinct by size, first bytes and kind",
    ),
    "D01": dict(
        cases={"san": 1500, "rel": 8000},
        need={"state": 8000, "continues": 5000000, "success": 8000, "missing.failure": 100, "seed.upper_half": 500,
              "seed.wide": 2000},
        prepare=build_dumpmt,
        rule="runs of the built program with seeds of every magnitude, the extremes and leading zeros, against the "
             "published definition of the generator and the next 700 numbers; runs without an argument; non-trivial: "
             "with a seed; distinct by seed",
    ),
})
CHECKS.update({
    "I01": dict(
        module="i01",
        need={"unit.compiled": 60, "unit.single_header": 40, "program.linked": 30, "program.run": 30, "results": 200,
              "headers_observed": 24},
        rule="programs of two to four translation units (g++ and clang++, several flags) that include every header alone "
             "and random sets of headers in random orders, some twice, and call every public function of each; built, "
             "linked and run, results compared between units and programs; every program is non-trivial; distinct by "
             "compiler and headers of each unit",
    ),
})
CHECKS.update({
    "Z01": dict(
        module="z01",
        need={"operation": 15000, "made": 5000, "restored": 400, "corner": 3000, "memcheck.cases": 300,
              "observations": 500000},
        rule="a soup of calls on objects of 16 types in any state with copies, restores and corner cases, and the "
             "workloads of all other checks, under address, leak and undefined-behaviour sanitizers with the checked "
             "standard library and assertions on, and under memcheck; only their reports count; every case is "
             "non-trivial; distinct by workload and its own rule",
    ),
})
