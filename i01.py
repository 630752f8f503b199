"""Programs of several translation units over random sets and orders of the
public headers: every one has to compile, link and run, and every unit has to
observe the same results from every header it uses."""
import concurrent.futures as cf
import glob
import os
import random
import shutil

STD = ["algorithm", "cmath", "cstdlib", "fstream", "iostream", "map", "random", "sstream", "string", "tuple", "vector",
       "boost/archive/text_iarchive.hpp", "boost/archive/text_oarchive.hpp"]


def headers(repo):
    root = os.path.join(repo, "include")
    r = sorted(os.path.relpath(p, root) for p in glob.glob(root + "/bwsl/**/*.hpp", recursive=True))
    return r


OWN = ["vector", "string", "map", "pair", "distance", "accumulate", "array", "optional", "function", "square", "cube", "max",
       "Bravais", "Lattice", "HyperCubicGrid", "Approx", "LinSpace", "RationalNum", "NaiveInteger", "MoveStats", "pairs",
       "montecarlo", "accumulators", "format", "print"]


def inc_name(here, h):
    n = os.path.join(here, "harness", "i01", h[len("bwsl/"):-4].replace("/", "_") + ".inc")
    return n if os.path.exists(n) else None


def unit(here, rng, k, order, std_first, repeat):
    """Text of translation unit k, which includes the headers in this order."""
    t = []
    std = ["#include <%s>" % s for s in STD]
    if std_first:
        t += std
    for h in order:
        t.append("#include <%s>" % h)
    for h in repeat:
        t.append("#include <%s>" % h)
    if not std_first:
        t += std
    calls = []
    for h in dict.fromkeys(order):
        n = inc_name(here, h)
        if n:
            ns = "use_" + h[5:-4].replace("/", "_")
            t.append('namespace { namespace %s {\n#include "%s"\n} }' % (ns, os.path.basename(n)))
            calls.append('  o << "%d\\t%s\\t"; { std::ostringstream s; s.precision(10); %s::use(s); std::string x = s.str(); '
                         "for (auto& ch : x) if (ch == '\\n' || ch == '\\t') ch = ' '; o << x; } o << '\\n';" % (k, h, ns))
    # the program's own names stay its own
    t.append("namespace {\nstruct %s { int x; };\n}\nstatic int own() { return %s; }" %
             (" { int x; };\nstruct ".join(OWN), " + ".join("%s{ 1 }.x" % n for n in OWN)))
    t.append("void unit%d(std::ostream& o) {\n%s\n  if (own() != %d) std::abort();\n}" % (k, "\n".join(calls), len(OWN)))
    return "\n".join(t) + "\n"


def run(st, drv):
    here, rng = drv.HERE, random.Random(st.seed * 1000003 + 17)
    hs = headers(drv.REPO)
    known = [h for h in hs if inc_name(here, h)]
    flags = ["-std=gnu++17", "-O0", "-w", "-DFMT_HEADER_ONLY", "-I" + os.path.join(drv.REPO, "include"),
             "-I" + os.path.join(here, "harness", "i01")]
    progs = []
    for h in hs:  # every header alone, in two units
        cc = rng.choice(["g++", "clang++"])
        progs.append((cc, [], [([h], False, [h]), ([h], False, [])]))
    n = 10 if st.tier == "quick" else 120
    for i in range(n):
        units = []
        for k in range(rng.choice([2, 3, 3, 4])):
            if i % 3 == 0:
                o = list(hs)
            else:
                o = rng.sample(hs, rng.randint(2, len(hs)))
            rng.shuffle(o)
            units.append((o, rng.random() < 0.3, rng.sample(o, rng.randint(0, len(o)))))
        extra = rng.choice([[], ["-DNDEBUG"], ["-O1"], ["-std=gnu++20"], ["-fsanitize=undefined", "-fno-sanitize-recover=all"]])
        progs.append((rng.choice(["g++", "clang++"]), extra, units))
    if st.tier != "quick":
        # every ordered pair of headers, in one unit, the second header possibly relying on the first
        for a in hs:
            for b in hs:
                if a < b:
                    progs.append((rng.choice(["g++", "clang++"]), [], [([a, b], False, []), ([b, a], False, [])]))
    ev = st.events

    def count(k, m=1):
        with st.lock:
            ev[k] = ev.get(k, 0) + m

    def control(cc, extra, d):
        p = os.path.join(d, "control.cpp")
        with open(p, "w") as f:
            f.write("".join("#include <%s>\n" % s for s in STD) + "#include <fmt/format.h>\n#include <fmt/ostream.h>\n"
                    "#include <boost/preprocessor.hpp>\nint main() { std::cout << 1; }\n")
        rc, _, err = drv.sh([cc] + flags + extra + [p, "-o", p + ".exe"] + drv.LINK, 600)
        if rc != 0:
            raise drv.NoVerdict("the compiler fails without the library: " + err[-600:])

    results = {}  # header -> {text: where}

    def one(i):
        cc, extra, units = progs[i]
        d = os.path.join(st.work, "p%d" % i)
        os.makedirs(os.path.join(d, "scratch"))
        # one unit includes nothing but is part of the program as well
        with open(os.path.join(d, "main.cpp"), "w") as f:
            f.write("#include <iostream>\n" + "".join("void unit%d(std::ostream&);\n" % k for k in range(len(units))) +
                    "int main() {\n std::cout.precision(10);\n" +
                    "".join(" unit%d(std::cout);\n" % k for k in range(len(units))) + "}\n")
        objs = []
        for k, (o, first, rep) in enumerate(units):
            src = os.path.join(d, "u%d.cpp" % k)
            with open(src, "w") as f:
                f.write(unit(here, rng, k, o, first, rep))
            rc, _, err = drv.sh([cc] + flags + extra + ["-c", src, "-o", src + ".o"], 600)
            if rc != 0:
                control(cc, extra, d)
                bad = [l for l in err.splitlines() if "error" in l]
                st.violation("compiles", "a unit including %s does not compile with %s: %s" %
                             (", ".join(o)[:300], cc, " | ".join(bad[:3])[:600]), cc, i)
                return
            objs.append(src + ".o")
            count("unit.compiled")
            if len(o) == 1:
                count("unit.single_header")
            if rep:
                count("unit.repeated_headers")
        exe = os.path.join(d, "prog")
        rc, _, err = drv.sh([cc] + flags + extra + [os.path.join(d, "main.cpp")] + objs + ["-o", exe] + drv.LINK, 600)
        if rc != 0:
            control(cc, extra, d)
            bad = [l for l in err.splitlines() if "multiple definition" in l or "undefined" in l or "error" in l]
            st.violation("links", "units including [%s] do not link with %s: %s" %
                         ("] [".join(", ".join(u[0]) for u in units)[:300], cc, " | ".join(bad[:3])[:600]), cc, i)
            return
        count("program.linked")
        env = dict(drv.ENV, VF_SCRATCH=os.path.join(d, "scratch"))
        rc, out, err = drv.sh([exe], 120, cwd=os.path.join(d, "scratch"), env=env)
        if rc != 0:
            st.violation("runs", "a program of units [%s] ends with %s: %s" %
                         ("] [".join(", ".join(u[0]) for u in units)[:300], rc, drv.first_lines(err)), cc, i)
            return
        count("program.run")
        seen = {}
        for l in out.splitlines():
            k, h, t = l.split("\t", 2)
            seen.setdefault(h, {}).setdefault(t, []).append(k)
            count("results")
        with st.lock:
            st.evals += 1
            st.sigs.add(hash((cc, tuple(extra), tuple(tuple(u[0]) for u in units))))
            if len(st.samples) < 6 and len(units) > 2:
                st.samples.append("%s %s units %s" % (cc, " ".join(extra), " | ".join(" ".join(x[5:-4] for x in u[0][:6]) for u in units)))
        for h, m in seen.items():
            if len(m) > 1:
                a, b = list(m)[:2]
                st.violation("same_results", "%s: unit %s observes %.200s, unit %s of the same program %.200s" %
                             (h, m[a][0], a, m[b][0], b), cc, i)
            for t in m:
                with st.lock:
                    results.setdefault(h, {}).setdefault(t, (cc, i, units))
        shutil.rmtree(d, ignore_errors=True)

    with cf.ThreadPoolExecutor(drv.NCPU) as ex:
        jobs = [ex.submit(one, i) for i in range(len(progs))]
        for j in jobs:
            j.result()
    for h, m in results.items():
        ev["headers_observed"] = ev.get("headers_observed", 0) + 1
        if len(m) > 1:
            (a, wa), (b, wb) = list(m.items())[:2]
            st.violation("same_results", "%s: one program (%s) observes %.200s, another (%s) %.200s" %
                         (h, wa[0], a, wb[0], b), wb[0], wb[1])
    ev["headers"] = len(hs)
    if len(known) < 20:
        raise drv.NoVerdict("only %d of the known headers exist" % len(known))
