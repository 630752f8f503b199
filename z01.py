"""All workloads again, judged only by sanitizers, the checked standard
library, the library's own assertions and memcheck: whatever the results are,
no execution may touch memory it should not or rely on undefined behaviour."""
import concurrent.futures as cf
import os
import re
import shutil
import time

# cases of each harness with sanitizers and with memcheck (quick tier)
PLAN = {
    "Z01": (4000, 60), "K01": (300, 6), "S01": (500, 12), "G01": (400, 10), "G02": (400, 10), "G03": (400, 10),
    "G04": (400, 10), "L01": (400, 10), "L02": (80, 3), "L03": (200, 6), "L04": (150, 5), "L05": (100, 4),
    "L06": (60, 4), "A01": (800, 20), "A02": (600, 15), "A03": (600, 15), "A04": (800, 20), "A05": (800, 20),
    "H01": (800, 20), "O01": (300, 10), "M01": (1000, 20), "R01": (4000, 50), "R02": (4000, 50), "R03": (4000, 50),
    "E01": (2000, 40), "C01": (600, 6), "U01": (100, 3), "U02": (4000, 50), "U03": (2000, 40), "N01": (600, 10),
    "N02": (500, 10), "X01": (3000, 40), "X02": (400, 6), "F01": (600, 20),
}


# boost's archives are in a library built without _GLIBCXX_DEBUG
SANITIZED = {"Z01": ("dbg", "san"), "S01": ("san",), "A05": ("san",)}


def run(st, drv):
    import checks
    mult = 1 if st.tier == "quick" else 25
    only = os.environ.get("VF_ONLY")
    plan = {h: v for h, v in PLAN.items() if not only or h in only.split(",")}
    drv.BUILDS["vg"] = ["g++", "-O1", "-g1"]
    subs = {}
    for h in plan:
        s = drv.State("Z01", st.tier, st.seed)
        s.pid = h
        s.cfg = dict(checks.CHECKS[h]) if h != "Z01" else {"harness": "Z01"}
        s.cfg.pop("prepare", None)
        s.cfg["split"] = 1
        s.cfg["alarm"] = 120
        s.work = os.path.join(st.work, h)
        os.makedirs(s.work)
        subs[h] = s
    drv.ENV["ASAN_OPTIONS"] += ":handle_abort=1"

    def build(h, b):
        s = subs[h]
        try:
            return drv.build_all(s, [b])
        except drv.NoVerdict:
            return None

    builds = {}
    with cf.ThreadPoolExecutor(drv.NCPU) as ex:
        js = {(h, b): ex.submit(build, h, b) for h in plan for b in SANITIZED.get(h, ("dbg",)) + ("vg",)}
        for k, j in js.items():
            builds[k] = j.result()
    failed = sorted({h for (h, b), ok in builds.items() if not ok})
    if None in builds.values() or len(failed) > 3 * len(plan) // 4:
        raise drv.NoVerdict("the workloads do not build: " + " ".join(failed))
    for h in failed:
        st.notes.append("the workload of %s does not build on this tree and was left out" % h)

    def chunk(h, bld, a, b, tag):
        drv.run_chunk(subs[h], bld, a, b, tag)

    def memcheck(h, a, b, tag):
        s = subs[h]
        d = os.path.join(s.work, "vg")
        scratch, out = os.path.join(d, "scratch" + tag), os.path.join(d, "o%s.json" % tag)
        os.makedirs(scratch)
        env = dict(drv.ENV, VF_SCRATCH=scratch, TMPDIR=scratch)
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite",
               "--track-origins=yes", "--exit-on-first-error=yes", os.path.join(d, "h"), "--seed", str(st.seed),
               "--from", str(a), "--to", str(b), "--out", out, "--alarm", "0"]
        rc, _, err = drv.sh(cmd, max(5, min(5000, st.deadline + 60 - time.time())), cwd=scratch, env=env)
        with st.lock:
            if rc == 0:
                st.events["memcheck.cases"] = st.events.get("memcheck.cases", 0) + (b - a)
                st.events["memcheck.runs"] = st.events.get("memcheck.runs", 0) + 1
        if rc == 99:
            ls = [re.sub(r"^==\d+== ?", "", l).strip() for l in err.splitlines() if l.startswith("==")]
            ls = [l for l in ls if l]
            where = re.search(r"\((\w+\.hpp:\d+)\)", err)
            st.violation("memcheck." + re.sub(r"[^A-Za-z]+", "-", ls[0] if ls else "")[:40],
                         "%s (workload of %s): %s" % (where.group(1) if where else "", h, " | ".join(ls[:6])[:600]), "vg", a)
        elif rc not in (0, None):
            # ended by an assertion or a signal; the sanitized run decides about it
            st.notes.append("memcheck of %s ended with %s: %s" % (h, rc, drv.first_lines(err)[:200]))
        shutil.rmtree(scratch, ignore_errors=True)

    with cf.ThreadPoolExecutor(drv.NCPU) as ex:
        js = []
        for h, (n, m) in sorted(plan.items(), key=lambda kv: kv[0] != "Z01"):
            n, m = n * mult, m * (1 if st.tier == "quick" else 10)
            for base, bld in enumerate(SANITIZED.get(h, ("dbg",))):
                if not builds[(h, bld)]:
                    continue
                parts = 8 if h == "Z01" else 2
                for i in range(parts):
                    js.append(ex.submit(chunk, h, bld, base * n + n * i // parts, base * n + n * (i + 1) // parts, "d%d" % i))
            if builds[(h, "vg")]:
                parts = 4 if h == "Z01" else 1
                for i in range(parts):
                    # other cases than the sanitized ones
                    js.append(ex.submit(memcheck, h, 10**7 + m * i // parts, 10**7 + m * (i + 1) // parts, "v%d" % i))
        for j in js:
            j.result()
    for h, s in subs.items():
        st.evals += s.evals
        st.sigs |= {x ^ drv_hash(h) for x in s.sigs}
        st.events["workload." + h] = s.evals
        for k, v in s.events.items():
            if h == "Z01":
                st.events[k] = st.events.get(k, 0) + v
        st.events["observations"] = st.events.get("observations", 0) + sum(s.events.values())
        if h == "Z01":
            st.samples += s.samples[:4]
        for key, msg, b, idx, desc in s.viol:
            if key.startswith("crash."):
                st.violation(key, "%s (workload of %s)" % (msg, h), b, idx, desc)
        st.notes += [n for n in s.notes if "slow" not in n]


def drv_hash(h):
    r = 0
    for ch in h:
        r = r * 1000003 + ord(ch)
    return r & 0xFFFFFFFFFFFFFFFF
