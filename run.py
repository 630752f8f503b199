#!/usr/bin/env python3
"""Driver of the checks: build the harness of a property against /repo's
working tree, run its monitored executions, judge what was observed.

  run.py ID [--tier quick|thorough] [--replay BUILD:INDEX]

exit 0: held on everything explored   exit 1: VIOLATION line printed
exit 2: no verdict (build tools failing, too few observations, ...)
"""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("BWSL_REPO", "/repo")
import checks  # noqa: E402

NCPU = int(os.environ.get("VF_JOBS", os.cpu_count() or 8))
COMMON = ["-std=gnu++17", "-I" + os.path.join(REPO, "include"),
          "-I" + os.path.join(HERE, "harness"), "-DFMT_HEADER_ONLY", "-w"]
SAN = ["-g1", "-fno-omit-frame-pointer", "-fno-sanitize-recover=all"]
BUILDS = {
    # optimised, assertions off, as the project is built
    "rel": ["g++", "-O2", "-DNDEBUG"],
    # assertions on, checked standard library, memory and UB sanitizers
    "san": ["clang++", "-O1", "-D_GLIBCXX_ASSERTIONS",
            "-fsanitize=address,undefined"] + SAN,
    "dbg": ["g++", "-O1", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_ASSERTIONS",
            "-fsanitize=address,undefined"] + SAN,
    "tsan": ["clang++", "-O1", "-fsanitize=thread", "-g1",
             "-fno-omit-frame-pointer"],
    "fuzz": ["clang++", "-O1", "-DVF_FUZZ", "-D_GLIBCXX_ASSERTIONS",
             "-fsanitize=fuzzer,address,undefined"] + SAN,
}
LINK = ["-lboost_serialization", "-lpthread"]
ENV = dict(
    os.environ,
    ASAN_OPTIONS="abort_on_error=0:exitcode=98:detect_leaks=1:"
    "hard_rss_limit_mb=3000:detect_stack_use_after_return=1:"
    "strict_init_order=1:check_initialization_order=1:detect_container_overflow=1",
    UBSAN_OPTIONS="print_stacktrace=1:exitcode=98",
    TSAN_OPTIONS="exitcode=98:halt_on_error=1:second_deadlock_stack=1:history_size=4",
    LC_ALL="C", TMPDIR="",
)


class NoVerdict(Exception):
    pass


class State:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = checks.CHECKS[pid]
        self.work = os.path.join(HERE, "build", pid)
        self.t0 = time.time()
        self.events, self.samples, self.sigs = {}, [], set()
        self.evals = 0
        self.viol = []  # (key, msg, build, idx, desc)
        self.notes = []
        self.lock = threading.Lock()
        self.extra = {}
        # cases stop being started here: a tree on which every case is very
        # slow still gets an answer, from what was observed until then
        self.deadline = self.t0 + (600 if tier == "quick" else 6 * 3600)
        self.tviol = None

    def violation(self, key, msg, build="", idx=-1, desc=""):
        with self.lock:
            self.tviol = self.tviol or time.time()
            self.viol.append((key, msg, build, idx, desc))

    def decided(self):
        """A violation is known and others had their time to show."""
        return len(self.viol) > 200 or self.tviol is not None and (
            time.time() - self.tviol > 60 or any(v[0] == "hang" for v in self.viol))


def sh(cmd, timeout, cwd=None, env=None):
    """Run a command in its own process group; kill the group on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        rc = None
    return rc, o.decode("utf8", "replace"), e.decode("utf8", "replace")


# ------------------------------------------------------------------ building
def compile_one(st, build, src, obj, defs):
    cmd = BUILDS[build] + COMMON + defs + ["-c", src, "-o", obj]
    return sh(cmd, 600)


def build_all(st, builds):
    """Compile and link the harness in each of the builds, in parallel."""
    cfg = st.cfg
    main = os.path.join(HERE, "harness", "vf_main.cpp")
    srcs = cfg.get("sources") or [(cfg.get("harness", st.pid) + ".cpp", [])]
    jobs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for b in builds:
            d = os.path.join(st.work, b)
            os.makedirs(d, exist_ok=True)
            tag = ["-DVF_SAN=%d" % (b != "rel"), '-DVF_REPO="%s"' % REPO] + cfg.get("defs", [])
            if st.tier == "thorough":
                tag.append("-DVF_THOROUGH")
            objs = [(main, os.path.join(d, "main.o"), [])]
            for i, (s, dd) in enumerate(srcs):
                objs.append((os.path.join(HERE, "harness", s), os.path.join(d, "h%d.o" % i), dd))
            for s, o, dd in objs:
                jobs.append((b, s, o, ex.submit(compile_one, st, b, s, o, tag + dd)))
    for b, s, o, f in jobs:
        rc, _, err = f.result()
        if rc != 0:
            build_failed(st, b, s, err, rc)
            return False
    for b in builds:
        objs = [o for bb, s, o, f in jobs if bb == b]
        exe = os.path.join(st.work, b, "h")
        rc, _, err = sh(BUILDS[b] + objs + ["-o", exe] + LINK, 300)
        if rc != 0:
            build_failed(st, b, "link", err, rc)
            return False
    return True


def build_failed(st, b, s, err, rc):
    """A harness only uses the documented public interface.  If it no longer
    compiles while the same compiler still compiles a control program, then a
    program that relies on the property cannot even be built."""
    ctl = os.path.join(st.work, "control.cpp")
    with open(ctl, "w") as f:
        f.write('#include "vf.hpp"\n#include <fmt/format.h>\n#include <fmt/ostream.h>\n'
                "#include <boost/archive/text_iarchive.hpp>\n"
                "void run_case(vf::Ctx&) {}\n")
    main = os.path.join(HERE, "harness", "vf_main.cpp")
    crc, _, cerr = sh(BUILDS[b] + COMMON + [ctl, main, "-o", ctl + ".exe"] + LINK, 600)
    if rc is None or crc != 0:
        raise NoVerdict("building fails even without the library: %s\n%s" % (err[-800:], cerr[-800:]))
    bad = [l for l in err.splitlines() if "error" in l or "undefined" in l or "multiple def" in l]
    st.violation("build", "%s (%s build) no longer builds: %s" %
                 (os.path.basename(s), b, " | ".join(bad[:4])[:900]), b)


# ------------------------------------------------------------------- running
def limit(build):
    def f():
        if build == "rel":
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 30, 64 << 30))
    return f


def crash_key(rc, err):
    """Name the kind of a crash from the sanitizer report."""
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", err)
    if m:
        k = "%s.%s" % (m.group(1), m.group(2))
    elif "WARNING: ThreadSanitizer" in err:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
        k = "ThreadSanitizer." + m.group(1).strip().replace(" ", "-")
    elif "runtime error:" in err:
        m = re.search(r"runtime error: ([\w -]{0,40})", err)
        k = "UndefinedBehaviorSanitizer." + re.sub(r"[^a-z]+", "-", m.group(1).lower()).strip("-")
    elif "LeakSanitizer" in err:
        k = "LeakSanitizer"
    elif "Assertion" in err or "__glibcxx_assert" in err or "Error: " in err:
        k = "assertion"
    elif "hard rss limit" in err:
        k = "memory-exhausted"
    elif "terminate called" in err:
        k = "terminate"
    else:
        k = "exit%s" % rc
    fr = re.findall(r"include/bwsl/([\w/]+\.hpp):(\d+)", err)
    return "crash." + k, ("at bwsl/%s:%s" % fr[0]) if fr else ""


def first_lines(err):
    ls = [l for l in err.splitlines() if l.strip() and not l.startswith("=====")]
    return " | ".join(ls[:6])[:700]


def run_once(st, build, a, b, alarm, tag):
    d = os.path.join(st.work, build)
    out = os.path.join(d, "o.%s.json" % tag)
    prog = os.path.join(d, "p.%s" % tag)
    scratch = os.path.join(d, "scratch.%s" % tag)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    for f in (out, out + ".sig", prog):
        if os.path.exists(f):
            os.unlink(f)
    env = dict(ENV, VF_SCRATCH=scratch, TMPDIR=scratch)
    env.update(st.extra.get("env", {}))
    cmd = [os.path.join(d, "h"), "--seed", str(st.seed), "--from", str(a), "--to", str(b),
           "--out", out, "--progress", prog, "--alarm", str(alarm),
           "--deadline", str(int(max(st.deadline, time.time() + 2))),
           "--thorough", "1" if st.tier == "thorough" else "0"]
    p = subprocess.Popen(cmd, cwd=scratch, env=env, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, preexec_fn=limit(build))
    until = st.deadline + 120
    rc = None
    while True:
        try:
            _, err = p.communicate(timeout=5)
            rc = p.returncode
            break
        except subprocess.TimeoutExpired:
            if time.time() < until and not st.decided():
                continue
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            _, err = p.communicate()
            break
    err = err.decode("utf8", "replace")
    try:
        with open(prog, "rb") as f:
            at = struct.unpack("<Q", f.read(8))[0]
    except Exception:
        at = a
    res = None
    if os.path.exists(out):
        try:
            with open(out) as f:
                res = json.load(f)
        except Exception:
            res = None
        try:
            with open(out + ".sig", "rb") as f:
                raw = f.read()
            with st.lock:
                st.sigs.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
        except Exception:
            pass
    shutil.rmtree(scratch, ignore_errors=True)
    return rc, err, at, res


def merge(st, build, res):
    with st.lock:
        st.evals += res["evaluations"]
        for k, v in res["events"].items():
            st.events[k] = st.events.get(k, 0) + v
        if len(st.samples) < 6:
            st.samples += res["samples"][:2]
    for v in res["violations"]:
        st.violation(v["key"], v["msg"], build, v["case"], v["desc"])


def run_chunk(st, build, a, b, tag):
    alarm = st.cfg.get("alarm", 30)
    crashes = 0
    while a < b:
        if st.decided() or time.time() > st.deadline:
            return
        rc, err, at, res = run_once(st, build, a, b, alarm, tag)
        if res is not None:
            merge(st, build, res)
        if rc == 0 and res is not None:
            return
        if rc is None:
            st.notes.append("%s chunk %s stopped by its watchdog" % (build, tag))
            return
        if res is not None:  # all cases ran; the report came at exit (leaks)
            k, where = crash_key(rc, err)
            st.violation(k, "%s %s" % (where, first_lines(err)), build, a, "at exit of cases %d..%d" % (a, b))
            return
        if rc == 97 or "VF-HANG" in err:
            rc2, err2, _, res2 = run_once(st, build, at, at + 1, 3 * alarm, tag)
            if rc2 == 97:
                st.violation("hang", "case %d does not terminate" % at, build, at)
                return
            elif rc2 == 0 and res2 is not None:
                merge(st, build, res2)
                st.notes.append("case %d was slow once" % at)
        elif rc == 96:
            raise NoVerdict("harness cannot write its output")
        else:
            rc2, err2, _, res2 = run_once(st, build, at, at + 1, 3 * alarm, tag)
            if rc2 == 0 and res2 is not None and not checks.CHECKS[st.pid].get("keep_first_crash"):
                # not reproducible alone: state carried over from other cases
                rc3, err3, at3, res3 = run_once(st, build, a, at + 1, alarm, tag)
                if rc3 == 0:
                    st.notes.append("crash at case %d did not repeat: %s" % (at, first_lines(err)))
                    st.extra["flaky"] = True
                    a = at + 1
                    continue
            k, where = crash_key(rc, err)
            st.violation(k, "%s %s" % (where, first_lines(err)), build, at)
        crashes += 1
        if crashes >= 3:
            return
        a = at + 1


FAR = 1 << 40  # case numbers of very long histories


def run_marathon(st, i):
    """One history of more than 2^32 operations, optimised build only.  A
    tree that needs much longer for it is not judged by it."""
    rc, err, at, res = run_once(st, "rel", FAR + i, FAR + i + 1, 300, "far%d" % i)
    if res is not None:
        merge(st, "rel", res)
    elif rc in (97, None):
        st.notes.append("long history %d stopped by its watchdog (inconclusive)" % i)
    else:
        k, where = crash_key(rc, err)
        st.violation(k, "%s %s" % (where, first_lines(err)), "rel", FAR + i)


def run_cases(st, plan, marathon=0):
    """plan: list of (build, from, to)"""
    jobs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for i in range(marathon):
            jobs.append(ex.submit(run_marathon, st, i))
        for build, a, b in plan:
            n = b - a
            parts = min(n, NCPU * st.cfg.get("split", 2))
            for i in range(parts):
                lo, hi = a + n * i // parts, a + n * (i + 1) // parts
                if lo < hi:
                    jobs.append(ex.submit(run_chunk, st, build, lo, hi, "%d" % i))
        for j in jobs:
            j.result()


def fuzz(st, runs):
    """Coverage-guided workloads for the same oracle."""
    d = os.path.join(st.work, "fuzz")

    def one(i):
        corpus = os.path.join(d, "corpus%d" % i)
        scratch = os.path.join(d, "scratch%d" % i)
        for x in (corpus, scratch):
            shutil.rmtree(x, ignore_errors=True)
            os.makedirs(x)
        env = dict(ENV, VF_SCRATCH=scratch, TMPDIR=scratch)
        env.update(st.extra.get("env", {}))
        cmd = [os.path.join(d, "h"), corpus, "-seed=%d" % (st.seed * 100 + i + 1),
               "-runs=%d" % runs, "-max_total_time=1200", "-max_len=%d" % (4096 if i % 2 else 512),
               "-len_control=20", "-timeout=120", "-rss_limit_mb=3000", "-print_final_stats=1",
               "-artifact_prefix=%s/crash%d-" % (d, i)]
        rc, o, e = sh(cmd, 1800, cwd=scratch, env=env)
        m = re.search(r"number_of_executed_units: (\d+)", e)
        n = int(m.group(1)) if m else 0
        cov = re.findall(r"cov: (\d+)", e)
        with st.lock:
            st.evals += n
            st.events["fuzz.executions"] = st.events.get("fuzz.executions", 0) + n
            st.events["fuzz.coverage_max"] = max(st.events.get("fuzz.coverage_max", 0),
                                                 int(cov[-1]) if cov else 0)
        if rc not in (0, None):
            m = re.search(r"VF-VIOLATION key=(\S+) msg=(.*)", e)
            if m:
                st.violation(m.group(1), m.group(2)[:800], "fuzz", -1, "")
            elif "libFuzzer: timeout" in e:
                st.notes.append("a fuzzed input ran into the watchdog (inconclusive)")
            elif "libFuzzer: out-of-memory" in e:
                st.notes.append("a fuzzed input used much memory (inconclusive)")
            else:
                k, where = crash_key(rc, e)
                st.violation(k, where + " " + first_lines(e), "fuzz", -1)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, range(NCPU)))


# ------------------------------------------------------------------- verdict
def known_findings():
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                m = re.match(r"finding: property=(\S+) key=(\S+) match=/(.*?)/ (.*)", l)
                if m:
                    r.append(m.groups())
    return r


def finish(st):
    kf = [k for k in known_findings() if k[0] == st.pid]
    seen, real = {}, []
    for v in st.viol:
        hit = [k for k in kf if k[1] == v[0] and re.search(k[2], v[1])]
        if hit:
            seen[hit[0]] = seen.get(hit[0], 0) + 1
        else:
            real.append(v)
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (st.pid, k[3]))
    missing = [k for k, n in st.cfg.get("need", {}).items() if st.events.get(k, 0) < n]
    ev = {
        "property": st.pid, "tier": st.tier, "seed": st.seed, "level": st.cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": len(st.sigs),
            "rule": st.cfg["rule"] + ("; and %d histories of more than 2^32 operations" %
                                      st.cfg["marathon"] if "marathon" in st.cfg else ""),
            "samples": st.samples[:6],
            "events": dict(sorted(st.events.items())),
        },
        "assumptions": st.cfg.get("assumptions", []) + st.notes,
        "wall_s": round(time.time() - st.t0, 2),
        "violations": len(real),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", st.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if real:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        real.sort(key=lambda v: (v[3] < 0, len(v[4])))
        path = os.path.join(rd, "%s.json" % st.pid)
        with open(path, "w") as f:
            json.dump({"property": st.pid, "seed": st.seed, "tier": st.tier,
                       "replay_cmd": "VERIF_SEED=%d python3 run.py %s --tier %s --replay %s:%d" %
                       (st.seed, st.pid, st.tier, real[0][2] or "san", real[0][3]),
                       "violations": [dict(zip(("clause", "observed", "build", "case", "workload"), v))
                                      for v in real[:40]]}, f, indent=1)
        for v in real[:5]:
            print("  [%s] %s (build %s, case %s) %s" % (v[0], v[1][:400], v[2], v[3], v[4][:200]))
        print("VIOLATION property=%s replay=%s" % (st.pid, path))
        return 1
    if st.extra.get("flaky"):
        print("no verdict: " + "; ".join(st.notes))
        return 2
    if missing:
        print("no verdict: too few observations of " +
              ", ".join("%s (%d)" % (k, st.events.get(k, 0)) for k in missing))
        return 2
    print("%s held: %d executions, %d distinct, %d events, %.1f s" %
          (st.pid, st.evals, len(st.sigs), sum(st.events.values()), time.time() - st.t0))
    return 0


def main():
    av = sys.argv[1:]
    pid = av[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    for i, a in enumerate(av):
        if a == "--tier":
            tier = av[i + 1]
        if a == "--replay":
            replay = av[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    st = State(pid, tier, seed)
    shutil.rmtree(st.work, ignore_errors=True)
    os.makedirs(st.work)
    try:
        if "module" in st.cfg:
            import importlib
            mod = importlib.import_module(st.cfg["module"])
            mod.run(st, sys.modules[__name__])
        else:
            cases = st.cfg["cases"]
            if replay:
                b, i = replay.split(":")
                if "prepare" in st.cfg:
                    st.cfg["prepare"](st, sys.modules[__name__])
                if build_all(st, [b]):
                    if int(i) >= FAR:
                        run_marathon(st, int(i) - FAR)
                    else:
                        run_cases(st, [(b, int(i), int(i) + 1)])
                st.cfg = dict(st.cfg, need={})
            else:
                mult = 1 if tier == "quick" else st.cfg.get("thorough_mult", 25)
                builds = list(cases)
                ok = True
                if "prepare" in st.cfg:
                    ok = st.cfg["prepare"](st, sys.modules[__name__]) is not False
                wantfuzz = tier == "thorough" and st.cfg.get("fuzz", 0)
                if ok and build_all(st, builds + (["fuzz"] if wantfuzz else [])):
                    plan, base = [], 0
                    for b in builds:
                        n = int(cases[b] * float(os.environ.get("VF_SCALE", "1"))) * mult
                        plan.append((b, base, base + n))
                        base += n
                    run_cases(st, plan, st.cfg.get("marathon", 0))
                    if wantfuzz:
                        fuzz(st, st.cfg["fuzz"])
        rc = finish(st)
    except NoVerdict as e:
        print("no verdict: %s" % e)
        rc = 2
    if not os.environ.get("VF_KEEP"):
        shutil.rmtree(st.work, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
