#!/usr/bin/env python3
"""Runs the model checking of one property against the current working tree of /repo.

    check.py <property> [quick|thorough]      run the check
    check.py --replay <file>                  run again the execution of a reported violation
    check.py --list                           properties that have a check

Everything is built from scratch in a temporary directory outside of /repo; nothing is kept there.
"""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MC = os.path.join(HERE, "mc")
OUT = os.path.join(HERE, "out")

ASAN = ["-fsanitize=address", "-fsanitize=bounds,vla-bound,null,return,unreachable", "-fno-sanitize-recover=all"]

BUILDS = {
    # the library with the flags of its Makefile, plus sanitizers
    "asan": dict(lib=["-g", "-O1", "-fno-omit-frame-pointer"] + ASAN, cxx=["-g", "-O1"] + ASAN, link=ASAN),
    # every memory access of the library calls the scheduler of threads.cpp
    "threads": dict(lib=["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"], cxx=["-g", "-O1"],
                    link=["-Wl,--wrap=strtok,--wrap=tmpnam,--wrap=setlocale"]),
    # exactly as the Makefile builds it; the allocations of the library and of the harness go through the latter
    "memory": dict(lib=["-g", "-O0"], cxx=["-g", "-O1"],
                   link=["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "strdup", "strndup",
                                                          "time", "clock", "gettimeofday", "clock_gettime", "getpid", "getppid", "getuid", "geteuid", "isatty", "getenv"))]),
}

# property -> (build, extra harness sources)
PLAN = json.load(open(os.path.join(MC, "plan.json")))


def ncpu():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return 4


def scratch_root():
    # A file system in memory if there is one with room for it
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 1 << 30 and os.access("/dev/shm", os.W_OK):
            return "/dev/shm"
    except OSError:
        pass
    return tempfile.gettempdir()


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])


def build(prop, dest):
    plan = PLAN[prop]
    flags = BUILDS[plan.get("build", "asan")]
    lib = sorted(
        os.path.join(d, f) for d, _, fs in os.walk(os.path.join(REPO, "src")) for f in fs if f.endswith(".c")
    )
    if not lib:
        raise BuildError("no sources in " + REPO)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    jobs, objs = [], []
    for i, f in enumerate(lib):
        o = os.path.join(dest, "lib%d.o" % i)
        jobs.append(["gcc", "-std=c99", "-w"] + flags["lib"] + inc + ["-c", f, "-o", o])
        objs.append(o)
    cpp = ["engine.cpp", "model.cpp"] + plan.get("sources", [prop.lower() + ".cpp"])
    for f in cpp:
        o = os.path.join(dest, f + ".o")
        cxx = ["-g", "-O2"] if f in ("engine.cpp", "sysio.cpp", "threads.cpp") else flags["cxx"]
        jobs.insert(0, ["g++", "-std=c++17", "-Wall"] + cxx + inc[:1] + ["-I" + MC, "-c", os.path.join(MC, f), "-o", o])
        objs.append(o)
    with concurrent.futures.ThreadPoolExecutor(ncpu()) as ex:
        list(ex.map(run, jobs))
    exe = os.path.join(dest, "mc")
    run(["g++"] + flags["link"] + objs + ["-o", exe, "-ldl", "-lpthread"] + flags.get("libs", []))
    return exe


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ":".join([
        "detect_leaks=0", "strict_memcmp=0", "allocator_may_return_null=1", "quarantine_size_mb=8",
        "thread_local_quarantine_size_kb=64", "abort_on_error=0", "exitcode=99", "handle_abort=1",
        "detect_stack_use_after_return=0", "max_malloc_fill_size=4096", "malloc_context_size=6",
        "symbolize=1", "color=never",
    ])
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=99"
    e["LC_ALL"] = "C"
    e.pop("MALLOC_PERTURB_", None)
    return e


def engine(exe, prop, tier, base, extra, timeout=None):
    out = os.path.join(base, "result.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, "--property", prop, "--tier", tier, "--workers", str(ncpu()), "--scratch", base, "--out", out] + extra
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if r.returncode or not os.path.exists(out):
        raise BuildError("the explorer failed (%d): %s" % (r.returncode, r.stdout[-3000:]))
    return json.load(open(out))


def replay_once(exe, prop, tier, base, space, choices):
    cmd = [exe, "--property", prop, "--tier", tier, "--scratch", base, "--space", space, "--replay", choices]
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout


def known_findings(prop):
    # "finding: property=<id> key=<key> <what fails>" (the key is what the explorer calls it)
    res = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            mt = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if mt and mt.group(1) == prop:
                res[mt.group(2)] = mt.group(3).strip()
    return res


def evidence(prop, tier, wall, res, violations, extra=None):
    sp = res.get("spaces", []) if res else []
    cov = dict(
        states=sum(s["states"] for s in sp),
        transitions=sum(s["steps"] for s in sp),
        traces_validated_against_impl=sum(s["executions"] for s in sp),
        outcomes=sum(s["outcomes"] for s in sp),
        choice_points=sum(s["choice_nodes"] for s in sp),
        exhaustive=bool(sp) and all(s["exhaustive"] for s in sp),
        samples=[dict(space=s["name"], trace=x) for s in sp for x in s["samples"][-1:] if x],
        spaces=[{k: v for k, v in s.items() if k != "samples"} for s in sp],
    )
    if extra:
        cov.update(extra)
    ev = dict(
        property=prop,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "0") or 0),
        level="model_checking",
        coverage=cov,
        assumptions=PLAN[prop].get("assumptions", []),
        wall_s=round(wall, 2),
        violations=violations,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def save_replay(prop, tier, fail, trace):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, fail["space"]))
    with open(p, "w") as f:
        json.dump(dict(property=prop, tier=tier, space=fail["space"], choices=fail["choices"], message=fail["message"],
                       trace=trace, stderr=fail.get("stderr", "")[-6000:],
                       how="python3 /verif/check.py --replay " + p), f, indent=1)
        f.write("\n")
    return p


def check(prop, tier, keep=False, extra=()):
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=scratch_root())
    try:
        try:
            exe = build(prop, base)
        except BuildError as e:
            print("build failed: %s" % e)
            evidence(prop, tier, time.time() - t0, None, 0, dict(error="build failed"))
            return 2
        tb = time.time() - t0
        res = engine(exe, prop, tier, base, list(extra))
        fail = res.get("failure")
        for _ in range(2):
            if fail and fail["kind"] == 2: # not deterministic: once more
                res = engine(exe, prop, tier, base, list(extra))
                fail = res.get("failure")
        known = known_findings(prop)
        hit = {}
        for s in res["spaces"]:
            for k, n in s.get("findings", {}).items():
                hit[k] = hit.get(k, 0) + n
        for s in res["spaces"]:
            print("%-5s %-14s executions %9d  steps %10d  states %8d  outcomes %7d  %s%6.1f s" % (
                prop, s["name"], s["executions"], s["steps"], s["states"], s["outcomes"],
                "" if s["exhaustive"] else "NOT EXHAUSTIVE ", s["wall_s"]))
        unlisted = [k for k in hit if k not in known]
        if not fail and unlisted:
            fail = dict(kind=1, space="findings", message="finding not listed: " + ", ".join(unlisted), choices="", worker=0, workers=1)
        if fail and fail["space"] != "findings":
            # Report it only if it happens again: alone in a new process or, when it needs the
            # calls that came before it, in a second run of the whole space.
            rc, trace = replay_once(exe, prop, tier, base, fail["space"], fail["choices"])
            if rc == 1 and fail["kind"] != 3: # an endless loop takes long enough
                rc, trace = replay_once(exe, prop, tier, base, fail["space"], fail["choices"])
            if rc != 1:
                again = engine(exe, prop, tier, base, ["--space", fail["space"]] + list(extra)).get("failure")
                if not again or fail["kind"] == 2:
                    print("the failure could not be reproduced: %s %s [%s]: %s" % (fail["space"], fail["choices"], rc, fail["message"]))
                    print(fail.get("stderr", ""))
                    evidence(prop, tier, time.time() - t0, res, 0, dict(error="not reproducible: " + fail["message"]))
                    return 2
                trace += "\n(only after the previous executions of the worker) " + fail["message"]
        elif fail:
            trace = fail["message"]
        if fail:
            p = save_replay(prop, tier, fail, trace)
            print("space %s: %s" % (fail["space"], fail["message"]))
            print(trace[:3000])
            evidence(prop, tier, time.time() - t0, res, 1, dict(build_s=round(tb, 2)))
            print("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
        for k in known:
            if k in hit:
                print("KNOWN-FINDING: property=%s %s (%d executions)" % (prop, known[k], hit[k]))
        evidence(prop, tier, time.time() - t0, res, 0, dict(build_s=round(tb, 2), known_findings=hit))
        print("property %s held on everything explored (%s, %.1f s, build %.1f s)" % (prop, tier, time.time() - t0, tb))
        return 0
    except (BuildError, subprocess.SubprocessError, OSError, ValueError) as e:
        print("error of the check: %s" % e)
        evidence(prop, tier, time.time() - t0, None, 0, dict(error=str(e)[:500]))
        return 2
    finally:
        if keep:
            print("kept: " + base)
        else:
            shutil.rmtree(base, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        # Nothing is built ahead (every check builds from the current tree): only see that the tools are there
        for t in ("gcc", "g++"):
            if not shutil.which(t):
                print("missing: " + t)
                return 1
        return 0
    if a and a[0] == "--list":
        print("\n".join(sorted(PLAN)))
        return 0
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        base = tempfile.mkdtemp(prefix="verif-replay-", dir=scratch_root())
        try:
            exe = build(r["property"], base)
            rc, trace = replay_once(exe, r["property"], r["tier"], base, r["space"], r["choices"])
            print(trace)
            return rc
        finally:
            shutil.rmtree(base, ignore_errors=True)
    if not a or a[0] not in PLAN:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    keep = "--keep" in a
    extra = []
    if "--space" in a:
        extra = ["--space", a[a.index("--space") + 1]]
    return check(a[0], tier, keep, extra)


if __name__ == "__main__":
    sys.exit(main())
