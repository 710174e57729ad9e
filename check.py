#!/usr/bin/env python3
"""Runs one check: builds its explorer from /repo's current tree, runs it, writes the evidence.

usage: check.py <property> [quick|thorough] [--replay FILE] [--keep] [--only SPACE]
exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself couldn't run.
"""
import glob, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VFC_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks_table import CHECKS

BASE = ["-std=c++14", "-g1", "-w", "-fno-strict-aliasing", "-pthread"]
ASAN = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
FAST = ["-O2", "-D_GLIBCXX_ASSERTIONS"]


def lib_sources():
    return sorted(glob.glob(REPO + "/lib/src/**/*.cpp", recursive=True))


def tool_sources(with_main):
    return [f for f in sorted(glob.glob(REPO + "/tool/*.cpp")) if with_main or os.path.basename(f) != "main.cpp"]


class BuildError(Exception):
    pass


def run_compiler(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])


def build(spec, work):
    """Compiles every unit of the check in parallel and links it."""
    flags = BASE + (ASAN if spec.get("asan") else FAST)
    dirs = ["-isystem", "/opt/vp/deps/include", "-I" + VERIF + "/harness/export", "-I" + REPO + "/lib/include", "-I" + REPO + "/lib/src",
            "-I" + REPO + "/tool", "-I" + VERIF + "/harness"]
    units = [(VERIF + "/checks/" + s, spec.get("harness_flags", [])) for s in spec["src"]]
    # Library first: its (possibly instrumented) copies of inline functions are the ones linked.
    units = [(f, spec.get("lib_flags", [])) for f in lib_sources()] + \
        [(VERIF + "/checks/" + s, spec.get("lib_flags", [])) for s in spec.get("instrumented", [])] + units
    for extra in spec.get("extra_lib", []):  # further copies of the library under other flags
        units += [(f, [a.replace("@VERIF@", VERIF) for a in extra]) for f in lib_sources()]
    if spec.get("tool"):
        units += [(f, spec.get("tool_flags", [])) for f in tool_sources(spec["tool"] == "main")]
    compiler = spec.get("compiler", "g++")
    jobs, objs = [], []
    for i, (src, extra) in enumerate(units):
        obj = "%s/%d.o" % (work, i)
        objs.append(obj)
        jobs.append(os.environ.get("VERIF_LAUNCHER", "").split() + [compiler] + flags + [a.replace("@VERIF@", VERIF) for a in extra] + dirs + ["-c", src, "-o", obj])
    with ThreadPoolExecutor(8) as pool:
        list(pool.map(run_compiler, jobs))
    exe = work + "/explorer"
    run_compiler([compiler] + flags + objs + ["-o", exe] + spec.get("link", []))
    return exe


def known_findings(prop):
    keys = []
    with open(VERIF + "/known_findings.txt") as f:
        for line in f:
            if line.startswith("finding: property=%s " % prop):
                keys.append(line.split("key=", 1)[1].split()[0])
    return keys


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = "quick"
    replay = only = None
    keep = False
    rest = args[1:]
    while rest:
        a = rest.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = rest.pop(0)
        elif a == "--only":
            only = rest.pop(0)
        elif a == "--keep":
            keep = True
    spec = CHECKS[prop]
    start = time.time()
    work = "%s/out/%s.%s.%d" % (VERIF, prop, tier, os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work + "/scratch")
    replays = VERIF + "/out/replay"
    os.makedirs(replays, exist_ok=True)
    try:
        exe = build(spec, work)
        built = time.time()
        env = dict(os.environ)
        env["LC_ALL"] = "C.UTF-8"
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:quarantine_size_mb=16:max_allocation_size_mb=%d:allocator_may_return_null=0:handle_abort=0" % (4096 if tier == "quick" else 16384)
        cmd = [exe, "--property", prop, "--tier", tier, "--result", work + "/result.json", "--replay-dir", replays,
               "--scratch", work + "/scratch", "--deadline", "500" if tier == "quick" else os.environ.get("VERIF_DEADLINE", "10000")]
        for k in known_findings(prop):
            cmd += ["--known", k]
        if only:
            cmd += ["--only", only]
        if replay:
            cmd += ["--replay", replay]
            return subprocess.run(cmd, env=env).returncode
        p = subprocess.run(cmd, env=env)
        if p.returncode not in (0, 1) or not os.path.exists(work + "/result.json"):
            print("error: explorer for %s exited with %d" % (prop, p.returncode))
            return 2
        with open(work + "/result.json") as f:
            r = json.load(f)
        return report(prop, tier, spec, r, start, built)
    except BuildError as e:
        print("error: building the check for %s failed\n%s" % (prop, e))
        return 2
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


def report(prop, tier, spec, r, start, built):
    level = spec.get("level", "model_checking")
    cov = {
        "samples": r["samples"] or ["(none: stopped at the first violation)"],
        "spaces": r["spaces"],
        "situations": r["cover"],
        "exhaustive": bool(r["exhaustive"]),
    }
    if level == "fault_enumeration":
        cov.update(evaluations=r["executions"], distinct_nontrivial=r["nontrivial"], rule=spec["rule"])
    else:
        cov.update(states=r["states"], transitions=r["transitions"], traces_validated_against_impl=r["traces"],
                   executions=r["executions"], nontrivial_executions=r["nontrivial"])
    if r["state_table_full"]:
        cov["states_note"] = "the table of distinct states filled up; states is a lower bound"
    evidence = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
        "coverage": cov,
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - start, 2), "violations": 1 if r["violation"] else 0,
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    tmp = "%s/evidence/.%s.%d" % (VERIF, prop, os.getpid())
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.rename(tmp, "%s/evidence/%s.json" % (VERIF, prop))
    for k in r["known"]:
        print("KNOWN-FINDING: property=%s %s (%d executions)" % (prop, k["key"], k["count"]))
    print("%s %s: %d executions, %d transitions, %d states, exhaustive=%s, build %.1fs, total %.1fs" % (
        prop, tier, r["executions"], r["transitions"], r["states"], r["exhaustive"], built - start, time.time() - start))
    if r["violation"]:
        print(r["message"])
        if r["notes"]:
            print(r["notes"])
        print("VIOLATION property=%s replay=%s" % (prop, r["replay"]))
        return 1
    if r["unconfirmed"]:
        print("error: a failure was seen that doesn't repeat when run again")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
