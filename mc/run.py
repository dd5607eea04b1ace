#!/usr/bin/env python3
"""run.py <property> [tier] [--replay FILE]: build the property's harness from /repo/include and explore."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

MC = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(MC)
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, MC)
from checks import CHECKS

COMMON = ["-std=c++17", "-O1", "-w", "-pipe", "-I" + MC, "-I" + os.path.join(REPO, "include")]
SANENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1",
          "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}


def cpu_has(flag):
    try:
        return flag in open("/proc/cpuinfo").read()
    except OSError:
        return False


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = sys.argv[2:]
    while rest:
        a = rest.pop(0)
        if a == "--replay":
            replay = json.load(open(rest.pop(0)))
        elif a in ("quick", "thorough"):
            tier = a
    if replay:
        tier = replay["tier"]
    spec = CHECKS[pid]
    t0 = time.time()
    tmp_root = os.path.join(VERIF, "build")
    os.makedirs(tmp_root, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=tmp_root)
    try:
        return go(pid, tier, replay, spec, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def go(pid, tier, replay, spec, t0, work):
    variants = []
    for v in spec["variants"]:
        name, flags = v[0], list(v[1])
        opts = v[2] if len(v) > 2 else {}
        if opts.get("thorough_only") and tier != "thorough":
            continue
        if replay and name != replay["variant"]:
            continue
        if "-mavx2" in flags and not cpu_has("avx2"):
            continue
        variants.append((name, flags, opts))
    env = dict(os.environ)
    for k in ("CXXFLAGS", "CPPFLAGS", "CPATH", "CPLUS_INCLUDE_PATH"):
        env.pop(k, None)
    env["LC_ALL"] = "C"
    env.update(SANENV)
    notes = []

    def prep(v):
        name, flags, opts = v
        d = os.path.join(work, name)
        os.makedirs(d)
        srcs = [os.path.join(MC, s) for s in opts.get("srcs", spec.get("srcs", [spec["src"]] if "src" in spec else []))]
        gen = opts.get("gen", spec.get("gen"))
        if gen:
            outp = os.path.join(d, "gen.cpp")
            r = subprocess.run([sys.executable, os.path.join(MC, gen[0]), *gen[1:], outp, tier], capture_output=True, text=True, env=env)
            if r.returncode:
                return (name, None, r.stdout + r.stderr)
            srcs.append(outp)
        cxx = opts.get("cxx", spec.get("cxx", "g++"))
        common = [c for c in COMMON]
        if "std" in opts:
            common[0] = "-std=" + opts["std"]
        objs = []
        procs = []
        for i, s in enumerate(srcs):
            o = os.path.join(d, "o%d.o" % i)
            fl = [*spec.get("flags", []), *flags]
            if s.endswith("_rt.cpp"):  # stands in for a sanitizer's runtime
                fl = [f for f in fl if not f.startswith("-fsanitize")]
            procs.append(subprocess.Popen([cxx, *common, *fl, '-DMC_VARIANT="%s"' % name, "-c", s, "-o", o],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env))
            objs.append(o)
        log = ""
        for p in procs:
            log += p.communicate()[0]
        if any(p.returncode for p in procs):
            return (name, None, log)
        exe = os.path.join(d, "check")
        link = [f for f in flags if f.startswith("-fsanitize") and "-fsanitize=thread" not in f]
        r = subprocess.run([cxx, *link, *objs, "-o", exe, *opts.get("link", spec.get("link", []))], capture_output=True, text=True, env=env)
        if r.returncode:
            return (name, None, log + r.stdout + r.stderr)
        return (name, exe, log)

    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(prep, variants))
    t_build = time.time() - t0
    results = []
    rc_all = 0
    live = []
    unbuilt = []
    for (name, flags, opts), (_, exe, log) in zip(variants, built):
        if exe is None:
            if opts.get("optional"):
                notes.append("variant %s does not build on this tree; skipped" % name)
                continue
            unbuilt.append((name, log))
            continue
        live.append((name, exe, opts))
    if replay:
        for name, exe, opts in live:
            r = subprocess.run([exe, "--id", pid, "--tier", tier, "--variant", name, "--scratch", os.path.dirname(exe), "--replay", replay["spec"]], env=env)
            return r.returncode
    budget = float(os.environ.get("MC_BUDGET", "700" if tier == "quick" else "100000"))
    for i, (name, exe, opts) in enumerate(live):
        d = os.path.dirname(exe)
        out = os.path.join(d, "out.json")
        left = budget - (time.time() - t0)
        deadline = max(5.0, left / (len(live) - i)) if tier == "quick" else float(os.environ.get("MC_DEADLINE", "0"))
        e2 = dict(env)
        e2.update(opts.get("env", {}))
        r = subprocess.run([exe, "--id", pid, "--tier", tier, "--variant", name, "--out", out, "--scratch", d,
                            "--replay-dir", os.path.join(VERIF, "evidence"), "--known", os.path.join(VERIF, "known_findings.txt"),
                            "--deadline", str(deadline)], env=e2, cwd=d)
        if os.path.exists(out):
            results.append(json.load(open(out)))
        if r.returncode not in (0, 1):
            rc_all = 3
            print("ERROR: %s: variant %s ended with %s" % (pid, name, r.returncode))
            break
        if r.returncode == 1:
            rc_all = 1
            break
    if unbuilt and rc_all == 0:
        # The harness uses only the public interface.  If the library itself still compiles, then the uses of it that
        # the property is about no longer do, which is a violation; anything else (compiler killed, disk full, header
        # broken altogether) is no answer.
        name, log = unbuilt[0]
        sys.stderr.write(log[-6000:] + "\n")
        probe = os.path.join(work, "probe.cpp")
        with open(probe, "w") as f:
            f.write('#include <json.hpp>\nint main() { auto v = json::parse("[1]"); return v && v->is_array() ? 0 : 1; }\n')
        ok = subprocess.run(["g++", *COMMON, probe, "-o", probe + ".exe"], env=env, capture_output=True).returncode == 0
        bad = ("internal compiler error", "Killed", "No space left", "virtual memory exhausted", "out of memory", "cannot execute")
        if ok and " error: " in log and not any(b in log for b in bad):
            path = os.path.join(VERIF, "evidence", "%s.build.txt" % pid)
            with open(path, "w") as f:
                f.write("variant %s\n%s" % (name, log))
            print("%s: the public interface the property is about no longer compiles in variant %s" % (pid, name))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc_all = 1
        else:
            print("ERROR: %s: harness variant %s does not build" % (pid, name))
            return 3
    cov = {
        "states": sum(r["states"] for r in results),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["validated"] for r in results),
        "distinct_outcomes": sum(r["outcomes"] for r in results),
        "cases": sum(r["cases"] for r in results),
        "exhaustive": bool(results) and all(r["exhaustive"] for r in results) and rc_all == 0,
        "samples": [s for r in results[:1] for s in r["samples"]][:24],
        "variants": [{"name": r["variant"], "cases": r["cases"], "states": r["states"], "transitions": r["transitions"], "wall_s": round(r["wall_s"], 2),
                      "exhaustive": r["exhaustive"], "phases": r["phases"], "caps_hit": r["caps"],
                      "state_table_saturated": bool(r["saturated"])} for r in results],
        "known_finding_hits": sum(r["known_hits"] for r in results),
        "notes": notes + [n for r in results[:1] for n in r["notes"]],
        "build_s": round(t_build, 2),
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if rc_all == 1 else 0}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d states, %d transitions, %d outcomes, %s, %.1f s (build %.1f s)" % (
        pid, tier, cov["cases"], cov["states"], cov["transitions"], cov["distinct_outcomes"],
        "exhaustive" if cov["exhaustive"] else "NOT exhaustive", ev["wall_s"], t_build))
    return rc_all


sys.exit(main())
