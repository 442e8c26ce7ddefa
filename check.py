#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property by deterministic simulation
   check.py --replay FILE               re-executes a replay file
   check.py --setup                     compiles everything once

Builds the simulator from the headers in /repo's working tree, searches seeded
schedules and fault sequences in parallel, gates and minimises what it finds,
and writes evidence/<property>.json.
exit 0: held; exit 1: VIOLATION line printed; exit 2: the check itself failed.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = shutil.which("g++-13") or shutil.which("g++")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or max(2, os.cpu_count() or 2)
BASE = ["-std=gnu++20", "-O1", "-w", "-fno-lifetime-dse", "-I" + os.path.join(REPO, "src"), "-I" + SIM]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DSIM_ASAN"]
VARIANTS = {
    "plain": dict(unit=[], core=[], link=["-no-pie"]),
    # library and callables compiled with memory-access hooks; sim/core.cpp is the hook runtime
    "mem": dict(unit=["-fsanitize=thread"], core=["-DSIM_MEMHOOKS"], link=["-no-pie"]),
    "asan": dict(unit=SAN, core=SAN, link=["-fsanitize=address,undefined"]),
}
LAZY = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22}
UTIL = {19: "overload", 21: "capture", 13: "bind", 14: "ctuple", 15: "tuplealg", 16: "pack", 17: "recursive", 23: "elements", 24: "regular"}

# (variant, batches in quick, batches in thorough)
PLAN = {p: [("plain", 4000, 160000)] for p in LAZY}
for _p in UTIL:
    PLAN[_p] = [("plain", 12000, 400000), ("asan", 0, 6000)]
PLAN[22] = [("plain", 240, 8000)]
PLAN[9] = [("mem", 2400, 80000)]
PLAN[10] = [("asan", 480, 12000), ("plain", 3200, 100000)]
SHAPES = {"quick": (8, 12, "1"), "thorough": (24, 12, None)}
EPISODES = 24
FILES = {os.path.basename(p)[:-4] for p in glob.glob(os.path.join(SIM, "util_*.cpp"))}
COMPILE_MEM, COMPILE_CPU = 3 << 30, 240


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def digest(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def sources():
    return [p for p in glob.glob(os.path.join(REPO, "src", "**", "*"), recursive=True) if os.path.isfile(p)]


def compile_units(units, outdir):
    """units: (name, source, flags); returns (objects, failures)"""
    os.makedirs(outdir, exist_ok=True)
    simsrc = glob.glob(os.path.join(SIM, "*.h"))
    reposrc = sources()

    def one(u):
        name, src, flags = u
        key = digest([src] + simsrc + reposrc, [CXX] + BASE + flags)
        obj = os.path.join(outdir, "%s-%s.o" % (name, key))
        if os.path.exists(obj):
            return name, obj, None
        for old in glob.glob(os.path.join(outdir, name + "-*.o")):
            os.unlink(old)
        tmp = "%s.%d" % (obj, os.getpid())
        # g++ names nested closure types in full when it reports an error, which can take all memory there is
        r = subprocess.run(["prlimit", "--as=%d" % COMPILE_MEM, "--cpu=%d" % COMPILE_CPU, CXX] + BASE + flags + ["-c", src, "-o", tmp], capture_output=True, text=True, errors="replace")
        if r.returncode != 0:
            return name, None, "\n".join(l[:300] for l in r.stderr.splitlines() if "error" in l)[:1500] or r.stderr[:600]
        os.rename(tmp, obj)
        return name, obj, None

    objs, fails = {}, {}
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        for name, obj, err in ex.map(one, units):
            if obj:
                objs[name] = obj
            else:
                fails[name] = err
    return objs, fails


def build(prop, variant, tier, seed):
    v = VARIANTS[variant]
    if prop in LAZY:
        tus, per, sseed = SHAPES[tier]
        sseed = sseed or "t%d" % seed
        outdir = os.path.join(BUILD, "lazy-%s-%s" % (variant, tier))
        gen = os.path.join(outdir, "gen")
        r = subprocess.run([sys.executable, os.path.join(SIM, "gen_shapes.py"), gen, str(tus), str(per), sseed])
        if r.returncode:
            die("shape generation failed")
        units = [("shapes%d" % i, os.path.join(gen, "shapes_%d.cpp" % i), v["unit"]) for i in range(tus)]
        units.append(("lazy_shared", os.path.join(SIM, "lazy_shared.cpp"), v["unit"]))
        units.append(("scenario", os.path.join(SIM, "lazy_scn.cpp"), v["core"]))
        optional = {"shapes%d" % i for i in range(tus)} | {"lazy_shared"}
    else:
        name = UTIL[prop]
        outdir = os.path.join(BUILD, "%s-%s-%s" % (name, variant, tier))
        parts = sorted(glob.glob(os.path.join(SIM, "util_%s*.cpp" % name)))
        units = [(os.path.basename(p)[:-4], p, v["unit"]) for p in parts]
        optional = {u[0] for u in units}
        units.append(("util", os.path.join(SIM, "util.cpp"), v["core"]))
    units += [(n, os.path.join(SIM, n + ".cpp"), v["core"]) for n in ("core", "main")]
    reduced = []
    objs, fails = compile_units(units, outdir)
    if prop in LAZY and any(n.startswith("shapes") for n in fails):
        # one by one: only what really does not compile is left out
        probe = os.path.join(outdir, "gen", "probe.cpp")
        with open(probe, "w") as f:
            f.write("#include \"lazy_rt.h\"\n#include <pigro/lazy.h>\nint probe() { auto f = pigro::lazy([](int x) { return x; }, [] { return 1; }); return f(); }\n")
        ok, bad = compile_units([("probe", probe, v["unit"])], outdir)
        if bad:
            die("pigro::lazy does not compile: " + bad["probe"])
        single = []
        for n in [n for n in fails if n.startswith("shapes")]:
            del fails[n]
            for src in sorted(glob.glob(os.path.join(outdir, "gen", "shape_%s_*.cpp" % n[6:]))):
                single.append((os.path.basename(src)[:-4], src, v["unit"]))
        o2, f2 = compile_units(single, outdir)
        objs.update(o2)
        fails.update(f2)
        optional |= {u[0] for u in single}
    if prop not in LAZY and any(n in optional for n in fails):
        single = []
        for n in [n for n in fails if n in optional]:
            del fails[n]
            src = os.path.join(SIM, n + ".cpp")
            for c in re.findall(r"^[A-Z]CASE\((\w+)", open(src).read(), re.M):
                single.append(("%s-%s" % (n, c), src, v["unit"] + ['-DSIM_ONLY="%s"' % c]))
        o2, f2 = compile_units(single, outdir)
        # and those that fail once more without their less usual uses
        o3, f3 = compile_units([(n, src, fl + ["-DSIM_BASIC"]) for n, src, fl in single if n in f2], outdir)
        for n in o3:
            del f2[n]
            reduced.append(n)
        objs.update(o2)
        objs.update(o3)
        fails.update(f2)
        optional |= {u[0] for u in single}
    for n in fails:
        if n not in optional:
            die("%s does not compile:\n%s" % (n, fails[n]))
    if not ((set(objs) & optional) - {"lazy_shared"}):
        n = sorted(fails)[0]
        die("none of the simulated programs compiles against /repo, e.g. %s:\n%s" % (n, fails[n]))
    exe = os.path.join(outdir, "sim")
    tmp = exe + ".%d" % os.getpid()
    r = subprocess.run([CXX] + v["link"] + sorted(objs.values()) + ["-o", tmp, "-lpthread", "-ldl"], capture_output=True, text=True)
    if r.returncode:
        die("link failed:\n" + r.stderr[:1500])
    os.rename(tmp, exe)
    per = SHAPES[tier][1]
    kept = sum((per if n.startswith("shapes") else len(re.findall(r"^[A-Z]CASE\(", open(os.path.join(SIM, n + ".cpp")).read(), re.M)) if n in FILES else 1)
               for n in set(objs) & optional)
    return exe, fails, kept, reduced


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:allocator_may_return_null=1",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=66:print_stacktrace=0")


def search(prop, variant, exe, seed, batches, cap, workdir):
    procs = []
    stop = os.path.join(workdir, "found")
    if os.path.exists(stop):
        os.unlink(stop)
    for w in range(WORKERS):
        out = os.path.join(workdir, "w%d.json" % w)
        rep = os.path.join(workdir, "w%d.replay" % w)
        for p in (out, rep):
            if os.path.exists(p):
                os.unlink(p)
        procs.append((out, rep, subprocess.Popen(
            [exe, "run", "--prop", str(prop), "--seed", str(seed), "--from", str(w), "--step", str(WORKERS), "--batches", str(batches),
             "--episodes", str(EPISODES), "--cap", str(cap), "--variant", variant, "--out", out, "--replay", rep, "--stop", stop],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)))
    res = []
    for out, rep, p in procs:
        o, _ = p.communicate()
        st = {}
        if os.path.exists(out):
            with open(out) as f:
                st = json.load(f)
        res.append((p.returncode, o, st, rep))
    return res


def replay(exe, path):
    r = subprocess.run([exe, "replay", path], capture_output=True, text=True, env=ENV)
    lines = [l for l in r.stdout.splitlines() if l.startswith("REPLAY")]
    return r.returncode, lines[0] if lines else (r.stdout + r.stderr)[-500:]


def known_findings(pid):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for l in f:
                if l.startswith("finding: property=%s " % pid):
                    out.append(l.strip())
    return out


def main():
    args = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if args and args[0] == "--setup":
        build(1, "plain", "quick", seed)
        print("ok")
        return 0
    if args and args[0] == "--replay":
        prop = variant = tier = None
        with open(args[1]) as f:
            for l in f:
                w = l.split()
                if w and w[0] == "property": prop = int(w[1][1:])
                if w and w[0] == "variant": variant = w[1]
                if w and w[0] == "tier": tier, seed = w[1], int(w[2])
        exe = build(prop, variant, tier or "quick", seed)[0]
        rc, line = replay(exe, args[1])
        print(line)
        if rc == 1:
            print("VIOLATION property=C%02d replay=%s" % (prop, args[1]))
        return rc
    if not args:
        print(__doc__)
        return 2
    pid = args[0]
    prop = int(pid[1:])
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("unknown tier")
    t0 = time.time()
    totals, variants, violation, errors, notes, lost = {}, [], None, [], [], 0
    hist, sched, samples = set(), set(), []
    compile_s = 0.0
    for variant, nq, nt in PLAN[prop]:
        if tier == "quick" and not nq:
            continue
        c0 = time.time()
        exe, fails, kept, reduced = build(prop, variant, tier, seed)
        compile_s += time.time() - c0
        if fails:
            lost = max(lost, len(fails) / max(1, len(fails) + kept))
            notes.append("did not compile against this tree: " + ", ".join(sorted(fails)) + ": " + sorted(fails.items())[0][1][:400])
        if reduced:
            notes.append("simulated without its less usual uses, which do not compile against this tree: " + ", ".join(sorted(reduced)))
        workdir = os.path.join(BUILD, "run-%s-%s" % (pid, variant))
        os.makedirs(workdir, exist_ok=True)
        batches = nq if tier == "quick" else nt
        if os.environ.get("VERIF_BATCHES"):
            batches = int(os.environ["VERIF_BATCHES"])
        s0 = time.time()
        res = search(prop, variant, exe, seed, batches, 200 if tier == "quick" else 5400, workdir)
        s1 = time.time() - s0
        vt = {}
        for rc, out, st, rep in res:
            if not st:
                errors.append("a worker ended without a result: rc=%s %s" % (rc, out[-300:]))
                continue
            for k, x in st.items():
                if isinstance(x, int):
                    vt[k] = vt.get(k, 0) + x
                    totals[k] = totals.get(k, 0) + x
                elif isinstance(x, dict):
                    d = totals.setdefault(k, {})
                    for a, b in x.items():
                        d[a] = d.get(a, 0) + b
            hist.update(st.get("hist", [])); sched.update(st.get("sched", []))
            samples += [{"variant": variant, "plan": s.splitlines()} for s in st.get("samples", [])][:1]
            if st.get("foreign_msg"): notes.append("outside this property: " + st["foreign_msg"][:200])
            if st.get("reject_msg"): notes.append("not counted: " + st["reject_msg"][:200])
            if rc == 1 and violation is None:
                violation = (variant, exe, rep, st["found"])
            elif rc not in (0, 1):
                errors.append((st.get("error") or out[-300:]))
        variants.append({"variant": variant, "batches": vt.get("batches", 0), "episodes": vt.get("episodes", 0), "search_s": round(s1, 2),
                         "episodes_per_hour": int(vt.get("episodes", 0) / max(s1, 1e-9) * 3600)})
        if violation:
            break
    # gate: the minimised plan must reproduce in fresh processes
    vpath = None
    if violation:
        variant, exe, rep, found = violation
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        vpath = os.path.join(VERIF, "replays", "%s-%s.txt" % (pid, hashlib.sha256(open(rep, "rb").read()).hexdigest()[:10]))
        with open(rep) as f, open(vpath, "w") as g:
            head, rest = f.read().split("\n", 1)
            g.write("%s\ntier %s %d\n%s" % (head, tier, seed, rest))
        a, b = replay(exe, vpath), replay(exe, vpath)
        if a[0] != 1 or b[0] != 1:
            errors.append("violation not reproduced in a fresh process: %s / %s (%s)" % (a, b, found))
            violation = None
    findings = known_findings(pid)
    wall = time.time() - t0
    cov = {
        "evaluations": totals.get("episodes", 0),
        "distinct_nontrivial": len(sched),
        "rule": "An evaluation is one simulated episode: a sequence of operations on real pigro objects drawn from the seed, spread over 1-4 parked-and-released threads, with faults, context switches, input changes and nested calls placed at drawn callbacks. "
                "Non-trivial: at least one fault, switch, nested call or input change took effect inside a library call. Distinct: the hash of who was switched where and which fault hit what differs (distinct_nontrivial); distinct_histories counts different full event logs.",
        "samples": samples[:3],
        "distinct_histories": len(hist),
        "operations": totals.get("ops", 0), "library_calls": totals.get("calls", 0), "failed_calls": totals.get("failed_calls", 0),
        "recovered_calls": totals.get("recoveries", 0), "callbacks": totals.get("callbacks", 0), "context_switches_at_callbacks": totals.get("switches", 0),
        "context_switches_at_memory_accesses": totals.get("memory_switches", 0), "memory_accesses_hooked": totals.get("memory_accesses", 0),
        "input_changes_during_calls": totals.get("mutations_during_calls", 0), "nested_calls": totals.get("nested", 0), "allocations": totals.get("allocations", 0),
        "faults_fired_by_place": totals.get("fault_points", {}), "faults_fired_by_exception": totals.get("fault_kinds", {}), "operations_by_kind": totals.get("op_kinds", {}),
        "rare_conditions_hit": totals.get("probes", {}),
        "simulated_seconds_of_clock_jumps": totals.get("sim_seconds", 0),
        "runs": variants, "seeds_per_hour": int(totals.get("episodes", 0) / max(sum(v["search_s"] for v in variants), 1e-9) * 3600),
        "batches_repeated_for_determinism": totals.get("redone", 0), "determinism_mismatches": totals.get("mismatches", 0),
        "compile_s": round(compile_s, 1),
        "real_components": "all of /repo/src/pigro that the property touches, compiled from the working tree; libstdc++ containers; real threads",
        "stubbed_components": "wrapped functions, dependencies, value types, allocator (operator new), clock, and the choice of which thread runs",
        "known_findings": findings, "notes": sorted(set(notes))[:10],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["threads switch only at callbacks (variant mem: also at memory accesses of library code); code between two such points runs uninterrupted",
                          "user code obeys the documented contract: dependencies are passed by value, equality is an equivalence, no object is used by two threads at once"],
          "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, l.split(" ", 2)[2]))
    if violation:
        print(violation[3])
        print("VIOLATION property=%s replay=%s" % (pid, vpath))
        return 1
    if errors:
        die("; ".join(errors)[:2000])
    for n in notes:
        if n.startswith("did not compile") and lost > 0.4:
            die(n)
        if n.startswith(("did not compile", "simulated without")):
            print("NOTE: " + n[:300])
    print("%s held: %d episodes, %d calls, %d callbacks, %d faults, %d switches in %.1f s" % (
        pid, totals.get("episodes", 0), totals.get("calls", 0), totals.get("callbacks", 0), sum(totals.get("fault_points", {}).values()),
        totals.get("switches", 0) + totals.get("memory_switches", 0), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
