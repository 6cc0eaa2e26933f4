#!/usr/bin/env python3
"""Runs one deterministic-simulation check.

  run.py check C01            tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED
  run.py replay FILE [-v]     executes a replay file again (exit 1: the violation happens again)
  run.py determinism [N]      N seeds of every property, twice, in separate processes
  run.py conform [SECONDS]    compares the kernel model with the real kernel (in a scratch directory)
  run.py setup                builds the simulator

Environment (development aids): REPO, VERIF_BUILD, VERIF_SECS, VERIF_WORKERS.
"""
import json, os, subprocess, sys, time, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known-findings.txt")
SECS = {"quick": 40.0, "thorough": 600.0}
MINIMISE = {"quick": 40.0, "thorough": 120.0}

REAL = [
    "all of src/efsw compiled for Linux, from the working tree, unmodified: FileWatcher, "
    "FileWatcherCWrapper, FileWatcherInotify, FileWatcherGeneric, WatcherInotify, WatcherGeneric, "
    "DirWatcherGeneric, DirectorySnapshot(Diff), FileSystem, FileInfo, String, Log, System, Mutex, "
    "Thread, Debug",
    "the C++ standard library's containers, strings and algorithms as instantiated in efsw",
]
STUB = [
    "Linux kernel: virtual file system, inotify (queue, coalescing, overflow, watch descriptors), "
    "file descriptors, mount table, working directory (sim/kern.cpp)",
    "threads, mutexes, condition variables, std::thread, sleeping, wall and monotonic clocks "
    "(sim/rt.cpp, sim/shim.cpp): fibres under one seeded scheduler on simulated time",
    "memory allocator: arena with shadow memory (use after free, overflow, leaks, data races)",
]


def build():
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    p = subprocess.run(["bash", os.path.join(HERE, "sim", "build.sh"), REPO, BUILD],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    sim = os.path.join(BUILD, "sim")
    if p.returncode or not os.path.exists(sim):
        sys.stdout.write(p.stdout.decode(errors="replace"))
        print("ERROR: the simulator could not be built")
        sys.exit(2)
    return sim, time.time() - t0


def rules(sim):
    out = subprocess.run([sim, "rules"], stdout=subprocess.PIPE).stdout.decode()
    r = {}
    for line in out.splitlines():
        k, _, v = line.partition("\t")
        r[k] = v
    return r


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in SECS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    secs = float(os.environ.get("VERIF_SECS", SECS[tier]))
    nw = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))
    sim, tbuild = build()
    rule = rules(sim).get(prop)
    if rule is None:
        print("ERROR: unknown property", prop)
        return 2
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="efswsim.")
    procs = []
    print("property=%s tier=%s VERIF_SEED=%d workers=%d search=%.0fs (build %.1fs)" %
          (prop, tier, seed, nw, secs, tbuild), flush=True)
    for w in range(nw):
        out = os.path.join(work, "out.%d" % w)
        rep = os.path.join(work, "replay.%d" % w)
        procs.append((subprocess.Popen(
            [sim, "batch", prop, str(seed), str(w), str(nw), str(secs), out, rep, KNOWN,
             str(MINIMISE[tier])], stdout=subprocess.DEVNULL), out, rep))
    stopping = None
    while True:
        alive = [p for p, _, _ in procs if p.poll() is None]
        if not alive:
            break
        if any(p.returncode == 1 for p, _, _ in procs if p.returncode is not None):
            # one confirmed, minimised violation is enough
            if stopping is None:
                stopping = time.time()
            for p in alive:
                p.kill()
            for p in alive:
                p.wait()
            break
        time.sleep(0.05)
    tot = dict(runs=0, inconclusive=0, callbacks=0, syscalls=0, switches=0, preemptions=0, mem=0,
               ops=0, regated=0, errors=0)
    simsec = 0.0
    wall = 0.0
    fault, probe, known, samples, sched, nt = {}, {}, {}, [], set(), set()
    violation = None
    errors = []
    for p, out, rep in procs:
        try:
            d = json.load(open(out))
        except Exception:
            if stopping is None:
                errors.append("a worker ended without a result (status %s)" % p.returncode)
            continue
        for k in tot:
            tot[k] += d[k]
        simsec += d["sim_seconds"]
        wall = max(wall, d["wall"])
        for k, v in d["fault"].items():
            a = fault.setdefault(k, [0, 0])
            a[0] += v[0]
            a[1] += v[1]
        for k, v in d["probe"].items():
            probe[k] = probe.get(k, 0) + v
        for k, v in d["known"].items():
            known[k] = known.get(k, 0) + v
        samples += d["samples"]
        sched.update(d["sched"])
        nt.update(d["nt"])
        if p.returncode == 1 and violation is None:
            violation = (d["violation"], rep)
        if p.returncode not in (0, 1) or d["error"]:
            errors.append(d["error"] or "worker status %s" % p.returncode)
            if os.path.exists(rep + ".error.plan"):
                keep = os.path.join(REPLAYS, "%s-error.plan" % prop)
                open(keep, "w").write(open(rep + ".error.plan").read())
    replay = None
    if violation:
        replay = os.path.join(REPLAYS, "%s-seed%d.plan" % (prop, seed))
        open(replay, "w").write(open(violation[1]).read())
        r = subprocess.run([sim, "replay", replay], stdout=subprocess.PIPE)
        if r.returncode != 1:
            errors.append("the replay file does not reproduce the violation: " +
                          r.stdout.decode(errors="replace"))
    subprocess.run(["rm", "-rf", work])
    hours = max(wall, 1e-9) / 3600.0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(nt),
            "rule": rule,
            "samples": samples[:3] or ["(no run reached the point where the property is decided)"],
            "runs_per_hour": int(tot["runs"] / hours),
            "seeds": "one seed per run, derived from VERIF_SEED and the run index",
            "simulated_seconds": round(simsec, 3),
            "faults_injected": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(fault.items())},
            "distinct_interleavings": len(sched),
            "interleaving_measure": "distinct hashes over the full sequence of (fibre chosen, "
                                    "scheduling point) of a run",
            "probes": dict(sorted(probe.items())),
            "plan_operations": tot["ops"],
            "callbacks": tot["callbacks"],
            "simulated_system_calls": tot["syscalls"],
            "context_switches": tot["switches"],
            "preemptions": tot["preemptions"],
            "instrumented_memory_accesses": tot["mem"],
            "inconclusive_runs": tot["inconclusive"],
            "runs_executed_twice_and_compared": tot["regated"],
            "workers": nw,
            "real_components": REAL,
            "stubbed_components": STUB,
            "known_finding_hits": known,
        },
        "assumptions": [
            "the simulated kernel behaves like Linux 6.x inotify and VFS in the respects the "
            "library can observe (compared with the real kernel by sim/conformance)",
            "scheduling points: every synchronisation operation, simulated system call, callback "
            "and a sampled subset of instrumented memory accesses; sequentially consistent memory",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, k, known[k]))
    print("%d runs, %d distinct non-trivial, %d distinct interleavings, %.0f simulated seconds, "
          "%d inconclusive" % (tot["runs"], len(nt), len(sched), simsec, tot["inconclusive"]))
    if errors:
        for e in errors[:5]:
            print("ERROR:", e)
        if not violation or any("replay file" in e for e in errors):
            return 2
    if violation:
        print(violation[0])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if tot["runs"] < 20 or not nt:
        print("ERROR: too few runs decided anything")
        return 2
    return 0


def determinism(n):
    sim, _ = build()
    props = sorted(rules(sim))
    bad = 0
    for p in props:
        jobs = []
        half = n // 2
        # one process over everything, against four processes over quarters, in another environment
        a = subprocess.Popen([sim, "det", p, "7", "0", str(n)], stdout=subprocess.PIPE)
        q = n // 4
        for i in range(4):
            env = dict(os.environ, PADDING="x" * (977 * i + 13))
            jobs.append(subprocess.Popen([sim, "det", p, "7", str(i * q), str(q)],
                                         stdout=subprocess.PIPE, env=env))
        x = a.communicate()[0].decode().splitlines()[:4 * q]
        y = []
        for j in jobs:
            y += j.communicate()[0].decode().splitlines()
        diff = sum(1 for u, v in zip(x, y) if u != v) + abs(len(x) - len(y))
        print("%s: %d runs twice, %d differ" % (p, len(y), diff), flush=True)
        bad += diff
    return 1 if bad else 0


def conform(secs):
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "conform")
    subprocess.run(["g++", "-std=c++17", "-O1", "-I" + os.path.join(REPO, "include"),
                    os.path.join(HERE, "sim", "conform", "conform.cpp"),
                    os.path.join(HERE, "sim", "kern.cpp"), "-o", exe], check=True)
    bad = 0
    with tempfile.TemporaryDirectory(prefix="conform") as d:
        os.chmod(d, 0o755)
        jobs = [subprocess.Popen([exe, d, str(secs), str(1 + i)], stdout=subprocess.PIPE)
                for i in range(8)]
        for j in jobs:
            sys.stdout.write(j.communicate()[0].decode())
            bad |= j.returncode
    return 1 if bad else 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        return check(sys.argv[2])
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sim, _ = build()
        return subprocess.run([sim, "replay"] + sys.argv[2:]).returncode
    if len(sys.argv) >= 2 and sys.argv[1] == "determinism":
        return determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 200)
    if len(sys.argv) >= 2 and sys.argv[1] == "conform":
        return conform(int(sys.argv[2]) if len(sys.argv) > 2 else 60)
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        print("built %s in %.1fs" % build())
        return 0
    print(__doc__)
    return 2


sys.exit(main())
