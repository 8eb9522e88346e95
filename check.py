#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]   run one check (exit 0 / 1 + VIOLATION line / 2 = error of the check)
   check.py --replay FILE [-v]                           replay a recorded violation against the current /repo
   check.py --build                                      build every simulator (setup_cmd)

The driver compiles the simulators from /repo's working tree (cached by content), spreads a fixed number of
seeded runs over worker processes and library variants, merges what they covered into evidence/<id>.json, and
accepts a violation only if its minimised replay file reproduces it with the same event hash in fresh processes."""
import sys, os, json, subprocess, hashlib, fcntl, time, shutil, struct, re
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NW = 8
KNOWN = os.path.join(V, "known_findings.txt")

# property -> (world, quick runs, thorough runs, list of (variant, number of workers))
AV = [("default", 5), ("nostatic", 1), ("debug", 1), ("nocet", 1)]
PROPS = {
 "C01": ("A", 64000, 2400000, AV), "C02": ("A", 64000, 2400000, AV), "C03": ("A", 72000, 2400000, AV),
 "C04": ("A", 80000, 2400000, AV), "C05": ("A", 80000, 2400000, AV), "C06": ("A", 5600, 240000, [("default", 5), ("nostatic", 2), ("debug", 1)]),
 "C07": ("A", 72000, 2400000, AV), "C08": ("A", 72000, 2400000, AV), "C09": ("A", 64000, 2400000, AV),
 "C10": ("A", 72000, 2400000, AV), "C11": ("A", 72000, 2400000, [("default", 6), ("debug", 1), ("nocet", 1)]),
 "C18": ("A", 56000, 1600000, [("default", 5), ("nostatic", 2), ("debug", 1)]), "C22": ("A", 64000, 2400000, AV),
 "C26": ("C", 44000, 700000, [("pic", 4), ("nopic", 2), ("debug", 1), ("clang", 1)]),
}
try:
    from simB.config import PROPS_B
    PROPS.update(PROPS_B)
except ImportError:
    pass
TMAX = {"quick": 100, "thorough": 780}

def srchash(world):
    h = hashlib.sha256()
    files = []
    for top in ("src", "include"):
        for d, dn, fn in os.walk(os.path.join(REPO, top)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".c", ".h", ".S", ".in", ".asm")): files.append(os.path.join(d, f))
    for top in ("sim" + world, "common"):
        for d, dn, fn in os.walk(os.path.join(V, top)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith(".pyc"): files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def build(world):
    bd = os.path.join(V, "build"); os.makedirs(bd, exist_ok=True)
    key = srchash(world); out = os.path.join(bd, "sim%s-%s" % (world, key))
    with open(os.path.join(bd, "lock." + world), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, "ok")):
            shutil.rmtree(out, ignore_errors=True)
            old = sorted((os.path.join(bd, d) for d in os.listdir(bd) if d.startswith("sim%s-" % world)), key=os.path.getmtime)
            for d in old[:-3]: shutil.rmtree(d, ignore_errors=True)
            r = subprocess.run(["bash", os.path.join(V, "sim" + world, "build.sh"), out, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                sys.stdout.write("BUILD ERROR (sim%s)\n%s\n" % (world, r.stdout[-6000:])); sys.exit(2)
            open(os.path.join(out, "ok"), "w").close()
        else: os.utime(out)
    return out

def binary(out, world, variant): return os.path.join(out, variant, "sim" + world)

def replay_once(out, world, variant, plan):
    r = subprocess.run([binary(out, world, variant), "--plan", plan], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    m = re.search(r"hash (\w+) sched (\w+)", r.stdout); s = re.search(r"REPRODUCED ([\w-]+)", r.stdout)
    return r.returncode, (m.group(0) if m else None), (s.group(1) if s else None), r.stdout

def known_for(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) signature=(\S+)\s*(.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def add(a, b):
    for k, v in b.items():
        if isinstance(v, bool): a.setdefault(k, v)
        elif isinstance(v, (int, float)):
            a[k] = max(a.get(k, 0), v) if k.startswith("max_") else a.get(k, 0) + v
        elif isinstance(v, dict): add(a.setdefault(k, {}), v)
        elif isinstance(v, list): a.setdefault(k, []).extend(v)
    return a

def main():
    if "--build" in sys.argv:
        worlds = sorted({w for w, *_ in PROPS.values()})
        for w in worlds: print("built", build(w))
        return 0
    if "--replay" in sys.argv:
        f = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1]); t = open(f).read()
        w = re.search(r"# world (\w)", t).group(1); v = re.search(r"# variant (\w+)", t).group(1)
        out = build(w); cmd = [binary(out, w, v), "--plan", f] + (["--verbose"] if "-v" in sys.argv else [])
        return subprocess.run(cmd).returncode
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if "--seed" in sys.argv: seed = int(sys.argv[sys.argv.index("--seed") + 1])
    if tier not in ("quick", "thorough"): tier = "quick"
    seed &= (1 << 62) - 1
    world, qr, tr, variants = PROPS[prop]
    t0 = time.time(); out = build(world); tb = time.time() - t0
    runs = qr if tier == "quick" else tr
    work = os.path.join(V, "build", "work-%s-%d" % (prop, os.getpid())); os.makedirs(work)
    vl = [v for v, n in variants for _ in range(n)]
    procs = []
    try:
        for i, v in enumerate(vl):
            cmd = [binary(out, world, v), "--prop", prop, "--seed", str(seed), "--runs", str(runs), "--from", str(i), "--step", str(len(vl)),
                   "--time", str(TMAX[tier]), "--out", "%s/%d.plan" % (work, i), "--known", KNOWN, "--hashes", "%s/%d.h" % (work, i), "--det", "50"]
            so = open("%s/%d.out" % (work, i), "w"); se = open("%s/%d.err" % (work, i), "w")
            procs.append((subprocess.Popen(cmd, stdout=so, stderr=se), v, so, se))
        stats = {}; viol = []; errors = []; byvar = {}; knownmsgs = set(); hashes = set()
        done = set(); stopped = False
        while len(done) < len(procs):
            for i, (p, v, so, se) in enumerate(procs):
                if i in done: continue
                if p.poll() is None: continue
                done.add(i)
                if p.returncode == 1 and not stopped:
                    # one confirmed violation settles the check: give the others a moment, then stop them
                    stopped = time.time()
            if stopped and time.time() - stopped > 20:
                for i, (p, *_ ) in enumerate(procs):
                    if i not in done: p.kill(); p.wait(); p.stopped = True
                    done.add(i)
            time.sleep(0.05)
        for i, (p, v, so, se) in enumerate(procs):
            so.close(); se.close()
            for l in open("%s/%d.out" % (work, i), errors="replace"):
                try: j = json.loads(l)
                except ValueError: continue
                if "violation" in j: viol.append((i, v, j))
                elif j.get("stats"):
                    if j.get("known_msg"): knownmsgs.add(j["known_msg"])
                    for k in ("stats", "known_msg", "wall"): j.pop(k, None)
                    add(stats, j); add(byvar.setdefault(v, {}), {"runs": j.get("runs", 0)})
            hf = "%s/%d.h" % (work, i)
            if os.path.exists(hf):
                b = open(hf, "rb").read(); hashes.update((v, x[0]) for x in struct.iter_unpack("<Q", b[:len(b) // 8 * 8]))
            if p.returncode not in (0, 1) and not getattr(p, "stopped", False):
                errors.append("worker %d (%s) ended with %s: %s" % (i, v, p.returncode, open("%s/%d.err" % (work, i), errors="replace").read()[-600:]))
        # a violation counts only when its replay file reproduces it in fresh processes
        confirmed = []; rejected = []
        for i, v, j in viol:
            plan = "%s/%d.plan" % (work, i)
            if not os.path.exists(plan): rejected.append((v, j, "no replay file")); continue
            a = replay_once(out, world, v, plan); b = replay_once(out, world, v, plan)
            if a[0] == 1 and a[:3] == b[:3] and a[2] == j["violation"]:
                os.makedirs(os.path.join(V, "replays"), exist_ok=True)
                name = os.path.join(V, "replays", "%s-%s-seed%d-run%d.plan" % (prop, j["violation"], seed, j["run"]))
                with open(name, "w") as f:
                    f.write("# world %s\n# variant %s\n# replay: python3 check.py --replay <this file> [-v]\n" % (world, v)); f.write(open(plan).read())
                confirmed.append((name, j))
            else: rejected.append((v, j, "fresh-process replay differs: %s / %s" % (a[:3], b[:3])))
        wall = time.time() - t0; nruns = stats.get("runs", 0); rh = max(wall - tb, 0.001)
        samples = stats.pop("samples", [])[:3]
        fired = {k: n for k, n in stats.get("faults", {}).items()}
        cov = {
          "evaluations": nruns, "distinct_nontrivial": len(hashes), "rule": RULE[world], "samples": samples,
          "seeds": {"seed": seed, "runs_derived_from_it": nruns}, "runs_per_hour": int(nruns / rh * 3600),
          "simulated_time": TIME[world] % (stats.get("yields", 0), stats.get("syscalls", 0)),
          "fault_kinds_injected": fired, "runs_by_variant": {k: x["runs"] for k, x in byvar.items()},
          "distinct_interleavings_measure": "number of different (schedule hash, observable-event hash) pairs over all workers",
          "components": COMP[world], "counters": {k: x for k, x in stats.items() if k not in ("faults", "distinct")},
          "determinism_rechecks": stats.get("det_checked", 0), "build_s": round(tb, 2),
        }
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": ASSUME[world],
              "wall_s": round(wall, 2), "violations": len(confirmed)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        tmp = os.path.join(V, "evidence", ".%s.%d" % (prop, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(V, "evidence", prop + ".json"))
    finally:
        for p, *_ in procs:
            if p.poll() is None: p.kill(); p.wait()
        shutil.rmtree(work, ignore_errors=True)
    for sig, text in known_for(prop):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, sig, text))
    print("%s: %d runs, %d distinct, %.1f s (build %.1f s), %s" % (prop, nruns, len(hashes), wall, tb, ", ".join("%s %d" % (k, x["runs"]) for k, x in byvar.items())))
    if confirmed:
        for name, j in confirmed: print("  %s: %s" % (j["violation"], j["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[0][0]))
        return 1
    for v, j, why in rejected: errors.append("unconfirmed %s in variant %s: %s" % (j, v, why))
    if errors or nruns == 0:
        for e in errors: print("ERROR", e)
        return 2
    return 0

TIME = {
 "A": "%d scheduling points and %d simulated calls into the environment (no clock is read by the code under test; logical time is the count of scheduling points)",
 "B": "%d single-stepped library instructions, each a possible switch or signal, and %d callee or handler invocations (no clock is read by the code under test; logical time is the count of instructions)",
 "C": "%d single-stepped 32-bit library instructions, each a possible signal, and %d callee or handler invocations (no clock is read by the code under test; logical time is the count of instructions)",
}
RULE = {
 "A": "a run = one seeded plan (environment, address placement, history of closure operations over 1-4 threads) executed under the seeded scheduler and fault injector; non-trivial = at least one closure allocation was attempted and at least one of: a preemption inside a library call, an injected failure, an environment refusal, a fork, a repeated allocation cycle or caller-supplied memory; distinct = different (schedule hash, observable-event hash)",
 "B": "a run = one seeded plan (signatures, ABIs, argument values, entry points, handler behaviours, stack interruptions) executed under the seeded scheduler; non-trivial = at least one call or closure invocation completed with nesting, preemption, an interrupt, an exception or a rejected preparation; distinct = different (schedule hash, observable-event hash)",
 "C": "a run = one seeded plan (signatures, conventions, argument values, entry points, fibers, nested and signal-time operations, long jumps) executed by the 32-bit executor; non-trivial = more than one invocation, a fiber switch or an operation inside a signal; distinct = different observable-event hash and counts",
}
COMP = {
 "A": {"real": ["src/closures.c", "src/dlmalloc.c", "src/tramp.c", "src/prep_cif.c", "src/types.c", "src/raw_api.c", "src/java_raw_api.c", "src/x86/ffi64.c", "src/x86/ffiw64.c", "src/x86/unix64.S", "src/x86/win64.S", "the CPU executing the closures' code", "page protections and shared mappings (real kernel mappings at the simulated addresses)"],
       "stub": ["mmap/munmap/mprotect decisions and address placement", "files, directories, mounts, /proc files, memfd, mkstemp, descriptors' names and limits", "pthread mutexes and thread scheduling", "malloc/calloc/free (counting, failing)", "environment variables", "sysconf/getpagesize"]},
 "B": {"real": ["src/x86/ffi64.c", "src/x86/ffiw64.c", "src/x86/unix64.S", "src/x86/win64.S", "src/prep_cif.c", "src/types.c", "src/raw_api.c", "src/java_raw_api.c", "src/closures.c", "src/tramp.c", "src/dlmalloc.c", "compiler-generated callers and callees", "C++ unwinder"],
       "stub": ["thread scheduling (single baton, instruction-level preemption)", "delivery of signals (at chosen instructions)"]},
 "C": {"real": ["src/x86/ffi.c", "src/x86/sysv.S", "src/prep_cif.c", "src/types.c", "src/raw_api.c (compiled for 32-bit x86)", "gcc -m32 callers and callees", "signal delivery by the kernel"],
       "stub": ["the C library (none for 32-bit here: freestanding)", "closure memory (src/closures.c, src/tramp.c: page copies of the real trampoline code table)", "threads (fibers switched by the plan)", "choice of the instruction a signal arrives at"]},
}
ASSUME = {
 "A": ["x86-64 Linux; the sources are compiled with -fsanitize=thread instrumentation used only as call-outs at memory accesses (no TSan runtime)", "memory accesses are sequentially consistent in the simulation (one thread runs at a time)", "the simulated operating system follows POSIX/Linux semantics for the calls it implements"],
 "B": ["x86-64; gcc (and for most signatures also clang) is the reference for the System V and Microsoft calling conventions", "one thread runs at a time (sequentially consistent)", "the library is built with the shipped flags (and -O0, clang, and CET-less variants) but without -fPIC"],
 "C": ["gcc -m32 is the reference for the cdecl, stdcall, thiscall, fastcall and Microsoft cdecl conventions", "one thread of execution at a time", "no 32-bit C library exists here, so the port runs freestanding"],
}
if __name__ == "__main__":
    sys.exit(main())
