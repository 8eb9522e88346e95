#!/usr/bin/env python3
"""driver.py EXEC32 ...: seeded plans for the 32-bit x86 executor; same command line as the other simulators."""
import sys, os, re, random, subprocess, json, time, struct
EX = sys.argv[1]; A = sys.argv[2:]
def opt(n, d=None): return A[A.index(n) + 1] if n in A else d
CALL, CLOS, LOOP, NATIVE, GOCALL, GOCLOS, RAWCALL, RAWCLOS, RAWLOOP = range(9)
NORES, JUMP, STATIC, EDGE = 1, 2, 4, 8
class Ex:
    def __init__(s): s.p = subprocess.Popen([EX], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0); s.b = b""
    def run(s, plan):
        s.p.stdin.write((line(plan) + "\n").encode())
        while b"\n" not in s.b:
            d = os.read(s.p.stdout.fileno(), 65536)
            if not d: raise SystemExit("executor ended")
            s.b += d
        l, s.b = s.b.split(b"\n", 1); return l.decode(errors="replace")
def line(p):
    v = [len(p["sig"])] + p["sig"] + [p["nf"], len(p["ops"])] + [x for o in p["ops"] for x in o] + [len(p["ev"])] + [x for e in p["ev"] for x in e]
    return " ".join(map(str, v))
def parse(t):
    v = [int(x) for l in t.splitlines() if l and l[0] != "#" for x in l.split()]; q = iter(v); n = next(q)
    p = {"sig": [next(q) for _ in range(n)], "nf": next(q)}; n = next(q); p["ops"] = [[next(q) for _ in range(7)] for _ in range(n)]
    n = next(q); p["ev"] = [[next(q) for _ in range(4)] for _ in range(n)]; return p
def gen(seed, i):
    R = random.Random(seed * 1000003 + i)
    p = {"sig": [R.randrange(1 << 20) for _ in range(R.randint(1, 3))], "nf": R.choice([1, 1, 2, 3]), "ops": [], "ev": []}
    nop = R.choice([1, 2, 3, 4, 6, 9, 14])
    if R.random() < .3: p["sig"] = [p["sig"][0]] * len(p["sig"])
    for k in range(nop):
        par = R.randrange(k) if k and R.random() < .6 else -1
        kind = R.choice([CALL, CALL, CLOS, CLOS, LOOP, LOOP, NATIVE, GOCALL, GOCLOS, RAWCALL, RAWCLOS, RAWLOOP])
        fl = (NORES if R.random() < .12 else 0) | (JUMP if R.random() < .08 else 0) | (STATIC if R.random() < .4 else 0) | (EDGE if R.random() < .5 else 0)
        th = p["ops"][par][2] if par >= 0 else R.randrange(p["nf"])
        p["ops"].append([kind, R.randrange(len(p["sig"])), th, par, 1 if par >= 0 and R.random() < .45 else 0, fl, R.randrange(1, 60000)])
    for k in range(nop):
        sc = [c for c in range(nop) if p["ops"][c][3] == k and p["ops"][c][4]]
        for j in range(len(sc)): p["ev"].append([k, nn(R), 1, j])
        if p["nf"] > 1:
            while R.random() < .5: p["ev"].append([k, nn(R), 0, R.randrange(3)])
    p["ev"] = p["ev"][:24]; return p
def nn(R): return int(2 ** R.uniform(0, 9)) if R.random() < .6 else R.randint(1, 320)
def cls(r):
    m = re.match(r"V ([\w-]+)\|(.*)", r); return (m.group(1), m.group(2)) if m else (None, r)
def minimise(ex, p, c):
    def ok(q): return cls(ex.run(q))[0] == c
    def copy(q): return json.loads(json.dumps(q))
    for _ in range(3):
        ch = False
        for k in range(len(p["ev"]) - 1, -1, -1):
            q = copy(p); del q["ev"][k]
            if ok(q): p = q; ch = True
        for k in range(len(p["ops"]) - 1, -1, -1):
            if any(o[3] == k for o in p["ops"]): continue
            q = copy(p); s = q["ops"][k]; del q["ops"][k]
            for o in q["ops"]: o[3] -= o[3] > k
            q["ev"] = [[e[0] - (e[0] > k)] + e[1:] for e in q["ev"] if e[0] != k]
            if q["ops"] and ok(q): p = q; ch = True
        for k in range(len(p["ops"])):
            for b in (1, 2, 4, 8):
                if p["ops"][k][5] & b:
                    q = copy(p); q["ops"][k][5] &= ~b
                    if ok(q): p = q; ch = True
        if not ch: break
    return p
def main():
    ex = Ex()
    if "--plan" in A:
        t = open(opt("--plan")).read(); p = parse(t); r = ex.run(p); c, m = cls(r)
        if "--verbose" in A: print("plan", line(p)); print("verdict", r)
        h = r.split()[1] if r.startswith("ok") else "%x" % (hash_(r))
        print("hash %s sched 0" % h)
        if c: print("REPRODUCED %s: %s" % (c, m)); return 1
        print("quiet"); return 0
    seed, runs, frm, step = int(opt("--seed", 1)), int(opt("--runs", 100)), int(opt("--from", 0)), int(opt("--step", 1)); T = float(opt("--time", 100)); t0 = time.time()
    known = {}; det = int(opt("--det", 50))
    if opt("--known") and os.path.exists(opt("--known")):
        for l in open(opt("--known")):
            m = re.match(r"known: property=C26 signature=(\S+)", l)
            if m: known[m.group(1)] = l
    if "--one" in A:
        p = gen(seed, int(opt("--one"))); print(line(p)); print(ex.run(p)); return 0
    st = {"stats": 1, "runs": 0, "yields": 0, "syscalls": 0, "det_checked": 0, "faults": {"fiber_switch": 0, "signal_interruption": 0, "nested_operation_in_signal": 0, "jump_out_of_callee": 0}, "operations": 0, "known_hits": 0, "samples": []}
    hs = set(); rc = 0
    for i in range(frm, runs, step):
        if time.time() - t0 > T: break
        p = gen(seed, i); r = ex.run(p); c, m = cls(r); st["runs"] += 1
        if c and c in known: st["known_hits"] += 1; continue
        if c:
            r2 = ex.run(p)
            if r2 != r: print("nondeterministic run %d: %s / %s" % (i, r, r2), file=sys.stderr); return 3
            q = minimise(ex, p, c); m2 = cls(ex.run(q))[1]
            with open(opt("--out", "/dev/null"), "w") as f: f.write("# property C26 seed %d run %d: %s %s\n%s\n" % (seed, i, c, m2, line(q)))
            print(json.dumps({"violation": c, "run": i, "msg": m2})); rc = 1; break
        if not r.startswith("ok"): print("run %d: %s" % (i, r), file=sys.stderr); return 3
        f = r.split(); n = [int(x) for x in f[2:]]
        st["yields"] += n[0]; st["syscalls"] += n[1]; F = st["faults"]; F["fiber_switch"] += n[2]; F["signal_interruption"] += n[3]; F["jump_out_of_callee"] += n[4]; F["nested_operation_in_signal"] += n[5]; st["operations"] += len(p["ops"])
        if n[1] > 1 or n[2] or n[5]: hs.add(hash_(f[1] + str(n[:3])))
        if len(st["samples"]) < 1 and n[2] and n[5]: st["samples"].append({"run": i, "plan": line(p)[:300], "verdict": r})
        if det and st["runs"] % det == 1:
            st["det_checked"] += 1
            if ex.run(p) != r: print("nondeterministic run %d" % i, file=sys.stderr); return 3
    if opt("--hashes"): open(opt("--hashes"), "wb").write(b"".join(struct.pack("<Q", h) for h in hs))
    st["wall"] = time.time() - t0; st["othercls"] = {}; print(json.dumps(st)); return rc
def hash_(s):
    import hashlib
    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], "little")
sys.exit(main())
