#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import check
NA = {
 "C23": "the layout of a type and the offsets of its fields are a pure function of the type: no schedule, clock, I/O, fault or other party for a simulator to control (the crash/rejection side of malformed descriptions is covered by C17)",
 "C24": "the verdict on a description in a fresh state is a pure function of the description: nothing for the simulator to schedule or inject (that the verdict does not depend on earlier or concurrent preparations is C17, which is claimed)",
 "C25": "the code of the other processors (all but x86, for which see C26) cannot be executed here (no cross compilers, no emulators), so no simulated execution of it exists",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in check.PROPS]
W = {"A": ("deterministic simulation (seeded scheduler at every memory access, simulated OS with fault injection, reference model and history checks)",
     "seeded search over schedules, environments, address placements and fault sequences of the real closure-memory code; every violation is replayed with the same hash in fresh processes. Not exhaustive; sequentially consistent memory; x86-64 only; trusts the simulated OS and the oracles in simA"),
     "B": ("deterministic simulation (seeded scheduler with instruction-level preemption and interrupts, compiler as reference model, history checks)",
     "seeded search over signatures, values, entry points, nesting, preemption and interrupt points of the real call and closure code, compiled with the shipped flags; every violation is replayed with the same hash in fresh processes. Not exhaustive; x86-64 only; trusts gcc as the reference for both calling conventions"),
     "C": ("deterministic simulation (seeded plans on fibers with a signal at every library instruction, compiler as reference model, checks at every callee and return)",
     "seeded search over signatures, conventions, values, entry points, nesting, interleaving, interrupt points and long jumps of the real 32-bit x86 code; every violation is replayed with the same hash in fresh processes. Not exhaustive; freestanding (no 32-bit C library here), closure memory stubbed; trusts gcc -m32 as the reference")}
m = {"version": 1, "setup_cmd": "python3 check.py --build",
 "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
   "technique": W[check.PROPS[p][0]][0], "level": "exploration", "level_note": W[check.PROPS[p][0]][1]} for p in ids if p in check.PROPS],
 "not_applicable": na,
 "notes": "No hooks in /repo: the simulators compile /repo's sources themselves and redirect library and system calls at object level."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks", len(na), "not applicable")
