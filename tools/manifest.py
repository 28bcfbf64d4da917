#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE = "deterministic simulation of the real engine under a seeded fiber scheduler that replaces the OpenMP runtime (preemption at instrumented memory accesses), "
APP = "deterministic simulation of the whole program in one process with simulated files, clock, console and process crashes, "
NOTE = "Seeded search, not exhaustive: a clean run is evidence for the schedules, scenes and faults explored. "
C = {
 "C01": (ENGINE + "lockstep comparison with a one-thread run", "Trusts the fiber scheduler (sequentially consistent interleavings) and the comparison tolerance; near-singular steps whose one-thread result itself is unstable are set aside."),
 "C02": (ENGINE + "vector-clock race detector, deadlock and termination detection", "Happens-before race detection is schedule-sensitive; accesses inside libc are covered through interposed memcpy/memset/memmove only."),
 "C03": (ENGINE + "all-pairs reference model checked after every phase", "Trusts the reference in sim/ref.hpp; particles within rounding of the influence radius are accepted either way."),
 "C04": (ENGINE + "lockstep comparison with a computer that never had the disabled particles", "The band between the domain and the search margin is left open."),
 "C05": (ENGINE + "reference CFL step and clock checked every step", "Trusts the reference."),
 "C06": (ENGINE + "recorded wall-callback history checked every step", "Trusts the recorder."),
 "C07": (ENGINE + "independent assembly of the pressure equation; residual and dense solution checked every step", "Trusts the reference assembly; residual judged against the requested tolerance plus a rounding floor."),
 "C08": (ENGINE + "all-pairs reference of the explicit phase checked every step", "Trusts the reference."),
 "C09": (ENGINE + "all-pairs reference of the gradient and anti-overlap corrections checked every step", "Trusts the reference; the pressures used are the engine's own (C07 judges them)."),
 "C10": (ENGINE + "lockstep comparison with a computer replaced at random points", "Comparison tolerance as in C01."),
 "C11": (ENGINE + "additions at random points, with allocation failures, against merged additions in a second computer", "Comparison tolerance as in C01."),
 "C12": (ENGINE + "allocation failures at every allocation of a step, throwing callbacks, unsolvable equations, full cells; lockstep comparison with a fresh computer afterwards", "malloc/operator new are the injected faults; one fault per step."),
 "C13": (ENGINE + "concurrent registration in the real grid against a set model", "Positions within rounding of a cell border are accepted in either cell."),
 "C14": (ENGINE + "the same plan and schedule seed in builds with and without OpenMP and ViennaCL, evolutions compared", "Histories of few steps; sensitive steps are set aside."),
 "C15": (APP + "snapshot files and numbers against the schedule computed from the input", "Trusts the direct engine run for the time steps."),
 "C16": (APP + "file rows and console lines against a direct run of the engine", "Trusts the direct engine run."),
 "C17": (APP + "a second run started from a snapshot of the first", "Further evolution compared within the precision of the file."),
 "C18": (APP + "write errors, full disk, short writes, missing folder and a crash at every file operation; announced snapshots read back", "Crash model: data handed to the operating system survives (process kill, not power loss)."),
 "C19": (APP + "damaged input files, short reads and read errors under a memory-error detector; nothing may be written", "Random damages are judged by an independent validator that is silent where it is not certain; trusts boost's XML parser."),
 "C20": (APP + "clock jumps, failing console, leftover files; snapshots compared with an undisturbed run", ""),
 "C24": (ENGINE + "the same life of a computer repeated with failing allocations, throwing callbacks and unsolvable equations; live memory compared from round to round", "operator new is the memory that is watched; inside ViennaCL's own parts of a step no allocation is made to fail (it loses a block of its own)."),
 "C25": (ENGINE + "two different computers on two simulated application threads, each compared with its lone run; race detection between them", "The computers' own parallel regions have a team of one while both run (nested parallelism off)."),
 "C21": (APP + "failing scenes run to their failure; outcome, message and files judged", ""),
}
NA = {
 "C22": "The generators are sequential Python and gnuplot scripts outside the program: no schedule, clock, fault or interleaving to simulate.",
 "C23": "A statement about numerical accuracy against physics; no schedule, clock, fault or interleaving decides it.",
}
BUILT = ["C%02d" % i for i in range(1, 22)] + ["C24", "C25"]
COMMITS = ["dbd4f90"]
import subprocess
full = [subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True).stdout.strip() for c in COMMITS]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "OPENMPS_SIM", "enable": "-DOPENMPS_SIM on the command line of the engine translation unit (lib/engine.py)", "source_commits": full},
     "checks": [], "not_applicable": []}
for p in sorted(list(C) + list(NA)):
    if p in BUILT:
        t, n = C[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p, "technique": t, "level": "exploration", "level_note": NOTE + n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
