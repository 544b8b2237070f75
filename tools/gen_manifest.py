#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
SIM = "deterministic simulation with fault injection: "
N = {
"C01": ("seeded driver schedules with crash/restart, rows checked against the report list", "a run ends in exactly one row per requested time; explored schedules only"),
"C02": ("seeded driver schedules with crashes and disturbances, each row against an independent tableau implementation", "tolerance of rounding only; the reference implementation of the five published methods is trusted"),
"C03": ("seeded adaptive runs with model faults, crashes, disturbances; each accepted step against the published pair", "tolerance of rounding only; the reference pair formulas are trusted"),
"C04": ("seeded adaptive runs with crashes and disturbances; each step replayed through an independent control law", "decisions within rounding of the accept limit are not judged; the reference control law is trusted"),
"C05": ("seeded adaptive runs with crashes and restarts; the step log is walked against rows and report times", "explored schedules only"),
"C06": ("bursts of NaN/inf derivatives injected at seeded evaluations of adaptive runs", "judged while iterations remain, as the property says"),
"C07": ("seeded crashes (also inside evaluations) and restarts from checkpoints in five formats; exact comparison with the uninterrupted run", "JSON floats one to four units in the last place off are a listed finding, checked to come from serde_json alone"),
"C08": ("panics injected at seeded evaluations; step boundaries and resumed rows against the undisturbed run", "one listed finding (last row lost); everything else exact"),
"C09": ("system-call faults, process death and power loss at seeded calls of a save, and scheduled concurrent savers", "durability after power loss is a model: synced data plus a random prefix of the rest"),
"C10": ("read faults, truncation and damage of stored bytes at seeded places", "memory and time bounds are those of the run limits; explored damage only"),
"C11": ("several systems on scheduler-controlled threads, switched at evaluations and file calls, against each run alone", "switch points are evaluations, file calls and operation boundaries, not single instructions"),
"C12": ("copies taken, advanced (also concurrently, also failing), disturbed and dropped at seeded points of a run", "explored schedules only"),
"C13": ("seeded thermal networks under scripts of crashes, restarts and copies; conservation checked in every row", "tolerance of rounding, scaled with the number of steps"),
"C14": ("seeded schedules and permanent non-finite faults under an evaluation budget taken from a reference solver", "termination is judged as progress within a budget a factor of hundreds above the reference"),
"C15": ("seeded schedules, crashes and disturbances; every row against the reference model at its time and states", "tolerance of rounding; the reference models are trusted"),
"C16": ("seeded operation sequences with crashes and reloads against a list of records", "six record types; explored sequences only"),
"C17": ("the Python process as a simulated node: seeded operations, kills and restarts, compared with the Rust library after each", "the Rust library linked into the simulator is the reference"),
"C18": ("simulated clock behind clock_gettime: stalls and jumps during timed expressions", "explored schedules only"),
"C19": ("seeded disturbances between steps with crashes and restarts; reads, following steps and rows checked exactly", "explored schedules only"),
"C20": ("system-call faults, process death and power loss at seeded calls of benchmark regeneration", "durability after power loss is a model: synced data plus a random prefix of the rest"),
}
NA = {
"C30": "a convergence order is a statement about a pure numerical function as the step tends to zero: no schedule, clock, fault or interleaving is in it. (That every step is the published formula, which implies it, is decided as C02 and C03.)",
"C31": "pure functions of their arguments: no schedule, clock, fault or interleaving for a simulator to decide.",
"C32": "a statement about the compiler's treatment of programs, not about an execution: nothing runs, so nothing can be simulated.",
}
m = {"version": 1, "setup_cmd": "./build.sh py",
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
   "evidence_file": f"evidence/{k}.json", "technique": SIM + t, "level": "exploration", "level_note": "seeded search, a clean batch is evidence and not proof; " + n} for k, (t, n) in N.items()],
 "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()],
 "notes": "No hooks in /repo: the repository's traits and macros (model callbacks), libc (files, clock) and the process boundary (Python) are the seams. Commits in /repo are fixes only, listed in known_findings.json. Replay a violation with: ./target/release/dsim replay FILE"}
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
json.dump(m, open(p, "w"), indent=1); open(p, "a").write("\n")
