#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: "
N = ("Seeded sampling, not proof. Trusts the instrumenter (statement-level yield points), the stand-ins for sync, time, xsync and "
     "maps (same contracts, deterministic) and the reference model. ")
C = {
 "C01": ("reference model over simulated histories", "Every answer is compared with an executable model of grants under random histories, clock movement, map orders and pool behaviour."),
 "C02": ("history judged against all combinations of overlapping changes", "Answers of requests overlapping changes are checked against every subset of the overlapping changes; quiescent state against all of them."),
 "C03": ("simulated clock placed on, before and after expiries", "Clock jumps, backward ticks and ticks inside a call; answers judged against every clock reading the call could see."),
 "C04": ("concurrent requests under adversarial buffer recycling", "Static configuration, concurrent requests; each answer equals the answer alone."),
 "C05": ("controlled schedules with the race detector, step budgets, deadlock detection", "Panics, deadlocks, budget overruns and data races under simulated schedules; the race detector runs on the same deterministic schedules."),
 "C06": ("linearizability of role-graph additions against a reference graph", "Concurrent additions must have an order in which every refusal is exact; listings afterwards agree with it."),
 "C07": ("reference model of role questions over simulated histories", "As C01 for role questions mixed with permission requests; also asks everything twice."),
 "C08": ("fault-injecting audit sink", "The sink errs, delays, stalls, panics and re-enters at chosen records; records and decisions are compared, others must progress."),
 "C09": ("reference model and linearizability of removals", "Errors and later answers of removals alone and concurrent are compared with a list model."),
 "C10": ("reference fact model over simulated histories", "Every answer is compared with a model deciding from the recorded facts; where the documentation leaves the answer open the model bounds it from both sides."),
 "C11": ("history judged against all combinations of overlapping changes", "Object identity, kept registrations and answers under concurrent registration and hierarchy building."),
 "C12": ("controlled schedules with the race detector, step budgets, deadlock detection", "As C05 for the root package."),
 "C13": ("twin histories: same facts, different orders and questions", "Two managers told the same facts in permuted order with different earlier questions must agree on everything."),
 "C14": ("concurrent insertions and searches against a set model", "Search results bounded by the facts recorded before and during it; predicates that panic."),
 "C15": ("real-time order of lock, unlock and change calls", "Each change's result is judged against the lock state it could have seen."),
 "C16": ("step-budgeted hierarchy walks against a reachability model", "Any shape including cycles, built concurrently; results equal reachability in the model."),
 "C17": ("reference fact model with adversarial identifiers", "As C10 for v1, identifiers containing separators."),
 "C18": ("concurrent histories, buffer recycling and the race detector", "As C11 and C12 for v1 together."),
}
m = dict(version=1, setup_cmd="bash run.sh build",
  checks=[dict(property=k, quick_cmd=f"bash run.sh {k}", thorough_cmd=f"VERIF_TIER=thorough bash run.sh {k}",
      evidence_file=f"evidence/{k}.json", technique=T + t, level="exploration", level_note=N + n) for k, (t, n) in C.items()],
  not_applicable=[
   dict(property="C19", reason="MatchResource is a pure function of two strings: no concurrency, clock, I/O or multi-party behaviour for a simulation to vary. (The checks of C01, C07, C10 and C16 use an independent matcher as their oracle, and step budgets catch a matcher that hangs.)"),
   dict(property="C20", reason="The persistent list and the slice helpers are pure functions on private values: no schedule, fault or clock reaches them."),
  ],
  notes="No hooks in /repo: the checks instrument a scratch copy of the working tree at build time. Defects found are repaired in 'fix:' commits, see known-findings.txt.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
