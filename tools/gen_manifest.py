#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Exhaustive within the bounds printed in the evidence file (states, transitions, executions per scenario). "
          "Assumes the compilers, the address sanitizer and the harness oracle; values outside the enumerated alphabets are not covered. ")
NOTE = {
 "C01": "Explicit registration histories against a set model on both systems, with call-counting probes in the next step.",
 "C02": "Differential: used system against freshly built objects after every history of scenes, edits and sizes.",
 "C03": "Life-cycle histories under address sanitizer with heap accounting and five contents of fresh memory.",
 "C04": "Two real threads under a controlled scheduler; every load, store and atomic operation of the library is observed. Pairs without conflicting accesses need one schedule (partial-order reduction); otherwise, and at call granularity for selected pairs in any case, all schedules up to the preemption bound are run. Results must be bit-equal to the run alone.",
 "C05": "Real steps against closed-form rules of the integrators.",
 "C06": "Real Runge-Kutta stages against an independent implementation of the classical scheme over independent force laws.",
 "C07": "Post-step velocity equation evaluated by an independent reference constraint library.",
 "C08": "Accelerations recovered from the real step against an independent dense saddle-point reference.",
 "C09": "Complementarity of every limited row checked against an independently computed multiplier.",
 "C10": "Reported reactions against the impulse that the bodies received, minus independently computed loads.",
 "C11": "All block patterns / values of the alphabet against a long-double dense solve.",
 "C12": "Residual of the answer whenever success is reported; success whenever an independent conjugate-gradient run converges.",
 "C13": "Stopping rule, limits and residual against an independent dense sweep.",
 "C14": "Reported sensitivities and their rates against fourth-order differences of the reported error and sensitivities.",
 "C15": "Position errors against geometry evaluated independently.",
 "C16": "Force laws against independent formulas, with action/reaction and accumulation.",
 "C17": "Frames, point velocities and forces against independent kinematics.",
 "C18": "All shapes and aliasing patterns of the alphabet against plain loops.",
 "C19": "All block patterns against the dense matrix they stand for.",
 "C20": "All size/copy histories against a vector model.",
 "C21": "All permutations and extensions of scenes against the base scene.",
 "C22": "k substeps in one call against k calls on separate objects.",
 "C23": "Momentum, angular momentum and energy balances of real runs.",
 "C26": "Every class, contents of fresh memory and subset of settings against the documented defaults and the reference laws.",
 "C27": "Differential: each scene against its own image under the transformation, no physical model involved.",
 "C28": "Recording user classes on the real systems; every argument compared with a dense reference system built from what the user classes answered.",
 "C29": "Differential: each scene against its own moved, turned and wound-up image, no physical model involved.",
 "C24": "Virtual clock owned by the harness; all histories of clock answers up to the depth.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".cpp")):
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i,
                       "thorough_cmd": "python3 tools/check.py %s --thorough" % i,
                       "technique": "schedule-enumerating model checking of the real code (controlled threads)" if i == "C04"
                       else "stateless explicit-state model checking of the real code against a reference model",
                       "level": "model_checking", "level_note": (COMMON.replace("the address sanitizer and ", "") if i == "C04" else COMMON) + NOTE[i]})
    elif i == "C25":
        na.append({"property": i, "reason": "quantifies over all real parameters and unbounded time: no finite enumeration of executions decides it, and finite-time error is covered by C05-C08 and C23"})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harnesses reach everything through public and protected members. Each check builds /repo/src itself into /verif/build (ignored by git)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
