#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in checks/ (run by hand after adding a check)."""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": ("runtime monitor on saved states + harness", "unit norm, nan and tangency invariants on every state saved by random runs"),
    "C02": ("trace monitor of the time-step control", "online checker of every attempt of the integrator, with injected solver failures"),
    "C03": ("output-file monitor", "schedule, names, columns and metadata of every file the run leaves"),
    "C04": ("trajectory monitor against a reference integrator", "LLG trajectories compared with an independent Runge-Kutta integration, order of convergence measured"),
    "C05": ("harness monitor of element matrices against an independent weak form", "random elements, states and materials through the real element code, under ASan/UBSan"),
    "C06": ("runtime monitor recomputing every evolution row", "every value of every row recomputed from the configuration saved with it"),
    "C07": ("energy-balance monitor", "energy of successive rows and torque of the final state"),
    "C08": ("metamorphic run-time comparison", "the same physics written differently, results compared"),
    "C09": ("mesh monitor and fault injection", "counts, charges and observables recomputed from the mesh; systematically damaged meshes"),
    "C10": ("runtime monitor on the charges given to the FMM", "neutrality and dipole on every evaluation, exact potential at every node"),
    "C11": ("harness monitor of solver verdicts, ASan/UBSan", "every verdict of the solvers judged with an independent residual"),
    "C12": ("ThreadSanitizer and parallel/sequential comparison", "race detection on stress workloads, differential runs over thread counts"),
    "C13": ("ASan/UBSan/valgrind over fuzzed and unusual inputs", "sanitizers watch the real program on hostile input; clean failure is the oracle"),
    "C14": ("fault injection (signals) and restart comparison", "signals at every magnetostatic evaluation, restart from every saved file"),
    "C15": ("settings monitor: --verify output and run-time effect", "random settings split over files, forms and defaults; effective values observed"),
    "C16": ("run-time monitor of the saved potential", "discrete charge conservation recomputed on the saved potential"),
    "C17": ("run-time monitor of the saved spin accumulation", "discrete spin-diffusion residual recomputed on each saved state"),
    "C18": ("run-time monitor of expression values", "values produced by scripts compared with an independent evaluation"),
    "C19": ("run-time monitor of recentering", "states before and after each shift, wall position over long drives"),
    "C20": ("run-time monitor of the files made by the tools", "generated meshes and files parsed independently and fed to the solver"),
}
checks, na = [], []
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
for pid in ids:
    if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        t, n = TECH[pid]
        checks.append({"property": pid, "quick_cmd": "python3-vt /verif/run_check.py " + pid,
                       "thorough_cmd": "VERIF_TIER=thorough python3-vt /verif/run_check.py " + pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": t,
                       "level": "exploration", "level_note": n})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
