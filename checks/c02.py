"""C02: every integration attempt of the real solver is recorded (trace unit linked in front of
LinAlgebra::solve) and the sequence judged by an automaton of the documented time-step control;
solver failures, impossible tolerances and nan fields are injected."""
import re
import numpy as np
import fgbuild
import fgrun
import fgscen


def setup(ck, i):
    rng = ck.sub_rng(i)
    kind = ["normal", "fail", "failfrom", "nan", "maxiter", "bigfield", "normal", "tiny", "burst"][i % 9]
    steps = int(rng.integers(1, 6))
    tau = float(10 ** rng.uniform(-13.5, -11.7))
    s = fgscen.make(rng, steps=steps, tau=tau, n=tuple(int(x) for x in rng.integers(1, 4, 3)))
    o, ti = s.settings["outputs"], s.settings["time_integration"]
    t0 = float(rng.choice([0.0, 0.0, 1.7e-12, -3.3e-12, 1e-7]))
    if t0:
        s.settings["initial_time"] = t0
    o["final_time"] = t0 + tau * (steps + float(rng.choice([0, 0, 0.3, -0.3])))
    s.du = ti["max(du)"] = float(rng.choice([0.01, 0.05, 0.2, 1.0]))
    s.dtmax = ti["max(dt)"] = tau * float(rng.choice([0.07, 0.31, 1.0, 1.0, 5.0]))
    s.dtmin = ti["min(dt)"] = s.dtmax * float(10 ** rng.uniform(-5, -1.5))
    env = {}
    if kind == "fail":
        env["FG_FAIL_AT"] = ",".join(str(int(x)) for x in np.sort(rng.choice(30, 5, False) + 1))
    elif kind == "failfrom":
        env["FG_FAIL_FROM"] = str(int(rng.integers(1, 12)))
    elif kind == "nan":
        env["FG_NAN_AT"] = str(int(rng.integers(1, 12)))
    elif kind == "maxiter":
        s.settings["finite_element_solver"] = {"max(iter)": int(rng.integers(1, 5)),
                                               "tolerance": float(10 ** rng.uniform(-9, -3))}
    elif kind == "bigfield":
        s.settings["Bext"] = [float(x) for x in rng.normal(size=3) * 10 ** rng.uniform(0, 3)]
    elif kind == "burst":
        # several failures in a row, at a step that stays too large after as many halvings
        k, at = int(rng.integers(1, 7)), int(rng.choice([1, 1, 2, 5, 12]))
        env["FG_FAIL_AT"] = ",".join(str(at + j) for j in range(k))
        s.du = ti["max(du)"] = float(rng.choice([3e-4, 1e-3]))
        s.dtmax = ti["max(dt)"] = 5 * tau
        s.dtmin = ti["min(dt)"] = 5e-4 * tau
        s.settings["Bext"] = [float(x) for x in fgscen.rdir(rng) * 0.3 / (1.76e11 * tau)]
        o["final_time"] = t0 + tau
    elif kind == "tiny":
        s.dtmin = ti["min(dt)"] = s.dtmax * float(rng.choice([0.3, 0.9, 1.0]))
    s.tol = s.settings.get("finite_element_solver", {}).get("tolerance", 1e-6)
    s.kind, s.t0, s.tau, s.env, s.steps = kind, t0, tau, env, None
    s.targets = t0 + tau * np.arange(int(np.floor((o["final_time"] - t0) / tau + 0.5)) + 1)
    return s


def judge(ck, s, r):
    F = s.files()
    ck.count("runs " + s.kind)
    if r.timeout:
        ck.fail("hang", "the run did not end (%s)" % s.kind, r, F)
        return
    A = [e for e in r.events if e["ev"] == "solve"]
    for e in A:
        for k in ("t", "dt", "vmax", "said", "move", "res"):
            e[k] = float(e[k])
    ck.count("attempts", len(A))
    ulp = 4e-16 * max(abs(s.targets[0]), abs(s.targets[-1]))
    last_t = s.t0     # time of the last accepted state
    where = lambda i: "attempt %d of %d (t=%.17g dt=%.17g)" % (i + 1, len(A), A[i]["t"], A[i]["dt"])  # noqa
    for i, e in enumerate(A):
        ck.ensure(e["dt"] <= s.dtmax * (1 + 1e-6), "dt>max", lambda: where(i) + ": max(dt)=%g" % s.dtmax, r, F)
        ck.ensure(e["dt"] >= s.dtmin * (1 - 1e-9), "dt<min", lambda: where(i) + ": min(dt)=%g" % s.dtmin, r, F)
        nxt = s.targets[s.targets > e["t"] + ulp]
        if not len(nxt):
            ck.fail("beyond", where(i) + ": no output time left (last %g)" % s.targets[-1], r, F)
            break
        ck.ensure(e["t"] + e["dt"] <= nxt[0] * (1 + 0) + 2 * ulp + 1e-9 * s.tau, "overshoot",
                  lambda: where(i) + ": next output time is %.17g" % nxt[0], r, F)
        ck.ensure(abs(e["t"] - last_t) <= ulp, "time", lambda: where(i) + ": the last accepted state "
                  "is at %.17g" % last_t, r, F)
        ck.ensure(e["hc1"] == e["hc"], "state-changed", lambda: where(i) + ": the attempt modified "
                  "the starting state", r, F)
        du = e["vmax"] * e["dt"]
        if not e["err"]:
            ck.ensure(np.isfinite(du) and abs(e["said"] - e["vmax"]) <= 1e-9 * e["vmax"] + 1e-300,
                      "vmax", lambda: where(i) + ": largest rate %.12g, reported %.12g" % (
                          e["vmax"], e["said"]), r, F)
            ck.ensure(e["nnan"] == 0, "nan-state", lambda: where(i) + ": %d nan nodes accepted by "
                      "the linear solver" % e["nnan"], r, F)
            ck.maximum("residual of accepted solves / tolerance", e["res"] / s.tol)
            ck.ensure(e["res"] <= 3 * s.tol + 1e-10, "residual", lambda: where(i) + ": solve reported "
                      "as converged with a relative residual %g (tolerance %g)" % (e["res"], s.tol),
                      r, F)
        accepted = not e["err"] and du <= s.du * (1 + 1e-12)
        more = i + 1 < len(A)
        if accepted:
            ck.count("accepted")
            tn = e["t"] + e["dt"]
            if more:
                f = A[i + 1]
                adv = f["t"] > e["t"]
                ck.ensure(adv, "not-accepted", lambda: where(i) + ": valid step (du=%g) not "
                          "accepted, next attempt at t=%.17g" % (du, f["t"]), r, F)
                ck.ensure(abs(f["t"] - tn) <= ulp, "advance", lambda: where(i) + ": time advanced "
                          "by %.17g" % (f["t"] - e["t"]), r, F)
                ck.ensure(f["hc"] == e["hn"], "next-state", lambda: where(i) + ": the next step does "
                          "not start from the accepted state", r, F)
            last_t = tn
        else:
            ck.count("rejected by the solver" if e["err"] else "rejected for du")
            if more:
                f = A[i + 1]
                ck.ensure(f["t"] == e["t"], "accepted-bad", lambda: where(i) + ": rejected attempt "
                          "(err=%d du=%g max(du)=%g) but time advanced to %.17g" % (
                              e["err"], du, s.du, f["t"]), r, F)
                ck.ensure(f["dt"] < e["dt"], "retry-dt", lambda: where(i) + ": retried with dt=%.17g"
                          % f["dt"], r, F)
                ck.ensure(f["hc"] == e["hc"], "retry-state", lambda: where(i) + ": retry does not "
                          "start from the same state", r, F)
            else:
                ck.ensure(r.rc != 0, "bad-end", lambda: where(i) + ": the run ended successfully "
                          "after a rejected attempt", r, F)
    # the rows and the verdict
    if r.evol is None:
        ck.fail("no-evol", "no evolution file (%s) %s" % (fgrun.describe(r), r.err[-200:]), r, F)
        return
    row = {c: r.evol[:, k] for k, c in enumerate(s.settings["outputs"]["evol_columns"])}
    if A or len(s.targets) == 1:
        want = s.targets[s.targets <= last_t + 2 * ulp + 1e-9 * s.tau]
        ck.ensure(len(row["t"]) == len(want) and np.abs(row["t"] - want[:len(row["t"])]).max()
                  <= 1e-9 * s.tau + ulp, "rows", lambda: "last accepted time %.17g, rows at %s" % (
                      last_t, row["t"]), r, F)
    complete = len(row["t"]) == len(s.targets)
    if complete:
        ck.ensure(r.rc == 0, "status", lambda: "complete run ends with %s: %s" % (
            fgrun.describe(r), r.err[-200:]), r, F)
        ck.count("complete runs")
    else:
        msg = re.search(r"abort|fail|dt *<", (r.out + r.err), re.I)
        ck.ensure(r.rc is not None and r.rc > 0 and msg, "abort", lambda: "incomplete run (%d of %d rows) "
                  "ends with %s and no explicit message" % (len(row["t"]), len(s.targets),
                                                            fgrun.describe(r)), r, F)
        ck.count("aborted runs")
    if s.kind in ("failfrom", "nan") and (A or not s.traced):
        if s.traced or s.kind == "nan":
            hit = s.kind == "nan" and any(e["ev"] == "fmm" and e["n"] == int(s.env["FG_NAN_AT"])
                                          for e in r.events) or \
                s.kind == "failfrom" and any(e["inj"] for e in A)
            if hit and not complete:
                ck.count("aborts after injected persistent failure")
            if hit and complete and s.kind == "failfrom":
                ck.fail("persistent", "complete run although the solver failed from attempt %s on" %
                        s.env["FG_FAIL_FROM"], r, F)
    k = np.arange(1, len(row["t"]))
    ck.ensure((row["dt"][k] <= s.dtmax * (1 + 1e-6)).all(), "row-dt", lambda: "dt column %s, max(dt)="
              "%g" % (row["dt"], s.dtmax), r, F)
    ck.ensure((row["max_dm"][k] <= s.du * (1 + 1e-9)).all(), "row-du", lambda: "max_dm column %s, "
              "max(du)=%g" % (row["max_dm"], s.du), r, F)
    ck.case((s.kind,) + s.key, {"kind": s.kind, "attempts": len(A), "exit": r.rc, "tau": s.tau,
                                "max(dt)": s.dtmax, "min(dt)": s.dtmin, "max(du)": s.du})


def run(ck):
    ck.rule = ("random problem and time-step limits, with injected solver failures at chosen "
               "attempts, persistent failures, nan fields, iteration limits, strong fields; "
               "distinct = distinct (fault kind, problem descriptor)")
    ck.assumptions = ["attempts are observed at the call of LinAlgebra::solve; if the trace unit "
                      "does not fit the tree, only the output files are judged"]
    exe, traced = fgbuild.Variant("plain").feellgood(trace=True)
    ck.count("traced", int(traced))
    n = 1600 if ck.thorough else 200
    for base in range(0, n, 80):
        ss = [setup(ck, j) for j in range(base, min(n, base + 80))]
        for s in ss:
            s.traced = traced
        for s, r in zip(ss, fgrun.pmap(lambda s: s.run(exe, env=s.env, args=["--seed", "5"]), ss)):
            judge(ck, s, r)
        if len(ck.violations) > 200:
            break
