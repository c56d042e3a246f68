"""C11: the solvers' verdicts judged with an independent residual, in a harness (plain, and with
ASan/UBSan) over random well-posed, ill-posed, singular and poisoned systems; and, in runs of the
whole program, the true residual of every solve reported as converged."""
import fgbuild
import fgharness
import fgrun
import fgscen


def run(ck):
    ck.rule = ("random sparse systems (graph Laplacians, tangent-plane and spin-diffusion structure, "
               "unsymmetric, singular, indefinite, nan) x solver x constraints x guess x scale x "
               "iteration limit; distinct = (solver, kind, verdict, guess, limits); and the linear "
               "systems of real runs")
    ck.assumptions = ["norms neither overflow nor underflow (scales 1e-60 to 1e60)",
                      "the initial guess is zero on the constrained unknowns, as in all call sites"]
    n = 60000 if ck.thorough else 8000
    jobs = [("plain", n, 0, {0}), ("plain", n // 8, 1, None), ("asan", n // 2, 2, {1}),
            ("seq", n, 3, {2})]
    exes = {v: fgharness.build(ck, v, "h_algebra", libsrc=False) for v in {j[0] for j in jobs}}
    jobs = [j for j in jobs if exes[j[0]]]
    res = fgrun.pmap(lambda j: fgharness.execute(exes[j[0]], j[1], ck.seed * 1000 + j[2], cpus=j[3]), jobs)
    for j, r in zip(jobs, res):
        fgharness.feed(ck, r, "(%s build) " % j[0])
    # real systems
    exe, traced = fgbuild.Variant("plain").feellgood(trace=True)
    ck.count("traced", int(traced))
    if traced:
        ss = []
        for i in range(200 if ck.thorough else 40):
            rng = ck.sub_rng(7, i)
            s = fgscen.make(rng, steps=3, tau=float(rng.choice([1e-13, 1e-12])))
            s.settings["finite_element_solver"] = {"tolerance": float(10 ** rng.uniform(-10, -2)),
                                                   "max(iter)": int(rng.choice([700, 2, 5]))}
            ss.append(s)
        for s, r in zip(ss, fgrun.pmap(lambda s: s.run(exe), ss)):
            tol = s.settings["finite_element_solver"]["tolerance"]
            for e in r.events:
                if e["ev"] == "solve":
                    ck.count("solves in real runs")
                    if not e["err"]:
                        ck.ensure(float(e["res"]) <= 3 * tol + 1e-10, "run-residual", lambda:
                                  "attempt %d: solve reported as converged with a relative residual "
                                  "%s (tolerance %g)" % (e["n"], e["res"], tol), r, s.files())
            ck.case(("run",) + s.key)
