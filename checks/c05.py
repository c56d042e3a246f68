"""C05: (1) real element code in a harness against an independent weak form in long double, under
ASan/UBSan too and in the one-Gauss-point build; (2) whole program: each integration step of random
problems against the same scheme assembled and solved independently from the saved states."""
import numpy as np
import fgbuild
import fgharness
import fgoracle as fo
import fgrun
import fgscen


def step_check(ck, s, r):
    tau = s.settings["outputs"]["evol_time_step"]
    dtmax = s.settings["time_integration"]["max(dt)"]
    if r.rc == 1 and "ABORTED" in r.out:
        ck.count("problems given up by the integrator (not compared)")
        return
    if not ck.ensure(r.rc == 0 and r.evol is not None, "run", lambda: "a valid problem does not run: "
                     + fgrun.describe(r) + " " + r.err[-300:], r, s.files()):
        return
    b = s.body()
    names = sorted(k for k in r.sols if "iter" in k)
    U = [r.sols[k][2][:, 1:4] for k in names]
    P = [r.sols[k][2][:, 4] for k in names]
    t, dt = fgrun.col(r, "t"), fgrun.col(r, "dt")
    cub = any(q["K3"] for q in b.par.values() if q["Ms"] > 0)
    for k in range(1, len(U)):
        # the times are rounded to the precision of t0
        if abs(dt[k] / tau - 1) > 3e-9 or abs(dt[k - 1] / tau - 1) > 3e-9 and k > 1:
            ck.count("rows of several steps (not compared)")
            continue
        u0, u1 = np.nan_to_num(U[k - 1]), U[k]
        v0 = np.zeros_like(u0)
        phiv = np.zeros(len(u0))
        if k > 1:
            a = np.nan_to_num(U[k - 2])
            d = np.einsum("ij,ij->i", a, u0)
            d[d == 0] = 1
            v0 = (u0 / d[:, None] - a) / dt[k - 1]
            v0[~b.magnode] = 0
            phiv = np.nan_to_num(b.potential(v0)[0])
        H = (lambda p: s.Hxt(p, t[k - 1])) if s.Hxt else (
            lambda p: np.tile(s.H(t[k - 1]), (len(p), 1)))
        phi = np.nan_to_num(P[k - 1])
        m = b.magnode

        def err(known):
            v = b.step(u0, v0, phi, phiv, H, dt[k], dtmax, known_cubic=known)
            w = u0[m] + dt[k] * v[m]
            w /= np.linalg.norm(w, axis=1)[:, None]
            return np.abs(w - u1[m]).max(), np.abs(w - u0[m]).max()
        e, du = err(False)
        tol = 1e-7 + 3e-6 * du
        ck.count("integration steps recomputed")
        ck.count("with a moving start", int(k > 1))
        if e > tol and cub and err(True)[0] <= tol:
            ck.fail("cubic-second-order", "cubic anisotropy: one step moves the magnetization by %.3g, "
                    "off by %.3g" % (du, e), r, s.files())
        elif e > tol:
            ck.fail("step", "one integration step (row %d, dt=%g) differs from the scheme by %.3g, for a "
                    "change of %.3g; %s" % (k, dt[k], e, du, s.desc), r, s.files())
        else:
            ck.maximum("step error relative to the change (+1e-7)", e / (du + 1e-2))
    ck.case(("run",) + s.key, {"scenario": s.desc})


def run(ck):
    ck.rule = ("random elements (shape, position, node order, texture, material, field, spin field, time "
               "step) through the real Tet/Tri code; random whole problems, one integration step per "
               "row, each step recomputed from the saved states; distinct = kind of element or problem")
    ck.assumptions = ["the artificial drift velocity of the recentering is never set by the program and is "
                      "left out", "surface anisotropy where the two sides have the same Ms is left out"]
    n = 60000 if ck.thorough else 6000
    jobs = [("plain", n), ("asan", n // 2), ("onegp", n // 2)]
    exes = fgrun.pmap(lambda j: fgharness.build(ck, j[0], "h_element", libsrc=["tetra", "triangle"]), jobs)
    res = fgrun.pmap(lambda a: a[1] and fgharness.execute(a[1], a[0][1], ck.seed * 100 + a[2]),
                     [(j, e, i) for i, (j, e) in enumerate(zip(jobs, exes))])
    for j, r in zip(jobs, res):
        if r:
            fgharness.feed(ck, r, "(%s build) " % j[0])
    exe, _ = fgbuild.Variant("plain").feellgood(trace=True)
    ss = []
    for i in range(400 if ck.thorough else 60):
        rng = ck.sub_rng(5, i)
        tau = float(10 ** rng.uniform(-14.3, -12.7))
        s = fgscen.make(rng, steps=3, tau=tau, cols=["iter", "t", "dt", "max_dm"])
        s.settings["time_integration"] = {"max(du)": 5.0, "min(dt)": 0.55 * tau, "max(dt)": 2 * tau}
        s.settings["finite_element_solver"] = {"tolerance": 1e-9, "max(iter)": 2000}
        t0 = float(rng.choice([0.0, 0.0, 2.7e-12, -4e-12, 3e-9]))
        if t0:
            s.settings["initial_time"] = t0
            s.settings["outputs"]["final_time"] += t0
        ss.append(s)
    for s, r in zip(ss, fgrun.pmap(lambda s: s.run(exe), ss)):
        step_check(ck, s, r)
    g = ck.counts["problems given up by the integrator (not compared)"]
    ck.ensure(g <= len(ss) // 3, "given-up", "%d of %d problems were given up by the integrator" % (g, len(ss)))
