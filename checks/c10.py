"""C10: magnetostatics. The stand-in of the FMM library logs the charges it is given; conservation
laws are checked on every evaluation, the saved potential against an independent computation."""
import numpy as np
import fgbuild
import fgmesh
import fgoracle as fo
import fgrun
import fgscen


def one(ck, exe, i):
    rng = ck.sub_rng(i)
    steps = int(rng.integers(1, 4))
    s = fgscen.make(rng, steps=steps, surfaces=int(rng.choice([0, 1, 2, 3])),
                    field=str(rng.choice(["zero", "const", "time"])))
    tau = float(rng.choice([2e-14, 5e-14, 1e-13]))
    o, ti = s.settings["outputs"], s.settings["time_integration"]
    o["evol_time_step"], o["final_time"] = tau, tau * steps
    ti["max(dt)"], ti["min(dt)"], ti["max(du)"] = 2 * tau, 0.55 * tau, 0.8
    return s, s.run(exe), tau


def judge(ck, i, s, r, tau):
    F = s.files()
    if "**ABORTED**" in r.out and r.rc == 1:
        ck.count("aborted runs")
    elif not ck.ensure(r.rc == 0 and r.evol is not None, "run", lambda: "a valid problem ended with %s: %s" % (
            fgrun.describe(r), r.err[-300:]), r, F):
        return
    b = s.body()
    ev = [e for e in r.events if e["ev"] == "fmm"]
    if not ck.ensure(len(ev) >= 1, "no-fmm", "no magnetostatic evaluation observed", r, F):
        return
    norm = None
    half = np.ptp(b.p, axis=0).max() / 2
    suppressed = any(q.get("suppress_charges") for q in s.surfs.values())
    msv = (b.Ms * b.vol)[b.mag].sum()
    for e in ev:
        ck.count("evaluations observed")
        ck.ensure(e["out"] == 0, "box", lambda: "%d sources or targets outside the solver's box "
                  "(max coordinate %g)" % (e["out"], e["maxabs"]), r, F)
        ck.ensure(e["nan"] == 0, "nan", "nan charges given to the solver", r, F)
        ck.ensure(e["ntgt"] == b.magnode.sum(), "targets", lambda: "%d targets for %d magnetic nodes"
                  % (e["ntgt"], b.magnode.sum()), r, F)
        if not suppressed:
            q, qa = float(e["q"]), float(e["qa"])
            ck.ensure(abs(q) <= 1e-9 * qa + 1e-300, "neutral", lambda: "charges sum to %g, absolute"
                      " sum %g (%s)" % (q, qa, s.desc), r, F)
            ck.count("neutrality checks")
    rates = {}
    for k in range(len(r.evol)):
        if "out_iter%d.sol" % k not in r.sols:
            ck.fail("config-missing", "no configuration of row %d" % k, r, F)
            return
        a = r.sols["out_iter%d.sol" % k][2]
        M, phi, eps = a[:, 1:4].copy(), a[:, 4], 1.2e-8
        if k == 0:
            ex = s.init(b.p)
            if np.abs(ex - M)[b.magnode].max() < 1e-7:
                M, eps = ex, 1e-14
        M[~b.magnode] = 0
        # potential
        ph, ab = b.potential(M)
        mn = b.magnode
        scale = np.abs(ab[mn]).max()
        # absolute sum of what makes the potential, for the rounding of the saved state
        div = eps * np.linalg.norm(b.g, axis=2).sum(axis=1).max() * half ** 2 * b.Ms.max()
        tol = 1.2e-7 * np.abs(ph[mn]) + 4 * (eps * b.Ms.max() * half + div) + 5e-8 * scale
        d = np.abs(phi[mn] - ph[mn]) / tol
        ok = np.isfinite(phi[mn]).all()
        ck.maximum("potential / tolerance", d.max() if ok else np.inf)
        ck.count("node potentials", int(mn.sum()))
        j = np.nonzero(mn)[0][np.argmax(d)] if ok else np.nonzero(~np.isfinite(phi) & mn)[0][0]
        ck.ensure(ok and d.max() <= 1, "potential", lambda: "row %d node %d: potential %.8g, that of "
                  "the charges is %.8g (scale %.3g) %s" % (k, j + 1, phi[j], ph[j], scale, s.desc), r, F)
        ck.ensure(np.isnan(phi[~mn]).all() or np.isfinite(phi[~mn]).all(), "phi-nonmag",
                  "mixed nan and numbers in the potential of the non-magnetic nodes", r, F)
        e, err = b.E_demag(M, ph, eps, 1e-7)
        row = dict(zip(r.cols, r.evol[k]))
        tolE = 3 * err + 1e-7 * abs(e) + 1e-9 * fo.MU0 * msv * b.Ms.max()
        ck.maximum("E_demag / tolerance", abs(row["E_demag"] - e) / tolE)
        ck.ensure(abs(row["E_demag"] - e) <= tolE, "E_demag", lambda: "row %d E_demag=%.12g, that of "
                  "the potential of the charges is %.12g %s" % (k, row["E_demag"], e, s.desc), r, F)
        # dipole moment: some evaluation has the moment of this state, in the solver's units
        if not suppressed:
            mom = b.moment(M)
            D = np.array([[float(x) for x in e["d"]] for e in ev])
            # solver coordinates are (p - c) * norm
            nrm = 1.0 / half
            dd = np.abs(D / nrm - mom).max(axis=1).min() / (msv * (5 * eps + 1e-9))
            ck.maximum("dipole / tolerance", dd)
            ck.ensure(dd <= 1, "dipole", lambda: "row %d: no evaluation has the dipole moment %s of "
                      "the state (%s)" % (k, mom, (D / nrm).tolist()), r, F)
            ck.count("dipole checks")
            if k > 0 and len(s.names) == 1 and abs(row["dt"] - tau) < 1e-9 * tau:
                v = np.array([row["<dM%s/dt>" % c] for c in "xyz"]) * msv
                if np.linalg.norm(v) > 1e6 * msv:
                    dd = np.abs(D / nrm - v).max(axis=1).min() / np.linalg.norm(v)
                    ck.maximum("dipole of the rate", dd)
                    ck.ensure(dd <= 1e-6, "dipole-rate", lambda: "row %d: no evaluation has the "
                              "dipole moment %s of the rate of change" % (k, v), r, F)
                    ck.count("dipole of the rate of change")
    ck.case(s.key, s.desc)


def analytic(ck, exe):
    """Uniformly magnetized bodies of known demagnetizing energy."""
    n = 7 if ck.thorough else 5
    jobs = [("cube", fgmesh.box((n,) * 3, (9.0,) * 3), 1 / 3, 0.03),
            ("ball", fgmesh.ball(n, (5.0,) * 3), 1 / 3, 0.03)]

    def go(job):
        name, m, N, tol = job
        st = fgrun.base_settings(outputs={"final_time": 0, "evol_columns": ["E_demag"]},
                                 initial_magnetization=[0.3, -0.5, 0.8])
        return name, m, N, tol, fgrun.run(exe, st, {"m.msh": m})
    for name, m, N, tol, r in fgrun.pmap(go, jobs):
        V = m.volumes(1e-9).sum()
        e = 0.5 * fo.MU0 * fo.MS_DEFAULT ** 2 * N * V
        if r.evol is None or not len(r.evol):
            ck.fail("analytic", "%s: no result (%s)" % (name, fgrun.describe(r)), r)
            continue
        d = r.evol[0, 0] / e - 1
        ck.maximum("relative deviation from the continuum value, " + name, abs(d))
        ck.ensure(abs(d) < 3 * tol, "analytic", "%s: demagnetizing energy %.6g, continuum value %.6g"
                  % (name, r.evol[0, 0], e), r, {"m.msh": m})
        ck.case("analytic-" + name)


def run(ck):
    ck.rule = ("random problem run by the real solver over a logging stand-in of the FMM library; "
               "distinct = distinct problem descriptors; each evaluation is checked for neutrality, "
               "dipole and containment, each saved node potential against an exact recomputation")
    ck.assumptions = ["the FMM library itself is replaced by an exact direct sum (ScalFMM is not "
                      "installed here)"]
    exe, _ = fgbuild.Variant("plain").feellgood()
    n = 800 if ck.thorough else 120
    for base in range(0, n, 40):
        idx = list(range(base, min(n, base + 40)))
        for i, x in zip(idx, fgrun.pmap(lambda j: one(ck, exe, j), idx)):
            judge(ck, i, *x)
        if len(ck.violations) > 200:
            break
    analytic(ck, exe)
