"""C17: spin accumulation of every saved configuration, and the torque it exerts."""
import copy
import numpy as np
import fgbuild
import fgrun
import fgspin
import fgoracle as fo


def setup(ck, i):
    rng = ck.sub_rng(i)
    kind = ["rows", "steps", "rows", "off"][i % 4]
    n = tuple(int(x) for x in rng.integers(2, 5, 3)) if i % 3 else None
    if kind == "steps":
        tau = float(10 ** rng.uniform(-14.0, -13.0))
        s = fgspin.make(rng, steps=3, tau=tau, n=n, cols=["t", "dt"], K3=False,
                        hst=float(10 ** rng.uniform(4.5, 6)))
        s.settings["time_integration"] = {"max(du)": 5.0, "min(dt)": 0.55 * tau, "max(dt)": 2 * tau}
    else:
        tau = float(10 ** rng.uniform(-13.3, -12.3))
        s = fgspin.make(rng, steps=4, tau=tau, n=n, hst=float(10 ** rng.uniform(4, 5.5)))
        # small max(du): retries happen
        s.settings["time_integration"] = {"max(du)": float(rng.choice([0.02, 0.1])), "min(dt)": 1e-18,
                                          "max(dt)": tau}
    s.settings["finite_element_solver"] = {"tolerance": 1e-9, "max(iter)": 2000}
    if i % 7 == 6:
        for v in s.vols.values():   # no source term of its own
            v["P"] = 0.0
    s.kind, s.rng = kind, rng
    return s


def sols(r):
    out = {}
    for n, t in r.sols.items():
        if "_iter" in n:
            out[int(n.split("_iter")[1][:-4])] = t
    return out


def judge_rows(ck, s, q, r, what=""):
    """every saved s against the direct solution; returns {row: (u, s)}"""
    F = s.files()
    out = {}
    b = q.b
    for k, (meta, cols, a) in sorted(sols(r).items()):
        if not ck.ensure(cols is not None and cols[5:8] == ["sx", "sy", "sz"] and a.shape[1:] == (8,) and
                         len(a) == len(b.p), "columns", lambda: "row %d: columns %s" % (k, cols), r, F):
            continue
        u, S = a[:, 1:4], a[:, 5:8]
        if not ck.ensure(np.isfinite(S).all(), "finite", lambda: "row %d: undefined spin values" % k, r, F):
            continue
        o = q.spin(np.nan_to_num(u))
        scale = np.abs(o).max()
        if scale == 0:
            ck.ensure(np.abs(S).max() == 0, "spin", "non-zero spin without source", r, F)
            continue
        # each spin vector has 8 significant digits per component
        d = np.abs(S - o).max() / scale
        ck.ensure(d < 1e-5, "spin", lambda: "%srow %d: spin accumulation differs from the solution of the "
                  "diffusion equation of the row's magnetization by %.3g of its maximum; %s" % (
                      what, k, d, s.desc), r, F)
        e1 = np.abs(S[q.iin] - q.sin).max()
        e2 = np.abs(S[q.isk] - s.sD).max()
        ck.ensure(e1 <= 1e-7 * np.abs(q.sin).max() and e2 <= 1e-7 * np.abs(s.sD).max(), "dirichlet", lambda:
                  "%srow %d: spin on the prescribed surfaces off by %.3g and %.3g (%s, %s)" % (
                      what, k, e1, e2, q.sin, s.sD), r, F)
        ck.maximum("spin error (relative)", d)
        ck.count("spin configurations checked")
        out[k] = (u, S)
    return out


def judge_steps(ck, s, q, r, rows):
    """the velocity of each step, with the s-d field of the saved spin"""
    F = s.files()
    b = q.b
    t, dt = fgrun.col(r, "t"), fgrun.col(r, "dt")
    dtmax = s.settings["time_integration"]["max(dt)"]
    tau = s.settings["outputs"]["evol_time_step"]
    sl = sols(r)
    for k in range(1, len(t)):
        if k not in rows or k - 1 not in rows or abs(dt[k] - tau) > 1e-6 * tau:
            continue
        u0, u1 = np.nan_to_num(rows[k - 1][0]), rows[k][0]
        v0, phiv = np.zeros_like(u0), np.zeros(len(u0))
        if k > 1:
            a = np.nan_to_num(rows[k - 2][0])
            d = np.einsum("ij,ij->i", a, u0)
            d[d == 0] = 1
            v0 = (u0 / d[:, None] - a) / dt[k - 1]
            v0[~b.magnode] = 0
            phiv = np.nan_to_num(b.potential(v0)[0])
        H = (lambda p: s.Hxt(p, t[k - 1])) if s.Hxt else (
            lambda p: np.tile(s.H(t[k - 1]), (len(p), 1)))
        phi = np.nan_to_num(sl[k - 1][2][:, 4])
        m = b.magnode

        def pred(hst):
            v = b.step(u0, v0, phi, phiv, H, dt[k], dtmax, hst=hst)
            w = u0[m] + dt[k] * v[m]
            return w / np.linalg.norm(w, axis=1)[:, None]
        w = pred(q.hst(rows[k - 1][1]))
        e, du = np.abs(w - u1[m]).max(), np.abs(w - u0[m]).max()
        seen = np.abs(w - pred(None)).max()
        tol = 1e-7 + 5e-6 * du
        ck.ensure(e < tol, "torque", lambda: "one integration step (row %d, dt=%g) differs from the scheme "
                  "with the s-d field by %.3g for a change of %.3g (effect of the spin torque %.3g); %s" % (
                      k, dt[k], e, du, seen, s.desc), r, F)
        ck.count("integration steps recomputed")
        ck.count("of them with a torque above 20 times the tolerance", int(seen > 20 * tol))
        ck.maximum("step error relative to the change (+1e-2)", e / (du + 1e-2))


def run(ck):
    ck.rule = ("random layered samples with current and spin accumulation: every saved spin vector against "
               "a direct solution for the saved magnetization, every step of one-step-per-row runs "
               "recomputed with the s-d field, restarts and disabled runs compared")
    ck.assumptions = ["spin values are saved with 8 significant digits and solved to a relative residual of "
                      "1e-8: differences below 1e-5 of the maximum are not judged"]
    exe, _ = fgbuild.Variant("plain").feellgood()
    n = 320 if ck.thorough else 64
    for base in range(0, n, 32):
        ss = [setup(ck, i) for i in range(base, min(n, base + 32))]
        rs = fgrun.pmap(lambda s: s.run(exe, keep=True), ss)
        second = []
        try:
            for s, r in zip(ss, rs):
                q = fgspin.Spin(s)
                F = s.files()
                if r.rc == 1 and "ABORTED" in r.out:
                    ck.count("given up by the integrator")
                    continue
                if not ck.ensure(r.rc == 0, "run", lambda: "valid problem ended with %s: %s" % (
                        fgrun.describe(r), r.err[-300:]), r, F):
                    continue
                rows = judge_rows(ck, s, q, r)
                ck.case(s.key + (s.kind,), {"scenario": s.desc, "kind": s.kind})
                if s.kind == "steps":
                    judge_steps(ck, s, q, r, rows)
                elif s.kind == "rows":
                    # restart from a middle row: the spin of the first row is that of the saved state
                    k = int(s.rng.choice([1, 2, 3]))
                    name = "out_iter%d.sol" % k
                    if k in rows:
                        text = open("%s/%s" % (r.dir, name)).read()
                        st = copy.deepcopy(s.settings)
                        st["initial_magnetization"] = name
                        st["outputs"]["file_basename"] = "again"
                        second.append(("restart", s, q, st, {name: text}, (k, rows[k][0])))
                else:
                    st = copy.deepcopy(s.settings)
                    st["spin_accumulation"]["enable"] = False
                    second.append(("disabled", s, q, st, {}, None))
                    st = copy.deepcopy(st)
                    st.pop("spin_accumulation")
                    for x in st["mesh"]["volume_regions"].values():
                        for y in ("sigma", "dens_state", "P", "l_sd", "l_sf"):
                            x.pop(y)
                    for x in st["mesh"]["surface_regions"].values():
                        x.clear()
                    second.append(("no spin at all", s, q, st, {}, None))
        finally:
            import shutil
            for r in rs:
                shutil.rmtree(r.dir, ignore_errors=True)
        res = fgrun.pmap(lambda j: fgrun.run(exe, j[3], j[1].files(), files=j[4]), second)
        off = {}
        for (kind, s, q, st, fl, extra), r in zip(second, res):
            F = dict(s.files(), **fl)
            if r.rc == 1 and "ABORTED" in r.out:
                ck.count("given up by the integrator")
                continue
            if not ck.ensure(r.rc == 0, kind, lambda: "%s: ended with %s: %s" % (
                    kind, fgrun.describe(r), r.err[-300:]), r, F):
                continue
            if kind == "restart":
                rows = judge_rows(ck, s, q, r, "after a restart, ")
                k, u = extra
                if 0 in rows:
                    d = np.nanmax(np.abs(rows[0][0] - u))
                    ck.ensure(d < 1e-7, "restart-state", lambda: "first row of the restarted run differs "
                              "from the saved magnetization by %g" % d, r, F)
                ck.count("restarts")
            else:
                for nm, (meta, cols, a) in r.sols.items():
                    ck.ensure(a.shape[1] == 5, "disabled", lambda: "%s: %s has columns %s" % (
                        kind, nm, cols), r, F)
                ck.ensure("out_V.sol" not in r.sols, "disabled", kind + ": a potential file was written",
                          r, F)
                key = id(s)
                if key in off and off[key].evol is not None and r.evol is not None:
                    a, b2 = off[key].evol, r.evol
                    j = [r.cols.index(c) for c in ("<Mx>", "<My>", "<Mz>")]
                    d = np.abs(a[:, j] - b2[:, j]).max() if a.shape == b2.shape else np.inf
                    ck.ensure(d < 1e-5, "disabled-results", lambda: "a run with spin accumulation disabled "
                              "differs from one without any spin parameter by %.3g" % d, r, F)
                    ck.maximum("difference between disabled and absent", d)
                    ck.count("disabled runs compared")
                off[key] = r
        if len(ck.violations) > 100:
            break
    g = ck.counts.get("given up by the integrator", 0)
    ck.ensure(g <= n / 4, "gave-up", "%d of %d valid problems were given up by the integrator" % (g, n))
