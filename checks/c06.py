"""C06: every column of the evolution file against its definition, recomputed independently on the
configuration saved with the row (and, for row 0, on the exactly known initial state)."""
import numpy as np
import fgbuild
import fgoracle as fo
import fgrun
import fgscen

EPS = 1.2e-8   # rounding of the saved components
TECH = "monitor: recomputation of each evolution row from the saved configuration"


def reldev(a, b, tol):
    return abs(a - b) / tol if tol > 0 else (0.0 if a == b else np.inf)


def one(ck, exe, i):
    rng = ck.sub_rng(i)
    steps = int(rng.integers(2, 6))
    s = fgscen.make(rng, steps=steps, max_cells=5 if ck.thorough and i % 10 == 0 else 4)
    tau = float(rng.choice([2e-13, 5e-13, 1e-12]))
    s.settings["outputs"]["evol_time_step"] = tau
    s.settings["outputs"]["final_time"] = tau * steps
    ti = s.settings["time_integration"]
    if rng.random() < 0.5:   # one integration step per row
        tau = float(rng.choice([2e-14, 5e-14, 1e-13]))
        s.settings["outputs"]["evol_time_step"] = tau
        s.settings["outputs"]["final_time"] = tau * steps
        ti["max(dt)"], ti["min(dt)"], ti["max(du)"] = 2 * tau, 0.55 * tau, 0.8
    else:
        ti["max(dt)"] = tau * float(rng.choice([1, 1, 0.37]))
        ti["min(dt)"] = tau * float(rng.choice([0.01, 1e-4]))
    t0 = 0.0
    if rng.random() < 0.4:
        t0 = float(rng.uniform(1e-12, 3e-12))
        s.settings["initial_time"] = t0
        s.settings["outputs"]["final_time"] = t0 + tau * steps
    cols = s.settings["outputs"]["evol_columns"]
    magreg = [r for r in s.names if s.vols[r].get("Ms", 1) > 0]
    for r in magreg:
        for q in ("<Mx>", "<My>", "<Mz>", "<dMx/dt>", "<dMy/dt>", "<dMz/dt>", "Thiele_length"):
            if rng.random() < 0.5:
                cols.append(r + ":" + q)
    cols[:] = [cols[k] for k in rng.permutation(len(cols))]
    r = s.run(exe)
    return s, r, t0, tau, steps, magreg


def judge(ck, i, s, r, t0, tau, steps, magreg):
    F = s.files()
    if "**ABORTED**" in r.out and r.rc == 1:
        ck.count("aborted runs")
    elif not ck.ensure(r.rc == 0 and r.parse_error is None, "run", lambda: "a valid problem ended with %s: %s %s" % (
            fgrun.describe(r), r.err[-300:], r.parse_error), r, F):
        return
    want = s.settings["outputs"]["evol_columns"]
    if r.evol is None or r.evol.shape[1] != len(want):
        ck.fail("columns", "evolution file has %s columns, %d requested" % (
            None if r.evol is None else r.evol.shape, len(want)), r, F)
        return
    r.cols = list(want)
    b = s.body()
    prev = None
    for k in range(len(r.evol)):
        name = "out_iter%d.sol" % k
        if name not in r.sols:
            ck.fail("config-missing", "row %d has no configuration file" % k, r, F)
            return
        meta, _, a = r.sols[name]
        if a.shape[0] != len(s.mesh.nodes):
            ck.fail("config-size", "configuration of row %d has %d lines for %d nodes" % (
                k, a.shape[0], len(s.mesh.nodes)), r, F)
            return
        M, phi = a[:, 1:4], a[:, 4]
        row = dict(zip(r.cols, r.evol[k]))
        eps = EPS
        if k == 0:
            exact = s.init(b.p)
            if np.abs(exact - M)[b.magnode].max() < 1e-7:
                M, eps = exact, 1e-14
                ck.count("rows checked against the exact state")
        t = row["t"]
        ck.count("rows")

        def cmp(col, val, tol):
            got = row[col]
            ck.count("values")
            d = abs(got - val) / tol if np.isfinite(got) else np.inf
            ck.maximum(col.split(":")[-1] + " / tolerance", d)
            ck.ensure(d <= 1, "value-" + col.split(":")[-1],
                      lambda: "row %d (t=%g) column %s is %.16g, the definition on the saved "
                      "configuration gives %.16g (tolerance %.2g); %s" % (k, t, col, got, val, tol,
                                                                        s.desc), r, F)
        cmp("iter", k, 1e-9)
        cmp("t", t0 + k * tau, max(1e-9 * tau, 4e-16 * abs(t)))
        for reg in [None] + magreg:
            pre = "" if reg is None else reg + ":"
            av = b.avg(M, reg)
            for c in range(3):
                col = pre + "<M%s>" % "xyz"[c]
                if col in row:
                    cmp(col, av[c], eps + 1e-13)
            col = pre + "Thiele_length"
            if col in row:
                G = b.grad(M, b.region_mask(reg))[:, :, 2]
                g = np.sqrt((G ** 2).max())
                noise = 1e-14 + eps
                dg = noise * np.linalg.norm(b.g, axis=2).sum(axis=1).max()
                if g > 30 * dg:
                    v = b.thiele(M, reg)
                    k_ = b.region_mask(reg)
                    ssum = (b.vol[k_] * (G ** 2).sum(axis=1)).sum()
                    ds = (b.vol[k_] * (2 * np.linalg.norm(G, axis=1) * 2 * dg + 4 * dg ** 2)).sum()
                    if ds < 0.01 * ssum:
                        cmp(col, v, v * (1e-9 + 1.5 * ds / ssum))
        # energies
        es = {}
        es["E_ex"] = b.E_ex(M, eps)
        es["E_aniso"] = b.E_aniso(M, eps)
        es["E_demag"] = b.E_demag(M, phi, EPS if eps == EPS else 1e-14, 1e-7)
        if s.Hxt is not None:
            es["E_zeeman"] = b.E_zeeman(M, Hfun=lambda p: s.Hxt(p, t), eps=eps)
        else:
            es["E_zeeman"] = b.E_zeeman(M, s.H(t), eps=eps)
        Vm = b.vol[b.mag].sum()
        scale = {"E_ex": max(q["Ae"] for q in b.par.values()) * Vm / (np.ptp(b.p, axis=0).max() ** 2),
                 "E_aniso": 0, "E_demag": MU(b, Vm), "E_zeeman": 0}
        for c, (v, e) in es.items():
            cmp(c, v, 2 * e + 1e-11 * abs(v) + 1e-13 * scale[c] + 1e-33)
        got = [row[c] for c in ("E_ex", "E_aniso", "E_demag", "E_zeeman")]
        cmp("E_tot", sum(got), 1e-13 * sum(abs(x) for x in got) + 1e-35)
        ang = b.max_angle(M)
        cmp("max_angle", ang, 3 * eps + 3e-8 if ang > 1e-3 else 5e-7)
        if s.Hxt is None:
            H = s.H(t)
            for c in range(3):
                cmp("H" + "xyz"[c], H[c], 1e-9 * (np.linalg.norm(H)) + 1e-9)
        # derivative and max_dm, where one step covers the whole output period
        if prev is not None and abs(row["dt"] - tau) < 1e-6 * tau:
            u, w = prev, a[:, 1:4]
            mn = b.magnode
            v = np.zeros_like(u)
            v[mn] = (w[mn] / np.einsum("ij,ij->i", u[mn], w[mn])[:, None] - u[mn])
            big = np.linalg.norm(v[mn], axis=1).max()
            cmp("max_dm", big, 1e-7 + 1e-6 * big)
            for reg in [None] + magreg:
                pre = "" if reg is None else reg + ":"
                av = b.avg(v, reg) / row["dt"]
                for c in range(3):
                    col = pre + "<dM%s/dt>" % "xyz"[c]
                    if col in row:
                        cmp(col, av[c], (1e-7 + 1e-6 * big) / row["dt"])
            ck.count("rows with checked rates of change")
        if k > 0:
            ck.ensure(0 < row["dt"] <= tau * (1 + 1e-6), "value-dt",
                      lambda: "row %d: dt=%g for an output period of %g" % (k, row["dt"], tau), r, F)
        prev = a[:, 1:4].copy()
    ck.case(s.key, s.desc)


def MU(b, V):
    return 0.5 * fo.MU0 * (b.Ms.max() ** 2) * V


def run(ck):
    ck.rule = ("random problem (1-3 regions, non-magnetic ones, named surfaces, textures, all field "
               "kinds, mesh position and unit) run by the real solver; every value of every row "
               "recomputed from the saved configuration; distinct = distinct problem descriptors")
    ck.assumptions = ["the FMM library is replaced by an exact direct sum",
                      "configurations are saved with 8 significant digits, which bounds the "
                      "precision of the comparison except on row 0"]
    exe, _ = fgbuild.Variant("plain").feellgood()
    n = 1200 if ck.thorough else 160
    for base in range(0, n, 40):
        idx = list(range(base, min(n, base + 40)))
        for i, x in zip(idx, fgrun.pmap(lambda j: one(ck, exe, j), idx)):
            judge(ck, i, *x)
        if len(ck.violations) > 200:
            break
