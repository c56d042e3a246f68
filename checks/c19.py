"""C19: recentering of a domain wall along X, Y or Z."""
import copy
import numpy as np
import fgbuild
import fgmesh
import fgoracle as fo
import fgrun
import fgscen

AX = "XYZ"


def fl(v):
    return [float(x) for x in v]


class Wall:
    pass


def setup(ck, k, i, tau, n_axis=None):
    """elongated sample with a head-to-head or tail-to-tail wall along the axis"""
    rng = ck.sub_rng(k, i)
    w = Wall()
    a = w.a = i % 3
    n = [int(rng.integers(1, 3)) for _ in range(3)]
    n[a] = int(n_axis or rng.integers(8, 15))
    cell = rng.uniform(1.5, 4)
    size = np.array(n) * cell * rng.uniform(.8, 1.2, 3)
    # the axis need not be the longest one
    if n_axis is None and rng.random() < .3:
        b = (a + 1) % 3
        size[b] *= 30 / n[b]
    org = [-size / 2, rng.normal(size=3) * 50, np.array([1.0, 1, 1]) * 300, -size - 200][int(rng.integers(4))]
    if n_axis:
        size = np.array(n) * 2.0
        org = rng.normal(size=3) * 50
    b = (a + 1 + int(rng.integers(2))) % 3
    kind = str(rng.choice(["one", "two", "dead"])) if n[b] > 1 else "one"
    m = fgmesh.box(tuple(n), size, org, 0.2, rng, region=lambda c: "vol" if kind == "one" or c[b] < .5 else "other")
    m, _ = m.renumbered(rng)
    w.unit = float(rng.choice([1e-9, 1e-10, 1e-6]))
    m.nodes = m.nodes * (1e-9 / w.unit)
    w.mesh = m
    p = m.nodes * w.unit
    lo, hi = p.min(axis=0), p.max(axis=0)
    w.c, w.l = (lo + hi) / 2, hi - lo
    v = {"Ae": float(rng.uniform(.5, 2) * 1e-11), "Ms": float(rng.uniform(2, 12) * 1e5),
         "alpha_LLG": float(rng.choice([.1, .5, 1]))}
    w.vols = {"vol": v}
    if kind != "one":
        w.vols["other"] = dict(v, Ms=v["Ms"] * float(rng.uniform(.5, 1.5)) if kind == "two" else 0.0)
    e = np.zeros(3)
    e[a] = 1
    q = np.zeros(3)
    q[(a + 1) % 3], q[(a + 2) % 3] = np.cos(i), np.sin(i)
    sg = float(rng.choice([-1, 1]))
    w.x0 = float(rng.uniform(-.28, .28)) * w.l[a]
    wd = 0.05 * w.l[a]
    X = "((%s-(%r))/%r)" % ("xyz"[a], float(w.c[a] + w.x0), float(wd))
    init = ["%r*tanh(%s)+(%r)/cosh(%s)" % (float(sg * e[j]), X, float(q[j]), X) for j in range(3)]
    w.e, w.q, w.sg, w.wd = e, q, sg, wd
    w.init = init
    w.thr = float(rng.choice([.05, .1, .2, .35, 0.5]))
    w.st = fgrun.base_settings(
        outputs={"evol_time_step": tau, "final_time": 4 * tau, "mag_config_every": 1, "evol_columns": ["iter", "t", "<Mx>", "<My>", "<Mz>"]},
        mesh={"length_unit": w.unit, "volume_regions": w.vols, "surface_regions": {}}, initial_magnetization=init,
        Bext=[0, 0, 0], time_integration={"max(du)": 5, "min(dt)": .55 * tau, "max(dt)": 2 * tau},
        recentering={"enable": True, "direction": AX[a], "threshold": w.thr * float(rng.choice([1, 1, -1]))})
    w.body = fo.Body(m, w.unit, w.vols)
    w.kind = kind
    w.desc = {"axis": AX[a], "sample": kind, "cells": n, "threshold": w.st["recentering"]["threshold"],
              "wall": w.x0 / w.l[a], "sign": sg, "size": fl(w.l), "centre": fl(w.c)}
    return w


def shifted(w, u):
    """expected pattern after recentering, and the nodes where it is not ambiguous; None if not due"""
    b = w.body
    a = w.a
    m = b.avg(u[:, :])[a]
    if abs(abs(m) - w.thr) < 1e-6:
        return "?", None
    if abs(m) < w.thr:
        return None, None
    mag = np.nonzero(b.magnode)[0]
    P = b.p[mag]

    def near(x):
        d = ((P[None] - x[:, None]) ** 2).sum(2)
        j = np.argsort(d, axis=1)
        return mag[j[:, 0]]
    ends = np.array([w.c - w.e * w.l[a] / 2, w.c + w.e * w.l[a] / 2])
    uL, uR = (u[k, a] for k in near(ends))
    if uL * uR > 0:
        return "no wall", None
    D = m * .5 * w.l[a] * np.sign(uL)
    res = []
    for f in (1, .995, 1.005):
        x = P + f * D * w.e
        t = x[:, a] - w.c[a]
        out = np.abs(t) > w.l[a] / 2
        x[out] = w.c + np.sign(t[out])[:, None] * w.e * w.l[a] / 2
        res.append(near(x))
    exp = u.copy()
    exp[mag] = u[res[0]]
    sure = np.zeros(len(u), bool)
    sure[mag] = (res[0] == res[1]) & (res[0] == res[2])
    return exp, sure


def rows(ck, exe, n):
    """steps so short that nothing moves: a row is the previous one, shifted when due"""
    tau = 1e-17
    ws = [setup(ck, 1, i, tau) for i in range(n)]
    for w, r in zip(ws, fgrun.pmap(lambda w: fgrun.run(exe, w.st, {"m.msh": w.mesh}), ws)):
        F = {"m.msh": w.mesh}
        if not ck.ensure(r.rc == 0 and r.parse_error is None and len(r.evol) == 5 and len(r.sols) == 5, "run",
                         lambda: "%s: %s; %s" % (fgrun.describe(r), r.err[-200:], w.desc), r, F):
            continue
        U = [r.sols["out_iter%d.sol" % k][2][:, 1:4] for k in range(5)]
        b = w.body
        for k in range(1, 5):
            exp, sure = shifted(w, U[k - 1]) if k > 1 else (None, None)
            if isinstance(exp, str):
                break
            if exp is None:
                d = np.abs(U[k] - U[k - 1])[b.magnode].max()
                ck.ensure(d < 2e-3, "moved", lambda: "row %d: the magnetization changes by %g though |<m>|=%g is below the "
                          "threshold; %s" % (k, d, abs(b.avg(U[k - 1])[w.a]), w.desc), r, F)
                ck.count("rows where nothing was due")
            else:
                d = np.abs(U[k] - exp).max(axis=1)
                bad = (d > 2e-3) & sure
                ck.ensure(not bad.any(), "shift", lambda: "row %d: %d of %d nodes do not carry the magnetization of the shifted "
                          "pattern (worst by %g); %s" % (k, bad.sum(), sure.sum(), d[sure].max(), w.desc), r, F)
                ck.count("rows shifted")
                ck.count("shifted nodes checked", sure.sum())
                ck.count("ambiguous nodes", (b.magnode & ~sure).sum())
                # the wall is back within a cell of the centre
            nrm = np.abs(np.linalg.norm(U[k][b.magnode], axis=1) - 1).max()
            ck.ensure(nrm < 1e-6, "norm", lambda: "norm off by %g; %s" % (nrm, w.desc), r, F)
            ck.ensure(np.isnan(U[k][~b.magnode]).all(), "nonmag", lambda: "non magnetic node with a magnetization; %s" % w.desc, r, F)
        m1 = abs(b.avg(U[2])[w.a])
        if abs(b.avg(U[1])[w.a]) >= w.thr:
            h = 1.5 * w.l[w.a] / min(w.desc["cells"][w.a], 8)
            ck.ensure(m1 < 2 * h / w.l[w.a], "centre", lambda: "|<m>| = %g after recentering; %s" % (m1, w.desc), r, F)
        ck.case((w.desc["axis"], w.kind, tuple(w.desc["cells"]), w.thr, round(w.x0 / w.l[w.a], 3)), {"case": w.desc})


def never(ck, exe, n):
    """a threshold never reached: the same results as without recentering"""
    ws = [setup(ck, 2, i, 2e-14) for i in range(n)]
    jobs = []
    for w in ws:
        w.st["finite_element_solver"] = {"tolerance": 1e-10, "max(iter)": 5000}
        w.st["recentering"]["threshold"] = 0.97
        o = copy.deepcopy(w.st)
        o["recentering"] = {"enable": False}
        jobs += [w.st, o]
    R = fgrun.pmap(lambda j: fgrun.run(exe, j[1], {"m.msh": ws[j[0] // 2].mesh}), list(enumerate(jobs)))
    for i, w in enumerate(ws):
        r, o = R[2 * i:2 * i + 2]
        F = {"m.msh": w.mesh}
        if (r.rc, o.rc).count(1) and "ABORTED" in r.out + o.out:
            ck.count("given up")
            continue
        if ck.ensure(r.rc == 0 and o.rc == 0, "run", lambda: "%s, %s; %s" % (fgrun.describe(r), fgrun.describe(o), w.desc), r, F):
            d = np.abs(r.evol - o.evol)[:, 2:].max()
            ck.ensure(d < 1e-6, "idle", lambda: "never triggered, but the results differ by %g from those without recentering; "
                      "%s" % (d, w.desc), r, F)
            ck.count("runs never recentered")
            ck.case(("never", w.desc["axis"], w.kind))


def nowall(ck, exe, n):
    ws = [setup(ck, 3, i, 1e-17) for i in range(n)]
    for i, w in enumerate(ws):
        t = [w.e * w.sg, w.e * w.sg + .5 * w.q, 3 * w.q][i // 3 % 3]
        w.st["initial_magnetization"] = fl(t)
    for i, (w, r) in enumerate(zip(ws, fgrun.pmap(lambda w: fgrun.run(exe, w.st, {"m.msh": w.mesh}), ws))):
        F = {"m.msh": w.mesh}
        if i // 3 % 3 == 2:
            ck.ensure(r.rc == 0, "run", lambda: "%s without any need to recenter; %s" % (fgrun.describe(r), w.desc), r, F)
        else:
            ck.ensure(r.rc is not None and r.rc > 0 and r.err.strip(), "no-wall", lambda: "uniform magnetization above the threshold: "
                      "%s, message: %r; %s" % (fgrun.describe(r), r.err[-100:], w.desc), r, F)
        ck.count("samples without a wall")
        ck.case(("no wall", w.desc["axis"], i // 3 % 3))


def driven(ck, exe, n):
    """a wall driven by a field: stays in the sample as long as one wants; permuted axes, permuted results"""
    jobs, ws = [], []
    for i in range(n):
        w = setup(ck, 4, 3 * i + 2, 1e-12, n_axis=24)
        rng = ck.sub_rng(5, i)
        for v in w.vols.values():
            v.update(alpha_LLG=0.5, Ae=7e-12, K=6e5, uk=fl(w.e))
            if v["Ms"]:
                v["Ms"] = 4e5
        w.thr = float(rng.choice([.1, .25]))
        w.st["mesh"]["volume_regions"] = w.vols
        w.st["recentering"]["threshold"] = w.thr
        B = float(rng.choice([-1, 1]) * rng.uniform(.3, .8))
        w.st["outputs"].update(evol_time_step=5e-12, final_time=1.5e-10)
        w.st["finite_element_solver"] = {"tolerance": 1e-6, "max(iter)": 1000}
        w.st["time_integration"] = {"max(du)": .05, "min(dt)": 1e-17, "max(dt)": 1e-12}
        if rng.random() < .4:   # from well inside or at rest near the edge of the allowed zone
            w.st["initial_magnetization"] = [x.replace(repr(float(w.c[w.a] + w.x0)), repr(float(w.c[w.a]))) for x in w.init]
        w.st["Bext"] = fl(B * w.e)
        ws.append(w)
        for k in range(3):
            st = copy.deepcopy(w.st)
            m = w.mesh.copy()
            P = np.eye(3)[[(np.arange(3) + k) % 3]].reshape(3, 3)
            m.nodes = m.nodes @ P.T
            a = int(np.argmax(P[:, w.a]))
            st["recentering"]["direction"] = AX[a]
            for v in st["mesh"]["volume_regions"].values():
                v["uk"] = fl(P @ w.e)
            st["Bext"] = fl(P @ np.array(st["Bext"]))
            ini = st["initial_magnetization"]
            src = "xyz"[w.a]
            ini = [ini[int(np.argmax(P[j]))].replace("((%s-" % src, "((%s-" % "xyz"[a]) for j in range(3)]
            st["initial_magnetization"] = ini
            jobs.append((w, st, m, a, P))
    R = fgrun.pmap(lambda j: fgrun.run(exe, j[1], {"m.msh": j[2]}), jobs)
    for (w, st, m, a, P), r in zip(jobs, R):
        F = {"m.msh": m}
        if r.rc == 1 and "ABORTED" in r.out:
            ck.count("given up")
            continue
        if not ck.ensure(r.rc == 0 and len(r.evol) == 31, "run", lambda: "driven wall: %s: %s; %s" % (
                fgrun.describe(r), r.err[-200:], w.desc), r, F):
            continue
        x = r.evol[1:, 2 + a]
        lim = w.thr + 0.06
        ck.ensure(np.abs(x[3:]).max() < lim, "escape", lambda: "axis %s: |<m>| reaches %g with a threshold of %g; %s" % (
            AX[a], np.abs(x[3:]).max(), w.thr, w.desc), r, F)
        ck.ensure(np.ptp(x) > 0.02, "pinned", lambda: "axis %s: the driven wall does not move: <m> between %g and %g; %s" % (
            AX[a], x.min(), x.max(), w.desc), r, F)
        ck.maximum("driven: |<m>| - threshold", np.abs(x[3:]).max() - w.thr)
        ck.count("driven walls")
        ck.case(("driven", AX[a], w.kind, w.thr))


def run(ck):
    ck.rule = ("head-to-head and tail-to-tail walls along X, Y, Z in elongated samples at any position, with other magnetic and "
               "non magnetic regions beside: pattern after recentering against an independently shifted one")
    ck.assumptions = ["steps of 1e-17 s leave the magnetization unchanged to 2e-3, so that a row is the previous one, shifted when due",
                      "nodes whose nearest neighbour changes when the shift changes by 0.5 % are not judged"]
    exe, _ = fgbuild.Variant("plain").feellgood()
    rows(ck, exe, 600 if ck.thorough else 90)
    never(ck, exe, 60 if ck.thorough else 12)
    nowall(ck, exe, 90 if ck.thorough else 18)
    driven(ck, exe, 40 if ck.thorough else 8)
    ck.ensure(ck.counts["rows shifted"] >= 30, "vacuous", "only %d rows were shifted" % ck.counts["rows shifted"])
