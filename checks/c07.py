"""C07: energy balance of damped motion in a constant field, and relaxation to equilibrium."""
import copy
import numpy as np
import fgbuild
import fgmesh
import fgoracle as fo
import fgrun
import fgscen


def fl(v):
    return [float(x) for x in v]


def setup(ck, i):
    rng = ck.sub_rng(1, i)
    alpha = float(rng.choice([0.1, 0.3, 1.0]))
    s = fgscen.make(rng, steps=1, field=str(rng.choice(["zero", "const", "const"])), K3=True, offset="centre", surfaces=0,
                    tex=str(rng.choice(["uniform", "wave", "tilt", "vortex", "wall", "axis"])), alpha=alpha)
    m = s.mesh
    dead = {r for r, v in s.vols.items() if v.get("Ms", 1) == 0}
    if len(dead) == len(s.vols):
        dead = set()
    # one saturation magnetization: the discrete equation is a gradient flow of the energy only then
    s.weak = bool(rng.random() < .5)    # dipolar field negligible
    s.Ms = Ms = float(10 ** rng.uniform(2, 3)) if s.weak else float(rng.uniform(2, 12) * 1e5)
    f = Ms / 5e5
    for r, v in s.vols.items():
        v.pop("Js", None)
        v["Ms"] = 0.0 if r in dead else Ms
        for k in ("Ae", "K", "K3"):
            if k in v:
                v[k] *= f
        if rng.random() < .5:
            v["alpha_LLG"] = float(alpha * rng.choice([1, 1.7]))
    # surfaces: only between magnetic matter and the rest
    s.surfs = {}
    ctr = m.nodes.mean(axis=0)
    for nm in ["sa", "sb"][:int(rng.integers(0, 3))]:
        a, sg = int(rng.integers(3)), rng.choice([-1, 1])

        def pred(c, ts):
            live = sum(m.treg[t] not in dead for t in ts)
            return live == 1 and (c[a] - ctr[a]) * sg > -0.1 * np.ptp(m.nodes[:, a])
        if m.add_surface(nm, pred, inner=True, rng=rng):
            s.surfs[nm] = {"Ks": float(rng.normal() * 1e-3 * f), "uk": fl(rng.normal(size=3)),
                           "suppress_charges": bool(rng.random() < .5)}
    st = s.settings
    st["mesh"]["volume_regions"], st["mesh"]["surface_regions"] = s.vols, s.surfs
    st["outputs"]["mag_config_every"] = 1
    st["outputs"]["evol_columns"] = ["t", "dt", "max_dm", "E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot"]
    st["finite_element_solver"] = {"tolerance": 1e-9, "max(iter)": 5000}
    s.alpha = alpha
    s.dead = dead
    par = [s.vols[r] for r in m.treg]
    s.al = np.array([p["alpha_LLG"] for p in par])
    s.ms = np.array([p["Ms"] for p in par])
    s.key = s.key + (alpha, s.weak, tuple(sorted(s.surfs)))
    s.desc.update(alpha=alpha, weak=s.weak, surfaces=s.surfs, Ms=Ms)
    return s


def go(exe, s, tau, steps):
    st = copy.deepcopy(s.settings)
    st["outputs"].update(evol_time_step=tau, final_time=tau * steps)
    st["time_integration"] = {"max(du)": 5, "min(dt)": .55 * tau, "max(dt)": 2 * tau}
    return fgrun.run(exe, st, {"m.msh": s.mesh})


def balance(s, r, tau):
    """(energy released, energy dissipated) over the run; energy released by the dipolar field counted as the
    work of the field on the moving magnetization"""
    b = s.body()
    n = len(r.evol)
    U = [r.sols["out_iter%d.sol" % k][2] for k in range(n)]
    E = sum(fgrun.col(r, c) for c in ("E_ex", "E_aniso", "E_zeeman"))
    rel, dis = E[0] - E[-1], 0.0
    vol, T = b.vol, b.T
    mag = s.ms > 0
    for k in range(n - 1):
        d = np.nan_to_num(U[k + 1][:, 1:4] - U[k][:, 1:4])
        d2 = (d ** 2).sum(1)
        dis += (s.al * s.ms * fo.MU0 / fo.GAMMA0 * vol / 4 * d2[T].sum(1)).sum() / tau
        phi = (U[k + 1][:, 4] + U[k][:, 4]) / 2
        H = -np.einsum("tid,ti->td", b.g, phi[T])
        w = np.einsum("td,td->t", H, d[T].mean(axis=1))
        rel += fo.MU0 * (s.ms * vol * w)[mag].sum()
    return rel, dis


def judge(ck, s, rs, tau):
    F = s.files()
    Q, D = [], []
    for k, r in zip((1, 2, 4), rs):
        if r.rc == 1 and "ABORTED" in r.out:
            ck.count("given up by the integrator")
            return
        if not ck.ensure(r.rc == 0 and len(r.evol) == 8 * k + 1 and r.parse_error is None, "run", lambda:
                         "%s; %s" % (fgrun.describe(r), s.desc), r, F):
            return
        a, b = balance(s, r, tau / k)
        Q.append(a)
        D.append(b)
    Q, D = np.array(Q), np.array(D)
    if D[2] == 0 or not fgrun.col(rs[0], "max_dm").max() > 1e-5:
        ck.count("motionless")
        return
    q = Q / D
    lim = 2 * q[2] - q[1]
    desc = "released/dissipated %.4f, %.4f, %.4f at steps tau, tau/2, tau/4 (tau=%g); %s" % (q[0], q[1], q[2], tau, s.desc)
    ck.ensure(abs(lim - 1) < 0.03 or abs(q[2] - 1) < 0.01, "balance", lambda: desc, rs[2], F)
    ck.maximum("balance, extrapolated to zero step, minus 1", abs(lim - 1))
    ck.maximum("balance at the smallest step, minus 1", abs(q[2] - 1))
    r = rs[2]
    E = fgrun.col(r, "E_tot")
    if s.weak:
        up = np.diff(E).max()
        ck.ensure(up <= 0.02 * D[2] / len(E), "increase", lambda: "the energy increases by %g in one step; dissipated: %g"
                  " in %d steps; %s" % (up, D[2], len(E) - 1, desc), r, F)
    ck.count("trajectories balanced")
    ck.count("rows", sum(len(x.evol) for x in rs))
    ck.case(s.key, {"problem": s.desc, "released/dissipated": fl(q), "limit": float(lim)})


def relaxation(ck, exe, n):
    """strong field: one equilibrium; whatever the damping, the time step and the start, the same end"""
    jobs, groups = [], []
    for i in range(n):
        rng = ck.sub_rng(3, i)
        s = fgscen.make(rng, steps=1, field="zero", offset="centre", surfaces=int(rng.integers(0, 3)), nreg=1, tex="uniform",
                        n=tuple(int(x) for x in rng.integers(1, 3, 3)), aniso=str(rng.choice(["K", "K", "both"])))
        v = s.vols["vol"]
        Ms = float(rng.uniform(2, 12) * 1e5)
        v.pop("Js", None)
        v["Ms"] = Ms
        st = s.settings
        st["mesh"]["volume_regions"] = s.vols
        for q in s.surfs.values():
            if "Ks" in q:
                q["Ks"] *= 0.1
        st["mesh"]["surface_regions"] = s.surfs
        B = 1.5 * (2 * (abs(v.get("K", 0)) + abs(v.get("K3", 0))) / Ms + fo.MU0 * Ms)
        d = fgscen.rdir(rng)
        st["Bext"] = fl(B * d)
        s.w = fo.GAMMA0 * B / fo.MU0
        T = 60 / s.w
        st["outputs"].update(evol_time_step=T / 20, final_time=T, mag_config_every=20,
                             evol_columns=["t", "dt", "max_dm", "<Mx>", "<My>", "<Mz>", "E_tot"])
        st["finite_element_solver"] = {"tolerance": 1e-8, "max(iter)": 5000}
        g = []
        for k in range(3):
            c = copy.deepcopy(st)
            c["mesh"]["volume_regions"]["vol"]["alpha_LLG"] = [0.6, 1.0, 0.6][k]
            m0 = d + 0.9 * fgscen.rdir(rng)
            c["initial_magnetization"] = fl(m0)
            c["time_integration"] = {"max(du)": [.1, .05, .02][k], "max(dt)": [.3 / s.w, .3 / s.w, .15 / s.w][k], "min(dt)": T * 1e-8}
            g.append(c)
        groups.append((s, g))
        jobs += [(s, c) for c in g]
    R = fgrun.pmap(lambda j: fgrun.run(exe, j[1], {"m.msh": j[0].mesh}), jobs)
    for i, (s, g) in enumerate(groups):
        rs = R[3 * i:3 * i + 3]
        if any(r.rc == 1 and "ABORTED" in r.out for r in rs):
            ck.count("relaxations given up")
            continue
        F = s.files()
        if not all([ck.ensure(r.rc == 0 and len(r.evol) == 21, "run", lambda: "%s; %s" % (fgrun.describe(r), s.desc), r, F)
                    for r in rs]):
            continue
        for r in rs:
            E, t = fgrun.col(r, "E_tot"), fgrun.col(r, "t")
            v = fgrun.col(r, "max_dm") / np.maximum(fgrun.col(r, "dt"), 1e-300)
            ck.maximum("relaxation: final speed / field", v[-1] / s.w)
            ck.ensure(v[-1] < 1e-5 * s.w, "stationary", lambda: "still moving at %g rad/s after %g s; %s" % (
                v[-1], t[-1], s.desc), r, F)
            sc = E.max() - E.min()
            up = np.diff(E).max()
            ck.ensure(up <= 3e-2 * sc + 1e-9 * np.abs(E).max(), "increase", lambda: "relaxation: the energy increases by %g of the total change; "
                      "%s" % (up / sc, s.desc), r, F)
            ck.maximum("relaxation: increase of the energy / total change", up / sc)
        M = [np.array([fgrun.col(r, c)[-1] for c in ("<Mx>", "<My>", "<Mz>")]) for r in rs]
        E = [fgrun.col(r, "E_tot")[-1] for r in rs]
        d = max(np.abs(M[0] - M[k]).max() for k in (1, 2))
        e = max(abs(E[0] - E[k]) for k in (1, 2)) / abs(E[0])
        ck.ensure(d < 1e-5 and e < 1e-7, "equilibrium", lambda: "the equilibria reached from different starts with different "
                  "damping and time steps differ by %g (energy: %g); %s" % (d, e, s.desc), rs[1], F)
        ck.maximum("relaxation: difference of the equilibria", d)
        ck.count("relaxations to one equilibrium", 3)
        ck.case(("relax",) + s.key)
    ck.ensure(ck.counts["relaxations given up"] <= n // 3, "given-up", "%d of %d relaxations were given up" % (
        ck.counts["relaxations given up"], n))


def pilot(exe, s):
    r = go(exe, s, 1e-15, 1)
    if r.rc or len(r.evol) < 2:
        return None
    return float(fgrun.col(r, "max_dm")[1]) / 1e-15


def run(ck):
    ck.rule = ("random samples of one saturation magnetization in a constant field: over a few steps, the energy "
               "released against alpha mu0 Ms/gamma0 * integral of |dm/dt|^2, at three time steps")
    ck.assumptions = ["the dipolar field is summed directly by a stand-in for the absent multipole library",
                      "the energy released by the dipolar field is the work of the saved potential on the saved magnetization"]
    exe, _ = fgbuild.Variant("plain").feellgood()
    n = 600 if ck.thorough else 64
    for base in range(0, n, 32):
        ss = [setup(ck, i) for i in range(base, min(n, base + 32))]
        rate = fgrun.pmap(lambda s: pilot(exe, s), ss)
        jobs = []
        for s, v in zip(ss, rate):
            if not v:
                ck.count("motionless")
                continue
            tau = float(np.clip(0.02 * s.alpha / v, 1e-18, 1e-12))
            jobs += [(s, tau, k) for k in (1, 2, 4)]
        R = fgrun.pmap(lambda j: go(exe, j[0], j[1] / j[2], 8 * j[2]), jobs)
        for q in range(0, len(jobs), 3):
            judge(ck, jobs[q][0], R[q:q + 3], jobs[q][1])
    lost = ck.counts["given up by the integrator"] + ck.counts["motionless"]
    ck.ensure(lost <= n // 4, "given-up", "%d of %d trajectories were given up or motionless" % (lost, n))
    relaxation(ck, exe, 150 if ck.thorough else 16)
