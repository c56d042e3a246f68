"""C04: dynamics of a uniformly magnetized sample against an accurate integration of the LLG equation,
at three time steps: the error has to shrink at the order of the scheme, and the extrapolation to
zero time step has to be the exact solution."""
import numpy as np
import fgbuild
import fgmesh
import fgoracle as fo
import fgrun
import fgscen


def fl(v):
    return [float(x) for x in v]


class Case:
    pass


def setup(ck, i):
    rng = ck.sub_rng(1, i)
    c = Case()
    kind = ["const", "const", "K", "K", "time", "func", "xt", "K3", "K+time", "const"][i % 10]
    c.kind = kind
    two = rng.choice(["one", "one", "same", "dead"])
    size = rng.uniform(15, 60, 3)  # large elements: exchange, which does nothing here, is not stiff
    org = rng.normal(size=3) * float(rng.choice([0, 30, 800]))
    if two == "one" and rng.random() < 0.3:
        m = fgmesh.ball(2, size / 2, 0.1, rng).translated(org)
    else:
        m = fgmesh.box(tuple(int(x) for x in rng.integers(1, 3, 3)) if two == "one" else (2, 1, 1), size,
                       org, 0.2, rng, region=lambda q: "vol" if two == "one" or q[0] < 0.5 else "b")
    m.add_surface("all", lambda q, ts: True, inner=True, rng=rng)
    m, _ = m.renumbered(rng)
    unit = float(rng.choice([1e-9, 1e-10, 1e-6]))
    m.nodes = m.nodes * (1e-9 / unit)
    c.mesh, c.two = m, str(two)
    # small damping needs small steps to be in the second-order regime (stabilised damping)
    c.alpha = a = float(rng.choice([0.05, 0.1, 0.3, 0.5, 1.0, 2.0]))
    th = float(min(0.2, 0.15 * a) * rng.uniform(0.4, 1))
    N = int(np.clip(rng.uniform(1.5, 4) / th, 10, 400 if not ck.thorough else 1500))
    Ms = float(rng.uniform(1, 15) * 1e5)
    B = float(10 ** rng.uniform(-1.5, 0.7))
    m0 = fgscen.rdir(rng)
    bd = fgscen.rdir(rng) * B
    K = float(rng.choice([-1, 1]) * B * Ms * rng.uniform(0.1, 1.5)) if kind[0] == "K" and kind != "K3" else 0.0
    K3 = float(rng.choice([-1, 1]) * B * Ms * rng.uniform(0.1, 1)) if kind == "K3" else 0.0
    if kind == "K" and rng.random() < 0.3:
        bd = bd * 0
    uk, R = fgscen.rdir(rng), fgmesh.random_rotation(rng)
    Ht = np.linalg.norm(bd) / fo.MU0 * (1.5 if kind not in ("const", "K", "K3") else 1) + 2 * (
        abs(K) + abs(K3)) / (fo.MU0 * Ms)
    c.h = h = float(th / (fo.GAMMA0 * Ht))
    c.N, c.T = N, N * h
    c.t0 = t0 = float(rng.choice([0.0, 0.0, 3.3, -1.7])) * c.T
    w = 2 * float(np.pi) * float(rng.uniform(0.3, 1.2)) / c.T
    ph = float(rng.uniform(0, 6))
    f = fl(bd)
    if kind in ("const", "K", "K3"):
        bext, Hf = f, lambda t: bd / fo.MU0
        if rng.random() < 0.3:
            bext = "function(t) { return [%r, %r, %r]; }" % tuple(f)
    elif kind in ("time", "K+time"):
        bext = ["%r*cos(%r*t+%r)" % (f[0], w, ph), "%r*sin(%r*t)" % (f[1], w), repr(f[2])]
        Hf = lambda t: np.array([bd[0] * np.cos(w * t + ph), bd[1] * np.sin(w * t), bd[2]]) / fo.MU0  # noqa
    elif kind == "func":
        bext = "function(t) { return [%r, %r*cos(%r*t), %r*(1+0.5*sin(%r*t+%r))]; }" % (
            f[0], f[1], w, f[2], w, ph)
        Hf = lambda t: np.array([bd[0], bd[1] * np.cos(w * t), bd[2] * (1 + .5 * np.sin(w * t + ph))]) / fo.MU0  # noqa
    else:
        bext = {"space": "function(x,y,z) { return [%r, %r, %r]; }" % tuple(f),
                "time": "function(t) { return 0.7+0.5*cos(%r*t+%r); }" % (w, ph)}
        Hf = lambda t: bd * (.7 + .5 * np.cos(w * t + ph)) / fo.MU0  # noqa: E731
    v = {"alpha_LLG": a, "K": K, "uk": fl(uk * rng.uniform(.5, 2)), "K3": K3, "ex": fl(R[0]), "ey": fl(R[1]),
         "ez": fl(R[2]), "Ae": float(rng.uniform(0.5, 2) * 1e-11)}
    v["Ms" if rng.random() < .5 else "Js"] = Ms
    if "Js" in v:
        v["Js"] = Ms * fo.MU0
    vols = {"vol": v}
    if two == "same":
        vols["b"] = dict(v)
    elif two == "dead":
        vols["b"] = dict(v, Ms=0.0)
        vols["b"].pop("Js", None)
    c.settings = fgrun.base_settings(
        outputs={"mag_config_every": N, "evol_columns": ["t", "<Mx>", "<My>", "<Mz>"]},
        mesh={"length_unit": unit, "volume_regions": vols,
              "surface_regions": {"all": {"suppress_charges": True}}},
        initial_magnetization=fl(m0 * rng.uniform(.5, 2)), Bext=bext,
        finite_element_solver={"tolerance": 1e-10, "max(iter)": 2000})
    if t0:
        c.settings["initial_time"] = t0
    c.m0 = m0
    c.H = lambda t, mm: Hf(t) + fo.aniso_field(mm, K, uk, K3, R[0], R[1], R[2], Ms)
    c.order = 2 if kind in ("const", "K") else 1
    c.key = (kind, a, str(two), round(th, 4), round(B, 3))
    c.desc = {"kind": kind, "alpha": a, "B": B, "K": K, "K3": K3, "Ms": Ms, "steps": N, "step": h,
              "angle per step": th, "t0": t0, "mesh": str(two)}
    return c


def go(exe, c, k):
    import copy
    st = copy.deepcopy(c.settings)
    h = c.h / k
    st["outputs"].update(evol_time_step=h, final_time=c.t0 + c.T, mag_config_every=False)
    st["time_integration"] = {"max(du)": 5.0, "min(dt)": 0.55 * h, "max(dt)": 2 * h}
    return fgrun.run(exe, st, {"m.msh": c.mesh})


def judge(ck, c, rs):
    F = {"m.msh": c.mesh}
    # reference at a few times
    marks = sorted({int(round(c.N * f)) for f in (.25, .5, .75, 1)} - {0})
    ref, m, last = {}, c.m0, 0
    for j in marks:
        n = max(60, 5 * (j - last))
        m = fo.llg_rk4(m, c.H, c.alpha, c.t0 + last * c.h, c.t0 + j * c.h, n)
        ref[j], last = m, j
    X = []
    for k, r in zip((1, 2, 4), rs):
        if r.rc == 1 and "ABORTED" in r.out:
            ck.count("given up by the integrator")
            return
        if not ck.ensure(r.rc == 0 and r.evol is not None and len(r.evol) == c.N * k + 1, "run", lambda:
                         "ended with %s: %s; %d rows; %s" % (fgrun.describe(r), r.err[-200:], 0 if r.evol is
                                                           None else len(r.evol), c.desc), r, F):
            return
        X.append({j: r.evol[j * k, 1:4] for j in marks})
        ck.count("integration steps", c.N * k)
    E = [max(np.linalg.norm(x[j] - ref[j]) for j in marks) for x in X]
    floor = 3e-7
    q = 10.0 if c.order == 2 else 3.0
    ok = E[2] <= max(floor, E[0] / q)
    ck.ensure(ok, "convergence", lambda: "errors %.3g, %.3g, %.3g for time steps h, h/2, h/4: no convergence to"
              " the LLG equation at order %d; %s" % (E[0], E[1], E[2], c.order, c.desc), rs[0], F)
    p = 2 ** c.order
    ex = max(np.linalg.norm((p * X[2][j] - X[1][j]) / (p - 1) - ref[j]) for j in marks)
    ck.ensure(ex <= max(2 * floor, 0.5 * E[2]), "limit", lambda: "the limit of zero time step is off by %.3g "
              "(error %.3g at the smallest step); %s" % (ex, E[2], c.desc), rs[0], F)
    ck.ensure(E[0] < 0.3, "accuracy", lambda: "error %.3g at the largest step; %s" % (E[0], c.desc), rs[0], F)
    if E[2] > floor:
        ck.maximum("order %d: error ratio h/4 : h" % c.order, E[2] / E[0])
        ck.maximum("extrapolated error / error", ex / E[2])
    ck.count("trajectories of order %d" % c.order)
    ck.case(c.key, {"case": c.desc, "errors": E})


def equilibrium(ck, exe, n):
    cs = []
    for i in range(n):
        c = setup(ck, 10000 + 10 * i + int(i % 3 == 2) * 2)
        rng = ck.sub_rng(2, i)
        v = c.settings["mesh"]["volume_regions"]
        e = fgscen.rdir(rng)
        sg = float(rng.choice([1, -1]))
        c.h, c.N = 2e-13, 12
        c.t0, c.T = 0.0, 12 * c.h
        c.settings.pop("initial_time", None)
        what = rng.choice(["parallel", "antiparallel", "easy axis", "hard axis", "none"])
        K = float(rng.choice([-1, 1]) * rng.uniform(1e4, 3e5))
        c.settings["Bext"] = [0, 0, 0]
        for q in v.values():
            q["K"], q["K3"], q["uk"] = 0.0, 0.0, fl(e)
            if what in ("easy axis", "hard axis"):
                q["K"] = K
        m0 = e
        if what == "hard axis":
            m0 = np.cross(e, fgscen.rdir(rng))
            m0 /= np.linalg.norm(m0)
        if what in ("parallel", "antiparallel"):
            c.settings["Bext"] = fl(e * 0.4)
            m0 = e if what == "parallel" else -e
        c.settings["initial_magnetization"] = fl(m0 * sg) if what not in ("parallel", "antiparallel") else fl(m0)
        c.what = str(what)
        cs.append(c)
    for c, r in zip(cs, fgrun.pmap(lambda c: go(exe, c, 1), cs)):
        F = {"m.msh": c.mesh}
        if not ck.ensure(r.rc == 0 and r.evol is not None, "run", lambda: "ended with %s: %s" % (
                fgrun.describe(r), r.err[-200:]), r, F):
            continue
        d = np.abs(r.evol[:, 1:4] - r.evol[0, 1:4]).max()
        ck.ensure(d < 1e-7, "equilibrium", lambda: "a state in equilibrium (%s) moved by %.3g" % (c.what, d), r, F)
        ck.count("equilibria")
        ck.maximum("motion of an equilibrium", d)
        ck.case(("equilibrium", c.what, c.alpha))


def run(ck):
    ck.rule = ("random uniformly magnetized samples (shape, regions, material, damping, field of every form), "
               "each integrated with three time steps and compared with an accurate solution of the LLG "
               "equation; equilibria have to stay; distinct = form of field, damping, strength")
    ck.assumptions = ["second order is required for constant fields without cubic anisotropy; the applied field"
                      " is taken at the start of each step (first order), cubic anisotropy: known finding of C05",
                      "all magnetic charges suppressed, so that the sample stays uniform"]
    exe, _ = fgbuild.Variant("plain").feellgood()
    n = 300 if ck.thorough else 50
    cs = [setup(ck, i) for i in range(n)]
    jobs = [(c, k) for c in cs for k in (1, 2, 4)]
    rs = fgrun.pmap(lambda j: go(exe, *j), jobs)
    for i, c in enumerate(cs):
        judge(ck, c, rs[3 * i:3 * i + 3])
    g = ck.counts.get("given up by the integrator", 0)
    ck.ensure(g <= n / 5, "gave-up", "%d of %d problems were given up by the integrator" % (g, n))
    equilibrium(ck, exe, 100 if ck.thorough else 24)
