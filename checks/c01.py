"""C01: norm, nan and tangency invariants, on every attempt (trace unit) and every saved file."""
import json
import numpy as np
import fgbuild
import fgrun
import fgscen

SCALES = [1e-300, 1e-160, 1e-20, 1e-3, 1.0, 50.0, 1e30, 1e160, 1e300]


def setup(ck, i):
    rng = ck.sub_rng(i)
    kind = ["random", "scale", "long", "restart", "recenter", "random", "signal", "zero"][i % 8]
    steps = int(rng.integers(1, 5))
    kw = {}
    if kind == "recenter":
        kw = {"tex": "wall", "n": (2, 2, 6)}
    s = fgscen.make(rng, steps=steps, tau=float(rng.choice([1e-13, 4e-13])), **kw)
    s.kind, s.args, s.env, s.extra = kind, ["--seed", str(int(rng.integers(1, 1000)))], {}, {}
    ti, o = s.settings["time_integration"], s.settings["outputs"]
    s.expect = None
    b = s.body()
    if kind == "long":
        o["evol_time_step"] = 1e-12
        o["final_time"] = (60 if ck.thorough else 15) * 1e-12
        o["mag_config_every"] = 5
        ti["max(dt)"] = 1e-12
        ti["max(du)"] = 0.3
        for v in s.settings["mesh"]["volume_regions"].values():
            v["alpha_LLG"] = float(rng.choice([0.0, 0.005, 0.05, 3.0]))
    elif kind == "scale":
        d = rng.normal(size=3)
        f = float(rng.choice(SCALES))
        s.settings["initial_magnetization"] = ["%.17g*%g" % (x, f) for x in d]
        s.expect = np.tile(d / np.linalg.norm(d), (len(b.p), 1))
    elif kind == "restart":
        M = s.init(b.p)
        f = float(rng.choice([1e-4, 1.0, 1.0, 30.0]))
        rows = []
        for k in range(len(M)):
            if b.magnode[k]:
                rows.append("%d\t%.8e\t%.8e\t%.8e\t0" % ((k,) + tuple(M[k] * f)))
            else:
                rows.append("%d\tnan\tnan\tnan\tnan" % k)
        s.extra = {"in.sol": "## time: 0\n## columns: idx\tmx\tmy\tmz\tphi\n" + "\n".join(rows) + "\n"}
        s.settings["initial_magnetization"] = "in.sol"
        s.expect = M
    elif kind == "recenter":
        s.settings["recentering"] = {"enable": True, "direction": "Z", "threshold": 0.001}
        s.settings["Bext"] = [0, 0, 0.3]
        s.Hxt, s.H = None, None
    elif kind == "signal":
        s.env = {"FG_SIG_AT": "%d:%d" % (int(rng.integers(1, 12)), 15)}
    elif kind == "zero":
        z = rng.choice(["const", "node", "nan"])
        if z == "const":
            s.settings["initial_magnetization"] = [0, 0, 0]
        elif z == "node":
            p = b.p[np.nonzero(b.magnode)[0][0]]
            s.settings["initial_magnetization"] = (
                "function(x,y,z) { return (Math.abs(x-(%r))+Math.abs(y-(%r))+Math.abs(z-(%r)) < %r) ?"
                " [0,0,0] : [1,2,3]; }" % (tuple(float(v) for v in p) + (1e-12,)))
        else:
            s.settings["initial_magnetization"] = "function(x,y,z) { return [0/0, 1, 0]; }"
    else:
        s.expect = s.init(b.p)
    return s


def judge(ck, s, r):
    F = s.files()
    b = s.body()
    mn = b.magnode
    ck.count("runs " + s.kind)
    if s.kind == "zero":
        # a vector without direction cannot be made a unit vector: refused
        ck.ensure(r.rc is not None and r.rc > 0 and r.err.strip(), "zero", lambda:
                  "an initial magnetization without direction ended with %s" % fgrun.describe(r), r, F)
        ck.case((s.kind,) + s.key)
        return
    aborted = "**ABORTED**" in r.out and r.rc == 1
    ok = r.rc == 0 or aborted or (s.kind == "signal" and r.rc == -15)
    # without a wall left, recentering may stop the run
    if s.kind == "recenter" and r.rc and r.rc > 0:
        ok = True
    if not ck.ensure(ok and r.parse_error is None, "run", lambda: "valid problem (%s) ended with %s: %s %s"
                     % (s.kind, fgrun.describe(r), r.err[-300:], r.parse_error), r, F):
        return
    for e in r.events:
        if e["ev"] != "solve":
            continue
        ck.count("integration attempts")
        cn, nn = float(e["cnorm"]), float(e["nnorm"])
        ck.maximum("| |m|-1 | at the start of a step", cn)
        ck.ensure(e["cnan"] == 0, "nan-start", lambda: "attempt %d: %d magnetic nodes are nan at the "
                  "start" % (e["n"], e["cnan"]), r, F)
        ck.ensure(cn < 1e-9, "norm-start", lambda: "attempt %d: | |m|-1 | = %g at the start" % (
            e["n"], cn), r, F)
        if not e["err"]:
            v = float(e["vmax"])
            ck.ensure(nn < 1e-9 and e["nnan"] == 0, "norm-end", lambda: "attempt %d: | |m|-1 | = %g at"
                      " the end, %d nan" % (e["n"], nn, e["nnan"]), r, F)
            if v > 0:
                ck.maximum("|v.m| / max|v|", float(e["tang"]) / v)
                ck.ensure(float(e["tang"]) <= 1e-9 * v, "tangent", lambda: "attempt %d: rate of change"
                          " has a component %g along m (max |v| %g)" % (e["n"], float(e["tang"]), v),
                          r, F)
    ck.ensure(any(x != "in.sol" for x in r.sols), "no-config", "no configuration saved", r, F)
    for name, (meta, cols, a) in r.sols.items():
        if name == "in.sol":
            continue
        ck.count("configurations")
        if a.shape[0] != len(b.p) or a.shape[1] < 5:
            ck.fail("shape", "%s: %s values for %d nodes" % (name, a.shape, len(b.p)), r, F)
            continue
        M = a[:, 1:4]
        nrm = np.linalg.norm(M[mn], axis=1)
        bad = ~(np.abs(nrm - 1) < 2e-7)
        ck.count("nodes", int(mn.sum()))
        ck.ensure(not bad.any(), "norm", lambda: "%s: magnetic node %d saved as %s (norm %.9g)" % (
            name, np.nonzero(mn)[0][bad][0] + 1, M[mn][bad][0], nrm[bad][0]), r, F)
        nm = ~np.isnan(M[~mn]).all(axis=1)
        ck.count("non-magnetic nodes", int((~mn).sum()))
        ck.ensure(not nm.any(), "nonmag", lambda: "%s: non-magnetic node saved as %s" % (
            name, M[~mn][nm][0]), r, F)
        if name == "out_iter0.sol" and s.expect is not None:
            d = np.abs(M - s.expect)[mn].max()
            ck.maximum("initial direction", d)
            ck.ensure(d < 3e-8 + (1e-7 if s.kind == "restart" else 0), "initial", lambda:
                      "initial magnetization differs by %g from the normalised one (%s)" % (
                          d, s.settings["initial_magnetization"]), r, F)
    if r.evol is not None and len(r.evol):
        names = s.settings["outputs"]["evol_columns"]
        for c in ("<Mx>", "<My>", "<Mz>", "E_tot", "max_angle"):
            ck.ensure(np.isfinite(r.evol[:, names.index(c)]).all(), "nan-column",
                      lambda: "column %s is %s" % (c, r.evol[:, names.index(c)]), r, F)
    ck.case((s.kind,) + s.key, {"kind": s.kind, **s.desc})


def uniform(ck, exe, i):
    """A uniformly magnetized body without demagnetizing field (one output row per step): the
    average rate of change of the row is orthogonal to the magnetization of the previous row."""
    rng = ck.sub_rng(1000 + i)
    s = fgscen.make(rng, nreg=1, surfaces=0, tex="uniform", field="const", aniso="K", steps=4,
                    tau=1e-13)
    s.settings["time_integration"].update({"max(dt)": 2e-13, "min(dt)": .55e-13, "max(du)": .9})
    r = s.run(exe)
    if r.rc != 0 or r.evol is None:
        return
    for k in range(1, len(r.evol)):
        u, v = (np.array([fgrun.col(r, c % x)[j] for x in "xyz"]) for j, c in
                ((k - 1, "<M%s>"), (k, "<dM%s/dt>")))
        if abs(np.linalg.norm(u) - 1) < 1e-6 and np.linalg.norm(v) > 0:
            ck.maximum("average rate along m", abs(u @ v) / np.linalg.norm(v))
            ck.ensure(abs(u @ v) < 2e-2 * np.linalg.norm(v), "avg-tangent", "row %d: <dM/dt>=%s has a "
                      "component along m=%s" % (k, v, u), r, s.files())
    ck.case(("uniform",) + s.key)


def run(ck):
    ck.rule = ("random problems (textures, restart files, initial vectors of length 1e-300..1e300, "
               "recentering, interruption, long runs, damping 0..3); distinct = (kind, problem "
               "descriptor); every attempt and saved node is judged")
    ck.assumptions = ["saved components have 8 significant digits"]
    exe, traced = fgbuild.Variant("plain").feellgood(trace=True)
    ck.count("traced", int(traced))
    n = 1200 if ck.thorough else 200
    for base in range(0, n, 80):
        ss = [setup(ck, j) for j in range(base, min(n, base + 80))]
        for s, r in zip(ss, fgrun.pmap(lambda s: s.run(exe, env=s.env, args=s.args,
                                                       files=s.extra), ss)):
            judge(ck, s, r)
        if len(ck.violations) > 200:
            break
    for i in range(40 if ck.thorough else 10):
        uniform(ck, exe, i)
