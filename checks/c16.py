"""C16: the electric potential against an independent solution of its boundary-value problem."""
import copy
import os
import shutil
import tempfile
import numpy as np
import fgbuild
import fgrun
import fgspin


def setup(ck, i):
    rng = ck.sub_rng(i)
    n = None
    if i % 9 == 8:
        n = tuple(int(x) for x in rng.integers(5, 9 if ck.thorough else 8, 3))
    elif i % 3:
        n = tuple(int(x) for x in rng.integers(2, 5, 3))
    s = fgspin.make(rng, steps=0, n=n, field="zero", cols=["t"])
    s.dir = str(rng.choice([".", "res"]))
    s.settings["outputs"]["directory"] = s.dir
    s.settings["outputs"]["file_basename"] = s.base = str(rng.choice(["out", "a b"]))
    s.rng = rng
    return s


def variants(s):
    """the run itself, the same mesh renumbered, the currents and potentials scaled"""
    out = [("as is", s.settings, s.mesh, None, 1.0)]
    m2, perm = s.mesh.renumbered(s.rng)
    out.append(("renumbered", s.settings, m2, perm, 1.0))
    c = float(s.rng.choice([-1.0, 2.0, -0.37, 100.0]))
    st = copy.deepcopy(s.settings)
    st["mesh"]["surface_regions"]["in"]["jn"] = s.jn * c
    st["mesh"]["surface_regions"]["out"]["V"] = s.V0 * c
    out.append(("scaled", st, s.mesh, None, c))
    return out


def go(exe, st, mesh):
    os.makedirs(fgrun.SCRATCH, exist_ok=True)
    d = tempfile.mkdtemp(prefix="c16-", dir=fgrun.SCRATCH)
    try:
        r = fgrun.run(exe, st, {"m.msh": mesh}, workdir=d, parse=False)
        o = st["outputs"]
        vf = [os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs
              if f.endswith("_V.sol")]
        r.vfiles = vf
        want = os.path.normpath(os.path.join(o.get("directory", "."), o["file_basename"] + "_V.sol"))
        r.want = want
        r.table = None
        if want in vf:
            try:
                r.table = fgrun.parse_table(os.path.join(d, want))
            except ValueError as e:
                r.err += str(e)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(ck, s, rs):
    F = s.files()
    q = fgspin.Spin(s)
    ref = None
    for (name, st, mesh, perm, c), r in rs:
        if not ck.ensure(r.rc == 0, "run", lambda: "%s: ended with %s: %s" % (
                name, fgrun.describe(r), r.err[-300:]), r, F):
            continue
        if not s.V_file:
            ck.ensure(not r.vfiles, "file-unwanted", lambda: "V_file is false but %s was written" %
                      r.vfiles, r, F)
            ck.count("runs without file")
            continue
        if not ck.ensure(r.vfiles == [r.want] and r.table is not None, "file", lambda: "potential files "
                         "%s, expected %s" % (r.vfiles, r.want), r, F):
            continue
        meta, cols, a = r.table
        n = len(mesh.nodes)
        if not ck.ensure(a.shape == (n, 2) and (a[:, 0] == np.arange(n)).all(), "lines", lambda:
                         "%s: %s values for %d nodes, or wrong indices" % (name, a.shape, n), r, F):
            continue
        V = a[:, 1] / c
        if perm is not None:
            V = V[perm]
        scale = np.abs(q.V).max() + np.ptp(q.V)
        if scale == 0:
            continue
        # charge conservation at the free nodes
        free = np.ones(n, bool)
        free[q.iV] = False
        res = np.abs(q.K @ V - q.rhs)
        size = np.abs(q.K) @ np.abs(V) + np.abs(q.rhs)
        tot = np.linalg.norm(size)
        rel = res[free].max() / tot if free.any() else 0.0
        ck.ensure(rel < 1e-7, "conservation", lambda: "%s: net current %.3g of the currents around a "
                  "free node" % (name, rel), r, F)
        dv = np.abs(V - q.V).max() / scale
        ck.ensure(dv < 3e-6, "potential", lambda: "%s: potential differs from the solution of the "
                  "boundary-value problem by %.3g of its range (jn=%g V0=%g)" % (name, dv, s.jn, s.V0),
                  r, F)
        dd = np.abs(V[q.iV] - s.V0).max()
        ck.ensure(dd <= 1e-8 * abs(s.V0) + 1e-300, "dirichlet", lambda: "%s: potential on the Dirichlet "
                  "surface off by %.3g (V=%g)" % (name, dd, s.V0), r, F)
        # current through the Dirichlet surface: reaction of its nodes
        back = (q.K @ V - q.rhs)[q.iV].sum()
        ck.ensure(abs(back - q.current) < 1e-5 * (abs(q.current) + tot * 1e-2), "total-current", lambda:
                  "%s: current through the Dirichlet surface %.8g, imposed %.8g" % (
                      name, back, q.current), r, F)
        ck.maximum("net current at a free node (relative)", rel)
        ck.maximum("potential error (relative)", dv)
        ck.count("potentials checked")
        ck.count("nodes checked", n)
        if ref is not None:
            e = np.abs(V - ref).max() / scale
            ck.ensure(e < 3e-6, "invariance", lambda: "%s: potential differs by %.3g from that of the "
                      "original problem" % (name, e), r, F)
        else:
            ref = V
    ck.case(s.key, {"scenario": s.desc, "jn": s.jn, "V0": s.V0, "V_file": s.V_file})


def refusals(ck, exe):
    """missing or multiple boundary conditions"""
    jobs = []
    for i in range(8 if ck.thorough else 3):
        rng = ck.sub_rng(900, i)
        s = fgspin.make(rng, steps=0, nreg=2, n=(2, 2, 2), field="zero", cols=["t"], D0=1e-8)
        # a third surface, to hold a second condition
        x = s.mesh.copy()
        have = {tuple(sorted(t)) for t in x.tris}
        if not any(tuple(sorted(f)) not in have for f, ts in x.boundary(False)):
            continue
        x.add_surface("other", lambda c, ts: True, rng=rng)

        def mk(name, fn, ok=False):
            st = copy.deepcopy(s.settings)
            st["spin_accumulation"]["V_file"] = True
            S = st["mesh"]["surface_regions"]
            S["other"] = {}
            fn(S, st)
            jobs.append((name, ok, st, x))
        mk("unchanged", lambda S, st: None, ok=True)
        mk("no current density", lambda S, st: S["in"].pop("jn"))
        mk("no potential", lambda S, st: S["out"].pop("V"))
        mk("null current density", lambda S, st: S["in"].update(jn=None))
        mk("null potential", lambda S, st: S["out"].update(V=None))
        mk("two potentials", lambda S, st: S["other"].update(V=1.0))
        mk("two equal potentials", lambda S, st: S["other"].update(V=s.V0))
        mk("two current densities", lambda S, st: S["other"].update(jn=s.jn, uP=[0, 0, 1]))
        mk("current density and potential on one surface", lambda S, st: S["in"].update(V=0.5))
        mk("no surface at all", lambda S, st: S.clear())
        mk("swapped to one surface", lambda S, st: (S["out"].pop("V"), S["in"].update(V=0.1)))
        mk("nothing needed when disabled", lambda S, st: (S["out"].pop("V"), st["spin_accumulation"].update(
            enable=False)), ok=True)
    for (name, ok, st, x), r in zip(jobs, fgrun.pmap(lambda j: go(exe, j[2], j[3]), jobs)):
        ck.count("boundary-condition sets")
        if ok:
            ck.ensure(r.rc == 0, "accept", lambda: "%s: %s: %s" % (name, fgrun.describe(r), r.err[-300:]),
                      r, {"m.msh": x})
            if st["spin_accumulation"]["enable"] is False:
                ck.ensure(not r.vfiles, "disabled", "a potential was computed although disabled", r,
                          {"m.msh": x})
        else:
            ck.ensure(r.rc not in (0, None) and r.rc > 0 and r.err.strip(), "refuse", lambda: "%s: not "
                      "refused with a message and non-zero status (%s, stderr %r)" % (
                          name, fgrun.describe(r), r.err[-200:]), r, {"m.msh": x})
            ck.ensure(not r.vfiles, "refuse-file", lambda: "%s: a potential file was written" % name, r,
                      {"m.msh": x})
        ck.case(("bc", name))


def run(ck):
    ck.rule = ("random layered samples with an imposed current, each run as is, renumbered, and with the "
               "boundary values scaled; saved potential judged node by node; distinct = problem key")
    ck.assumptions = ["the potential file has 9 significant digits and the solver a relative tolerance of "
                      "1e-8: differences below 3e-6 of the range are not judged"]
    exe, _ = fgbuild.Variant("plain").feellgood()
    n = 400 if ck.thorough else 60
    refusals(ck, exe)
    for base in range(0, n, 40):
        ss = [setup(ck, i) for i in range(base, min(n, base + 40))]
        jobs = [(s, v) for s in ss for v in variants(s)]
        res = fgrun.pmap(lambda j: go(exe, j[1][1], j[1][2]), jobs)
        by = {}
        for (s, v), r in zip(jobs, res):
            by.setdefault(id(s), []).append((v, r))
        for s in ss:
            judge(ck, s, by[id(s)])
        if len(ck.violations) > 100:
            break
