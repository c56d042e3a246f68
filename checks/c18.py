"""C18: random expressions in the real parser class against the generator's own evaluation, and whole
runs whose expressions report (print, results) where and when they were evaluated."""
import itertools
import numpy as np
import fgbuild
import fgharness
import fgmesh
import fgoracle as fo
import fgrun
import fgscen


def script_lines(out):
    return [l[len("SCRIPT:"):].split() for l in out.split("\n") if l.startswith("SCRIPT:")]


def positions(ck, exe, i):
    """The initial magnetization sees each magnetic node's position in metres and its regions."""
    rng = ck.sub_rng(1, i)
    s = fgscen.make(rng, steps=1, tau=1e-13, max_cells=3, nreg=int(rng.choice([1, 2, 3])), field="zero")
    b = s.body()
    k = float(1.0 / np.abs(b.p).max())
    use_regions = bool(rng.random() < .6)
    pr = "print('P', x, y, z, R); " if rng.random() < .7 else ""
    names = list(s.names)
    if use_regions:
        ini = ("function(x, y, z, regions) { var R = regions.slice().sort().join('|'); %s"
               "return [2+regions.length + x*%r, regions.includes(%s) ? 1+y*%r : -1+z*%r, "
               "regions.indexOf(%s)<0 ? 0.5 : 1.5]; }" % (
                   pr.replace("R)", "R.replace(/ /g, '_'))"), k, repr(names[-1]), k, k, repr(names[0])))
    else:
        ini = "function(x,y,z) { %s return [2 + x*%r, y*%r - 0.3, 1 + z*z*%r]; }" % (
            pr.replace(", R", ""), k, k, k * k)
        if not pr and rng.random() < .5:
            ini = ["2 + x*%r" % k, "y*%r - 0.3" % k, "1 + z*z*%r" % (k * k)]
    s.settings["initial_magnetization"] = ini
    s.settings["outputs"]["final_time"] = 0
    r = s.run(exe)
    return s, b, k, use_regions, bool(pr), r


def judge_positions(ck, s, b, k, use_regions, printed, r):
    F = s.files()
    if not ck.ensure(r.rc == 0 and "out_iter0.sol" in r.sols, "run", lambda: "valid problem: %s %s" % (
            fgrun.describe(r), r.err[-300:]), r, F):
        return
    mem = [set() for _ in b.p]
    for t, nm in zip(s.mesh.tets, s.mesh.treg):
        for v in t:
            mem[int(v)].add(nm)
    x, y, z = b.p.T
    if use_regions:
        n = np.array([len(m) for m in mem])
        last = np.array([s.names[-1] in m for m in mem])
        first = np.array([s.names[0] in m for m in mem])
        raw = np.stack([2 + n + x * k, np.where(last, 1 + y * k, -1 + z * k), np.where(first, 1.5, .5)], 1)
    else:
        raw = np.stack([2 + x * k, y * k - .3, 1 + z * z * k * k], 1)
    want = raw / np.linalg.norm(raw, axis=1)[:, None]
    M = r.sols["out_iter0.sol"][2]
    if not ck.ensure(M.shape[0] == len(b.p), "nodes", "%d lines" % M.shape[0], r, F):
        return
    d = np.abs(M[:, 1:4] - want)[b.magnode].max()
    ck.maximum("initial magnetization", d)
    j = np.argmax(np.where(b.magnode[:, None], np.abs(M[:, 1:4] - want), -1).max(axis=1))
    ck.ensure(d < 3e-8, "initial", lambda: "node %d at %s in regions %s: m=%s instead of %s" % (
        j + 1, b.p[j], sorted(mem[j]), M[j, 1:4], want[j]), r, F)
    if printed:
        L = [l for l in script_lines(r.out) if l and l[0] == "P"]
        ck.count("evaluations seen", len(L))
        got = np.array([[float(v) for v in l[1:4]] for l in L]).reshape(-1, 3)
        # every magnetic node is evaluated, nothing else than nodes is
        sc = np.abs(b.p).max()
        D = np.abs(got[:, None, :] - b.p[None]).max(axis=2) / sc if len(got) else np.ones((0, len(b.p)))
        ck.ensure(len(got) and (D.min(axis=1) < 1e-12).all(), "where", lambda:
                  "evaluated at a point which is no node: %s" % (got[D.min(axis=1) >= 1e-12][:1] if len(got) else ""), r, F)
        ck.ensure(len(got) and (D.min(axis=0)[b.magnode] < 1e-12).all(), "missed", "some magnetic node was not evaluated", r, F)
        if use_regions and len(got):
            for l, row in zip(L, D):
                q = int(np.argmin(row))
                w = "|".join(sorted(mem[q])).replace(" ", "_")
                if sorted((l[4] if len(l) > 4 else "").split("|")) != sorted(w.split("|")):
                    ck.fail("regions", "node %d: regions %s instead of %s" % (q + 1, l[4:], w), r, F)
                    break
    ck.case(("positions", use_regions, printed) + s.key, {"kind": "positions", **s.desc})


def times(ck, exe, i):
    """B(t): evaluated at simulated times only, reported by the H columns."""
    rng = ck.sub_rng(2, i)
    t0 = float(rng.choice([0, 0, 1e-12, -3e-13, 5e-9]))
    tau = 2e-13
    n = 4
    s = fgscen.make(rng, nreg=1, steps=n, tau=tau, max_cells=2, aniso="none", cols=["t", "Hx", "Hy", "Hz", "iter"], field="const")
    w = float(rng.uniform(1e11, 5e12))
    B = rng.normal(size=3) * .2
    if t0:
        s.settings["initial_time"] = t0
    s.settings["outputs"]["final_time"] = t0 + n * tau
    pr = bool(rng.random() < .5)
    one = bool(rng.random() < .5)
    s.settings["time_integration"] = {"max(du)": .5, "min(dt)": .55 * tau, "max(dt)": 2 * tau} if one else \
        {"max(du)": .05, "min(dt)": 1e-18, "max(dt)": tau * float(rng.choice([1, .3]))}
    kind = int(rng.integers(3))
    ex = ["%r*cos(%r*t)" % (float(B[0]), w), "%r*(1+tanh((t-(%r))/%r))" % (float(B[1]), t0 + 2 * tau, tau),
          "(t > %r ? %r : %r)" % (t0 + 1.5 * tau, float(B[2]), float(-B[2]))]
    if kind == 0 and not pr:
        s.settings["Bext"] = ex
    elif kind == 1:
        s.settings["Bext"] = ("function(t) { %s var u = cos(%r*t);\n  return [%r*u, %s, %s]; }" % (
            "print('T', t);" if pr else "", w, float(B[0]), ex[1], ex[2]))
    else:
        s.settings["Bext"] = "function(t) { %s return [%s]; }" % ("print('T', t);" if pr else "", ", ".join(ex))
    f = lambda t: np.array([B[0] * np.cos(w * t), B[1] * (1 + np.tanh((t - (t0 + 2 * tau)) / tau)),  # noqa
                            B[2] if t > t0 + 1.5 * tau else -B[2]]) / fo.MU0
    return s, t0, tau, n, pr, one, f, s.run(exe)


def judge_times(ck, s, t0, tau, n, pr, one, f, r):
    F = s.files()
    if r.rc == 1 and "**ABORTED**" in r.out:
        ck.count("runs given up by the integrator")
        return
    if not ck.ensure(r.rc == 0 and r.evol is not None and len(r.evol) == n + 1, "run-time", lambda:
                     "valid problem: %s %s" % (fgrun.describe(r), r.err[-300:]), r, F):
        return
    for row in r.evol:
        h = f(row[0])
        d = np.abs(row[1:4] - h).max() / np.abs(h).max()
        ck.maximum("applied field", d)
        ck.ensure(d < 1e-6, "field", lambda: "t=%r: applied field %s instead of %s" % (row[0], row[1:4], h), r, F)
    if pr:
        T = np.array([float(l[1]) for l in script_lines(r.out) if l and l[0] == "T"])
        ck.count("evaluations seen", len(T))
        eps = 1e-6 * tau
        if ck.ensure(len(T) > 0, "never", "the field was never evaluated", r, F):
            ck.ensure(T.min() >= t0 - eps and T.max() <= t0 + n * tau + eps, "when", lambda:
                      "field evaluated at t in [%r, %r], simulation in [%r, %r]" % (
                          T.min(), T.max(), t0, t0 + n * tau), r, F)
            grid = np.array([t0 + k * tau for k in range(n + 1)])
            ck.ensure(all(np.abs(T - g).min() < eps for g in grid), "when-missed",
                      "not evaluated at every output time", r, F)
            if one:
                # one step per row: everything lies on the grid of output times, or at the middle
                # of a step
                q = (T - t0) / (tau / 2)
                ck.ensure(np.abs(q - np.round(q)).max() < 1e-3, "when-off", lambda:
                          "field evaluated off the steps' ends and middles: %r" % T[np.argmax(np.abs(q - np.round(q)))], r, F)
    ck.case(("times", t0, pr, one, isinstance(s.settings["Bext"], str)) + s.key)


def space(ck, exe, i):
    """B(x) A(t): the space part is sampled inside the tetrahedra, at points that integrate linear
    fields exactly; the energy is that of the same field."""
    rng = ck.sub_rng(3, i)
    s = fgscen.make(rng, steps=2, tau=1e-13, max_cells=3, tex="uniform", field="const", aniso="none",
                    cols=["t", "E_zeeman", "<Mx>"])
    b = s.body()
    A = rng.normal(size=(3, 3)) / np.abs(b.p - b.p.mean(axis=0)).max()
    c, p0 = rng.normal(size=3), b.p.mean(axis=0)
    rows = ["%r+%r*(x-(%r))+%r*(y-(%r))+%r*(z-(%r))" % ((float(c[k]),) + tuple(
        v for q in range(3) for v in (float(A[k, q]), float(p0[q])))) for k in range(3)]
    pr = bool(rng.random() < .6)
    w = float(rng.uniform(1e12, 1e13))
    s.settings["Bext"] = {"space": "function(x,y,z) { %sreturn [%s]; }" % (
        "print('S', x, y, z); " if pr else "", ", ".join(rows)),
        "time": "function(t) { return 0.1*(1+sin(%r*t)); }" % w}
    s.settings["time_integration"] = {"max(du)": .3, "min(dt)": 1e-18, "max(dt)": 1e-13}
    r = s.run(exe)
    return s, b, A, c, p0, pr, w, r


def judge_space(ck, s, b, A, c, p0, pr, w, r):
    F = s.files()
    if r.rc == 1 and "**ABORTED**" in r.out:
        ck.count("runs given up by the integrator")
        return
    if not ck.ensure(r.rc == 0 and r.evol is not None and len(r.sols) >= len(r.evol), "run-space", lambda:
                     "valid problem: %s %s" % (fgrun.describe(r), r.err[-300:]), r, F):
        return
    Hxt = lambda p, t: (c + (p - p0) @ A.T) * .1 * (1 + np.sin(w * t)) / fo.MU0  # noqa: E731
    scale = sum(b.vol[k] * b.Ms[k] for k in range(len(b.vol))) * .1 * (np.abs(c).max() + 1) * 3
    for k, row in enumerate(r.evol):
        M = r.sols["out_iter%d.sol" % k][2][:, 1:4]
        want = b.E_zeeman(M, Hfun=lambda p: Hxt(p, row[0]))[0]
        d = abs(row[1] - want) / scale
        ck.maximum("Zeeman energy of a linear field", d)
        ck.ensure(d < 1e-6, "space-energy", lambda: "row %d: E_zeeman=%r instead of %r" % (k, row[1], want), r, F)
    if pr:
        P = np.array([[float(v) for v in l[1:4]] for l in script_lines(r.out) if l and l[0] == "S"])
        ck.count("evaluations seen", len(P))
        if ck.ensure(len(P) > 0, "space-never", "the space part was never evaluated", r, F):
            T = b.p[np.array(s.mesh.tets, int)]
            inv = np.linalg.inv(T[:, 1:] - T[:, :1])          # rows: edges
            lam = np.einsum("pti,tij->ptj", P[:, None] - T[None, :, 0], inv)
            lam = np.concatenate([1 - lam.sum(axis=2, keepdims=True), lam], axis=2)
            inside = lam.min(axis=2) > -1e-9
            ck.ensure(inside.any(axis=1).all(), "space-outside", lambda:
                      "space part evaluated outside of the sample: %s" % P[~inside.any(axis=1)][:1], r, F)
            mag = np.array([b.Ms[k] > 0 for k in range(len(b.vol))])
            ck.ensure(inside.any(axis=0)[mag].all(), "space-missed", "no evaluation in some magnetic element", r, F)
    ck.case(("space", pr) + s.key)


M_BAD = ["function(x,y,z) { return 1; }", "function(x,y,z) { return [1,2]; }", "function(x,y,z) { }",
         "function(x,y,z) { return null; }", "function(x,y,z) { return [1,'a',3]; }",
         "function(x,y,z) { return 'abc'; }", "function(x,y,z) { return {x:1}; }",
         "function(x,y,z) { throw new Error('stop'); }", "function(x,y,z) { return [undefined_name,0,0]; }",
         "function(x,y,z) { return [1,2,null]; }", "function(x,y,z) { return [[1],2,3]; }",
         "function(x,y,z) { return [1,,3]; }", "function(x,y,z) { return true; }",
         "function(x,y,z,r) { return r.nothing.at; }", "function(x,y,z) { throw 3; }",
         "function(x,y,z) { return [x, y }", "function(x,y,z) { let }", "function(x,y { return [1,2,3]; }",
         ["x +", "1", "1"], ["1", "foo(x)", "1"], ["1", "2", ")"], ["'a'", "1", "1"], ["1", "2", "[3]"],
         ["1", "undefined", "2"], ["1;2", "3", "4"], ["{}", "1", "1"], ["x==", "1", "2"]]
B_BAD = ["function(t) { return 1; }", "function(t) { return [1,2]; }", "function(t) { throw 'no'; }",
         "function(t) { if (t > 1.5e-13) throw new Error('late'); return [0,0,0.1]; }",
         "function(t) { return t > 1.5e-13 ? 0 : [0,0,0.1]; }",
         "function(t) { return [0, t > 1.5e-13 ? 'x' : 0, 0]; }",
         ["t", "q", "0"], ["0", "0", "'s'"], ["0", "t t", "0"],
         {"space": "function(x,y,z) { return 1; }", "time": "function(t) { return 1; }"},
         {"space": "function(x,y,z) { return [1,2,'3']; }", "time": "function(t) { return 1; }"},
         {"space": "function(x,y,z) { return [1,0,0]; }", "time": "function(t) { return [1]; }"},
         {"space": "function(x,y,z) { return [1,0,0]; }", "time": "function(t) { }"},
         {"space": "function(x,y,z) { return [1,0,0]; }", "time": "function(t) { if (t>1.5e-13) throw 1; return 0.1; }"},
         {"space": "function(x,y,z) { throw 1; }", "time": "function(t) { return 1; }"},
         {"space": "function(x,y,z) { return [1,0,0", "time": "function(t) { return 1; }"},
         {"space": "function(x,y,z) { return [1,0,0]; }", "time": "function(t) { return ; ) }"}]


def refusals(ck, exe):
    m = fgmesh.box((1, 1, 1), (3, 3, 3))
    jobs = [("initial_magnetization", x) for x in M_BAD] + [("Bext", x) for x in B_BAD]

    def one(j):
        s = fgrun.base_settings(outputs={"evol_time_step": 1e-13, "final_time": 4e-13},
                                time_integration={"max(dt)": 1e-13}, **{j[0]: j[1]})
        return j, fgrun.run(exe, s, {"m.msh": m})
    for j, r in fgrun.pmap(one, jobs):
        ck.case(("refused",) + (str(j),))
        ck.count("failing scripts")
        ck.ensure(r.rc is not None and r.rc > 0 and r.err.strip(), "accepted", lambda:
                  "%s: %r ended with %s, error stream %r" % (j[0], j[1], fgrun.describe(r), r.err[-200:]), r, {"m.msh": m})


def run(ck):
    ck.rule = ("random expression trees x points x forms in the parser class; whole runs whose "
               "expressions print their arguments, over random meshes, regions, times; failing scripts; "
               "distinct = (kind, form, depth, expression head) or (kind, problem)")
    ck.assumptions = ["the hyperbolic and shifted functions are accurate to 4e-8 (7 digits), the others "
                      "are those of the C library"]
    exe, _ = fgbuild.Variant("plain").feellgood()
    n = 20000 if ck.thorough else 3000
    jobs = [("plain", n, 1), ("asan", n // 3, 2)]
    hs = {v: fgharness.build(ck, v, "h_expr", libsrc=["expression_parser"]) for v, _, _ in jobs}
    jobs = [j for j in jobs if hs[j[0]]]
    for j, r in zip(jobs, fgrun.pmap(lambda j: fgharness.execute(hs[j[0]], j[1], ck.seed * 100 + j[2]), jobs)):
        fgharness.feed(ck, r, "(%s build) " % j[0])
    k = 5 if ck.thorough else 1
    for fn, judge, m in ((positions, judge_positions, 60 * k), (times, judge_times, 60 * k), (space, judge_space, 40 * k)):
        for x in fgrun.pmap(lambda i: fn(ck, exe, i), range(m)):
            judge(ck, *x)
    refusals(ck, exe)
