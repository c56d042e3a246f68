"""Random but valid problems: mesh, materials, surfaces, field, initial texture, with everything an
independent oracle needs to know about them."""
import numpy as np
import fgmesh
import fgoracle as fo
import fgrun

ALL_COLS = ["iter", "t", "dt", "max_dm", "max_angle", "<Mx>", "<My>", "<Mz>", "<dMx/dt>",
            "<dMy/dt>", "<dMz/dt>", "Thiele_length", "E_ex", "E_aniso", "E_demag", "E_zeeman",
            "E_tot", "Hx", "Hy", "Hz"]


class Scen:
    def body(self):
        if not hasattr(self, "_body"):
            self._body = fo.Body(self.mesh, self.unit, self.vols, self.surfs)
        return self._body

    def run(self, exe, **kw):
        return fgrun.run(exe, self.settings, {"m.msh": self.mesh}, **kw)

    def files(self):
        return {"m.msh": self.mesh}


def rdir(rng):
    v = rng.normal(size=3)
    return v / np.linalg.norm(v)


def texture(rng, ctr, L, kind=None):
    """A smooth nowhere-vanishing vector field of the position in metres: (JS expressions, numpy
    function, kind)."""
    kind = kind or rng.choice(["uniform", "wave", "tilt", "vortex", "wall", "flip", "axis"])
    c = [float(x) for x in ctr]
    k = 1.0 / L
    d = rdir(rng) * 1.7
    f = lambda x: repr(float(x))  # noqa: E731
    X, Y, Z = ("((%s-(%s))*%s)" % (v, f(a), f(k)) for v, a in zip("xyz", c))
    if kind == "uniform":
        s = float(rng.choice([1.0, 0.02, 300.0]))
        js = [f(v * s) for v in d]
        fun = lambda p: np.tile(d * s, (len(p), 1))  # noqa: E731
    elif kind == "wave":
        a = rng.uniform(0.5, 2.5, 3)
        js = ["%s+cos(%s*%s)" % (f(d[0]), f(a[0]), Y), "%s+sin(%s*%s)" % (f(d[1]), f(a[1]), Z),
              "%s+0.7*sin(%s*%s)" % (f(d[2]), f(a[2]), X)]

        def fun(p):
            q = (p - ctr) * k
            return np.stack([d[0] + np.cos(a[0] * q[:, 1]), d[1] + np.sin(a[1] * q[:, 2]),
                             d[2] + 0.7 * np.sin(a[2] * q[:, 0])], 1)
    elif kind == "tilt":
        js = ["%s+0.6*%s" % (f(d[0]), Z), "%s-0.4*%s" % (f(d[1]), X), "%s+0.5*%s*%s" % (f(d[2]), Y, X)]

        def fun(p):
            q = (p - ctr) * k
            return np.stack([d[0] + .6 * q[:, 2], d[1] - .4 * q[:, 0],
                             d[2] + .5 * q[:, 1] * q[:, 0]], 1)
    elif kind == "vortex":
        js = ["-" + Y, X, "0.6"]

        def fun(p):
            q = (p - ctr) * k
            return np.stack([-q[:, 1], q[:, 0], np.full(len(p), .6)], 1)
    elif kind == "axis":
        e = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], [1, 1, 0], [1, -1, 0], [0, 1, -1],
                      [1, -1, 1]][int(rng.integers(8))], float) * rng.choice([-1, 1])
        js = [f(v) for v in e]
        fun = lambda p: np.tile(e, (len(p), 1))  # noqa: E731
    elif kind == "flip":
        e = rng.normal(size=3)
        js = ["(%s*%s+%s*%s+%s*%s>0.0123?1:-1)*%s" % (f(e[0]), X, f(e[1]), Y, f(e[2]), Z, f(v))
              for v in d]

        def fun(p):
            q = (p - ctr) * k
            return np.where(e[0] * q[:, 0] + e[1] * q[:, 1] + e[2] * q[:, 2] > .0123, 1.0,
                            -1.0)[:, None] * d
    else:
        w = float(rng.uniform(2, 5))
        js = ["1/cosh(%s*%s)" % (f(w), Z), "0.2", "tanh(%s*%s)" % (f(w), Z)]

        def fun(p):
            q = (p - ctr) * k
            return np.stack([1 / np.cosh(w * q[:, 2]), np.full(len(p), .2), np.tanh(w * q[:, 2])], 1)
    return js, fun, str(kind)


def make(rng, nreg=None, nonmag=None, surfaces=None, field=None, n=None, aniso=None, tex=None,
         offset=None, steps=4, tau=2e-13, alpha=None, renumber=True, cols=None, suppress=True,
         max_cells=None, K3=True):
    s = Scen()
    nreg = int(nreg if nreg is not None else rng.choice([1, 1, 2, 3]))
    nonmag = bool(nonmag if nonmag is not None else (nreg > 1 and rng.random() < 0.6))
    surfaces = int(surfaces if surfaces is not None else rng.integers(0, 4))
    hi = max_cells or 4
    n = tuple(n) if n is not None else tuple(int(x) for x in rng.integers(1, hi, 3))
    ax = int(rng.integers(3))
    if nreg > 1:
        n = tuple(max(v, nreg) if i == ax else v for i, v in enumerate(n))
    cell = rng.uniform(1.5, 4.0)
    size = np.array(n) * cell * rng.uniform(0.8, 1.25, 3)  # nm
    off = offset if offset is not None else rng.choice(["centre", "far+", "far-", "corner", "big"])
    org = {"centre": -size / 2, "far+": np.full(3, 137.0), "far-": -size - 251.0,
           "corner": np.zeros(3), "big": rng.normal(size=3) * 900.0}[off]
    names = ["vol", "r b", "c2"][:nreg] if nreg > 1 else ["vol"]
    edges = np.linspace(0, 1, nreg + 1)[1:-1]
    shape = rng.choice(["box", "box", "ball"]) if nreg == 1 else "box"
    if shape == "ball":
        m = fgmesh.ball(max(2, n[0]), size / 2, 0.1, rng).translated(org + size / 2)
    else:
        m = fgmesh.box(n, size, org, 0.2, rng,
                       region=lambda c: names[int(np.searchsorted(edges, c[ax]))])
    s.unit = float(rng.choice([1e-9, 1e-9, 1e-10, 1e-6, 1.0]))
    m.nodes = m.nodes * (1e-9 / s.unit)
    snames = []
    if surfaces:
        ctr = m.nodes.mean(axis=0)
        for i in range(surfaces):
            a, sg = int(rng.integers(3)), rng.choice([-1, 1])
            inner = bool(rng.random() < 0.5)
            nm = ["surf", "s-2", "top"][i]
            if m.add_surface(nm, lambda c, ts: (c[a] - ctr[a]) * sg > 0.2 * np.ptp(m.nodes[:, a])
                             if not inner else len(ts) == 2 or rng.random() < 0.3,
                             inner=inner, rng=rng):
                snames.append(nm)
    if renumber:
        m, _ = m.renumbered(rng)
    s.mesh = m
    aniso = aniso if aniso is not None else rng.choice(["none", "K", "K3", "both"])
    if not K3 and aniso in ("K3", "both"):
        aniso = "K"
    vols = {}
    dead = int(rng.integers(nreg)) if nonmag else -1
    for i, r in enumerate(names):
        v = {"Ae": float(rng.uniform(0.5, 2) * 1e-11), "Ms": float(rng.uniform(2, 12) * 1e5),
             "alpha_LLG": float(alpha if alpha is not None else rng.choice([0.02, 0.1, 0.5, 1.0]))}
        if rng.random() < 0.3:
            v["Js"] = v.pop("Ms") * fo.MU0
        if i == dead:
            v.pop("Js", None)
            v["Ms"] = 0.0
        if aniso in ("K", "both"):
            v["K"] = float(rng.normal() * 1e5)
            v["uk"] = [float(x) for x in rng.normal(size=3)]
        if aniso in ("K3", "both"):
            v["K3"] = float(rng.normal() * 1e5)
            R = fgmesh.random_rotation(rng)
            v["ex"], v["ey"], v["ez"] = ([float(x) for x in R[k]] for k in range(3))
        vols[r] = v
    surfs = {}
    for nm in snames:
        q = {}
        if suppress and rng.random() < 0.4:
            q["suppress_charges"] = True
        if rng.random() < 0.6:
            q["Ks"] = float(rng.normal() * 1e-3)
            q["uk"] = [float(x) for x in rng.normal(size=3)]
        surfs[nm] = q
    s.vols, s.surfs, s.names = vols, surfs, names
    P = m.nodes * s.unit
    ctr = (P.max(axis=0) + P.min(axis=0)) / 2
    L = np.ptp(P, axis=0).max() / 2
    js, fun, tk = texture(rng, ctr, L, tex)
    s.init_raw = fun
    s.init = lambda p: fun(p) / np.linalg.norm(fun(p), axis=1)[:, None]
    if rng.random() < 0.4:
        ini = "function(x,y,z) { return [%s]; }" % ", ".join(js)
    else:
        ini = js
    field = field if field is not None else rng.choice(["zero", "const", "time", "func", "xt"])
    B = rng.normal(size=3) * 0.3
    w, ph = float(rng.uniform(1e11, 3e12)), float(rng.uniform(0, 6))
    s.field = str(field)
    s.H = s.Hxt = None
    if field == "zero":
        bext = [0, 0, 0]
        s.H = lambda t: np.zeros(3)
    elif field == "const":
        bext = [float(x) for x in B]
        s.H = lambda t: B / fo.MU0
    elif field == "time":
        bext = [repr(float(B[0])) + "*cos(%r*t+%r)" % (w, ph), repr(float(B[1])),
                repr(float(B[2])) + "*(1-exp(-1e12*t))"]
        s.H = lambda t: np.array([B[0] * np.cos(w * t + ph), B[1],
                                  B[2] * (1 - np.exp(-1e12 * t))]) / fo.MU0
    elif field == "func":
        bext = "function(t) { return [%r*sin(%r*t+%r), %r, %r]; }" % (
            float(B[0]), w, ph, float(B[1]), float(B[2]))
        s.H = lambda t: np.array([B[0] * np.sin(w * t + ph), B[1], B[2]]) / fo.MU0
    else:
        k = 1 / L
        c = [float(x) for x in ctr]
        bext = {"space": "function(x,y,z) { return [1+0.5*(x-(%r))*%r, sin((z-(%r))*%r), 0.3+(y-(%r))*"
                         "%r]; }" % (c[0], float(k), c[2], float(k), c[1], float(k)),
                "time": "function(t) { return %r*(1+0.5*sin(%r*t+%r)); }" % (float(B[0]), w, ph)}

        def Hxt(p, t):
            q = (p - ctr) * k
            v = np.stack([1 + .5 * q[:, 0], np.sin(q[:, 2]), .3 + q[:, 1]], 1)
            return v * B[0] * (1 + .5 * np.sin(w * t + ph)) / fo.MU0
        s.Hxt = Hxt
    cols = list(cols if cols is not None else ALL_COLS)
    if field == "xt":
        cols = [x for x in cols if x not in ("Hx", "Hy", "Hz")]
    s.settings = fgrun.base_settings(
        outputs={"evol_time_step": tau, "final_time": tau * steps, "evol_columns": cols},
        mesh={"length_unit": s.unit, "volume_regions": vols, "surface_regions": surfs},
        initial_magnetization=ini, Bext=bext,
        time_integration={"max(du)": 0.1, "min(dt)": 1e-17, "max(dt)": tau})
    if set(names) != {"vol"}:
        s.settings["mesh"]["volume_regions"].pop("vol", None) if "vol" not in names else None
    s.desc = {"nodes": len(m.nodes), "tets": len(m.tets), "regions": nreg, "nonmag": dead >= 0,
              "surfaces": {k: v for k, v in surfs.items()}, "field": str(field),
              "texture": tk, "aniso": str(aniso), "shape": str(shape), "offset": str(off),
              "unit": s.unit}
    s.key = (nreg, dead >= 0, tuple((k, tuple(sorted(v))) for k, v in surfs.items()), str(field),
             tk, str(aniso), str(shape), str(off), s.unit, len(m.nodes))
    return s
