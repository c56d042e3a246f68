"""Problems with an electric current and spin accumulation, and the independent solution of both
boundary-value problems (linear elements, sparse direct solve)."""
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl
import fgoracle as fo
import fgscen


def make(rng, D0=None, enable=True, hst=None, **kw):
    """fgscen problem + surfaces 'in' (current density, polarization of the incoming spins) and 'out'
    (potential), with the prescribed spin on 'out' or on a surface of its own."""
    kw.setdefault("surfaces", 0)
    nreg = kw.pop("nreg", None)
    nreg = int(nreg if nreg is not None else rng.choice([1, 2, 2, 3]))
    s = fgscen.make(rng, nreg=nreg, **kw)
    m = s.mesh
    lo, hi = m.nodes.min(axis=0), m.nodes.max(axis=0)
    while True:
        a = int(rng.integers(3))
        mm = m.copy()
        up = int(rng.choice([0, 1]))
        x = (lambda c: (c[a] - lo[a]) / (hi[a] - lo[a])) if up else (lambda c: (hi[a] - c[a]) / (hi[a] - lo[a]))
        ball = s.desc["shape"] == "ball"
        eps = 0.25 if ball else 1e-6
        mm.add_surface("in", lambda c, ts: x(c) < eps, rng=rng)
        mm.add_surface("out", lambda c, ts: x(c) > 1 - eps, rng=rng)
        where = "out"
        if rng.random() < 0.35:
            if mm.add_surface("spin sink", lambda c, ts: 0.5 < x(c) < 1 - eps, rng=rng):
                where = "spin sink"
        ni = set(mm.tris[[i for i, f in enumerate(mm.freg) if f == "in"]].ravel())
        no = set(mm.tris[[i for i, f in enumerate(mm.freg) if f in ("out", where)]].ravel())
        if ni and no and not ni & no:
            break
        if where == "out":  # coarse ball
            m.nodes = m.nodes
            if ball:
                import fgmesh
                c, h = (lo + hi) / 2, hi - lo
                s.mesh = m = fgmesh.box((2, 2, 2), h, lo, 0.2, rng)
                s.desc["shape"] = "box"
                del c
    s.mesh = mm
    if hasattr(s, "_body"):
        del s._body
    for r, v in s.vols.items():
        d0 = float(D0 if D0 is not None else 10 ** rng.uniform(-9, -7))
        v["sigma"] = float(10 ** rng.uniform(6.3, 7.5))
        v["dens_state"] = 2 * v["sigma"] / (fo.QE ** 2 * d0)
        v["P"] = float(rng.choice([0.0, rng.uniform(0, .95)], p=[.15, .85]))
        v["l_sd"] = float(rng.uniform(0.7, 4) * 1e-9)
        v["l_sf"] = float(rng.uniform(2, 10) * 1e-9)
    b = fo.Body(mm, s.unit, s.vols)
    mag = next(v for r, v in s.vols.items() if b.par[r]["Ms"] > 0)
    ms = mag.get("Ms") or mag["Js"] / fo.MU0
    pre = 2 * mag["sigma"] / (fo.QE ** 2 * mag["dens_state"]) / (mag["l_sd"] ** 2 * fo.GAMMA0 * ms)
    H = float(hst if hst is not None else 10 ** rng.uniform(3.5, 5.5))
    jn = H / pre / (fo.MUB / fo.QE) * float(rng.choice([-1, 1]))
    s.jn, s.uP = jn, fgscen.rdir(rng) * float(rng.choice([1, 0.3, 40]))
    # comparable to the potential drop: the solver's tolerance is relative to the largest potential
    drop = abs(jn) * np.ptp(b.p, axis=0).max() / 1e7
    s.V0 = float(rng.choice([0.0, 0.0, drop, -2.5 * drop, 0.3 * drop]))
    s.sD = rng.normal(size=3) * abs(jn) * fo.MUB / fo.QE * float(rng.choice([0, 0.5, 2]))
    s.surfs = {"in": {"jn": jn, "uP": [float(q) for q in s.uP]}, "out": {"V": s.V0}}
    s.surfs.setdefault(where, {})["s"] = [float(q) for q in s.sD]
    s.sink = where
    s.settings["mesh"]["surface_regions"] = s.surfs
    s.settings["mesh"]["volume_regions"] = s.vols
    s.V_file = bool(rng.random() < 0.8)
    s.settings["spin_accumulation"] = {"enable": enable, "V_file": s.V_file}
    s.desc["sink"], s.desc["V0"], s.desc["Hst"] = where, s.V0, H
    s.key = s.key + (where, s.V0 == 0)
    return s


def nodes_of(m, name):
    t = m.tris[[i for i, f in enumerate(m.freg) if f == name]]
    return np.unique(t.ravel())


def stiffness(b, coef):
    """sparse sum over all tetrahedra of coef * integral of grad a_i . grad a_j"""
    S = np.einsum("t,tid,tjd->tij", coef * b.vol, b.g, b.g)
    I = np.repeat(b.T[:, :, None], 4, 2).ravel()
    J = np.repeat(b.T[:, None, :], 4, 1).ravel()
    return sp.coo_matrix((S.ravel(), (I, J)), shape=(len(b.p),) * 2).tocsr()


def par(b, name):
    return np.array([b.par[r][name] for r in b.treg], float)


def solve_dirichlet(K, rhs, idx, val):
    n = K.shape[0]
    x = np.zeros(n)
    x[idx] = val
    free = np.ones(n, bool)
    free[idx] = False
    f = np.nonzero(free)[0]
    if len(f):
        r = rhs - K @ x
        x[f] = spl.spsolve(K[f][:, f].tocsc(), r[f])
    return x


class Spin:
    def __init__(self, s):
        self.s = s
        b = self.b = fo.Body(s.mesh, s.unit, s.vols, {k: {} for k in s.surfs})
        m = s.mesh
        self.K = stiffness(b, par(b, "sigma"))
        self.rhs = np.zeros(len(b.p))
        for t, f in zip(m.tris, m.freg):
            if f == "in":
                pa, pb, pc = b.p[t]
                self.rhs[t] -= s.jn * np.linalg.norm(np.cross(pb - pa, pc - pa)) / 6
        self.iV = nodes_of(m, "out")
        self.V = solve_dirichlet(self.K, self.rhs, self.iV, s.V0)
        self.current = -self.rhs.sum()  # leaves through 'in'
        sig = par(b, "sigma")
        self.D = 2 * sig / (fo.QE ** 2 * par(b, "dens_state"))
        self.iin, self.isk = nodes_of(m, "in"), nodes_of(m, s.sink)
        self.sin = -s.jn * fo.MUB / fo.QE * fo.unit(s.uP)

    def matrix(self, u):
        b = self.b
        n = len(b.p)
        A = stiffness(b, self.D).tocoo()
        lump = np.zeros(n)
        np.add.at(lump, b.T, np.repeat((self.D / par(b, "l_sf") ** 2 * b.vol / 4)[:, None], 4, 1))
        k = b.mag
        sd = np.zeros(n)
        np.add.at(sd, b.T[k], np.repeat((self.D / np.where(par(b, "l_sd") > 0, par(b, "l_sd"), 1) ** 2 * b.vol / 4)[k][:, None], 4, 1))
        i = np.arange(n)
        rows, cols, vals = [], [], []
        for c in range(3):
            rows += [3 * A.row + c, 3 * i + c]
            cols += [3 * A.col + c, 3 * i + c]
            vals += [A.data, lump]
        um = np.where(b.magnode[:, None], u, 0.0)
        # s x m: (sy mz - sz my, ...)
        for c in range(3):
            d, e = (c + 1) % 3, (c + 2) % 3
            rows += [3 * i + c, 3 * i + c]
            cols += [3 * i + d, 3 * i + e]
            vals += [sd * um[:, e], -sd * um[:, d]]
        return sp.coo_matrix((np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))),
                             shape=(3 * n, 3 * n)).tocsr()

    def rhs_s(self, u, V):
        b = self.b
        k = b.mag
        gV = np.einsum("tn,tnd->td", V[b.T[k]], b.g[k])
        c = (fo.MUB / fo.QE * par(b, "P") * par(b, "sigma") * b.vol)[k]
        f = c[:, None] * np.einsum("td,tnd->tn", gV, b.g[k])
        R = np.zeros((len(b.p), 3))
        np.add.at(R, b.T[k], f[:, :, None] * u[b.T[k]])
        return R.ravel()

    def dirichlet(self):
        idx = np.concatenate([self.iin, self.isk])
        val = np.concatenate([np.tile(self.sin, (len(self.iin), 1)),
                              np.tile(self.s.sD, (len(self.isk), 1))])
        return (3 * idx[:, None] + np.arange(3)).ravel(), val.ravel()

    def spin(self, u, V=None):
        """s of every node for the magnetization u; also the residual of another vector"""
        V = self.V if V is None else V
        idx, val = self.dirichlet()
        return solve_dirichlet(self.matrix(u), self.rhs_s(u, V), idx, val).reshape(-1, 3)

    def hst(self, s):
        """callable for Body.step: nodal s-d field of the magnetic tetrahedra"""
        b = self.b
        pre = self.D / (par(b, "l_sd") ** 2 * fo.GAMMA0 * np.where(b.Ms > 0, b.Ms, 1))
        return lambda k: pre[k][:, None, None] * s[b.T[k]]
