"""Independent reference computations (numpy) on the meshes and states of the runs."""
import numpy as np

MU0 = 1.25663706127e-6
GAMMA0 = 1.76085962784e11 * MU0
HBAR = 6.62607015e-34 / (2 * np.pi)
QE = 1.602176634e-19
ME = 9.1093837139e-31
MUB = QE * HBAR / (2 * ME)
MS_DEFAULT = 795774.7

VOL_DEFAULT = {"Ae": 1e-11, "Ms": MS_DEFAULT, "K": 0.0, "uk": [0, 0, 1], "K3": 0.0,
               "ex": [1, 0, 0], "ey": [0, 1, 0], "ez": [0, 0, 1], "alpha_LLG": 0.5, "sigma": 0.0,
               "dens_state": 0.0, "P": 0.0, "l_sd": 0.0, "l_sf": 0.0}
SURF_DEFAULT = {"suppress_charges": False, "Ks": 0.0, "uk": [0, 0, 1]}

# quadrature rules (exact to degree 3): barycentric points, weights summing to one
TET_B = np.array([[1 / 4] * 4] + [[1 / 6 if i != j else 1 / 2 for i in range(4)]
                                  for j in range(4)])
TET_W = np.array([-4 / 5] + [9 / 20] * 4)
TRI_B = np.array([[1 / 3] * 3] + [[1 / 5 if i != j else 3 / 5 for i in range(3)]
                                  for j in range(3)])
TRI_W = np.array([-27 / 48] + [25 / 48] * 3)


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)


class Body:
    """A mesh with its materials. scale: metres per mesh unit."""

    def __init__(self, mesh, scale, volumes, surfaces=None):
        self.mesh, self.scale = mesh, scale
        self.p = mesh.nodes * scale
        self.par = {r: {**VOL_DEFAULT, **(volumes.get(r) or {})} for r in set(mesh.treg)}
        for d in self.par.values():
            if "Js" in d:
                d["Ms"] = d["Js"] / MU0
        self.spar = {r: {**SURF_DEFAULT, **((surfaces or {}).get(r) or {})}
                     for r in (surfaces or {})}
        T = mesh.tets.copy()
        a, b, c, d = (self.p[T[:, i]] for i in range(4))
        det = np.einsum("ij,ij->i", b - a, np.cross(c - a, d - a))
        sw = det < 0
        T[sw, 2], T[sw, 3] = mesh.tets[sw, 3], mesh.tets[sw, 2]
        self.T = T
        self.vol = np.abs(det) / 6
        E = np.stack([self.p[T[:, i]] - self.p[T[:, 0]] for i in (1, 2, 3)], axis=1)  # rows = edges
        inv = np.linalg.inv(E)  # columns are gradients of l1..l3
        g = np.empty((len(T), 4, 3))
        g[:, 1:, :] = np.transpose(inv, (0, 2, 1))
        g[:, 0, :] = -g[:, 1:, :].sum(axis=1)
        self.g = g
        self.treg = np.array(mesh.treg)
        self.Ms = np.array([self.par[r]["Ms"] for r in mesh.treg], float)
        self.mag = self.Ms > 0
        self.magnode = np.zeros(len(self.p), bool)
        self.magnode[T[self.mag].ravel()] = True
        self._surfaces()

    def _surfaces(self):
        """Every boundary or interface face once: (face nodes, unit normal, dMs, area, params)."""
        m = self.mesh
        listed = {tuple(sorted(t)): r for t, r in zip(m.tris, m.freg) if r in self.spar}
        F, N, D, A, S = [], [], [], [], []
        for f, ts in m.boundary(True):
            t0 = m.tets[ts[0]]
            tri = list(f)
            if m.outward(tri, t0) < 0:
                tri[1], tri[2] = tri[2], tri[1]
            pa, pb, pc = self.p[tri]
            n = np.cross(pb - pa, pc - pa)
            s = np.linalg.norm(n)
            dms = self.Ms[ts[0]] - (self.Ms[ts[1]] if len(ts) == 2 else 0.0)
            F.append(tri)
            N.append(n / s)
            A.append(s / 2)
            D.append(dms)
            S.append(listed.get(tuple(sorted(f))))
        self.F = np.array(F, int).reshape(-1, 3)
        self.N = np.array(N).reshape(-1, 3)
        self.A = np.array(A)
        self.D = np.array(D)
        self.S = S
        self.charged = np.array([not (s is not None and self.spar[s]["suppress_charges"])
                                 for s in S], bool) & self.magnode[self.F].all(axis=1)

    # --- observables --------------------------------------------------------------------
    def region_mask(self, region=None):
        return self.mag & (np.ones(len(self.T), bool) if region is None else self.treg == region)

    def avg(self, f, region=None):
        k = self.region_mask(region)
        v = self.vol[k]
        return np.einsum("i,ijk->k", v, f[self.T[k]]) / 4 / v.sum()

    def grad(self, f, k):
        """(nt, comp, dir)"""
        return np.einsum("tnc,tnd->tcd", f[self.T[k]], self.g[k])

    def E_ex(self, m, eps=0.0):
        k = self.mag
        A = np.array([self.par[r]["Ae"] for r in self.treg[k]], float)
        G = self.grad(m, k)
        n2 = np.einsum("tcd,tcd->t", G, G)
        val = (A * self.vol[k] * n2).sum()
        dG = eps * np.linalg.norm(self.g[k], axis=2).sum(axis=1) * np.sqrt(3)
        err = (A * self.vol[k] * (2 * np.sqrt(n2) * dG + dG ** 2)).sum()
        return val, err

    def E_aniso(self, m, eps=0.0):
        val, mag = 0.0, 0.0
        for r in set(self.treg[self.mag]):
            q = self.par[r]
            k = self.mag & (self.treg == r)
            v = self.vol[k]
            mg = np.einsum("qn,tnc->tqc", TET_B, m[self.T[k]])
            if q["K"]:
                d = (mg @ unit(q["uk"])) ** 2
                e = -q["K"] * (v[:, None] * TET_W * d)
                val += e.sum()
                mag += abs(q["K"]) * v.sum()
            if q["K3"]:
                a = np.stack([mg @ unit(q[x]) for x in ("ex", "ey", "ez")], axis=-1) ** 2
                d = a[..., 0] * a[..., 1] + a[..., 1] * a[..., 2] + a[..., 2] * a[..., 0]
                val += (q["K3"] * (v[:, None] * TET_W * d)).sum()
                mag += abs(q["K3"]) * v.sum()
        sv, sm = self.E_surf(m)
        return val + sv, (mag + sm) * 10 * eps

    def E_surf(self, m):
        val, mag = 0.0, 0.0
        for f, a, s in zip(self.F, self.A, self.S):
            if s is not None and self.spar[s]["Ks"]:
                q = self.spar[s]
                if not self.magnode[f].all():
                    continue
                mg = TRI_B @ m[f]
                val += -q["Ks"] * a * (TRI_W * (mg @ unit(q["uk"])) ** 2).sum()
                mag += abs(q["Ks"]) * a
        return val, mag

    def E_zeeman(self, m, H=None, Hfun=None, eps=0.0):
        """H: uniform field (A/m); Hfun: points (n,3) -> (n,3), sampled at the 5 points"""
        k = self.mag
        v = self.vol[k]
        mg = np.einsum("qn,tnc->tqc", TET_B, m[self.T[k]])
        if Hfun is None:
            h = np.broadcast_to(np.asarray(H, float), mg.shape)
        else:
            pg = np.einsum("qn,tnc->tqc", TET_B, self.p[self.T[k]])
            h = Hfun(pg.reshape(-1, 3)).reshape(mg.shape)
        d = np.einsum("tqc,tqc->tq", mg, h)
        w = v[:, None] * TET_W * MU0 * self.Ms[k][:, None]
        return -(w * d).sum(), (np.abs(w) * np.linalg.norm(h, axis=2)).sum() * 3 * eps

    def E_demag(self, m, phi, eps=0.0, epsphi=0.0):
        k = self.mag
        div = np.einsum("tcc->t", self.grad(m, k))
        ph = phi[self.T[k]].mean(axis=1)
        val = -0.5 * MU0 * (self.Ms[k] * self.vol[k] * div * ph).sum()
        absphi = np.abs(phi[self.magnode])
        dG = eps * np.linalg.norm(self.g[k], axis=2).sum(axis=1) * np.sqrt(3)
        pa = np.abs(phi[self.T[k]]).max(axis=1)
        err = 0.5 * MU0 * (self.Ms[k] * self.vol[k] * (dG * pa + np.abs(div) * epsphi * pa)).sum()
        c = self.charged
        F = self.F[c]
        mn = np.einsum("tnc,tc->tn", m[F], self.N[c])
        pf = phi[F]
        # exact integral of a product of two linear functions on a triangle
        I = (mn.sum(axis=1) * pf.sum(axis=1) + (mn * pf).sum(axis=1)) / 12 * self.A[c]
        val += 0.5 * MU0 * (self.D[c] * I).sum()
        err += 0.5 * MU0 * (np.abs(self.D[c]) * self.A[c] * np.abs(pf).max(axis=1)
                            * (3 * eps + epsphi)).sum()
        return val, err

    def max_angle(self, m):
        e = set()
        for t in self.mesh.tets:
            for i in range(4):
                for j in range(i):
                    e.add((min(t[i], t[j]), max(t[i], t[j])))
        e = np.array([x for x in e if self.magnode[x[0]] and self.magnode[x[1]]])
        d = np.einsum("ij,ij->i", m[e[:, 0]], m[e[:, 1]])
        c = np.linalg.norm(np.cross(m[e[:, 0]], m[e[:, 1]]), axis=1)
        return np.arctan2(c, d).max()

    def thiele(self, m, region=None):
        k = self.region_mask(region)
        G = self.grad(m, k)[:, :, 2]
        s = (self.vol[k] * (G ** 2).sum(axis=1)).sum()
        lz = np.ptp(self.p[:, 2])
        return 2 * self.vol[k].sum() / lz / s

    def moment(self, m):
        k = self.mag
        return np.einsum("t,tnc->c", self.Ms[k] * self.vol[k], m[self.T[k]]) / 4

    # --- one step of the tangent-plane scheme --------------------------------------------
    def step(self, u, v, phi, phiv, H, dt, dtmax, hst=None, known_cubic=False):
        """The velocity of one integration step from its definition: weak form of the LLG equation in
        the tangent planes, second order in time, mass lumping and stabilised damping. u, v: state
        (nodes, 3); H: points, -> field in A/m at the start of the step; returns v_new (nodes, 3)."""
        import scipy.sparse as sp
        import scipy.sparse.linalg as spl
        nn = len(self.p)
        k = np.nonzero(self.mag)[0]
        T, g, vol, Ms = self.T[k], self.g[k], self.vol[k], self.Ms[k]
        par = [self.par[r] for r in self.treg[k]]
        A = np.array([q["Ae"] for q in par], float)
        alpha = np.array([q["alpha_LLG"] for q in par], float)
        Ab = 2 * A / (MU0 * Ms)
        th = 0.5 * dt
        x = dt / (100 * dtmax)
        pre = 1 + x * abs(np.log(x))
        ug = np.einsum("qn,tnc->tqc", TET_B, u[T])
        vg = np.einsum("qn,tnc->tqc", TET_B, v[T])
        pg = np.einsum("qn,tnc->tqc", TET_B, self.p[T])
        G = np.einsum("tnc,tnd->tcd", u[T], g)
        g2 = np.einsum("tcd,tcd->t", G, G)
        hd = -np.einsum("tn,tnd->td", phi[T], g)[:, None, :]
        hv = -np.einsum("tn,tnd->td", phiv[T], g)[:, None, :]
        hx = H(pg.reshape(-1, 3)).reshape(pg.shape)
        hs = np.zeros_like(pg) if hst is None else np.einsum("qn,tnc->tqc", TET_B, hst(k))
        tot = hd + hx + hs
        heff = np.einsum("tqc,tqc->tq", ug, tot) - (Ab * g2)[:, None]
        h = tot + th * hv
        for r in set(self.treg[k]):
            q = self.par[r]
            s = self.treg[k] == r
            if q["K"]:
                kb = 2 * q["K"] / (MU0 * q["Ms"])
                e = unit(q["uk"])
                a, da = ug[s] @ e, vg[s] @ e
                h[s] += (kb * (a + th * da))[..., None] * e
                heff[s] += kb * a ** 2
            if q["K3"]:
                kb = 2 * q["K3"] / (MU0 * q["Ms"])
                ee = [unit(q[c]) for c in ("ex", "ey", "ez")]
                for c, e in enumerate(ee):
                    a, da = ug[s] @ e, vg[s] @ e
                    if known_cubic:
                        h[s] -= (kb * a * (1 - a * a))[..., None] * e
                        h[s, :, c] -= kb * th * da * ee[0][c] * (1 - 3 * a * a)
                    else:
                        h[s] -= (kb * (a * (1 - a * a) + th * da * (1 - 3 * a * a)))[..., None] * e
                    heff[s] -= kb * a * a * (1 - a * a)
        h = h - np.einsum("tqc,tqc->tq", hs, ug)[..., None] * th * vg
        X = GAMMA0 * dt / 2 * heff
        al = alpha[:, None]
        ae = np.where(X > 0, al + np.minimum(X, 0.1 * al), al / (1 + np.minimum(-X / al, 0.1)))
        w = vol[:, None] * TET_W
        B = np.einsum("tq,qn,tqc->tnc", w, TET_B, h)
        B -= (Ab * vol)[:, None, None] * np.einsum("tnd,tcd->tnc", g, G)
        b = np.zeros((nn, 3))
        np.add.at(b, T, B)
        for f, a, d, sn in zip(self.F, self.A, self.D, self.S):
            if sn is not None and self.spar[sn]["Ks"] and d != 0 and self.magnode[f].all():
                q = self.spar[sn]
                e = unit(q["uk"])
                c = TRI_W * ((TRI_B @ u[f]) @ e) * (2 * q["Ks"] / (MU0 * abs(d)) * a)
                b[f] += (TRI_B.T @ c)[:, None] * e
        la, lm = np.zeros(nn), np.zeros(nn)
        np.add.at(la, T, np.einsum("tq,qn->tn", w * ae, TET_B))
        np.add.at(lm, T, np.einsum("tq,qn->tn", w, TET_B))
        S = np.einsum("t,tid,tjd->tij", pre * th * GAMMA0 * Ab * vol, g, g)
        # tangent bases
        ids = np.nonzero(self.magnode)[0]
        pos = np.full(nn, -1)
        pos[ids] = np.arange(len(ids))
        mu = u[ids]
        ax = np.eye(3)[np.argmin(np.abs(mu), axis=1)]
        e1 = np.cross(mu, ax)
        e1 /= np.linalg.norm(e1, axis=1)[:, None]
        e2 = np.cross(mu, e1)
        E = np.stack([e1, e2], 1)  # (n, 2, 3)
        I = pos[np.repeat(T[:, :, None], 4, 2)].ravel()
        J = pos[np.repeat(T[:, None, :], 4, 1)].ravel()
        val = S.ravel()[:, None, None] * np.einsum("nac,nbc->nab", E[I], E[J])
        rows = (2 * I[:, None, None] + np.arange(2)[None, :, None] + 0 * val.astype(int)).ravel()
        cols = (2 * J[:, None, None] + np.arange(2)[None, None, :] + 0 * val.astype(int)).ravel()
        D = la[ids][:, None, None] * np.eye(2) + lm[ids][:, None, None] * np.einsum(
            "nac,nbc->nab", E, np.cross(mu[:, None, :], E))
        n2 = np.arange(len(ids))
        r2 = (2 * n2[:, None, None] + np.arange(2)[None, :, None] + 0 * D.astype(int)).ravel()
        c2 = (2 * n2[:, None, None] + np.arange(2)[None, None, :] + 0 * D.astype(int)).ravel()
        K = sp.coo_matrix((np.concatenate([val.ravel(), D.ravel()]),
                           (np.concatenate([rows, r2]), np.concatenate([cols, c2]))),
                          shape=(2 * len(ids),) * 2).tocsc()
        sol = spl.spsolve(K, np.einsum("nac,nc->na", E, b[ids]).ravel()).reshape(-1, 2)
        out = np.full((nn, 3), np.nan)
        out[ids] = GAMMA0 * np.einsum("na,nac->nc", sol, E)
        return out

    # --- magnetostatics -----------------------------------------------------------------
    def sources(self, m):
        """points and charges (volume then surface) with the 5- and 4-point rules"""
        k = self.mag
        div = np.einsum("tcc->t", self.grad(m, k))
        pv = np.einsum("qn,tnc->tqc", TET_B, self.p[self.T[k]]).reshape(-1, 3)
        qv = (-(self.Ms[k] * self.vol[k] * div)[:, None] * TET_W).ravel()
        c = self.charged
        F = self.F[c]
        ps = np.einsum("qn,tnc->tqc", TRI_B, self.p[F])
        mn = np.einsum("tnc,tc->tn", m[F], self.N[c])
        qs = self.D[c][:, None] * self.A[c][:, None] * TRI_W * (mn @ TRI_B.T)
        return pv, qv, ps, qs, F, mn * self.D[c][:, None]

    def potential(self, m):
        """phi at magnetic nodes: point sources, but the triangles around a node are integrated
        exactly (linear density, 1/r kernel, by a Duffy transform)."""
        pv, qv, ps, qs, F, sig = self.sources(m)
        nodes = np.nonzero(self.magnode)[0]
        phi = np.full(len(self.p), np.nan)
        A = self.A[self.charged]
        absum = np.zeros(len(self.p))
        P = ps.reshape(-1, 3)
        Q = qs.ravel()
        owner = {}
        for k, f in enumerate(F):
            for i in range(3):
                owner.setdefault(f[i], []).append((k, i))
        for i in nodes:
            s = 0.0
            a = 0.0
            if len(pv):
                r = np.linalg.norm(pv - self.p[i], axis=1)
                s += (qv / r).sum()
                a += np.abs(qv / r).sum()
            mask = np.ones(len(F), bool)
            own = owner.get(i, [])
            for k, _ in own:
                mask[k] = False
            if mask.any():
                PP = ps[mask].reshape(-1, 3)
                r = np.linalg.norm(PP - self.p[i], axis=1)
                t = qs[mask].ravel() / r
                s += t.sum()
                a += np.abs(t).sum()
            for k, j in own:
                f = F[k]
                v0, v1, v2 = self.p[f[j]], self.p[f[(j + 1) % 3]], self.p[f[(j + 2) % 3]]
                s0, s1, s2 = sig[k][j], sig[k][(j + 1) % 3], sig[k][(j + 2) % 3]
                # r' = v0 + u ((1-t)(v1-v0) + t (v2-v0)), dS = 2A u du dt, |r'-v0| = u L(t)
                # int_0^1 [ s0 (1-u) + u se ] du = s0/2 + se/2, se = s1 + t (s2 - s1), then the
                # integral over t of a linear function over L(t) = |e| sqrt((t-t0)^2 + h^2)
                e = v2 - v1
                le = np.linalg.norm(e)
                t0 = -(v1 - v0) @ e / le ** 2
                h = 2 * A[k] / le ** 2
                c0, c1 = (s0 + s1) / 2, (s2 - s1) / 2
                val = 2 * A[k] / le * ((c0 + c1 * t0) * (np.arcsinh((1 - t0) / h) + np.arcsinh(t0 / h))
                                       + c1 * (np.hypot(1 - t0, h) - np.hypot(t0, h)))
                s += val
                a += abs(val)
            phi[i] = s / (4 * np.pi)
            absum[i] = a / (4 * np.pi)
        return phi, absum


# --- dynamics ----------------------------------------------------------------------------
def llg_rhs(m, H, alpha):
    """Gilbert form solved for dm/dt; H in A/m (may depend on m)"""
    c = _cross(m, H)
    return -GAMMA0 / (1 + alpha ** 2) * (c + alpha * _cross(m, c))


def _cross(a, b):
    a0, a1, a2 = a
    b0, b1, b2 = b
    return np.array([a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0])


def llg_rk4(m, Hfun, alpha, t0, t1, n):
    h = (t1 - t0) / n
    t = t0
    for _ in range(n):
        k1 = llg_rhs(m, Hfun(t, m), alpha)
        a = m + h / 2 * k1
        k2 = llg_rhs(a, Hfun(t + h / 2, a), alpha)
        a = m + h / 2 * k2
        k3 = llg_rhs(a, Hfun(t + h / 2, a), alpha)
        a = m + h * k3
        k4 = llg_rhs(a, Hfun(t + h, a), alpha)
        m = m + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        m = m / np.linalg.norm(m)
        t += h
    return m


def aniso_field(m, K, uk, K3, ex, ey, ez, Ms):
    H = np.zeros(3)
    if K:
        u = unit(uk)
        H = H + 2 * K / (MU0 * Ms) * (m @ u) * u
    if K3:
        e = [unit(ex), unit(ey), unit(ez)]
        a = [m @ x for x in e]
        s2 = sum(x * x for x in a)
        for i in range(3):
            H = H - 2 * K3 / (MU0 * Ms) * a[i] * (s2 - a[i] ** 2) * e[i]
    return H
