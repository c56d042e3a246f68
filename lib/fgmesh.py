"""Mesh generation and .msh (2.2 text) writing, independent of gmsh and of feeLLGood."""
import itertools
import numpy as np


class Mesh:
    """nodes: (n,3) in mesh units; tets: (m,4) zero-based; treg: list of region names;
    tris: (k,3); freg: list of surface region names."""

    def __init__(self, nodes, tets, treg, tris=None, freg=None):
        self.nodes = np.array(nodes, float)
        self.tets = np.array(tets, int).reshape(-1, 4)
        self.treg = list(treg)
        self.tris = np.array([] if tris is None else tris, int).reshape(-1, 3)
        self.freg = [] if freg is None else list(freg)

    def copy(self):
        return Mesh(self.nodes.copy(), self.tets.copy(), list(self.treg), self.tris.copy(),
                    list(self.freg))

    # --- geometry -------------------------------------------------------------------------
    def volumes(self, scale=1.0):
        p = self.nodes * scale
        a, b, c, d = (p[self.tets[:, i]] for i in range(4))
        return np.abs(np.einsum("ij,ij->i", b - a, np.cross(c - a, d - a))) / 6

    def faces(self):
        """dict sorted-face -> list of tet indices"""
        out = {}
        for k, t in enumerate(self.tets):
            for f in itertools.combinations(sorted(t), 3):
                out.setdefault(f, []).append(k)
        return out

    def outward(self, tri, tet):
        """orientation of the given triangle (ordered) w.r.t. tetrahedron: +1 if outwards"""
        p = self.nodes
        n = np.cross(p[tri[1]] - p[tri[0]], p[tri[2]] - p[tri[0]])
        o = [i for i in tet if i not in tri][0]
        return -np.sign(n @ (p[o] - p[tri[0]]))

    def boundary(self, inner=True):
        """list of (face, [tets]) on the outside, or between tets of different regions"""
        res = []
        for f, ts in self.faces().items():
            if len(ts) == 1 or (inner and len(ts) == 2 and self.treg[ts[0]] != self.treg[ts[1]]):
                res.append((f, ts))
        return res

    def add_surface(self, name, pred, inner=False, rng=None):
        """Add to surface region `name` the boundary faces whose centroid satisfies pred; outward
        orientation (w.r.t. the first tet), or random if rng is given."""
        tris, reg = list(map(tuple, self.tris)), list(self.freg)
        have = {tuple(sorted(t)) for t in tris}
        n = 0
        for f, ts in self.boundary(inner):
            if f in have:
                continue
            c = self.nodes[list(f)].mean(axis=0)
            if pred(c, ts):
                t = list(f)
                if self.outward(t, self.tets[ts[0]]) < 0:
                    t[1], t[2] = t[2], t[1]
                if rng is not None and rng.random() < 0.5:
                    t[1], t[2] = t[2], t[1]
                tris.append(tuple(t))
                reg.append(name)
                n += 1
        self.tris = np.array(tris, int).reshape(-1, 3)
        self.freg = reg
        return n

    # --- transformations ------------------------------------------------------------------
    def renumbered(self, rng):
        """random permutation of the nodes, of the elements, of the vertices of each element"""
        n = len(self.nodes)
        perm = rng.permutation(n)  # old index -> new index
        nodes = np.empty_like(self.nodes)
        nodes[perm] = self.nodes
        tets = perm[self.tets]
        tets = np.array([rng.permutation(t) for t in tets]).reshape(-1, 4)
        order = rng.permutation(len(tets))
        tris = perm[self.tris] if len(self.tris) else self.tris
        tris = np.array([rng.permutation(t) for t in tris]).reshape(-1, 3)
        forder = rng.permutation(len(tris))
        m = Mesh(nodes, tets[order], [self.treg[i] for i in order], tris[forder],
                 [self.freg[i] for i in forder])
        return m, perm

    def translated(self, v):
        m = self.copy()
        m.nodes = m.nodes + np.asarray(v, float)
        return m

    def rotated(self, R):
        m = self.copy()
        m.nodes = m.nodes @ np.asarray(R).T
        return m

    # --- output ---------------------------------------------------------------------------
    def write(self, path, fmt="2.2", entities=None, extra_phys=(), raw_tail="", split_entities=1):
        vnames, snames = [], []
        for r in self.treg:
            if r not in vnames:
                vnames.append(r)
        for r in self.freg:
            if r not in snames:
                snames.append(r)
        names = [(2, 100 + i, s) for i, s in enumerate(snames)]
        names += [(3, 200 + i, s) for i, s in enumerate(vnames)]
        names += list(extra_phys)
        tag = {(d, s): t for d, t, s in names}
        L = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat", "$PhysicalNames", str(len(names))]
        L += ['%d %d "%s"' % x for x in names]
        L += ["$EndPhysicalNames", "$Nodes", str(len(self.nodes))]
        L += ["%d %.17g %.17g %.17g" % ((i + 1,) + tuple(p)) for i, p in enumerate(self.nodes)]
        L += ["$EndNodes", "$Elements", str(len(self.tets) + len(self.tris))]
        k = 1
        for t, r in zip(self.tris, self.freg):
            g = tag[(2, r)]
            L.append("%d 2 2 %d %d %d %d %d" % (k, g, g, t[0] + 1, t[1] + 1, t[2] + 1))
            k += 1
        for j, (t, r) in enumerate(zip(self.tets, self.treg)):
            g = tag[(3, r)]
            e = g + 1000 * (j % split_entities)
            L.append("%d 4 2 %d %d %d %d %d %d" % ((k, g, e) + tuple(x + 1 for x in t)))
            k += 1
        L += ["$EndElements"]
        with open(path, "w") as f:
            f.write("\n".join(L) + "\n" + raw_tail)


KUHN = [(0, a, b, 7) for a, b in ((1, 3), (3, 2), (2, 6), (6, 4), (4, 5), (5, 1))]


def box(n=(3, 3, 3), size=(10.0, 10.0, 10.0), origin=None, jitter=0.0, rng=None, region=None):
    """A box of n cells, 6 tetrahedrons each. region(centroid) -> name. Centred unless origin."""
    nx, ny, nz = n
    size = np.asarray(size, float)
    g = np.stack(np.meshgrid(np.arange(nx + 1), np.arange(ny + 1), np.arange(nz + 1),
                             indexing="ij"), -1).reshape(-1, 3).astype(float)
    h = size / np.array(n)
    if jitter and rng is not None:
        d = (rng.random(g.shape) - 0.5) * 2 * jitter
        for k, m in enumerate(n):
            d[(g[:, k] == 0) | (g[:, k] == m), k] = 0
        nodes = (g + d) * h
    else:
        nodes = g * h
    nodes = nodes - size / 2 if origin is None else nodes + np.asarray(origin, float)

    def idx(i, j, k):
        return (i * (ny + 1) + j) * (nz + 1) + k

    tets = []
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                c = [idx(i + (b & 1), j + (b >> 1 & 1), k + (b >> 2 & 1)) for b in range(8)]
                for t in KUHN:
                    tets.append([c[q] for q in t])
    m = Mesh(nodes, tets, ["vol"] * len(tets))
    if region is not None:
        # regions are decided on the regular grid so that jitter does not make them ragged
        reg = (g * h)[np.array(tets)].mean(axis=1)
        m.treg = [region(c / size) for c in reg]
    return m


def ball(n=4, axes=(5.0, 5.0, 5.0), jitter=0.0, rng=None):
    """Ellipsoid: a cube of n^3 cells, mapped radially."""
    m = box((n, n, n), (2.0, 2.0, 2.0), jitter=jitter, rng=rng)
    p = m.nodes
    inf = np.abs(p).max(axis=1)
    two = np.linalg.norm(p, axis=1)
    f = np.where(two > 0, inf / np.where(two > 0, two, 1), 1.0)
    m.nodes = p * f[:, None] * np.asarray(axes, float)
    return m


def random_rotation(rng):
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
