"""C09: mesh reading. Valid meshes written in many ways (listed surfaces, orientation, extra regions,
0D/1D elements, several entities, file versions) must give the sources, potentials and
energies of the regions named in the settings; systematically damaged meshes must be refused."""
import os
import shutil
import struct
import subprocess
import tempfile
import numpy as np
import fgbuild
import fgmesh
import fgoracle as fo
import fgrun
import fgscen

COLS = ["t", "<Mx>", "<My>", "<Mz>", "E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot"]


def text(m, **kw):
    d = tempfile.mkdtemp(prefix="fgm")
    try:
        p = os.path.join(d, "m.msh")
        m.write(p, **kw)
        return open(p).read()
    finally:
        shutil.rmtree(d)


def lines_of(t, sec):
    a, b = t.index("$%s\n" % sec), t.index("$End%s" % sec)
    return t[a:b].split("\n")[1:-1]


def replace(t, sec, lines):
    a, b = t.index("$%s\n" % sec), t.index("$End%s" % sec)
    return t[:a] + "$%s\n" % sec + "\n".join(lines) + "\n" + t[b:]


def add_elements(t, new):
    """new: strings 'type ntags tags nodes'"""
    e = lines_of(t, "Elements")
    n = int(e[0])
    e += ["%d %s" % (n + 1 + i, x) for i, x in enumerate(new)]
    e[0] = str(n + len(new))
    return replace(t, "Elements", e)


def add_names(t, names):
    e = lines_of(t, "PhysicalNames")
    e += names
    e[0] = str(int(e[0]) + len(names))
    return replace(t, "PhysicalNames", e)


def convert(t, version, binary):
    d = tempfile.mkdtemp(prefix="fgm")
    try:
        with open(os.path.join(d, "a.msh"), "w") as f:
            f.write(t)
        p = subprocess.run(["gmsh", "a.msh", "-save", "-format", "msh" + version.replace(".", ""), "-o",
                            "b.msh"] + (["-bin"] if binary else []), cwd=d, env=dict(os.environ, HOME=d),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        if p.returncode or not os.path.exists(os.path.join(d, "b.msh")):
            return None
        with open(os.path.join(d, "b.msh"), "rb") as f:
            return f.read()
    except (OSError, subprocess.SubprocessError):
        return None
    finally:
        shutil.rmtree(d)


def binary22(t):
    """the same 2.2 file, binary (gmsh itself would renumber the nodes)"""
    names = "\n".join(lines_of(t, "PhysicalNames"))
    out = b"$MeshFormat\n2.2 1 8\n" + struct.pack("<i", 1) + b"\n$EndMeshFormat\n$PhysicalNames\n"
    out += names.encode() + b"\n$EndPhysicalNames\n$Nodes\n"
    nd = lines_of(t, "Nodes")
    out += nd[0].encode() + b"\n"
    for l in nd[1:]:
        f = l.split()
        out += struct.pack("<iddd", int(f[0]), *map(float, f[1:]))
    el = lines_of(t, "Elements")
    out += b"\n$EndNodes\n$Elements\n" + el[0].encode() + b"\n"
    for l in el[1:]:
        f = [int(x) for x in l.split()]
        out += struct.pack("<iii", f[1], 1, f[2]) + struct.pack("<%di" % (len(f) - 2), f[0], *f[3:])
    return out + b"\n$EndElements\n"


# --- valid meshes ------------------------------------------------------------------------
def valid(ck, exe, i):
    rng = ck.sub_rng(1, i)
    s = fgscen.make(rng, steps=1, tau=1e-14, surfaces=int(rng.choice([0, 0, 1, 2, 3])), cols=COLS,
                    field=str(rng.choice(["zero", "const"])))
    full = s.mesh
    kind = str(rng.choice(["plain", "unnamed-region", "unnamed-surface", "lines", "entities",
                           "format", "reorient", "all-listed", "none-listed"]))
    m = full.copy()
    b_mesh = m
    extra = {}
    t = None
    if kind == "unnamed-region":
        # a region present in the file, absent from the settings: as if it were not there
        k = rng.random(len(m.tets)) < 0.3
        if k.all():
            k[0] = False
        keep = ~k
        m.treg = ["ghost region" if x else r for x, r in zip(k, m.treg)]
        # surfaces must still be legal: drop those whose faces changed nature
        named = set(s.names)
        if not named <= set(np.array(m.treg)[keep]):
            return None
        b_mesh = fgmesh.Mesh(m.nodes, m.tets[keep], [r for r, x in zip(m.treg, keep) if x])
        m.tris, m.freg = np.zeros((0, 3), int), []
        s.surfs = {}
        s.settings["mesh"]["surface_regions"] = {}
    elif kind == "unnamed-surface":
        # triangles of a surface region the settings do not name may be anything
        inner = [f for f, ts in m.faces().items() if len(ts) == 2][:3] + [(0, 1, 2)]
        m.tris = np.array(list(map(tuple, m.tris)) + inner + inner, int).reshape(-1, 3)
        m.freg = m.freg + ["ghost"] * (2 * len(inner))
        b_mesh = full
    elif kind == "reorient":
        m.tris = np.array([x[::-1] if rng.random() < 0.5 else x for x in m.tris], int).reshape(-1, 3)
        m.tets = np.array([rng.permutation(x) for x in m.tets])
    elif kind in ("all-listed", "none-listed"):
        if any(q.get("suppress_charges") or q.get("Ks") for q in s.surfs.values()):
            return None
        m.tris, m.freg = np.zeros((0, 3), int), []
        s.settings["mesh"]["surface_regions"] = {}
        s.surfs = {}
        if kind == "all-listed":
            m.add_surface("everything", lambda c, ts: True, inner=True, rng=rng)
            s.settings["mesh"]["surface_regions"] = {"everything": {}}
            s.surfs = {"everything": {}}
        b_mesh = m
    t = text(m, split_entities=3 if kind == "entities" else 1)
    nn = len(m.nodes)
    if kind == "lines":
        t = add_names(t, ['1 300 "wire"', '0 301 "vol"'])
        t = add_elements(t, ["1 2 300 300 1 2", "1 2 300 300 2 3", "15 2 301 301 1"])
    elif kind == "format":
        ver, binary = [("4.1", False), ("4.1", True), ("2.2", True), ("4", False)][int(rng.integers(4))]
        c = binary22(t) if (ver, binary) == ("2.2", True) else convert(t, ver, binary)
        if c is None:
            ck.count("format conversion unavailable")
        else:
            t = c
            ck.count("format %s%s" % (ver, " binary" if binary else ""))
    return s, kind, t, b_mesh, nn


def judge_valid(ck, s, kind, t, bm, nn, r):
    F = {"m.msh": t if isinstance(t, str) else t.decode("latin1")}
    if not ck.ensure(r.rc == 0 and r.evol is not None and len(r.sols), "valid-refused:" + kind, lambda:
                     "a valid mesh (%s) is not accepted: %s %s" % (kind, fgrun.describe(r), r.err[-300:]),
                     r, F):
        return
    b = fo.Body(bm, s.unit, s.vols, s.surfs)
    a = r.sols["out_iter0.sol"][2]
    if not ck.ensure(len(a) == nn and np.array_equal(a[:, 0], np.arange(nn)), "nodes", lambda:
                     "%d nodes saved for %d nodes in the mesh (%s)" % (len(a), nn, kind), r, F):
        return
    M = a[:, 1:4]
    mag = np.isfinite(M).all(axis=1)
    ck.ensure(np.array_equal(mag, b.magnode), "magnetic-nodes:" + kind, lambda: "nodes %s are %s" % (
        np.nonzero(mag != b.magnode)[0][:5] + 1, "wrongly magnetic or wrongly not"), r, F)
    if not np.array_equal(mag, b.magnode):
        return
    want = np.full(M.shape, np.nan)
    want[mag] = s.init(b.p)[mag]
    ck.ensure(np.abs(M - want)[mag].max() < 1e-7, "node-order:" + kind, "the initial magnetization is not "
              "on the right nodes", r, F)
    ev = [e for e in r.events if e["ev"] == "fmm"]
    nsrc = 5 * int(b.mag.sum()) + 4 * int((b.charged).sum())
    # a face with no jump carries no charge and may be left out
    nsrc0 = 5 * int(b.mag.sum()) + 4 * int((b.charged & (b.D != 0)).sum())
    if ev:
        ck.ensure(nsrc0 <= ev[0]["nsrc"] <= nsrc, "sources:" + kind, lambda: "%d sources of the field, "
                  "expected %d: 5 per magnetic tetrahedron, 4 per charged face" % (ev[0]["nsrc"], nsrc),
                  r, F)
    m0 = np.nan_to_num(want)
    ph, ab = b.potential(m0)
    row = dict(zip(r.cols, r.evol[0]))
    E = {"E_ex": b.E_ex(m0), "E_aniso": b.E_aniso(m0), "E_demag": b.E_demag(m0, ph)}
    av = b.avg(m0)
    for c, x in zip("xyz", av):
        ck.ensure(abs(row["<M%s>" % c] - x) < 1e-9, "average:" + kind, lambda: "average of m%s is %.12g, "
                  "that of the named regions is %.12g" % (c, row["<M%s>" % c], x), r, F)
    scale = fo.MU0 * ((b.Ms ** 2) * b.vol)[b.mag].sum()
    for k, (v, _) in E.items():
        tol = 1e-7 * abs(v) + 1e-8 * scale
        ck.ensure(abs(row[k] - v) <= tol, "energy:%s:%s" % (k, kind), lambda: "%s is %.10g, that of the "
                  "named regions is %.10g (%s)" % (k, row[k], v, kind), r, F)
    d = np.abs(a[mag, 4] - ph[mag]).max() / np.abs(ab[mag]).max()
    ck.maximum("potential", d)
    ck.ensure(d < 1e-6, "potential:" + kind, lambda: "the potential is not that of the charges of the named "
              "regions, off by %.3g of its scale (%s)" % (d, kind), r, F)
    ck.count("valid: " + kind)
    ck.case((kind,) + s.key, {"kind": kind, "scenario": s.desc})


# --- damaged meshes ----------------------------------------------------------------------
def damaged(rng, which):
    n = tuple(int(x) for x in rng.integers(1, 4, 3))
    n = (max(n[0], 2),) + n[1:]
    m = fgmesh.box(n, tuple(3.0 * x for x in n), None, 0.15, rng,
                   region=lambda c: "vol" if c[0] < 0.5 else "b")
    m.add_surface("surf", lambda c, ts: c[2] > 0 and len(ts) == 1 or len(ts) == 2 and rng.random() < .5,
                  inner=True, rng=rng)
    m, _ = m.renumbered(rng)
    V = {"vol": {}, "b": {"Ms": float(rng.choice([0, 3e5]))}}
    S = {"surf": {}}
    faces = m.faces()
    inner = [f for f, ts in faces.items() if len(ts) == 2 and m.treg[ts[0]] == m.treg[ts[1]]]
    outer = [f for f, ts in faces.items() if len(ts) == 1]
    unlisted = [f for f in outer if f not in {tuple(sorted(x)) for x in m.tris}]
    pick = lambda l: l[int(rng.integers(len(l)))]  # noqa: E731
    shuf = lambda f: [int(x) + 1 for x in rng.permutation(list(f))]  # noqa: E731
    one = lambda f: "2 2 100 100 %d %d %d" % tuple(shuf(f))  # noqa: E731
    tet = lambda f, r="vol": "4 2 %d %d %d %d %d %d" % ((tag[r],) * 2 + tuple(shuf(f)))  # noqa: E731
    vn = []
    for r in m.treg:
        if r not in vn:
            vn.append(r)
    tag = {r: 200 + i for i, r in enumerate(vn)}
    t = text(m)
    if which == "volume name missing":
        V["nowhere"] = {}
    elif which == "surface name missing":
        S["nowhere"] = {}
    elif which == "name differs in case":
        V["Vol"] = V.pop("vol")
    elif which == "volume named as a surface":
        V["surf"] = {}
    elif which == "surface named as a volume":
        S["vol"] = {}
    elif which == "declared but empty volume":
        t = add_names(t, ['3 222 "ghost"'])
        V["ghost"] = {}
    elif which == "declared but empty surface":
        t = add_names(t, ['2 122 "ghost"'])
        S["ghost"] = {}
    elif which == "no tetrahedron":
        e = lines_of(t, "Elements")
        e = [x for x in e[1:] if x.split()[1] != "4"]
        t = replace(t, "Elements", [str(len(e))] + e)
    elif which == "degenerate: repeated node":
        k = int(rng.integers(len(m.tets)))
        mm = m.copy()
        mm.tets[k][int(rng.integers(1, 4))] = mm.tets[k][0]
        t = text(mm)
    elif which == "degenerate: flat":
        t = add_elements(add_flat(m, t), ["4 2 200 200 %d %d %d %d" % tuple(
            int(x) for x in rng.permutation([len(m.nodes) + 1 + i for i in range(4)]))])
    elif which == "tetrahedron twice":
        t = add_elements(t, [tet(pick(m.tets))])
    elif which == "tetrahedron in both regions":
        k = int(rng.integers(len(m.tets)))
        t = add_elements(t, [tet(m.tets[k], "b" if m.treg[k] == "vol" else "vol")])
    elif which == "third tetrahedron on a face":
        f = pick(inner or [x for x, ts in faces.items() if len(ts) == 2])
        e = lines_of(t, "Nodes")
        p = m.nodes[list(f)].mean(axis=0) + rng.normal(size=3)
        e.append("%d %.17g %.17g %.17g" % ((len(m.nodes) + 1,) + tuple(p)))
        e[0] = str(len(m.nodes) + 1)
        t = add_elements(replace(t, "Nodes", e), [tet(tuple(f) + (len(m.nodes),))])
    elif which == "triangle twice, same surface":
        t = add_elements(t, [one(pick(m.tris))])
    elif which == "triangle twice, two surfaces":
        t = add_names(t, ['2 140 "other"'])
        t = add_elements(t, [one(pick(m.tris)).replace("100", "140", 2)])
        S["other"] = {}
    elif which == "triangle inside a region":
        if not inner:
            return None
        t = add_elements(t, [one(pick(inner))])
    elif which == "triangle of no tetrahedron":
        while True:
            f = tuple(sorted(rng.choice(len(m.nodes), 3, replace=False)))
            p = m.nodes[list(f)]
            if f not in faces and np.linalg.norm(np.cross(p[1] - p[0], p[2] - p[0])) > 0.5:
                break
        t = add_elements(t, [one(f)])
    elif which == "quadrangle":
        t = add_elements(t, ["3 2 100 100 1 2 3 4"])
    elif which == "hexahedron":
        t = add_elements(t, ["5 2 200 200 " + " ".join(str(x) for x in range(1, 9))])
    elif which == "second-order tetrahedron":
        if len(m.nodes) < 20:
            return None
        t = replace(t, "Elements", ["2"] + ["%d 11 2 %d %d %s" % (
            k + 1, 200 + k, 200 + k, " ".join(str(10 * k + x) for x in range(1, 11))) for k in (0, 1)])
        S = {}
    elif which == "node index out of range":
        t = add_elements(t, ["4 2 200 200 1 2 3 %d" % (len(m.nodes) + 50)])
    elif which == "surface only":
        e = [x for x in lines_of(t, "Elements")[1:] if x.split()[1] == "2"]
        t = replace(t, "Elements", [str(len(e))] + e)
    elif which == "not a mesh":
        t = "hello\n"
    elif which == "missing file":
        t = None
    elif which == "empty file":
        t = ""
    elif which == "both physical groups":
        # every tetrahedron of one entity in two named regions (4.1 format allows it)
        t41 = two_groups(m)
        t = t41
        V = {"vol": {}, "b": {}}
        S = {}
    _ = unlisted
    return m, t, V, S


def add_flat(m, t):
    e = lines_of(t, "Nodes")
    n = len(m.nodes)
    for i, p in enumerate([(50, 0, 0), (52, 0, 0), (50, 2, 0), (53, 3, 0)]):
        e.append("%d %d %d %d" % ((n + 1 + i,) + p))
    e[0] = str(n + 4)
    return replace(t, "Nodes", e)


def two_groups(m):
    L = ["$MeshFormat", "4.1 0 8", "$EndMeshFormat", "$PhysicalNames", "2", '3 1 "vol"', '3 2 "b"',
         "$EndPhysicalNames", "$Entities", "0 0 0 1"]
    lo, hi = m.nodes.min(axis=0), m.nodes.max(axis=0)
    L += ["1 %g %g %g %g %g %g 2 1 2 0" % (tuple(lo) + tuple(hi)), "$EndEntities", "$Nodes",
          "1 %d 1 %d" % (len(m.nodes), len(m.nodes)), "3 1 0 %d" % len(m.nodes)]
    L += [str(i + 1) for i in range(len(m.nodes))]
    L += ["%.17g %.17g %.17g" % tuple(p) for p in m.nodes]
    L += ["$EndNodes", "$Elements", "1 %d 1 %d" % (len(m.tets), len(m.tets)), "3 1 4 %d" % len(m.tets)]
    L += ["%d %d %d %d %d" % ((k + 1,) + tuple(int(x) + 1 for x in t)) for k, t in enumerate(m.tets)]
    return "\n".join(L + ["$EndElements"]) + "\n"


DAMAGES = ["volume name missing", "surface name missing", "name differs in case",
           "volume named as a surface", "surface named as a volume", "declared but empty volume",
           "declared but empty surface", "no tetrahedron", "degenerate: repeated node",
           "degenerate: flat", "tetrahedron twice", "tetrahedron in both regions",
           "third tetrahedron on a face", "triangle twice, same surface", "triangle twice, two surfaces",
           "triangle inside a region", "triangle of no tetrahedron", "quadrangle", "hexahedron",
           "second-order tetrahedron", "node index out of range",
           "surface only", "not a mesh", "missing file", "empty file", "both physical groups"]


def run(ck):
    ck.rule = ("random valid problems whose mesh is written in different ways, judged against the regions "
               "named in the settings; each kind of damage on random meshes must be refused; distinct = "
               "(way of writing, problem) or kind of damage")
    ck.assumptions = ["meshes of at most a few hundred tetrahedrons, a few nm in size"]
    exe, _ = fgbuild.Variant("plain").feellgood(trace=True)
    jobs = [x for x in fgrun.pmap(lambda i: valid(ck, exe, i), range(900 if ck.thorough else 170)) if x]
    res = fgrun.pmap(lambda x: fgrun.run(exe, x[0].settings, files={"m.msh": x[2]}), jobs)
    for x, r in zip(jobs, res):
        judge_valid(ck, *x, r)
    dj = []
    for w in DAMAGES:
        for k in range(40 if ck.thorough else 6):
            rng = ck.sub_rng(2, DAMAGES.index(w), k)
            d = damaged(rng, w)
            if d:
                dj.append((w, d))

    def go(x):
        w, (m, t, V, S) = x
        st = fgrun.base_settings(outputs={"final_time": 1e-13, "evol_time_step": 1e-13},
                                 initial_magnetization=["0.1", "x", "1"])
        st["mesh"]["volume_regions"] = V
        st["mesh"]["surface_regions"] = S
        return fgrun.run(exe, st, files={"m.msh": t} if t is not None else {}, timeout=60)
    for (w, d), r in zip(dj, fgrun.pmap(go, dj)):
        F = {"m.msh": d[1] or ""}
        ck.ensure(r.rc is not None and r.rc > 0, "accepted:" + w, lambda: "mesh with the defect '%s': %s" % (
            w, fgrun.describe(r)), r, F)
        if r.rc is not None and r.rc > 0:
            ck.ensure(r.err.strip(), "silent:" + w, "mesh with the defect '%s' refused without a message on "
                      "the error stream" % w, r, F)
            ck.ensure(r.evol is None and not r.sols, "results:" + w, "results written for a mesh with the "
                      "defect '%s'" % w, r, F)
        ck.count("damaged meshes")
        ck.case(("damage", w), {"damage": w})
