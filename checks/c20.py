"""C20: what the Python modules and the command-line tools produce, read back by independent readers and
by the solver. Modules that are absent here (meshio, h5py, vtk) are replaced by stand-ins (pystub/)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import numpy as np
import fgbuild
import fgmesh
import fgmsh
import fgrun
import fgscen
import fgspin

PY = sys.executable
DIST = "/usr/lib/python3/dist-packages"
STUB = os.path.join(fgbuild.VERIF, "pystub")

GEN = r'''
import json, sys
from math import *
spec = json.load(sys.stdin)
import feellgood.meshMaker as M
for s in spec:
    c = getattr(M, s["cls"])(*s["args"], **s["kw"])
    for name, pred in s.get("sub", []):
        c.add_sub_surface(name, eval("lambda x, y, z: " + pred))
    if s.get("trans"):
        c.transformNodes(eval("lambda p: " + s["trans"]))
    for name, pred in s.get("sub2", []):
        c.add_sub_surface(name, eval("lambda x, y, z: " + pred))
    c.make(s["file"], *s.get("names", []))
'''


class Box:
    pass


def py(argv, cwd, stdin=None, timeout=300, env=None):
    e = dict(os.environ)
    e["PYTHONPATH"] = os.pathsep.join([os.path.join(cwd, "pkg"), STUB, DIST])
    e["HOME"] = cwd
    e.pop("XDG_CONFIG_HOME", None)
    e.pop("DISPLAY", None)
    e["OMP_NUM_THREADS"] = "1"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.update(env or {})
    r = Box()
    r.argv = [PY] + argv
    try:
        p = subprocess.run(r.argv, cwd=cwd, env=e, input=(stdin or "").encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        r.rc, r.out, r.err = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        r.rc, r.out, r.err = None, "", "timeout"
    return r


def scratch():
    os.makedirs(fgrun.SCRATCH, exist_ok=True)
    d = tempfile.mkdtemp(prefix="py-", dir=fgrun.SCRATCH)
    os.makedirs(os.path.join(d, "pkg"))
    os.symlink(os.path.join(fgbuild.REPO, "python-modules"), os.path.join(d, "pkg", "feellgood"))
    return d


def tool(n):
    return os.path.join(fgbuild.REPO, "tools", n)


# --- meshes ------------------------------------------------------------------------------------
def fl(v):
    return [float(x) for x in v]


def spec(rng, i):
    s = {"kw": {}}
    kind = ["Cuboid", "Hexahedron", "Cuboid", "Cylinder", "Cuboid", "Tube", "Cuboid", "Ellipsoid", "Cuboid",
            "SolidOfRevolution", "Cuboid", "Ico"][i % 12]
    s["cls"] = kind
    sn, vn = [("surf", "vol"), ("outer surface", "my volume"), ("S_1", "V-2")][int(rng.integers(3))]
    L = float(10 ** rng.uniform(-.5, 2.5))
    s["sn"], s["vn"] = sn, vn
    if kind == "Cuboid":
        n = [int(x) for x in rng.integers(1, 5, 3)]
        lo = rng.normal(size=3) * L * float(rng.choice([0, 1, 10]))
        hi = lo + L * rng.uniform(.3, 3, 3)
        s["args"] = [fl(lo), fl(hi)] + n
        s["names"] = [vn, sn]
        s["lo"], s["hi"], s["n"] = lo, hi, n
        s["sub"], s["sub2"] = [], []
        axes = [(a, e) for a in range(3) for e in (0, 1)]
        k = int(rng.integers(0, 4))
        for q in rng.permutation(6)[:k]:
            a, e = axes[q]
            v = hi[a] if e else lo[a]
            s["sub"].append(["sub%d" % q, "abs(%s-(%r)) < %r" % ("xyz"[a], float(v), 1e-6 * L)])
        if rng.random() < .3:
            s["sub"].append(["half", "x < %r" % float(lo[0] + .43 * (hi[0] - lo[0]))])
        s["planes"] = [(nm, pr) for nm, pr in s["sub"]]
        if rng.random() < .35:
            R = fgmesh.random_rotation(rng) * float(rng.uniform(.5, 2))
            t = rng.normal(size=3) * L
            s["trans"] = "[" + ",".join("%r*p[0]+%r*p[1]+%r*p[2]+%r" % (*fl(R[j]), float(t[j])) for j in range(3)) + "]"
            s["R"], s["t"] = R, t
        return s
    if kind == "Ico":
        s["args"], s["names"] = [], [vn, sn]
        return s
    part = bool(rng.random() < .6) and kind in ("Cylinder", "Tube", "SolidOfRevolution")
    s["part"] = part
    if kind == "Hexahedron":
        lo = rng.normal(size=3) * L
        hi = lo + L * rng.uniform(.5, 2, 3)
        s["args"] = [fl(lo), fl(hi), float((hi - lo).min() * rng.uniform(.3, .8)), sn, vn]
        s["lo"], s["hi"] = lo, hi
    elif kind == "Cylinder":
        r, t = L, L * float(rng.uniform(.4, 4))
        s["args"] = [r, t, min(r, t) * float(rng.uniform(.25, .6)), sn, vn]
    elif kind == "Tube":
        r1 = L * float(rng.uniform(.3, .8))
        t = L * float(rng.uniform(.3, 2))
        s["args"] = [r1, L, t, min(L - r1, t, r1) * float(rng.uniform(.4, .9)), sn, vn]
    elif kind == "Ellipsoid":
        r2 = L * float(rng.uniform(.4, 2.5))
        s["args"] = [L, r2, min(L, r2) * float(rng.uniform(.25, .6)), sn, vn]
    else:
        n = int(rng.integers(2, 5))
        z = np.cumsum(rng.uniform(.4, 1.2, n)) * L - L
        r = L * rng.uniform(.4, 1.2, n)
        s["args"] = [[[float(a), float(b)] for a, b in zip(r, z)], L * float(rng.uniform(.2, .4)), sn, vn]
    if part:
        s["kw"]["partitionSurface"] = True
    if rng.random() < .4:
        s["kw"]["fileFormat"] = 2.2
    return s


def expect(s):
    """exact volume, bounding box, {surface: predicate on points -> distance to where they should be},
    largest curvature"""
    k, a = s["cls"], s["args"]
    rho = lambda p: np.hypot(p[:, 0], p[:, 1])  # noqa: E731
    sn = s["sn"]
    if k in ("Cuboid", "Hexahedron"):
        lo, hi = s["lo"], s["hi"]
        return float(np.prod(hi - lo)), lo, hi, {sn: lambda p: np.minimum(np.abs(p - lo), np.abs(p - hi)).min(axis=1)}, 0
    if k == "Ico":
        phi = (1 + 5 ** .5) / 2
        return 5 * (3 + 5 ** .5) / 12 * 8, -phi * np.ones(3), phi * np.ones(3), {sn: lambda p: np.abs(
            np.linalg.norm(p, axis=1) - np.hypot(phi, 1))}, 0
    if k == "Cylinder":
        r, t = a[:2]
        side = lambda p: np.abs(rho(p) - r)  # noqa: E731
        bot, top = (lambda p: np.abs(p[:, 2] + t / 2)), (lambda p: np.abs(p[:, 2] - t / 2))
        S = {sn + "_side": side, sn + "_bottom": bot, sn + "_top": top} if s["part"] else {
            sn: lambda p: np.minimum(side(p), np.minimum(bot(p), top(p)))}
        return np.pi * r * r * t, np.array([-r, -r, -t / 2]), np.array([r, r, t / 2]), S, 1 / r
    if k == "Tube":
        r1, r2, t = a[:3]
        inn, out = (lambda p: np.abs(rho(p) - r1)), (lambda p: np.abs(rho(p) - r2))
        bot, top = (lambda p: np.abs(p[:, 2] + t / 2)), (lambda p: np.abs(p[:, 2] - t / 2))
        S = {sn + "_inner": inn, sn + "_outer": out, sn + "_bottom": bot, sn + "_top": top} if s["part"] else {
            sn: lambda p: np.min([f(p) for f in (inn, out, bot, top)], axis=0)}
        return np.pi * (r2 * r2 - r1 * r1) * t, np.array([-r2, -r2, -t / 2]), np.array([r2, r2, t / 2]), S, 1 / r1
    if k == "Ellipsoid":
        r1, r2 = a[:2]
        f = lambda p: np.abs(np.sqrt(rho(p) ** 2 / r1 ** 2 + p[:, 2] ** 2 / r2 ** 2) - 1) * min(r1, r2)  # noqa
        return 4 / 3 * np.pi * r1 * r1 * r2, np.array([-r1, -r1, -r2]), np.array([r1, r1, r2]), {sn: f}, max(
            r1 / r2 ** 2, r2 / r1 ** 2, 1 / r1, 1 / r2)
    P = np.array(a[0])
    r, z = P.T
    V = sum(np.pi * (z[i + 1] - z[i]) * (r[i] ** 2 + r[i] * r[i + 1] + r[i + 1] ** 2) / 3 for i in range(len(r) - 1))
    side = lambda p: np.abs(rho(p) - np.interp(p[:, 2], z, r))  # noqa
    bot, top = (lambda p: np.abs(p[:, 2] - z[0])), (lambda p: np.abs(p[:, 2] - z[-1]))
    S = {sn + "_side": side, sn + "_bottom": bot, sn + "_top": top} if s["part"] else {
        sn: lambda p: np.min([f(p) for f in (side, bot, top)], axis=0)}
    return V, np.array([-r.max(), -r.max(), z[0]]), np.array([r.max(), r.max(), z[-1]]), S, 1 / r.min()


def judge_mesh(ck, s, path, out):
    what = "%s%s %s" % (s["cls"], s["args"], s["kw"])
    try:
        m, info = fgmsh.read(path)
    except (ValueError, KeyError, OSError, StopIteration, IndexError) as e:
        ck.fail("mesh-file", "%s: the file is not a mesh: %r" % (what, e))
        return None
    F = {"m.msh": m}
    bad = lambda key, msg: ck.fail(key, what + ": " + msg, None, F)  # noqa: E731
    V, lo, hi, S, kappa = expect(s)
    size = float((hi - lo).max())
    p = m.nodes
    if s.get("trans"):
        p = (p - s["t"]) @ np.linalg.inv(s["R"]).T
        m = m.copy()
        m.nodes = p
    if "fileFormat" in s["kw"] and not info["format"].startswith(str(s["kw"]["fileFormat"])):
        bad("format", "format %s" % info["format"])
    if set(m.treg) != {s["vn"]}:
        bad("names", "volume regions %s instead of %s" % (set(m.treg), s["vn"]))
        return None
    v = m.volumes()
    if v.min() <= 1e-9 * size ** 3 / len(v) * 1e-3:
        bad("flat", "flat tetrahedron, volume %g" % v.min())
    faces = m.faces()
    cnt = np.array([len(x) for x in faces.values()])
    if cnt.max() > 2:
        bad("conform", "a face belongs to %d tetrahedrons" % cnt.max())
    outer = {f for f, t in faces.items() if len(t) == 1}
    tri = [tuple(sorted(int(x) for x in t)) for t in m.tris]
    if len(set(tri)) != len(tri):
        bad("twice", "%d triangles given twice" % (len(tri) - len(set(tri))))
    if set(tri) != outer:
        bad("surface", "%d outer faces are missing and %d triangles are not outer faces" % (
            len(outer - set(tri)), len(set(tri) - outer)))
    used = set(m.tets.ravel())
    orphan = len(p) - len(used)
    q = p[sorted(used)]
    curved = kappa > 0
    # sagitta of the largest surface triangle
    e = np.array([np.linalg.norm(p[t[a]] - p[t[b]]) for t in tri for a, b in ((0, 1), (1, 2), (0, 2))])
    h = e.max() if len(e) else 0
    sag = kappa * h * h / 8 * 1.5
    area = sum(np.linalg.norm(np.cross(p[t[1]] - p[t[0]], p[t[2]] - p[t[0]])) / 2 for t in tri)
    tolV = 1e-9 * V + (area * sag if curved else 0)
    ck.maximum("volume error / allowed, curved" if curved else "volume error (relative), flat",
               abs(v.sum() - V) / (tolV if curved else V))
    if abs(v.sum() - V) > tolV:
        bad("volume", "volume %.12g, the shape's is %.12g" % (v.sum(), V))
    tol = 1e-6 * size
    tolb = tol + (sag * 2 if curved else 0)
    if (q.min(axis=0) < lo - tol).any() or (q.max(axis=0) > hi + tol).any() or \
            (q.min(axis=0) > lo + tolb).any() or (q.max(axis=0) < hi - tolb).any():
        bad("extent", "extends from %s to %s instead of %s to %s" % (q.min(axis=0), q.max(axis=0), lo, hi))
    # surface regions
    want = {n for n in S}
    if s["cls"] == "Cuboid":
        left = [tuple(t) for t in m.tris]
        reg = list(m.freg)
        exp = []
        for t in left:
            lab = s["sn"]
            for nm, pr in s["planes"]:
                if all(eval(pr, {"abs": abs, "x": p[i][0], "y": p[i][1], "z": p[i][2]}) for i in t):
                    lab = nm
                    break
            exp.append(lab)
        wrong = [(a, b) for a, b in zip(reg, exp) if a != b]
        # a triangle very near a limit after a transformation is not judged
        if wrong:
            bad("sub-surface", "%d triangles in the wrong surface region, e.g. %s instead of %s" % (
                len(wrong), wrong[0][0], wrong[0][1]))
        for nm in {x for x, _ in s["planes"]} | {s["sn"]}:
            if (2, nm) not in info["names"]:
                bad("names", "surface region %s is not declared: %s" % (nm, info["names"]))
    else:
        if set(m.freg) != want:
            bad("names", "surface regions %s instead of %s" % (set(m.freg), want))
        for nm in want & set(m.freg):
            idx = sorted({i for t, r in zip(m.tris, m.freg) if r == nm for i in t})
            d = S[nm](p[idx]).max()
            ck.maximum("distance of surface nodes to their surface (relative)", d / size)
            if d > 1e-5 * size + (0 if s["cls"] != "SolidOfRevolution" else sag):
                bad("position", "nodes of %s are %.3g away from it" % (nm, d))
        # the parts are disjoint pieces of the outside: areas
        if s.get("part"):
            A = {nm: sum(np.linalg.norm(np.cross(p[t[1]] - p[t[0]], p[t[2]] - p[t[0]])) / 2
                         for t, r in zip(m.tris, m.freg) if r == nm) for nm in want}
            R = {"Cylinder": lambda: (s["args"][0], 0, s["args"][0]), "Tube": lambda: (s["args"][1], s["args"][0], s["args"][1]),
                 "SolidOfRevolution": lambda: (s["args"][0][0][0], 0, s["args"][0][-1][0])}[s["cls"]]()
            for nm, rr in ((s["sn"] + "_bottom", R[0]), (s["sn"] + "_top", R[2])):
                ex = np.pi * (rr ** 2 - R[1] ** 2)
                if abs(A[nm] - ex) > 2 * np.pi * (rr + R[1]) * sag + 1e-9 * ex:
                    bad("area", "area of %s is %.6g, expected %.6g" % (nm, A[nm], ex))
    g = re.search(r"Generated (.*): (\d+) nodes, (\d+) tetrahedra(?:, (\d+) triangles)?", out)
    if g:
        ck.ensure(int(g.group(3)) == len(m.tets) and int(g.group(2)) == len(used) and
                  (g.group(4) is None or int(g.group(4)) == len(m.tris)), "summary", lambda:
                  "%s: printed %r; the file has %d nodes of tetrahedrons, %d tetrahedrons, %d triangles" % (
                      what, g.group(0), len(used), len(m.tets), len(m.tris)))
    ck.count("meshes checked")
    ck.count("tetrahedrons checked", len(m.tets))
    ck.count("orphan nodes", orphan)
    ck.case(("mesh", s["cls"], s.get("part"), str(s["kw"]), len(m.tets)), {"class": s["cls"], "tetrahedrons": len(m.tets)})
    return m


def do_mesh(ck, exe, i):
    rng = ck.sub_rng(1, i)
    s = spec(rng, i)
    d = scratch()
    try:
        s["file"] = "out.msh"
        js = {k: s[k] for k in ("cls", "args", "kw", "sub", "sub2", "trans", "file", "names") if k in s and s[k] is not None}
        r = py(["-c", GEN], d, json.dumps([js]))
        path = os.path.join(d, "out.msh")
        if r.rc != 0 or not os.path.exists(path):
            ck.fail("generation", "%s %s: status %s, %s" % (s["cls"], s["args"], r.rc, r.err[-400:]), r)
            return
        m = judge_mesh(ck, s, path, r.out)
        if m is None:
            return
        surfs = sorted(set(m.freg))
        st = fgrun.base_settings(outputs={"evol_time_step": 1e-13, "final_time": 1e-13},
                                 mesh={"length_unit": 1e-9, "surface_regions": {x: {} for x in surfs}})
        st["mesh"]["volume_regions"] = {s["vn"]: {}}
        x = fgrun.run(exe, st, {"m.msh": path})
        ck.ensure(x.rc == 0 or "ABORTED" in x.out, "accepted", lambda: "%s %s: the solver ended with %s: %s" % (
            s["cls"], s["args"], fgrun.describe(x), x.err[-300:]), x, {"m.msh": open(path).read()})
        if x.rc == 0:
            ck.count("generated meshes simulated")
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --- settings ----------------------------------------------------------------------------------
def do_settings(ck, exe, i):
    rng = ck.sub_rng(2, i)
    s = fgscen.make(rng, steps=1, tau=1e-13)
    st = s.settings
    ops = []
    for k in ("outputs", "finite_element_solver", "demagnetizing_field_solver", "time_integration"):
        for a, b in st.get(k, {}).items():
            ops.append("s[%r][%r] = %r" % (k, a, b))
    for k in ("initial_magnetization", "Bext"):
        ops.append("s[%r] = %r" % (k, st[k]))
    ops.append("s['mesh']['length_unit'] = %r" % st["mesh"]["length_unit"])
    for kind, fn in (("volume_regions", "createVolRegion"), ("surface_regions", "createSurfRegion")):
        for r, v in st["mesh"].get(kind, {}).items():
            if rng.random() < .5:
                ops.append("s.%s(%r).update(%r)" % (fn, r, v))
            else:
                ops.append("s.%s(%r)" % (fn, r))
                for a, b in v.items():
                    ops.append("s['mesh'][%r][%r][%r] = %r" % (kind, r, a, b))
                if rng.random() < .5:
                    ops.append("s.%s(%r)" % (fn, r))   # a second time: nothing lost
    rec = None
    if rng.random() < .6:
        rec = {"enable": True, "direction": str(rng.choice(["X", "Y", "Z"])), "threshold": float(rng.uniform(.01, .4))}
        ops.append("s.recentering(%r, %r)" % (rec["direction"], rec["threshold"]))
    d = scratch()
    try:
        code = ("from feellgood.settingsMaker import Settings\nnan = float('nan')\ns = Settings('m.msh')\n"
                + "\n".join(ops) + "\ns.write('set.json')\n")
        r = py(["-c", code], d)
        if not ck.ensure(r.rc == 0, "settings", lambda: "settingsMaker failed: " + r.err[-400:], r):
            return
        got = json.load(open(os.path.join(d, "set.json")))
        want = json.loads(json.dumps(st))
        if rec:
            want["recentering"] = rec
        for k in ("finite_element_solver", "surface_regions"):
            (want if k != "surface_regions" else want["mesh"]).setdefault(k, {})
        ck.ensure(got == want, "settings", lambda: "written settings differ from those given: %s" % sorted(
            k for k in set(got) | set(want) if got.get(k) != want.get(k)), r)
        s.mesh.write(os.path.join(d, "m.msh"))
        with open(os.path.join(d, "ref.yml"), "w") as f:
            json.dump(want, f)
        o = []
        for n in ("set.json", "ref.yml"):
            p = subprocess.run([exe, "--verify", n], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=dict(os.environ, HOME=d), timeout=60)
            o.append((p.returncode, p.stdout))
        ck.ensure(o[0] == o[1] and o[0][0] == 0, "settings-effect", lambda: "--verify of the written settings: status %s, "
                  "of the same settings written by hand: %s" % (o[0][0], o[1][0]), r)
        ck.count("settings files checked")
        ck.case(("settings", len(ops) // 8, bool(rec)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --- fg-gensol ---------------------------------------------------------------------------------
def do_gensol(ck, exe, i):
    rng = ck.sub_rng(3, i)
    s = fgscen.make(rng, steps=0, tau=1e-13, nonmag=False, field="zero", aniso="none", surfaces=int(rng.integers(0, 3)))
    if i % 3 == 1:
        odd = {n: q for n, q in zip(s.names, ["l'eau", "a b", "x\u00e9"])}
        s.mesh.treg = [odd[r] for r in s.mesh.treg]
        s.names = [odd[n] for n in s.names]
    m = s.mesh
    d = scratch()
    try:
        m.write(os.path.join(d, "m.msh"))
        r = py([tool("fg-gensol"), "m.msh"], d)
        cfg = os.path.join(d, "init_cfg.py")
        if not ck.ensure(r.rc == 0 and os.path.exists(cfg), "gensol-template", lambda:
                         "fg-gensol without init_cfg.py: status %s, %s" % (r.rc, r.err[-300:]), r):
            return
        g = {}
        try:
            exec(open(cfg, encoding="utf-8").read(), g)
            fn = g["define_region_functions"]()
            ok = set(fn) == set(s.names) and all(list(f(1.0, 2.0, 3.0)) == [0, 0, 1] for f in fn.values())
        except Exception as e:
            ok, fn = False, repr(e)
        ck.ensure(ok, "gensol-template", lambda: "the generated init_cfg.py does not define the regions %s: %s" % (s.names, fn))
        L = float(np.ptp(m.nodes, axis=0).max())
        T = {n: (rng.normal(size=3), rng.normal(size=3) / L) for n in s.names}
        c = m.nodes.mean(axis=0)
        amp = {n: float(rng.choice([1, 1e-3, 500])) for n in s.names}
        with open(cfg, "w", encoding="utf-8") as f:
            f.write("def define_region_functions():\n    return {\n")
            for n, (a, k) in T.items():
                e = ["%r*(%r+0.4*(%s-(%r))*(%r))" % (amp[n], float(a[j]), "yzx"[j], float(c[(j + 1) % 3]), float(k[j])) for j in range(3)]
                f.write("        %r: lambda x, y, z: [%s],\n" % (n, ", ".join(e)))
            f.write("    }\n")

        def val(n, p):
            a, k = T[n]
            v = np.stack([a[j] + .4 * (p[:, (j + 1) % 3] - c[(j + 1) % 3]) * k[j] for j in range(3)], 1)
            return v / np.linalg.norm(v, axis=1)[:, None]

        r = py([tool("fg-gensol"), "m.msh"], d)
        sol = os.path.join(d, "sol.in")
        if not ck.ensure(r.rc == 0 and os.path.exists(sol), "gensol", lambda: "fg-gensol: status %s, %s %s" % (
                r.rc, r.out[-200:], r.err[-300:]), r):
            return
        meta, cols, a = fgrun.parse_table(sol)
        F = {"m.msh": m, "sol.in": open(sol).read(), "init_cfg.py": open(cfg).read()}
        if not ck.ensure(a.shape == (len(m.nodes), 5) and (a[:, 0] == np.arange(len(m.nodes))).all() and
                         fgrun.sol_time(meta) == 0 and cols[:4] == ["idx", "mx", "my", "mz"], "gensol-lines", lambda:
                         "sol.in: %s rows for %d nodes, columns %s" % (a.shape, len(m.nodes), cols), r, F):
            return
        regs = [set() for _ in m.nodes]
        for t, q in zip(m.tets, m.treg):
            for k in t:
                regs[k].add(q)
        V = {n: val(n, m.nodes) for n in s.names}
        worst = 0
        for k in range(len(m.nodes)):
            worst = max(worst, min(np.abs(a[k, 1:4] - V[n][k]).max() for n in regs[k]))
        ck.maximum("fg-gensol deviation", worst)
        ck.ensure(worst < 3e-7, "gensol-values", lambda: "sol.in: a magnetization is %.3g away from the function of "
                  "each of its node's regions" % worst, r, F)
        st = json.loads(json.dumps(s.settings))
        st["initial_magnetization"] = "sol.in"
        st["mesh"]["volume_regions"] = {n: {} for n in s.names}
        st["outputs"]["final_time"] = 0
        x = fgrun.run(exe, st, {"m.msh": m, "sol.in": sol})
        it0 = [v for n, v in x.sols.items() if n.endswith("iter0.sol")]
        if ck.ensure(x.rc == 0 and len(it0) == 1, "gensol-accepted", lambda: "the solver refused sol.in: %s %s" % (
                fgrun.describe(x), x.err[-300:]), x, F):
            dv = np.abs(it0[0][2][:, 1:4] - a[:, 1:4]).max()
            ck.ensure(dv < 3e-7, "gensol-accepted", lambda: "the solver's initial state is %.3g away from sol.in" % dv, x, F)
        ck.count("generated configurations checked")
        ck.case(("gensol", len(s.names), i % 3, len(m.nodes)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --- fg-merge-sol, fg-sol2vtk, fg-sol2hdf5, fg-h5extract -----------------------------------------
def same(a, b):
    return a.shape == b.shape and ((a == b) | (np.isnan(a) & np.isnan(b))).all()


def near(a, b):
    """positions: a mesh rewritten by gmsh has 16 digits"""
    return a.shape == b.shape and np.abs(a - b).max() <= 1e-14 * np.abs(b).max()


def do_convert(ck, exe, i):
    rng = ck.sub_rng(4, i)
    if i % 3 == 2:
        s = fgspin.make(rng, steps=2, tau=1e-13, hst=2e4)
        s.settings.setdefault("spin_accumulation", {})
    else:
        s = fgscen.make(rng, steps=2, tau=1e-13, nonmag=bool(i % 2), nreg=2 if i % 2 else None)
    d = scratch()
    try:
        base = ["run", "my_run", "r-2"][int(rng.integers(3))]
        s.settings["outputs"]["file_basename"] = base
        if rng.random() < .3:
            s.settings["outputs"]["final_time"] = 0.0    # a single row
        r = fgrun.run(exe, s.settings, {"m.msh": s.mesh}, workdir=d)
        if "ABORTED" in r.out:
            ck.count("runs given up by the linear solver")
            return
        if not ck.ensure(r.rc == 0 and r.evol is not None and r.sols, "run", lambda: "the run failed: " + r.err[-200:], r):
            return
        m = s.mesh
        F = {"m.msh": m}
        msh = "m.msh"
        if i % 2 == 0:
            p = subprocess.run(["gmsh", "m.msh", "-save", "-format", "msh41", "-o", "m41.msh"], cwd=d,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, HOME=d))
            if p.returncode == 0 and os.path.exists(os.path.join(d, "m41.msh")):
                msh = "m41.msh"
        for n in sorted(r.sols):
            meta, cols, a = r.sols[n]
            raw = open(os.path.join(d, n)).read()
            # merge
            if rng.random() < .5:
                q = py([tool("fg-merge-sol"), msh, n, "-o", "o.tsv"], d)
                try:
                    txt = open(os.path.join(d, "o.tsv")).read()
                except OSError:
                    txt = ""
            else:
                q = py([tool("fg-merge-sol"), msh, n], d)
                txt = q.out
            rows = [l for l in txt.split("\n") if l and not l.startswith("#")]
            hdr = [l for l in txt.split("\n") if l.startswith("#")]
            if ck.ensure(q.rc == 0 and rows, "merge", lambda: "fg-merge-sol %s: status %s %s" % (n, q.rc, q.err[-300:]), q, F):
                try:
                    o = np.array([[float(x) for x in l.split("\t")] for l in rows])
                except ValueError:
                    o = np.zeros((0, 0))
                want = np.hstack([m.nodes, a[:, 1:]])
                ck.ensure(o.shape == want.shape and near(o[:, :3], want[:, :3]) and same(o[:, 3:], want[:, 3:]), "merge-values", lambda: "fg-merge-sol %s: table of shape %s differs from "
                          "positions and values of the nodes (%s)" % (n, o.shape, want.shape), q, F)
                inh = [l for l in raw.split("\n") if l.startswith("#")]
                wh = [("## columns: x\ty\tz\t" + "\t".join(cols[1:])) if l.startswith("## columns:") else l for l in inh]
                ck.ensure([x.rstrip() for x in hdr] == [x.rstrip() for x in wh], "merge-header", lambda:
                          "fg-merge-sol %s: header %s" % (n, hdr), q, F)
                ck.count("merged files checked")
            # vtk
            nc = a.shape[1]
            if nc >= 4 or rng.random() < .5:
                idx = [1, 2, 3] if nc >= 4 and rng.random() < .6 else sorted(
                    int(x) for x in rng.choice(np.arange(1, nc), int(rng.integers(1, nc)), False))
                args = [] if idx == [1, 2, 3] and rng.random() < .7 else [str(x) for x in idx]
                opt = ["-o", "vt"] if rng.random() < .5 else []
                q = py([tool("fg-sol2vtk")] + opt + ["--name", "mag", msh, n] + args, d)
                vt = os.path.join(d, "vt.vtu" if opt else n[:-4] + ".vtu")
                if ck.ensure(q.rc == 0 and os.path.exists(vt), "vtk", lambda: "fg-sol2vtk %s: status %s %s" % (
                        n, q.rc, q.err[-300:]), q, F):
                    j = json.load(open(vt))
                    os.unlink(vt)
                    ck.ensure(near(np.array(j["points"]), m.nodes), "vtk-points", "fg-sol2vtk: points differ from the mesh", q, F)
                    ck.ensure(sorted(tuple(sorted(c)) for c in j["cells"]) == sorted(tuple(sorted(int(x) for x in t)) for t in m.tets),
                              "vtk-cells", "fg-sol2vtk: cells differ from the tetrahedrons", q, F)
                    ck.ensure(same(np.array(j["data"]), a[:, idx]), "vtk-data", lambda: "fg-sol2vtk %s: data differ from "
                              "columns %s" % (n, idx), q, F)
                    ck.count("vtk files checked")
        # hdf5, there and back
        shutil.copyfile(os.path.join(d, "settings.yml"), os.path.join(d, "set.yml"))
        sols = sorted(r.sols)
        args = sols if rng.random() < .5 else []
        app = ["-a", "grp"] if rng.random() < .4 else []
        grp = "grp" if app else "results"
        # the group's name must not swallow the output's name
        q = py([tool("fg-sol2hdf5")] + app + ["o.h5", "set.yml"] + args, d)
        if ck.ensure(q.rc == 0, "hdf5", lambda: "fg-sol2hdf5 %s: status %s %s" % (sols, q.rc, q.err[-400:]), q, F):
            q = py([tool("fg-h5extract"), "o.h5", "-g", grp, "-b", "back"], d)
            if ck.ensure(q.rc == 0, "hdf5", lambda: "fg-h5extract: status %s %s" % (q.rc, q.err[-400:]), q, F):
                for a, b in (("back.msh", "m.msh"), ("back.yml", "set.yml")):
                    ck.ensure(open(os.path.join(d, a)).read() == open(os.path.join(d, b)).read(), "hdf5-text", lambda:
                              "%s extracted from the hdf5 file differs" % a, q, F)
                try:
                    em, ec, ea = fgrun.parse_table(os.path.join(d, "back.evol"))
                    ck.ensure(same(ea, r.evol) and ec == r.cols, "hdf5-evol", lambda: "extracted .evol: shape %s, columns %s; "
                              "original %s, %s" % (ea.shape, ec, r.evol.shape, r.cols), q, F)
                except (ValueError, OSError) as e:
                    ck.fail("hdf5-evol", "extracted .evol: %r" % e, q, F)
                for n in sols:
                    k = "back" + "solFile" + n[n.find("_"):-4] + ".sol"
                    try:
                        sm, sc, sa = fgrun.parse_table(os.path.join(d, k))
                        meta, cols, a = r.sols[n]
                        ck.ensure(same(sa, a) and sc == cols and (fgrun.sol_time(sm) or 0) == (fgrun.sol_time(meta) or 0), "hdf5-sol", lambda:
                                  "%s extracted from the hdf5 file: shape %s, columns %s, time %s; original %s, %s, %s" % (
                                      n, sa.shape, sc, fgrun.sol_time(sm), a.shape, cols, fgrun.sol_time(meta)), q, F)
                    except (ValueError, OSError) as e:
                        ck.fail("hdf5-sol", "extracted %s: %r" % (k, e), q, F)
                ck.count("hdf5 round trips")
        ck.case(("convert", i % 3, base, len(sols), len(m.nodes)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --- fg-configurator ----------------------------------------------------------------------------
def do_config(ck, exe, i):
    rng = ck.sub_rng(5, i)
    d = scratch()
    try:
        pool = ["Jane Doe", "O'Neil: \"x\" #1", "\u00c9l\u00e9onore", "- a", "{b}", "yes", "12", "null", "a\\nb", "x: y", "", "@me", "%d", "[1, 2]"]
        au, af = (str(rng.choice(pool)) for _ in range(2))
        li = str(rng.choice(["0", "1", "2", "7", "-1", "x"]))
        xdg = {"XDG_CONFIG_HOME": os.path.join(d, "deep", "er")} if rng.random() < .5 else {}
        q = py([tool("fg-configurator")] + (["-v"] if rng.random() < .5 else []), d, "%s\n%s\n%s\n" % (au, af, li), env=xdg)
        path = os.path.join(xdg.get("XDG_CONFIG_HOME", os.path.join(d, ".config")), "feellgood", "default.yml")
        if not ck.ensure(q.rc == 0 and os.path.exists(path), "configurator", lambda: "fg-configurator: status %s %s" % (q.rc, q.err[-300:]), q):
            return
        st = fgrun.base_settings(outputs={"final_time": 0})
        env = dict(xdg)
        w = os.path.join(d, "w")
        os.makedirs(w)
        env["HOME"] = d
        r = fgrun.run(exe, st, {"m.msh": fgmesh.box((1, 1, 1), (5, 5, 5))}, workdir=w, env=env)
        lic = ["None", "CC BY", "CC BY-SA"][int(li)] if li in "012" else "None"
        want = {"Author": au, "Affiliation": af, "Licence": "" if lic == "None" else lic}
        if ck.ensure(r.rc == 0 and r.evol_meta, "configurator", lambda: "the solver refused the defaults written for "
                     "%r: %s %s" % (want, fgrun.describe(r), r.err[-300:]), r, {"default.yml": open(path).read()}):
            for k, v in want.items():
                got = [l.split(":", 1)[1].strip() for l in r.evol_meta if re.match(r"##? *%s:" % k, l)]
                ck.ensure(got == ([v] if v else []), "configurator-values", lambda: "%s given as %r appears in the outputs as %r" % (k, v, got), r,
                          {"default.yml": open(path).read()})
            ck.count("configurator runs checked")
        ck.case(("config", au, li))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ck):
    ck.rule = ("one evaluation = one generated mesh, settings file, configuration or converted file set, read back "
               "independently; distinct = by kind, options and size")
    ck.assumptions = ["meshio, h5py and vtk are absent: stand-ins with the part of their interface the tools use",
                      "gmsh is trusted to mesh the geometry it is given", "windows of fg-3D, fg-plot, PyQt not exercised"]
    exe = fgbuild.Variant("plain").feellgood()[0]
    f = 5 if ck.thorough else 1
    jobs = [(do_mesh, i) for i in range(48 * f)] + [(do_settings, i) for i in range(6 * f)] + \
        [(do_gensol, i) for i in range(9 * f)] + [(do_convert, i) for i in range(9 * f)] + [(do_config, i) for i in range(8 * f)]
    errs = []

    def one(j):
        try:
            j[0](ck, exe, j[1])
        except Exception as e:  # noqa
            import traceback
            errs.append((j, e, traceback.format_exc()))

    fgrun.pmap(one, jobs)
    if errs:
        print(errs[0][2])
        raise errs[0][1]
