"""C08: the same physical problem written down in different ways: results have to agree."""
import copy
import json
import os
import shutil
import subprocess
import tempfile
import numpy as np
import yaml
import fgbuild
import fgmesh
import fgrun
import fgscen
import fgspin

VEC = [("<Mx>", "<My>", "<Mz>"), ("<dMx/dt>", "<dMy/dt>", "<dMz/dt>"), ("Hx", "Hy", "Hz")]
ALIGNED = ("Thiele_length",)   # defined along z


def fl(v):
    return [float(x) for x in v]


def as_function(spec, var):
    """JS function text of a vector given as three expressions or numbers or as a function"""
    if isinstance(spec, str):
        return "(%s)" % spec
    return "(function(%s) { return [%s]; })" % (var, ", ".join("(%s)" % (x if isinstance(x, str) else repr(x))
                                                               for x in spec))


def js_num(a):
    return "[%s]" % ", ".join(repr(float(x)) for x in np.ravel(a))


def moved_js(spec, var, A, R, shift, space):
    """the function A f(R^T (p - shift)) of a position, or A f(t) of the time"""
    f = as_function(spec, var)
    out = "var v = f(%s); return [" + ", ".join(
        "%r*v[0]+(%r)*v[1]+(%r)*v[2]" % tuple(fl(A[i])) for i in range(3)) + "]; }"
    if not space:
        return "function(t) { var f = %s; " % f + out % "t"
    q = ["%r*(x-(%r))+(%r)*(y-(%r))+(%r)*(z-(%r))" % (R[0][i], shift[0], R[1][i], shift[1], R[2][i], shift[2])
         for i in range(3)]
    return "function(x,y,z) { var f = %s; " % f + out % ", ".join(q)


class Alt:
    """another writing of a problem: mesh or mesh file, settings, map of the node numbers, matrix that
    turns the vectors"""
    def __init__(self, kind, s):
        self.kind = kind
        self.mesh, self.settings = s.mesh, copy.deepcopy(s.settings)
        self.perm = np.arange(len(s.mesh.nodes))
        self.A = np.eye(3)
        self.text = None
        self.fmt = None
        self.args = ()
        self.rotated = False
        self.R = np.eye(3)

    @property
    def turned(self):
        return not np.allclose(self.R, np.eye(3))


def rigid(alt, s, R, shift):
    """move the sample: positions p -> R p + shift (metres); magnetization and fields, which are axial,
    are multiplied by A = det(R) R"""
    alt.R = R = np.asarray(R, float)
    A = alt.A = R * np.linalg.det(R)
    m = s.mesh.copy()
    m.nodes = m.nodes @ R.T + np.asarray(shift) / s.unit
    alt.mesh = m
    st = alt.settings
    for v in st["mesh"]["volume_regions"].values():
        for k in ("uk", "ex", "ey", "ez"):
            if k in v:
                v[k] = fl(A @ np.array(v[k]))
    for v in st["mesh"]["surface_regions"].values():
        for k in ("uk", "uP", "s"):
            if k in v:
                v[k] = fl(A @ np.array(v[k]))
    R, sh = R.tolist(), fl(shift)
    st["initial_magnetization"] = moved_js(st["initial_magnetization"], "x,y,z", A, R, sh, True)
    b = st["Bext"]
    if isinstance(b, dict):
        b["space"] = moved_js(b["space"], "x,y,z", A, R, sh, True)
    else:
        st["Bext"] = moved_js(b, "t", A, R, sh, False)
    return alt


def shuffled(x, rng):
    if isinstance(x, dict):
        k = list(x)
        rng.shuffle(k)
        return {q: shuffled(x[q], rng) for q in k}
    return x


def renumber(alt, rng):
    alt.mesh, p = alt.mesh.renumbered(rng)
    alt.perm = p[alt.perm]


def rename(alt, rng):
    """other region names, order of appearance and numbers"""
    st = alt.settings["mesh"]
    new = {}
    for sec in ("volume_regions", "surface_regions"):
        d = st[sec]
        keys = list(d)
        rng.shuffle(keys)
        for j, k in enumerate(keys):
            new[(sec, k)] = "%s%d%s" % (rng.choice(["a", "zz_", "R-", "0", "n 1 "]), j,
                                        "" if sec[0] == "v" else "s")
        st[sec] = {new[(sec, k)]: d[k] for k in keys}
    m = alt.mesh.copy()
    m.treg = [new.get(("volume_regions", r), r) for r in m.treg]
    m.freg = [new.get(("surface_regions", r), r) for r in m.freg]
    alt.mesh = m


def split(alt, rng):
    """one region described as two regions of the same material"""
    st = alt.settings["mesh"]["volume_regions"]
    r = str(rng.choice(list(st)))
    idx = [i for i, x in enumerate(alt.mesh.treg) if x == r]
    if len(idx) < 2:
        return False
    m = alt.mesh.copy()
    for i in rng.permutation(idx)[:int(rng.integers(1, len(idx)))]:
        m.treg[i] = "other part"
    st["other part"] = copy.deepcopy(st[r])
    if rng.random() < .5:
        alt.settings["mesh"]["volume_regions"] = dict(reversed(list(st.items())))
    alt.mesh = m
    return True


KINDS = ["renumber", "rename", "split", "format", "unit", "shift", "seed", "rotate", "axes", "mirror", "keys",
         "rotate", "all", "threads"]


def alternatives(ck, s, i):
    rng = ck.sub_rng(2, i)
    out = []
    for k in range(4):
        kind = KINDS[(4 * i + k) % len(KINDS)]
        a = Alt(kind, s)
        L = float(np.ptp(s.mesh.nodes * s.unit, axis=0).max())
        if kind == "renumber":
            renumber(a, rng)
        elif kind == "rename":
            rename(a, rng)
        elif kind == "split":
            if not split(a, rng):
                continue
        elif kind == "format":
            a.fmt = [("msh40", False), ("msh41", False), ("msh41", True)][(4 * i + k) // len(KINDS) % 3]
        elif kind == "unit":
            f = float(rng.choice([1e3, 1e-3, 0.1, 2.0 ** -7, 254.0]))
            a.mesh = s.mesh.copy()
            a.mesh.nodes = a.mesh.nodes / f
            a.settings["mesh"]["length_unit"] = s.unit * f
        elif kind == "shift":
            rigid(a, s, np.eye(3), rng.normal(size=3) * L * float(rng.choice([.3, 3, 30])))
        elif kind == "seed":
            a.args = ("--seed", str(int(rng.integers(1 << 31))))
        elif kind == "rotate":
            rigid(a, s, fgmesh.random_rotation(rng), np.zeros(3))
            a.rotated = True
        elif kind == "axes":
            P = np.eye(3)[[[1, 2, 0], [2, 0, 1]][int(rng.integers(2))]]
            rigid(a, s, P, np.zeros(3))
            a.rotated = True
        elif kind == "mirror":
            R = np.diag([[-1, 1, 1], [1, -1, 1], [1, 1, -1], [-1, -1, -1]][int(rng.integers(4))])
            rigid(a, s, R, rng.normal(size=3) * L)
        elif kind == "keys":
            d = shuffled(a.settings, rng)
            a.settings = d
            a.text = yaml.safe_dump(d, default_flow_style=bool(rng.random() < .3), sort_keys=False,
                                    explicit_start=bool(rng.random() < .5)) if rng.random() < .8 else json.dumps(d)
        elif kind == "threads":
            a.settings["finite_element_solver"]["nb_threads"] = int(rng.choice([1, 2, 3, 8]))
            a.settings["demagnetizing_field_solver"]["nb_threads"] = int(rng.choice([1, 2, 4]))
        else:
            rigid(a, s, fgmesh.random_rotation(rng), rng.normal(size=3) * L)
            renumber(a, rng)
            rename(a, rng)
            a.settings = shuffled(a.settings, rng)
            a.rotated = True
        if kind in ("seed", "format", "unit", "keys") and rng.random() < .3:
            renumber(a, rng)
        out.append(a)
    return out


def run_alt(exe, a):
    if a.fmt is None:
        return fgrun.run(exe, a.settings, {"m.msh": a.mesh}, args=a.args, settings_text=a.text)
    os.makedirs(fgrun.SCRATCH, exist_ok=True)
    d = tempfile.mkdtemp(prefix="c08-", dir=fgrun.SCRATCH)
    try:
        a.mesh.write(d + "/in.msh")
        p = subprocess.run(["gmsh", "in.msh", "-save", "-format", a.fmt[0], "-o", "m.msh"] + (["-bin"] if a.fmt[1] else []),
                           cwd=d, env=dict(os.environ, HOME=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError("gmsh: " + p.stdout.decode(errors="replace")[-500:])
        return fgrun.run(exe, a.settings, {}, args=a.args, workdir=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def compare(ck, s, a, r0, r1, F):
    what = "%s: %s" % (a.kind, s.desc)
    for r in (r0, r1):   # bicgstab does not always reach the tight tolerance asked for here
        if r.rc == 1 and "ABORTED" in r.out:
            ck.count("pairs given up by the integrator")
            return
    for r in (r0, r1):
        # the multipole library is only defined inside of its box, however the sample is placed
        n = sum(int(e.get("out", 0) or 0) for e in r.events if e.get("ev") == "fmm")
        ck.ensure(n == 0, "box", lambda: "%d sources or targets outside of the box of the magnetostatic "
                  "solver; %s" % (n, what), r, F)
    if not ck.ensure(r1.rc == r0.rc, "status", lambda: "%s against %s; %s; %s" % (
            fgrun.describe(r1), fgrun.describe(r0), r1.err[-200:], what), r1, F):
        return
    if r0.rc != 0:
        ck.count("both refused or aborted")
        return
    if not ck.ensure(r1.parse_error is None and r1.evol is not None and r1.evol.shape == r0.evol.shape and
                     r1.cols == r0.cols and sorted(r1.sols) == sorted(r0.sols), "shape",
                     lambda: "different files, columns or rows; " + what, r1, F):
        return
    c = r0.cols
    k3 = a.turned and any(v.get("K3") for v in s.vols.values())
    det = np.linalg.det(a.R)
    x0, x1 = r0.evol.copy(), r1.evol.copy()
    for names in VEC:
        if all(n in c for n in names):
            j = [c.index(n) for n in names]
            x0[:, j] = x0[:, j] @ a.A.T
    E = [j for j, n in enumerate(c) if n.startswith("E_")]
    esc = np.abs(x0[:, E]).max() if E else 0
    for j, n in enumerate(c):
        if a.rotated and n in ALIGNED:
            continue
        u, v = x0[:, j], x1[:, j]
        if n == "Thiele_length":   # infinite, or rounding, when uniform
            if np.nanmax(np.where(np.isfinite(u), np.abs(u), 0), initial=0) > 1e2 * np.ptp(s.mesh.nodes[:, 2]) * s.unit:
                continue
        ref = np.abs(u)
        for names in VEC:
            if n in names:
                ref = np.linalg.norm(x0[:, [c.index(q) for q in names]], axis=1)
        sc = esc if n.startswith("E_") else max(ref.max(), {"max_angle": 1e-2, "max_dm": 1e-4}.get(n, 0))
        if n.startswith("<M"):
            sc = 1.0
        with np.errstate(invalid="ignore"):
            d = np.abs(u - v)
        d[(u == v) | (np.isnan(u) & np.isnan(v))] = 0
        tol = s.tol * (50 if n == "max_angle" else 10 if "dt>" in n else 1)
        if k3:   # known finding: from the second step on
            ck.ensure(np.all(d[2:] <= tol * sc + 1e-300), "cubic-second-order", lambda: "column %s; %s" % (n, what), r1, F)
            d, u, v = d[:2], u[:2], v[:2]
        bad = not np.all(d <= tol * sc + 1e-300)
        ck.ensure(not bad, "evol", lambda: "column %s: %r against %r (row %d, scale %g); %s" % (
            n, v[np.nanargmax(d)], u[np.nanargmax(d)], np.nanargmax(d), sc, what), r1, F)
        if sc > 0 and not bad:
            ck.maximum("evolution: relative difference", d.max() / sc)
    for f in r0.sols:
        u, v = r0.sols[f][2], r1.sols[f][2]
        if not ck.ensure(u.shape == v.shape, "sol-shape", lambda: "%s; %s" % (f, what), r1, F):
            continue
        v = v[a.perm]
        mag = s.magnodes
        cols = [("V", [1], None)] if u.shape[1] == 2 else [("m", [1, 2, 3], 1.0), ("phi", [4], None)] + ([("s", [5, 6, 7], None)] if u.shape[1] > 5 else [])
        for n, j, sc in cols:
            p, q = u[:, j], v[:, j]
            if len(j) == 3:
                p = p @ a.A.T
            elif n == "phi":
                p = p * det
            ok = ~np.isnan(p).any(axis=1)
            ck.ensure((np.isnan(q).any(axis=1) == ~ok).all(), "sol-nan", lambda: "%s, %s: undefined values "
                      "elsewhere; %s" % (f, n, what), r1, F)
            if not ok.any():
                continue
            if n == "m":
                ok &= mag
                if not ok.any():
                    continue
            d = np.abs(p - q)[ok]
            sc1 = sc or np.abs(p[ok]).max()
            if sc1 == 0:
                continue
            key = "cubic-second-order" if k3 and s.sol_step(f) > 1 else "sol"
            bad = not d.max() <= max(s.tol, 3e-7) * sc1 * (10 if n == "phi" else 1)
            ck.ensure(not bad, key, lambda: "%s, %s differs by %g (scale %g); %s" % (f, n, d.max(), sc1, what), r1, F)
            if not bad and key == "sol":
                ck.maximum("configurations: relative difference", d.max() / sc1)
        ck.count("configurations compared")
    ck.count("pairs: " + a.kind)


def run(ck):
    ck.rule = ("random problems (regions, surfaces, fields, textures, currents) and for each of them other "
               "writings of the same problem: numbering, orientation, regions, mesh format, unit, position, "
               "orientation in space, mirror image, order of the settings, seed, numbers of threads")
    ck.assumptions = ["the dipolar field is summed directly by a stand-in for the absent multipole library",
                      "Thiele_length is defined along z: not compared between rotated samples"]
    exe, _ = fgbuild.Variant("plain").feellgood()
    n = 1400 if ck.thorough else 140
    for base in range(0, n, 28):
        jobs = []
        for i in range(base, min(n, base + 28)):
            rng = ck.sub_rng(1, i)
            tau = float(rng.choice([1e-13, 2e-14]))
            mk = fgspin.make if i % 4 == 3 else fgscen.make
            s = mk(rng, steps=3, tau=tau, offset=None if rng.random() < .5 else "centre")
            s.settings["outputs"]["mag_config_every"] = 1
            s.settings["finite_element_solver"] = {"tolerance": 1e-10, "max(iter)": 5000}
            s.settings["time_integration"] = {"max(du)": 5, "min(dt)": .55 * tau, "max(dt)": 2 * tau}
            s.settings.setdefault("demagnetizing_field_solver", {})
            s.settings["mesh"].setdefault("surface_regions", {})
            # positions far from the origin lose digits
            far = np.abs(s.mesh.nodes).max() / np.ptp(s.mesh.nodes, axis=0).min()
            s.tol = 3e-7 + 1e-9 * far
            s.magnodes = np.zeros(len(s.mesh.nodes), bool)
            dead = {r for r, v in s.vols.items() if v.get("Ms", 1) == 0 or v.get("Js", 1) == 0}
            for t, r in zip(s.mesh.tets, s.mesh.treg):
                if r not in dead:
                    s.magnodes[t] = True
            s.sol_step = lambda f: int("".join(x for x in f if x.isdigit()) or 0)
            jobs.append((s, None))
            jobs += [(s, a) for a in alternatives(ck, s, i)]
        R = fgrun.pmap(lambda j: j[0].run(exe) if j[1] is None else run_alt(exe, j[1]), jobs)
        for (s, a), r in zip(jobs, R):
            if a is None:
                r0 = r
                ck.ensure(r.rc in (0, 1) and r.parse_error is None, "run", lambda: "%s: %s" % (
                    fgrun.describe(r), s.desc), r, s.files())
                ck.case(s.key, {"problem": s.desc})
            else:
                compare(ck, s, a, r0, r, {"m.msh": s.mesh, "settings.yml": json.dumps(s.settings),
                                          "other.msh": a.mesh, "other.yml": r.text})
    g = ck.counts["pairs given up by the integrator"]
    ck.ensure(g <= n, "given-up", "%d of %d pairs were given up" % (g, 4 * n))
