"""C15: random settings documents, in every form, against a model of precedence and defaults: what
--verify prints, what the Settings class holds (harness, all digits), what survives a round trip,
what is refused, and runs of equivalent descriptions."""
import json
import os
import shutil
import subprocess
import tempfile
import numpy as np
import yaml
import fgbuild
import fgharness
import fgmesh
import fgrun
import fgscen

MU0 = 4e-7 * np.pi
VOL = {"Ae": 1e-11, "Ms": 795774.7, "K": 0.0, "uk": [0, 0, 1], "K3": 0.0, "ex": [1, 0, 0],
       "ey": [0, 1, 0], "ez": [0, 0, 1], "alpha_LLG": 0.5, "sigma": 0.0, "dens_state": 0.0, "P": 0.0,
       "l_sd": 0.0, "l_sf": 0.0}
SURF = {"suppress_charges": False, "Ks": 0.0, "uk": [0, 0, 1], "jn": None, "V": None,
        "uP": [0, 0, 1], "s": None}
COLS = ["t", "<Mx>", "<My>", "<Mz>", "E_ex", "E_demag", "E_zeeman", "E_tot"]


def defaults():
    return {"dir": ".", "sim": "", "time_step": 5e-13, "tf": 1e-10, "cols": list(COLS), "save": 100,
            "meta": {}, "pb": "", "scale": 1e-9, "vol": {}, "surf": {}, "vdef": dict(VOL),
            "sdef": dict(SURF), "m": ("xyz", ["0", "0", "1"]), "t0": None, "rec": False, "dirn": "Z",
            "thr": 0.1, "B": ("xyz", ["0", "0", "0"]), "spin": False, "V_file": False,
            "threads": None, "maxiter": 700, "tol": 1e-6, "dumax": 0.02, "dtmin": 1e-16,
            "dtmax": 5e-13}


class L:
    """A leaf: YAML text (flow form), optional block form, and its meaning."""
    def __init__(self, text, value, block=None):
        self.text, self.value, self.block = text, value, block


def lnum(rng, x):
    x = float(x)
    t = [repr(x), "%.17g" % x, "%.17e" % x, ("%.17e" % x).upper(), '"%r"' % x]
    return L(t[int(rng.integers(len(t)))], x)


def lint(rng, x):
    return L(str(int(x)), int(x))


def lbool(rng, b):
    t = {True: ["true", "yes", "on", "True", "TRUE", "Yes", "y"],
         False: ["false", "no", "off", "False", "n"]}[bool(b)]
    return L(t[int(rng.integers(len(t)))], bool(b))


def lstr(rng, s):
    forms = [json.dumps(s, ensure_ascii=False)]
    if "\n" not in s and "\r" not in s:
        forms.append("'" + s.replace("'", "''") + "'")
        if s and all(c.isalnum() or c in "_./" for c in s) and s.isascii():
            forms.append(s)
    block = None
    if (s.endswith("\n") and not s.startswith(("\n", " ", "\t")) and "\r" not in s and len(s) > 1
            and not s.endswith("\n\n")):
        block = "|"
    elif s and "\n" in s and not s.endswith("\n") and not s.startswith(("\n", " ", "\t")) \
            and "\r" not in s:
        block = "|-"
    return L(forms[int(rng.integers(len(forms)))], s, block)


def lvec(rng, v, strings=False):
    v = [float(x) for x in v]
    return L("[" + ", ".join(lnum(rng, x).text for x in v) + "]", v)


def emit(d, ind=0, rng=None):
    """YAML text of nested dicts of leaves, in block or flow style."""
    out = ""
    for k, v in d.items():
        key = k if k.replace("_", "").isalnum() and k.isascii() and rng.random() < 0.7 else json.dumps(
            k, ensure_ascii=False)
        pre = " " * ind + key + ":"
        if isinstance(v, dict):
            if not v:
                out += pre + " {}\n"
            elif rng.random() < 0.25:
                out += pre + " " + flow(v, rng) + "\n"
            else:
                out += pre + "\n" + emit(v, ind + 2, rng)
        elif v.block and rng.random() < 0.6:
            body = v.value[:-1] if v.block == "|" else v.value
            out += pre + " " + v.block + "\n" + "\n".join(
                (" " * (ind + 2) + l) if l else "" for l in body.split("\n")) + "\n"
        else:
            out += pre + " " + v.text + "\n"
        if rng.random() < 0.1:
            out += " " * ind + "# a comment: [with, {yaml\n"
    return out


def flow(d, rng):
    return "{" + ", ".join(json.dumps(k, ensure_ascii=False) + ": " + (
        flow(v, rng) if isinstance(v, dict) else v.text) for k, v in d.items()) + "}"


EXPR = ["1", "0.5", "-2", "x+1", "y*2", "sin(z)", "3/(1+x*x)", "0x10", "1e-3", "-.5",
        "(function(q) { return q*2; })(y)", "[1,2,3].indexOf(2)+\"a\".length",
        "x /* : # \" ' \\\\ é ≤ */", "Math.max(x, y)", "x>0 ? 1 : -1", "z%2"]
EXPT = ["1", "0.5", "-2", "t+1", "sin(t)", "1e-3", "t>0 ? 1 : -1", "0.1*cos(2*PI*t)", "exp(-t)",
        "t /* \"q\" \\\\ : # */"]
FUN = ["function(x,y,z) { return [1+x, y, z]; }",
       "function (x, y, z) {\n  var a = \"q\\\"uote\"; // comment: # é\n  return [x, y+2, z];\n}\n",
       "function(x,y,z) {\n\treturn [1, 2, 3];\n\n}", "function(x, y, z, regions) {\n"
       "  return regions.includes('b') ? [0, 1, 0] : [1, 0, 0];\n}\n",
       "function(x,y,z)\r\n{ return [1,2,z]; }\r\n", "\n function(x,y,z) { return [3,0,z]; }\n",
       "function(x,y,z) { return [0,0,1]; }\n\n"]
FUNT = ["function(t) { return [t, 0, 1]; }", "function(t) {\n  return [1, 2*t, 3];\n}\n",
        "function(t) { var s='\\\\'; return [s.length, t, 0]; }", "function(t)\n{ return [0,0,t]; }"]
FUNS = ["function(x,y,z) { return [x, 1, z]; }", "function(x,y,z) {\n  return [1, y, 2];\n}\n"]
FUNA = ["function(t) { return t+1; }", "function(t) {\n  return 2*t;\n}\n", "Math.cos", ]
TEXT = ["Jane Doe", "", "a: b # c", "multi\nline", "multi\nline\n", "back\\slash \"q\" 'a'",
        "  leading", "trailing  ", "é ≤ μ₀", "\ttab\there", "{x: [1", "- item", "\nstart", "x\n\n",
        "a\r\nb", "true", "12", "~", "a\n  indented\nb\n", "!tag", "*alias", "%dir", "@at"]
NAMES = ["vol", "b", "region 2", "Éa", "x-y", "12", "a:b", "q\"r", "s\\t", "true"]
SNAMES = ["top", "bottom", "s 1", "surf#2", "it's"]


def rvec(rng):
    k = rng.integers(6)
    if k == 0:
        return np.eye(3)[int(rng.integers(3))] * rng.choice([1, -1, 2.5, 1e-3])
    return rng.normal(size=3) * 10 ** rng.uniform(-3, 3)


def rlog(rng, a, b):
    return 10 ** rng.uniform(a, b) * (1 if rng.random() < 0.7 else -1)


def gen_vol(rng, name):
    d = {}
    p = rng.choice([0.1, 0.4, 0.9])
    if rng.random() < p:
        d["Ae"] = lnum(rng, 10 ** rng.uniform(-12, -10))
    if rng.random() < p:
        d[rng.choice(["Ms", "Js"])] = lnum(rng, 0 if rng.random() < .1 else 10 ** rng.uniform(-1, 6))
    for k in ("K", "K3"):
        if rng.random() < p:
            d[k] = lnum(rng, 0 if rng.random() < .2 else rlog(rng, 2, 6))
    if rng.random() < p:
        d["uk"] = lvec(rng, rvec(rng))
    if rng.random() < p:
        R = fgmesh.random_rotation(rng)
        if rng.random() < .2:
            R = rng.normal(size=(3, 3))  # accepted with a warning
        for i, k in enumerate(("ex", "ey", "ez")):
            if rng.random() < .9:
                d[k] = lvec(rng, R[i] * 10 ** rng.uniform(-3, 3))
    for k in ("alpha_LLG", "sigma", "dens_state", "P", "l_sd", "l_sf"):
        if rng.random() < p * .7:
            d[k] = lnum(rng, 10 ** rng.uniform(-10, 8) if k != "P" else rng.uniform(0, .99))
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def gen_surf(rng):
    d = {}
    p = rng.choice([0.1, 0.4, 0.9])
    if rng.random() < p:
        d["suppress_charges"] = lbool(rng, rng.random() < .5)
    if rng.random() < p:
        d["Ks"] = lnum(rng, 0 if rng.random() < .2 else rlog(rng, -5, 0))
    if rng.random() < p:
        d["uk"] = lvec(rng, rvec(rng))
    if rng.random() < p:
        k = rng.choice(["jn", "V"])
        d[k] = lnum(rng, rlog(rng, -3, 12))
        d["V" if k == "jn" else "jn"] = L(str(rng.choice(["", "~", "null"])), None)
    if rng.random() < p:
        d["uP"] = lvec(rng, rvec(rng))
    if rng.random() < p:
        d["s"] = lvec(rng, rvec(rng)) if rng.random() < .7 else L("null", None)
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def pickl(rng, a):
    return a[int(rng.integers(len(a)))]


def gen(rng, main):
    """One settings document."""
    p = float(rng.choice([0.15, 0.5, 0.95]))
    d = {}
    o = {}
    if rng.random() < p:
        o["directory"] = lstr(rng, pickl(rng, ["out", "a b", "é/x", "./out/", "/tmp/zz", "", "."]))
    if rng.random() < p:
        o["file_basename"] = lstr(rng, pickl(rng, ["run", "a b", "r.1", "q\"r", "b\\s", "12"]))
    if rng.random() < p:
        o["evol_time_step"] = lnum(rng, 10 ** rng.uniform(-16, -9))
    if rng.random() < p:
        o["final_time"] = lnum(rng, 10 ** rng.uniform(-12, -7))
    if rng.random() < p:
        c = [pickl(rng, COLS + ["iter", "<Mx>:vol", "a \"b\"", "max_angle"]) for _ in range(rng.integers(0, 5))]
        o["evol_columns"] = L("[" + ", ".join(lstr(rng, x).text for x in c) + "]", c)
    if rng.random() < p:
        v = pickl(rng, [0, 1, 7, 100000, -3, False])
        o["mag_config_every"] = L("false", 0) if v is False else L(str(v), max(v, 0))
    if rng.random() < p:
        o["metadata"] = {pickl(rng, ["Author", "key two", "k:3", "Note", "é", "a\"b"]):
                         lstr(rng, pickl(rng, TEXT)) for _ in range(rng.integers(0, 4))}
    if o or rng.random() < .2:
        d["outputs"] = o
    m = {}
    if main and rng.random() < max(p, .5):
        m["filename"] = lstr(rng, pickl(rng, ["m.msh", "dir/mesh.v2.msh", "noext", "a b.msh", "/x/y.z/w"]))
    if rng.random() < p:
        m["length_unit"] = lnum(rng, 10 ** rng.uniform(-12, 0))
    if rng.random() < p:
        v = {}
        if rng.random() < .3:
            v["__default__"] = gen_vol(rng, None)
        for _ in range(rng.integers(0, 4)):
            n = pickl(rng, NAMES)
            v[n] = gen_vol(rng, n) or L("", {})
        m["volume_regions"] = v
    if rng.random() < p:
        v = {}
        if rng.random() < .3:
            q = gen_surf(rng)
            for k in ("jn", "V", "s"):
                q.pop(k, None)
            v["__default__"] = q
        for _ in range(rng.integers(0, 4)):
            v[pickl(rng, SNAMES)] = gen_surf(rng) or L("~", {})
        m["surface_regions"] = v
    if m:
        d["mesh"] = m
    if rng.random() < p:
        k = rng.integers(3)
        if k == 0:
            e = [pickl(rng, EXPR) for _ in range(2)] + ["1+x*x"]
            d["initial_magnetization"] = L("[" + ", ".join(lstr(rng, x).text for x in e) + "]", ("xyz", e))
        elif k == 1:
            f = pickl(rng, FUN)
            x = lstr(rng, f)
            d["initial_magnetization"] = L(x.text, ("fun", f), x.block)
            d["initial_magnetization"].value = f
        else:
            f = pickl(rng, ["in.sol", "dir/x y.sol", "out_iter100.sol"])
            d["initial_magnetization"] = L(json.dumps(f), ("file", f))
    if rng.random() < p:
        d["initial_time"] = lnum(rng, rlog(rng, -13, -7))
    if rng.random() < p:
        r = {}
        if rng.random() < .6:
            r["enable"] = lbool(rng, rng.random() < .7)
        if rng.random() < .6:
            x = pickl(rng, "XYZ")
            r["direction"] = L(x, x)
        if rng.random() < .6:
            r["threshold"] = lnum(rng, rng.uniform(.001, .9))
        d["recentering"] = r
    if rng.random() < p:
        k = rng.integers(3)
        if k == 0:
            e = [pickl(rng, EXPT) for _ in range(3)]
            d["Bext"] = L("[" + ", ".join(lstr(rng, x).text for x in e) + "]", ("xyz", e))
        elif k == 1:
            f = pickl(rng, FUNT)
            x = lstr(rng, f)
            d["Bext"] = L(x.text, f, x.block)
        else:
            d["Bext"] = {"space": lstr(rng, pickl(rng, FUNS)), "time": lstr(rng, pickl(rng, FUNA[:2]))}
    if rng.random() < p:
        q = {}
        if rng.random() < .7:
            q["enable"] = lbool(rng, rng.random() < .6)
        if rng.random() < .7:
            q["V_file"] = lbool(rng, rng.random() < .6)
        d["spin_accumulation"] = q
    if rng.random() < p:
        n = int(rng.choice([0, 1, 3, 8, 64]))
        d["demagnetizing_field_solver"] = {"nb_threads": lint(rng, n)}
    if rng.random() < p:
        q = {}
        if rng.random() < .7:
            q["max(iter)"] = lint(rng, rng.integers(1, 5000))
        if rng.random() < .7:
            q["tolerance"] = lnum(rng, 10 ** rng.uniform(-12, -1))
        d["finite_element_solver"] = q
    if rng.random() < p:
        q = {"max(du)": lnum(rng, rng.uniform(.001, 1))}
        if rng.random() < .7:
            q["min(dt)"] = lnum(rng, 10 ** rng.uniform(-20, -16))
        if rng.random() < .7:
            q["max(dt)"] = lnum(rng, 10 ** rng.uniform(-15.9, -10))
        d["time_integration"] = q
    items = list(d.items())
    rng.shuffle(items)
    return dict(items) or {"outputs": {}}


def unit(v):
    v = np.array(v, float)
    return [float(x) for x in v / np.linalg.norm(v)]


def apply(S, d):
    def get(q, k):
        x = q.get(k) if isinstance(q, dict) else None
        return x.value if isinstance(x, L) else None
    o = d.get("outputs", {})
    if get(o, "directory") is not None:
        S["dir"] = get(o, "directory")
    for k, t in (("file_basename", "sim"), ("evol_time_step", "time_step"), ("final_time", "tf"),
                 ("evol_columns", "cols"), ("mag_config_every", "save")):
        if k in o:
            S[t] = get(o, k)
    for k, v in o.get("metadata", {}).items():
        S["meta"][k] = v.value
    m = d.get("mesh", {})
    if "filename" in m:
        S["pb"] = get(m, "filename")
    if "length_unit" in m:
        S["scale"] = get(m, "length_unit")

    def region(q, base):
        r = dict(base)
        for k, x in (q if isinstance(q, dict) else {}).items():
            v = x.value
            if k == "Js":
                r["Ms"] = v / MU0
            elif k in ("uk", "ex", "ey", "ez", "uP"):
                r[k] = unit(v)
            else:
                r[k] = v
        return r
    for sec, tab, de in (("volume_regions", "vol", "vdef"), ("surface_regions", "surf", "sdef")):
        for n, q in m.get(sec, {}).items():
            if n == "__default__":
                S[de] = region(q, S[de])
            else:
                S[tab][n] = region(q, S[tab].get(n, S[de]))
    if "initial_magnetization" in d:
        v = d["initial_magnetization"].value
        S["m"] = v if isinstance(v, tuple) else ("fun", v)
    if "initial_time" in d:
        S["t0"] = d["initial_time"].value
    r = d.get("recentering", {})
    for k, t in (("enable", "rec"), ("direction", "dirn"), ("threshold", "thr")):
        if k in r:
            S[t] = r[k].value
    if "Bext" in d:
        b = d["Bext"]
        if isinstance(b, dict):
            S["B"] = ("xt", b["space"].value, b["time"].value)
        else:
            S["B"] = b.value if isinstance(b.value, tuple) else ("fun", b.value)
    q = d.get("spin_accumulation", {})
    for k, t in (("enable", "spin"), ("V_file", "V_file")):
        if k in q:
            S[t] = q[k].value
    q = d.get("demagnetizing_field_solver", {})
    if "nb_threads" in q:
        S["threads"] = q["nb_threads"].value or None
    q = d.get("finite_element_solver", {})
    for k, t in (("max(iter)", "maxiter"), ("tolerance", "tol")):
        if k in q:
            S[t] = q[k].value
    q = d.get("time_integration", {})
    for k, t in (("max(du)", "dumax"), ("min(dt)", "dtmin"), ("max(dt)", "dtmax")):
        if k in q:
            S[t] = q[k].value


def basename(S):
    if S["sim"] or not S["pb"]:
        return S["sim"]
    b = S["pb"].rsplit("/", 1)[-1]
    return b.rsplit(".", 1)[0]


class Diff(Exception):
    pass


def eqn(what, got, want, tol):
    try:
        g = float(got)
    except (TypeError, ValueError):
        raise Diff("%s is %r instead of %r" % (what, got, want))
    if not abs(g - want) <= tol * abs(want):
        raise Diff("%s is %r instead of %r" % (what, got, want))


def eqv(what, got, want, tol):
    if want is None:
        if got is not None:
            raise Diff("%s is %r instead of undefined" % (what, got))
        return
    if not isinstance(got, list) or len(got) != 3:
        raise Diff("%s is %r instead of %r" % (what, got, want))
    n = max(abs(x) for x in want)
    for a, b in zip(got, want):
        if not abs(float(a) - b) <= tol * n:
            raise Diff("%s is %r instead of %r" % (what, got, want))


def eq(what, got, want):
    if got != want:
        raise Diff("%s is %r instead of %r" % (what, got, want))


def opt(what, got, want, tol):
    if want is None:
        if got is not None:
            raise Diff("%s is %r instead of undefined" % (what, got))
    else:
        eqn(what, got, want, tol)


def path(p):
    return os.path.normpath(p or ".")


def against_verify(S, y, tol=1.1e-5):
    """Model against the document printed by --verify."""
    o = y["outputs"]
    eq("outputs.directory", path(o["directory"]), path(S["dir"]))
    eq("outputs.file_basename", o["file_basename"], basename(S))
    eqn("outputs.evol_time_step", o["evol_time_step"], S["time_step"], tol)
    eqn("outputs.final_time", o["final_time"], S["tf"], tol)
    eq("outputs.evol_columns", o["evol_columns"] or [], S["cols"])
    eqn("outputs.mag_config_every", o["mag_config_every"], S["save"], 0)
    eq("outputs.metadata", o.get("metadata") or {}, S["meta"])
    m = y["mesh"]
    eq("mesh.filename", m["filename"], S["pb"])
    eqn("mesh.length_unit", m["length_unit"], S["scale"], tol)
    V = m["volume_regions"] or {}
    eq("volume regions", sorted(V), sorted(S["vol"]))
    for n, r in S["vol"].items():
        for k, v in r.items():
            if k in ("uk", "ex", "ey", "ez"):
                if r["K" if k == "uk" else "K3"] != 0:
                    eqv("%s of volume region %r" % (k, n), V[n].get(k), v, tol)
            else:
                eqn("%s of volume region %r" % (k, n), V[n].get(k), v, tol)
    V = m["surface_regions"] or {}
    eq("surface regions", sorted(V), sorted(S["surf"]))
    for n, r in S["surf"].items():
        eq("suppress_charges of %r" % n, V[n]["suppress_charges"], r["suppress_charges"])
        eqn("Ks of %r" % n, V[n]["Ks"], r["Ks"], tol)
        if r["Ks"] != 0:
            eqv("uk of surface region %r" % n, V[n].get("uk"), r["uk"], tol)
        opt("jn of %r" % n, V[n].get("jn"), r["jn"], tol)
        opt("V of %r" % n, V[n].get("V"), r["V"], tol)
        if S["spin"]:
            eqv("uP of %r" % n, V[n].get("uP"), r["uP"], tol)
            eqv("s of %r" % n, V[n].get("s"), r["s"], tol)
    x = y["initial_magnetization"]
    eq("initial_magnetization", [str(v) for v in x] if isinstance(x, list) else x, S["m"][1])
    opt("initial_time", y["initial_time"], S["t0"], tol)
    r = y["recentering"]
    eq("recentering.enable", r["enable"], S["rec"])
    if S["rec"]:
        # a bare Y is a boolean for YAML 1.1 readers only
        eq("recentering.direction", {True: "Y"}.get(r["direction"], r["direction"]), S["dirn"])
        eqn("recentering.threshold", r["threshold"], S["thr"], tol)
    b = y["Bext"]
    if S["B"][0] == "xt":
        eq("Bext", b, {"space": S["B"][1], "time": S["B"][2]})
    else:
        eq("Bext", [str(v) for v in b] if isinstance(b, list) else b, S["B"][1])
    q = y["spin_accumulation"]
    eq("spin_accumulation.enable", q["enable"], S["spin"])
    if S["spin"]:
        eq("spin_accumulation.V_file", bool(q["V_file"]), S["V_file"])
    eqn("nb_threads", y["demagnetizing_field_solver"]["nb_threads"], S["threads"] or NCPU, 0)
    eqn("max(iter)", y["finite_element_solver"]["max(iter)"], S["maxiter"], 0)
    eqn("tolerance", y["finite_element_solver"]["tolerance"], S["tol"], tol)
    t = y["time_integration"]
    eqn("max(du)", t["max(du)"], S["dumax"], tol)
    eqn("min(dt)", t["min(dt)"], S["dtmin"], tol)
    eqn("max(dt)", t["max(dt)"], S["dtmax"], tol)


NCPU = os.sysconf("SC_NPROCESSORS_ONLN")


def against_class(S, j):
    e = 1e-15
    for k, v in (("time_step", "time_step"), ("tf", "tf"), ("scale", "scale"), ("threshold", "thr"),
                 ("tol", "tol"), ("dumax", "dumax"), ("dtmin", "dtmin"), ("dtmax", "dtmax")):
        eqn(k, j[k], S[v], e)
    eqn("maxiter", j["maxiter"], S["maxiter"], 0)
    eqn("nb_threads", j["nb_threads"], S["threads"] or NCPU, 0)
    eqn("save_period", j["save_period"], S["save"], 0)
    eq("directory", path(j["dir"]), path(S["dir"]))
    eq("file_basename", j["sim"], basename(S))
    eq("mesh file", j["pb"], S["pb"])
    eq("columns", j["cols"], S["cols"])
    eq("spin_acc", j["spin_acc"], S["spin"])
    eq("V_file", j["V_file"], S["V_file"])
    eq("recenter", j["recenter"], S["rec"])
    eq("restart file", j["restore"], S["m"][1] if S["m"][0] == "file" else "")
    opt("initial_time", j["initial_time"], S["t0"], e)
    for n, r in S["vol"].items():
        g = j["vol"].get(n)
        if g is None:
            raise Diff("volume region %r is missing" % n)
        for k, v in r.items():
            if isinstance(v, list):
                eqv("%s of %r" % (k, n), g[k], v, 1e-13)
            else:
                # the value of mu0 is known to 9 digits
                eqn("%s of %r" % (k, n), g[k], v, 1e-9 if k == "Ms" else 1e-14)
    for n, r in S["surf"].items():
        g = j["surf"].get(n)
        if g is None:
            raise Diff("surface region %r is missing" % n)
        for k, v in r.items():
            if k in ("uk", "uP", "s"):
                eqv("%s of %r" % (k, n), g[k], v, 1e-13)
            elif k == "suppress_charges":
                eq("%s of %r" % (k, n), g[k], v)
            else:
                opt("%s of %r" % (k, n), g[k], v, e)


def verify(exe, main, user=None, stdin=False, xdg=False, args=("--verify",)):
    files, env = {}, {}
    if user is not None:
        files[("xdg/" if xdg else ".config/") + "feellgood/default.yml"] = user
    d = tempfile.mkdtemp(prefix="set-", dir=fgrun.SCRATCH)
    env = {"XDG_CONFIG_HOME": os.path.join(d, "xdg")} if xdg else {}
    try:
        if stdin:
            return fgrun.run(exe, None, args=list(args) + ["-"], stdin=main, files=files, workdir=d,
                             env=env, parse=False)
        return fgrun.run(exe, None, settings_text=main, args=args, files=files, workdir=d, env=env,
                         parse=False)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def documents(ck, exe, harness, n):
    def one(i):
        rng = ck.sub_rng(i)
        user = gen(rng, False) if rng.random() < .6 else None
        main = gen(rng, True)
        S = defaults()
        if user:
            apply(S, user)
        apply(S, main)
        if not S["dtmin"] <= S["dtmax"]:
            return None
        ut = emit(user, 0, rng) if user else None
        mt = emit(main, 0, rng)
        r = verify(exe, mt, ut, stdin=rng.random() < .2, xdg=rng.random() < .4)
        r2 = verify(exe, r.out, ut if rng.random() < .5 else None) if r.rc == 0 else None
        return i, user, main, S, ut, mt, r, r2

    hfiles = []
    d = tempfile.mkdtemp(prefix="set-", dir=fgrun.SCRATCH)
    done = [x for x in fgrun.pmap(one, range(n)) if x]
    for i, user, main, S, ut, mt, r, r2 in done:
        F = {"main.yml": mt, "user-default.yml": ut or "", "printed.yml": r.out}
        ck.case((tuple(sorted(main)), tuple(sorted(user or {})), S["m"][0], S["B"][0],
                 len(S["vol"]), len(S["surf"])), {"main": mt[:300], "user": (ut or "")[:200]})
        ck.count("documents")
        if not ck.ensure(r.rc == 0, "refused", lambda: "valid settings refused: %s" % r.err[:400], r, F):
            continue
        out = "\n".join(l for l in r.out.split("\n") if not l.startswith("Warning:"))
        try:
            y = yaml.load(out, Loader=yaml.SafeLoader)
            against_verify(S, y)
        except (Diff, yaml.YAMLError, KeyError, TypeError, AttributeError) as e:
            ck.fail("verify", "--verify: %s: %s" % (type(e).__name__, str(e)[:400]), r, F)
            continue
        ck.count("values compared", 30 + 14 * len(S["vol"]) + 7 * len(S["surf"]))
        w = [l for l in r.out.split("\n") if l.startswith("Warning:")]
        if w:
            ck.count("documents with a warning")
        if ck.ensure(r2.rc == 0, "round-trip-refused", lambda: "what --verify prints is refused: %s"
                       % r2.err[:400], r2, F):
            try:
                y2 = yaml.load("\n".join(l for l in r2.out.split("\n") if not l.startswith("Warning:")), Loader=yaml.SafeLoader)
                against_verify(S, y2, 3e-5)
                ck.count("round trips")
            except (Diff, yaml.YAMLError, KeyError, TypeError, AttributeError) as e:
                ck.fail("round-trip", "read back: %s: %s" % (type(e).__name__, str(e)[:400]), r2, F)
        if harness:
            fs = []
            for k, t in (("u", ut), ("m", mt)):
                if t:
                    p = os.path.join(d, "%d%s.yml" % (i, k))
                    with open(p, "w") as f:
                        f.write(t)
                    fs.append(p)
            hfiles.append((S, fs, F))
    if harness and hfiles:
        args = []
        for _, fs, _ in hfiles:
            args += fs + ["--"]
        r = fgharness.execute(harness, 1, 1, args)
        fgharness.feed(ck, r)
        js = [json.loads(l.split("\t", 1)[1]) for l in r.out.split("\n") if l.startswith("@JSON")]
        ck.count("documents read by the class", len(js))
        for (S, fs, F), j in zip(hfiles, js):
            try:
                against_class(S, j)
            except Diff as e:
                ck.fail("class", "Settings: %s" % e, r, F)
    shutil.rmtree(d, ignore_errors=True)


BAD = [
    ("Ms and Js", "mesh: {volume_regions: {vol: {Ms: 1e5, Js: 1}}}"),
    ("jn and V", "mesh: {surface_regions: {s: {jn: 1, V: 2}}}"),
    ("vector of 2", "mesh: {volume_regions: {vol: {uk: [1, 2]}}}"),
    ("vector of 4", "mesh: {volume_regions: {vol: {ex: [1, 2, 3, 4]}}}"),
    ("vector scalar", "mesh: {volume_regions: {vol: {uk: 3}}}"),
    ("vector map", "mesh: {surface_regions: {vol: {uk: {a: 1}}}}"),
    ("vector of text", "mesh: {surface_regions: {vol: {uP: [a, b, c]}}}"),
    ("direction", "recentering: {direction: W}"),
    ("direction lower", "recentering: {direction: x}"),
    ("direction long", "recentering: {direction: XY}"),
    ("mag_config true", "outputs: {mag_config_every: true}"),
    ("mag_config text", "outputs: {mag_config_every: often}"),
    ("columns scalar", "outputs: {evol_columns: t}"),
    ("columns map", "outputs: {evol_columns: {t: 1}}"),
    ("metadata list", "outputs: {metadata: [a, b]}"),
    ("metadata nested", "outputs: {metadata: {a: [1]}}"),
    ("outputs scalar", "outputs: 3"), ("outputs list", "outputs: [a]"),
    ("mesh list", "mesh: [a]"), ("mesh scalar", "mesh: m.msh"),
    ("volumes list", "mesh: {volume_regions: [vol]}"), ("surfaces scalar", "mesh: {surface_regions: s}"),
    ("unit zero", "mesh: {length_unit: 0}"), ("unit negative", "mesh: {length_unit: -1e-9}"),
    ("number text", "mesh: {length_unit: 1nm}"), ("number text 2", "outputs: {final_time: 1ns}"),
    ("int text", "finite_element_solver: {max(iter): many}"),
    ("bool text", "recentering: {enable: perhaps}"),
    ("step zero", "outputs: {evol_time_step: 0}"), ("step negative", "outputs: {evol_time_step: -1e-12}"),
    ("step nan", "outputs: {evol_time_step: .nan}"),
    ("dt order", "time_integration: {min(dt): 1e-12, max(dt): 1e-13}"),
    ("dt zero", "time_integration: {min(dt): 0}"), ("dt negative", "time_integration: {min(dt): -1e-15}"),
    ("m of 2", "initial_magnetization: [1, 2]"), ("m of 4", "initial_magnetization: [1, 2, 3, 4]"),
    ("m map", "initial_magnetization: {x: 1}"), ("m syntax", "initial_magnetization: ['1 +', 2, 3]"),
    ("m function syntax", "initial_magnetization: 'function(x,y,z) { return [1,2 }'"),
    ("B of 2", "Bext: [1, 2]"), ("B map", "Bext: {x: 1}"), ("B space only", "Bext: {space: 'function(x,y,z) { return [1,2,3]; }'}"),
    ("B syntax", "Bext: ['t t', 0, 0]"), ("B function syntax", "Bext: 'function(t) { return [1,2,3'"),
    ("B lists", "Bext: {space: [1, 2, 3], time: [1]}"),
    ("syntax", "outputs: [1, 2"), ("syntax 2", "a: b: c"), ("syntax 3", "outputs:\n  a: 1\n b: 2"),
    ("syntax 4", "\"unfinished"), ("empty", ""), ("comment only", "# nothing\n"),
    ("tabs", "outputs:\n\tdirectory: x"),
    ("region scalar", "mesh: {volume_regions: {vol: 3}}"), ("region list", "mesh: {volume_regions: {vol: [1]}}"),
    ("surface list", "mesh: {surface_regions: {s: [1]}}"), ("recentering list", "recentering: [X]"),
    ("spin list", "spin_accumulation: [true]"), ("demag list", "demagnetizing_field_solver: [4]"),
    ("solver list", "finite_element_solver: [1e-3]"), ("time list", "time_integration: [0.1]"),
    ("time scalar", "time_integration: 0.1"),
    ("list", "- outputs"), ("scalar", "outputs"),
]


def refusals(ck, exe):
    def one(b):
        name, text = b
        return b, verify(exe, text), verify(exe, "outputs: {file_basename: q}", text) \
            if name not in ("empty", "comment only") else None, \
            verify(exe, text, args=())
    for (name, text), r, u, p in fgrun.pmap(one, BAD):
        ck.case(("refused", name))
        for what, x in (("--verify", r), ("user defaults", u), ("run", p)):
            if x is not None:
                ck.count("inconsistent settings")
                ck.ensure(x.rc is not None and x.rc > 0 and x.err.strip(), "accepted:" + name, lambda:
                          "%s: inconsistent settings (%s) ended with %s, error stream %r" % (
                              what, text, fgrun.describe(x), x.err[:200]), x, {"main.yml": text})
    r = fgrun.run(exe, None, args=["--verify", "missing.yml"], parse=False)
    ck.ensure(r.rc and r.rc > 0 and r.err.strip(), "missing-file", "missing settings file: %s" % fgrun.describe(r), r)


def builtin(ck, exe):
    S = defaults()
    docs = {"--print-defaults": fgrun.run(exe, None, args=["--print-defaults"], parse=False),
            "--print-template": fgrun.run(exe, None, args=["--print-template"], parse=False)}
    docs["{}"] = fgrun.Result()
    docs["{}"].rc, docs["{}"].out, docs["{}"].err, docs["{}"].timeout = 0, "{}\n", "", False
    for name, r in docs.items():
        if not ck.ensure(r.rc == 0 and r.out.strip(), "print", "%s: %s" % (name, fgrun.describe(r))):
            continue
        if name != "{}":
            try:
                y = yaml.load(r.out, Loader=yaml.SafeLoader)
                for sec, tab, de in (("volume_regions", VOL, "volume"), ("surface_regions", SURF, "surface")):
                    g = y["mesh"][sec]["__default__"]
                    for k, v in tab.items():
                        if isinstance(v, list):
                            eqv("%s default %s" % (de, k), g[k], v, 1e-12)
                        elif v is None or isinstance(v, bool):
                            eq("%s default %s" % (de, k), g[k], v)
                        else:
                            eqn("%s default %s" % (de, k), g[k], v, 1e-12)
            except (Diff, yaml.YAMLError, KeyError, TypeError) as e:
                ck.fail("defaults", "%s: %s: %s" % (name, type(e).__name__, e), r)
        add = "mesh: {volume_regions: {vol: {}}, surface_regions: {s: {}}}\n"
        for user, main in ((None, r.out), (r.out, "mesh: {volume_regions: {vol: }, surface_regions: {s: }}\n")):
            x = verify(exe, main, user)
            T = defaults()
            if user:
                T["vol"] = {"vol": dict(VOL)}
                T["surf"] = {"s": dict(SURF)}
            ck.case(("builtin", name, user is None))
            try:
                if x.rc != 0:
                    raise Diff("refused: " + x.err[:300])
                against_verify(T, yaml.load(x.out, Loader=yaml.SafeLoader))
            except (Diff, yaml.YAMLError, KeyError, TypeError) as e:
                ck.fail("builtin", "%s read back: %s: %s" % (name, type(e).__name__, e), x, {"printed.yml": r.out})


def split(rng, s):
    """The same settings, spread over a user default file (with values that the main file replaces)
    and the main file."""
    user, main = {}, {}
    for k, v in s.items():
        if isinstance(v, dict) and k not in ("Bext",):
            for a, b in v.items():
                if k == "mesh" and a in ("filename",) or (k, a) == ("outputs", "file_basename"):
                    main.setdefault(k, {})[a] = b
                elif isinstance(b, dict) and k == "mesh":
                    for n, reg in b.items():
                        for p, val in reg.items():
                            w = rng.random()
                            if w < .3:
                                user.setdefault(k, {}).setdefault(a, {}).setdefault(n, {})[p] = val
                            else:
                                main.setdefault(k, {}).setdefault(a, {}).setdefault(n, {})[p] = val
                        main.setdefault(k, {}).setdefault(a, {}).setdefault(n, {})
                elif rng.random() < .4:
                    user.setdefault(k, {})[a] = b
                else:
                    main.setdefault(k, {})[a] = b
                    if isinstance(b, float) and rng.random() < .5:
                        # the two bounds of the time step have to stay ordered
                        user.setdefault(k, {})[a] = b
        elif rng.random() < .4:
            user[k] = v
        else:
            main[k] = v
            if k == "Bext":
                user[k] = ["1", "t", "0"] if not isinstance(v, list) else "function(t) { return [1,2,3]; }"
            if k == "initial_magnetization":
                user[k] = "nowhere.sol" if rng.random() < .5 else "function(x,y,z) { return [1,2,3]; }"
    return user, main


def equivalents(ck, exe, n):
    def one(i):
        rng = ck.sub_rng(3, i)
        s = fgscen.make(rng, steps=2, max_cells=3)
        s.settings["outputs"]["mag_config_every"] = 1
        # one integration step per row: no decision of the step control depends on rounding
        s.settings["time_integration"] = {"max(du)": 100.0, "min(dt)": 1.1e-13, "max(dt)": 4e-13}
        s.settings["finite_element_solver"] = {"tolerance": 1e-10, "max(iter)": 5000}
        r0 = s.run(exe, args=["--seed", "1"], cpus=None)
        user, main = split(rng, json.loads(json.dumps(s.settings)))
        for doc in (user, main):
            for reg in doc.get("mesh", {}).get("volume_regions", {}).values():
                if "Ms" in reg and rng.random() < .5 and not any(
                        "Js" in d.get("mesh", {}).get("volume_regions", {}).get(k, {}) for d in (user, main)
                        for k in s.vols):
                    reg["Js"] = reg.pop("Ms") * MU0
                for k in ("uk", "ex", "ey", "ez"):
                    if k in reg:
                        f = 10 ** rng.uniform(-3, 3)
                        reg[k] = [x * f for x in reg[k]]
        items = list(main.items())
        rng.shuffle(items)
        files = {".config/feellgood/default.yml": json.dumps(user)}
        if rng.random() < .4:
            r1 = fgrun.run(exe, None, {"m.msh": s.mesh}, args=["--seed", "1", "-"], stdin=json.dumps(dict(items)),
                           files=files)
        else:
            r1 = fgrun.run(exe, dict(items), {"m.msh": s.mesh}, args=["--seed", "1"], files=files)
        return s, user, dict(items), r0, r1
    for s, user, main, r0, r1 in fgrun.pmap(one, range(n)):
        F = dict(s.files(), **{"user.yml": json.dumps(user), "main.yml": json.dumps(main), "one.yml": json.dumps(s.settings)})
        if r0.rc != 0 or (r1.rc == 1 and "**ABORTED**" in r1.out):
            ck.count("reference runs that stopped")
            continue
        ck.case(("equivalent",) + s.key)
        ck.count("pairs of equivalent runs")
        if not ck.ensure(r1.rc == 0 and r1.evol is not None and r1.cols == r0.cols, "equivalent-run",
                         lambda: "the same settings spread over two files: %s %s" % (
                             fgrun.describe(r1), r1.err[-300:]), r1, F):
            continue
        a, b = r0.evol, r1.evol
        if not ck.ensure(a.shape == b.shape, "equivalent-rows", "%s rows instead of %s" % (b.shape, a.shape), r1, F):
            continue
        sc = np.nanmax(np.abs(a), axis=0) + 1e-300
        et = [k for k, c in enumerate(r0.cols) if c.startswith("E_")]
        sc[et] = sc[et].max()
        mt = [k for k, c in enumerate(r0.cols) if c.startswith("<")]
        for g in ([k for k in mt if "/" in r0.cols[k]], [k for k in mt if "/" not in r0.cols[k]]):
            if g:
                sc[g] = sc[g].max()
        ang = [k for k, c in enumerate(r0.cols) if c == "max_angle"]
        sc[ang] = np.maximum(sc[ang], 0.05)
        skip = [k for k, c in enumerate(r0.cols) if c == "Thiele_length"]
        with np.errstate(invalid="ignore"):
            dv = np.abs(a - b) / sc
        dv[:, skip] = 0
        ck.maximum("difference of equivalent runs", np.nanmax(dv))
        k = np.unravel_index(np.nanargmax(dv), dv.shape)
        ck.ensure(np.nanmax(dv) < 1e-6, "equivalent", lambda: "%s differs: %r and %r" % (
            r0.cols[k[1]], a[k], b[k]), r1, F)


def run(ck):
    ck.rule = ("random settings documents over two levels (user defaults, main file), every key, "
               "several YAML forms; distinct = (sections given, forms of m and B, regions); all "
               "values of --verify and of the Settings class against a model; inconsistent documents; "
               "equivalent runs")
    ck.assumptions = ["documents without duplicate keys; __default__ precedes the other regions",
                      "numbers printed with 6 digits are compared to 6 digits, those of the class to 15"]
    os.makedirs(fgrun.SCRATCH, exist_ok=True)
    exe, _ = fgbuild.Variant("plain").feellgood()
    h = fgharness.build(ck, "plain", "h_settings")
    builtin(ck, exe)
    documents(ck, exe, h, 4000 if ck.thorough else 600)
    refusals(ck, exe)
    equivalents(ck, exe, 200 if ck.thorough else 32)
