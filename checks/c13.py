"""C13: the real solver under AddressSanitizer and UndefinedBehaviorSanitizer (and, for uninitialised
memory, valgrind) on valid problems of unusual shape and on hostile settings, meshes, restart files
and command lines."""
import copy
import json
import os
import re
import shutil
import string
import subprocess
import tempfile
import numpy as np
import fgbuild
import fgmesh
import fgrun
import fgscen
import fgspin

ASAN = {"ASAN_OPTIONS": "detect_leaks=0:detect_container_overflow=0:exitcode=99:abort_on_error=0:"
                        "allocator_may_return_null=1:detect_stack_use_after_return=1",
        "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99:halt_on_error=1"}
REPORT = re.compile(r"runtime error:|ERROR: AddressSanitizer|AddressSanitizer:DEADLYSIGNAL|"
                    r"Assertion .* failed|LeakSanitizer|terminate called")


def report(r):
    m = REPORT.search(r.err)
    if m:
        i = max(0, m.start() - 200)
        return r.err[i:i + 1500]
    return None


def clean(ck, r, what, key, F):
    """what no run may do; False if it did"""
    rep = report(r)
    if rep and re.search(r"#0 0x[0-9a-f]+ .*libgmsh\.so", r.err) and "DEADLYSIGNAL" in r.err:
        # the gmsh library itself does not survive some damaged mesh files
        ck.count("crashes inside the gmsh library")
        r.rc, r.gmsh = 1, True
        return False
    if rep:
        return ck.ensure(False, key + "-memory", lambda: "%s: %s" % (what, rep), r, F)
    if r.timeout:
        return True
    if r.rc is not None and (r.rc < 0 or r.rc in (99, 134, 139)):
        return ck.ensure(False, key + "-crash", lambda: "%s: %s: %s" % (what, fgrun.describe(r), r.err[-400:]),
                         r, F)
    return True


def results(r):
    return [n for n in r.sols if "_iter" in n] + (["evol rows"] if r.evol is not None and len(r.evol) else [])


# --- valid problems ------------------------------------------------------------------------
def valid(ck, i):
    rng = ck.sub_rng(1, i)
    kind = ["plain", "many", "dead", "surfaces", "spin", "recentre", "empty sections", "restart", "minimal",
            "verbose", "single tet", "stdin", "retries", "listed once"][i % 14]
    kw = {}
    args, stdin, files, env = [], None, {}, {}
    if kind == "many":
        kw = dict(nreg=3)
    elif kind == "dead":
        kw = dict(nreg=3, nonmag=True)
    elif kind == "surfaces":
        kw = dict(surfaces=3, nreg=2)
    if kind == "spin":
        s = fgspin.make(rng, steps=2)
    elif kind == "single tet":
        s = fgscen.make(rng, steps=2, surfaces=0, nreg=1, n=(1, 1, 1), renumber=False)
        s.mesh = fgmesh.Mesh(s.mesh.nodes[s.mesh.tets[0]], [[0, 1, 2, 3]], ["vol"])
    else:
        s = fgscen.make(rng, steps=2, **kw)
    st = s.settings
    if kind == "recentre":
        st["recentering"] = {"enable": True, "direction": str(rng.choice(list("XYZ"))),
                             "threshold": float(rng.choice([0.01, 0.3]))}
    elif kind == "empty sections":
        for k in ("finite_element_solver", "recentering", "spin_accumulation"):
            st[k] = rng.choice([None, {}])
        st["demagnetizing_field_solver"] = None
        st["outputs"]["metadata"] = None
        if not s.surfs:
            st["mesh"]["surface_regions"] = None
        for r_, v in st["mesh"]["volume_regions"].items():
            if not v.get("Ms", 1) == 0 and rng.random() < .5:
                st["mesh"]["volume_regions"][r_] = None
    elif kind == "restart":
        n = len(s.mesh.nodes)
        m = s.init(s.body().p)
        m[~s.body().magnode] = np.nan
        st["initial_magnetization"] = "x.sol"
        st["outputs"]["final_time"] += 1e-12
        files["x.sol"] = "## time: 1e-12\n" + "".join("%d\t%.7g\t%.7g\t%.7g\t0\n" % ((k,) + tuple(m[k]))
                                                      for k in range(n))
    elif kind == "minimal":
        regs = list(st["mesh"]["volume_regions"])
        st = {"mesh": {"filename": "m.msh", "length_unit": s.unit, "volume_regions": {q: None for q in regs}},
              "outputs": {"evol_time_step": 1e-13, "final_time": 2e-13, "evol_columns": ["t"]},
              "initial_magnetization": ["1", "0", "0"]}
    elif kind == "verbose":
        args = ["--verbose"]
        st["finite_element_solver"] = {"max(iter)": int(rng.choice([2, 500]))}
    elif kind == "stdin":
        stdin = json.dumps(st)
        args = ["-"]
    elif kind == "retries":
        st["time_integration"]["max(du)"] = 0.003
        env["FG_NAN_AT"] = "3"
    elif kind == "listed once":
        st["demagnetizing_field_solver"] = {"nb_threads": int(rng.choice([0, 1, 2, 64]))}
        st["outputs"]["evol_columns"] = []
    s.settings, s.kind = st, kind
    s.args, s.stdin, s.extra, s.env = args, stdin, files, env
    return s


def run_valid(exe, s, env, pre=()):
    st = s.settings
    if s.stdin is not None:
        return fgrun.run(exe, None, s.files(), args=s.args, stdin=s.stdin, files=s.extra, env=dict(env, **s.env))
    return fgrun.run(exe, st, s.files(), args=s.args, files=s.extra, env=dict(env, **s.env))


def check_valid(ck, exe, n):
    ss = [valid(ck, i) for i in range(n)]
    for s, r in zip(ss, fgrun.pmap(lambda s: run_valid(exe, s, ASAN), ss)):
        F = dict(s.files(), **s.extra)
        ck.count("valid problems under the sanitizers")
        if not clean(ck, r, "valid problem (%s)" % s.kind, "valid", F):
            continue
        ck.ensure(not r.timeout, "valid-hang", "valid problem (%s) did not end" % s.kind, r, F)
        ok = r.rc == 0 or (r.rc == 1 and "ABORTED" in r.out) or (r.rc == 1 and s.kind == "recentre" and r.err)
        ck.ensure(ok, "valid", lambda: "valid problem (%s) ended with %s: %s" % (
            s.kind, fgrun.describe(r), r.err[-400:]), r, F)
        ck.count("aborted explicitly", int(r.rc == 1))
        ck.case(("valid", s.kind) + s.key, {"valid": s.kind, "scenario": s.desc})


def check_valgrind(ck, exe, n):
    """uninitialised memory: only reports with a frame in the solver itself count"""
    def go(i):
        s = valid(ck, 5000 + i)
        if s.kind == "single tet":
            s.settings["outputs"]["final_time"] = 1e-13
        d = tempfile.mkdtemp(prefix="c13v-", dir=fgrun.SCRATCH)
        try:
            s.mesh.write(os.path.join(d, "m.msh"))
            for k, v in s.extra.items():
                open(os.path.join(d, k), "w").write(v)
            json.dump(s.settings, open(os.path.join(d, "settings.yml"), "w"))
            e = dict(os.environ, HOME=d, FG_MON=os.path.join(d, "ev"), **s.env)
            log = os.path.join(d, "vg.log")
            try:
                p = subprocess.run(["valgrind", "--leak-check=no", "--num-callers=30", "--log-file=" + log, exe]
                                   + [a for a in s.args if a != "-"] + ["settings.yml"], cwd=d, env=e,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = None
            return s, rc, open(log, errors="replace").read()
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for s, rc, log in fgrun.pmap(go, range(n)):
        if rc is None:
            ck.count("too slow for valgrind")
            continue
        bad = []
        for rep in re.split(r"\n==\d+== \n", log):
            if not re.search(r"ninitialised|Invalid (read|write|free)|Mismatched|Jump to the invalid|overlap", rep):
                continue
            # the innermost frame of the solver's own code, before any library frame calls back
            fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (.*)", rep)
            if any(re.search(r"\((?:[\w-]+\.(?:cpp|h)):\d+\)|\(in .*feellgood", f) for f in fr[:8]):
                bad.append(rep)
        ck.ensure(not bad, "valgrind", lambda: "valid problem (%s): %s" % (s.kind, bad[0][:1500]), None,
                  dict(s.files(), **{"settings.yml": json.dumps(s.settings)}))
        ck.count("valid problems under valgrind")
        ck.case(("valgrind", s.kind))


# --- hostile settings ----------------------------------------------------------------------
HOSTILE = [None, [], {}, "", "x", -1, 0, 1, -1e300, 1e300, "1e400", "nan", "-inf", 2 ** 31, 2 ** 63, -2 ** 31 - 1,
           10 ** 30, [1, 2], [1, 2, 3, 4], [[1], 2, 3], [None, None, None], ["a", "b", "c"], True, False, "true",
           "A" * 5000, "\u00e9\u4e2d\u2028", "a\nb\n\nc", "%s%n%s", "../x", "/nonexistent/y", "{", "function(",
           "function(x){ return [1,0,0]; }", "function(x,y,z){ throw 1; }", "function(t){ return t; }",
           "function(x,y,z){ return [x/0, 0/0, 1]; }", "function f(){ return 1 + f(); } f()",
           "function(x,y,z){ return {length:3}; }", [0, 0, 0], [1e-320, 0, 0], {"a": {"b": [1, {"c": None}]}},
           "__default__", "0x10", "1_000", "~", ["x", "y"], {"space": 1}, {"space": "function(x,y,z){return 1}",
                                                                        "time": "function(t){return 1}"}]


def paths(d, pre=()):
    out = []
    if isinstance(d, dict):
        for k, v in d.items():
            out.append(pre + (k,))
            out += paths(v, pre + (k,))
    elif isinstance(d, list):
        for k, v in enumerate(d):
            out.append(pre + (k,))
            out += paths(v, pre + (k,))
    return out


def put(d, path, val):
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = val


def drop(d, path):
    for k in path[:-1]:
        d = d[k]
    del d[path[-1]]


KEYS = ["evol_time_step", "final_time", "evol_columns", "mag_config_every", "filename", "length_unit",
        "volume_regions", "surface_regions", "Ms", "Js", "Ae", "K", "uk", "K3", "ex", "ey", "ez", "alpha_LLG", "Ks",
        "suppress_charges", "jn", "V", "s", "uP", "sigma", "dens_state", "P", "l_sd", "l_sf", "enable", "direction",
        "threshold", "tolerance", "max(iter)", "nb_threads", "min(dt)", "max(dt)", "max(du)", "space", "time",
        "directory", "file_basename", "metadata", "V_file", "outputs", "mesh", "Bext", "initial_magnetization",
        "initial_time", "recentering", "finite_element_solver", "demagnetizing_field_solver", "time_integration",
        "spin_accumulation", "__default__"]


def hostile_settings(ck, i):
    rng = ck.sub_rng(2, i)
    base = (fgspin.make if i % 5 == 4 else fgscen.make)(rng, steps=1, n=tuple(int(x) for x in rng.integers(1, 3, 3)))
    st = base.settings
    st["recentering"] = {"enable": bool(rng.random() < .3), "direction": "Z", "threshold": 0.1}
    st["finite_element_solver"] = {"tolerance": 1e-6, "max(iter)": 100}
    st["outputs"]["metadata"] = {"a": "b"}
    n = int(rng.choice([1, 1, 1, 2, 3]))
    how = []
    for _ in range(n):
        p = paths(st)
        if not p:
            break
        q = p[int(rng.integers(len(p)))]
        act = rng.choice(["set", "set", "set", "drop", "add"])
        if act == "set":
            v = copy.deepcopy(HOSTILE[int(rng.integers(len(HOSTILE)))])
            put(st, q, v)
        elif act == "drop":
            drop(st, q)
        else:
            v = copy.deepcopy(HOSTILE[int(rng.integers(len(HOSTILE)))])
            k = KEYS[int(rng.integers(len(KEYS)))]
            d = st
            for x in q[:-1]:
                d = d[x]
            if isinstance(d, dict):
                d[k] = v
            q = q[:-1] + (k,)
        how.append("%s %s" % (act, "/".join(map(str, q))))
    text = json.dumps(st)
    if i % 4 == 3:   # and the text itself
        b = list(text)
        for _ in range(int(rng.integers(1, 6))):
            if not b:
                break
            j = int(rng.integers(len(b)))
            act = rng.choice(["flip", "del", "ins", "cut", "dup"])
            if act == "flip":
                b[j] = str(rng.choice(list(string.printable)))
            elif act == "del":
                del b[j]
            elif act == "ins":
                b.insert(j, str(rng.choice(["\x00", "\t", "&a ", "*a ", "!!int ", "---\n", "{", "]", "\ufeff", ": ",
                                            "\r\n", "#", "'", "\"", "? ", "<<: "])))
            elif act == "cut":
                b = b[:max(1, j)]
            else:
                e = min(len(b), j + int(rng.integers(1, 200)))
                b[j:j] = b[j:e]
        text = "".join(b)
        how.append("text")
    return base, text, how


TEXTS = ["", "\n", "\x00", "[", "a: [1", "- 1", "12", "outputs: 3", "mesh: [1]", "{}", "null", "---\n---\n", "a: &x [*x]",
         "? [1]\n: 2\n", "!!binary zz", "%YAML 9.9\n---\n", "outputs: {evol_columns: [[1]]}", "'" * 3000,
         "[" * 3000, "{a: " * 3000, "a: " + "b" * 100000, "mesh: {volume_regions: {? [1, 2] : {}}}",
         "outputs: {metadata: {? {a: b} : c}}", "\t\tmesh: 1", "mesh: {filename: m.msh, filename: m.msh}",
         "Bext: [1, 2, 3]\nBext: 5", "recentering: {enable: maybe}", "outputs: {mag_config_every: yes please}"]


def check_settings(ck, exe, n):
    jobs = [hostile_settings(ck, i) for i in range(n)]
    m = fgscen.make(ck.sub_rng(77), steps=1, n=(1, 1, 1), nreg=1)
    jobs += [(m, t, ["text %r" % t[:40]]) for t in TEXTS]

    def go(j):
        return fgrun.run(exe, None, j[0].files(), settings_text=j[1], env=ASAN, timeout=25, parse=False)
    for j, r in zip(jobs, fgrun.pmap(go, jobs)):
        base, text, how = j
        F = dict(base.files(), **{"settings.yml": text})
        what = "settings with %s" % ", ".join(how)
        ck.count("hostile settings files")
        if not clean(ck, r, what, "settings", F):
            continue
        if r.timeout:
            busy = sum(e["ev"] == "fmm" for e in r.events) > 20
            if not busy:   # not merely a long simulation: try again with more time
                r = fgrun.run(exe, None, base.files(), settings_text=text, env=ASAN, timeout=100, parse=False)
                busy = not r.timeout or sum(e["ev"] == "fmm" for e in r.events) > 20
                ck.ensure(busy, "settings-hang", lambda: "%s: no end and no progress" % what, r, F)
            ck.count("long simulations, stopped")
            continue
        if r.rc != 0:
            said = r.err.strip() or "ABORTED" in r.out or "FAILED" in r.out
            ck.ensure(said, "settings-silent", lambda: "%s: %s without a message" % (what, fgrun.describe(r)), r, F)
            ck.count("of them refused")
        ck.case(("settings", tuple(how)[:1]), {"settings": how, "status": r.rc})


# --- hostile meshes ------------------------------------------------------------------------
def hostile_mesh(ck, i):
    rng = ck.sub_rng(3, i)
    s = fgscen.make(rng, steps=1, n=tuple(int(x) for x in rng.integers(1, 3, 3)), surfaces=int(rng.integers(0, 3)))
    d = tempfile.mkdtemp(prefix="c13m-", dir=fgrun.SCRATCH)
    p = os.path.join(d, "m.msh")
    s.mesh.write(p)
    text = open(p).read()
    shutil.rmtree(d, ignore_errors=True)
    L = text.split("\n")
    how = []
    for _ in range(int(rng.choice([1, 1, 2, 4]))):
        act = str(rng.choice(["cut", "line", "word", "dupline", "swap", "byte", "section", "count"]))
        how.append(act)
        j = int(rng.integers(len(L)))
        if act == "cut":
            L = L[:j] + ([L[j][:int(rng.integers(0, len(L[j]) + 1))]] if rng.random() < .5 else [])
            L = L or [""]
        elif act == "line":
            del L[j]
            L = L or [""]
        elif act == "word":
            w = L[j].split(" ")
            w[int(rng.integers(len(w)))] = str(rng.choice(["-1", "0", "99999", "x", "1e400", "", "4294967297", "1.5",
                                                           "-0", "2147483648", "15", "4", "1", "2"]))
            L[j] = " ".join(w)
        elif act == "dupline":
            L.insert(j, L[int(rng.integers(len(L)))])
        elif act == "swap":
            k = int(rng.integers(len(L)))
            L[j], L[k] = L[k], L[j]
        elif act == "byte":
            if L[j]:
                k = int(rng.integers(len(L[j])))
                L[j] = L[j][:k] + chr(int(rng.integers(32, 127))) + L[j][k + 1:]
        elif act == "section":
            heads = [k for k, l in enumerate(L) if l.startswith("$")]
            if heads:
                k = heads[int(rng.integers(len(heads)))]
                L[k] = str(rng.choice(["$Nodes", "$EndNodes", "$Elements", "$Foo", "", "$PhysicalNames"]))
        else:
            nums = [k for k, l in enumerate(L) if l.strip().isdigit()]
            if nums:
                k = nums[int(rng.integers(len(nums)))]
                L[k] = str(int(L[k]) + int(rng.choice([-1, 1, 5, -3])))
    return s, "\n".join(L), how


def check_meshes(ck, exe, n):
    jobs = [hostile_mesh(ck, i) for i in range(n)]
    b = fgscen.make(ck.sub_rng(78), steps=1, n=(1, 1, 1), nreg=1, surfaces=0)
    for t in ["", "\n", "\x00" * 100, "$MeshFormat\n", "$MeshFormat\n9.9 0 8\n$EndMeshFormat\n", "junk\n" * 5,
              "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n", "$MeshFormat\n2.2 1 8\n\x01\x00\x00\x00\n$EndMeshFormat\n"]:
        jobs.append((b, t, ["text %r" % t[:30]]))

    def go(j):
        return fgrun.run(exe, j[0].settings, {}, files={"m.msh": j[1].encode("latin1")}, env=ASAN, timeout=40)
    for (s, text, how), r in zip(jobs, fgrun.pmap(go, jobs)):
        F = {"m.msh": text, "settings.yml": json.dumps(s.settings)}
        what = "mesh with %s" % ", ".join(how)
        ck.count("hostile mesh files")
        if not clean(ck, r, what, "mesh", F):
            continue
        if r.timeout:
            busy = sum(e["ev"] == "fmm" for e in r.events) > 20
            if not busy:
                r = go((s, text, how))
                busy = not r.timeout or sum(e["ev"] == "fmm" for e in r.events) > 20
            ck.ensure(busy, "mesh-hang", lambda: "%s: no end and no progress" % what, r, F)
            continue
        if r.rc != 0:
            said = r.err.strip() or "ABORTED" in r.out or "FAILED" in r.out
            ck.ensure(said, "mesh-silent", lambda: "%s: %s without a message" % (what, fgrun.describe(r)), r, F)
            ck.count("of them refused")
        ck.case(("mesh", tuple(how)), {"mesh": how, "status": r.rc})


# --- hostile restart files -----------------------------------------------------------------
def check_restarts(ck, exe, n):
    jobs = []
    for i in range(n):
        rng = ck.sub_rng(4, i)
        s = fgscen.make(rng, steps=1, n=tuple(int(x) for x in rng.integers(1, 3, 3)))
        b = s.body()
        m = s.init(b.p)
        m[~b.magnode] = np.nan
        L = ["## feeLLGood version: x", "## time: 0", "## columns: idx\tmx\tmy\tmz\tphi"]
        L += ["%d\t%.7e\t%.7e\t%.7e\t%.7e" % ((k,) + tuple(m[k]) + (0.0,)) for k in range(len(b.p))]
        how = []
        for _ in range(int(rng.choice([1, 1, 2, 3]))):
            act = str(rng.choice(["cut", "line", "word", "dup", "byte", "long", "swap"]))
            how.append(act)
            j = int(rng.integers(len(L)))
            if act == "cut":
                L = L[:j] + [L[j][:int(rng.integers(0, len(L[j]) + 1))]]
            elif act == "line":
                del L[j]
            elif act == "word":
                w = L[j].split("\t")
                w[int(rng.integers(len(w)))] = str(rng.choice(["nan", "inf", "-1", "1e400", "x", "", "99999999999",
                                                               "1e-320", "0x1p3", "-nan(12)"]))
                L[j] = "\t".join(w)
            elif act == "dup":
                L.insert(j, L[j])
            elif act == "byte":
                k = int(rng.integers(len(L[j]) + 1))
                L[j] = L[j][:k] + chr(int(rng.integers(0, 127))) + L[j][k:]
            elif act == "long":
                L[j] += "\t1" * 20000
            else:
                k = int(rng.integers(len(L)))
                L[j], L[k] = L[k], L[j]
            L = L or [""]
        st = dict(s.settings, initial_magnetization="x.sol")
        jobs.append((s, st, "\n".join(L) + str(rng.choice(["", "\n"])), how))
    for (s, st, text, how), r in zip(jobs, fgrun.pmap(lambda j: fgrun.run(
            exe, j[1], j[0].files(), files={"x.sol": j[2]}, env=ASAN, timeout=60), jobs)):
        F = dict(s.files(), **{"x.sol": text})
        what = "restart file with %s" % ", ".join(how)
        ck.count("hostile restart files")
        if not clean(ck, r, what, "restart", F):
            continue
        ck.ensure(not r.timeout, "restart-hang", what + ": no end", r, F)
        if r.rc:
            said = r.err.strip() or "ABORTED" in r.out
            ck.ensure(said, "restart-silent", lambda: what + ": %s without a message" % fgrun.describe(r), r, F)
            ck.count("of them refused")
        ck.case(("restart", tuple(how)))


# --- command lines, and inputs that are certainly invalid ----------------------------------
def check_refused(ck, exe):
    s = fgscen.make(ck.sub_rng(5), steps=1, n=(2, 1, 1), nreg=1, surfaces=0, field="const")
    base = s.settings

    def ov(**kw):
        st = copy.deepcopy(base)

        def merge(a, b):
            for k, v in b.items():
                if isinstance(v, dict) and isinstance(a.get(k), dict):
                    merge(a[k], v)
                else:
                    a[k] = v
        merge(st, kw)
        return st
    J = []
    for name, st in [
            ("evol_time_step 0", ov(outputs={"evol_time_step": 0})),
            ("evol_time_step < 0", ov(outputs={"evol_time_step": -1e-12})),
            ("min(dt) 0", ov(time_integration={"min(dt)": 0})),
            ("min(dt) < 0", ov(time_integration={"min(dt)": -1})),
            ("max(dt) 0", ov(time_integration={"max(dt)": 0})),
            ("max(du) 0", ov(time_integration={"max(du)": 0})),
            ("unknown column", ov(outputs={"evol_columns": ["t", "nope"]})),
            ("column of an unknown region", ov(outputs={"evol_columns": ["nope:<Mx>"]})),
            ("unknown region", ov(mesh={"volume_regions": {"nowhere": {}}})),
            ("unknown surface", ov(mesh={"surface_regions": {"nowhere": {"Ks": 1e-3}}})),
            ("zero initial magnetization", ov(initial_magnetization=["0", "0", "0"])),
            ("undefined initial magnetization", ov(initial_magnetization=["0/0", "0", "1"])),
            ("two components", ov(initial_magnetization=["1", "0"])),
            ("syntax error in an expression", ov(initial_magnetization=["1", "cos(", "0"])),
            ("unknown function in an expression", ov(initial_magnetization=["1", "foo(x)", "0"])),
            ("function returning two numbers", ov(Bext="function(t) { return [1, 2]; }")),
            ("function throwing", ov(Bext="function(t) { throw 'no'; }")),
            ("function returning text", ov(Bext="function(t) { return ['a', 1, 2]; }")),
            ("field with two components", ov(Bext=["1", "2"])),
            ("space without time", ov(Bext={"space": "function(x,y,z) { return [1,0,0]; }"})),
            ("missing restart file", ov(initial_magnetization="nothing.sol")),
            ("missing mesh", ov(mesh={"filename": "nothing.msh"})),
            ("mesh is a directory", ov(mesh={"filename": "."})),
            ("recentering along W", ov(recentering={"enable": True, "direction": "W"})),
            ("length unit text", ov(mesh={"length_unit": "nm"})),
            ("Ms text", ov(mesh={"volume_regions": {"vol": {"Ms": "big"}}})),
            ("uk with two components", ov(mesh={"volume_regions": {"vol": {"uk": [0, 1]}}})),
            ("output directory is a file", ov(outputs={"directory": "m.msh"})),
            ("spin accumulation without boundary conditions", ov(spin_accumulation={"enable": True})),
            ("settings is a list", [1, 2]), ("mesh section is a list", ov(mesh=[1])),
            ("final_time text", ov(outputs={"final_time": "late"}))]:
        J.append((name, st, ["settings.yml"], None))
    for name, args in [("no such settings file", ["nothing.yml"]), ("unknown option", ["--frobnicate", "settings.yml"]),
                       ("two settings files", ["settings.yml", "settings.yml"]),
                       ("settings file is a directory", ["."])]:
        J.append((name, base, args, None))
    K = []
    for name, args, ok in [("--help", ["--help"], True), ("--version", ["--version"], True), ("-h", ["-h"], True),
                           ("--print-defaults", ["--print-defaults"], True),
                           ("--print-rw-time", ["--print-rw-time"], None),
                           ("--print-template", ["--print-template"], True),
                           ("--seed without value", ["--seed"], None), ("empty argument", [""], None),
                           ("--seed text", ["--seed", "abc", "settings.yml"], None),
                           ("--seed huge", ["--seed", "9" * 40, "settings.yml"], None),
                           ("--verify", ["--verify", "settings.yml"], True),
                           ("options twice", ["--verify", "--verify", "settings.yml"], None),
                           ("long argument", ["x" * 10000], None), ("--", ["--", "settings.yml"], None),
                           ("--verify nothing", ["--verify"], None), ("-vv", ["-vv", "settings.yml"], None)]:
        K.append((name, args, ok))

    def go(j):
        st, args = j
        d = tempfile.mkdtemp(prefix="c13r-", dir=fgrun.SCRATCH)
        with open(os.path.join(d, "settings.yml"), "w") as f:
            json.dump(st, f)
        r = fgrun.run(exe, None, s.files(), args=args, workdir=d, env=ASAN, timeout=60, stdin="", parse=False)
        r.left = [x for x in os.listdir(d) if x.endswith(".sol")]
        r.rows = 0
        for x in os.listdir(d):
            if x.endswith(".evol"):
                r.rows = sum(not l.startswith("#") for l in open(os.path.join(d, x)))
        shutil.rmtree(d, ignore_errors=True)
        return r
    for (name, st, args, _), r in zip(J, fgrun.pmap(lambda j: go((j[1], j[2])), J)):
        F = dict(s.files(), **{"settings.yml": json.dumps(st)})
        ck.count("invalid inputs")
        ck.case(("invalid", name))
        if not clean(ck, r, name, "invalid", F):
            continue
        ck.ensure(not r.timeout, "invalid-hang", name + ": no end", r, F)
        ck.ensure(r.timeout or (r.rc and r.rc > 0), "invalid-accepted", lambda: "%s: ended with %s" % (
            name, fgrun.describe(r)), r, F)
        said = r.err.strip() or "ABORTED" in r.out
        ck.ensure(r.timeout or said, "invalid-silent", lambda: "%s: %s without a message on the error stream" % (
            name, fgrun.describe(r)), r, F)
        if name not in ("min(dt) 0", "max(du) 0"):
            ck.ensure(not r.left and not r.rows, "invalid-results", lambda: "%s: results were written (%s, %d rows)"
                      % (name, r.left, r.rows), r, F)
    for (name, args, ok), r in zip(K, fgrun.pmap(lambda k: go((base, k[1])), K)):
        ck.count("command lines")
        ck.case(("command line", name))
        if not clean(ck, r, name, "cli", s.files()):
            continue
        ck.ensure(not r.timeout, "cli-hang", name + ": no end", r, s.files())
        if ok:
            ck.ensure(r.rc == 0, "cli", lambda: "%s: %s: %s" % (name, fgrun.describe(r), r.err[-200:]), r, s.files())
        elif r.rc:
            ck.ensure(r.err.strip(), "cli-silent", lambda: "%s: %s without a message" % (
                name, fgrun.describe(r)), r, s.files())


def run(ck):
    ck.rule = ("the solver built with the address and undefined-behaviour sanitizers and the library's assertions, "
               "on valid problems of every kind and on mutated settings, meshes, restart files and command lines; "
               "valgrind on valid problems; distinct = kind of input and of mutation")
    ck.assumptions = ["memory leaks are not judged", "libraries (gmsh, yaml-cpp, duktape, TBB) are not instrumented",
                      "a mutated file may happen to be valid: only the certainly invalid ones have to be refused"]
    os.makedirs(fgrun.SCRATCH, exist_ok=True)
    exe, _ = fgbuild.Variant("asan").feellgood()
    t = ck.thorough
    check_refused(ck, exe)
    check_valid(ck, exe, 600 if t else 112)
    check_settings(ck, exe, 4000 if t else 300)
    check_meshes(ck, exe, 3000 if t else 200)
    check_restarts(ck, exe, 1500 if t else 100)
    exe, _ = fgbuild.Variant("vg").feellgood()
    check_valgrind(ck, exe, 56 if t else 14)
