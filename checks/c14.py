"""C14: restarts from saved configurations, interruptions at chosen and random moments, damaged
restart files."""
import copy
import os
import re
import shutil
import signal
import subprocess
import tempfile
import time
import numpy as np
import fgbuild
import fgrun
import fgscen
import fgspin

ENERGIES = ["E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot"]
METAS = [None, None, {"note": "## time: 12345"}, {"## time": "777"}, {"a": "one\n## time: 5\nthree"}]


def problem(rng, i, tau, steps, du=0.3, ndt=8, **kw):
    n = tuple(int(x) for x in rng.integers(1, 4, 3))
    if i % 4 == 3:
        s = fgspin.make(rng, steps=steps, tau=tau, n=n, hst=float(10 ** rng.uniform(4, 5)), **kw)
    else:
        s = fgscen.make(rng, steps=steps, tau=tau, n=n, nonmag=True if i % 4 == 1 else None,
                        nreg=2 if i % 4 == 1 else None, **kw)
    s.spin = i % 4 == 3
    s.settings["time_integration"] = {"max(du)": du, "min(dt)": 1e-18, "max(dt)": tau / ndt}
    s.settings["finite_element_solver"] = {"tolerance": 1e-10, "max(iter)": 5000}
    m = METAS[int(rng.integers(len(METAS)))]
    if m:
        s.settings["outputs"]["metadata"] = m
    s.t0 = float(rng.choice([0.0, 0.0, 2.5e-12, -1e-12]))
    if s.t0:
        s.settings["initial_time"] = s.t0
    s.settings["outputs"]["final_time"] = s.t0 + steps * tau
    s.tau, s.steps = tau, steps
    return s


def mag(a):
    return a[:, 1:4]


def aborted(r):
    return r.rc == 1 and "ABORTED" in r.out


# --- restart -------------------------------------------------------------------------------
def restart(ck, exe, n):
    ss = []
    for i in range(n):
        rng = ck.sub_rng(1, i)
        # smooth textures and fine steps: the truncation error of the step after the restart is small
        s = problem(rng, i, float(10 ** rng.uniform(-13.2, -12.5)), 4, ndt=50,
                    tex=str(rng.choice(["uniform", "wave", "tilt", "vortex", "wall", "axis"])))
        s.k = int(rng.choice([0, 1, 2, 3]))
        s.rng = rng
        s.mode = ["same", "initial_time", "plain", "unnormalised", "in a directory"][i % 5]
        ss.append(s)
    rs = fgrun.pmap(lambda s: s.run(exe, keep=True), ss)
    jobs = []
    for s, r in zip(ss, rs):
        F = s.files()
        s.ok = False
        try:
            if aborted(r):
                ck.count("given up by the integrator")
                continue
            if not ck.ensure(r.rc == 0, "run", lambda: "valid problem ended with %s: %s" % (
                    fgrun.describe(r), r.err[-300:]), r, F):
                continue
            name = "out_iter%d.sol" % s.k
            if not ck.ensure(name in r.sols, "saved", "%s is missing" % name, r, F):
                continue
            text = open(os.path.join(r.dir, name)).read()
        finally:
            shutil.rmtree(r.dir, ignore_errors=True)
        st = copy.deepcopy(s.settings)
        o = st["outputs"]
        st.pop("initial_time", None)
        s.tk = s.t0 + s.k * s.tau
        s.tfile = s.tk
        if s.mode == "initial_time":
            s.tfile = float(s.rng.choice([0.0, 7e-12]))
            st["initial_time"] = s.tfile
        elif s.mode == "unnormalised":
            L = []
            for l in text.split("\n"):
                f = l.split("\t")
                if l and not l.startswith("#"):
                    c = float(s.rng.choice([0.25, 1.7, 1e-3, 300.0]))
                    f[1:4] = [repr(float(x) * c) for x in f[1:4]]
                L.append("\t".join(f))
            text = "\n".join(L)
        name2 = "sub dir/x.sol" if s.mode == "in a directory" else "start.sol"
        st["initial_magnetization"] = name2
        o["file_basename"] = "again"
        o["final_time"] = s.tfile + (s.steps - s.k) * s.tau
        jobs.append((s, r, st, {name2: text}, None))
        if s.spin and s.rng.random() < 0.5:   # the file has spin columns, the new run does not use them
            st2 = copy.deepcopy(st)
            st2["spin_accumulation"] = {"enable": False}
            o2 = st2["outputs"]
            o2["final_time"] = s.tfile
            jobs.append((s, r, st2, {name2: text}, "spin off"))
    res = fgrun.pmap(lambda j: fgrun.run(exe, j[2], j[0].files(), files=j[3]), jobs)
    for (s, r, st, fl, kind), q in zip(jobs, res):
        F = dict(s.files(), **{os.path.basename(k): v for k, v in fl.items()})
        b = s.body()
        if aborted(q):
            ck.count("given up by the integrator")
            continue
        if not ck.ensure(q.rc == 0, "restart", lambda: "restart (%s) ended with %s: %s" % (
                s.mode, fgrun.describe(q), q.err[-300:]), q, F):
            continue
        t = fgrun.col(q, "t")
        if not ck.ensure(len(t) and "again_iter0.sol" in q.sols, "restart-rows", lambda: "restart (%s): %d "
                         "rows and configurations %s" % (s.mode, len(t), sorted(q.sols)), q, F):
            continue
        ck.ensure(abs(t[0] - s.tfile) <= 1.01e-6 * abs(s.tfile) + 1e-22, "restart-time", lambda:
                  "restart (%s): first row at t=%.10g, expected %.10g" % (s.mode, t[0], s.tfile), q, F)
        a, w = mag(r.sols["out_iter%d.sol" % s.k][2]), q.sols["again_iter0.sol"][2]
        d = np.abs(a - mag(w))[b.magnode].max()
        ck.ensure(d < 2e-7, "restart-state", lambda: "restart (%s): first configuration differs from the "
                  "saved one by %.3g" % (s.mode, d), q, F)
        ck.ensure(np.isnan(mag(w)[~b.magnode]).all(), "restart-nonmagnetic", "restart: nodes without "
                  "magnetization are not nan", q, F)
        ck.count("restarts")
        if kind == "spin off":
            ck.ensure(w.shape[1] == 5, "restart-spin-off", "spin columns without spin accumulation", q, F)
            continue
        # same observables in the first row (the same state, fields at the same time)
        names = [c for c in ["<Mx>", "<My>", "<Mz>"] + ENERGIES if not (
            c in ("E_zeeman", "E_tot") and s.mode == "initial_time")]
        scale = max(abs(r.evol[:, r.cols.index(c)]).max() for c in ENERGIES)
        for c in names:
            x, y = r.evol[s.k, r.cols.index(c)], q.evol[0, q.cols.index(c)]
            lim = 1e-6 if c[0] == "<" else 3e-6 * scale
            ck.ensure(abs(x - y) <= lim, "restart-" + c, lambda: "restart: %s=%.10g in the first row, it was"
                      " %.10g when saved" % (c, y, x), q, F)
        if s.spin:
            x, y = r.sols["out_iter%d.sol" % s.k][2][:, 5:8], w[:, 5:8]
            ck.ensure(np.abs(x - y).max() <= 1e-5 * np.abs(x).max(), "restart-spin", lambda: "restart: spin "
                      "accumulation of the first row differs from that saved with the configuration", q, F)
        # continues to the same results
        if s.mode == "initial_time" and s.field in ("time", "func", "xt"):
            continue
        moved = step = 0.0
        worst = 0.0
        for j in range(1, s.steps - s.k + 1):
            n1, n2 = "out_iter%d.sol" % (s.k + j), "again_iter%d.sol" % j
            if not ck.ensure(n2 in q.sols, "restart-rows", n2 + " is missing", q, F):
                break
            x, y = mag(r.sols[n1][2]), mag(q.sols[n2][2])
            moved = max(moved, np.abs(x - a)[b.magnode].max())
            worst = max(worst, np.abs(x - y)[b.magnode].max())
        # the step before the restart had a velocity, the first one after it starts from rest: one step
        # of the local truncation error, a small part of the motion
        ck.ensure(worst < 1e-5 + 0.03 * moved, "continuation", lambda: "restart (%s) from row %d: later "
                  "configurations differ by %.3g for a motion of %.3g; %s" % (
                      s.mode, s.k, worst, moved, s.desc), q, F)
        ck.maximum("difference after a restart / motion", worst / (moved + 1e-3))
        ck.case(("restart", s.mode, s.k, s.spin) + s.key, {"restart": s.mode, "row": s.k, "scenario": s.desc})


# --- interruption --------------------------------------------------------------------------
def states(path):
    out = {}
    try:
        for l in open(path):
            f = l.split()
            out[(int(f[0]), f[1])] = (float(f[2]), np.array(f[3:], float).reshape(-1, 3))
    except (OSError, ValueError, IndexError):
        pass
    return out


def interrupted(ck, exe, traced, n):
    jobs = []
    for i in range(n):
        rng = ck.sub_rng(2, i)
        tau = float(10 ** rng.uniform(-13.3, -12.3))
        du = float(rng.choice([0.01, 0.05, 0.3]))
        s = problem(rng, i, tau, 5, du=du, ndt=float(rng.choice([0.5, 2, 5])))
        s.save = s.settings["outputs"]["mag_config_every"] = [1, 3, 100, False][int(rng.choice(4, p=[.3, .3, .2, .2]))]
        s.dir = str(rng.choice([".", "res"]))
        s.settings["outputs"]["directory"] = s.dir
        s.sig = int(rng.choice([signal.SIGINT, signal.SIGTERM]))
        env = {}
        s.at = int(rng.choice([1, 2, 3, 5, 8, 12]))
        s.where = "solve" if traced and i % 2 else "fmm"
        if s.where == "solve":
            env["FG_SIG_SOLVE"] = "%d:%d" % (s.at, s.sig)
            if rng.random() < 0.8:   # attempts around it fail
                env["FG_FAIL_AT"] = ",".join(str(x) for x in rng.choice([s.at - 1, s.at, s.at + 1, s.at + 2], 2))
        else:
            env["FG_SIG_AT"] = "%d:%d" % (s.at, s.sig)
        s.env = env
        jobs.append(s)

    def go(s):
        d = tempfile.mkdtemp(prefix="c14-", dir=fgrun.SCRATCH)
        r = s.run(exe, workdir=d, env=dict(s.env, FG_STATE=os.path.join(d, "states")))
        r.states = states(os.path.join(d, "states"))
        shutil.rmtree(d, ignore_errors=True)
        return r
    again = []
    for s, r in zip(jobs, fgrun.pmap(go, jobs)):
        F = s.files()
        b = s.body()
        if aborted(r):
            ck.count("given up by the integrator")
            continue
        what = "%s during %s %d" % (signal.Signals(s.sig).name, s.where, s.at)
        solves = [e for e in r.events if e["ev"] == "solve"]
        if r.rc == 0:
            # the signal came after the last step, or too late to be raised at all
            tf = s.t0 + s.steps * s.tau
            late = r.evol is not None and len(r.evol) == s.steps + 1
            if s.where == "solve":
                late = late and s.at >= len(solves)
            else:
                late = late and sum(e["ev"] == "fmm" for e in r.events) <= s.at + 1
            ck.ensure(late, "signal-ignored", lambda: "%s: the run went on and ended normally" % what, r, F)
            ck.count("signals too late")
            del tf
            continue
        if not ck.ensure(r.rc == -s.sig, "signal-status", lambda: "%s: ended with %s: %s" % (
                what, fgrun.describe(r), r.err[-300:]), r, F):
            continue
        ck.count("interruptions in " + s.where)
        name = "out_at_exit.sol"
        if not s.save:
            ck.ensure(name not in r.sols, "saved-unwanted", what + ": configuration saved although saving is"
                      " disabled", r, F)
            ck.count("interruptions without saving")
            continue
        if not ck.ensure(name in r.sols, "not-saved", lambda: what + ": no %s among %s" % (
                name, sorted(r.sols)), r, F):
            continue
        meta, cols, a = r.sols[name]
        t = fgrun.sol_time(meta)
        un = np.abs(np.linalg.norm(mag(a)[b.magnode], axis=1) - 1).max()
        ck.ensure(len(a) == len(b.p) and un < 1e-7, "at-exit-norm", lambda: what + ": saved configuration has "
                  "%d lines for %d nodes, norms off by %g" % (len(a), len(b.p), un), r, F)
        if s.spin:
            q = fgspin.Spin(s)
            o = q.spin(np.nan_to_num(mag(a)))
            e = np.abs(a[:, 5:8] - o).max() / np.abs(o).max() if a.shape[1] == 8 else np.inf
            ck.ensure(e < 1e-5, "at-exit-spin", lambda: what + ": spin accumulation saved at exit is not that "
                      "of the configuration (%.3g)" % e, r, F)
        # rows: the scheduled ones up to the time of the interruption, no other
        tr = r.evol[:, r.cols.index("t")] if r.evol is not None else np.zeros(0)
        eps = 1.01e-6 * abs(t) + 1e-9 * s.tau
        want = [s.t0 + k * s.tau for k in range(s.steps + 1) if s.t0 + k * s.tau <= t + eps]
        ck.ensure(len(tr) == len(want), "rows", lambda: what + ": interrupted at t=%g with rows at %s" % (
            t, tr), r, F)
        if traced and r.states and solves:
            acc = []    # accepted states: (time, state), from the attempts
            for j, e in enumerate(solves):
                nxt = r.states.get((solves[j + 1]["n"], "a")) if j + 1 < len(solves) else None
                if nxt is not None and nxt[0] > float(e["t"]):
                    acc.append(nxt)
            # the last attempt of the trace: accepted if it did not fail and respected max(du)
            e = solves[-1]
            x = r.states.get((e["n"], "b"))
            lastok = not e["err"] and float(e["dt"]) * float(e["vmax"]) <= s.settings["time_integration"]["max(du)"]
            start = r.states.get((e["n"], "a"))
            cand = [x] if lastok else [start]
            near = [c for c in cand if c is not None and abs(c[0] - t) <= eps]
            if ck.ensure(near, "at-exit-time", lambda: what + ": saved with time %.9g, the last accepted state "
                         "is at %.9g" % (t, cand[0][0] if cand and cand[0] else np.nan), r, F):
                d = min(np.nanmax(np.abs(c[1] - mag(a))) for c in near)
                ck.ensure(d < 2e-7, "at-exit-state", lambda: what + ": saved configuration differs from the "
                          "last accepted state by %.3g" % d, r, F)
                ck.maximum("saved state vs last accepted state", d)
            if s.where == "solve" and s.at <= len(solves):
                # not one accepted step more than the one under way
                k0 = s.at - 1
                later = [e for e in solves[k0 + 1:] if not e["err"] and float(e["t"]) > float(solves[k0]["t"])]
                ck.ensure(not later, "stops", lambda: what + ": %d more steps were started afterwards" % len(
                    later), r, F)
                ck.count("of them with retries around the signal", int(len(solves) > s.at or bool(
                    solves[k0]["err"])))
        ck.case(("signal", s.sig, s.where, s.at, s.spin, bool(s.env.get("FG_FAIL_AT"))) + s.key,
                {"signal": what, "t": t, "rows": len(tr), "scenario": s.desc})
        again.append((s, r, a, t))
    # the saved file is a valid restart file
    def second(j):
        s, r, a, t = j
        st = copy.deepcopy(s.settings)
        st.pop("initial_time", None)
        st["initial_magnetization"] = "x.sol"
        st["outputs"].update(file_basename="again", final_time=t, directory=".", mag_config_every=1)
        meta, cols, _ = r.sols["out_at_exit.sol"]
        text = "\n".join(meta) + "\n" + "\n".join("\t".join(["%d" % l[0]] + ["%.8g" % x for x in l[1:]])
                                                 for l in a) + "\n"
        return fgrun.run(exe, st, s.files(), files={"x.sol": text})
    for (s, r, a, t), q in zip(again, fgrun.pmap(second, again)):
        if not ck.ensure(q.rc == 0 and "again_iter0.sol" in q.sols, "at-exit-restart", lambda: "the "
                         "configuration saved at exit is not accepted: %s %s" % (
                             fgrun.describe(q), q.err[-300:]), q, s.files()):
            continue
        d = np.nanmax(np.abs(mag(q.sols["again_iter0.sol"][2]) - mag(a)))
        ck.ensure(d < 2e-7 and abs(fgrun.col(q, "t")[0] - t) <= 1e-6 * abs(t), "at-exit-restart",
                  lambda: "restart from the configuration saved at exit: state off by %g" % d, q, s.files())
        ck.count("restarts from an interrupted run")


def killed(ck, exe, n):
    """signals from outside, at random moments of a long run"""
    def go(i):
        rng = ck.sub_rng(3, i)
        s = problem(rng, 0, 1e-13, 100000, ndt=2)
        s.settings["outputs"]["mag_config_every"] = 100000
        s.sig = int(rng.choice([signal.SIGINT, signal.SIGTERM]))
        d = tempfile.mkdtemp(prefix="c14k-", dir=fgrun.SCRATCH)
        res = {}

        def later():
            pass
        s.mesh.write(os.path.join(d, "m.msh"))
        import json
        with open(os.path.join(d, "settings.yml"), "w") as f:
            json.dump(s.settings, f)
        e = dict(os.environ, HOME=d, FG_MON=os.path.join(d, "ev"))
        p = subprocess.Popen([exe, "settings.yml"], cwd=d, env=e, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        end = time.time() + 60
        ev = os.path.join(d, "out.evol")
        while time.time() < end and not (os.path.exists(ev) and os.path.getsize(ev) > 0):
            if p.poll() is not None:
                break
            time.sleep(0.01)
        time.sleep(float(rng.uniform(0, 0.4)))
        ended = p.poll()
        if ended is None:
            p.send_signal(s.sig)
        try:
            out = p.communicate(timeout=120)[0].decode(errors="replace")
            res["rc"] = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out = p.communicate()[0].decode(errors="replace")
            res["rc"] = None
        res["out"], res["ended"] = out, ended
        try:
            res["sol"] = fgrun.parse_table(os.path.join(d, "out_at_exit.sol"))
        except (OSError, ValueError):
            res["sol"] = None
        try:
            res["evol"] = fgrun.parse_table(ev)
        except (OSError, ValueError):
            res["evol"] = None
        shutil.rmtree(d, ignore_errors=True)
        return s, res
    for s, x in fgrun.pmap(go, range(n)):
        if x["ended"] is not None:
            ck.count("ended before the signal")
            continue
        F = s.files()
        if not ck.ensure(x["rc"] == -s.sig, "kill-status", "signal %d from outside: exit status %s: %s" % (
                s.sig, x["rc"], x["out"][-300:]), None, F):
            continue
        if not ck.ensure(x["sol"] is not None, "kill-saved", "signal %d from outside: no valid configuration "
                         "saved" % s.sig, None, F):
            continue
        b = s.body()
        meta, cols, a = x["sol"]
        un = np.abs(np.linalg.norm(mag(a)[b.magnode], axis=1) - 1).max()
        ck.ensure(len(a) == len(b.p) and un < 1e-7, "kill-state", "configuration saved on a signal: %d lines, "
                  "norm off by %g" % (len(a), un), None, F)
        t = fgrun.sol_time(meta)
        if x["evol"] is not None and len(x["evol"][2]):
            _, c, v = x["evol"]
            tl = v[-1, c.index("t")]
            ck.ensure(-1e-6 * abs(tl) <= t - tl + 1e-20 and t - tl <= s.tau * 1.000001 + 1e-6 * abs(t),
                      "kill-time", "configuration saved on a signal has time %.9g, the last row is at %.9g" % (
                          t, tl), None, F)
            if abs(t - tl) < 1e-9 * s.tau:
                m = [v[-1, c.index(z)] for z in ("<Mx>", "<My>", "<Mz>")]
                d = np.abs(b.avg(np.nan_to_num(mag(a))) - m).max()
                ck.ensure(d < 1e-6, "kill-state", "configuration saved at the time of the last row has another"
                          " average magnetization (%g)" % d, None, F)
                ck.count("kills at a row")
        ck.count("signals from outside")
        ck.case(("kill", s.sig) + s.key)


# --- damaged files -------------------------------------------------------------------------
def damaged(ck, exe, n):
    jobs = []
    for i in range(n):
        rng = ck.sub_rng(4, i)
        s = problem(rng, i, 1e-13, 0)
        b = s.body()
        nn = len(b.p)
        m = s.init(b.p)
        m[~b.magnode] = np.nan
        head = ["## feeLLGood version: x", "## time: 1.5e-12", "## columns: idx\tmx\tmy\tmz\tphi"]
        body = ["%d\t%.7e\t%.7e\t%.7e\t%.7e" % ((k,) + tuple(m[k]) + (0.0,)) for k in range(nn)]
        km = int(rng.choice(np.nonzero(b.magnode)[0]))

        def put(name, lines, ok=False, files=True):
            st = copy.deepcopy(s.settings)
            st.pop("initial_time", None)
            st["outputs"]["final_time"] = 1.5e-12
            st["initial_magnetization"] = "start.sol"
            text = lines if isinstance(lines, (str, bytes)) else "\n".join(lines) + "\n"
            jobs.append((name, ok, s, st, {"start.sol": text} if files else {}))

        def edit(k, fn):
            x = list(body)
            f = x[k].split("\t")
            x[k] = "\t".join(fn(f))
            return head + x
        put("intact", head + body, ok=True)
        put("blank lines and comments", head + [""] + body[:1] + ["# comment"] + body[1:] + ["", ""], ok=True)
        put("spaces", [x.replace("\t", "  ") for x in head[:2]] + [x.replace("\t", "  ") for x in body], ok=True)
        put("missing file", "", files=False)
        put("empty file", "")
        put("header only", head)
        put("no time", [head[0], head[2]] + body)
        put("time not a number", [head[0], "## time: soon", head[2]] + body)
        put("time nan", [head[0], "## time: nan", head[2]] + body)
        put("one line short", head + body[:-1])
        put("first line missing", head + body[1:])
        put("one line too many", head + body + ["%d\t1\t0\t0\t0" % nn])
        put("half of the lines", head + body[:nn // 2])
        put("cut inside a line", "\n".join(head + body)[:-int(rng.integers(16, 40))])
        put("cut after three numbers", "\n".join(head + body[:-1] + ["\t".join(body[-1].split("\t")[:3])]))
        if nn > 2:
            put("lines swapped", head + [body[1], body[0]] + body[2:])
        put("index off by one", head + ["%d\t%s" % (k + 1, x.split("\t", 1)[1]) for k, x in enumerate(body)])
        put("nan on a magnetic node", edit(km, lambda f: [f[0], "nan"] + f[2:]))
        put("inf on a magnetic node", edit(km, lambda f: f[:2] + ["inf"] + f[3:]))
        put("zero vector", edit(km, lambda f: [f[0], "0", "0", "0", f[4]]))
        put("text in a line", edit(km, lambda f: f[:3] + ["abc"] + f[4:]))
        put("binary", bytes(rng.integers(0, 256, 500, dtype=np.uint8)))
        put("a mesh file", "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n")
    for (name, ok, s, st, fl), r in zip(jobs, fgrun.pmap(lambda j: fgrun.run(
            exe, j[3], j[2].files(), files=j[4]), jobs)):
        F = dict(s.files(), **{k: v for k, v in fl.items() if isinstance(v, str)})
        ck.count("restart files tried")
        if ok:
            ck.ensure(r.rc == 0 and r.evol is not None and len(r.evol) == 1 and
                      abs(fgrun.col(r, "t")[0] - 1.5e-12) < 1e-18, "intact", lambda: "restart file (%s) not "
                      "accepted: %s: %s" % (name, fgrun.describe(r), r.err[-300:]), r, F)
        else:
            ck.ensure(r.rc is not None and r.rc > 0 and r.err.strip(), "damaged", lambda: "restart file (%s): "
                      "not refused with a message and non-zero status: %s, stderr %r" % (
                          name, fgrun.describe(r), r.err[-200:]), r, F)
            ck.ensure(not any("iter" in x for x in r.sols), "damaged-output", lambda: "restart file (%s): "
                      "configurations were written" % name, r, F)
        ck.case(("file", name))


def run(ck):
    ck.rule = ("random problems restarted from one of their rows; signals raised inside chosen solves and "
               "field evaluations (with injected failures around them) or sent from outside at random "
               "moments; damaged restart files; distinct = problem, moment and kind")
    ck.assumptions = ["configuration files hold 8 significant digits and the time 7",
                      "the velocity is not saved: a restarted run starts from rest, which costs one step's "
                      "truncation error",
                      "a signal that arrives during the last step may be ignored"]
    os.makedirs(fgrun.SCRATCH, exist_ok=True)
    exe, traced = fgbuild.Variant("plain").feellgood(trace=True)
    ck.count("trace unit linked", int(traced))
    t = ck.thorough
    restart(ck, exe, 300 if t else 60)
    interrupted(ck, exe, traced, 400 if t else 80)
    killed(ck, exe, 40 if t else 8)
    damaged(ck, exe, 20 if t else 4)
