"""C03: which files a run leaves, when, with what in them."""
import os
import re
import shutil
import socket
import numpy as np
import fgbuild
import fgrun
import fgscen

META = [{}, {"Author": "A. Nonymous"}, {"Author": "first line\nsecond line", "Licence": "CC-BY"},
        {"note": "one\n  indented\n\nafter a blank line"}, {"empty": "", "u": "\u00e9\u03bc\u2080", "n": "12"},
        {"# sharp": "# not a comment", "tail": "ends with newline\n"}, {"k": "a\tb: c"}]


UP = "c03-up"


def setup(ck, i):
    rng = ck.sub_rng(i)
    size = tuple(int(x) for x in rng.integers(1, 3, 3))
    if i % 6 == 5:   # more nodes, few rows
        size = tuple(int(x) for x in rng.integers(4, 9, 3))
    s = fgscen.make(rng, steps=1, n=size)
    o, ti = s.settings["outputs"], s.settings["time_integration"]
    tau = float(rng.choice([1e-13, 3e-14, 7.3e-14, 1.1e-13, float(10 ** rng.uniform(-14.5, -12.7))]))
    k = int(rng.choice([0, 1, 2, 3, 7, 12, 40] if i % 6 != 5 else [0, 1]))
    frac = float(rng.choice([0, 0, 0.49, -0.49, 0.2])) if k else float(rng.choice([0, 0.3]))
    s.t0 = t0 = float(rng.choice([0, 0, 2.5e-12, -1e-12, 3e-9]))
    if t0:
        s.settings["initial_time"] = t0
    o["evol_time_step"], o["final_time"] = tau, t0 + (k + frac) * tau
    ti["max(dt)"], ti["min(dt)"], ti["max(du)"] = tau * float(rng.choice([1, 2, 0.4])), tau * 1e-5, .5
    s.k, s.tau = k, tau
    cols = [c for c in fgscen.ALL_COLS if s.Hxt is None or c not in ("Hx", "Hy", "Hz")]
    mag = [r for r in s.names if s.vols[r].get("Ms", 1) > 0]
    cols += ["%s:<M%s>" % (r, c) for r in mag for c in "xyz"]
    n = int(rng.choice([1, 2, 5, len(cols)]))
    cols = [cols[j] for j in rng.choice(len(cols), n, replace=bool(rng.random() < .2))]
    if "t" not in cols and rng.random() < 0.8:
        cols.insert(int(rng.integers(len(cols) + 1)), "t")
    o["evol_columns"] = s.cols = cols
    every = rng.choice(["1", "2", "3", "5", "100", "false", "0"])
    o["mag_config_every"] = {"false": False}.get(every, every if every == "false" else int(every)
                                                 if every != "false" else False)
    s.every = 0 if every == "false" else int(every)
    s.base = str(rng.choice(["out", "a b", "x.y", "run-1", ""]))
    if s.base:
        o["file_basename"] = s.base
    else:
        o.pop("file_basename")
        s.base = "m"
    s.dir = str(rng.choice([".", "res", "res/", "a b", "", "old", "old/er", "./old/er/", "../%s/res" % UP]))
    o["directory"] = s.dir
    s.meta = META[i % len(META)]
    if s.meta:
        o["metadata"] = s.meta
    s.sname = str(rng.choice(["settings.yml", "my file.yaml", "s"]))
    s.start = None
    if i % 5 == 4:
        # starts from a configuration file instead of the formula
        b = s.body()
        M0 = s.init(b.p)
        s.start = "## time: %s\n## columns: idx\tmx\tmy\tmz\tphi\n" % repr(t0) + "".join(
            "%d\t%s\t0\n" % (j, "\t".join(repr(float(x)) if b.magnode[j] else "nan" for x in u))
            for j, u in enumerate(M0))
        s.settings["initial_magnetization"] = "from here.sol"
        s.settings.pop("initial_time", None)
    return s


def header(ck, s, r, F, path, name):
    lines = open(os.path.join(path, name), errors="replace").read().split("\n")
    h = []
    for l in lines:
        if not l.startswith("#"):
            break
        h.append(l)
    rest = lines[len(h):]
    ck.count("headers")
    ck.ensure(not any(l.startswith("#") for l in rest), "comment-inside", "%s: comment lines after the"
              " header" % name, r, F)
    # before the user's metadata: what feeLLGood says of itself, in the documented order
    want = [("version", "verif-build"), ("host", socket.gethostname()), ("time", ""),
            ("settings", s.sname)]
    pos = 0
    for what, val in want:
        ok = pos < len(h) and h[pos].startswith("## ") and what in h[pos].split(":")[0].lower() and \
            h[pos].split(":", 1)[1].strip().endswith(val)
        ck.ensure(ok, "header-" + what, lambda: "%s: line %d is %r, expected the %s (%s)" % (
            name, pos + 1, h[pos] if pos < len(h) else None, what, val), r, F)
        pos += 1
    if len(h) > 2:
        ck.ensure(re.search(r"\d\d:\d\d", h[2]), "header-date", lambda: "%s: no date in %r" % (
            name, h[2]), r, F)
    exp = []
    for k, v in s.meta.items():
        v = v[:-1] if v.endswith("\n") else v
        ls = v.split("\n")
        exp.append((k, ls))
    got = h[pos:]
    body = "\n".join(got)
    for k, ls in exp:
        try:
            j = next(n for n, l in enumerate(got) if l.startswith("## %s:" % k))
        except StopIteration:
            ck.fail("metadata", "%s: metadata %r missing: %r" % (name, k, got), r, F)
            continue
        ck.ensure(got[j][len("## %s:" % k):].strip() == ls[0].strip(), "metadata", lambda:
                  "%s: metadata %r is %r, expected %r" % (name, k, got[j], ls[0]), r, F)
        for m, l in enumerate(ls[1:], 1):
            g = got[j + m] if j + m < len(got) else ""
            ck.ensure(g.startswith("#") and g.lstrip("#").strip() == l.strip(), "metadata-lines",
                      lambda: "%s: continuation line of %r is %r, expected %r" % (name, k, g, l), r, F)
        ck.count("metadata items")
    n = sum(len(ls) for _, ls in exp)
    return got[n:], rest


def judge(ck, s, r, path):
    F = s.files()
    if "**ABORTED**" in r.out and r.rc == 1:
        ck.count("aborted runs")
        return
    if not ck.ensure(r.rc == 0, "run", lambda: "valid problem ended with %s: %s" % (
            fgrun.describe(r), r.err[-300:]), r, F):
        return
    inputs = {"m.msh", s.sname, "events.jsonl", "keep.me", "from here.sol"}
    found = set()
    for root, ds, fs in os.walk(path):
        ds[:] = [x for x in ds if not x.startswith(".")]  # the gmsh library's own preferences
        for f in fs:
            p = os.path.relpath(os.path.join(root, f), path)
            if p not in inputs and os.path.basename(p) != "keep.me":
                found.add(os.path.normpath(p))
    nrows = s.k + 1
    s.dir = os.path.relpath(os.path.join(path, s.dir or "."), path)
    rel = os.path.normpath(s.dir)
    want = {os.path.normpath(os.path.join(rel, s.base + ".evol"))}
    iters = [k for k in range(nrows) if s.every and k % s.every == 0]
    want |= {os.path.normpath(os.path.join(rel, "%s_iter%d.sol" % (s.base, k))) for k in iters}
    ck.ensure(found == want, "files", lambda: "files written: %s; missing %s, unexpected %s" % (
        sorted(found), sorted(want - found), sorted(found - want)), r, F)
    ev = os.path.join(s.dir or ".", s.base + ".evol")
    rows = None
    if os.path.normpath(ev) in found:
        tail, rest = header(ck, s, r, F, path, ev)
        ck.ensure(len(tail) == 1 and tail[0] == "## columns: " + "\t".join(s.cols), "evol-columns",
                  lambda: "%s: column titles %r, requested %r" % (ev, tail, s.cols), r, F)
        rows = [l.split("\t") for l in rest if l]
        ck.ensure(rest and rest[-1] == "", "newline", "the evolution file does not end with a newline", r, F)
        ck.ensure(len(rows) == nrows, "rows", lambda: "%d rows, expected %d (period %g, up to %g)" % (
            len(rows), nrows, s.tau, s.settings["outputs"]["final_time"]), r, F)
        for k, row in enumerate(rows):
            ck.count("rows")
            if not ck.ensure(len(row) == len(s.cols), "row-width", lambda: "row %d has %d values for "
                             "%d columns" % (k, len(row), len(s.cols)), r, F):
                break
            t = s.t0 + k * s.tau
            for c, v in zip(s.cols, row):
                if c == "t":
                    ck.ensure(abs(float(v) - t) <= 1e-15 * (abs(t) + abs(s.t0) + s.tau), "t", lambda: "row %d:"
                              " t=%s, expected %.17g" % (k, v, t), r, F)
                if c == "iter":
                    ck.ensure(float(v) == k, "iter", lambda: "row %d: iter=%s" % (k, v), r, F)
                if c.startswith("<M") or ":<M" in c:
                    ck.ensure(abs(float(v)) <= 1 + 1e-9, "range", lambda: "row %d: %s=%s" % (k, c, v), r, F)
    b = s.body()
    M0 = s.init(b.p)
    for k in iters:
        n = os.path.join(s.dir or ".", "%s_iter%d.sol" % (s.base, k))
        if os.path.normpath(n) not in found:
            continue
        tail, rest = header(ck, s, r, F, path, n)
        t = s.t0 + k * s.tau
        tl = [l for l in tail if l.startswith("## time:")]
        cl = [l for l in tail if l.startswith("## columns:")]
        ck.ensure(len(tl) == 1 and abs(float(tl[0].split(":")[1]) - t) <= 1.01e-6 * abs(t) + 1e-9 * s.tau,
                  "sol-time", lambda: "%s: time %s, expected %g" % (n, tl, t), r, F)
        ck.ensure(len(cl) == 1 and cl[0].split(":", 1)[1].split() == ["idx", "mx", "my", "mz", "phi"],
                  "sol-columns", lambda: "%s: column titles %r" % (n, cl), r, F)
        data = [l.split("\t") for l in rest if l]
        ok = len(data) == len(b.p) and all(len(x) == 5 for x in data)
        ck.ensure(ok, "sol-lines", lambda: "%s: %d lines for %d nodes, or lines of wrong width" % (
            n, len(data), len(b.p)), r, F)
        if not ok:
            continue
        a = np.array(data, float)
        ck.ensure((a[:, 0] == np.arange(len(b.p))).all(), "sol-index", lambda: "%s: node indices %s" % (
            n, a[:8, 0]), r, F)
        ck.count("configurations")
        if k == 0:
            d = np.abs(a[:, 1:4] - M0)[b.magnode].max()
            ck.ensure(d < 1e-7, "node-order", lambda: "%s: initial magnetization differs from that of "
                      "the nodes in mesh-file order by %g" % (n, d), r, F)
    ck.case((s.k, s.every, s.dir, s.base, tuple(s.meta)) + s.key,
            {"rows": nrows, "every": s.every, "directory": s.dir, "basename": s.base,
             "columns": s.cols, "metadata": s.meta, "period": s.tau, "t0": s.t0})


def endless(ck, exe):
    """a run far too long to complete, interrupted: the rows it had time to write"""
    ss = []
    for i in range(6 if ck.thorough else 3):
        rng = ck.sub_rng(500, i)
        s = fgscen.make(rng, steps=1, n=(1, 1, 1), nreg=1, tau=1e-13, field="zero", cols=["iter", "t"])
        s.settings["outputs"].update(final_time=[1.0, 1e-3, 1e10][i % 3], mag_config_every=7)
        s.settings["time_integration"].update({"max(dt)": 2e-13, "min(dt)": 0.55e-13, "max(du)": 5})
        ss.append(s)
    for s, r in zip(ss, fgrun.pmap(lambda s: s.run(exe, env={"FG_SIG_AT": "60:15"}), ss)):
        if r.rc == 1 and "**ABORTED**" in r.out:
            continue
        ok = r.rc == -15 and r.evol is not None and len(r.evol) > 3 and \
            np.allclose(r.evol[:, 1], np.arange(len(r.evol)) * 1e-13, rtol=1e-12, atol=1e-22)
        ck.ensure(ok, "endless", lambda: "final_time=%g, period 1e-13: %s with %d rows" % (
            s.settings["outputs"]["final_time"], fgrun.describe(r), 0 if r.evol is None else len(r.evol)),
            r, s.files())
        ck.count("runs of more than 2^31 rows, interrupted")
        ck.case(("endless", s.settings["outputs"]["final_time"]))


def many(ck, exe):
    """thousands of rows, one step each: the times do not drift away from t0 + k*period"""
    ss = []
    for i in range(24 if ck.thorough else 8):
        rng = ck.sub_rng(600, i)
        tau = float(rng.choice([1e-13, 3e-14, float(10 ** rng.uniform(-14.5, -13))]))
        s = fgscen.make(rng, steps=1, n=(1, 1, 1), nreg=1, tau=tau, field="zero", cols=["iter", "t"])
        s.t0, s.tau, s.k = float(rng.choice([0, 0, 2.5e-12, -1e-10, 3e-9])), tau, int(rng.integers(900, 1500))
        if s.t0:
            s.settings["initial_time"] = s.t0
        s.settings["outputs"].update(final_time=s.t0 + s.k * tau, mag_config_every=False)
        s.settings["time_integration"].update({"max(dt)": 2 * tau, "min(dt)": 1e-3 * tau, "max(du)": 5})
        ss.append(s)
    for s, r in zip(ss, fgrun.pmap(lambda s: s.run(exe), ss)):
        if r.rc == 1 and "**ABORTED**" in r.out:
            ck.count("aborted runs")
            continue
        if not ck.ensure(r.rc == 0 and r.evol is not None and len(r.evol) == s.k + 1, "many-rows", lambda:
                         "%s with %s rows, expected %d" % (fgrun.describe(r), None if r.evol is None else
                                                           len(r.evol), s.k + 1), r, s.files()):
            continue
        k = np.arange(s.k + 1)
        t = s.t0 + k * s.tau
        d = np.abs(r.evol[:, 1] - t) / (np.abs(t) + abs(s.t0) + s.tau)
        ck.ensure(d.max() <= 1e-15, "drift", lambda: "row %d: t=%.17g, expected %.17g" % (
            d.argmax(), r.evol[d.argmax(), 1], t[d.argmax()]), r, s.files())
        ck.maximum("relative deviation of a row's time", d.max())
        ck.count("rows of long runs", len(k))
        ck.case(("many", s.t0, s.tau))


def run(ck):
    ck.rule = ("random output settings (period, end, initial time, columns, period of the "
               "configurations, directory, base name, metadata); every file left by the run judged")
    ck.assumptions = ["the time of a configuration file is printed with 7 significant digits"]
    exe, _ = fgbuild.Variant("plain").feellgood()
    n = 1000 if ck.thorough else 180
    endless(ck, exe)
    many(ck, exe)

    def go(s):
        import tempfile
        os.makedirs(fgrun.SCRATCH, exist_ok=True)
        d = tempfile.mkdtemp(prefix="c03-", dir=fgrun.SCRATCH)
        d = os.path.join(d, UP)
        files = {"old/er/keep.me": "x"} if "old" in s.dir else {}
        if s.start:
            files["from here.sol"] = s.start
        return d, s.run(exe, workdir=d, parse=False, settings_name=s.sname, files=files)
    for base in range(0, n, 60):
        ss = [setup(ck, j) for j in range(base, min(n, base + 60))]
        for s, (d, r) in zip(ss, fgrun.pmap(go, ss)):
            try:
                judge(ck, s, r, d)
            finally:
                shutil.rmtree(os.path.dirname(d), ignore_errors=True)
        if len(ck.violations) > 200:
            break
