"""C12: the parallel algorithms of the real program under ThreadSanitizer and a hostile scheduler
(cxx/vp_par.h), compared with the sequential build and with TBB on 1, 2 and all CPUs; concurrent
additions to matrix entries; bit-for-bit repetition on one thread."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import numpy as np
import fgbuild
import fgharness
import fgrun
import fgscen
import fgspin
import c19

TSAN = "exitcode=96:halt_on_error=0:report_signal_unsafe=0:report_bugs=1:history_size=4"


def setup(ck, i):
    rng = ck.sub_rng(1, i)
    kind = ["all", "spin", "regions", "big", "wall", "xt"][i % 6]
    tau = float(10 ** rng.uniform(-13.5, -12.5))
    if kind == "spin":
        s = fgspin.make(rng, steps=2, tau=tau, hst=3e4)
    elif kind == "wall":
        w = c19.setup(ck, 50, i, tau)
        s = fgscen.Scen()
        s.mesh, s.settings, s.desc, s.unit, s.vols = w.mesh, w.st, w.desc, w.unit, w.vols
        s.settings["outputs"]["final_time"] = 2 * tau
        s.settings["outputs"]["evol_columns"] = list(fgscen.ALL_COLS)
    else:
        n = tuple(int(x) for x in rng.integers(3, 6, 3)) if kind == "big" else None
        s = fgscen.make(rng, steps=2, tau=tau, n=n, surfaces=2 if kind == "all" else None,
                        nreg=int(rng.integers(2, 4)) if kind == "regions" else None,
                        nonmag=True if kind == "regions" else None,
                        field="xt" if kind == "xt" else None)
    if kind == "all":
        for q in s.settings["mesh"].get("surface_regions", {}).values():
            q["Ks"] = 4e-4
            q.setdefault("uk", [0.3, 0.5, 1.0])
    if kind == "regions":
        s.settings["initial_magnetization"] = (
            "function(x,y,z,r) { return [1, 0.3*r.length, r.indexOf('vol')>=0 ? 0.7 : -0.4]; }")
    s.settings["time_integration"] = {"max(du)": 5.0, "min(dt)": 0.55 * tau, "max(dt)": 2 * tau}
    s.settings["finite_element_solver"] = {"tolerance": 1e-10, "max(iter)": 5000}
    s.kind = kind
    return s


def strip(text):
    """an output file without the lines that hold date, host and names"""
    return "\n".join(l for l in text.split("\n")
                     if not re.match(r"##\s*(.*date|.*host|.*real-world|.*run time|.*time of|.*user)", l, re.I))


def outputs(d):
    out = {}
    for f in sorted(glob.glob(os.path.join(d, "*.evol")) + glob.glob(os.path.join(d, "*.sol"))):
        with open(f, errors="replace") as fh:
            out[os.path.basename(f)] = strip(fh.read())
    return out


def aborted(r):
    return r.rc == 1 and "ABORTED" in r.out


def compare(ck, s, ref, r, what):
    F = s.files()
    if r.timeout or r.rc != ref.rc:
        ck.fail("status", "%s: %s, the sequential build ended with %s (%s)" % (
            what, fgrun.describe(r), fgrun.describe(ref), s.desc), r, F)
        return
    if ref.evol is None:
        return
    if not ck.ensure(r.evol is not None and r.evol.shape == ref.evol.shape and sorted(r.sols) == sorted(ref.sols),
                     "outputs", lambda: "%s: outputs differ: %s, sequential %s" % (what, sorted(r.sols), sorted(ref.sols)), r, F):
        return
    for n, (meta, cols, a) in sorted(ref.sols.items()):
        b = r.sols[n][2]
        if not ck.ensure(a.shape == b.shape and (np.isnan(a) == np.isnan(b)).all(), "shape", lambda:
                         "%s: %s has another shape or other undefined values" % (what, n), r, F):
            continue
        if a.shape[1] < 4:
            continue
        for lab, c, tol in (("m", slice(1, 4), 2e-6), ("phi", slice(4, 5), 2e-6), ("s", slice(5, 8), 2e-6)):
            x, y = np.nan_to_num(a[:, c]), np.nan_to_num(b[:, c])
            if not x.size:
                continue
            sc = 1.0 if lab == "m" else max(np.abs(x).max(), 1e-300)
            if lab == "phi":
                sc = max(sc, 1e-9 * 1e5)
            d = np.abs(x - y).max() / sc
            ck.maximum("deviation from the sequential build, " + lab, d)
            ck.ensure(d <= tol, "differs-" + lab, lambda: "%s: %s in %s differs from the sequential build by %.3g (%s)" % (
                what, lab, n, d, s.desc), r, F)
    a, b = ref.evol, r.evol
    if not ck.ensure((np.isnan(a) == np.isnan(b)).all(), "undefined", lambda: "%s: other undefined values" % what, r, F):
        return
    for j, c in enumerate(ref.cols):
        x, y = np.nan_to_num(a[:, j]), np.nan_to_num(b[:, j])
        if c in ("E_demag", "E_zeeman", "E_ex", "E_aniso", "E_tot"):
            sc = max(np.abs(a[:, ref.cols.index(q)]).max() for q in ref.cols if q.startswith("E_"))
        elif c.startswith("<d") or c == "max_dm":
            sc = max(np.abs(a[:, ref.cols.index(q)]).max() for q in ref.cols if q.startswith("<d")) + 1e9
            if c == "max_dm":
                sc = 1.0
        elif c == "max_angle":
            # acos: the angle is the square root of the cosine's error
            x, y, sc = np.cos(np.clip(x, 0, np.pi)), np.cos(np.clip(y, 0, np.pi)), 1.0
            if np.abs(a[:, j]).max() > 3.2:
                x, y = np.cos(np.radians(a[:, j])), np.cos(np.radians(b[:, j]))
        else:
            sc = max(np.abs(x).max(), 1e-300)
        if c == "Thiele_length":
            ok = np.abs(x) < 1e-4
            x, y = np.where(ok, x, 0), np.where(ok, y, 0)
        d = np.abs(x - y).max() / sc if len(x) else 0
        if c.startswith("<M"):
            d *= sc
        ck.maximum("deviation from the sequential build, evol", d)
        ck.ensure(d <= 1e-5, "evol-" + c, lambda: "%s: column %s differs from the sequential build by %.3g (%s)" % (
            what, c, d, s.desc), r, F)
    ck.count("runs compared with the sequential build")


def races(ck, s, r, what):
    """ThreadSanitizer reports that involve the solver's own code"""
    for rep in re.split(r"={18}\n", r.err):
        if "WARNING: ThreadSanitizer" not in rep:
            continue
        kind = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", rep).group(1).strip()
        fr = re.findall(r"#\d+ (.*)", rep)
        own = [f for f in fr if re.search(r"/src/[\w/.-]+\.(cpp|h)", f) and "vp_par" not in f]
        if not own:
            ck.count("reports outside the solver ignored")
            continue
        own = [re.sub(r"/\S*/src/", "src/", f) for f in own]
        ck.fail("race", "%s: %s at %s" % (what, kind, " <- ".join(x[:120] for x in own[:3])), r,
                s.files() if s else None)
        return True
    return False


def run(ck):
    ck.rule = ("one evaluation = one run of the program under one schedule, or one round of concurrent matrix "
               "additions; non-trivial = at least one parallel algorithm ran on several threads; distinct = "
               "(scenario kind, scheduler, threads, sample)")
    ck.assumptions = ["the hostile scheduler stands in for TBB under ThreadSanitizer; TBB itself is trusted",
                      "the dipolar field comes from a sequential stand-in for the FMM library"]
    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        jt = ex.submit(lambda: fgbuild.Variant("tsan").feellgood()[0])
        js = ex.submit(lambda: fgbuild.Variant("seq").feellgood()[0])
        tsan, seq = jt.result(), js.result()
    plain = fgbuild.Variant("plain").feellgood()[0]
    have = sorted(os.sched_getaffinity(0))
    # concurrent additions
    for var in ("plain", "tsan"):
        h = fgharness.build(ck, var, "h_par", libsrc=False)
        if h:
            n = (60 if var == "plain" else 6) * (8 if ck.thorough else 1)
            for k in range(2):
                fgharness.feed(ck, fgharness.execute(h, n, ck.seed * 100 + k, timeout=800,
                                                     env={"TSAN_OPTIONS": TSAN}), var + ": ")
    N = 90 if ck.thorough else 18
    per = 6 if ck.thorough else 2
    given_up = 0
    S = [setup(ck, i) for i in range(N)]
    refs = fgrun.pmap(lambda s: s.run(seq, args=["--seed", "7"], env={"MALLOC_PERTURB_": "85"}), S)
    jobs = []
    for i, s in enumerate(S):
        rng = ck.sub_rng(2, i)
        if aborted(refs[i]):
            given_up += 1
            continue
        if not ck.ensure(refs[i].rc == 0 and refs[i].evol is not None, "failed", lambda: "sequential run: %s: %s" % (
                fgrun.describe(refs[i]), refs[i].err[-300:]), refs[i], s.files()):
            continue
        for k in range(per):
            jobs.append((i, "tsan", int(rng.integers(2, 9)), int(rng.integers(1, 10 ** 6)), int(rng.integers(0, 4))))
        jobs.append((i, "plain", int(rng.choice([2, 3, len(have)])), 0, 0))
        if i % 3 == 0:
            jobs.append((i, "plain", 1, 0, 0))

    def one(j):
        i, var, nt, seed, delay = j
        if var == "plain":
            off = i % len(have)
            return S[i].run(plain, args=["--seed", "7"], cpus={have[(off + k) % len(have)] for k in range(nt)},
                            env={"MALLOC_PERTURB_": "170"})
        log = os.path.join(fgrun.SCRATCH, "par-%d-%d.log" % (os.getpid(), hash(j) & 0xffffffff))
        r = S[i].run(tsan, args=["--seed", "7"], timeout=500, env={
            "FG_PAR_SEED": str(seed), "FG_PAR_THREADS": str(nt), "FG_PAR_DELAY": str(delay),
            "FG_PAR_LOG": log, "TSAN_OPTIONS": TSAN})
        r.par = {}
        try:
            r.par = json.loads(open(log).read().split("\n")[0])
            os.unlink(log)
        except (OSError, ValueError):
            pass
        return r

    for j, r in zip(jobs, fgrun.pmap(one, jobs, workers=5)):
        i, var, nt, seed, delay = j
        s = S[i]
        what = "%s, %d threads%s" % (var, nt, ", schedule %d/%d" % (seed, delay) if var == "tsan" else "")
        ck.case((s.kind, var, nt, i), {"kind": s.kind, "scheduler": var, "threads": nt, "sample": s.desc},
                nontrivial=nt > 1)
        if var == "tsan":
            bad = races(ck, s, r, what)
            for k in ("algorithms", "multi", "chunks", "switches", "interleavings"):
                ck.count("hostile scheduler: " + {"multi": "algorithms on several threads", "interleavings":
                         "distinct orders of chunks"}.get(k, k), r.par.get(k, 0))
            ck.maximum("threads inside one algorithm", r.par.get("threads", 0))
            if r.rc == 96:   # only the reports made it fail
                r.rc = 0
            if bad:
                continue
        if aborted(r):
            given_up += 1
            continue
        compare(ck, s, refs[i], r, what)
    ck.count("runs given up by the linear solver", given_up)
    ck.ensure(given_up <= (N + len(jobs)) // 4, "too-many-aborts", "%d of %d runs were aborted" % (given_up, N + len(jobs)))

    # the same run, twice
    def twice(i):
        s = S[i]
        out = []
        for k in range(2):
            exe = seq if i % 2 else plain
            r = s.run(exe, args=["--seed", str(100 + i)], keep=True, cpus={have[(i + 3 * k) % len(have)]},
                      env={"MALLOC_PERTURB_": str(40 + 77 * k), "FG_PAD": "x" * (1 + 3000 * k)})
            r.files = outputs(r.dir)
            shutil.rmtree(r.dir, ignore_errors=True)
            out.append(r)
        return out

    idx = [i for i in range(N) if not aborted(refs[i])][:(60 if ck.thorough else 12)]
    for i, (a, b) in zip(idx, fgrun.pmap(twice, idx)):
        s = S[i]
        ck.case(("repeat", s.kind, i))
        bad = [f for f in sorted(set(a.files) | set(b.files)) if a.files.get(f) != b.files.get(f)]
        if bad:
            f = bad[0]
            la, lb = a.files.get(f, "").split("\n"), b.files.get(f, "").split("\n")
            k = next((k for k in range(min(len(la), len(lb))) if la[k] != lb[k]), min(len(la), len(lb)))
            ck.fail("repeat", "the same run on one thread with the same seed gave another %s, line %d: %r / %r" % (
                f, k + 1, la[k:k + 1], lb[k:k + 1]), b, s.files())
        ck.ensure(a.rc == b.rc, "repeat", "exit status %s, then %s" % (a.rc, b.rc), b, s.files())
        ck.count("repetitions compared bit for bit")
        ck.count("files compared bit for bit", len(a.files))
