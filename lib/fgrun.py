"""Runs the real executable in a scratch directory and collects what it produced."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import tempfile
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("FG_SCRATCH", os.path.join(VERIF, "scratch"))
TIMEOUT = 400   # with a limit of processor time, which does not depend on what else the machine does
CPU = 120


HANGS = []


class Result:
    pass


def parse_table(path):
    """(metadata lines, column names, array) of a .evol or .sol file; raises on ragged rows."""
    meta, cols, rows = [], None, []
    with open(path, errors="replace") as f:
        for line in f:
            if line.startswith("#"):
                meta.append(line.rstrip("\n"))
                if line.startswith("## columns:"):
                    cols = line[len("## columns:"):].strip(" \n").split("\t")
            elif line.strip():
                rows.append([float(x) for x in line.split()])
    w = {len(r) for r in rows}
    arr = np.array(rows, float) if len(w) <= 1 else None
    if rows and arr is None:
        raise ValueError("ragged rows in " + path)
    return meta, cols, (arr if arr is not None and len(rows) else np.zeros((0, len(cols or []))))


def sol_time(meta):
    for l in meta:
        if l.startswith("## time:"):
            return float(l[len("## time:"):])
    return None


def run(exe, settings, meshes=None, args=(), env=None, workdir=None, stdin=None, keep=False,
        timeout=TIMEOUT, settings_text=None, files=None, cpus=None, parse=True, settings_name=None):
    """meshes: {filename: Mesh or path}; settings: dict (JSON is YAML). Returns a Result."""
    os.makedirs(SCRATCH, exist_ok=True)
    d = workdir or tempfile.mkdtemp(prefix="run-", dir=SCRATCH)
    os.makedirs(d, exist_ok=True)
    for name, m in (meshes or {}).items():
        p = os.path.join(d, name)
        if isinstance(m, str):
            shutil.copyfile(m, p)
        elif m is not None:
            m.write(p)
    for name, text in (files or {}).items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode())
    name = settings_name or "settings.yml"
    text = settings_text if settings_text is not None else json.dumps(settings)
    if settings is not None or settings_text is not None:
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
        argv = [exe] + list(args) + [name]
    else:
        argv = [exe] + list(args)
    e = dict(os.environ)
    e["HOME"] = d
    e.pop("XDG_CONFIG_HOME", None)
    e["FG_MON"] = os.path.join(d, "events.jsonl")
    e["OMP_NUM_THREADS"] = "1"
    e["TZ"] = "UTC"
    e.update(env or {})

    def pre():
        if cpus:
            os.sched_setaffinity(0, cpus)
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))

    # once several runs did not end at all, the others are given less time
    cpu = None
    if timeout == TIMEOUT:
        cpu = CPU if len(HANGS) < 2 else 30 if len(HANGS) < 8 else 10
    r = Result()
    r.dir, r.settings, r.argv, r.text = d, settings, argv, text
    try:
        p = subprocess.run(argv, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           input=stdin.encode() if isinstance(stdin, str) else stdin,
                           timeout=timeout, preexec_fn=pre,
                           stdin=subprocess.DEVNULL if stdin is None else None)
        r.rc, r.out, r.err = p.returncode, p.stdout.decode(errors="replace"), \
            p.stderr.decode(errors="replace")
        r.timeout = False
        if p.returncode == -signal.SIGXCPU:
            HANGS.append(1)
            r.rc, r.timeout = None, True
    except subprocess.TimeoutExpired as x:
        HANGS.append(1)
        r.rc, r.out, r.err, r.timeout = None, (x.stdout or b"").decode(errors="replace"), \
            (x.stderr or b"").decode(errors="replace"), True
    r.events = []
    try:
        with open(e["FG_MON"]) as f:
            for n, l in enumerate(f):
                if n > 300000:
                    break
                try:
                    r.events.append(json.loads(l))
                except ValueError:
                    r.events.append({"ev": "garbled", "line": l[:200]})
    except OSError:
        pass
    r.evol, r.cols, r.evol_meta, r.sols, r.parse_error = None, None, None, {}, None
    if parse:
        try:
            out = (settings or {}).get("outputs", {}) if isinstance(settings, dict) else {}
            od = os.path.join(d, out.get("directory", ".") or ".")
            ev = glob.glob(os.path.join(od, "*.evol"))
            if len(ev) == 1:
                r.evol_meta, r.cols, r.evol = parse_table(ev[0])
                r.evol_path = ev[0]
            for s in glob.glob(os.path.join(od, "*.sol")):
                r.sols[os.path.basename(s)] = parse_table(s)
        except (ValueError, OSError) as x:
            r.parse_error = str(x)
    if not keep and workdir is None:
        shutil.rmtree(d, ignore_errors=True)
    return r


def col(r, name):
    return r.evol[:, r.cols.index(name)]


def describe(r):
    if r.timeout:
        return "timed out"
    if r.rc is not None and r.rc < 0:
        return "killed by signal %d (%s)" % (-r.rc, signal.strsignal(-r.rc))
    return "exit status %s" % r.rc


def pmap(fn, items, workers=None):
    with cf.ThreadPoolExecutor(max_workers=workers or os.cpu_count() or 4) as ex:
        return list(ex.map(fn, items))


def base_settings(**kw):
    s = {
        "outputs": {"file_basename": "out", "evol_time_step": 1e-12, "final_time": 5e-12,
                    "evol_columns": ["t", "<Mx>", "<My>", "<Mz>", "E_ex", "E_demag", "E_zeeman",
                                     "E_tot"],
                    "mag_config_every": 1},
        "mesh": {"filename": "m.msh", "length_unit": 1e-9, "volume_regions": {"vol": {}}},
        "initial_magnetization": [1, 0, 0],
        "Bext": [0, 0, 0],
        "demagnetizing_field_solver": {"nb_threads": 1},
        "time_integration": {"max(du)": 0.1, "min(dt)": 1e-16, "max(dt)": 1e-12},
    }

    def merge(a, b):
        for k, v in b.items():
            if isinstance(v, dict) and isinstance(a.get(k), dict):
                merge(a[k], v)
            else:
                a[k] = v

    merge(s, kw)
    return s
