#!/usr/bin/env python3-vt
"""tools/seed.py <id> <workdir>: makes or verifies /verif/seeded/<id> by hand.

  new ID        creates seeded/ID with the common helper files for whole-program demonstrations
                (v/: builder, mesh writer, stand-in of the FMM library)
  test ID...    in a scratch copy of /repo: demo passes unpatched, patch applies, builds, stable
                tests pass, demo fails; then the checks of the property (all with --all)
"""
import fcntl
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")


def new(i):
    d = os.path.join(SEED, i)
    v = os.path.join(d, "v")
    shutil.rmtree(v, ignore_errors=True)
    os.makedirs(os.path.join(v, "lib"))
    for f in ("fgbuild.py", "fgmesh.py", "fgrun.py", "fgoracle.py", "fgscen.py"):
        shutil.copyfile(os.path.join(HERE, "lib", f), os.path.join(v, "lib", f))
    shutil.copytree(os.path.join(HERE, "fmmstub"), os.path.join(v, "fmmstub"))
    os.makedirs(os.path.join(v, "cxx"))
    open(os.path.join(v, "cxx", ".keep"), "w").close()
    demo = os.path.join(d, "demo.sh")
    with open(demo, "w") as f:
        f.write('''#!/bin/bash
# builds the solver of the current directory in a scratch folder and runs demo.py on it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
export FG_REPO=$PWD FG_BUILD=$T/build FG_SCRATCH=$T/scratch PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=$D/v/lib
cd "$T" && python3-vt "$D/demo.py"
''')
    os.chmod(demo, 0o755)


def sh(c, cwd=None, **kw):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def test(i, checks):
    d = os.path.join(SEED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    global LOCK
    LOCK = open("/tmp/seed.lock", "w")
    fcntl.flock(LOCK, fcntl.LOCK_EX)
    r = sh("git status --porcelain", "/repo")
    if r.stdout.strip():
        sys.exit("/repo is not clean")
    T = "/tmp/seedtest-" + i
    shutil.rmtree(T, ignore_errors=True)
    shutil.copytree(d, T)
    for f in ("patch.diff", "meta.json"):
        os.unlink(os.path.join(T, f))
    ok = True
    a = sh("bash %s/demo.sh" % T, "/repo", timeout=300)
    print(i, "demo on the unchanged tree:", a.returncode, a.stdout[-300:] if a.returncode else "")
    ok &= a.returncode == 0
    p = sh("git apply %s/patch.diff" % d, "/repo")
    if p.returncode:
        sys.exit("patch does not apply: " + p.stdout)
    try:
        b = sh("bash /opt/vp/build.sh", "/repo")
        print(i, "build:", b.returncode, b.stdout[-500:] if b.returncode else "")
        ok &= b.returncode == 0
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json", "/repo")
        base = json.load(open("/opt/vp/BASELINE.json"))
        print(i, "tests:", verdict(base))
        c = sh("bash %s/demo.sh" % T, "/repo", timeout=300)
        print(i, "demo on the changed tree:", c.returncode, c.stdout[-300:])
        ok &= c.returncode != 0
        for pid in checks or [meta["property"]]:
            r = sh("python3-vt /verif/run_check.py " + pid, "/verif", env=dict(os.environ, VERIF_SEED="1"))
            v = [l for l in r.stdout.splitlines() if l.startswith("  [")]
            print(i, "check", pid, "->", "CAUGHT" if r.returncode == 1 else "missed (%d)" % r.returncode,
                  v[0][:200] if v else r.stdout[-200:] if r.returncode not in (0, 1) else "")
    finally:
        sh("git checkout -- .", "/repo")
        shutil.rmtree(T, ignore_errors=True)
    print(i, "OK" if ok else "NOT OK")


def verdict(base):
    res = json.load(open("/tmp/seedtest.json"))
    def names(x):
        if isinstance(x, dict):
            for k in ("passed", "stable", "pass", "stable_pass"):
                if k in x:
                    return set(x[k]) if not isinstance(x[k], dict) else {n for n, v in x[k].items() if v}
        return None
    b, r = names(base), names(res)
    if b is None or r is None:
        return "unknown format: %s / %s" % (list(base)[:5], list(res)[:5])
    return "all %d pass" % len(b) if b <= r else "FAILING: %s" % sorted(b - r)[:5]


if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(sys.argv[2])
    else:
        ids = [x for x in sys.argv[2:] if not x.startswith("-")]
        allc = ["C%02d" % k for k in range(1, 21) if os.path.exists("%s/checks/c%02d.py" % (HERE, k))]
        for i in ids or sorted(os.listdir(SEED)):
            if os.path.isdir(os.path.join(SEED, i)):
                test(i, allc if "--all" in sys.argv else None)
        sh("bash /opt/vp/build.sh", "/repo")
