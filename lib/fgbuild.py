"""Builds the real feeLLGood (from /repo's current working tree) and the C++ harnesses.

Nothing is ever written in /repo: the sources are copied to a content-addressed directory under
/verif/build (git-ignored), config.h is generated there, and everything is compiled there.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FG_REPO", "/repo")
BUILD = os.environ.get("FG_BUILD", os.path.join(VERIF, "build"))
STUB = os.path.join(VERIF, "fmmstub")
CXX_DIR = os.path.join(VERIF, "cxx")


class BuildError(Exception):
    pass


COMMON = ["-std=gnu++17", "-DTBB_SUPPRESS_DEPRECATED_MESSAGES", "-fopenmp", "-w"]
LIBS = ["-lyaml-cpp", "-lduktape", "-lann", "-ltbb", "-lgmsh", "-fopenmp", "-lpthread"]

# name -> (compiler, compile flags, link flags, config overrides)
VARIANTS = {
    "plain": ("g++", ["-O1", "-DNDEBUG"], [], {}),
    "seq": ("g++", ["-O1", "-DNDEBUG"], [], {"ENABLE_SEQ": 1}),
    "onegp": ("g++", ["-O1", "-DNDEBUG"], [], {"ONE_GAUSS_POINT": 1}),
    "first": ("g++", ["-O1", "-DNDEBUG"], [], {"FIRST_ORDER": 1}),
    "asan": ("g++", ["-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer",
                     "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
                     "-fno-sanitize=vptr"],
             ["-fsanitize=address,undefined"], {}),
    "vg": ("g++", ["-O1", "-g1", "-DNDEBUG"], [], {}),   # for valgrind: no exotic instructions
    "tsan": ("g++", ["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread", "-fno-openmp",
                     "-include", os.path.join(CXX_DIR, "vp_par.h")],
             ["-fsanitize=thread"], {}),
}


def src_files():
    """Every file of the solver's source tree that a build may need."""
    out = []
    base = os.path.join(REPO, "src")
    for root, dirs, files in os.walk(base):
        dirs[:] = [d for d in dirs if d not in ("CMakeFiles",)]
        for f in files:
            if f == "config.h" or f.endswith(".o"):
                continue
            if re.search(r"\.(cpp|cc|h|hpp|in|yml|txt)$", f):
                p = os.path.join(root, f)
                out.append((os.path.relpath(p, base), p))
    return sorted(out)


def _hash_tree(extra=()):
    h = hashlib.sha256()
    for rel, p in src_files():
        h.update(rel.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    for d in (STUB, CXX_DIR):
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                h.update(f.encode())
                with open(os.path.join(root, f), "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:20]


def gen_config(text, over):
    vals = {"ONE_GAUSS_POINT": 0, "FIRST_ORDER": 0, "ENABLE_SEQ": 0}
    vals.update(over)
    text = text.replace("@FEELLGOOD_VERSION@", "verif-build")

    def sub(m):
        return "#define %s %d" % (m.group(1), vals.get(m.group(1), 0))

    text = re.sub(r"^#cmakedefine01\s+(\w+).*$", sub, text, flags=re.M)
    text = re.sub(r"^#cmakedefine\s+(\w+).*$",
                  lambda m: ("#define " + m.group(1)) if vals.get(m.group(1)) else "", text,
                  flags=re.M)
    return text


def sh(cmd, cwd=None, what=""):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    if p.returncode:
        raise BuildError("%s failed:\n%s\n%s" % (what or cmd[0], " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


class Variant:
    """One compiled configuration: objects of the solver, lazily; executables linked from them."""

    def __init__(self, name):
        self.name = name
        self.cxx, self.cflags, self.lflags, self.over = VARIANTS[name]
        self.key = _hash_tree((name, self.cxx, self.cflags, self.lflags, self.over, COMMON))
        self.dir = os.path.join(BUILD, name + "-" + self.key)
        self.src = os.path.join(self.dir, "src")
        os.makedirs(self.dir, exist_ok=True)
        self.lock = open(os.path.join(self.dir, ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.prepare()
        return self

    def __exit__(self, *a):
        fcntl.flock(self.lock, fcntl.LOCK_UN)

    def prepare(self):
        if os.path.exists(os.path.join(self.dir, ".prepared")):
            return
        if os.path.isdir(self.src):
            shutil.rmtree(self.src)
        for rel, p in src_files():
            q = os.path.join(self.src, rel)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copyfile(p, q)
        with open(os.path.join(self.src, "config.h.in")) as f:
            t = gen_config(f.read(), self.over)
        with open(os.path.join(self.src, "config.h"), "w") as f:
            f.write(t)
        sh(["ld", "-r", "-b", "binary", "-z", "noexecstack", "default-settings.yml", "-o",
            "default-settings.o"], cwd=self.src, what="embedding of default-settings.yml")
        open(os.path.join(self.dir, ".prepared"), "w").close()

    def compile(self, jobs):
        """jobs: list of (source path, object path, extra flags)."""
        todo = [(s, o, x) for s, o, x in jobs if not os.path.exists(o)]
        # longest first, roughly
        todo.sort(key=lambda j: -os.path.getsize(j[0]))

        def one(j):
            s, o, x = j
            inc = ["-I", STUB, "-I", self.src, "-I", CXX_DIR, "-I", os.path.join(REPO, "unit-tests")]
            tmp = o + ".tmp%d" % os.getpid()
            sh([self.cxx] + COMMON + self.cflags + x + inc + ["-c", s, "-o", tmp], cwd=self.src,
               what="compilation of " + s)
            os.rename(tmp, o)

        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for r in [ex.submit(one, j) for j in todo]:
                r.result()

    def solver_jobs(self, main=True):
        jobs = []
        for s in sorted(glob.glob(os.path.join(self.src, "*.cpp"))):
            b = os.path.basename(s)
            if b == "main.cpp" and not main:
                continue
            jobs.append((s, os.path.join(self.dir, b[:-4] + ".o"), []))
        return jobs

    def stub_jobs(self):
        return [(os.path.join(STUB, "fmm_monitor.cpp"), os.path.join(self.dir, "fmm_monitor.o"), []),
                (os.path.join(STUB, "fmm_sum.cpp"), os.path.join(self.dir, "fmm_sum.o"),
                 (["-O1"] if self.name == "vg" else ["-O3", "-march=native", "-ffast-math"])
                 + ["-fno-sanitize=all"])]

    def link(self, objs, exe, extra=()):
        tmp = exe + ".tmp%d" % os.getpid()
        sh([self.cxx] + COMMON + self.cflags + self.lflags + objs + ["-o", tmp] + list(extra)
           + LIBS, what="link of " + exe)
        os.rename(tmp, exe)

    # --- products -------------------------------------------------------------------------
    def feellgood(self, trace=False):
        """The solver's executable. With trace=True, the trace unit is linked in when it fits the
        tree (it looks into private state); returns (path, traced)."""
        with self:
            exe = os.path.join(self.dir, "feellgood")
            texe = os.path.join(self.dir, "feellgood-traced")
            if trace and os.path.exists(texe):
                return texe, True
            if not trace and os.path.exists(exe):
                return exe, False
            jobs = self.solver_jobs() + self.stub_jobs()
            tobj = os.path.join(self.dir, "trace.o")
            if trace:
                if not os.path.exists(tobj + ".failed"):
                    tj = [(os.path.join(CXX_DIR, "trace.cpp"), tobj,
                           ["-fno-access-control", "-DFG_TRACE"])]
                    ok = True
                    with cf.ThreadPoolExecutor(max_workers=2) as ex:
                        a = ex.submit(self.compile, jobs)
                        b = ex.submit(self.compile, tj)
                        a.result()
                        try:
                            b.result()
                        except BuildError as e:
                            ok = False
                            open(tobj + ".failed", "w").write(str(e))
                    if ok:
                        wraps = self.trace_wraps(tobj)
                        if wraps:
                            try:
                                self.link([j[1] for j in jobs] + [tobj, os.path.join(
                                    self.src, "default-settings.o")], texe,
                                    ["-Wl,--wrap=" + w for w in wraps])
                                return texe, True
                            except BuildError as e:
                                open(tobj + ".failed", "w").write(str(e))
                else:
                    self.compile(jobs)
            else:
                self.compile(jobs)
            if not os.path.exists(exe):
                self.link([j[1] for j in jobs] + [os.path.join(self.src, "default-settings.o")],
                          exe)
            return exe, False

    def trace_wraps(self, tobj):
        out = sh(["nm", tobj])
        want = re.findall(r" T __wrap_(\S+)", out)
        defined = set()
        for j in self.solver_jobs():
            for l in sh(["nm", "--defined-only", j[1]]).splitlines():
                defined.add(l.split()[-1])
        return want if all(w in defined for w in want) else []

    def harness(self, name, extra=(), libsrc=True, cflags=()):
        """Compile cxx/<name>.cpp and link it with the solver's objects (without main).
        libsrc: False for a harness of headers only, a list of the source files it is about (the
        others are compiled only if the link needs them), or True for all of them."""
        with self:
            exe = os.path.join(self.dir, name)
            if os.path.exists(exe):
                return exe
            alljobs = self.solver_jobs(main=False)
            hobj = os.path.join(self.dir, name + ".o")
            hj = [(os.path.join(CXX_DIR, name + ".cpp"), hobj, list(cflags))]
            want = alljobs if libsrc is True else []
            if isinstance(libsrc, (list, tuple)):
                want = [j for j in alljobs if os.path.basename(j[0])[:-4] in libsrc]
            for attempt in (want, alljobs):
                self.compile(hj + attempt + self.stub_jobs())
                lib = os.path.join(self.dir, "lib%s%d.a" % (name, len(attempt)))
                if os.path.exists(lib):
                    os.unlink(lib)
                sh(["ar", "rcs", lib] + [j[1] for j in attempt + self.stub_jobs()]
                   + [os.path.join(self.src, "default-settings.o")])
                try:
                    self.link([hobj, lib], exe, extra)
                    return exe
                except BuildError:
                    if attempt is alljobs or len(attempt) == len(alljobs):
                        raise


def prune(keep=40):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
    except OSError:
        return
    ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    t = time.time()
    v = Variant(sys.argv[1])
    print(v.feellgood(trace=len(sys.argv) > 2), time.time() - t)
