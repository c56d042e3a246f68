"""Runs a C++ harness (cxx/*.cpp, line protocol of cxx/harness.h) and feeds a Check with what it
observed. A crash, a sanitizer report or a missing end marker is a violation too."""
import os
import re
import subprocess


class Res:
    pass


def execute(exe, n, seed, args=(), timeout=600, env=None, cwd=None, cpus=None):
    e = dict(os.environ)
    if cpus:
        have = sorted(os.sched_getaffinity(0))
        cpus = {have[c % len(have)] for c in cpus}
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=97:detect_leaks=0:detect_stack_use_after_return=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    e["TSAN_OPTIONS"] = "exitcode=96:halt_on_error=0:report_signal_unsafe=0"
    e.update(env or {})
    r = Res()
    r.argv = [exe, str(n), str(seed)] + [str(a) for a in args]
    try:
        p = subprocess.run(r.argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                           timeout=timeout, cwd=cwd, stdin=subprocess.DEVNULL,
                           preexec_fn=(lambda: os.sched_setaffinity(0, cpus)) if cpus else None)
        r.rc, r.out, r.err = p.returncode, p.stdout.decode(errors="replace"), \
            p.stderr.decode(errors="replace")
        r.timeout = False
    except subprocess.TimeoutExpired as x:
        r.rc, r.out, r.err, r.timeout = None, (x.stdout or b"").decode(errors="replace"), \
            (x.stderr or b"").decode(errors="replace"), True
    return r


def build(ck, variant, name, **kw):
    """The harness, or None where it does not fit the tree (changed internal interfaces) although
    the program itself still compiles: what the harness covers is then left to the monitors of the
    whole program."""
    import fgbuild
    v = fgbuild.Variant(variant)
    try:
        return v.harness(name, **kw)
    except fgbuild.BuildError as e:
        fgbuild.Variant("plain").feellgood()
        ck.count("harness %s (%s) does not fit the tree" % (name, variant))
        print("note: harness %s not usable: %s" % (name, str(e)[-400:]))
        return None


def feed(ck, r, prefix=""):
    """Returns True if the harness ran to its end."""
    end = False
    for l in r.out.split("\n"):
        if not l.startswith("@"):
            continue
        f = l.split("\t")
        if f[0] == "@FAIL":
            ck.fail(f[1], prefix + f[2] if len(f) > 2 else "", r)
        elif f[0] == "@CASE":
            ck.case(f[1], {"case": f[1]} if len(ck.samples) < 4 else None)
        elif f[0] == "@MAX":
            ck.maximum(f[1], float(f[2]))
        elif f[0] == "@COUNT":
            ck.count(f[1], int(f[2]))
        elif f[0] == "@END":
            end = True
    san = re.search(r"(AddressSanitizer|ThreadSanitizer|runtime error)[^\n]*", r.err)
    if san:
        ck.fail("sanitizer", prefix + san.group(0)[:300], r)
    elif r.timeout:
        ck.fail("hang", prefix + "the harness did not end", r)
    elif not end or r.rc != 0:
        ck.fail("crash", prefix + "harness ended with status %s before its end: %s" % (
            r.rc, (r.err or r.out)[-300:]), r)
    return end
