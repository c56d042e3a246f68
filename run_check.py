#!/usr/bin/env python3-vt
"""run_check.py <property id>: decides one property on /repo's current tree."""
import importlib
import os
import sys
import traceback

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True

import fgbuild  # noqa: E402
import fgcheck  # noqa: E402


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    ck = fgcheck.Check(pid, getattr(mod, "LEVEL", "exploration"))
    try:
        mod.run(ck)
    except fgcheck.Enough:
        return ck.finish()
    except fgbuild.BuildError as e:
        print("build error: %s" % e)
        ck.evidence()
        return 1 if ck.violations else 3
    except (IndexError, KeyError, ValueError, TypeError, ArithmeticError, np.linalg.LinAlgError):
        # The oracles read what the runs left behind. Output they can make nothing of (rows missing,
        # text where numbers belong, an undefined value in a linear system) is not what the property
        # promises: on every tree where it holds, the same deterministic workload is read without error.
        try:
            ck.fail("unreadable", "output that the oracle cannot interpret:\n" + traceback.format_exc())
        except fgcheck.Enough:
            pass
        return ck.finish()
    except Exception:
        traceback.print_exc()
        ck.evidence()
        return 1 if ck.violations else 2
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
