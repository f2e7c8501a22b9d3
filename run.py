#!/usr/bin/env python3
"""run.py <property id>: decide one property on /repo's current tree."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
sys.dont_write_bytecode = True
sys.path[:0] = [HERE + "/lib", HERE + "/checks"]
import build, common


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        sys.exit(setup())
    try:
        importlib.import_module(pid.lower()).main()
    except SystemExit:
        raise
    except build.BuildError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
    except common.Inconclusive as e:
        print("INCONCLUSIVE: %s" % e)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(4)


def setup():
    """Everything is built by each check from /repo's tree; here is only looked whether the tools are there."""
    import shutil, yaml
    missing = [t for t in ("clang++", "clang", "ninja", "ar") if not shutil.which(t)]
    if missing or not os.path.exists(VT):
        print("missing tools: %s" % missing)
        return 1
    import importlib
    for f in sorted(os.listdir(HERE + "/checks")):
        if f.endswith(".py"):
            importlib.import_module(f[:-3])
    print("ready")
    return 0


main()
