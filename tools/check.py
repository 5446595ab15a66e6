#!/usr/bin/env python3
"""check.py <property id>: builds the library from /repo, runs its conformance and model checks."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import framework
from build import BuildError


def main():
    prop = sys.argv[1]
    c = framework.Check(prop)
    mod = importlib.import_module("props." + prop.lower())
    try:
        mod.run(c)
        rc = c.finish()
    except BuildError as e:
        print("BUILD ERROR:", e); rc = 3
    except framework.CheckError as e:
        if c.violations:
            rc = c.finish()
        else:
            print("CHECK ERROR:", e); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
