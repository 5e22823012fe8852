#!/usr/bin/env python
"""check.py PROPERTY [options]: run, or replay, the simulation check of one property."""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("DST_REPO", "/repo"))

def main():
    import importlib
    prop = sys.argv[1]
    from dst import runner
    mod = importlib.import_module("dst.checks.%s" % prop.lower())
    try:
        rc = runner.main(mod.CHECK, prop, sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)

main()
