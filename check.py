#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current source.

exit 0: holds on everything analysed; exit 1: violated (VIOLATION line);
exit 2: the check itself could not run."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analysis"))
sys.setrecursionlimit(100000)


def main():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module("checks." + pid.lower())
        return mod.run()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        print("ERROR: %s: %s" % (pid, str(e)[-3000:]))
        return 2


sys.exit(main())
