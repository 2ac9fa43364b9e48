#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree.  Exit 0 held, 1 violated, 2 error of the check."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core

MODULES = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib', 'modules.txt')).read().split()


def main():
    prop = sys.argv[1]
    for m in MODULES:
        f = getattr(importlib.import_module(m), prop, None)
        if f:
            break
    else:
        print('no such check: ' + prop)
        return 2
    chk = core.Check(prop)
    try:
        f(chk)
        return chk.finish()
    except core.ToolError as e:
        print('ERROR in the check of %s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        chk.scratch.clean()


sys.exit(main())
