#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current working tree (see DESIGN.md)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from harness.common import Check, Machinery

def main():
    prop = sys.argv[1]
    mod = importlib.import_module('harness.props.' + prop.lower())
    chk = Check(prop, getattr(mod, 'LEVEL', 'model_checking'))
    try:
        mod.run(chk)
        rc = chk.finish()
    except Exception as e:
        print('ERROR property=%s %s' % (prop, e if isinstance(e, Machinery) else traceback.format_exc()))
        if chk.violations:          # what was rejected before stands
            rc = chk.finish()
        else:
            rc = 2
            chk.close()
    sys.exit(rc)

if __name__ == '__main__':
    main()
