#!/usr/bin/env python3
"""check.py <property id> [--thorough]: run one check.  Exit 0: held; exit 1 + VIOLATION line: broken; 2: error of the check."""
import sys, os, importlib, traceback, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import vlib
from checks import CHECKS


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    ctx = vlib.Ctx(prop, tier, seed)
    modname, fn = CHECKS[prop]
    try:
        rc = getattr(importlib.import_module(modname), fn)(ctx)
    except vlib.CheckError as e:
        if ctx.violations:
            return vlib.finish(ctx)
        print('ERROR', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(ctx.work, ignore_errors=True)
    return rc


sys.exit(main())
