#!/usr/bin/env python3
"""run.py ID [quick|thorough]: decides one property on /repo's working tree.
exit 0 held on everything observed, 1 violated (VIOLATION line), 2 inconclusive."""
import importlib, os, shutil, sys, traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402
from checks import native  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    ctx = vlib.Ctx(pid, tier, int(os.environ.get('VERIF_SEED', '1')))
    checks = dict(native.CHECKS)
    if pid not in checks:
        checks.update(importlib.import_module('checks.tools').CHECKS)
        checks.update(importlib.import_module('checks.gens').CHECKS)
        checks.update(importlib.import_module('checks.ports').CHECKS)
    try:
        try:
            checks[pid](ctx)
        except vlib.Inconclusive as e:
            if not ctx.viols:
                print('INCONCLUSIVE property=%s %s' % (pid, e), flush=True)
                return 2
            print('note: %s' % e)
        return vlib.finish(ctx)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
