#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property from /repo's current source."""
import os, sys, threading, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.ctx import Ctx
from sa import registry


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    ctx = Ctx(pid, tier, seed)

    def late():
        # the main process itself is slow: report what has been decided so far
        ctx.broke('not finished within the time limit')
        rc = ctx.finish('other', '')
        sys.stdout.flush()
        os._exit(rc)
    t = threading.Timer(ctx.deadline - ctx.t0 + 120, late)
    t.daemon = True
    t.start()
    return registry.run(ctx)


if __name__ == '__main__':
    from sa.core import big
    rc = [3]

    def go():
        try:
            rc[0] = main()
        except SystemExit as e:
            rc[0] = e.code or 0
        except BaseException:
            traceback.print_exc()
            rc[0] = 3
    big(go)
    sys.stdout.flush()
    os._exit(rc[0])
