"""python3 -m sa.run Cxx [--tier quick|thorough]: decide one property from /repo's current source."""
import importlib
import os
import sys
import time
import traceback

sys.setrecursionlimit(200000)


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    from . import prop
    t0 = time.time()
    mod = importlib.import_module('sa.props.' + pid.lower())
    err = None
    ctx = None
    try:
        ctx = prop.Ctx(pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
        mod.check(ctx)
    except prop.NotUnderstood as e:
        err = str(e)
    except SyntaxError as e:
        err = f'source does not parse: {e}'
    except Exception as e:
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-3:]
        err = f'{type(e).__name__}: {e} @ ' + ' < '.join(f'{os.path.basename(x.filename)}:{x.lineno}' for x in reversed(tb))
    if ctx is None:
        print('not understood:', err)
        return 2
    if err is None and not ctx.obls:
        err = 'no obligation was generated'
    return prop.finish(ctx, getattr(mod, 'LEVEL', 'exact'), t0, err)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    th = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
    th.start()
    th.join()
    sys.stdout.flush()
    sys.exit(rc[0] if rc else 2)
