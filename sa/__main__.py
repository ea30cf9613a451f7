"""python -m sa check Cxx [--tier quick|thorough]"""
import importlib
import os
import resource
import sys
import threading


def main():
    args = sys.argv[1:]
    if len(args) < 2 or args[0] != 'check':
        print(__doc__)
        return 2
    prop = args[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    from .report import Report
    mod = importlib.import_module('sa.props.' + prop.lower())
    R = Report(prop, tier, seed)
    mod.check(R)
    if R.thorough:
        # the same obligations at other random points, more of them, and with
        # sets iterated the other way round
        for k in (1, 2, 3):
            R.again(k)
            mod.check(R)
        R.seed = seed
    return R.finish()


def run():
    global rc
    try:
        rc = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2


rc = 2
hard = resource.getrlimit(resource.RLIMIT_AS)[1]
if hard == resource.RLIM_INFINITY or hard > 12 << 30:
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, hard))
sys.setrecursionlimit(30000)
threading.stack_size(512 * 1024 * 1024)
th = threading.Thread(target=run)
th.start()
th.join()
sys.stdout.flush()
os._exit(rc)
