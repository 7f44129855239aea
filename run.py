"""python run.py PROPERTY [--tier quick|thorough] [--seed N] | --replay FILE"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or sys.flags.optimize:
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ.pop('PYTHONOPTIMIZE', None)
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import boot  # noqa: E402


def main(argv):
    for name in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ.setdefault(name, '1')
    boot.start()
    from pbt import core
    if argv[0] == '--replay':
        return core.replay(argv[1])
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for name, value in zip(argv[1::2], argv[2::2]):
        if name == '--tier':
            tier = value
        elif name == '--seed':
            seed = int(value)
        else:
            raise SystemExit('unknown argument ' + name)
    return core.run(prop, tier, seed)


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
