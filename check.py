#!/opt/venv/bin/python
"""check.py <property> [--runs N] [--replay FILE] [--seed S] - run the simulation of one property.

exit 0: held on everything explored;  exit 1 + VIOLATION line: broken;  exit 2: error of the check."""
import argparse
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'MPLBACKEND': 'Agg',
       'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
       'MPLCONFIGDIR': os.environ.get('MPLCONFIGDIR') or '/opt/venv/mplconfig'}
PY = '/opt/venv/bin/python'


def main():
    hs = os.environ.get('SIM_HASHSEED', '0')
    want = dict(ENV, PYTHONHASHSEED=hs)
    if any(os.environ.get(k) != v for k, v in want.items()) or os.path.realpath(sys.prefix) != '/opt/venv':
        os.environ.update(want)
        os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, HERE)
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--digests')
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--one', type=int)
    ap.add_argument('--helper', action='store_true')
    a = ap.parse_args()
    from sim import runner
    if a.setup:
        return runner.setup()
    mod = importlib.import_module(f'sim.props.{a.property.lower()}')
    if a.helper:
        return mod.serve()
    return runner.main(mod, a, HERE)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('CHECK-ERROR', file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
