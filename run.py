#!/opt/venv/bin/python
"""Run one check: run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--job SUBSTR] [-v]"""
import argparse
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
for var in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[var] = '1'
os.environ['MPLBACKEND'] = 'agg'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--job', default=None)
    ap.add_argument('--nproc', type=int, default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
    with tempfile.TemporaryDirectory(prefix='dppymon.') as tmp:
        os.environ['MPLCONFIGDIR'] = tmp
        sys.path.insert(0, HERE)
        sys.path.insert(0, os.environ.get('DPPY_REPO', '/repo'))
        from mon import core
        import dppy
        lib = os.path.dirname(os.path.abspath(dppy.__file__))
        want = os.path.join(os.path.abspath(os.environ.get('DPPY_REPO', '/repo')), 'dppy')
        if os.path.realpath(lib) != os.path.realpath(want):
            print('harness error: dppy imported from', lib)
            return 4
        rc = core.run_check(a.prop, a.tier, a.seed, only=a.job, nproc=a.nproc, verbose=a.v)
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())
