#!/opt/venv/bin/python
"""python pbt/run.py C01 [--tier quick|thorough] [--replay FILE]"""
import os
import sys

WANT = dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
            OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
            PMIX_MCA_gds='hash', OMPI_MCA_orte_create_session_dirs='0')     # (MPI leaves no files behind)
if any(os.environ.get(k) != v for k, v in WANT.items()):
    os.environ.update(WANT)
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import core  # noqa

if __name__ == '__main__':
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if '--replay' in sys.argv:
        code = core.replay(prop, sys.argv[sys.argv.index('--replay') + 1])
    else:
        try:
            code = core.main(prop, tier)
        except core.HarnessError as e:
            print('harness error: %s' % e, file=sys.stderr)
            code = 2
    sys.stdout.flush()
    os._exit(code)
