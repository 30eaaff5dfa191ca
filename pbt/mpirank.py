"""One rank started by mpirun: runs fn(case) of a check module, leaves the result in result_RANK.pkl."""
import importlib
import os
import pickle
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

if __name__ == '__main__':
    folder, module, name = sys.argv[1:4]
    from pbt import core
    core.bootstrap()
    with open(os.path.join(folder, 'case.pkl'), 'rb') as f:
        case = pickle.load(f)
    from mpi4py import MPI
    rank = MPI.COMM_WORLD.Get_rank()
    with open(os.path.join(folder, 'started_%d' % rank), 'w'):
        pass
    try:
        out = ('done', getattr(importlib.import_module('pbt.checks.' + module), name)(case))
    except BaseException as e:
        out = ('failed', '%s: %s' % (type(e).__name__, e), traceback.format_exc())
    with open(os.path.join(folder, 'part_%d' % rank), 'wb') as f:
        pickle.dump(out, f)
    os.rename(os.path.join(folder, 'part_%d' % rank), os.path.join(folder, 'result_%d.pkl' % rank))
    if out[0] != 'done':
        sys.stdout.flush()
        MPI.COMM_WORLD.Abort(1)
