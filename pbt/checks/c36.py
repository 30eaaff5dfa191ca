"""C36: several processes (MPI ranks) do not disturb each other."""
import builtins
import logging
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import time
import traceback

import mpmath
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks import c14, c20, c21, c30
from pbt.core import Test, Violation, HarnessError, check, mpirun

RULE = ("non-trivial: at least two ranks whose file operations or plugin calls interleave, and (lattice) at least "
        "two steps, (solve) at least one solved rank")
ASSUMPTIONS = ["in `lattice` and `solve` every rank is a forked process whose communicator is served by the parent; only one "
               "rank runs at a time and ranks are switched before file operations, at plugin calls and at collective operations, "
               "in an order that is part of the case; `real` starts the ranks with mpirun, in whatever order they come"]
WAIT = 120


# ---------------------------------------------------------------- ranks
class Line(object):
    """Pickled messages over a pair of pipes."""
    def __init__(self, rfd, wfd):
        self.r, self.w = rfd, wfd

    def send(self, obj):
        data = pickle.dumps(obj)
        data = struct.pack('>I', len(data)) + data
        while data:
            data = data[os.write(self.w, data):]

    def _read(self, n):
        out = b''
        while len(out) < n:
            if not select.select([self.r], [], [], WAIT)[0]:
                raise TimeoutError('no answer')
            part = os.read(self.r, n - len(out))
            if not part:
                raise EOFError()
            out += part
        return out

    def recv(self):
        return pickle.loads(self._read(struct.unpack('>I', self._read(4))[0]))

    def close(self):
        os.close(self.r)
        os.close(self.w)


class Comm(object):
    """The communicator of one rank."""
    def __init__(self, line, rank, size):
        self.line, self.rank, self.size = line, rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def pause(self, what=''):
        self.line.send(('pause', what))
        self.line.recv()

    def allgather(self, obj, kind='allgather'):
        self.line.send(('collective', kind, obj))
        return self.line.recv()

    def barrier(self):
        self.allgather(None, 'barrier')
    Barrier = barrier

    def bcast(self, obj, root=0):
        return self.allgather(obj, 'bcast')[root]

    def scatter(self, obj, root=0):
        return self.allgather(obj, 'scatter')[root][self.rank]

    def gather(self, obj, root=0):
        out = self.allgather(obj, 'gather')
        return out if self.rank == root else None


class FakeMPI(object):
    def __init__(self, comm):
        self.COMM_WORLD = comm


def interruptible(comm):
    """Let other ranks run before every operation on files of the working folder."""
    real_open, real_mkdir, real_exists = builtins.open, os.mkdir, os.path.exists
    handler_open = logging.FileHandler._open

    def local(path):
        return isinstance(path, str) and not os.path.isabs(path)

    def my_open(file, *a, **k):
        if local(file):
            comm.pause('open ' + file)
        return real_open(file, *a, **k)

    def my_mkdir(path, *a, **k):
        if local(path):
            comm.pause('mkdir ' + path)
        return real_mkdir(path, *a, **k)

    def my_exists(path):
        out = real_exists(path)
        if local(path):
            comm.pause('exists ' + path)
        return out

    def my_handler(self):
        comm.pause('log ' + os.path.basename(self.baseFilename))
        return handler_open(self)
    builtins.open, os.mkdir, os.path.exists = my_open, my_mkdir, my_exists
    logging.FileHandler._open = my_handler


def child(line, rank, size, fn):
    code = 1
    try:
        comm = Comm(line, rank, size)
        from scaks import mpicommons
        mpicommons.MPI_INSTALLED, mpicommons.MPI = True, FakeMPI(comm)
        line.recv()
        interruptible(comm)
        line.send(('done', fn(rank, comm)))
        code = 0
    except BaseException as e:
        try:
            line.send(('failed', '%s: %s' % (type(e).__name__, e), traceback.format_exc()))
        except BaseException:
            pass
    finally:
        os._exit(code)


def on_ranks(size, fn, order):
    """Run fn(rank, comm) on forked ranks, switching between them in the given order."""
    lines, pids = [], []
    try:
        for rank in range(size):
            a, b, c, d = os.pipe() + os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if not pid:
                for l in lines:
                    l.close()
                os.close(a)
                os.close(d)
                child(Line(c, b), rank, size, fn)
            os.close(b)
            os.close(c)
            pids.append(pid)
            lines.append(Line(a, d))
        ready = {r: None for r in range(size)}       # rank -> what to answer
        waiting, results, trace, switches = {}, {}, [], 0
        last, step = None, 0
        while ready:
            names = sorted(ready)
            # a preference list of the case decides who runs next
            rank = names[order[step % len(order)] % len(names)]
            step += 1
            answer = ready.pop(rank)
            lines[rank].send(answer)
            try:
                msg = lines[rank].recv()
            except (EOFError, TimeoutError) as e:
                raise Violation('rank %d of %d: %s' % (rank, size, type(e).__name__))
            if last is not None and last != rank:
                switches += 1
            last = rank
            if msg[0] == 'pause':
                trace.append((rank, msg[1]))
                ready[rank] = None
            elif msg[0] == 'collective':
                waiting[rank] = msg[1:]
                kinds = {k for k, _ in waiting.values()}
                check(len(kinds) == 1, 'ranks meet in different operations: %r', {r: k for r, (k, _) in waiting.items()})
                if len(waiting) == size:
                    data = [waiting[r][1] for r in range(size)]
                    for r in range(size):
                        ready[r] = data
                    waiting = {}
            elif msg[0] == 'done':
                results[rank] = msg[1]
            else:
                raise Violation('rank %d of %d fails: %s (order of operations: %s)\n%s' % (rank, size, msg[1], trace[-8:], msg[2][-1500:]))
        check(not waiting, 'ranks %r wait for ranks that have ended', sorted(waiting))
        return [results[r] for r in range(size)], trace, switches
    finally:
        for l in lines:
            l.close()
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        for p in pids:
            os.waitpid(p, 0)


def alone(fn, folder):
    """fn() in a forked process without MPI, in a folder of its own."""
    os.mkdir(folder)
    for n in os.listdir('.'):
        if os.path.isfile(n):
            shutil.copy(n, folder)
    a, b = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if not pid:
        os.close(a)
        try:
            os.chdir(folder)
            out = ('done', fn())
        except BaseException as e:
            out = ('failed', '%s: %s' % (type(e).__name__, e), traceback.format_exc())
        try:
            Line(a, b).send(out)
        finally:
            os._exit(0)
    os.close(b)
    try:
        msg = Line(a, b).recv()
    finally:
        os.close(a)
        os.waitpid(pid, 0)
    if msg[0] != 'done':
        raise Violation('single process fails: %s\n%s' % (msg[1], msg[2][-1500:]))
    return msg[1]


# ---------------------------------------------------------------- lattice models
OUT = ['auto_coverages.py', 'auto_frequency.py', 'auto_tofs.py', 'auto_events.txt']


def simulate(case, comm=None):
    from scaks.solvers import kmc_plugins
    pause = comm.pause if comm else lambda what: None
    over = dict(repetitions=tuple(case['reps']), coverage_ratios=list(case['ratios']), empty_type=case['empty'],
                tof_start=case['tof_start'], tof_interval=case['tof_interval'],
                possible_element_types=list(case['elements']), basis_sites=[[0.25*i, 0.0, 0.0] for i in range(case['nbasis'])])
    if case['algo'] == 'CT':
        over.update(unitcell_area=case['area']*1e-20, active_ratio=case['ratio'], rate_algo='CT')
    m = ref.kmc_model(case, parse=False, **over)
    m.parser.parse_data(energy_file='in_energy.py', processes_file='in_processes.py',
                        configuration_file='no_config', sitesmap_file='no_sites')
    m.run(scripting=True)
    plugins = [getattr(kmc_plugins, n)(m) if n == 'FrequencyAnalysis' else getattr(kmc_plugins, n)(m, buffer_size=case['buffer'])
               for n in case['plugins']]
    recs = c21.records(case, len(case['rates']))
    step, time_, types, _, _ = recs[0]
    rates = case['rates']
    for p in plugins:
        pause('setup')
        p.setup(step, time_, c21.Configuration(types), c21.Interactions(0, [1]*len(rates), rates))
    for step, time_, types, picked, sites in recs[1:]:
        if comm and case['lockstep']:
            comm.barrier()
        for p in plugins:
            pause('step')
            p.registerStep(step, time_, c21.Configuration(types), c21.Interactions(picked, sites, rates))
    for p in plugins:
        pause('finalize')
        p.finalize()
    return list(m.process_mapping), [p.kwargs['rate_constant'] for p in m.processes]


def prepare_lattice(case):
    with open('in_energy.py', 'w') as f:
        f.write('Ga = %r\ndG = %r\n' % (list(case['Ga']), list(case['dG'])))
    with open('in_processes.py', 'w') as f:
        f.write('processes = %r\n' % (list(case['procs']),))


def check_lattice(case, want, got, trace):
    for r, g in enumerate(got):
        check(g == want, 'rank %d has processes %r, a single process %r', r, g, want)
    names = sorted(n for n in os.listdir('single') if os.path.isfile('single/' + n) and n != 'out.log')
    here = sorted(n for n in os.listdir('.') if os.path.isfile(n) and n != 'out.log')
    check(names == here, 'files %r, a single process writes %r', here, names)
    for n in names:
        # (the script of KMCLib starts with the date it was written)
        a, b = ['\n'.join(l for l in open(f).read().split('\n') if not l.startswith('# Date')) for f in ('single/' + n, n)]
        check(a == b, '%s of %d processes differs from that of a single process:\n%s\n--- single ---\n%s\n(order: %s)',
              n, case['size'], b[-700:], a[-700:], [t for t in trace if n in t[1] or t[1] in ('setup', 'finalize')][:30])


def t_lattice(case, ctx):
    prepare_lattice(case)
    want = alone(lambda: simulate(case), 'single')
    got, trace, switches = on_ranks(case['size'], lambda rank, comm: simulate(case, comm), case['order'])
    ctx.nontrivial(switches > 2*case['size'] and len(case['steps']) > 1)
    ctx.label('%d ranks' % case['size'])
    check_lattice(case, want, got, trace)


@st.composite
def lattice_cases(draw):
    case = draw(c21.histories())
    case['steps'] = case['steps'][:6]
    case['plugins'] = draw(st.lists(st.sampled_from(['CoveragesAnalysis', 'FrequencyAnalysis', 'TOFAnalysis', 'EventAnalysis']),
                                    min_size=1, max_size=4, unique=True))
    case['buffer'] = draw(st.integers(1, 4))
    case['size'] = draw(st.sampled_from([2, 2, 2, 3, 4]))
    case['lockstep'] = draw(st.booleans())
    case['order'] = draw(orders())
    return case


@st.composite
def orders(draw):
    kind = draw(st.sampled_from(['random', 'random', 'first', 'last', 'late']))
    if kind == 'first':
        return [0]                      # the lowest rank that can run
    if kind == 'last':
        return [-1]
    if kind == 'late':
        return draw(st.lists(st.sampled_from([0]*6 + [1, -1]), min_size=5, max_size=40))
    return draw(st.lists(st.integers(0, 3), min_size=3, max_size=60))


# ---------------------------------------------------------------- mean field models
def solve(case, guess, runs, comm=None):
    m = ref.model(case, rootfinding=case['method'], decimal_precision=case['dps'], tolerance=case['tol'],
                  max_rootfinding_iterations=100, archived_variables=['steady_state_coverages', 'tofs'])
    m.set_logger_level('FileHandler', 10)
    logging.getLogger('model').setLevel(10)

    def fn(model, n):
        if n:
            raise c30.GiveUp()
        return [mpmath.mpf(v) for v in guess]
    m.hybrid_method_register(fn)
    out = []
    for i in range(runs):
        try:
            if i == 0:
                m.run(init_cvgs=list(guess), coarse_guess=case['coarse'])
            else:
                m.run()
        except Exception as e:
            if not c30.no_solution(e):
                raise
            out.append(None)
            continue
        out.append(([str(v) for v in m.steady_state_coverages], [str(v) for v in m.TOFs], str(m.error)))
    return out


def load(name):
    if not os.path.exists(name):
        return None
    with open(name, 'rb') as f:
        return pickle.load(f)


def t_solve(case, ctx):
    inner = case['case']
    net = ref.Net(inner)
    size = case['size']
    want = []
    for r in range(size):
        want.append(alone(lambda: solve(inner, case['guesses'][r], case['runs']), 'single%d' % r))
    got, trace, switches = on_ranks(size, lambda rank, comm: solve(inner, case['guesses'][rank], case['runs'], comm), case['order'])
    ctx.nontrivial(switches > 2*size and any(w[0] for w in want))
    ctx.label('%d ranks' % size)
    check_solve(size, got, want)


def check_solve(size, got, want):
    for r in range(size):
        check(got[r] == want[r], 'rank %d of %d gets %r, a single process with the same start %r', r, size, got[r], want[r])
        a, b = load('single%d/data.pkl' % r), load('data/data_%d.pkl' % r)
        check(repr(a) == repr(b), 'archive of rank %d is %r, of a single process with the same start %r', r, b, a)
        mine = open('log/out_%d.log' % r).read()
        other = open('single%d/out.log' % r).read()
        cut = [[l for l in t.split('\n') if 'e+' in l or 'e-' in l or 'Entering' in l or 'Newton' in l] for t in (mine, other)]
        check(cut[0] == cut[1], 'log of rank %d differs from that of a single process: %r and %r', r, cut[0][:20], cut[1][:20])
    extra = [n for n in os.listdir('.') if os.path.isfile(n)]
    check(not extra, 'files %r are written by all ranks', extra)
    check(sorted(os.listdir('log')) == sorted('out_%d.log' % r for r in range(size)), 'logs %r', sorted(os.listdir('log')))


# ---------------------------------------------------------------- started by mpirun
def real(case):
    if case['kind'] == 'lattice':
        return simulate(case['case'])
    from scaks.mpicommons import mpi
    c = case['case']
    return solve(c['case'], c['guesses'][mpi.rank], c['runs'])


def t_real(case, ctx):
    c = case['case']
    size = c['size']
    if case['kind'] == 'lattice':
        prepare_lattice(c)
        want = alone(lambda: simulate(c), 'single')
    else:
        want = [alone(lambda: solve(c['case'], c['guesses'][r], c['runs']), 'single%d' % r) for r in range(size)]
    got = mpirun(size, 'c36', 'real', case)
    if got is None:
        ctx.label('mpirun does not start')
        return
    ctx.nontrivial()
    ctx.label('mpirun: %s on %d ranks' % (case['kind'], size))
    if case['kind'] == 'lattice':
        check_lattice(c, want, got, [])
    else:
        check_solve(size, got, want)


@st.composite
def solve_cases(draw):
    inner = draw(c14.solvable())
    net = ref.Net(inner)
    inner['dps'] = draw(st.sampled_from([30, 50]))
    inner['coarse'] = draw(st.booleans())
    size = draw(st.sampled_from([2, 2, 3]))
    return dict(case=inner, size=size, guesses=[draw(c14.guess(inner, net)) for _ in range(size)], runs=draw(st.integers(1, 2)),
                order=draw(orders()))


TESTS = [Test('lattice', lattice_cases(), t_lattice, 200, 5000),
         Test('solve', solve_cases(), t_solve, 120, 3000),
         Test('real', st.one_of(lattice_cases().map(lambda c: dict(kind='lattice', case=c)),
                                solve_cases().map(lambda c: dict(kind='solve', case=c))), t_real, 24, 300)]
