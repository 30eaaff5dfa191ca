"""C40: the run scripts do what the models do."""
import ast
import os
import pickle
import re
import shlex
import signal

import mpmath
from hypothesis import strategies as st

from pbt import core, gen, ref
from pbt.checks import c14, c16, c17, c20
from pbt.core import Test, Violation, HarnessError, check

RULE = ("non-trivial: a steady state was found or an integration recorded (mkm), at least two processes (kmc); "
        "several setup files or left-over files (both)")
ASSUMPTIONS = ["the constants at the top of a script are replaced by those of the case",
               "rate constants between 1e-2 and 1e2 per second",
               "shell commands of the scripts are only executed when they stay in the scratch folder",
               "a case that needs more than 25 s (the default hybrid method has no bound) counts as 'no solution found'"]
SCRIPTS = os.path.join(core.REPO, 'scripts')


# ---------------------------------------------------------------- running scripts
def safe(command):
    """Does a shell command only touch files of the working folder?"""
    if not isinstance(command, str):
        command = ' '.join(shlex.quote(c) for c in command)
    if re.search(r'[;&`$><~]|\.\.|(^|\s)/|\\', command):
        return False
    for part in command.split('|'):
        words = part.split()
        if not words or words[0] not in ('rm', 'ls', 'tail', 'head', 'sort', 'cp', 'mkdir', 'cat', 'wc', 'mv', 'touch', 'find', 'echo'):
            return False
        if any(w.startswith('/') for w in words[1:]):
            return False
    return True


class guarded(object):
    """Shell commands, file removals and copies are confined to the working folder."""
    def __enter__(self):
        import shutil
        import subprocess
        self.here = os.path.realpath(os.getcwd())
        assert 'scakspbt' in self.here
        self.saved = []

        def patch(mod, name, wrap):
            old = getattr(mod, name)
            self.saved.append((mod, name, old))
            setattr(mod, name, wrap(old))

        def shell(old):
            def fn(cmd, *a, **k):
                if not safe(cmd):
                    raise Violation('the script wants to execute %r' % (cmd,))
                return old(cmd, *a, **k)
            return fn

        def inside(old):
            def fn(path, *a, **k):
                full = os.path.realpath(os.path.join(os.getcwd(), os.fspath(path)))
                if isinstance(path, (str, os.PathLike)) and not full.startswith(self.here + os.sep):
                    raise Violation('the script wants to remove or replace %r' % (path,))
                return old(path, *a, **k)
            return fn
        for name in ('getstatusoutput', 'getoutput', 'call', 'check_call', 'check_output', 'run'):
            patch(subprocess, name, shell)
        patch(os, 'system', shell)
        patch(os, 'popen', shell)
        for name in ('remove', 'unlink', 'rmdir', 'rename', 'replace', 'removedirs'):
            patch(os, name, inside)
        patch(shutil, 'rmtree', inside)
        # run and check_call use each other and Popen: only the outermost one is judged
        return self

    def __exit__(self, *exc):
        for mod, name, old in reversed(self.saved):
            setattr(mod, name, old)


class Late(Exception):
    pass


def run_script(name, constants, seconds=25):
    """Execute a script as the main program with other constants.

    Returns its variables and its exit code (None when it came to its end)."""
    path = os.path.join(SCRIPTS, name)
    with open(path) as f:
        tree = ast.parse(f.read(), path)
    for node in ast.walk(tree):
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            key = node.targets[0].id
            if key in constants and not any(isinstance(n, ast.Name) for n in ast.walk(node.value) if n is not node.targets[0]
                                            and getattr(n, 'id', None) not in ('np', 'numpy')):
                node.value = ast.copy_location(ast.parse(constants[key], mode='eval').body, node.value)
    ast.fix_missing_locations(tree)
    space = {'__name__': '__main__', '__file__': path}

    def late(*a):
        raise Late()
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, seconds, 0.5)  # again when a callback swallowed it
    try:
        with guarded():
            try:
                exec(compile(tree, path, 'exec'), space)
            except SystemExit as e:
                return space, 0 if e.code is None else e.code
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return space, None


# ---------------------------------------------------------------- left-over files
OLD = ['out.log', 'auto_ode_coverages.py', 'auto_old.py', 'auto_kmc', 'auto_dir/auto_x.py', 'auto_dir/x.py']
OTHER = ['notes.txt', 'my_auto_file.py', 'out.log.bak', 'sub/auto_kept.py', 'sub/out.log', 'layout.log']


def leave(names):
    for n in names:
        if os.path.dirname(n):
            os.makedirs(os.path.dirname(n), exist_ok=True)
        with open(n, 'w') as f:
            f.write('# left over: %s\n' % n)


def untouched(n):
    with open(n) as f:
        return f.read() == '# left over: %s\n' % n


def check_left(old, other, log):
    for n in old:
        if n == 'out.log':
            if os.path.exists(n):
                check('left over' not in open(n).read(), 'the old log is kept')
        elif os.path.exists(n):
            check(not untouched(n), 'old file %s is kept', n)
    for n in other:
        check(os.path.exists(n) and untouched(n), 'file %s was changed or removed', n)
    if log:
        check(os.path.exists('out.log'), 'no log')


def write_setup(name, d):
    with open(name, 'w') as f:
        f.write(''.join('%s = %r\n' % kv for kv in d.items()))


def nothing_done(ctx, code):
    import KMCLib
    ctx.label('no setup file')
    check(code not in (None, 0), 'without a setup file the script ends with %r', code)
    check(not os.path.exists('data.pkl') and not KMCLib.RUNS, 'without a setup file there are results')


# ---------------------------------------------------------------- micro-kinetic script
def t_mkm(case, ctx):
    net = ref.Net(case)
    extra = dict(decimal_precision=case['dps'], rootfinding=case['method'], ode_output_interval=case['interval'], tolerance=1e-8)
    if case['archived'] is not None:
        extra['archived_variables'] = list(case['archived'])
    d = ref.setup(case, **extra)
    leave(case['old'] + case['other'])
    for name in case['decoys']:
        # only the last setup file counts
        write_setup(name, dict(d, temperature=123.0, rxn_expressions=['HNO_g + *_s <-> HNO_s']))
    if not case['nosetup']:
        write_setup('m.mkm', d)
    with open('rel_energy.py', 'w') as f:
        f.write('Ga = %r\ndG = %r\n' % (list(case['Ga']), list(case['dG'])))
    constants = dict(OdeInterval=case['span'], OdeEnd=case['end'], OdeOutput=case['output'], CalcXRC=case['XRC'],
                     ProductionName=net.gas[case['gas_index'] % len(net.gas)] if net.gas else 'CO2_g', OdeOnly=case['only'])
    if not net.gas:
        constants['CalcXRC'] = False
    given = dict(constants)
    code = 'not ended'
    try:
        space, code = run_script('mkm_run/run.py', {k: repr(v) for k, v in constants.items()})
    except Late:
        ctx.label('none: late')
        return
    except Exception as e:
        if case['nosetup']:
            nothing_done(ctx, 1)
            return
        if not c14.no_solution(e):
            raise
        check(not case['only'], 'integration alone fails: %r', e)
        ctx.label('none: ' + type(e).__name__)
        check('Traceback' in open('out.log').read(), 'the exception was not logged')
        return
    finally:
        if code != 'not ended':
            check_left(case['old'], case['other'], code is None)
    if case['nosetup']:
        nothing_done(ctx, code)
        return
    check(code in (None, 0), 'the script ends with %r', code)
    ctx.nontrivial()
    log = open('out.log').read()
    # the integration
    end = case['end']
    if case['output']:
        check(os.path.exists('auto_ode_coverages.py'), 'no trajectory of the integration')
        loc = {}
        exec(open('auto_ode_coverages.py').read(), {}, loc)
        n = len(c16.steps(0.0, end, case['span']))
        check(len(loc['times']) == len(loc['coverages']) == n//case['interval'], '%d records of %d steps', len(loc['times']), n)
        wanted = c16.solution(net, net.relative(), [0.0]*len(net.ads), list(loc['times']), 0.0) if loc['times'] else []
        for t, got, want in zip(loc['times'], loc['coverages'], wanted):
            for a, g, w in zip(net.ads, got, want):
                check(abs(g - w) <= c16.ACC, 'integration: coverage of %s at %s is %s, expected %s', a, t, g, w)
    else:
        check(not os.path.exists('auto_ode_coverages.py'), 'a trajectory although it was not asked for')
    if case['only']:
        ctx.label('integration only')
        check(not os.path.exists('data.pkl'), 'a steady state was archived although only the integration was asked for')
        check('Degree of Rate Control' not in log, 'rate control although only the integration was asked for')
        return
    ctx.label('steady state')
    variables = ['steady_state_coverages'] if case['archived'] is None else case['archived']
    with open('data.pkl', 'rb') as f:
        data = pickle.load(f)
    cv = dict(zip(net.ads, [ref.mpf(v) for v in data['steady_state_coverages']]))
    check(len(data['steady_state_coverages']) == len(net.ads), '%d coverages for %r', len(data['steady_state_coverages']), net.ads)
    x = net.activities(cv)
    f, r, dG = net.relative()
    wf, wr = net.rates(*net.rate_constants(f, r), x)
    d, sc = net.dtheta(wf, wr)
    noise = 1e-9*max(sc)
    check(max(abs(v) for v in d) <= 1e-8*1.0001 + noise, 'the largest derivative is %s', max(abs(v) for v in d))
    check(min(cv.values()) >= 0 and min(x[s] for s in net.sites) >= -1e-8, 'coverages %r', cv)
    if case.get('kind') is not None and 'cycle' not in case:
        want = c14.analytical(case, net)
        for a in net.ads:
            check(abs(cv[a] - want[a]) <= 1e-4, 'coverage of %s is %s, exact %s', a, cv[a], want[a])
    if 'tofs' in variables:
        for name, got in zip(net.gas + net.liq, data['tofs']):
            want, scale = net.tof(name, wf, wr)
            check(abs(ref.mpf(got) - want) <= 1e-9*scale, 'turnover frequency of %s is %s, expected %s', name, got, want)
    check(('Degree of Rate Control' in log) == bool(constants['CalcXRC']), 'rate control was %s',
          'not calculated' if constants['CalcXRC'] else 'calculated although not asked for')
    if constants['CalcXRC']:
        ctx.label('XRC')
    check(given == constants, 'constants')


@st.composite
def mkm_cases(draw):
    if draw(st.booleans()):
        case = draw(c14.solvable())
    else:
        case = draw(c17.cycles())
        case['cycle'] = True
    case['Ga'], case['dG'] = draw(c16.energies(len(case['rxns']), case['T']))
    case['gas'] = {g: min(p, 1.0) for g, p in case['gas'].items()}
    case['span'] = draw(st.sampled_from([0.05, 0.02, 0.1]))
    case['end'] = draw(st.sampled_from([1, 2.0, 0.5, 3]))
    case['interval'] = draw(st.integers(1, 7))
    case['output'] = draw(st.booleans())
    case['XRC'] = draw(st.integers(0, 3)) == 3
    case['only'] = draw(st.integers(0, 3)) == 3
    case['nosetup'] = draw(st.integers(0, 11)) == 11
    case['dps'] = draw(st.sampled_from([30, 50, 100]))
    case['method'] = draw(st.sampled_from(['MDNewton', 'MDNewton', 'ConstrainedNewton']))
    case['archived'] = draw(st.sampled_from([None, ['steady_state_coverages', 'tofs'], ['tofs', 'rates', 'steady_state_coverages']]))
    case['gas_index'] = draw(st.integers(0, 3))
    case['decoys'] = [] if case['nosetup'] else draw(st.lists(st.sampled_from(['a.mkm', 'a-b.mkm', 'i.mkm', '0.mkm']), unique=True, max_size=2))
    case['old'] = draw(st.lists(st.sampled_from(OLD), unique=True))
    case['other'] = draw(st.lists(st.sampled_from(OTHER), unique=True))
    return case


# ---------------------------------------------------------------- lattice script
def t_kmc(case, ctx):
    import KMCLib
    d = ref.kmc_setup(case, possible_element_types=list(case['elements']), nstep=case['nstep'],
                      basis_sites=[[0.25*i, 0.0, 0.0] for i in range(case['nbasis'])],
                      coverage_ratios=[1.0/case['nbasis']]*case['nbasis'])
    if case['algo'] == 'CT':
        d.update(unitcell_area=case['area']*1e-20, active_ratio=case['ratio'], rate_algo='CT')
    if case['start_time'] is not None:
        d['start_time'] = case['start_time']
    leave(case['old'] + case['other'])
    for name in case['decoys']:
        write_setup(name, dict(d, temperature=123.0, nstep=7))
    if not case['nosetup']:
        write_setup('m.mkm', d)
    with open('rel_energy.py', 'w') as f:
        f.write('Ga = %r\ndG = %r\n' % (list(case['Ga']), list(case['dG'])))
    with open('kmc_processes.py', 'w') as f:
        f.write('processes = %r\n' % (list(case['procs']),))
    del KMCLib.RUNS[:]
    try:
        space, code = run_script('kmc_run/run.py', {})
    except Exception:
        if not case['nosetup']:
            raise
        code = 1
    if case['nosetup']:
        nothing_done(ctx, code)
        return
    check_left(case['old'], case['other'], code is None)
    check(code in (None, 0), 'the script ends with %r', code)
    check(len(KMCLib.RUNS) == 1, '%d simulations', len(KMCLib.RUNS))
    ctx.nontrivial(len(case['procs']) > 1)
    run = KMCLib.RUNS[0]
    control = run['control_parameters'].kwargs
    check(control['number_of_steps'] == case['nstep'], '%r steps', control['number_of_steps'])
    check(control['start_time'] == (case['start_time'] or 0.0), 'starts at %r', control['start_time'])
    parts = run['model'].kwargs
    want, _ = c20.wanted(case, ref.Net(case))
    c20.compare(list(parts['interactions'].kwargs['processes']), want)


@st.composite
def kmc_cases(draw):
    case = draw(c20.cases())
    case['nstep'] = draw(st.integers(1, 1000))
    case['start_time'] = draw(st.one_of(st.none(), st.sampled_from([0.0, 1.5, 3e-7])))
    case['nosetup'] = draw(st.integers(0, 11)) == 11
    case['decoys'] = [] if case['nosetup'] else draw(st.lists(st.sampled_from(['a.mkm', 'a-b.mkm', 'i.mkm', '0.mkm']), unique=True, max_size=2))
    case['old'] = draw(st.lists(st.sampled_from(OLD), unique=True))
    case['other'] = draw(st.lists(st.sampled_from(OTHER), unique=True))
    return case


TESTS = [Test('mkm', mkm_cases(), t_mkm, 480, 4000, isolated=True),
         Test('kmc', kmc_cases(), t_kmc, 1200, 10000, isolated=True)]
