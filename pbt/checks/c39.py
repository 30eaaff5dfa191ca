"""C39: a lattice simulation continues where it ended."""
import os
import re
import runpy
import subprocess
import sys

from hypothesis import strategies as st

from pbt import core, gen, ref
from pbt.checks import c20
from pbt.core import Test, check

RULE = "non-trivial: at least two records in a trajectory, or two continuations"
ASSUMPTIONS = ["the engine is a recording stand-in; trajectories are written the way the engine writes them (times, steps, types appended)",
               "the setup file has one assignment per line"]
SCRIPT = os.path.join(os.environ.get('SCAKS_REPO', '/repo'), 'scripts', 'kmc_run', 'change_start_time.py')
SHELL = os.path.join(os.environ.get('SCAKS_REPO', '/repo'), 'scripts', 'kmc_run', 'kmc_continue.sh')
# Stand-in for the commands that remove or write: nothing outside of the scratch folder is touched.
GUARD = """#!/bin/bash
for a in "$@"; do
    case "$a" in -*) continue;; esac
    full=$(/usr/bin/realpath -m -- "$a")
    case "$full" in "$SCRATCH"/*) ;; *) echo "%s $full" >> "$SCRATCH/refused"; exit 1;; esac
done
exec /bin/%s "$@"
"""


def write_setup(d, order, eol, blank):
    lines = ['# setup', '']
    keys = sorted(d)
    for i in order:
        k = keys[i]
        lines.append('%s = %r' % (k, d[k]))
        if blank and i % 3 == 0:
            lines += ['', '# more', '# start_time = 0.5 of the first run', 'old_start_time = 0.25  # start_time before']
    with open('pt-100.mkm', 'w') as f:
        f.write('\n'.join(lines) + ('\n' if eol else ''))


def variables():
    loc = {}
    with open('pt-100.mkm') as f:
        exec(f.read(), {}, loc)
    return loc


def write_trajectory(records, name='auto_lattice_trajectory_old.py'):
    with open(name, 'w') as f:
        f.write('# KMCLib trajectory\nsites = []\ntimes = []\nsteps = []\ntypes = []\n\n')
        for t, s, types in records:
            f.write('times.append(%r)\nsteps.append(%d)\ntypes.append(%r)\n' % (t, s, types))


def start(case):
    """The run of the simulation in this folder."""
    import KMCLib
    from scaks.models.kmc_model import KMCModel
    for name in ('auto_lattice_trajectory_old',):
        sys.modules.pop(name, None)
    here = os.getcwd()
    sys.path.insert(0, here)
    try:
        m = KMCModel(setup_file='pt-100.mkm', logger_level=50, file_handler_level=50, console_handler_level=50)
        m.parser.parse_data()
        del KMCLib.RUNS[:]
        m.run(scripting=False)
    finally:
        sys.path.remove(here)
        sys.modules.pop('auto_lattice_trajectory_old', None)
    run = KMCLib.RUNS[0]
    parts = run['model'].kwargs
    control = dict(run['control_parameters'].kwargs)
    return m, control, list(parts['configuration'].kwargs['types']), parts


def t_continue(case, ctx):
    nsites = case['reps'][0]*case['reps'][1]*case['reps'][2]*case['nbasis']
    d = ref.kmc_setup(case, possible_element_types=list(case['elements']), repetitions=tuple(case['reps']),
                      basis_sites=[[0.25*i, 0.0, 0.0] for i in range(case['nbasis'])],
                      coverage_ratios=[1.0/case['nbasis']]*case['nbasis'], nstep=case['nstep'])
    if case['algo'] == 'CT':
        d.update(unitcell_area=case['area']*1e-20, active_ratio=case['ratio'], rate_algo='CT')
    if case['start_time'] is not None:
        d['start_time'] = case['start_time']
    order = sorted(range(len(d)), key=lambda i: (case['order'][i % len(case['order'])], i))
    write_setup(d, order, case['eol'], case['blank'])
    with open('rel_energy.py', 'w') as f:
        f.write('Ga = %r\ndG = %r\n' % (list(case['Ga']), list(case['dG'])))
    with open('kmc_processes.py', 'w') as f:
        f.write('processes = %r\n' % (list(case['procs']),))
    m0, control0, types0, parts0 = start(case)
    check(control0.get('start_time') == (case['start_time'] or 0.0), 'first run starts at %r', control0.get('start_time'))
    check(types0 == ['V']*nsites, 'first run starts with %r', types0)
    ctx.nontrivial(any(len(r) > 1 for r in case['runs']) or len(case['runs']) > 1)
    ctx.label('start_time given' if case['start_time'] is not None else 'no start_time')
    ctx.label('line break at end' if case['eol'] else 'no line break at end')
    for records in case['runs']:
        write_trajectory([(t, s, [case['elements'][i % len(case['elements'])] for i in (ts*nsites)[:nsites]]) for t, s, ts in records])
        with open('kmc_configuration.py', 'w') as f:
            f.write('from auto_lattice_trajectory_old import types as t;types = t[-1]\n')
        before = variables()
        runpy.run_path(SCRIPT, run_name='__main__')
        after = variables()
        check(after.get('start_time') == records[-1][0], 'start time in the setup file is %r', after.get('start_time'))
        before.pop('start_time', None), after.pop('start_time')
        check(after == before, 'setup file describes %r, before %r', after, before)
        m, control, types, parts = start(case)
        t, s, ts = records[-1]
        want = [case['elements'][i % len(case['elements'])] for i in (ts*nsites)[:nsites]]
        check(control['start_time'] == t, 'continued run starts at %r, the last one ended at %r', control['start_time'], t)
        check(types == want, 'continued run starts with %r, the last one ended with %r', types, want)
        a, b = dict(control), dict(control0)
        a.pop('start_time'), b.pop('start_time', None)
        check(a == b, 'continued run has parameters %r, the first one %r', a, b)
        c20.compare([p for p in parts['interactions'].kwargs['processes']],
                    [tuple(p.kwargs[k] for k in c20.KEYS) + (p.kwargs['rate_constant'], bool(p.kwargs['fast']), bool(p.kwargs['redist']),
                                                            p.kwargs['redist_species']) for p in parts0['interactions'].kwargs['processes']])
        for k in sorted(d):
            if k not in ('start_time', 'parser', 'solver', 'corrector'):
                check(getattr(m, k) == getattr(m0, k), '%s is %r in the continued run, %r in the first', k, getattr(m, k), getattr(m0, k))


def tree(top):
    out = {}
    for d, _, names in os.walk(top):
        for n in names:
            p = os.path.join(d, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, top)] = f.read()
    return out


def continue_job(scratch):
    """Execute the continuation script in the working folder, with the interpreter and the script of this tree."""
    with open(SHELL) as f:
        text = f.read()
    text = re.sub(r'/[\w./-]*/change_start_time\.py', SCRIPT, text)
    text = re.sub(r'/[\w./-]*/bin/python[\d.]*(?![\w./-])', sys.executable, text)
    with open(os.path.join(scratch, 'continue.sh'), 'w') as f:
        f.write(text)
    env = dict(os.environ, PATH=os.path.join(scratch, 'bin') + ':/usr/bin:/bin', HOME=os.path.join(scratch, 'home'), SCRATCH=scratch)
    p = subprocess.run(['bash', os.path.join(scratch, 'continue.sh')], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=60)
    if os.path.exists(os.path.join(scratch, 'refused')):
        with open(os.path.join(scratch, 'refused')) as f:
            check(False, 'the script works outside of its folder: %r', f.read())
    return p.stdout


def t_script(case, ctx):
    """The shell script that prepares a continued job."""
    scratch = os.path.realpath(os.getcwd())
    check('scakspbt' in scratch, 'not in a scratch folder')
    for n in ('bin', 'home', 'jobs', 'jobs/a', 'jobs/a/b'):
        os.mkdir(n)
    for n in ('rm', 'mv', 'cp', 'mkdir'):
        with open('bin/' + n, 'w') as f:
            f.write(GUARD % (n, n))
        os.chmod('bin/' + n, 0o755)
    os.chdir('jobs/a/b')
    d = ref.kmc_setup(case, possible_element_types=list(case['elements']), repetitions=tuple(case['reps']),
                      basis_sites=[[0.25*i, 0.0, 0.0] for i in range(case['nbasis'])],
                      coverage_ratios=[1.0/case['nbasis']]*case['nbasis'], nstep=case['nstep'])
    if case['algo'] == 'CT':
        d.update(unitcell_area=case['area']*1e-20, active_ratio=case['ratio'], rate_algo='CT')
    if case['start_time'] is not None:
        d['start_time'] = case['start_time']
    nsites = case['reps'][0]*case['reps'][1]*case['reps'][2]*case['nbasis']
    order = sorted(range(len(d)), key=lambda i: (case['order'][i % len(case['order'])], i))
    write_setup(d, order, case['eol'], case['blank'])
    with open('rel_energy.py', 'w') as f:
        f.write('Ga = %r\ndG = %r\n' % (list(case['Ga']), list(case['dG'])))
    with open('kmc_processes.py', 'w') as f:
        f.write('processes = %r\n' % (list(case['procs']),))
    ctx.nontrivial(len(case['runs']) > 1 or len(case['files']) > 1)
    _, control0, _, parts0 = start(case)
    for number, records in enumerate(case['runs']):
        for n in case['files']:
            with open(n, 'w') as f:
                f.write('# %s of run %d\n' % (n, number))
        write_trajectory([(t, s, [case['elements'][i % len(case['elements'])] for i in (ts*nsites)[:nsites]]) for t, s, ts in records],
                         'auto_lattice_trajectory.py')
        here, before, old = os.getcwd(), tree('.'), variables()
        out = continue_job(scratch)
        check(os.path.isdir('continue'), 'no folder for the continued job: %s', out)
        after = tree('.')
        check({k: v for k, v in after.items() if not k.startswith('continue' + os.sep)} == before, 'the finished job was changed: %s', out)
        os.chdir('continue')
        new = tree('.')
        check(new.pop('auto_lattice_trajectory_old.py', None) == before['auto_lattice_trajectory.py'], 'the trajectory is not that of the last run: %s', out)
        check('kmc_configuration.py' in new, 'no configuration: %s', out)
        check(not [k for k in new if os.path.basename(k).startswith('auto_') or k.endswith('.script')], 'files of the last run: %r', sorted(new))
        for k in ('rel_energy.py', 'kmc_processes.py') + tuple(n for n in case['files'] if not n.startswith('auto_') and not n.endswith(('.script', '.o123'))):
            check(new.get(k) == before[k], 'input file %s of the continued job: %r', k, new.get(k))
        vars_ = variables()
        check(vars_.pop('start_time', None) == records[-1][0], 'start time in the setup file')
        old.pop('start_time', None)
        check(vars_ == old, 'setup file describes %r, before %r', vars_, old)
        m, control, types, parts = start(case)
        t, s, ts = records[-1]
        want = [case['elements'][i % len(case['elements'])] for i in (ts*nsites)[:nsites]]
        check(control['start_time'] == t, 'continued run starts at %r, the last one ended at %r', control['start_time'], t)
        check(types == want, 'continued run starts with %r, the last one ended with %r', types, want)
        a, b = dict(control), dict(control0)
        a.pop('start_time'), b.pop('start_time', None)
        check(a == b, 'continued run has parameters %r, the first one %r', a, b)


@st.composite
def script_cases(draw):
    case = draw(cases())
    case['runs'] = case['runs'][:2]
    case['files'] = draw(st.lists(st.sampled_from(['auto_coverages.py', 'auto_frequency.py', 'auto_ready_trajectory.py', 'kynetix.script', 'pt.o123',
                                                   'notes.txt', 'my_auto_.py', 'run.py', 'auto_tofs.py', 'kmc_sites.py', 'in.dat']), unique=True, max_size=6))
    return case


@st.composite
def cases(draw):
    case = draw(c20.cases())
    case['reps'] = draw(st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 2)))
    case['nstep'] = draw(st.integers(1, 1000))
    case['start_time'] = draw(st.one_of(st.none(), st.sampled_from([0.0, 1.5, 3e-7])))
    case['order'] = draw(st.lists(st.integers(0, 30), min_size=1, max_size=30))
    case['eol'] = draw(st.booleans())
    case['blank'] = draw(st.booleans())
    runs, t, s = [], 0.0, 0
    for _ in range(draw(st.integers(1, 3))):
        records = []
        for _ in range(draw(st.integers(1, 4))):
            records.append((t, s, draw(st.lists(st.integers(0, 4), min_size=1, max_size=6))))
            t += draw(st.one_of(gen.nice(0, 10), st.sampled_from([1e-9, 1/3., 1e6])))
            s += draw(st.integers(1, 100))
        runs.append(records)
    case['runs'] = runs
    return case


TESTS = [Test('continue', cases(), t_continue, 1600, 8000), Test('script', script_cases(), t_script, 320, 2000)]
