"""C42: the models shipped as examples."""
import copy
import glob
import os
import pickle
import re

import numpy
from hypothesis import strategies as st

from pbt import core, gen, ref
from pbt.checks import c09, c14, c20, c40
from pbt.core import Test, check

RULE = ("non-trivial: (lattice) at least one of temperature, pressures, energies, algorithm differs from the shipped "
        "values; (meanfield) a steady state was found")
ASSUMPTIONS = ["the Python 2 run scripts of the lattice examples are not executed, only their input files",
               "the micro-kinetic examples run with changed model_dict / energies / model.py of the same shape",
               "a run that needs more than 25 s counts as 'no solution found'"]
ROOT = os.path.join(core.REPO, 'examples')
LATTICE = ['CO-Oxidation-Au-100/20x20/nodiff', 'CO-Oxidation-Au-100/60x60/nodiff', 'CO-Oxidation-Pt-100/10x10/event-analysis',
           'CO-Oxidation-Pt-100/10x10/redistribution', 'CO-Oxidation-Pt-100/10x10/redistribution/no-rejection',
           'CO-Oxidation-Pt-100/10x10/superposition/NN-1', 'CO-Oxidation-Pt-100/10x10/superposition/NN-2',
           'CO-Oxidation-Pt-100/10x10/superposition/no-rejection', 'CO-Oxidation-Pt-111/20x20']
FORMULA = re.compile(r'^(\d*)([A-Z*][A-Za-z0-9-]*|\*)_(\d*)([a-z]+)$')


def load(path):
    space = {}
    with open(path) as f:
        exec(compile(f.read(), path, 'exec'), space)
    space.pop('__builtins__')
    return space


def state(text):
    out = []
    for part in text.split(' + '):
        coef, name, n, site = FORMULA.match(part.strip()).groups()
        out.append((int(coef or 1), name, int(n or 1), site))
    return out


def reaction(text):
    parts = re.split(r'\s*<?->\s*', text.strip())
    return [state(parts[0]), state(parts[1]) if len(parts) == 3 else None, state(parts[-1])]


# Known findings: lines of shipped input files that cannot be read, with what they should say. The rest of the
# example is checked with these lines corrected.
REPEATED = [('[0.0, 2.0, 0.0], [0.0, 2.5, 0.0],  # 7, 8\n', '[0.5, 2.0, 0.0], [0.0, 2.5, 0.0],  # 7, 8\n'),
            ('[1.0, 0.5, 0.0], [1.5, 0.0, 0.0],  # 11, 12\n', '[1.0, 1.0, 0.0], [1.5, 0.0, 0.0],  # 11, 12\n')]
KNOWN = {'CO-Oxidation-Au-100/60x60/nodiff/kmc_processes.py': ('au-60x60-coordinates', REPEATED)}
for _f, _n in (('redistribution', 200), ('redistribution/no-rejection', 100), ('superposition/NN-1', 100), ('superposition/NN-2', 100),
               ('superposition/no-rejection', 100)):
    KNOWN['CO-Oxidation-Pt-100/10x10/%s/pt-100.mkm' % _f] = (
        'pt-100-interval', [('trajectory_dump_interval = nstep/%d\n' % _n, 'trajectory_dump_interval = nstep//%d\n' % _n)])


def shipped(folder, name, ctx):
    """The text of an input file of a lattice example."""
    with open(os.path.join(ROOT, 'KMC', folder, name)) as f:
        text = f.read()
    fid, edits = KNOWN.get(folder + '/' + name, (None, []))
    for old, new in edits:
        if text.count(old) == 1:
            ctx.known(fid, 'examples/KMC/%s/%s: %s' % (folder, name, old.strip()))
            text = text.replace(old, new)
    return text


def run_text(text, name):
    space = {}
    exec(compile(text, name, 'exec'), space)
    space.pop('__builtins__')
    return space


def read_lattice(folder, ctx):
    """(name, text of the setup, energies, text of the definitions) of an example."""
    path = os.path.join(ROOT, 'KMC', folder)
    name = os.path.basename(glob.glob(os.path.join(path, '*.mkm'))[0])
    return name, shipped(folder, name, ctx), load(os.path.join(path, 'rel_energy.py')), shipped(folder, definitions(folder), ctx)


def definitions(folder):
    # the other definitions of these examples come from Python 2 scripts
    return 'scripts/kmc_processes_old.py' if 'superposition' in folder else 'kmc_processes.py'


@st.composite
def lattice(draw):
    case = dict(folder=draw(st.sampled_from(LATTICE)))
    case['T'] = draw(st.one_of(st.none(), gen.nice(250, 1000, 1)))
    case['gas'] = draw(st.one_of(st.none(), st.lists(gen.nice(0.001, 2.0), min_size=3, max_size=3)))
    case['dE'] = draw(st.one_of(st.none(), st.lists(st.tuples(gen.nice(0, 0.5), gen.nice(-0.5, 0.5)), min_size=40, max_size=40)))
    case['algo'] = draw(st.sampled_from([None, 'TST', 'CT']))
    case['nstep'] = draw(st.one_of(st.none(), st.integers(100, 5000)))
    case['as_dict'] = draw(st.booleans())
    case['run'] = draw(st.booleans())
    return case


def t_lattice(case, ctx):
    import KMCLib
    from scaks.models.kmc_model import KMCModel
    name, text, energy, deftext = read_lattice(case['folder'], ctx)
    setup, procs = run_text(text, name), run_text(deftext, 'processes')['processes']
    ctx.label(case['folder'])
    exprs = list(setup['rxn_expressions'])
    n = len(exprs)
    check(len(energy['Ga']) == len(energy['dG']) == n, '%d reactions, %d energies', n, len(energy['Ga']))
    over = {}
    if case['T'] is not None:
        over['temperature'] = case['T']
    if case['nstep'] is not None:
        over['nstep'] = case['nstep']
    if case['algo'] is not None:
        over['rate_algo'] = case['algo']
    if case['gas'] is not None:
        d = copy.deepcopy(setup['species_definitions'])
        for g, p in zip(sorted(k for k in d if k.endswith('_g')), case['gas']):
            d[g]['pressure'] = p
        over['species_definitions'] = d
    if case['dE'] is not None:
        energy = dict(Ga=[a + x for a, (x, _) in zip(energy['Ga'], case['dE'])],
                      dG=[b + y for b, (_, y) in zip(energy['dG'], case['dE'])])
    ctx.nontrivial(bool(over) or case['dE'] is not None)
    full = dict(setup)
    full.update(over)
    # own view of the model
    rxns = [reaction(e) for e in exprs]
    mine = dict(rxns=rxns, T=full['temperature'], Ga=energy['Ga'], dG=energy['dG'], procs=procs,
                gas={k: v['pressure'] for k, v in full['species_definitions'].items() if k.endswith('_g')}, liq={},
                sites={'*_' + k.lstrip('*_'): v.get('total', 1.0) for k, v in full['species_definitions'].items() if v.get('type') == 'site'},
                algo='CT' if case['algo'] == 'CT' else 'TST', area=full['unitcell_area']*1e20, ratio=full['active_ratio'])
    net = ref.Net(mine)
    net.exprs = exprs
    want, mapping = c20.wanted(mine, net)
    # the model
    path = os.path.join(ROOT, 'KMC', case['folder'])
    for f in ('kmc_sites.py', 'kmc_configuration.py'):
        with open(os.path.join(path, f)) as src, open(f, 'w') as dst:
            dst.write(src.read())
    with open(os.path.basename(definitions(case['folder'])), 'w') as dst:
        dst.write(deftext)
    with open('rel_energy.py', 'w') as f:
        f.write('Ga = %r\ndG = %r\n' % (energy['Ga'], energy['dG']))
    levels = dict(logger_level=50, file_handler_level=50, console_handler_level=50)
    if case['as_dict']:
        m = KMCModel(setup_dict=full, **levels)
    else:
        with open(name, 'w') as dst:
            dst.write(text + '\n' + ''.join('%s = %r\n' % kv for kv in over.items()))
        m = KMCModel(setup_file=name, **levels)
    m.parser.parse_data(energy_file='rel_energy.py', processes_file=os.path.basename(definitions(case['folder'])))
    check(list(m.rxn_expressions) == exprs, 'reactions are %r', m.rxn_expressions)
    if not case['run']:
        c20.compare(m.solver.processes, want)
        check(list(m.solver.process_mapping) == mapping, 'mapping differs from the definitions')
        return
    del KMCLib.RUNS[:]
    m.run()
    check(len(KMCLib.RUNS) == 1, '%d simulations', len(KMCLib.RUNS))
    run = KMCLib.RUNS[0]
    parts = run['model'].kwargs
    c20.compare(list(parts['interactions'].kwargs['processes']), want)
    control = run['control_parameters'].kwargs
    check(control['number_of_steps'] == full['nstep'], '%r steps', control['number_of_steps'])
    check(control['dump_interval'] == full['trajectory_dump_interval'], 'dump interval %r', control['dump_interval'])
    conf = parts['configuration'].kwargs
    lat = conf['lattice'].kwargs
    check(list(lat['repetitions']) == list(full['repetitions']), 'repetitions %r', lat['repetitions'])
    check(list(lat['periodic']) == list(full['periodic']), 'periodicity %r', lat['periodic'])
    cell = lat['unit_cell'].kwargs
    check(numpy.array_equal(cell['basis_points'], full['basis_sites']), 'basis %r', cell['basis_points'])
    check(numpy.array_equal(cell['cell_vectors'], full['cell_vectors']), 'cell %r', cell['cell_vectors'])
    check(sorted(conf['possible_types']) == sorted(full['possible_element_types']), 'types %r', conf['possible_types'])
    nsites = len(full['basis_sites'])
    for r in full['repetitions']:
        nsites *= r
    check(list(conf['types']) == ['V']*nsites, 'the lattice does not start empty with %d sites', nsites)


# ---------------------------------------------------------------- micro-kinetic examples
MEANFIELD = ['model_from_dict/run.py', 'model_from_file/run.py', 'on-the-fly-analysis/on-the-fly-analysis.py',
             'hybrid_iteration/hybrid_iteration.py']
EXPRS = ['CO_g + *_s -> CO_s', 'O2_g + 2*_s <-> O-O_2s -> 2O_s', 'CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s']


@st.composite
def meanfield(draw):
    return dict(script=draw(st.sampled_from(MEANFIELD)), T=draw(gen.nice(450, 700, 1)),
                gas=dict(CO_g=draw(st.sampled_from([1.32e-7, 1e-8, 1e-6, 3e-5])), O2_g=draw(st.sampled_from([5.26e-7, 1e-8, 1e-6, 2e-5])),
                         CO2_g=draw(st.sampled_from([1.32e-7, 1e-9, 1e-5]))),
                Ga=[0.0, draw(gen.nice(0.0, 0.2)), draw(gen.nice(0.3, 0.6))],
                dG=[draw(gen.nice(-2.2, -1.5)), draw(gen.nice(-2.6, -1.6)), draw(gen.nice(-0.8, 0.2))],
                total=draw(st.sampled_from([1.0, 1.0, 0.5])), area=draw(gen.nice(5, 15, 1)), ratio=draw(gen.nice(0.2, 1.0, 2)),
                seed=draw(st.integers(0, 10**6)))


def t_meanfield(case, ctx):
    mine = dict(case, rxns=[reaction(e) for e in EXPRS], liq={}, sites={'*_s': case['total']})
    net = ref.Net(mine)
    tol = 1e-8 if 'model_from_dict' in case['script'] else 1e-50
    d = dict(rxn_expressions=EXPRS, temperature=case['T'], parser='RelativeEnergyParser', rate_algo='CT',
             unitcell_area=case['area']*1e-20, active_ratio=case['ratio'])
    d['species_definitions'] = {g: {'pressure': p} for g, p in case['gas'].items()}
    d['species_definitions']['*_s'] = dict(site_name='top', type='site', total=case['total'])
    constants = {}
    energies = dict(Ga=case['Ga'], dG=case['dG'])
    if case['script'].startswith('model_from'):
        with open('rel_energy.py', 'w') as f:
            f.write('Ga = %(Ga)r\ndG = %(dG)r\n' % energies)
    else:
        constants['relative_energies'] = repr(energies)
        d['tolerance'] = tol
    if 'file' in case['script']:
        shipped = load(os.path.join(ROOT, 'MKM/model_from_file/model.py'))
        check(shipped['rxn_expressions'] == EXPRS, 'reactions')
        shipped.update(d)
        c40.write_setup('model.py', shipped)
    else:
        constants['model_dict'] = repr(d)
    ctx.label(case['script'].split('/')[0])
    numpy.random.seed(case['seed'])
    try:
        space, code = c40.run_script(os.path.join(ROOT, 'MKM', case['script']), constants)
    except c40.Late:
        ctx.label('none: late')
        return
    except Exception as e:
        if not c14.no_solution(e):
            raise
        ctx.label('none: ' + type(e).__name__)
        return
    check(code in (None, 0), 'the script ends with %r', code)
    ctx.nontrivial()
    check(not [n for n in os.listdir('.') if n.startswith('auto_')] == case['script'].startswith('model_from'), 'files %r', os.listdir('.'))
    with open('data.pkl', 'rb') as f:
        data = pickle.load(f)
    cv = dict(zip(net.ads, [ref.mpf(v) for v in data['steady_state_coverages']]))
    check(len(data['steady_state_coverages']) == len(net.ads), '%d coverages for %r', len(data['steady_state_coverages']), net.ads)
    x = net.activities(cv)
    check(min(cv.values()) >= 0 and x['*_s'] >= -tol*1.0001, 'coverages %r, free %s', cv, x['*_s'])
    f, r, dg = net.relative()
    E = dict(Gaf=f, Gar=r, dG=dg)
    k = [c09.expected(net, mine, i, E, False)[:2] for i in range(3)]
    kf, kr = space['model'].solver.get_rate_constants()
    for i in range(3):
        check(ref.close(kf[i], k[i][0], 1e-8) and ref.close(kr[i], k[i][1], 1e-7), 'rate constants of %s are %s %s, expected %s %s',
              EXPRS[i], kf[i], kr[i], *k[i])
    for pair, rel in ((zip(kf, kr), ref.mpf(10)**-40), (k, 1e-6)):
        a, b = zip(*pair)
        v, scale = net.dtheta(*net.rates([ref.mpf(q) for q in a], [ref.mpf(q) for q in b], x))
        noise = rel*max(abs(q) for q in list(a) + list(b))
        for ads, q, s in zip(net.ads, v, scale):
            check(abs(q) <= tol*1.0001 + noise + 1e-6*s*(rel == 1e-6), 'd%s/dt at the steady state is %s', ads, q)
    if 'on-the-fly' in case['script']:
        errors = load('newton_traj.py')['errors']
        check(all(isinstance(q, float) and q >= 0 for q in errors), 'recorded errors %r', errors)
        check(not errors or float(space['model'].solver.error) <= errors[-1], 'the last error is not the smallest')


TESTS = [Test('lattice', lattice(), t_lattice, 360, 4000),
         Test('meanfield', meanfield(), t_meanfield, 180, 3000)]
