"""C20: KMC processes, mapping and control parameters."""
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks.c09 import expected, rcases
from pbt.core import Test, Violation, check

RULE = ("non-trivial: (processes) at least two process objects come from at least two definitions, groups, "
        "basis sites or a flag; (control, run) some parameter differs from its default; (refuse) always")
ELEMENTS = ['V', 'A', 'B_u', 'C-D', 'E 1']


@st.composite
def process(draw, exprs, elements, nbasis):
    npts = draw(st.integers(1, 4))
    pts = draw(st.lists(st.tuples(*[st.sampled_from([-1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 1/3., -2/3., 1.732050808, 12.0])]*3), min_size=npts,
                        max_size=npts, unique=True))
    pool = list(elements) + ['*']
    groups = [[list(p) for p in pts]]
    for _ in range(draw(st.integers(0, 2))):
        v = draw(st.tuples(*[st.sampled_from([0.0, 0.5, -0.25, 1/3.])]*3))
        groups.append([[a + b for a, b in zip(p, v)] for p in pts])
    el = st.lists(st.sampled_from(pool), min_size=npts, max_size=npts)
    d = dict(reaction=draw(st.sampled_from(exprs)), coordinates_group=groups,
             elements_before=draw(el), elements_after=draw(el),
             basis_sites=draw(st.lists(st.integers(0, nbasis-1), min_size=1, max_size=3)))
    if draw(st.integers(0, 2)) == 0:
        d['fast'] = draw(st.booleans())
    if draw(st.integers(0, 2)) == 0:
        d['redist'] = draw(st.booleans())
        if draw(st.booleans()):
            d['redist_species'] = draw(st.lists(st.sampled_from(elements), min_size=1, max_size=2))
    if draw(st.integers(0, 4)) == 0:
        d['description'] = 'free text'
    return d


@st.composite
def cases(draw):
    if draw(st.booleans()):
        case = draw(rcases())
        case['algo'] = 'CT'
    else:
        case = draw(gen.kinetic_cases(max_rxns=4))
        case['algo'] = draw(st.sampled_from(['TST', 'default']))
    case['elements'] = ['V'] + draw(st.lists(st.sampled_from(ELEMENTS[1:]), min_size=1, max_size=4, unique=True))
    case['nbasis'] = draw(st.integers(1, 3))
    exprs = ref.Net(case).exprs
    case['procs'] = draw(st.lists(process(exprs, case['elements'], case['nbasis']), min_size=1, max_size=4))
    return case


def build(case, **more):
    over = dict(possible_element_types=list(case['elements']), coverage_ratios=[1.0/case['nbasis']]*case['nbasis'],
                basis_sites=[[0.25*i, 0.0, 0.0] for i in range(case['nbasis'])])
    if case['algo'] == 'CT':
        over.update(unitcell_area=case['area']*1e-20, active_ratio=case['ratio'], rate_algo='CT')
    elif case['algo'] == 'TST':
        over.update(rate_algo='TST')
    over.update(more)
    return ref.kmc_model(case, processes=case['procs'], **over)


def rates_of(case, net, expr):
    i = net.exprs.index(expr)
    f, r, d = net.relative()
    if case['algo'] == 'CT':
        a, b, kind = expected(net, case, i, dict(Gaf=f, Gar=r, dG=d), True)
        return a, b
    a, b = net.k_of(f[i]), net.k_of(r[i])
    # concentrations of liquids are not pressures
    for k, n in net.lhs[i].items():
        if k in net.gas:
            a *= ref.mpf(case['gas'][k])**n
    for k, n in net.rhs[i].items():
        if k in net.gas:
            b *= ref.mpf(case['gas'][k])**n
    return a, b


def wanted(case, net):
    procs, mapping = [], []
    for d in case['procs']:
        fast, redist = d.get('fast', False), d.get('redist', False)
        a, b = rates_of(case, net, d['reaction'])
        for site in d['basis_sites']:
            for coords in d['coordinates_group']:
                procs.append((coords, d['elements_before'], d['elements_after'], [site], a, fast, redist,
                              d.get('redist_species')))
                if not redist:
                    procs.append((coords, d['elements_after'], d['elements_before'], [site], b, fast, False, None))
                if not fast:
                    mapping.append(d['reaction'] + '(->)')
                    if not redist:
                        mapping.append(d['reaction'] + '(<-)')
    return procs, mapping


KEYS = ('coordinates', 'elements_before', 'elements_after', 'basis_sites')


def compare(got, want):
    check(len(got) == len(want), '%d processes, expected %d', len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        g = g.kwargs
        for k, v in zip(KEYS, w):
            check(list(g[k]) == list(v), 'process %d: %s is %r, expected %r', i, k, g[k], v)
        check(ref.close(g['rate_constant'], w[4], 1e-7), 'process %d: rate is %r, expected %s', i, g['rate_constant'], w[4])
        for k, v in zip(('fast', 'redist'), w[5:7]):
            check(bool(g[k]) == v, 'process %d: %s is %r, expected %r', i, k, g[k], v)
        check(g['redist_species'] == w[7], 'process %d: redist_species is %r, expected %r', i, g['redist_species'], w[7])


def t_processes(case, ctx):
    net = ref.Net(case)
    m = build(case)
    want, mapping = wanted(case, net)
    ctx.nontrivial(len(want) > 2 or any('fast' in d or 'redist' in d for d in case['procs']))
    ctx.label(case['algo'])
    for d in case['procs']:
        if d.get('fast'):
            ctx.label('fast')
        if d.get('redist'):
            ctx.label('redistribution only')
        if '*' in d['elements_before'] + d['elements_after']:
            ctx.label('wildcard')
    before = repr(m.process_dicts)
    check(before == repr(case['procs']), 'definitions read as %s', before)
    for again in range(2):
        got = m.solver.processes
        compare(got, want)
        check(list(m.solver.process_mapping) == mapping, 'mapping is %r, expected %r', m.solver.process_mapping, mapping)
    check(repr(m.process_dicts) == before, 'definitions were modified')


@st.composite
def badcases(draw):
    case = draw(cases())
    case['which'] = draw(st.integers(0, len(case['procs'])-1))
    case['edit'] = draw(st.sampled_from(['reaction', 'reversed', 'other reaction', 'before', 'after', 'case', 'length', 'key', 'repeat']))
    case['pos'] = draw(st.integers(0, 3))
    return case


def t_refuse(case, ctx):
    import copy
    from scaks.errors.error import SetupError
    net = ref.Net(case)
    case = copy.deepcopy(case)
    d = case['procs'][case['which']]
    e = case['edit']
    pos = case['pos'] % len(d['elements_before'])
    if e == 'reaction':
        d['reaction'] = d['reaction'].replace(' ', '')
    elif e == 'reversed':
        d['reaction'] = gen.rxn_str([net.rxns[net.exprs.index(d['reaction'])][k] for k in (2, 1, 0)])
    elif e == 'other reaction':
        d['reaction'] = 'Ne_g + *_s -> Ne_s'
    elif e in ('before', 'after'):
        d['elements_' + e][pos] = 'Z'
    elif e == 'case':
        el = d['elements_after'][pos]
        d['elements_after'][pos] = el.lower() if el.lower() != el else '?'
    elif e == 'length':
        d['elements_after'].append('V')
    elif e == 'key':
        d.pop(['reaction', 'coordinates_group', 'elements_before', 'elements_after', 'basis_sites'][case['pos']])
    elif e == 'repeat':
        g = d['coordinates_group'][-1]
        g.append(list(g[0]))
        if len(d['coordinates_group']) > 1:
            for h in d['coordinates_group'][:-1]:
                h.append([9.0, 9.0, 9.0])
        d['elements_before'].append('V')
        d['elements_after'].append('V')
    if e in ('reaction', 'reversed', 'other reaction') and d['reaction'] in net.exprs:
        return
    if e in ('before', 'after', 'case') and set(d['elements_before'] + d['elements_after']) <= set(case['elements'] + ['*']):
        return
    ctx.nontrivial()
    ctx.label(e)
    m = build(case)
    try:
        got = m.solver.processes
    except SetupError:
        return
    raise Violation('definition %r accepted (%s): %d processes' % (d, e, len(got)))


@st.composite
def control(draw):
    d = {}

    def maybe(name, strategy):
        if draw(st.booleans()):
            d[name] = draw(strategy)
    maybe('nstep', st.integers(1, 10**7))
    maybe('random_seed', st.integers(0, 2**31-1))
    maybe('random_generator', st.sampled_from(['MT', 'MINSTD', 'RANLUX24', 'RANLUX48']))
    maybe('time_limit', st.one_of(gen.nice(0, 1e6), st.integers(1, 1000)))
    maybe('start_time', gen.nice(0, 1e3))
    maybe('trajectory_dump_interval', st.integers(1, 10**5))
    maybe('analysis_interval', st.one_of(st.integers(1, 1000), st.just([(1, 100, 10), 5]), st.just([7])))
    maybe('extra_trajectories', st.sampled_from([[1, 10], [0, 5, 100], (3, 4)]))
    maybe('do_redistribution', st.booleans())
    maybe('redistribution_interval', st.integers(1, 500))
    maybe('fast_species', st.lists(st.sampled_from(['A', 'V']), min_size=1, max_size=2, unique=True))
    maybe('nsplits', st.tuples(st.integers(1, 9), st.integers(1, 9), st.just(1)))
    maybe('distributor_type', st.sampled_from(['RandomDistributor', 'ProcessRandomDistributor']))
    maybe('empty_type', st.sampled_from(['V', 'A']))
    return d


BASE = dict(time_limit=('time_limit', float('inf')), number_of_steps=('nstep', 1),
            dump_interval=('trajectory_dump_interval', 1), seed=('random_seed', None),
            rng_type=('random_generator', 'MT'), analysis_interval=('analysis_interval', None),
            start_time=('start_time', 0.0), extra_traj=('extra_trajectories', None),
            do_redistribution=('do_redistribution', False))
REDIST = dict(redistribution_interval=('redistribution_interval', 1), fast_species=('fast_species', None),
              nsplits=('nsplits', (1, 1, 1)), distributor_type=('distributor_type', 'RandomDistributor'),
              empty_element=('empty_type', 'V'))


def same_control(got, setup):
    table = dict(BASE)
    if setup.get('do_redistribution'):
        table.update(REDIST)
    check(set(got) == set(table), 'control parameters %r, expected %r', sorted(got), sorted(table))
    for k, (name, default) in table.items():
        w = setup.get(name, default)
        check(got[k] == w and type(got[k]) == type(w), 'control parameter %s is %r, model has %s = %r', k, got[k], name, w)


@st.composite
def runcases(draw):
    case = draw(cases())
    case['control'] = draw(control())
    case['control'].pop('empty_type', None)
    case['analysis'] = draw(st.lists(st.sampled_from(['CoveragesAnalysis', 'FrequencyAnalysis', 'TOFAnalysis', 'EventAnalysis']),
                                     max_size=4, unique=True))
    case['type'] = draw(st.sampled_from(['default', 'lattice', 'xyz']))
    case['script'] = draw(st.booleans())
    case['twice'] = draw(st.booleans())
    return case


def t_control(case, ctx):
    ctx.nontrivial(bool(case))
    m = ref.kmc_model(SIMPLE, possible_element_types=['V', 'A'], **case)
    cp = m.solver.get_control_parameters()
    same_control(cp.kwargs, case)
    if case.get('do_redistribution'):
        ctx.label('redistribution')


SIMPLE = dict(rxns=[[[(1, 'CO', 1, 'g'), (1, '*', 1, 's')], None, [(1, 'CO', 1, 's')]]], gas={'CO_g': 1.0}, liq={},
              sites={'*_s': 1.0}, T=500.0, Ga=[0.0], dG=[-0.5])


def t_run(case, ctx):
    """KMCModel.run hands everything to the engine."""
    import os
    import KMCLib
    from scaks.solvers import kmc_plugins
    net = ref.Net(case)
    m = build(case, analysis=list(case['analysis']), **case['control'])
    want, mapping = wanted(case, net)
    ctx.nontrivial(bool(case['control'] or case['analysis']))
    for k in case['analysis']:
        ctx.label(k)
    kind = 'lattice' if case['type'] == 'default' else case['type']
    for again in range(1 + case['twice']):
        del KMCLib.RUNS[:]
        if case['type'] == 'default':
            m.run(scripting=case['script'])
        else:
            m.run(scripting=case['script'], trajectory_type=case['type'])
        check(len(KMCLib.RUNS) == 1, 'the engine was started %d times', len(KMCLib.RUNS))
        run = KMCLib.RUNS[0]
        parts = run['model'].kwargs
        compare(parts['interactions'].kwargs['processes'], want)
        check(parts['interactions'].kwargs['implicit_wildcards'] is True, 'implicit wildcards are off')
        check(parts['configuration'] is m.configuration and parts['sitesmap'] is m.sitesmap,
              "the engine did not get the model's configuration and sites map")
        same_control(run['control_parameters'].kwargs, case['control'])
        check(run['trajectory_type'] == kind and run['trajectory_filename'] == 'auto_%s_trajectory.py' % kind,
              'trajectory %r to %r', run['trajectory_type'], run['trajectory_filename'])
        names = [type(a).__name__ for a in run['analysis'] or []]
        check(names == case['analysis'], 'analyses are %r, expected %r', names, case['analysis'])
        compare(m.processes, want)
        check(list(m.process_mapping) == mapping, 'mapping is %r, expected %r', m.process_mapping, mapping)
        check(os.path.exists('auto_kmc_model.py') == case['script'], 'scripting=%s and script file: %s', case['script'],
              os.path.exists('auto_kmc_model.py'))
        if case['script']:
            space = {}
            exec(open('auto_kmc_model.py').read(), space)
            check(space['kmclatticemodel'] == run['model'], 'the script creates another model')


@st.composite
def script_cases(draw):
    case = draw(cases())
    case['reps'] = draw(st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 2)))
    case['what'] = draw(st.lists(st.tuples(st.sampled_from(['processes', 'interactions', 'configuration', 'lattice_model']),
                                           st.sampled_from([None, 'kmc.py', 'a_b.py', '']), st.integers(0, 3)), min_size=1, max_size=5))
    return case


def t_scripts(case, ctx):
    """Scripts of engine objects create equal objects."""
    import os
    import KMCLib
    m = build(case, repetitions=case['reps'])
    s = m.solver
    want, mapping = wanted(case, ref.Net(case))
    procs = s.get_processes()
    compare(procs, want)
    inter = KMCLib.KMCInteractions(processes=list(procs), implicit_wildcards=True)
    objects = dict(processes=list(procs), interactions=inter, configuration=m.configuration,
                   lattice_model=KMCLib.KMCLatticeModel(configuration=m.configuration, sitesmap=m.sitesmap, interactions=inter))
    names = dict(processes='processes', interactions='kmcinteractions', configuration='kmcconfiguration', lattice_model='kmclatticemodel')
    ctx.nontrivial(len(want) > 2)
    written = {}
    for what, name, part in case['what']:
        obj = objects[what]
        if what == 'processes':
            obj = obj[:len(obj) - part] if part < len(obj) else []
        ctx.label(what)
        content = getattr(s, 'script_' + what)(obj, name) if name is not None else getattr(s, 'script_' + what)(obj)
        space = {}
        exec(content, space)
        got = space[names[what]]
        check(got == obj and type(got) is type(obj), 'script of %s creates %r instead of %r', what, got, obj)
        check(content.startswith('#'), 'script starts with %r', content[:60])
        if name:
            written['auto_' + name] = content
    files = sorted(n for n in os.listdir('.') if n.startswith('auto_'))
    check(files == sorted(written), 'script files %r, expected %r', files, sorted(written))
    for n, content in written.items():
        check(open(n).read() == content, 'file %s differs from the returned script', n)
    # asked for again, processes and their names are the same
    check(len(s.get_processes()) == len(want) and list(s.process_mapping) == mapping, 'asked for processes again, the mapping is %r, expected %r',
          s.process_mapping, mapping)


TESTS = [Test('processes', cases(), t_processes, 1500, 30000),
         Test('refuse', badcases(), t_refuse, 900, 15000),
         Test('control', control(), t_control, 600, 10000),
         Test('run', runcases(), t_run, 600, 10000),
         Test('scripts', script_cases(), t_scripts, 400, 8000)]
