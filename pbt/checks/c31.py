"""C31: lattice, configuration and sites map."""
from hypothesis import strategies as st

from pbt import ref
from pbt.core import Test, Violation, check
from pbt.checks.c20 import SIMPLE

RULE = "non-trivial: more than one site, and types from a file or several basis sites"
ELEMENTS = ['V', 'A', 'B_u', 'C', 'E 1']
SITES = ['M', 'top', 'b_1']


@st.composite
def cases(draw):
    reps = draw(st.tuples(st.integers(1, 5), st.integers(1, 4), st.integers(1, 2)))
    q = st.sampled_from([0.0, 0.25, 0.5, 0.75, 1/3., 0.123456789])
    basis = draw(st.lists(st.tuples(q, q, q), min_size=1, max_size=4, unique=True))
    v = st.tuples(*[st.sampled_from([0.0, 1.0, 2.5, 3.0, -1.5, 10.0, 2.7712812921])]*3)
    n = reps[0]*reps[1]*reps[2]*len(basis)
    elements = draw(st.permutations(draw(st.lists(st.sampled_from(ELEMENTS), min_size=1, max_size=5, unique=True))))
    sites = draw(st.permutations(draw(st.lists(st.sampled_from(SITES), min_size=1, max_size=3, unique=True))))
    case = dict(reps=reps, basis=[list(b) for b in basis], cell=[list(draw(v)) for _ in range(3)],
                periodic=draw(st.tuples(st.booleans(), st.booleans(), st.booleans())),
                elements=list(elements), sites=list(sites), empty=draw(st.sampled_from(elements)))
    for what, pool in (('config', elements), ('map', sites)):
        kind = draw(st.sampled_from(['none', 'types', 'types', 'computed', 'no variable']))
        case[what] = kind
        if kind in ('types', 'computed'):
            case[what + ' types'] = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n))
    case['names'] = draw(st.sampled_from(['default', 'given']))
    case['quoted'] = draw(st.booleans())
    return case


def write(name, variable, kind, types):
    if kind == 'none':
        return
    with open(name, 'w') as f:
        f.write('# input\nother = 1\n')
        if kind == 'types':
            f.write('%s = %r\n' % (variable, types))
        elif kind == 'computed':
            f.write('%s = []\n' % variable)
            for t in types:
                f.write('%s.append(%r)\n' % (variable, t))


def build(case):
    with open('kmc_processes.py', 'w') as f:
        f.write('processes = []\n')
    with open('rel_energy.py', 'w') as f:
        f.write('Ga = [0.0]\ndG = [-0.5]\n')
    m = ref.kmc_model(SIMPLE, parse=False, possible_element_types=case['elements'], possible_site_types=case['sites'],
                      empty_type=case['empty'], repetitions=tuple(case['reps']), basis_sites=case['basis'],
                      cell_vectors=case['cell'], periodic=tuple(case['periodic']),
                      coverage_ratios=[1.0/len(case['basis'])]*len(case['basis']))
    if case['names'] == 'given':
        write('conf.py', 'types', case['config'], case.get('config types'))
        write('map.py', 'site_types', case['map'], case.get('map types'))
        m.parser.parse_data(configuration_file='conf.py', sitesmap_file='map.py')
    else:
        write('kmc_configuration.py', 'types', case['config'], case.get('config types'))
        write('kmc_sites.py', 'site_types', case['map'], case.get('map types'))
        m.parser.parse_data()
    return m


def check_lattice(lattice, case):
    k = lattice.kwargs
    cell = k['unit_cell'].kwargs
    check([list(map(float, x)) for x in cell['cell_vectors']] == case['cell'], 'cell vectors %r', cell['cell_vectors'])
    check([list(map(float, x)) for x in cell['basis_points']] == case['basis'], 'basis points %r', cell['basis_points'])
    check(tuple(k['repetitions']) == tuple(case['reps']), 'repetitions %r', k['repetitions'])
    check(tuple(k['periodic']) == tuple(case['periodic']), 'periodic %r', k['periodic'])


def t_lattice(case, ctx):
    n = case['reps'][0]*case['reps'][1]*case['reps'][2]*len(case['basis'])
    m = build(case)
    ctx.nontrivial(n > 1 and (len(case['basis']) > 1 or 'config types' in case or 'map types' in case))
    ctx.label('configuration: ' + case['config'])
    ctx.label('sites: ' + case['map'])
    c, s = m.configuration.kwargs, m.sitesmap.kwargs
    check(type(m.configuration).__name__ == 'KMCConfiguration' and type(m.sitesmap).__name__ == 'KMCSitesMap',
          'model has %r and %r', m.configuration, m.sitesmap)
    want = case.get('config types', [case['empty']]*n)
    check(list(c['types']) == want, 'configuration types %r, expected %r', c['types'], want)
    check(list(c['possible_types']) == case['elements'], 'possible types %r', c['possible_types'])
    want = case.get('map types', [case['sites'][0]]*n)
    check(list(s['types']) == want, 'site types %r, expected %r', s['types'], want)
    check(list(s['possible_types']) == case['sites'], 'possible site types %r', s['possible_types'])
    check_lattice(c['lattice'], case)
    check_lattice(s['lattice'], case)
    check(list(m.process_dicts) == [], 'process definitions %r', m.process_dicts)
    check(list(m.relative_energies['dG']) == [-0.5], 'energies were not parsed')


@st.composite
def badcases(draw):
    case = draw(cases())
    case['edit'] = draw(st.sampled_from(['short', 'long', 'unknown', 'empty', 'case', 'none at all', 'double']))
    case['pos'] = draw(st.integers(0, 200))
    return case


def t_refuse(case, ctx):
    from scaks.errors.error import SetupError
    case = dict(case)
    n = case['reps'][0]*case['reps'][1]*case['reps'][2]*len(case['basis'])
    e = case['edit']
    types = list(case.get('map types', [case['sites'][0]]*n))
    if case['map'] not in ('types', 'computed'):
        case['map'] = 'types'
    pos = case['pos'] % n
    if e == 'short':
        del types[pos]
    elif e == 'long':
        types.insert(pos, types[pos])
    elif e == 'double':
        types = types*2
    elif e == 'none at all':
        types = []
    elif e == 'unknown':
        types[pos] = 'Q'
    elif e == 'case':
        types[pos] = types[pos].swapcase()
    elif e == 'empty':
        case['empty'] = 'Z'
    case['map types'] = types
    ctx.nontrivial(n > 1)
    ctx.label(e)
    try:
        build(case)
    except SetupError:
        return
    raise Violation('accepted although %s' % e)


TESTS = [Test('lattice', cases(), t_lattice, 3000, 30000),
         Test('refuse', badcases(), t_refuse, 1600, 15000)]
