"""C24: model setup."""
import copy
import math

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Test, Violation, check

RULE = ("non-trivial: (valid) at least two optional parameters are set; (invalid, protect) always")

MKM, KMC = 'mkm', 'kmc'
floats = st.one_of(gen.nice(-50, 50), st.integers(-5, 1000), st.sampled_from([0, 0.0, 1e-30, 1e300, float('inf')]))
ints = st.one_of(st.integers(-3, 500), st.sampled_from([0, 10**12]))
words = st.text(alphabet='abXY_ 1', max_size=5)
vector = st.lists(st.one_of(gen.nice(-10, 10), st.sampled_from([0.0, 1.0])), min_size=3, max_size=3)
vectors = st.lists(vector, min_size=1, max_size=4)


@st.composite
def seq(draw, entry, min_size=0, max_size=4):
    out = draw(st.lists(entry, min_size=min_size, max_size=max_size))
    return tuple(out) if draw(st.booleans()) else out


def not_type(*kinds):
    pool = [('int', 3), ('int', 0), ('float', 1.5), ('float', 2.0), ('str', 'x'), ('str', '1'), ('bool', True), ('bool', False),
            ('none', None), ('list', []), ('list', [1]), ('tuple', (1.0,)), ('dict', {}), ('bytes', b'MT')]
    return st.sampled_from([v for k, v in pool if k not in kinds])


class Kind(object):
    def __init__(self, valid, invalid):
        self.valid, self.invalid = valid, invalid


def choice(*names):
    wrong = [n.lower() for n in names] + [n.upper() for n in names] + [n[:-1] for n in names] + [n + ' ' for n in names] + ['', 'other']
    return Kind(st.sampled_from(names), st.one_of(st.sampled_from([w for w in wrong if w not in names]), not_type('str')))


@st.composite
def bad_seq(draw, entry, wrong):
    """A container of the wrong type, or one wrong entry in any position."""
    if draw(st.integers(0, 2)) == 0:
        return draw(not_type('list', 'tuple'))
    out = list(draw(st.lists(entry, max_size=3)))
    out.insert(draw(st.integers(0, len(out))), draw(wrong))
    return tuple(out) if draw(st.booleans()) else out


def sequence(entry, wrong):
    return Kind(seq(entry), bad_seq(entry, wrong))


@st.composite
def bad_vectors(draw):
    rows = draw(vectors)
    kind = draw(st.sampled_from(['type', 'short', 'long', 'flat', 'int', 'str', 'ragged', 'tuple', 'deep', 'empty']))
    i = draw(st.integers(0, len(rows) - 1))
    if kind == 'type':
        return draw(not_type('list', 'tuple'))
    if kind == 'short':
        return [r[:2] for r in rows]
    if kind == 'long':
        return [r + [1.0] for r in rows]
    if kind == 'flat':
        return rows[0]
    if kind == 'int':
        return [[int(x) for x in r] for r in rows]
    if kind == 'str':
        rows[i] = [rows[i][0], 'x', rows[i][2]]
        return rows
    if kind == 'ragged':
        rows.insert(i, [1.0, 2.0])
        return rows
    if kind == 'tuple':
        return tuple(tuple(r) for r in rows)
    if kind == 'deep':
        return [rows]
    return []


@st.composite
def interval(draw, bad=False):
    a = draw(st.integers(0, 50))
    b = a + draw(st.integers(1, 50))
    step = draw(st.integers(1, b - a))
    if not bad:
        return draw(st.sampled_from([(a, b, step), [a, b, step], b]))
    return draw(st.sampled_from([(a, b), [a, b, step, 1], (b, a, 1), (a, b, b - a + 1), (a, float(b), step), (a, b, str(step)),
                                 'x', None, 1.5, True, {}]))


@st.composite
def intervals(draw):
    if draw(st.integers(0, 2)) == 0:
        return draw(st.integers(1, 1000))
    return draw(seq(interval(), max_size=3))


@st.composite
def bad_intervals(draw):
    if draw(st.integers(0, 2)) == 0:
        return draw(not_type('int', 'list', 'tuple'))
    out = list(draw(seq(interval(), max_size=2)))
    out.insert(draw(st.integers(0, len(out))), draw(interval(bad=True)))
    return out


@st.composite
def bad_ref(draw):
    if draw(st.integers(0, 2)) == 0:
        return draw(not_type('dict'))
    d = draw(st.dictionaries(st.sampled_from(['H', 'C', 'O']), gen.nice(-5, 5), max_size=2))
    d.update(draw(st.sampled_from([{'N': 1}, {'N': '1.0'}, {'N': None}, {3: 1.0}, {('N',): 2.0}, {'N': [1.0]}])))
    return d


@st.composite
def definitions(draw):
    d = {}
    for g in draw(st.lists(st.sampled_from(['CO_g', 'H2_g', 'O2_g']), unique=True, max_size=3)):
        d[g] = {'pressure': draw(gen.nice(0, 10))}
    for l in draw(st.lists(st.sampled_from(['H2O_l']), unique=True, max_size=1)):
        d[l] = {'concentration': draw(gen.nice(0, 10))}
    for s in draw(st.lists(st.sampled_from(['*_s', '*_t']), unique=True, max_size=2)):
        d[s] = {'site_name': '111', 'type': 'site', 'total': draw(gen.nice(0.1, 1))}
    return d


@st.composite
def bad_definitions(draw):
    if draw(st.integers(0, 2)) == 0:
        return draw(not_type('dict'))
    d = draw(definitions())
    d['N2_g'] = draw(st.sampled_from([{}, {'concentration': 1.0}, {'Pressure': 1.0}, {'total': 1.0}]))
    return d


real = Kind(floats, not_type('int', 'float'))
integer = Kind(ints, not_type('int'))
flag = Kind(st.booleans(), not_type('bool'))
string = Kind(words, not_type('str'))
strings = sequence(words, not_type('str'))
int_seq = sequence(st.integers(-2, 9), not_type('int'))
bool_seq = sequence(st.booleans(), not_type('bool'))
float_seq = sequence(gen.nice(-5, 5), not_type('float'))
box = Kind(vectors, bad_vectors())
analyses = ['CoveragesAnalysis', 'FrequencyAnalysis', 'TOFAnalysis', 'EventAnalysis']

COMMON = {
    'temperature': (298.0, real),
    'rxn_expressions': ([], None),
    'species_definitions': ({}, Kind(definitions(), bad_definitions())),
    'rate_algo': ('TST', string),
    'components': (['parser'], strings),
    'unitcell_area': (0.0, real),
    'active_ratio': (1.0, real),
}
PARAMS = {
    MKM: dict(COMMON, **{
        'decimal_precision': (100, integer),
        'perturbation_size': (0.01, real),
        'perturbation_direction': ('right', choice('right', 'left')),
        'archived_variables': (['steady_state_coverages'], strings),
        'numerical_representation': ('mpmath', choice('mpmath', 'sympy')),
        'rootfinding': ('MDNewton', choice('MDNewton', 'ConstrainedNewton')),
        'tolerance': (1e-8, real),
        'max_rootfinding_iterations': (100, integer),
        'ode_buffer_size': (500, integer),
        'ode_output_interval': (200, integer),
        'ref_energies': ({}, Kind(st.dictionaries(st.sampled_from(['H', 'C', 'O', 'x']), gen.nice(-5, 5), max_size=3), bad_ref())),
        'analysis': ([], Kind(st.sampled_from([[], ()]), bad_seq(*[st.sampled_from(['TOFAnalysis', 1, None])]*2))),
    }),
    KMC: dict(COMMON, **{
        'cell_vectors': ([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], box),
        'basis_sites': ([[0.0, 0.0, 0.0]], box),
        'repetitions': ((1, 1, 1), int_seq),
        'periodic': ((True, True, True), bool_seq),
        'nstep': (1, integer),
        'random_seed': (None, integer),
        'time_seed': (False, flag),
        'trajectory_dump_interval': (1, integer),
        'random_generator': ('MT', choice('MT', 'MINSTD', 'RANLUX24', 'RANLUX48')),
        'analysis': ([], sequence(st.sampled_from(analyses), st.one_of(st.sampled_from(['coveragesanalysis', 'TOF', 'TOFAnalysis ', '']), not_type('str')))),
        'analysis_interval': (None, Kind(intervals(), bad_intervals())),
        'possible_element_types': ([], strings),
        'possible_site_types': ([], strings),
        'empty_type': ('V', string),
        'tof_start': (0, integer),
        'time_limit': (float('inf'), real),
        'coverage_ratios': ([], float_seq),
        'extra_trajectories': (None, int_seq),
        'start_time': (0.0, real),
        'tof_interval': (10, real),
        'do_redistribution': (False, flag),
        'redistribution_interval': (1, integer),
        'fast_species': (None, strings),
        'nsplits': ((1, 1, 1), int_seq),
        'distributor_type': ('RandomDistributor', choice('RandomDistributor', 'ProcessRandomDistributor')),
    }),
}
QUERIES = {
    MKM: ['model_info', 'data_file', 'log_allowed', 'steady_state_coverages', 'TOFs', 'reversibilities', 'error'],
    KMC: ['log_allowed', 'process_dicts', 'processes', 'configuration', 'sitesmap', 'process_mapping'],
}
COMMON_QUERIES = ['kB', 'h', 'logger', 'elementary_rxns_list', 'site_names', 'adsorbate_names', 'gas_names', 'liquid_names',
                  'transition_state_names', 'has_relative_energy', 'has_absolute_energy', 'relative_energies', 'absolute_energies']
COMPONENTS = {
    'parser': {MKM: ['RelativeEnergyParser', 'AbsoluteEnergyParser'], KMC: ['KMCParser']},
    'solver': {MKM: ['SteadyStateSolver'], KMC: ['KMCSolver']},
    'corrector': {MKM: ['ThermodynamicCorrector'], KMC: ['ThermodynamicCorrector']},
    'plotter': {MKM: ['EnergyProfilePlotter'], KMC: ['EnergyProfilePlotter']},
}
# names no parameter, attribute or method has
UNKNOWN = st.sampled_from(['presure', 'Temperature', 'temperatures', 'pi', 'zz_x', 'rxns', 'Parser', 'solvers', 'tolerances', 'kb'])


@st.composite
def setups(draw, cls=None, solvable=False):
    cls = cls or draw(st.sampled_from([MKM, KMC]))
    params = PARAMS[cls]
    values = {}
    keys = draw(st.lists(st.sampled_from(sorted(params)), unique=True, max_size=8))
    for k in keys:
        if params[k][1] is not None:
            values[k] = draw(params[k][1].valid)
    net = draw(gen.networks(max_rxns=3)) if draw(st.booleans()) else None
    if net is not None:
        values['rxn_expressions'] = draw(st.sampled_from([list, tuple]))([gen.rxn_str(r) for r in net])
    for c, names in sorted(COMPONENTS.items()):
        # a solver needs elementary reactions
        if c == 'parser' or (draw(st.booleans()) and (c != 'solver' or net)):
            values[c] = draw(st.sampled_from(names[cls]))
    if ('solver' in values or solvable) and values.get('numerical_representation') == 'sympy':
        values['numerical_representation'] = 'mpmath'      # the solver implements nothing else
    extra = draw(st.dictionaries(UNKNOWN, st.sampled_from([1, 'x', None, [1.0], {}]), max_size=2))
    order = draw(st.permutations(sorted(values) + sorted(extra)))
    values.update(extra)
    return dict(cls=cls, values=[(k, values[k]) for k in order], unknown=sorted(extra), net=net,
                source=draw(st.sampled_from(['dict', 'file', 'both'])),
                levels={k: draw(st.sampled_from([40, 50])) for k in draw(st.lists(st.sampled_from(
                    ['logger_level', 'file_handler_level', 'console_handler_level']), unique=True))})


def cls_of(case):
    if case['cls'] == MKM:
        from scaks.models.micro_kinetic_model import MicroKineticModel as M
    else:
        from scaks.models.kmc_model import KMCModel as M
    return M


def write(values, name):
    """Setup file; infinity has no literal."""
    with open(name, 'w') as f:
        f.write('# setup\n')
        for k, v in values:
            f.write('%s = %s\n' % (k, 'float("inf")' if isinstance(v, float) and math.isinf(v) else repr(v)))


def build(case, values=None, source=None, **more):
    values = copy.deepcopy(case['values'] if values is None else values)
    source = source or case['source']
    kwargs = dict(logger_level=50, file_handler_level=50, console_handler_level=50)
    kwargs.update(case['levels'])
    kwargs.update(more)
    if source == 'dict':
        kwargs['setup_dict'] = dict(values)
    else:
        write(values, 'setup.mkm')
        kwargs['setup_file'] = 'setup.mkm'
        if source == 'both':      # the dictionary has priority
            write([('temperature', 12345.0), ('parser', 'KMCParser')], 'setup.mkm')
            kwargs['setup_dict'] = dict(values)
    return cls_of(case)(**kwargs)


def same(a, b):
    return type(a) is type(b) and a == b


def verify(m, case, what):
    values = dict(case['values'])
    for k, (default, _) in sorted(PARAMS[case['cls']].items()):
        want = values.get(k, default) if k in values else default
        got = getattr(m, k)
        check(same(got, want), '%s: %s is %r, expected %r', what, k, got, want)
    for c in COMPONENTS:
        got = getattr(m, c)
        if c in values:
            check(type(got).__name__ == values[c], '%s: %s is %r, expected %s', what, c, got, values[c])
        else:
            check(got is None, '%s: %s is %r although none was given', what, c, got)
    for k in case['unknown']:
        check(not hasattr(m, k), '%s: unknown parameter %s became an attribute', what, k)
    for k in ('logger_level', 'file_handler_level', 'console_handler_level'):
        want = case['levels'].get(k, 50)
        check(same(getattr(m, k), want), '%s: %s is %r, expected %r', what, k, getattr(m, k), want)
    if case['net']:
        net = ref.Net(dict(rxns=case['net']))
        for attr, names in (('gas_names', net.gas), ('liquid_names', net.liq), ('adsorbate_names', net.ads),
                            ('transition_state_names', net.ts)):
            check(sorted(getattr(m, attr)) == names, '%s: %s are %r, expected %r', what, attr, getattr(m, attr), names)
        check(len(m.elementary_rxns_list) == len(net.exprs), '%s: %r reactions', what, len(m.elementary_rxns_list))


def valid(case, ctx):
    optional = [k for k, _ in case['values'] if k in PARAMS[case['cls']]]
    ctx.nontrivial(len(optional) > 1)
    ctx.label(case['source'])
    ctx.label(case['cls'])
    given = copy.deepcopy(case['values'])
    first = build(case)
    verify(first, case, 'first model')
    # another model of the same class, with nothing set, is not affected and does not affect the first one
    M = cls_of(case)
    other = M(setup_dict={'parser': COMPONENTS['parser'][case['cls']][0]}, logger_level=50, file_handler_level=50, console_handler_level=50)
    verify(other, dict(case, values=[('parser', COMPONENTS['parser'][case['cls']][0])], unknown=[], net=None, levels={}), 'default model')
    for k, (default, _) in PARAMS[case['cls']].items():
        if isinstance(getattr(other, k), list):
            getattr(other, k).append('changed')
        elif isinstance(getattr(other, k), dict):
            getattr(other, k)['changed'] = 'changed'
    verify(first, case, 'first model again')
    for source in ('dict', 'file'):
        verify(build(case, source=source), case, 'second model from ' + source)
    check(given == case['values'], 'case changed')


# --------------------------------------------------------------- invalid edits
@st.composite
def invalid_cases(draw):
    case = draw(setups())
    params = PARAMS[case['cls']]
    kind = draw(st.sampled_from(['param'] * 8 + ['component', 'component', 'level', 'noparser', 'nosource']))
    values = dict(case['values'])
    edit = None
    if kind == 'param':
        k = draw(st.sampled_from(sorted(params)))
        if k == 'rxn_expressions':
            bad = draw(bad_seq(st.just('CO_g + *_s -> CO_s'), not_type('str')))
        else:
            bad = draw(params[k][1].invalid)
        edit = (k, bad)
    elif kind == 'component':
        k = draw(st.sampled_from(sorted(COMPONENTS)))
        own = COMPONENTS[k][case['cls']][0]
        edit = (k, draw(st.sampled_from([own.lower(), own + 'x', '', 'ParserBase', 'dict', 'ThermodynamicCorrectorBase', None, 1, [own],
                                         {'solver': 'ThermodynamicCorrector'}.get(k, 'SteadyStateSolver' if k != 'solver' else 'x')])))
    elif kind == 'level':
        edit = (draw(st.sampled_from(['logger_level', 'file_handler_level', 'console_handler_level'])),
                draw(st.one_of(st.sampled_from([5, 15, 60, -10, 51]), not_type('int'))))
    case.update(kind=kind, edit=edit, position=draw(st.integers(0, 20)))
    if case['source'] == 'both':
        case['source'] = 'dict'
    return case


def accepted(fn):
    """None when fn refuses with an error of the documented classes."""
    from scaks.errors.error import ParameterError, SetupError
    try:
        return fn()
    except (ValueError, SetupError, ParameterError):
        return None


def invalid(case, ctx):
    ctx.nontrivial()
    ctx.label(case['kind'])
    build(case)
    values = [(k, v) for k, v in case['values']]
    more = {}
    if case['kind'] == 'param' or case['kind'] == 'component':
        k, bad = case['edit']
        values = [(a, b) for a, b in values if a != k]
        values.insert(case['position'] % (len(values) + 1), (k, bad))
        ctx.label(k)
    elif case['kind'] == 'level':
        more = dict([case['edit']])
    elif case['kind'] == 'noparser':
        values = [(a, b) for a, b in values if a != 'parser']
    if case['kind'] == 'nosource':
        got = accepted(lambda: cls_of(case)(logger_level=50, file_handler_level=50, console_handler_level=50))
    else:
        got = accepted(lambda: build(case, values=values, **more))
    check(got is None, 'a model was built with %s %r', case['kind'], case['edit'])
    # the refusal leaves nothing behind
    verify(build(case), case, 'model after the refused one')


@st.composite
def refused_cases(draw):
    cls = draw(st.sampled_from([MKM, KMC, KMC]))
    params = PARAMS[cls]
    k = draw(st.sampled_from(sorted(params) + ['cell_vectors', 'basis_sites', 'analysis_interval']*(cls == KMC)))
    kind = params[k][1] or Kind(seq(st.just('CO_g + *_s -> CO_s')), bad_seq(st.just('CO_g + *_s -> CO_s'), not_type('str')))
    return dict(cls=cls, key=k, good=draw(kind.valid), bad=draw(kind.invalid), levels={}, source='dict')


def refused(case, ctx):
    ctx.nontrivial()
    ctx.label(case['key'])
    parser = ('parser', COMPONENTS['parser'][case['cls']][0])
    m = build(case, values=[parser, (case['key'], case['good'])])
    check(same(getattr(m, case['key']), case['good']), '%s is %r, expected %r', case['key'], getattr(m, case['key']), case['good'])
    got = accepted(lambda: build(case, values=[parser, (case['key'], case['bad'])]))
    check(got is None, 'a model was built with %s = %r', case['key'], case['bad'])


# ------------------------------------------------------------------ protection
@st.composite
def protect_cases(draw):
    case = draw(setups(solvable=True))
    params = PARAMS[case['cls']]
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(['assign', 'assign', 'query', 'mutate', 'wrong', 'swap', 'component', 'setup']))
        if kind == 'assign':
            k = draw(st.sampled_from(sorted(params)))
            v = ['A_g + *_s -> A_s'] if params[k][1] is None else draw(params[k][1].valid)
            ops.append((kind, k, v))
        elif kind == 'query':
            ops.append((kind, draw(st.sampled_from(QUERIES[case['cls']] + COMMON_QUERIES)), draw(st.sampled_from([None, [], 1.0, {}, True]))))
        elif kind == 'mutate':
            ops.append((kind, draw(st.sampled_from(['add', 'clear', 'deep'])), draw(st.sampled_from(['model', 'parser']))))
        elif kind in ('wrong', 'swap'):
            ops.append((kind, draw(st.sampled_from(['solver', 'corrector'])) if case['net'] else 'corrector', draw(st.integers(0, 5))))
        elif kind == 'component':
            ops.append((kind, draw(st.sampled_from(sorted(COMPONENTS))), draw(st.sampled_from(['Nothing', None, 1, '', 'parser']))))
        else:
            ops.append((kind, draw(st.sampled_from(['setup_dict', 'setup_file'])), None))
    case['ops'] = ops
    return case


def state(m, case):
    out = {}
    for k in list(PARAMS[case['cls']]) + list(COMPONENTS) + ['setup_dict']:
        v = getattr(m, k)
        out[k] = v if k in COMPONENTS else copy.deepcopy(v)
    for k in ('kB', 'h', 'log_allowed', 'has_relative_energy', 'has_absolute_energy', 'relative_energies') + \
            (('gas_names', 'liquid_names', 'adsorbate_names', 'site_names', 'transition_state_names', 'elementary_rxns_list') if case['net'] else ()):
        out[k] = copy.deepcopy(getattr(m, k))
    return out


def protect(case, ctx):
    ctx.nontrivial()
    m = build(case)
    from scaks.correctors import ThermodynamicCorrector
    from scaks.solvers import KMCSolver, SteadyStateSolver
    want = state(m, case)
    Solver = SteadyStateSolver if case['cls'] == MKM else KMCSolver
    for kind, k, v in case['ops']:
        ctx.label(kind)
        if kind in ('assign', 'query'):
            if kind == 'assign':
                getattr(m, k)
            try:
                setattr(m, k, copy.deepcopy(v))
            except AttributeError:
                pass
            else:
                raise Violation('%s was reassigned to %r' % (k, v))
        elif kind == 'setup':
            getattr(m, k)
            try:
                setattr(m, k, {'temperature': 1.0} if k == 'setup_dict' else 'x.mkm')
            except AttributeError:
                pass
            else:
                raise Violation('%s was reassigned' % k)
        elif kind == 'mutate':
            d = m.species_definitions if v == 'model' else m.parser.species_definitions
            check(d == want['species_definitions'], 'species definitions of the %s are %r, expected %r', v, d, want['species_definitions'])
            if k == 'add':
                d['X_g'] = {'pressure': 1.0}
            elif k == 'clear':
                d.clear()
            else:
                for inner in d.values():
                    inner.clear()
                    inner['total'] = 77.0
        elif kind == 'wrong':
            other = ThermodynamicCorrector(owner=m) if k == 'solver' else Solver(owner=m) if case['net'] else m.parser
            bad = [other, None, k, object(), Solver if k == 'solver' else ThermodynamicCorrector, m][v]
            try:
                getattr(m, 'set_' + k)(bad)
            except TypeError:
                pass
            else:
                raise Violation('set_%s accepted %r' % (k, bad))
        elif kind == 'swap':
            if k == 'solver':
                class Own(Solver):
                    pass
            else:
                class Own(ThermodynamicCorrector):
                    pass
            new = Own(owner=m) if v % 2 else Own.__mro__[1](owner=m)
            getattr(m, 'set_' + k)(new)
            want[k] = new
        else:
            check(accepted(lambda: [setattr(m, k, v)]) is None, '%s accepted %r', k, v)
        got = state(m, case)
        for name in want:
            if name in COMPONENTS:
                check(got[name] is want[name], 'after %s %s: %s changed', kind, k, name)
            elif name != 'elementary_rxns_list':
                check(same(got[name], want[name]), 'after %s %s %r: %s is %r, before %r', kind, k, v, name, got[name], want[name])


TESTS = [Test('valid', setups(), valid, 800, 12000),
         Test('invalid', invalid_cases(), invalid, 1200, 20000),
         Test('refused', refused_cases(), refused, 1500, 25000),
         Test('protect', protect_cases(), protect, 600, 10000)]
