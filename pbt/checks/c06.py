"""C06: energies after parsing."""
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks.c02 import atoms
from pbt.core import Test, Violation, check

RULE = ("relative: at least two reactions of which one is barrierless; absolute: at least one "
        "reaction with different end states energies; refusal: always")
TOL = 1e-12


def near(a, b, scale=1.0):
    return abs(a - b) <= TOL*max(1.0, abs(a), abs(b), scale)


value = st.one_of(gen.nice(-3, 3), st.integers(-2, 2), st.floats(-1e3, 1e3).map(lambda x: 0.0 if abs(x) < 1e-6 else x))


@st.composite
def rel_cases(draw):
    rxns = draw(gen.networks(max_rxns=5, multisite=True))
    case = draw(gen.conditions(rxns))
    n = len(rxns)

    def data():
        return dict(Ga=[draw(st.one_of(st.just(0.0), value, st.just(0))) for _ in range(n)],
                    dG=[draw(value) for _ in range(n)])
    case['energies'] = data()
    case['second'] = data() if draw(st.booleans()) else None
    case['by'] = draw(st.sampled_from(['file', 'dict', 'tuple']))
    return case


def write(name, data):
    with open(name, 'w') as f:
        f.write('Ga = %r\ndG = %r\n' % (data['Ga'], data['dG']))


def parse(m, data, by, name='energies_in.py'):
    """Parse and make sure that the supplied data stay as they are."""
    if by == 'file':
        write(name, data)
        m.parser.parse_data(filename=name)
        return
    given = dict(data) if by == 'dict' else {k: tuple(v) for k, v in data.items()}
    given = {k: (list(v) if by == 'dict' else v) for k, v in given.items()}
    before = repr(given)
    m.parser.parse_data(filename='no_such_file', energy_data=given)
    check(repr(given) == before, 'supplied energies changed from %s to %r', before, given)


def expect(data):
    f = [d if a == 0 and d > 0 else a for a, d in zip(data['Ga'], data['dG'])]
    return f, data['dG']


def check_rel(m, data, n, given=''):
    f, d = expect(data)
    rel = m.relative_energies
    check(set(rel) >= {'Gaf', 'Gar', 'dG'}, 'keys %r', sorted(rel))
    for k in ('Gaf', 'Gar', 'dG'):
        check(len(rel[k]) == n, '%s has %d entries for %d reactions', k, len(rel[k]), n)
    for i in range(n):
        check(near(rel['Gaf'][i], f[i]), 'forward barrier %d is %r, expected %r%s', i, rel['Gaf'][i], f[i], given)
        check(near(rel['dG'][i], d[i]), 'reaction energy %d is %r, supplied %r%s', i, rel['dG'][i], d[i], given)
        check(near(rel['Gar'][i], f[i] - d[i]), 'reverse barrier %d is %r, expected %r', i, rel['Gar'][i], f[i] - d[i])


def t_relative(case, ctx):
    n = len(case['rxns'])
    ctx.nontrivial(n > 1 and any(not a for a in case['energies']['Ga']))
    ctx.label('by ' + case['by'])
    m = ref.bare(case)
    check(not m.has_relative_energy, 'energies before parsing')
    parse(m, case['energies'], case['by'])
    check(m.has_relative_energy, 'no energies after parsing')
    check(not m.has_absolute_energy, 'absolute energies after parsing relative ones')
    check(m.solver.has_absolute_energy is m.has_absolute_energy, 'the solver sees absolute energies')
    check_rel(m, case['energies'], n)
    if case['second']:
        ctx.label('parsed twice')
        parse(m, case['second'], case['by'], 'energies_in2.py')
        check_rel(m, case['second'], n, ' (parsed again)')


# ---------------------------------------------------------------- absolute
@st.composite
def abs_cases(draw):
    rxns = draw(gen.networks(max_rxns=5, multisite=True))
    case = draw(gen.conditions(rxns))
    net = ref.Net(case)
    case['E'] = {k: draw(gen.nice(-5, 5)) for k in net.gas + net.liq + net.ads + net.ts + net.sites}
    # the constants of the gauge transformation
    el = sorted({e for k in case['E'] for e in atoms(k.split('_')[0])})
    case['gauge'] = {e: draw(gen.nice(-3, 3)) for e in el + net.sites}
    return case


def write_abs(name, E):
    with open(name, 'w') as f:
        f.write('absolute_energies = %r\n' % (E,))


def abs_expected(net, E):
    out = []
    for i, r in enumerate(net.rxns):
        def G(state):
            return sum(sp[0]*E['*_' + sp[3] if sp[1] == '*' else gen.species_str(sp)] for sp in state)
        a, b = G(r[0]), G(r[2])
        t = G(r[1]) if r[1] else max(a, b)
        out.append((t - a, t - b, b - a, abs(a) + abs(b) + abs(t)))
    return out


def t_absolute(case, ctx):
    net = ref.Net(case)
    m = ref.bare(case, parser='AbsoluteEnergyParser')
    check(not m.has_absolute_energy, 'energies before parsing')
    E = case['E']
    write_abs('abs_in.py', E)
    m.parser.parse_data(filename='abs_in.py')
    check(m.has_absolute_energy and m.has_relative_energy, 'flags after parsing')
    check(m.absolute_energies == E, 'absolute energies are %r, supplied %r', m.absolute_energies, E)
    check(m.solver.has_absolute_energy and m.solver.absolute_energies == E, 'the solver sees %r', m.solver.absolute_energies)
    want = abs_expected(net, E)
    rel = m.relative_energies
    first = {k: list(rel[k]) for k in ('Gaf', 'Gar', 'dG')}
    for i, (f, r, d, sc) in enumerate(want):
        ctx.nontrivial(abs(d) > 1e-6)
        ctx.label('three states' if net.rxns[i][1] else 'two states')
        check(near(first['dG'][i], d, sc), 'reaction energy of %s is %r, expected %r', net.exprs[i], first['dG'][i], d)
        check(near(first['Gaf'][i], f, sc), 'forward barrier of %s is %r, expected %r', net.exprs[i], first['Gaf'][i], f)
        check(near(first['Gar'][i], r, sc), 'reverse barrier of %s is %r, expected %r', net.exprs[i], first['Gar'][i], r)
        if not net.rxns[i][1]:
            check(first['Gaf'][i] >= max(0, first['dG'][i]) - TOL*(1 + sc), 'barrier of %s below the reaction energy', net.exprs[i])
    # gauge: constants per element and per site
    E2 = {}
    for k, v in E.items():
        name, site = k.split('_')
        g = case['gauge']
        v = v + sum(g[e]*c for e, c in atoms(name).items())
        if site not in ('g', 'l'):
            num = ''.join(c for c in site if c.isdigit())
            v = v + g['*_' + site[len(num):]]*int(num or 1)
        E2[k] = v
    write_abs('abs_in2.py', E2)
    m.parser.parse_data(filename='abs_in2.py')
    for i in range(len(net.rxns)):
        for k in ('Gaf', 'Gar', 'dG'):
            check(near(m.relative_energies[k][i], first[k][i], 200), '%s of %s changes from %r to %r with a constant '
                  'per element and site', k, net.exprs[i], first[k][i], m.relative_energies[k][i])


# ---------------------------------------------------------------- refusal
@st.composite
def bad_cases(draw):
    rxns = draw(gen.networks(max_rxns=4))
    case = draw(gen.conditions(rxns))
    n = len(rxns)
    d = dict(Ga=[draw(value) for _ in range(n)], dG=[draw(value) for _ in range(n)])
    key = draw(st.sampled_from(['Ga', 'dG']))
    kind = draw(st.sampled_from(['missing', 'short', 'long', 'empty', 'nofile']))
    if kind == 'missing':
        del d[key]
    elif kind == 'short':
        d[key] = d[key][:-1]
    elif kind == 'long':
        d[key] = d[key] + [draw(value)]
    elif kind == 'empty':
        d = {}
    case.update(bad=d, kind=kind, by=draw(st.sampled_from(['file', 'dict'])))
    return case


def t_refuse(case, ctx):
    ctx.nontrivial()
    ctx.label(case['kind'])
    m = ref.bare(case)
    kw = dict(filename='no_such_file')
    if case['kind'] != 'nofile':
        if case['by'] == 'file':
            with open('bad.py', 'w') as f:
                for k, v in case['bad'].items():
                    f.write('%s = %r\n' % (k, v))
            kw = dict(filename='bad.py')
        else:
            kw['energy_data'] = case['bad']
    try:
        m.parser.parse_data(**kw)
    except Exception:
        check(not m.has_relative_energy, 'refused energies are in force')
        return
    raise Violation('energies %r of %d reactions accepted' % (case['bad'], len(case['rxns'])))


TESTS = [Test('relative', rel_cases(), t_relative, 2000, 40000),
         Test('absolute', abs_cases(), t_absolute, 2000, 40000),
         Test('refuse', bad_cases(), t_refuse, 800, 8000)]
