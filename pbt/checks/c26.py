"""C26: generated text reads back."""
import copy
import math
import re

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Test, Violation, check

RULE = ("non-trivial: (list, dict) at least two elements, (templates) at least two reactions, (time) at least a minute")
FLOATS = st.one_of(st.floats(allow_nan=False, allow_infinity=False), gen.nice(-1000, 1000))
TEXT = st.one_of(st.sampled_from(['CO_g + *_s -> CO_s', "a'b", 'a"b', '\\', '\n', '', '#', ' ', "'''", '[1, 2]', '%s', '{}', 'é']),
                 st.text(alphabet=st.characters(codec='utf-8', exclude_categories=['Cs']), max_size=8))
SCALAR = st.one_of(st.integers(), FLOATS, TEXT, st.booleans(), st.none())
NESTED = st.recursive(SCALAR, lambda s: st.one_of(st.lists(s, max_size=4), st.lists(s, max_size=4).map(tuple),
                                                  st.dictionaries(st.sampled_from(['a', 'b', "c'"]), s, max_size=2)), max_leaves=8)


def execute(text, name):
    scope = {}
    try:
        exec(text, scope)
    except Exception as e:
        raise Violation('generated text does not run (%s: %s): %r' % (type(e).__name__, e, text))
    scope.pop('__builtins__')
    check(list(scope) == [name], 'text defines %r', sorted(scope))
    return scope[name]


@st.composite
def lists(draw):
    kind = draw(st.integers(0, 4))
    elements = [NESTED, SCALAR, FLOATS, TEXT, st.lists(FLOATS, max_size=4)][kind]
    return dict(data=draw(st.lists(elements, max_size=14)), container=draw(st.sampled_from(['list', 'list', 'tuple', 'zip', 'generator'])),
                ncols=draw(st.one_of(st.none(), st.integers(1, 12))), name=draw(st.sampled_from(['a', 'times_0', 'Processes', '_x1'])))


def t_list(case, ctx):
    from scaks.utilities.format_utilities import get_list_string
    data = copy.deepcopy(case['data'])
    if case['container'] == 'tuple':
        arg = tuple(data)
    elif case['container'] == 'generator':
        arg = (x for x in data)
    elif case['container'] == 'zip':
        arg = zip(data, range(len(data)))
        data = list(zip(data, range(len(data))))
    else:
        arg = data
    ctx.nontrivial(len(data) >= 2)
    ctx.label(case['container'])
    text = get_list_string(case['name'], arg) if case['ncols'] is None else get_list_string(case['name'], arg, ncols=case['ncols'])
    got = execute(text, case['name'])
    check(type(got) is list and repr(got) == repr(data), '%r reads back as %r', data, got)
    check(text.endswith('\n'), 'text does not end its line: %r', text)
    if case['container'] in ('list', 'tuple'):
        check(repr(case['data']) == repr(list(arg)), 'the data were modified')


@st.composite
def dicts(draw):
    key = draw(st.sampled_from([TEXT, st.integers(), st.sampled_from(['CO_g + *_s -> CO_s(->)', 'CO_g + *_s -> CO_s(<-)', "k'", 'k"', 'z', 'Z'])]))
    return dict(data=draw(st.dictionaries(key, draw(st.sampled_from([NESTED, FLOATS, st.integers(), TEXT])), max_size=7)),
                name=draw(st.sampled_from(['a', 'reaction_rates', '_x1'])))


def t_dict(case, ctx):
    from scaks.utilities.format_utilities import get_dict_string
    data = copy.deepcopy(case['data'])
    ctx.nontrivial(len(data) >= 2)
    text = get_dict_string(case['name'], data)
    got = execute(text, case['name'])
    check(type(got) is dict and set(got) == set(data), 'keys %r read back as %r', sorted(data), sorted(got))
    for k in data:
        check(repr(got[k]) == repr(data[k]), '%r: %r reads back as %r', k, data[k], got[k])
    check(text.endswith('\n'), 'text does not end its line: %r', text)
    check(repr(data) == repr(case['data']), 'the data were modified')
    other = dict(reversed(list(data.items())))
    check(get_dict_string(case['name'], other) == text, 'text depends on the order of the keys')


@st.composite
def both(draw):
    """Several variables in one file."""
    return [(draw(st.sampled_from(['list', 'dict'])), draw(st.lists(st.tuples(TEXT, SCALAR), max_size=5, unique_by=lambda x: x[0])))
            for _ in range(draw(st.integers(1, 4)))]


def t_file(case, ctx):
    from scaks.utilities.format_utilities import get_dict_string, get_list_string
    ctx.nontrivial(len(case) > 1)
    text = '# header\n\n'
    want = {}
    for i, (kind, data) in enumerate(case):
        name = 'v%d' % i
        if kind == 'dict':
            want[name] = dict(data)
            text += get_dict_string(name, dict(data))
        else:
            want[name] = [x for _, x in data]
            text += get_list_string(name, [x for _, x in data], 1 + i)
    with open('f.py', 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    scope = {}
    exec(open('f.py', 'rb').read(), scope)
    for k, w in want.items():
        g = scope[k]
        if isinstance(w, dict):
            g, w = sorted(g.items()), sorted(w.items())
        check(repr(g) == repr(w), '%s is %r, expected %r', k, g, w)


TIME = st.one_of(st.integers(0, 10**7), st.floats(0, 1e7), gen.nice(0, 8000, 2), st.integers(0, 400).map(lambda k: k*60),
                 st.integers(1, 200).map(lambda k: math.nextafter(k*60.0, 0)), st.integers(1, 200).map(lambda k: k*3600 - 0.001))


def t_time(case, ctx):
    from scaks.utilities.format_utilities import convert_time
    h, m, s = convert_time(case)
    ctx.nontrivial(case >= 60)
    check(h == int(h) and m == int(m) and h >= 0, 'hours %r and minutes %r of %r', h, m, case)
    check(abs(h*3600 + m*60 + s - case) <= 1e-9*(1 + case), '%r:%r:%r is not %r seconds', h, m, s, case)
    check(0 <= m < 60, 'minutes %r of %r', m, case)
    # rounding of the quotient may move an instant before the full hour to it
    check(-1e-8 <= s < 60, 'seconds %r of %r', s, case)


@st.composite
def networks(draw):
    case = draw(gen.kinetic_cases(multisite=True))
    case['kmc'] = draw(st.booleans())
    case['named'] = draw(st.booleans())
    n = 60
    case['E'] = draw(st.lists(gen.nice(-5, 5), min_size=n, max_size=n))
    return case


def t_relative(case, ctx):
    net = ref.Net(case)
    m = ref.kmc_model(case, parse=False) if case['kmc'] else ref.bare(case)
    ctx.nontrivial(len(net.exprs) > 1)
    name = 'mine.py' if case['named'] else 'rel_energy.py'
    if case['named']:
        m.generate_relative_energies_file(filename=name)
    else:
        m.generate_relative_energies_file()
    text = open(name).read()
    found = []
    for line in text.splitlines():
        if line.startswith('#') and line[1:].strip() in net.exprs:
            found.append(line[1:].strip())
    check(found == net.exprs, 'template lists %r, expected %r', found, net.exprs)
    check(len(re.findall(r'Ga\.append\(\)', text)) == len(net.exprs) and len(re.findall(r'dG\.append\(\)', text)) == len(net.exprs),
          'template has no place for every barrier and energy: %r', text)
    # fill the blanks below the comment of each reaction
    out, current = [], None
    for line in text.splitlines():
        if line.startswith('#') and line[1:].strip() in net.exprs:
            current = net.exprs.index(line[1:].strip())
        line = line.replace('Ga.append()', 'Ga.append(%r)' % (case['Ga'][current or 0],))
        line = line.replace('dG.append()', 'dG.append(%r)' % (case['dG'][current or 0],))
        out.append(line)
    with open(name, 'w') as f:
        f.write('\n'.join(out) + '\n')
    if case['kmc']:
        with open('p.py', 'w') as f:
            f.write('processes = []\n')
        m.parser.parse_data(energy_file=name, processes_file='p.py')
    else:
        m.parser.parse_data(filename=name)
    f, r, d = net.relative()
    E = m.relative_energies
    check(list(E['Gaf']) == f and list(E['Gar']) == r and list(E['dG']) == d, 'filled template parsed as %r, expected %r', E,
          dict(Gaf=f, Gar=r, dG=d))


def t_absolute(case, ctx):
    net = ref.Net(case)
    m = ref.bare(case, parser='AbsoluteEnergyParser')
    ctx.nontrivial(len(net.exprs) > 1)
    name = 'mine.py' if case['named'] else 'abs_energy.py'
    if case['named']:
        m.generate_absolute_energies_file(filename=name)
    else:
        m.generate_absolute_energies_file()
    text = open(name).read()
    everything = net.gas + net.liq + net.ads + net.ts + net.sites
    names = re.findall(r"^\s*['\"](.+?)['\"]\s*:\s*0\.0", text, re.M)
    check(sorted(names) == sorted(everything), 'template lists %r, expected %r', sorted(names), sorted(everything))
    E = dict(zip(sorted(everything), case['E']))

    def fill(match):
        return '%s%r' % (match.group(1), E[match.group(2)])
    text = re.sub(r"(['\"](.+?)['\"]\s*:\s*)0\.0", fill, text)
    with open(name, 'w') as f:
        f.write(text)
    m.parser.parse_data(filename=name)
    check(dict(m.absolute_energies) == E, 'filled template parsed as %r, expected %r', m.absolute_energies, E)
    check(len(m.relative_energies['dG']) == len(net.exprs), 'no relative energies')


TESTS = [Test('list', lists(), t_list, 3000, 60000), Test('dict', dicts(), t_dict, 2000, 40000),
         Test('file', both(), t_file, 800, 10000), Test('time', TIME, t_time, 3000, 60000),
         Test('relative', networks(), t_relative, 700, 10000), Test('absolute', networks(), t_absolute, 700, 10000)]
