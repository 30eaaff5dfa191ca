"""C25: input validators."""
import copy

from hypothesis import strategies as st

from pbt.core import Test, Violation, check

RULE = "non-trivial: the input is not empty (valid), or differs from a valid one by a single edit (invalid)"


def verdict(fn, *args):
    """None if accepted unchanged, the error otherwise; anything but SetupError is passed on."""
    from scaks.errors.error import SetupError
    before = repr(args)
    try:
        out = fn(*args)
    except SetupError as e:
        check(repr(args) == before, 'a refused input was modified')
        return str(e) or 'error'
    check(repr(args) == before, 'the input was modified: %s -> %r', before, args)
    check(out is args[0] or repr(out) == repr(args[0]), 'returned %r for %r', out, args[0])
    return None


def expect(ok, fn, *args):
    got = verdict(fn, *args)
    if ok:
        check(got is None, '%s refuses %r: %s', fn.__name__, args, got)
    else:
        check(got is not None, '%s accepts %r', fn.__name__, args)


# ------------------------------------------------------------------ processes
NUM = st.sampled_from([-1.0, -0.5, 0.0, 1e-5, 1/3., 0.25, 0.5, 1.0, 2.0])


@st.composite
def process(draw, npts=None):
    npts = npts or draw(st.integers(1, 5))
    pts = st.lists(st.tuples(NUM, NUM, NUM), min_size=npts, max_size=npts, unique=True)
    groups = [[list(p) for p in draw(pts)] for _ in range(draw(st.integers(1, 3)))]
    el = st.lists(st.sampled_from(['V', 'A', 'B_u', '*', '']), min_size=npts, max_size=npts)
    d = dict(reaction=draw(st.sampled_from(['CO_g + *_s -> CO_s', 'A -> B', ''])), coordinates_group=groups,
             elements_before=draw(el), elements_after=draw(el),
             basis_sites=draw(st.lists(st.integers(0, 5), min_size=1, max_size=4)))
    for k in ('coordinates_group', 'elements_before', 'elements_after', 'basis_sites'):
        if draw(st.integers(0, 5)) == 0:
            d[k] = tuple(d[k])
    if draw(st.integers(0, 3)) == 0:
        d['fast'] = draw(st.booleans())
        d['description'] = 'text'
    return d


EDITS = ['key', 'reaction type', 'group type', 'coords type', 'coord type', 'coord entry', 'coord length', 'repeat', 'near', 'apart',
         'before short', 'before long', 'after short', 'after long', 'element type', 'elements type', 'basis type', 'basis entry',
         'group length']


@st.composite
def process_edit(draw):
    return dict(d=draw(process(draw(st.integers(2, 5)))), edit=draw(st.sampled_from(EDITS)), i=draw(st.integers(0, 50)),
                j=draw(st.integers(0, 50)), k=draw(st.integers(0, 2)),
                junk=draw(st.sampled_from([None, 'text', 5, 1.5, {}, (1.0, 2.0, 3.0)])))


def t_process(case, ctx):
    from scaks.utilities.check_utilities import check_process_dict
    ctx.nontrivial()
    expect(True, check_process_dict, copy.deepcopy(case))


def t_process_bad(case, ctx):
    from scaks.utilities.check_utilities import check_process_dict
    d, e, i, j, k, junk = copy.deepcopy(case['d']), case['edit'], case['i'], case['j'], case['k'], case['junk']
    for key in ('coordinates_group', 'elements_before', 'elements_after', 'basis_sites'):
        d[key] = list(d[key])
    ok = False
    groups = d['coordinates_group']
    g = groups[i % len(groups)]
    p = j % len(g)
    other = (p + 1 + i) % len(g)
    if other == p:
        other = (p + 1) % len(g)
    if e == 'key':
        d.pop(['reaction', 'coordinates_group', 'elements_before', 'elements_after', 'basis_sites'][i % 5])
    elif e == 'reaction type':
        d['reaction'] = junk if not isinstance(junk, str) else ['A -> B']
    elif e == 'group type':
        d['coordinates_group'] = junk if junk != (1.0, 2.0, 3.0) else set()
    elif e == 'coords type':
        groups[i % len(groups)] = junk
    elif e == 'coord type':
        g[p] = junk
    elif e == 'coord entry':
        g[p][k] = junk if not isinstance(junk, float) else int(junk)
    elif e == 'coord length':
        g[p] = g[p][:2] if i % 2 else g[p] + [0.0]
    elif e == 'repeat':
        g[p] = list(g[other])
    elif e == 'near':
        g[p] = list(g[other])
        g[p][k] += 2e-7
    elif e == 'apart':
        g[p] = [100.0 + 7*p, 0.0, 0.0]
        g[p] = [x for x in g[other]]
        g[p][k] += 4e-6
        ok = all(any(abs(x - y) > 1e-6 for x, y in zip(g[p], g[q])) for q in range(len(g)) if q != p)
    elif e in ('before short', 'after short'):
        d['elements_' + e.split()[0]].pop()
    elif e in ('before long', 'after long'):
        d['elements_' + e.split()[0]].append('V')
    elif e == 'element type':
        d['elements_after' if i % 2 else 'elements_before'][p] = junk if not isinstance(junk, str) else 3
    elif e == 'elements type':
        key = 'elements_after' if i % 2 else 'elements_before'
        d[key] = [''.join('V' for _ in d[key]), None, dict.fromkeys(d[key])][j % 3]
    elif e == 'basis type':
        d['basis_sites'] = [0, None, '0', 1.5][i % 4]
    elif e == 'basis entry':
        d['basis_sites'][j % len(d['basis_sites'])] = ['0', 0.0, None, [0]][i % 4]
    elif e == 'group length':
        g.append([55.0, 0.0, 0.0])
    ctx.nontrivial()
    ctx.label(e)
    expect(ok, check_process_dict, d)


# ------------------------------------------------------------------ coordinates
@st.composite
def points(draw):
    base = draw(st.lists(st.tuples(NUM, NUM, NUM), min_size=1, max_size=5, unique=True))
    pts = [list(p) for p in base]
    for _ in range(draw(st.integers(0, 2))):
        q = list(draw(st.sampled_from(base)))
        q[draw(st.integers(0, 2))] += draw(st.sampled_from([0.0, 1e-7, -5e-7, 3e-6, -1e-5, 0.1]))
        pts.insert(draw(st.integers(0, len(pts))), q)
    return pts


def t_coordinates(case, ctx):
    from scaks.utilities.check_utilities import check_process_coordinates
    ok = all(any(abs(a - b) > 1e-6 for a, b in zip(case[x], case[y])) for x in range(len(case)) for y in range(x))
    ctx.nontrivial(len(case) > 1)
    ctx.label('distinct' if ok else 'repeated')
    expect(ok, check_process_coordinates, copy.deepcopy(case))


# ------------------------------------------------------------------ intervals
@st.composite
def triple(draw):
    a = draw(st.integers(0, 500))
    span = draw(st.integers(1, 500))
    return [a, a + span, draw(st.one_of(st.integers(1, span), st.just(span)))]


@st.composite
def intervals(draw):
    if draw(st.integers(0, 2)) == 0:
        return dict(value=draw(st.integers(1, 10**6)), edit=draw(st.sampled_from(['none', 'float', 'string', 'None', 'dict'])), pos=0, k=0)
    items = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.booleans()):
            items.append(draw(st.integers(1, 1000)))
        else:
            t = draw(triple())
            items.append(tuple(t) if draw(st.booleans()) else t)
    v = tuple(items) if draw(st.booleans()) else items
    return dict(value=v, edit=draw(st.sampled_from(['none', 'none', 'entry', 'length', 'type', 'reversed', 'coarse', 'text'])),
                pos=draw(st.integers(0, 3)), k=draw(st.integers(0, 2)))


def t_interval(case, ctx):
    from scaks.utilities.check_utilities import check_analysis_interval
    v, e = case['value'], case['edit']
    ctx.nontrivial()
    ctx.label(e)
    if e == 'none':
        return expect(True, check_analysis_interval, v)
    if isinstance(v, int):
        return expect(False, check_analysis_interval, {'float': float(v), 'string': str(v), 'None': None, 'dict': {v: v}}[e])
    v = list(v)
    pos = case['pos'] % len(v)
    if e == 'entry':
        v[pos] = [1.0, '1', None, {}][case['k']]
    else:
        t = list(v[pos]) if not isinstance(v[pos], int) else [0, 10, 2]
        if e == 'length':
            t = t[:case['k']] if case['k'] < 2 else t + [1]
        elif e == 'type':
            t[case['k']] = float(t[case['k']])
        elif e == 'text':
            t[case['k']] = str(t[case['k']])
        elif e == 'reversed':
            t = [t[1] + 1 + case['pos'], t[0], t[2]] if case['k'] else [t[1], t[0], t[2]]
        elif e == 'coarse':
            t[2] = t[1] - t[0] + 1 + case['k']
        v[pos] = tuple(t) if case['k'] == 1 else t
    expect(False, check_analysis_interval, tuple(v) if isinstance(case['value'], tuple) else v)


# ------------------------------------------------------------------ species, energies, sequences, strings
@st.composite
def species(draw):
    d = {}
    for g in draw(st.lists(st.sampled_from(['CO_g', 'O2_g', 'H2O_g', 'C2H4_g']), max_size=3, unique=True)):
        d[g] = {'pressure': draw(st.floats(0, 10))}
        if draw(st.booleans()):
            d[g]['formula'] = g[:-2]
    for x in draw(st.lists(st.sampled_from(['s', '*_s', 'H2O_l', 'CO_s', 'g', 'O-O_2s']), max_size=3, unique=True)):
        d[x] = draw(st.sampled_from([{'type': 'site', 'total': 1.0}, {'concentration': 1.0}, {}]))
    d = dict(draw(st.permutations(list(d.items()))))
    return dict(d=d, edit=draw(st.sampled_from(['none', 'none', 'drop', 'rename', 'add', 'type'])), i=draw(st.integers(0, 5)))


def t_species(case, ctx):
    from scaks.utilities.check_utilities import check_species_definitions
    d, e = copy.deepcopy(case['d']), case['edit']
    gases = [k for k in d if k.endswith('_g')]
    ctx.nontrivial(bool(d))
    if e == 'type':
        ctx.label(e)
        return expect(False, check_species_definitions, [list(d.items()), None, list(d), 'CO_g', 1.0, ()][case['i']])
    if e == 'add':
        d['NO_g'] = {'concentration': 1.0, 'Pressure': 1.0}
    elif e in ('drop', 'rename') and gases:
        x = d[gases[case['i'] % len(gases)]]
        p = x.pop('pressure')
        if e == 'rename':
            x['concentration'] = p
    else:
        e = 'none'
    ctx.label(e)
    expect(e == 'none', check_species_definitions, d)


@st.composite
def references(draw):
    d = draw(st.dictionaries(st.sampled_from(['CO_g', 'H2_g', 's', 'O_s', '']), st.floats(allow_nan=False, allow_infinity=False, width=32), max_size=4))
    return dict(d=d, edit=draw(st.sampled_from(['none', 'none', 'value', 'key', 'type'])), i=draw(st.integers(0, 5)))


def t_references(case, ctx):
    from scaks.utilities.check_utilities import check_ref_energies
    d, e, i = dict(case['d']), case['edit'], case['i']
    ctx.nontrivial(bool(d))
    ctx.label(e)
    if e == 'value':
        d = dict(list(d.items())[:i] + [('X_g', [1, '1.0', None, [1.0], {}, (1.0,)][i])] + list(d.items())[i:])
    elif e == 'key':
        d[[1, 1.5, None, ('CO_g',), b'CO_g', 2][i]] = 0.5
    elif e == 'type':
        d = [list(d.items()), None, list(d), 'CO_g', 1.0, ()][i]
    expect(e == 'none', check_ref_energies, d)


TYPES = {'int': int, 'float': float, 'str': str, 'list': list, 'dict': dict}
VALUES = {'int': [0, 1, -5, 10**20], 'float': [0.0, 1.5, -2e30], 'str': ['', 'a', 'V'], 'list': [[], [1], ['a', 2.0]],
          'dict': [{}, {'a': 1}]}


@st.composite
def sequences(draw):
    kind = draw(st.sampled_from(sorted(TYPES)))
    seq = draw(st.lists(st.sampled_from(VALUES[kind]), max_size=5))
    other = draw(st.sampled_from([k for k in sorted(TYPES) if k != kind]))
    return dict(kind=kind, seq=seq, edit=draw(st.sampled_from(['none', 'entry', 'none', 'container'])),
                bad=draw(st.sampled_from(VALUES[other])), pos=draw(st.integers(0, 5)), tup=draw(st.booleans()), k=draw(st.integers(0, 4)))


def t_sequence(case, ctx):
    from scaks.utilities.check_utilities import check_sequence
    seq, e = copy.deepcopy(case['seq']), case['edit']
    ctx.nontrivial(bool(seq))
    ctx.label(e)
    if e == 'entry':
        seq.insert(case['pos'] % (len(seq) + 1), case['bad'])
    if case['tup']:
        seq = tuple(seq)
    if e == 'container':
        seq = [None, 'text', {'a': 1}, 5, set()][case['k']]
    expect(e == 'none', check_sequence, seq, TYPES[case['kind']])


@st.composite
def strings(draw):
    words = draw(st.lists(st.sampled_from(['V', 'A', 'v', 'VV', '', ' V', 'O_r', 'TST', 'CT']), min_size=1, max_size=5, unique=True))
    return dict(range=words, tup=draw(st.booleans()),
                string=draw(st.one_of(st.sampled_from(words), st.sampled_from(['V', 'A', 'v', 'x', 'VA', '', 'C', None, 5, 1.5]))))


def t_string(case, ctx):
    from scaks.utilities.check_utilities import check_string
    s, r = case['string'], tuple(case['range']) if case['tup'] else case['range']
    ok = isinstance(s, str) and s in r
    ctx.nontrivial()
    ctx.label('in the range' if ok else 'not in the range')
    expect(ok, check_string, s, r)


TESTS = [Test('process', process(), t_process, 1500, 30000),
         Test('process_bad', process_edit(), t_process_bad, 3000, 60000),
         Test('coordinates', points(), t_coordinates, 1500, 30000),
         Test('interval', intervals(), t_interval, 2000, 40000),
         Test('species', species(), t_species, 1200, 20000),
         Test('references', references(), t_references, 1000, 20000),
         Test('sequence', sequences(), t_sequence, 1500, 30000),
         Test('string', strings(), t_string, 800, 10000)]
