"""Generators of reaction networks.

A state is a list of (coef, name, nsite, site); an empty site has the name '*'.
A reaction is [lhs, ts or None, rhs].  Reactions are balanced by construction:
every template only regroups atoms and adds the empty sites that are missing.
"""
from collections import Counter

from hypothesis import strategies as st

ELEMENTS = ['H', 'C', 'N', 'O', 'F', 'S', 'Cl', 'Ne']
SITES = ['s', 't', 'b', 'top', 'fcc', 'edge', 'hol', 'gl', 'sB', 'G']


# ---------------------------------------------------------------- rendering
def name_of(comp):
    """Name of a composition: tuple of (element, number)."""
    return ''.join(e + (str(n) if n != 1 else '') for e, n in comp)


def species_str(sp):
    coef, name, nsite, site = sp
    return '%s_%s%s' % (name, nsite if nsite != 1 else '', site)


def formula_str(sp):
    return (str(sp[0]) if sp[0] != 1 else '') + species_str(sp)


def state_str(state):
    return ' + '.join(formula_str(sp) for sp in state)


def rxn_str(rxn):
    lhs, ts, rhs = rxn
    if ts is None:
        return state_str(lhs) + ' -> ' + state_str(rhs)
    return state_str(lhs) + ' <-> ' + state_str(ts) + ' -> ' + state_str(rhs)


def comp_of(comp):
    c = Counter()
    for e, n in comp:
        c[e] += n
    return c


def join(*comps):
    """Composition of everything together in canonical order."""
    c = Counter()
    for comp in comps:
        c.update(comp_of(comp))
    return tuple(sorted(c.items()))


# ---------------------------------------------------------------- species
@st.composite
def compositions(draw, elements, max_atoms=3):
    n = draw(st.integers(1, max_atoms))
    c = Counter(draw(st.lists(st.sampled_from(elements), min_size=n, max_size=n)))
    items = sorted(c.items())
    if len(items) > 1 and draw(st.integers(0, 4)) == 0:
        items = list(draw(st.permutations(items)))      # an isomer
    return tuple(items)


def merge(state):
    out = []
    for coef, name, nsite, site in state:
        for o in out:
            if o[1:] == [name, nsite, site]:
                o[0] += coef
                break
        else:
            out.append([coef, name, nsite, site])
    return [tuple(o) for o in out]


def site_count(state):
    c = Counter()
    for coef, name, nsite, site in state:
        if site not in ('g', 'l'):
            c[site] += coef * nsite
    return c


def balance(lhs, rhs):
    """Add the empty sites that are missing."""
    lhs, rhs = list(lhs), list(rhs)
    a, b = site_count(lhs), site_count(rhs)
    for s in sorted(set(a) | set(b)):
        d = a[s] - b[s]
        if d > 0:
            rhs.append((d, '*', 1, s))
        elif d < 0:
            lhs.append((-d, '*', 1, s))
    return lhs, rhs


def ts_state(lhs, comps, tag=''):
    """Transition state with the atoms and sites of lhs, joined by '-'."""
    sites = site_count(lhs)
    if not sites:
        return None
    main = sorted(sites)[0]
    name = '-'.join(name_of(c) for c in comps)
    state = [(1, name + tag, sites[main], main)]
    for s in sorted(sites)[1:]:
        state.append((sites[s], '*', 1, s))
    return state


@st.composite
def reaction(draw, elements, sites, comps, liquids=True, max_mult=2, kinds=None,
             multisite=False, expand=True, ts=True):
    """One balanced elementary reaction."""
    kind = draw(st.sampled_from(kinds or [
        'ads', 'ads', 'diss', 'assoc', 'assoc', 'assocgas', 'diff', 'er', 'erads',
        'des', 'liq', 'promoted', 'isomer', 'auto', 'general']))
    X = draw(st.sampled_from(comps))
    Y = draw(st.sampled_from(comps))
    s = draw(st.sampled_from(sites))
    t = draw(st.sampled_from(sites))

    def A(c, site, n=1):
        k = 1
        if multisite and draw(st.integers(0, 2)) == 0:
            k = 2
        return (n, name_of(c), k, site)

    def G(c, n=1):
        return (n, name_of(c), 1, 'l' if liquids and draw(st.integers(0, 7)) == 0 else 'g')
    parts = [X, Y]
    if kind == 'ads':
        lhs, rhs, parts = [G(X)], [A(X, s)], [X]
    elif kind == 'des':
        lhs, rhs, parts = [A(X, s)], [G(X)], [X]
    elif kind == 'diss':
        lhs, rhs = [G(join(X, Y))], [A(X, s), A(Y, t)]
    elif kind == 'assoc':
        u = s if draw(st.integers(0, 2)) else draw(st.sampled_from(sites))
        lhs, rhs = [A(X, s), A(Y, t)], [A(join(X, Y), u)]
    elif kind == 'assocgas':
        lhs, rhs = [A(X, s), A(Y, t)], [G(join(X, Y))]
    elif kind == 'diff':
        lhs, rhs, parts = [A(X, s)], [A(X, t)], [X]
    elif kind == 'er':
        lhs, rhs = [G(X), A(Y, s)], [G(join(X, Y))]
    elif kind == 'erads':
        lhs, rhs = [G(X), A(Y, s)], [A(join(X, Y), s)]
    elif kind == 'liq':
        ph = 'l' if liquids else 'g'
        lhs, rhs = [(1, name_of(X), 1, ph), A(Y, s)], [A(join(X, Y), s)]
        if draw(st.booleans()):
            lhs, rhs, parts = [(1, name_of(X), 1, ph)], [A(X, s)], [X]
    elif kind == 'promoted':
        # a spectator adsorbate or gas on both sides
        lhs, rhs = [G(X), A(Y, t)], [A(X, s), A(Y, t)]
        if draw(st.booleans()):
            g = G(Y)
            lhs, rhs = [G(X), g], [A(X, s), g]
    elif kind == 'isomer':
        lhs, rhs, parts = [A(X, s)], [A(tuple(reversed(X)), t)], [X]
    elif kind == 'auto':
        # the same adsorbate on both sides with different numbers
        lhs, rhs, parts = [A(X, s), G(X)], [A(X, s, 2)], [X, X]
    else:
        # regroup the atoms of random species
        left = draw(st.lists(st.sampled_from(comps), min_size=1, max_size=3))
        atoms = [e for c in left for e, n in c for _ in range(n)][:8]
        left = [tuple(sorted(Counter(atoms).items()))] if sum(n for c in left for e, n in c) > 8 else left
        k = draw(st.integers(1, min(3, len(atoms))))
        groups = [[] for _ in range(k)]
        for i, a in enumerate(atoms):
            groups[i if i < k else draw(st.integers(0, k-1))].append(a)
        right = [tuple(sorted(Counter(g).items())) for g in groups]
        lhs = [G(c) if draw(st.integers(0, 2)) == 0 else A(c, s) for c in left]
        rhs = [G(c) if draw(st.integers(0, 2)) == 0 else A(c, t) for c in right]
        if not any(sp[3] not in ('g', 'l') for sp in lhs + rhs):
            lhs[0] = A(left[0], s)
        parts = left
    lhs, rhs = merge(lhs), merge(rhs)
    mult = draw(st.sampled_from([1, 1, 1, 1, 2, 3][:4 + max_mult - 1])) if max_mult > 1 else 1
    if mult > 1:
        lhs = [(sp[0]*mult,) + sp[1:] for sp in lhs]
        rhs = [(sp[0]*mult,) + sp[1:] for sp in rhs]
        parts = list(parts)*mult
    lhs, rhs = balance(lhs, rhs)
    if draw(st.integers(0, 3)) == 0:
        lhs, rhs = rhs, lhs
    state = None
    if ts and draw(st.integers(0, 2)) == 0:
        if len(parts) == 1:
            # a single species: split its first atom off or mark the bond to the surface
            state = ts_state(lhs, parts, '-')
        else:
            state = ts_state(lhs, parts)
    if expand:
        lhs, rhs = draw(_written(lhs)), draw(_written(rhs))
    return [lhs, state, rhs]


@st.composite
def _written(draw, state):
    """Order of species, and 2A sometimes written A + A."""
    out = []
    for sp in state:
        if sp[0] == 2 and draw(st.integers(0, 5)) == 0:
            out += [(1,) + tuple(sp[1:]), (1,) + tuple(sp[1:])]
        else:
            out.append(tuple(sp))
    if len(out) > 1 and draw(st.integers(0, 2)) == 0:
        out = [tuple(x) for x in draw(st.permutations(out))]
    return out


def trivial(rxn):
    """Nothing happens in the reaction."""
    return sorted(merge(rxn[0])) == sorted(merge(rxn[2]))


@st.composite
def networks(draw, min_rxns=1, max_rxns=5, liquids=True, multisite=False, max_mult=2,
             kinds=None, expand=True, max_sites=2, ts=True, elements=None, max_coef=None, many=None):
    elements = elements or draw(st.lists(st.sampled_from(ELEMENTS), min_size=1, max_size=3,
                                         unique=True))
    if max_sites >= 2 and draw(st.integers(0, 7)) == 0:
        sites = draw(st.lists(st.sampled_from(SITES), min_size=3, max_size=3, unique=True))
    else:
        sites = draw(st.lists(st.sampled_from(SITES), min_size=1, max_size=max_sites, unique=True))
    many = max_rxns >= 4 if many is None else many
    many = many and draw(st.integers(0, 39)) == 39
    if many and len(elements) > 1 and draw(st.booleans()):
        comps = draw(st.lists(compositions(elements), min_size=7, max_size=9, unique=True))     # ten and more species
    else:
        comps = draw(st.lists(compositions(elements), min_size=3 if many else 1, max_size=5 if many else 3, unique=True))
    # sometimes the numbers of the reactions have two digits
    n = draw(st.integers(12, 16)) if many else draw(st.integers(min_rxns, max_rxns))
    rxns, seen = [], set()
    for _ in range(n):
        r = draw(reaction(elements, sites, comps, liquids, max_mult, kinds, multisite, expand, ts))
        e = rxn_str(r)
        if e in seen or trivial(r):
            continue
        if max_coef and max(sp[0] for x in (r[0], r[2]) for sp in merge(x)) > max_coef:
            continue
        seen.add(e)
        rxns.append(r)
    if not rxns:
        c = comps[0]
        rxns = [[[(1, name_of(c), 1, 'g'), (1, '*', 1, sites[0])], None,
                 [(1, name_of(c), 1, sites[0])]]]
    return rxns


# ---------------------------------------------------------------- full cases
def nice(lo, hi, digits=3):
    """Floats that print short and shrink well, one in three with six more digits."""
    q = 10**digits
    short = st.integers(int(lo*q), int(hi*q)).map(lambda i: i/q)
    r = q*10**6
    return st.one_of(short, short, st.integers(int(lo*r), int(hi*r)).map(lambda i: i/r))


@st.composite
def energies(draw, n, physical=True, zero=True):
    """(Ga, dG): forward barriers and reaction energies."""
    Ga, dG = [], []
    for _ in range(n):
        kind = draw(st.integers(0, 19))
        if kind == 19:
            d = draw(nice(-3.2, 3.2))
        elif kind == 18:
            d = draw(st.sampled_from([0, 1, -1, 2, -2, 0.0, 1e-10, -0.5]))
        else:
            d = draw(nice(-1.5, 1.5))
        if zero and draw(st.integers(0, 4)) == 0:
            a = 0.0
        else:
            a = round(max(d, 0.0) + draw(nice(0, 1.5)), 10)
        Ga.append(a)
        dG.append(d)
    return Ga, dG


@st.composite
def pressures(draw):
    if draw(st.integers(0, 9)) == 0:
        return draw(st.sampled_from([0.0, 1e-8, 10.0, 1.0, 1, 2, 0, 1e-13, 150.0, 2500]))
    return draw(st.one_of(nice(0.001, 1.0), nice(0.001, 20.0, 3)))


@st.composite
def temperatures(draw):
    if draw(st.integers(0, 7)) == 0:
        return draw(st.sampled_from([300, 500, 273.15, 1000, 1000.0, 120.0, 77.35, 1800.0]))
    return draw(nice(250, 1200, 1))


@st.composite
def conditions(draw, rxns, zero=True):
    """species definitions, temperature and energies for the reactions."""
    gas, liq, sites = set(), set(), set()
    for r in rxns:
        for state in r:
            for c, name, k, s in state or []:
                if s == 'g':
                    gas.add(name + '_g')
                elif s == 'l':
                    liq.add(name + '_l')
                else:
                    sites.add('*_' + s)
    P = pressures() if zero else nice(0.001, 2.0)
    gas = sorted(gas)
    if len(gas) > 1 and draw(st.booleans()):
        gas = draw(st.permutations(gas))
    return dict(rxns=rxns,
                gas={g: draw(P) for g in gas},
                liq={l: draw(P) for l in sorted(liq)},
                sites={s: draw(st.sampled_from([1.0, 1.0, 0.5, 0.3, 0.75, 0.2, 1/3., 0.0625])) for s in sorted(sites)},
                T=draw(temperatures()))


@st.composite
def kinetic_cases(draw, zero=True, **kw):
    kw.setdefault('max_coef', 9)
    rxns = draw(networks(**kw))
    case = draw(conditions(rxns, zero=zero))
    case['Ga'], case['dG'] = draw(energies(len(rxns)))
    return case


def adsorbates(case):
    """dict site -> sorted adsorbates."""
    ads = {}
    for r in case['rxns']:
        for state in (r[0], r[2]):
            for c, name, k, s in state:
                if s not in ('g', 'l') and name != '*':
                    ads.setdefault('*_' + s, set()).add('%s_%s%s' % (name, k if k != 1 else '', s))
    return {s: sorted(a) for s, a in sorted(ads.items())}


@st.composite
def coverages(draw, case):
    """Physical coverages for every adsorbate: dict name -> value."""
    out = {}
    for site, names in adsorbates(case).items():
        w = [draw(st.one_of(st.just(0), st.integers(0, 100), st.integers(0, 100))) for _ in names]
        free = draw(st.one_of(st.just(0), st.integers(0, 100), st.integers(0, 100)))
        tot = sum(w) + free
        for nme, x in zip(names, w):
            out[nme] = case['sites'][site]*x/tot if tot else 0.0
    return out


@st.composite
def exact_coverages(draw, case, full=None):
    """Coverages in 64ths of the site total, so that sums are exact."""
    out = {}
    for site, names in adsorbates(case).items():
        left = 64
        if not (draw(st.booleans()) if full is None else full):
            left = draw(st.integers(0, 64))
        order = draw(st.permutations(names))
        for nme in order[:-1]:
            w = draw(st.sampled_from([0, 0, left, left//2, 1])) if draw(st.booleans()) else draw(st.integers(0, left))
            w = min(w, left)
            out[nme] = case['sites'][site]*w/64
            left -= w
        out[order[-1]] = case['sites'][site]*left/64
    return out


@st.composite
def with_coverages(draw, cases, exact=False, alt=False):
    case = draw(cases)
    if exact:
        case = dict(case, sites={s: draw(st.sampled_from([1.0, 0.5, 0.25, 0.75])) for s in case['sites']})
        case['cvgs'] = draw(exact_coverages(case))
    else:
        case['cvgs'] = draw(coverages(case))
    if alt:
        case['alt'] = draw(st.one_of(st.none(), energies(len(case['rxns']))))
    return case
