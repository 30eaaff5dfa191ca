"""C33: equivalent ways of writing a model."""
import re

import mpmath
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks import c13, c14
from pbt.core import Test, check

RULE = ("non-trivial: the second way of writing differs from the first one in at least two of the order of "
        "reactions, direction, order within a state, names of sites, names of elements, spacing and "
        "definitions (origin: an adsorbate or a site has a shifted energy)")
ASSUMPTIONS = ["the total of a model with reversed reactions is compared species by species only: the sign of a net rate "
               "belongs to the direction in which the reaction is written"]

NEW_SITES = ['s', 't', 'b', 'top', 'fcc', 'hcp', 'bri', 'edge', 'hollow', 'sC', 'L']
TOKEN = re.compile(r'([A-Z][a-z]?)(\d*)')


def renamed(name, elements):
    if name == '*':
        return name
    return TOKEN.sub(lambda m: elements[m.group(1)] + m.group(2), name)


def move(sp, elements, sites):
    c, name, k, site = sp
    return (c, renamed(name, elements), k, sites.get(site, site))


@st.composite
def written(draw, state):
    """The same state: order, and 2A as A + A or the other way round."""
    out = []
    for sp in gen.merge(state):
        if 2 <= sp[0] <= 3 and draw(st.integers(0, 2)) == 0:
            a = draw(st.integers(1, sp[0] - 1))
            out += [(a,) + tuple(sp[1:]), (sp[0] - a,) + tuple(sp[1:])]
        else:
            out.append(tuple(sp))
    return [tuple(x) for x in draw(st.permutations(out))]


@st.composite
def spaced(draw, rxn):
    gaps = ['', ' ', '  ']

    def state(x):
        out = gen.formula_str(x[0])
        for sp in x[1:]:
            out += draw(st.sampled_from(gaps)) + '+' + draw(st.sampled_from(gaps)) + gen.formula_str(sp)
        return out
    lhs, ts, rhs = rxn
    e = state(lhs)
    if ts is not None:
        e += draw(st.sampled_from(gaps)) + '<->' + draw(st.sampled_from(gaps)) + state(ts)
    return e + draw(st.sampled_from(gaps)) + '->' + draw(st.sampled_from(gaps)) + state(rhs)


@st.composite
def rewriting(draw, case, flip=True):
    """Another way of writing the same model."""
    rxns = case['rxns']
    n = len(rxns)
    els = list(gen.ELEMENTS)
    new = draw(st.permutations(els)) if draw(st.booleans()) else els
    elements = dict(zip(els, new))
    old = sorted({s[2:] for s in case['sites']})
    fresh = draw(st.permutations(NEW_SITES)) if draw(st.booleans()) else old
    sites = dict(zip(old, fresh))
    perm = list(draw(st.permutations(range(n)))) if draw(st.booleans()) else list(range(n))
    flips = [flip and draw(st.integers(0, 2)) == 0 for _ in range(n)]
    order = draw(st.booleans())
    out = []
    for i in perm:
        lhs, ts, rhs = rxns[i]
        if flips[i]:
            lhs, rhs = rhs, lhs
        r = []
        for state in (lhs, ts, rhs):
            if state is None:
                r.append(None)
                continue
            x = [move(sp, elements, sites) for sp in state]
            r.append(draw(written(x)) if order else x)
        out.append(r)
    if len({gen.rxn_str(r) for r in out}) < n:
        # two entries would become the same expression
        flips = [False]*n
        out = [[x and [move(sp, elements, sites) for sp in x] for x in rxns[i]] for i in perm]
    w = dict(rxns=out, perm=perm, flips=[flips[i] for i in perm], elements=elements, names=sites)
    w['spaced'] = [draw(spaced(r)) for r in out] if draw(st.booleans()) else None
    # definitions of species that take part in nothing, and the order of the definitions
    w['unused'] = draw(st.lists(st.sampled_from(['Xe2_g', 'KrXe_g', 'Xe_l', '*_z']), max_size=2, unique=True))
    w['shuffle'] = draw(st.integers(0, 5))
    return w


def mapper(w):
    def f(key):
        name, site = key.split('_')
        k = ''
        m = re.match(r'(\d+)(.*)', site)
        if m:
            k, site = m.groups()
        return '%s_%s%s' % (renamed(name, w['elements']), k, w['names'].get(site, site))
    return f


def second(case):
    """The case of the second model, with the energies in its order."""
    w = case['w']
    f = mapper(w)
    c = dict(case, rxns=w['rxns'], T=case['T'])
    for k in ('gas', 'liq', 'sites'):
        c[k] = {f(a): v for a, v in case[k].items()}
    if 'cvgs' in case:
        c['cvgs'] = {f(a): v for a, v in case['cvgs'].items()}
    if 'Ga' in case:
        gf, gr, dg = ref.Net(case).relative()
        c['Ga'] = [gr[i] if fl else gf[i] for i, fl in zip(w['perm'], w['flips'])]
        c['dG'] = [-dg[i] if fl else dg[i] for i, fl in zip(w['perm'], w['flips'])]
    return c


def over(case, c2):
    w = case['w']
    d = ref.setup(c2)
    defs = list(d['species_definitions'].items())
    for u in w['unused']:
        if u[0] == '*':
            defs.append((u, {'site_name': 'zzz', 'type': 'site', 'total': 0.125}))
        else:
            defs.append((u, {'pressure' if u[-1] == 'g' else 'concentration': 3.25}))
    k = w['shuffle'] % len(defs)
    out = dict(species_definitions=dict(defs[k:] + defs[:k]))
    if w['spaced']:
        out['rxn_expressions'] = list(w['spaced'])
    return out


def changes(case):
    w = case['w']
    return sum([w['perm'] != sorted(w['perm']), any(w['flips']), bool(w['spaced']), bool(w['unused']),
                any(a != b for a, b in w['names'].items()), any(a != b for a, b in w['elements'].items()),
                [sorted(map(tuple, s or [])) for r in w['rxns'] for s in r] != [sorted(map(tuple, s or [])) for r in case['rxns'] for s in r]
                or any(w['rxns'][i] != case['rxns'][j] for i, j in enumerate(w['perm']))])


def same(what, a, b, tol):
    a, b = ref.mpf(a), ref.mpf(b)
    check(abs(a - b) <= tol, '%s: %s when written the first way, %s the second way', what, a, b)


def t_rates(case, ctx):
    net = ref.Net(case)
    c2 = second(case)
    net2 = ref.Net(c2)
    w, f = case['w'], mapper(case['w'])
    ctx.nontrivial(changes(case) > 1)
    for k, v in (('order', w['perm'] != sorted(w['perm'])), ('reversed', any(w['flips'])), ('spacing', w['spaced']),
                 ('unused', w['unused']), ('sites', any(a != b for a, b in w['names'].items())),
                 ('elements', any(a != b for a, b in w['elements'].items()))):
        if v:
            ctx.label(k)
    a = ref.model(case)
    got = everything(a, net, case)
    b = ref.model(c2, **over(case, c2))
    new = everything(b, net2, c2)
    for kind, names in (('ads', net.ads), ('gas', net.gas), ('liq', net.liq)):
        check(sorted(f(x) for x in names) == new['names'][kind], '%s: %r and %r', kind, names, new['names'][kind])
        check(got['names'][kind] == names, '%s: %r', kind, got['names'][kind])
    scale = net.rates([ref.mpf(k) for k in got['kf']], [ref.mpf(k) for k in got['kr']],
                      {k: abs(v) for k, v in net.activities(case['cvgs']).items()})
    total = sum(scale[0]) + sum(scale[1])
    for j, (i, fl) in enumerate(zip(w['perm'], w['flips'])):
        e = net.exprs[i]
        for what, p, q in (('rate constant', 'kf', 'kr'), ('rate', 'rf', 'rr')):
            x, y = (new[q][j], new[p][j]) if fl else (new[p][j], new[q][j])
            # barriers are differences of numbers of the size of 1
            same('forward %s of %s' % (what, e), got[p][i], x, abs(ref.mpf(got[p][i]))*1e-11)
            same('reverse %s of %s' % (what, e), got[q][i], y, abs(ref.mpf(got[q][i]))*1e-11)
        same('net rate of ' + e, got['net'][i], -ref.mpf(new['net'][j]) if fl else new['net'][j],
             1e-11*(scale[0][i] + scale[1][i]))
        u, v = ref.mpf(got['rev'][i]) if got['rf'][i] else None, new['rev'][j]
        if u is not None and not fl:
            same('reversibility of ' + e, u, v, abs(u)*1e-11)
    for kind in ('dtheta', 'tof'):
        for k, v in got[kind].items():
            same('%s of %s' % (kind, k), v, new[kind][f(k)], 40e-11*total)
    J, K = got['jac'], new['jac']
    if J is None:
        return
    _, SC = net.jacobian([ref.mpf(k) for k in got['kf']], [ref.mpf(k) for k in got['kr']], net.activities(case['cvgs']))
    pos = [net2.ads.index(f(x)) for x in net.ads]
    for i, x in enumerate(net.ads):
        for j, y in enumerate(net.ads):
            same('d(d%s/dt)/d%s' % (x, y), J[i, j], K[pos[i], pos[j]], 1e-11*SC[i][j])


def everything(m, net, case):
    s = m.solver
    cv = tuple(mpmath.mpf(case['cvgs'][a]) for a in net.ads)
    out = dict(names=dict(ads=list(m.adsorbate_names), gas=list(m.gas_names), liq=list(m.liquid_names)))
    kf, kr = s.get_rate_constants()
    rf, rr = s.get_rates(cv)
    out.update(kf=kf, kr=kr, rf=rf, rr=rr, net=s.get_net_rates(cv), rev=s.get_reversibilities(rf, rr),
               dtheta=dict(zip(m.adsorbate_names, s.steady_state_function(cv))),
               tof=dict(zip(list(m.gas_names) + list(m.liquid_names), s.get_tof(cv))),
               jac=s.analytical_jacobian(cv) if cv else None)
    return out


def t_steady(case, ctx):
    """Steady state and turnover frequencies of solvable networks."""
    net = ref.Net(case)
    c2 = second(case)
    net2 = ref.Net(c2)
    f = mapper(case['w'])
    back = {f(a): a for a in net.ads}
    ctx.label(case['kind'])
    res = []
    for c, n, kw in ((case, net, {}), (c2, net2, over(case, c2))):
        c = dict(c, tol=1e-15, dps=50, more=[], alt=None)
        c['c0'] = [case['start'][a if n is net else back[a]] for a in n.ads]
        m, _, c0 = c14.solve(c, n, **kw)
        try:
            got = m.solver.get_steady_state_cvgs(c0=c0)
        except Exception as e:
            if not c14.no_solution(e):
                raise
            got = None
        if got is None:
            res.append(None)
            continue
        res.append((dict(zip(n.ads, got)), dict(zip(list(m.gas_names) + list(m.liquid_names), m.solver.get_tof(got)))))
    if case['kind'] != 'dissociative':
        check(None not in res, 'no steady state found for first-order steps: %r', res)
    if None in res:
        ctx.label('none')
        return
    ctx.nontrivial(changes(case) > 1)
    for a, v in res[0][0].items():
        same('steady-state coverage of ' + a, v, res[1][0][f(a)], 1e-8)
    kf, kr = net.rate_constants(*net.relative()[:2])
    rf, rr = net.rates(kf, kr, net.activities(res[0][0]))
    total = sum(abs(v) for v in rf + rr)
    for g, v in res[0][1].items():
        same('turnover frequency of ' + g, v, res[1][1][f(g)], 1e-9*total + 1e-8)


# ---------------------------------------------------------------- origin of energies
def atoms_of(name):
    return [(e, int(n or 1)) for e, n in TOKEN.findall(name)] if name != '*' else []


def shifted(case):
    """Absolute energies with another zero for every element and site."""
    mu, ms = case['mu'], case['ms']
    out = {}
    for key, v in case['abs'].items():
        name, site = key.split('_')
        d = sum(n*mu[e] for e, n in atoms_of(name))
        m = re.match(r'(\d*)(.*)', site)
        if m.group(2) not in ('g', 'l'):
            d += int(m.group(1) or 1)*ms['*_' + m.group(2)]
        out[key] = v + d
    return out


def t_origin(case, ctx):
    net = ref.Net(case)
    ctx.nontrivial(any(case['mu'].values()) and any(case['ms'].values()))
    kf = []
    for E in (case['abs'], shifted(case)):
        m = c13.model(dict(case, abs=E)) if net.ads else None
        if m is None:
            return
        s = m.solver
        cv = tuple(mpmath.mpf(case['cvgs'][a]) for a in net.ads)
        k = s.get_rate_constants()
        kf.append((list(k[0]), list(k[1]), s.get_rates(cv), dict(m.relative_energies)))
    for i, e in enumerate(net.exprs):
        for q in ('Gaf', 'Gar', 'dG'):
            same('%s of %s with shifted zero of energies' % (q, e), kf[0][3][q][i], kf[1][3][q][i], 1e-11)
        for what, x in (('forward', 0), ('reverse', 1)):
            same('%s rate constant of %s with shifted zero of energies' % (what, e), kf[0][x][i], kf[1][x][i], 1e-9*abs(ref.mpf(kf[0][x][i])))
            same('%s rate of %s with shifted zero of energies' % (what, e), kf[0][2][x][i], kf[1][2][x][i], 1e-9*abs(ref.mpf(kf[0][2][x][i])))


@st.composite
def rate_cases(draw, **kw):
    case = draw(gen.with_coverages(gen.kinetic_cases(**kw)))
    case['w'] = draw(rewriting(case))
    return case


@st.composite
def steady_cases(draw):
    case = draw(c14.solvable())
    net = ref.Net(case)
    case['start'] = dict(zip(net.ads, case['c0']))
    case['w'] = draw(rewriting(case))
    return case


@st.composite
def origin_cases(draw):
    case = draw(c13.cases(max_rxns=4))
    case['mu'] = {e: draw(gen.nice(-3, 3)) for e in gen.ELEMENTS}
    case['ms'] = {s: draw(gen.nice(-2, 2)) for s in case['sites']}
    return case


TESTS = [Test('rates', rate_cases(), t_rates, 1500, 14000),
         Test('multi', rate_cases(max_mult=3, max_rxns=3, kinds=['diss', 'assocgas', 'auto', 'general', 'promoted', 'liq']),
              t_rates, 750, 7000),
         Test('steady', steady_cases(), t_steady, 750, 6000),
         Test('origin', origin_cases(), t_origin, 600, 6000)]
