"""C34: thermodynamic consistency of rates and steady states."""
import math
from fractions import Fraction

import mpmath
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks import c13, c14
from pbt.checks.c33 import atoms_of
from pbt.core import Test, check

RULE = ("non-trivial: two or more reactions, of which one has a coefficient above 1 or two reactions share an "
        "adsorbate (equilibrium, forces); root finding moved the coverages (settled); the overall reaction has "
        "a driving force (cycle)")
ASSUMPTIONS = ["pressures, concentrations and coverages are above zero, so that an equilibrium exists"]


def kT(case):
    return ref.mpf(ref.KB)*ref.mpf(case['T'])


def balanced(case):
    """Absolute energies for which the given state of the system is the equilibrium."""
    net = ref.Net(case)
    x = net.activities(case['cvgs'])
    t = kT(case)
    mu, ms = case['mu'], case['ms']
    E = {}
    for key in net.gas + net.liq + net.ads + net.sites:
        name, site = key.split('_')
        m = ref.mpf(0)
        for e, n in atoms_of(name):
            m += n*ref.mpf(mu[e])
        if key in net.ads:
            m += ref.mpf(ms[net.site_of[key]])
        elif key in net.sites:
            m += ref.mpf(ms[key])
        # reactions conserve the sum of these potentials
        E[key] = float(m - t*ref._ctx.log(x[key]))
    tops = {}
    for (lhs, ts, rhs) in case['rxns']:
        if ts is None:
            continue
        low = max(sum(sp[0]*E[gen.species_str(sp)] for sp in s) for s in (lhs, rhs))
        rest = sum(sp[0]*E[gen.species_str(sp)] for sp in ts if sp[1] == '*')
        for sp in ts:
            if sp[1] != '*':
                k = gen.species_str(sp)
                tops[k] = max(tops.get(k, -1e9), (low - rest)/sp[0])
    for k, v in tops.items():
        E[k] = v + case['lift']
    return E


def sample(net):
    shared = any(sum(a in l or a in r for l, r in zip(net.lhs, net.rhs)) > 1 for a in net.ads)
    big = any(v > 1 for side in net.lhs + net.rhs for v in side.values())
    return len(net.rxns) > 1 and (shared or big)


def build(case, E, **over):
    m = ref.bare(case, parser='AbsoluteEnergyParser', **over)
    with open('abs_in.py', 'w') as f:
        f.write('absolute_energies = %r\n' % (E,))
    m.parser.parse_data(filename='abs_in.py')
    m.solver.get_data()
    return m


def t_equilibrium(case, ctx):
    net = ref.Net(case)
    if not net.ads:
        return
    ctx.nontrivial(sample(net))
    s = build(case, balanced(case)).solver
    cv = tuple(mpmath.mpf(case['cvgs'][a]) for a in net.ads)
    rf, rr = s.get_rates(cv)
    nets, rev = s.get_net_rates(cv), s.get_reversibilities(rf, rr)
    tol = 1e-9
    for i, e in enumerate(net.exprs):
        big = abs(ref.mpf(rf[i]))
        check(big > 0, '%s: forward rate %s at equilibrium', e, rf[i])
        check(abs(ref.mpf(rf[i]) - ref.mpf(rr[i])) <= tol*big, '%s: rates %s and %s at equilibrium', e, rf[i], rr[i])
        check(abs(ref.mpf(nets[i])) <= tol*big, '%s: net rate %s (forward %s) at equilibrium', e, nets[i], rf[i])
        check(abs(ref.mpf(rev[i]) - 1) <= tol, '%s: reversibility %s at equilibrium', e, rev[i])
    d = s.steady_state_function(cv)
    _, scale = net.dtheta([ref.mpf(v) for v in rf], [ref.mpf(v) for v in rr])
    for a, v, sc in zip(net.ads, d, scale):
        check(abs(ref.mpf(v)) <= tol*sc, 'd%s/dt is %s at equilibrium (turnover %s)', a, v, sc)
    for g, v in zip(net.gas + net.liq, s.get_tof(cv)):
        sc = net.tof(g, [ref.mpf(v) for v in rf], [ref.mpf(v) for v in rr])[1]
        check(abs(ref.mpf(v)) <= tol*sc, 'turnover frequency of %s is %s at equilibrium (turnover %s)', g, v, sc)


def routes(net):
    """Basis of the combinations of reactions that leave every adsorbate and site unchanged."""
    keys = net.ads + net.sites
    A = [[Fraction(net.net[i].get(k, 0)) for i in range(len(net.rxns))] for k in keys]
    n, piv, row = len(net.rxns), [], 0
    for c in range(n):
        p = next((r for r in range(row, len(A)) if A[r][c]), None)
        if p is None:
            continue
        A[row], A[p] = A[p], A[row]
        A[row] = [v/A[row][c] for v in A[row]]
        for r in range(len(A)):
            if r != row and A[r][c]:
                A[r] = [u - A[r][c]*v for u, v in zip(A[r], A[row])]
        piv.append(c)
        row += 1
    out = []
    for c in range(n):
        if c in piv:
            continue
        v = [Fraction(0)]*n
        v[c] = Fraction(1)
        for r, p in enumerate(piv):
            v[p] = -A[r][c]
        q = 1
        for u in v:
            q = q*u.denominator//math.gcd(q, u.denominator)
        out.append([int(u*q) for u in v])
    return out


def t_forces(case, ctx):
    """Any state: ratio of rates, direction of the flow, and the overall routes."""
    net = ref.Net(case)
    if not net.ads:
        return
    ctx.nontrivial(sample(net))
    E = case['abs']
    s = build(case, E).solver
    cv = tuple(mpmath.mpf(case['cvgs'][a]) for a in net.ads)
    x = net.activities(case['cvgs'])
    t = kT(case)
    rf, rr = s.get_rates(cv)
    nets, rev = s.get_net_rates(cv), s.get_reversibilities(rf, rr)
    log = ref._ctx.log
    force = []
    for i, e in enumerate(net.exprs):
        dG = sum(n*ref.mpf(E[k]) for k, n in net.net[i].items())
        want = dG + t*sum(n*log(x[k]) for k, n in net.net[i].items() if n)
        force.append(want)
        got = t*log(ref.mpf(rr[i])/ref.mpf(rf[i]))
        check(abs(got - want) <= 1e-10*(1 + abs(want)), '%s: reverse over forward rate is %s, free energy of the step %s eV', e, rr[i]/rf[i], want)
        if abs(want) > 1e-9:
            check((ref.mpf(nets[i]) > 0) == (want < 0), '%s: net rate %s for a free energy of %s eV', e, nets[i], want)
            check((ref.mpf(rev[i]) < 1) == (want < 0), '%s: reversibility %s for a free energy of %s eV', e, rev[i], want)
    loops = routes(net)
    if loops:
        ctx.label('route')
    for sigma in loops:
        outer = {}
        for n, net_i in zip(sigma, net.net):
            for k, v in net_i.items():
                outer[k] = outer.get(k, 0) + n*v
        overall = ref.mpf(0)
        for k, v in outer.items():
            if v:
                check(k in net.gas + net.liq, 'route %r changes %s', sigma, k)
                overall += v*(ref.mpf(E[k]) + t*log(x[k]))
        got = t*sum(n*log(ref.mpf(b)/ref.mpf(a)) for n, a, b in zip(sigma, rf, rr))
        size = sum(abs(n) for n in sigma)*10
        check(abs(got - overall) <= 1e-10*size*(1 + abs(overall)), 'route %r of %r: rates give %s eV, gases and liquids %s eV',
              sigma, net.exprs, got, overall)


def t_settled(case, ctx):
    """The solver finds the equilibrium when the gases are in equilibrium with each other."""
    net = ref.Net(case)
    m = build(case, balanced(case), rootfinding='MDNewton', decimal_precision=50, tolerance=1e-15,
              max_rootfinding_iterations=200)
    m.hybrid_method_register(c14.hybrid(case['more']))
    c0 = [mpmath.mpf(v) for v in case['c0']]
    try:
        got = m.solver.get_steady_state_cvgs(c0=c0)
    except Exception as e:
        if not c14.no_solution(e):
            raise
        got = None
    if got is None:
        ctx.label('none')
        return
    ctx.nontrivial(any(abs(ref.mpf(a) - ref.mpf(b)) > 1e-12 for a, b in zip(got, case['c0'])))
    for a, v in zip(net.ads, got):
        check(abs(ref.mpf(v) - ref.mpf(case['cvgs'][a])) <= 1e-7, 'coverage of %s is %s, at equilibrium %s', a, v, case['cvgs'][a])
    rf, rr = m.solver.get_rates(got)
    for g, v in zip(net.gas + net.liq, m.solver.get_tof(got)):
        sc = net.tof(g, [ref.mpf(v) for v in rf], [ref.mpf(v) for v in rr])[1]
        check(abs(ref.mpf(v)) <= 1e-6*sc + 1e-7, 'turnover frequency of %s is %s at equilibrium (turnover %s)', g, v, sc)


def t_cycle(case, ctx):
    """One catalytic cycle at steady state: every step runs in the direction of the overall force."""
    net = ref.Net(case)
    E = case['abs']
    m = build(case, E, rootfinding='MDNewton', decimal_precision=50, tolerance=1e-15, max_rootfinding_iterations=200)
    m.hybrid_method_register(c14.hybrid([]))
    got = m.solver.get_steady_state_cvgs(c0=[mpmath.mpf(v) for v in case['c0']])
    check(got is not None, 'no steady state found for first-order steps')
    t = kT(case)
    force = ref.mpf(0)
    for i, sign in enumerate(case['signs']):
        for k, n in net.net[i].items():
            if k in case['gas']:
                force += sign*n*(ref.mpf(E[k]) + t*ref._ctx.log(ref.mpf(case['gas'][k])))
            elif k in case['liq']:
                force += sign*n*(ref.mpf(E[k]) + t*ref._ctx.log(ref.mpf(case['liq'][k])))
    rf, rr = m.solver.get_rates(got)
    nets = m.solver.get_net_rates(got)
    if abs(force) < 1e-6:
        return
    ctx.nontrivial()
    flow = [sign*ref.mpf(v) for sign, v in zip(case['signs'], nets)]
    noise = 1e-13
    for i, v in enumerate(flow):
        check(abs(v - flow[0]) <= noise + 1e-9*abs(flow[0]), 'steps of one cycle run at %s and %s', nets[0], nets[i])
        if abs(v) > 100*noise:
            check((v > 0) == (force < 0), '%s runs at %s (along the cycle) for an overall free energy of %s eV', net.exprs[i], v, force)
    prod = ref.mpf(0)
    for sign, a, b in zip(case['signs'], rf, rr):
        prod += sign*t*ref._ctx.log(ref.mpf(b)/ref.mpf(a))
    check(abs(prod - force) <= 1e-9*(1 + abs(force)), 'rates of the cycle give %s eV, gases and liquids %s eV', prod, force)


# ---------------------------------------------------------------- generators
def positive(draw, case):
    """Coverages of every adsorbate and of the free sites above zero."""
    out = {}
    for site, names in gen.adsorbates(case).items():
        w = [draw(st.integers(1, 1000)) for _ in names]
        free = draw(st.one_of(st.integers(1, 1000), st.sampled_from([1, 10**6])))
        tot = sum(w) + free
        for n, v in zip(names, w):
            out[n] = case['sites'][site]*v/tot
    return out


def potentials(draw, case):
    case['mu'] = {e: draw(gen.nice(-2, 2)) for e in gen.ELEMENTS}
    case['ms'] = {s: draw(gen.nice(-1, 1)) for s in case['sites']}
    case['lift'] = draw(gen.nice(0, 1.2))
    return case


@st.composite
def equilibrium_cases(draw, **kw):
    rxns = draw(gen.networks(max_coef=9, **kw))
    case = draw(gen.conditions(rxns, zero=False))
    case['cvgs'] = positive(draw, case)
    return potentials(draw, case)


@st.composite
def force_cases(draw, **kw):
    rxns = draw(gen.networks(max_coef=9, **kw))
    case = draw(gen.conditions(rxns, zero=False))
    case['cvgs'] = positive(draw, case)
    net = ref.Net(case)
    E = {n: draw(gen.nice(-1.5, 1.5)) for n in net.gas + net.liq + net.ads + net.sites}
    for t in net.ts:
        E[t] = draw(gen.nice(-0.5, 2.5))
    case['abs'] = E
    return case


@st.composite
def settled_cases(draw):
    """Every adsorbate has an adsorption step of its own; some more steps."""
    rxns = draw(gen.networks(max_rxns=2, max_coef=4, max_mult=1, liquids=False))
    case = dict(rxns=rxns)
    site_ads = {}
    for r in rxns:
        for state in (r[0], r[2]):
            for c, name, k, s in state:
                if s not in ('g', 'l') and name != '*':
                    site_ads.setdefault((name, s), None)
    seen = {gen.rxn_str(r) for r in rxns}
    for name, s in sorted(site_ads):
        r = [[(1, name, 1, 'g'), (1, '*', 1, s)], None, [(1, name, 1, s)]]
        if draw(st.booleans()):
            r = r[::-1]
        if gen.rxn_str(r) not in seen:
            rxns.append(r)
    case = draw(gen.conditions(rxns, zero=False))
    case['T'] = draw(gen.nice(400, 1000, 1))
    case['cvgs'] = positive(draw, case)
    case = potentials(draw, case)
    case['lift'] = draw(gen.nice(0, 0.6))
    case['mu'] = {e: draw(gen.nice(-0.3, 0.3)) for e in gen.ELEMENTS}
    case['ms'] = {s: draw(gen.nice(-0.2, 0.2)) for s in case['sites']}
    net = ref.Net(case)
    names = net.ads

    def guess():
        f = draw(st.sampled_from([0.01, 0.1, 0.3, 0.9]))
        return [case['cvgs'][a]*(1 + f*draw(gen.nice(-1, 1))) for a in names]
    case['c0'] = guess()
    case['more'] = [guess() for _ in range(2)] + [[0.0]*len(names)]
    return case


@st.composite
def cycles(draw):
    """A_g + * -> A_s -> ... -> Z_s -> Z_g + *, steps written either way."""
    iso = draw(st.permutations(['HNO', 'HON', 'NHO', 'NOH', 'OHN']))[:draw(st.integers(1, 4))]
    ph1, ph2 = draw(st.sampled_from(['gg', 'gl', 'lg', 'gg']))
    steps = [[[(1, iso[0], 1, ph1), (1, '*', 1, 's')], None, [(1, iso[0], 1, 's')]]]
    for a, b in zip(iso, iso[1:]):
        steps.append([[(1, a, 1, 's')], None, [(1, b, 1, 's')]])
    end = iso[-1] if len(iso) > 1 or ph2 != ph1 else 'ONH'
    steps.append([[(1, iso[-1], 1, 's')], None, [(1, end, 1, ph2), (1, '*', 1, 's')]])
    signs, rxns = [], []
    for r in draw(st.permutations(steps)):
        if draw(st.integers(0, 2)) == 0:
            rxns.append(r[::-1])
            signs.append(-1)
        else:
            rxns.append(r)
            signs.append(1)
    case = draw(gen.conditions(rxns, zero=False))
    case['T'] = draw(gen.nice(400, 1000, 1))
    case['signs'] = signs
    net = ref.Net(case)
    case['abs'] = {k: draw(gen.nice(-0.3, 0.3)) for k in net.gas + net.liq + net.ads + net.sites}
    case['c0'] = [draw(gen.nice(0, 0.2)) for _ in net.ads]
    return case


TESTS = [Test('equilibrium', equilibrium_cases(), t_equilibrium, 1400, 9000),
         Test('multi', equilibrium_cases(max_mult=3, max_rxns=3, kinds=['diss', 'assocgas', 'auto', 'general', 'promoted', 'liq']),
              t_equilibrium, 600, 5000),
         Test('forces', force_cases(max_rxns=6), t_forces, 1600, 9000),
         Test('settled', settled_cases(), t_settled, 1000, 5000),
         Test('cycle', cycles(), t_cycle, 800, 5000)]
