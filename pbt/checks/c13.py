"""C13: symbolic against numeric route (and both against the reference)."""
import copy

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks.c10 import coverage_tuple
from pbt.core import Test, check

RULE = ("non-trivial: at least two reactions and an adsorbate that occurs in two of them, or a "
        "coefficient above 1")
FID = 'sym-dtheta-stoichiometry'
REL = 1e-9


@st.composite
def cases(draw, **kw):
    case = draw(gen.with_coverages(gen.kinetic_cases(**kw)))
    net = ref.Net(case)
    names = net.gas + net.liq + net.ads + net.sites
    E = {n: draw(gen.nice(-1.5, 1.5)) for n in names}
    for t in net.ts:
        E[t] = draw(gen.nice(-0.5, 2.5))
    case['abs'] = E
    case.pop('Ga'), case.pop('dG')
    return case


def relative(case):
    """(Ga, dG) of the absolute energies."""
    E = case['abs']

    def total(state):
        return sum(sp[0]*E[gen.species_str(sp)] for sp in state)
    Ga, dG = [], []
    for lhs, ts, rhs in case['rxns']:
        a, b = total(lhs), total(rhs)
        d = b - a
        top = total(ts) if ts is not None else max(a, b)
        Ga.append(top - a)
        dG.append(d)
    return Ga, dG


def model(case):
    m = ref.bare(case, parser='AbsoluteEnergyParser')
    with open('abs_in.py', 'w') as f:
        f.write('absolute_energies = %r\n' % (case['abs'],))
    m.parser.parse_data(filename='abs_in.py')
    m.solver.get_data()
    check(not m.solver.has_symbols, 'symbols before they were asked for')
    m.solver.get_data_symbols()
    check(m.solver.has_symbols, 'no symbols')
    return m


def wrong_net(net):
    """The stoichiometry of the listed finding."""
    bad = copy.copy(net)
    bad.net = []
    for i, r in enumerate(net.rxns):
        d = {}
        for a in net.ads:
            if a in net.lhs[i]:
                d[a] = -1
            elif a in net.rhs[i]:
                d[a] = 1
        bad.net.append(d)
    return bad


def t_symbolic(case, ctx):
    net = ref.Net(case)
    if not net.ads:
        return
    m = model(case)
    s = m.solver
    shared = any(sum(a in l or a in r for l, r in zip(net.lhs, net.rhs)) > 1 for a in net.ads)
    big = any(v > 1 for side in net.lhs + net.rhs for v in side.values())
    ctx.nontrivial((len(net.rxns) > 1 and shared) or big)
    cv = coverage_tuple(net, case['cvgs'], 'mpf')
    Ga, dG = relative(case)
    kf, kr = net.rate_constants(Ga, [a - d for a, d in zip(Ga, dG)])
    x = net.activities(case['cvgs'])
    slack = 1e-14*(len(net.ads) + 1)
    xs = {k: abs(v) + slack for k, v in x.items()}
    rf, rr = net.rates(kf, kr, x)
    sf, sr = net.rates(kf, kr, xs)
    df = [abs(a - b) + REL*abs(a) for a, b in zip(sf, rf)]
    dr = [abs(a - b) + REL*abs(a) for a, b in zip(sr, rr)]

    def same(what, got, num, want, tol):
        check(abs(ref.mpf(got) - want) <= tol, '%s by symbols is %s, expected %s', what, got, want)
        check(abs(ref.mpf(got) - ref.mpf(num)) <= tol, '%s by symbols is %s, numerically %s', what, got, num)

    gkf, gkr = s.get_rate_constants_by_sym()
    nkf, nkr = s.get_rate_constants()
    for i, e in enumerate(net.exprs):
        same('forward rate constant of ' + e, gkf[i], nkf[i], kf[i], REL*kf[i])
        same('reverse rate constant of ' + e, gkr[i], nkr[i], kr[i], REL*kr[i])
    grf, grr = s.get_rates_by_sym(cv)
    nrf, nrr = s.get_rates(cv)
    gn, nn = s.get_net_rates_by_sym(cv), s.get_net_rates(cv)
    for i, e in enumerate(net.exprs):
        same('forward rate of ' + e, grf[i], nrf[i], rf[i], df[i])
        same('reverse rate of ' + e, grr[i], nrr[i], rr[i], dr[i])
        same('net rate of ' + e, gn[i], nn[i], rf[i] - rr[i], df[i] + dr[i])
    gt, nt = s.get_tof_by_sym(cv), s.get_tof(cv)
    names = net.gas + net.liq
    check(len(gt) == len(nt) == len(names), '%d turnover frequencies by symbols, %d numerically', len(gt), len(nt))
    for j, name in enumerate(names):
        want, _ = net.tof(name, rf, rr)
        tol = sum(abs(net.net[i].get(name, 0))*(df[i] + dr[i]) for i in range(len(net.rxns)))
        same('turnover frequency of ' + name, gt[j], nt[j], want, tol)

    bad = wrong_net(net)
    gd, nd = s.steady_state_function_by_sym(cv), s.steady_state_function(cv)
    want, scale = net.dtheta(rf, rr)
    wrong, _ = bad.dtheta(rf, rr)
    check(len(gd) == len(nd) == len(net.ads), '%d derivatives by symbols', len(gd))

    def differs(a):
        return [i for i in range(len(net.rxns)) if net.net[i].get(a, 0) != bad.net[i].get(a, 0)]
    for j, a in enumerate(net.ads):
        tol = REL*scale[j] + sum(max(abs(net.net[i].get(a, 0)), 1)*(df[i] + dr[i]) for i in range(len(net.rxns))
                                 if a in net.lhs[i] or a in net.rhs[i])
        check(abs(ref.mpf(nd[j]) - want[j]) <= tol, 'd%s/dt is %s, expected %s', a, nd[j], want[j])
        if abs(ref.mpf(gd[j]) - want[j]) <= tol:
            continue
        text = 'd%s/dt by symbols is %s, expected %s' % (a, gd[j], want[j])
        check(bool(differs(a)) and abs(ref.mpf(gd[j]) - wrong[j]) <= tol, '%s', text)
        ctx.known(FID, text)

    J, N = s.analytical_jacobian_by_sym(cv), s.analytical_jacobian(cv)
    W, SC = net.jacobian(kf, kr, x)
    _, SC2 = net.jacobian(kf, kr, xs)
    B, BC = bad.jacobian(kf, kr, x)
    _, BC2 = bad.jacobian(kf, kr, xs)
    n = len(net.ads)
    check((J.rows, J.cols) == (n, n), 'shape %r of the symbolic Jacobian', (J.rows, J.cols))
    for i in range(n):
        for j in range(n):
            tol = REL*SC[i][j] + abs(SC2[i][j] - SC[i][j])
            check(abs(ref.mpf(N[i, j]) - W[i][j]) <= tol, 'Jacobian [%d, %d] is %s, expected %s', i, j, N[i, j], W[i][j])
            if abs(ref.mpf(J[i, j]) - W[i][j]) <= tol:
                continue
            text = 'd(d%s/dt)/d%s by symbols is %s, expected %s' % (net.ads[i], net.ads[j], J[i, j], W[i][j])
            tol = tol + REL*BC[i][j] + abs(BC2[i][j] - BC[i][j])
            check(bool(differs(net.ads[i])) and abs(ref.mpf(J[i, j]) - B[i][j]) <= tol, '%s', text)
            ctx.known(FID, text)


SIMPLE = ['ads', 'des', 'diff', 'er', 'erads', 'isomer', 'assoc', 'liq']
TESTS = [Test('symbolic', cases(max_rxns=4), t_symbolic, 350, 8000),
         # every coefficient of an adsorbate is 1 here: the listed finding cannot hide anything
         Test('plain', cases(max_rxns=4, kinds=SIMPLE, max_mult=1), t_symbolic, 250, 6000)]
