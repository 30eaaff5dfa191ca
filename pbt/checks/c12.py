"""C12: analytical Jacobian."""
import mpmath
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks import c32
from pbt.checks.c10 import REL, coverage_tuple, execute, rounds
from pbt.core import Test, Violation, check

RULE = ("non-trivial: some entry of the Jacobian depends on the coverages (a reaction side has two "
        "or more surface species, counted with coefficients)")


def curved(net):
    for side in net.lhs + net.rhs:
        n = sum(v for k, v in side.items() if k in net.ads or k in net.sites)
        if n > 1:
            return True
    return False


def t_jacobian(case, ctx):
    net = ref.Net(case)
    s = ref.model(case).solver
    ctx.nontrivial(curved(net))
    n = len(net.ads)
    if not n:
        return
    cv = coverage_tuple(net, case['cvgs'], case['kind'])
    slack = 4e-16*n if case['kind'] == 'float' else 1e-40
    x = net.activities(case['cvgs'])
    for explicit, kf, kr in rounds(case, net):
        kw = {} if explicit is None else {'relative_energies': explicit}
        tag = 'own' if explicit is None else 'explicit'
        ctx.label(tag)
        want, SC = net.jacobian(kf, kr, x)
        xs = {k: abs(v) + slack for k, v in x.items()}
        _, SC2 = net.jacobian(kf, kr, xs)
        if explicit is None:
            for i, text in enumerate(s.get_dtheta_dt_expressions()):
                for j, a in enumerate(net.ads):
                    out = [None]
                    d = s.poly_adsorbate_derivation(adsorbate_name=a, poly_expression=text)
                    execute(['out[0] = ' + d], net, case, kf, kr, out=out)
                    check(abs(ref.mpf(out[0]) - want[i][j]) <= 1e-30*SC[i][j], 'derivative of %s for %s is %s = %s, expected %s', text, a, d, out[0], want[i][j])
        J = s.analytical_jacobian(cv, **kw)
        check((J.rows, J.cols) == (n, n), 'shape %r for %d adsorbates', (J.rows, J.cols), n)
        for i in range(n):
            for j in range(n):
                tol = REL*SC[i][j] + abs(SC2[i][j] - SC[i][j])
                check(abs(ref.mpf(J[i, j]) - want[i][j]) <= tol, 'd(d%s/dt)/d%s (%s energies) is %s, expected %s',
                      net.ads[i], net.ads[j], tag, J[i, j], want[i][j])


def order(net):
    return max(sum(side.values()) for side in net.lhs + net.rhs)


def t_numerical(case, ctx):
    """The numerical Jacobian of the solver, which is a one-sided difference."""
    net = ref.Net(case)
    s = ref.model(case).solver
    ctx.nontrivial(curved(net))
    n = len(net.ads)
    if not n:
        return
    cv = coverage_tuple(net, case['cvgs'], 'mpf')
    x = net.activities(case['cvgs'])
    kf, kr = net.rate_constants(*net.relative()[:2])
    want, SC = net.jacobian(kf, kr, x)
    h = case['h']
    kw = {} if h is None else {'h': mpmath.mpf(h)}
    J = s.classified_numerical_jacobian(s.steady_state_function, cv, **kw)
    big = max([abs(v) for v in x.values()] + [1])**order(net)
    step = ref.mpf(h or '1e-10')*(sum(kf) + sum(kr))*order(net)**4*big
    for i in range(n):
        for j in range(n):
            check(abs(ref.mpf(J[i, j]) - want[i][j]) <= REL*SC[i][j] + step, 'numerical d(d%s/dt)/d%s is %s, expected %s',
                  net.ads[i], net.ads[j], J[i, j], want[i][j])


def t_refuse(case, ctx):
    net = ref.Net(case)
    s = ref.model(case).solver
    if not net.ads:
        return
    ctx.nontrivial()
    cv = coverage_tuple(net, case['cvgs'], 'mpf')
    bad = [cv + (cv[-1],), cv[:-1]][case['pick']]
    try:
        got = s.analytical_jacobian(bad)
    except Exception:
        return
    raise Violation('Jacobian of %d coverages for %d adsorbates: %r' % (len(bad), len(cv), got))


@st.composite
def functions(draw):
    case = draw(c32.starts(c32.systems(2, 1), 5))
    case['dps'] = draw(st.sampled_from([30, 50]))
    case['direction'] = draw(st.sampled_from(['right', 'left', None]))
    case['h'] = draw(st.sampled_from([None, 1e-6, 1e-10, 1e-12]))
    case['form'] = draw(st.sampled_from(['list', 'matrix']))
    return case


def t_difference(case, ctx):
    """The numerical Jacobian of any vector function."""
    from scaks.functions import numerical_jacobian
    mp = mpmath.mp
    mp.dps = case['dps']
    f, J = c32.functions(case, mp)
    x = c32.start(case, mp)
    before = list(x)
    kw = {}
    if case['direction']:
        kw['direction'] = case['direction']
    if case['h']:
        kw['h'] = case['h']
    got = numerical_jacobian(f, x, mp.matrix, num_repr='mpmath', **kw)
    n = len(before)
    check((got.rows, got.cols) == (n, n), 'shape %r of %d functions', (got.rows, got.cols), n)
    check(list(x) == before, 'the point was changed from %r to %r', before, x)
    want = J(x)
    h = case['h'] or 1e-10
    big = 1 + max(abs(float(o)) for o in case['offset'])
    ctx.nontrivial(any(v for M in case['B'] for row in M for v in row))
    for row, i in enumerate(case['order']):
        slope = sum(abs(v) for r in case['B'][i] for v in r) + 4*abs(case['c'][i])*big
        for j in range(n):
            delta = h*max(1, abs(float(before[j])))
            tol = case['scale'][i]*(2*delta*slope + 1e-12)
            diff = got[row, j] - want[row, j]
            check(abs(diff) <= tol, 'd f%d/d x%d is %s, expected %s', row, j, got[row, j], want[row, j])
            # the error has the sign of the side on which the step was taken
            second = 2*case['B'][i][j][j] + (6*case['c'][i]*float(case['offset'][i]) if i == j else 0)
            side = -1 if case['direction'] == 'left' else 1
            if abs(second) > 0.1 and delta < 1e-5:
                check(diff*second*side > 0, 'd f%d/d x%d is a difference to the wrong side: %s, exact %s', row, j, got[row, j], want[row, j])


@st.composite
def cases(draw, **kw):
    case = draw(gen.with_coverages(gen.kinetic_cases(**kw), alt=True))
    case['kind'] = draw(st.sampled_from(['mpf', 'mpf', 'float', 'list']))
    case['pick'] = draw(st.integers(0, 1))
    case['h'] = draw(st.sampled_from([None, '1e-20', '1e-25']))
    return case


TESTS = [Test('jacobian', cases(), t_jacobian, 1600, 40000),
         Test('multi', cases(max_mult=3, max_rxns=3, kinds=['diss', 'assocgas', 'auto', 'general', 'promoted', 'liq']),
              t_jacobian, 800, 20000),
         Test('numerical', cases(max_rxns=4), t_numerical, 500, 8000),
         Test('difference', functions(), t_difference, 300, 8000),
         Test('refuse', cases(max_rxns=2), t_refuse, 200, 2000)]
