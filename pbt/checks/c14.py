"""C14: steady states."""
import traceback

import mpmath
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Test, check

RULE = ("non-trivial: the solver returned coverages that differ from the initial guess "
        "(root finding took place)")
ASSUMPTIONS = ["an exception or a registered hybrid method that gives up counts as 'no solution found'"]


class GiveUp(Exception):
    pass


def no_solution(e):
    """Does the exception mean that root finding failed (singular Jacobian, gave up)?"""
    if isinstance(e, (GiveUp, ValueError, ZeroDivisionError)):
        return True
    # mpmath's elimination fails with a TypeError when a column is zero,
    # scipy's line search with a BracketError at a stationary point
    last = traceback.extract_tb(e.__traceback__)[-1].filename
    return (isinstance(e, TypeError) and 'mpmath' in last) or (isinstance(e, RuntimeError) and 'scipy' in last)


def hybrid(guesses):
    """Hybrid method that offers the given guesses and then gives up."""
    left = [list(g) for g in guesses]

    def fn(model, n):
        if not left:
            raise GiveUp()
        return [mpmath.mpf(v) for v in left.pop(0)]
    return fn


@st.composite
def guess(draw, case, net):
    kind = draw(st.sampled_from(['physical', 'physical', 'zero', 'even', 'wild', 'full']))
    if kind == 'zero':
        return [0.0]*len(net.ads)
    if kind == 'even':
        return [case['sites'][net.site_of[a]]/(1.0 + sum(net.site_of[b] == net.site_of[a] for b in net.ads)) for a in net.ads]
    if kind == 'full':
        return [case['sites'][net.site_of[a]] for a in net.ads]
    if kind == 'wild':
        return [draw(gen.nice(-1, 3)) for a in net.ads]
    c = draw(gen.coverages(case))
    return [c[a] for a in net.ads]


@st.composite
def settings(draw, case):
    net = ref.Net(case)
    case['c0'] = draw(guess(case, net))
    case['more'] = [draw(guess(case, net)) for _ in range(draw(st.integers(0, 2)))]
    case['method'] = draw(st.sampled_from(['MDNewton', 'MDNewton', 'MDNewton', 'ConstrainedNewton']))
    case['dps'] = draw(st.sampled_from([30, 50, 100]))
    case['tol'] = draw(st.sampled_from([1e-8, 1e-8, 1e-5, 1e-2]))
    case['iters'] = draw(st.sampled_from([100, 100, 20, 3]))
    case['alt'] = draw(st.one_of(st.none(), gen.energies(len(case['rxns']))))
    case['single'] = draw(st.integers(0, 3)) == 0
    # further solutions with the same solver: near the last one, or for the other energies
    case['next'] = draw(st.lists(st.tuples(st.integers(2, 12), st.sampled_from([1, 1, -1]), st.integers(0, 3).map(lambda v: v == 0)), max_size=3)) \
        if draw(st.booleans()) else []
    return case


@st.composite
def cases(draw, **kw):
    case = draw(gen.kinetic_cases(**kw))
    return draw(settings(case))


def solve(case, net, **over):
    m = ref.model(case, rootfinding=case['method'], decimal_precision=case['dps'], tolerance=case['tol'],
                  max_rootfinding_iterations=case['iters'], **over)
    m.hybrid_method_register(hybrid(case['more']))
    kw = {}
    if case['alt'] is not None:
        f, r, d = net.relative(*case['alt'])
        kw['relative_energies'] = dict(Gaf=f, Gar=r, dG=d)
    c0 = [mpmath.mpf(v) for v in case['c0']]
    return m, kw, c0


def verify(case, net, m, kw, got):
    """The returned coverages are a physical steady state and truthfully reported."""
    s = m.solver
    tol = case['tol']
    check(len(got) == len(net.ads), '%d coverages for %r', len(got), net.ads)
    cv = dict(zip(net.ads, [ref.mpf(v) for v in got]))
    for a, v in cv.items():
        check(v >= 0, 'coverage of %s is %s', a, v)
    x = net.activities(cv)
    for site in net.sites:
        check(x[site] >= -tol*1.0001 - 1e-15, 'free %s is %s', site, x[site])
    kf, kr = s.get_rate_constants(**kw)
    kf, kr = [ref.mpf(k) for k in kf], [ref.mpf(k) for k in kr]
    rf, rr = net.rates(kf, kr, x)
    d, scale = net.dtheta(rf, rr)
    # the precision of the model limits what can be recomputed
    big = net.dtheta(*net.rates(kf, kr, {k: abs(v) + 1 for k, v in x.items()}))[1]
    noise = max(big)*ref.mpf(10)**(3 - min(case['dps'], 46))
    resid = max(abs(v) for v in d)
    norm = sum(v*v for v in d)**0.5
    check(resid <= tol*1.0001 + noise, 'largest derivative at the returned coverages is %s, tolerance %s', resid, tol)
    err = ref.mpf(s.error)
    check(any(abs(err - w) <= 1e-6*abs(w) + noise for w in (resid, norm)), 'reported error is %s, residual %s, norm %s',
          s.error, resid, norm)
    check(tuple(s.coverages) == tuple(got), 'solver keeps coverages %r', s.coverages)
    # with independently computed rate constants the remainder is still negligible
    e = kw.get('relative_energies') or dict(zip(('Gaf', 'Gar', 'dG'), net.relative()))
    k1, k2 = net.rate_constants(e['Gaf'], e['Gar'])
    rf, rr = net.rates(k1, k2, x)
    d, scale = net.dtheta(rf, rr)
    for a, v, sc in zip(net.ads, d, scale):
        check(abs(v) <= tol*1.0001 + noise + 1e-9*sc, 'd%s/dt at the returned coverages is %s', a, v)


def start(case, net, m, kw, got):
    """The reported guess is physical and leads to the returned coverages."""
    g = m.solver.good_guess
    check(g is not None and len(g) == len(net.ads), 'guess %r of the converged search', g)
    cv = dict(zip(net.ads, [ref.mpf(v) for v in g]))
    x = net.activities(cv)
    for n in net.ads + net.sites:
        check(x[n] >= -1e-20, 'coverage of %s is %s in the guess of the converged search', n, x[n])
    m2, _, _ = solve(dict(case, more=[]), net)
    try:
        again = m2.solver.get_steady_state_cvgs(c0=list(g), single_pt=case['single'], **kw)
    except Exception as e:
        if not no_solution(e):
            raise
        again = None
    check(again is not None, 'no solution from the guess %r of a converged search', g)
    for a, v, w in zip(net.ads, got, again):
        check(abs(ref.mpf(v) - ref.mpf(w)) <= 1e-9, 'coverage of %s is %s, from the reported guess %s', a, v, w)


def further(case, net, m, kw, got, ctx):
    """Later solutions are reported as truthfully as the first one."""
    for k, sign, swap in case.get('next', []):
        use = kw
        if swap:
            f, r, d = net.relative(*(case['alt'] or (case['Ga'], case['dG'])))
            use = {} if kw else dict(relative_energies=dict(Gaf=f, Gar=r, dG=d))
        c0 = [v*(1 + sign*mpmath.mpf(10)**-k) for v in got]
        try:
            new = m.solver.get_steady_state_cvgs(c0=c0, single_pt=True, **use)
        except Exception as e:
            if not no_solution(e):
                raise
            return
        if new is None:
            return
        verify(case, net, m, use, new)
        ctx.label('further solution')
        got = new


def t_general(case, ctx):
    net = ref.Net(case)
    if not net.ads:
        return
    m, kw, c0 = solve(case, net)
    ctx.label(case['method'])
    try:
        got = m.solver.get_steady_state_cvgs(c0=c0, single_pt=case['single'], **kw)
    except Exception as e:
        if not no_solution(e):
            raise
        ctx.label('none: ' + type(e).__name__)
        return
    if got is None:
        ctx.label('none')
        return
    ctx.label('converged ' + case['method'])
    moved = any(abs(ref.mpf(a) - ref.mpf(b)) > 1e-12 for a, b in zip(got, case['c0']))
    ctx.nontrivial(moved)
    verify(case, net, m, kw, got)
    start(case, net, m, kw, got)
    further(case, net, m, kw, got, ctx)


# ------------------------------------------------------------ solvable networks
NAMES = ['CO', 'O', 'H', 'N', 'F', 'S', 'HO']


@st.composite
def solvable(draw):
    kind = draw(st.sampled_from(['linear', 'linear', 'linear', 'competitive', 'dissociative', 'twosites']))
    n = draw(st.integers(1, 4))
    rxns = []
    if kind == 'dissociative':
        name = draw(st.sampled_from(['O', 'H', 'N', 'F']))
        rxns = [[[(1, name + '2', 1, 'g'), (2, '*', 1, 's')], None, [(2, name, 1, 's')]]]
    elif kind == 'competitive':
        for name in NAMES[:n]:
            r = [[(1, name, 1, 'g'), (1, '*', 1, 's')], None, [(1, name, 1, 's')]]
            rxns.append(r if draw(st.booleans()) else r[::-1])
    elif kind == 'twosites':
        for name in NAMES[:n]:
            site = draw(st.sampled_from(['s', 't']))
            rxns.append([[(1, name, 1, 'g'), (1, '*', 1, site)], None, [(1, name, 1, site)]])
    else:
        # isomers of one molecule on one site, every one connected with the free site or another
        isomers = ['HNO', 'HON', 'NHO', 'NOH', 'OHN']
        known = []
        for i in range(n):
            t = draw(st.integers(-1, len(known) - 1))
            a = (1, isomers[i], 1, 's')
            if t < 0:
                ph = draw(st.sampled_from('ggl'))
                r = [[(1, isomers[i], 1, ph), (1, '*', 1, 's')], None, [a]]
            else:
                r = [[(1, known[t], 1, 's')], None, [a]]
            rxns.append(r if draw(st.booleans()) else r[::-1])
            known.append(isomers[i])
        for i in range(draw(st.integers(0, 2))):
            a, b = draw(st.sampled_from(known)), draw(st.sampled_from(isomers[:n]))
            r = [[(1, a, 1, 's')], None, [(1, b, 1, 'g'), (1, '*', 1, 's')]]
            if gen.rxn_str(r) not in [gen.rxn_str(q) for q in rxns] and gen.rxn_str(r[::-1]) not in [gen.rxn_str(q) for q in rxns]:
                rxns.append(r)
    case = draw(gen.conditions(rxns, zero=False))
    case['T'] = draw(gen.nice(400, 1000, 1))
    dG = [draw(gen.nice(-0.6, 0.6)) for _ in rxns]
    Ga = [round(max(d, 0) + draw(gen.nice(0.05, 0.5)), 6) for d in dG]
    case['Ga'], case['dG'] = Ga, dG
    case = draw(settings(case))
    case['method'] = 'MDNewton'
    case['alt'] = None
    case['tol'], case['iters'] = 1e-8, 100
    case['kind'] = kind
    return case


def analytical(case, net):
    """Exact steady state."""
    f, r, d = net.relative()
    kf, kr = net.rate_constants(f, r)
    if case['kind'] == 'dissociative':
        g = net.gas[0]
        q = ref._ctx.sqrt(kf[0]/kr[0]*ref.mpf(case['gas'][g]))
        tot = ref.mpf(case['sites']['*_s'])
        return {net.ads[0]: tot*q/(1 + q)}
    if case['kind'] in ('competitive', 'twosites'):
        out, b = {}, {}
        for i, rx in enumerate(net.rxns):
            ads = [a for a in net.ads if a in net.lhs[i] or a in net.rhs[i]][0]
            gas = [a for a in net.gas if a in net.lhs[i] or a in net.rhs[i]][0]
            K = kf[i]/kr[i] if gas in net.lhs[i] else kr[i]/kf[i]
            b[ads] = K*ref.mpf(case['gas'][gas])
        for a in net.ads:
            s = net.site_of[a]
            out[a] = ref.mpf(case['sites'][s])*b[a]/(1 + sum(b[c] for c in net.ads if net.site_of[c] == s))
        return out
    # first-order exchange between states: solve the linear master equation
    states = net.ads + net.sites
    n = len(states)
    M = ref._ctx.matrix(n, n)
    for i in range(len(net.rxns)):
        for side, other, k in ((net.lhs[i], net.rhs[i], kf[i]), (net.rhs[i], net.lhs[i], kr[i])):
            a = [q for q in side if q in states][0]
            b = [q for q in other if q in states][0]
            for q in side:
                if q in net.gas:
                    k = k*ref.mpf(case['gas'][q])
                elif q in net.liq:
                    k = k*ref.mpf(case['liq'][q])
            ia, ib = states.index(a), states.index(b)
            M[ia, ia] -= k
            M[ib, ia] += k
    rhs = ref._ctx.matrix(n, 1)
    for c in range(n):
        M[n-1, c] = 1
    rhs[n-1] = ref.mpf(case['sites'][net.sites[0]])
    x = ref._ctx.lu_solve(M, rhs)
    return dict(zip(states, x))


def t_solvable(case, ctx):
    net = ref.Net(case)
    want = analytical(case, net)
    m, kw, c0 = solve(case, net)
    ctx.label(case['kind'])
    try:
        got = m.solver.get_steady_state_cvgs(c0=c0, single_pt=case['single'], **kw)
    except Exception as e:
        if not no_solution(e):
            raise
        got = None
    if case['kind'] != 'dissociative':
        # Newton's method cannot fail for linear equations
        check(got is not None, 'no steady state found for first-order steps')
    elif got is None:
        ctx.label('none')
        return
    ctx.nontrivial(any(abs(ref.mpf(a) - ref.mpf(b)) > 1e-12 for a, b in zip(got, case['c0'])))
    verify(case, net, m, kw, got)
    for a, v in zip(net.ads, got):
        check(abs(ref.mpf(v) - want[a]) <= 1e-5, 'coverage of %s is %s, exact solution %s', a, v, want[a])
    further(case, net, m, kw, got, ctx)


def t_coarse(case, ctx):
    """The low-precision solver reports what it returns."""
    net = ref.Net(case)
    if not net.ads:
        return
    m, kw, c0 = solve(case, net)
    got = m.solver.fsolve_steady_state_cvgs(c0, **kw)
    check(len(got) == len(net.ads), '%d coverages', len(got))
    check([float(v) for v in m.solver.coverages] == [float(v) for v in got], 'solver keeps %r instead of %r', m.solver.coverages, got)
    cv = dict(zip(net.ads, [ref.mpf(float(v)) for v in got]))
    kf, kr = m.solver.get_rate_constants(**kw)
    rf, rr = net.rates([ref.mpf(k) for k in kf], [ref.mpf(k) for k in kr], net.activities(cv))
    d, scale = net.dtheta(rf, rr)
    resid = max(abs(v) for v in d)
    # the free sites are known to float precision only
    big = max([ref.mpf(1)] + [abs(v) for v in cv.values()])
    x = {k: abs(v) + 1e-15*(len(net.ads) + 1)*big for k, v in net.activities(cv).items()}
    _, scale2 = net.dtheta(*net.rates([ref.mpf(k) for k in kf], [ref.mpf(k) for k in kr], x))
    noise = max(abs(a - b) for a, b in zip(scale, scale2)) + 1e-14*max(scale)
    check(abs(ref.mpf(m.solver.error) - resid) <= noise + 1e-9*resid, 'reported error is %s, residual %s', m.solver.error, resid)
    ctx.nontrivial(any(abs(a - ref.mpf(b)) > 1e-12 for a, b in zip(cv.values(), case['c0'])))


@st.composite
def stuck(draw):
    """Starting points at the boundary from which Newton's method has nowhere to go."""
    first = draw(st.sampled_from([
        ([(1, 'Ne3', 1, 'g'), (2, '*', 1, 't')], None, [(1, 'Ne2', 1, 't'), (1, 'Ne', 1, 't')]),
        ([(1, 'Ne2', 1, 'g'), (2, '*', 1, 't')], None, [(2, 'Ne', 1, 't')])]))
    case = dict(rxns=[list(first), [[(1, 'Ne2', 1, 'l'), (1, '*', 1, 't')], None, [(1, 'Ne2', 1, 't')]]],
                gas={first[0][0][1] + '_g': draw(gen.nice(0.01, 2))}, liq={'Ne2_l': draw(gen.nice(0.01, 3))},
                sites={'*_t': 1.0}, T=draw(gen.nice(400, 600)),
                Ga=[draw(st.sampled_from([0.0, 0.3])), draw(gen.nice(0.5, 1.2))],
                dG=[draw(gen.nice(-0.3, 0.3)), draw(gen.nice(-1.6, -0.8))])
    case = draw(settings(case))
    case.update(method='MDNewton', dps=30, alt=None)
    case['c0'] = [draw(st.sampled_from([0.0, 0.0, 0.0, 0.25, 1.0])) for _ in case['c0']]
    return case


TESTS = [Test('general', cases(max_rxns=4), t_general, 420, 12000),
         Test('solvable', solvable(), t_solvable, 400, 8000),
         Test('coarse', cases(max_rxns=4), t_coarse, 240, 6000),
         Test('boundary', stuck(), t_general, 120, 3000)]
