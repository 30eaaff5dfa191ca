"""C30: complete runs of the micro kinetic model."""
import os
import pickle

import mpmath
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks.c10 import REL, energies_dict
from pbt.checks.c14 import GiveUp, analytical, guess, no_solution, solvable
from pbt.checks.c17 import cycles
from pbt.core import Test, Violation, check

RULE = ("non-trivial: at least two runs completed, or one that was started from an archive")
VARIABLES = ['initial_guess', 'steady_state_coverages', 'steady_state_error', 'rates', 'net_rates', 'reversibilities', 'tofs']


@st.composite
def networks(draw):
    kind = draw(st.integers(0, 2))
    if kind == 0:
        case = draw(solvable())
    else:
        case = draw(cycles())
        case['kind'] = None
        case.pop('alt')
        case['c0'] = draw(guess(case, ref.Net(case)))
        case['more'] = [draw(guess(case, ref.Net(case))) for _ in range(draw(st.integers(0, 2)))]
        case['method'] = draw(st.sampled_from(['MDNewton', 'MDNewton', 'ConstrainedNewton']))
    case['tol'] = draw(st.sampled_from([1e-8, 1e-8, 1e-12, 1e-5]))
    case['iters'] = 100
    case['archived'] = draw(st.sampled_from([None, None, VARIABLES, draw(st.lists(st.sampled_from(VARIABLES), unique=True))]))
    n = len(case['rxns'])
    dG = [draw(gen.nice(-0.4, 0.4)) for _ in range(n)]
    case['alt'] = ([round(max(d, 0) + draw(gen.nice(0.1, 0.6)), 6) for d in dG], dG)
    return case


@st.composite
def runs(draw, case, which, kinds, options=True):
    net = ref.Net(case)
    op = dict(op='run', which=which, fresh=draw(st.integers(0, 2)) == 0, alt=options and draw(st.integers(0, 3)) == 0,
              fsolve=options and draw(st.integers(0, 4)) == 0, coarse=draw(st.sampled_from([None, True, False])),
              XRC=bool(options and net.gas and draw(st.integers(0, 5)) == 0), eps=draw(st.sampled_from([None, 1e-4])), gas=draw(st.integers(0, 3)),
              product=draw(st.integers(0, 3)) > 0, kind=draw(st.sampled_from(kinds)))
    if op['kind'] == 'init':
        op['init'] = draw(st.sampled_from([list, tuple]))(draw(guess(case, net)))
    elif op['kind'] == 'bad':
        good = draw(guess(case, net))
        op['init'] = draw(st.sampled_from([good + [0.1], good + good, tuple(good[:-1]) or (0.1, 0.2), {a: v for a, v in zip(net.ads, good)},
                                           'x'*len(good), 0.5, 'guess', {0.1}]))
    elif op['kind'] == 'empty':
        op['init'] = draw(st.sampled_from([[], ()]))
    return op


@st.composite
def histories(draw):
    cases = [draw(networks())]
    if draw(st.booleans()):
        cases.append(draw(networks()))
    dps = draw(st.sampled_from([30, 50, 100]))
    for c in cases:
        c['dps'] = dps
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        if ops and draw(st.integers(0, 4)) == 0:
            ops.append(dict(op='archive', how=draw(st.sampled_from(['delete', 'delete', 'shorter', 'longer', 'missing', 'other'])),
                            seed=draw(gen.nice(0, 1))))
        which = draw(st.integers(0, len(cases) - 1))
        ops.append(draw(runs(cases[which], which, ['init', 'init', 'none', 'none', 'none', 'empty', 'bad'])))
    return dict(cases=cases, ops=ops)


def archive():
    if not os.path.exists('data.pkl'):
        return None
    with open('data.pkl', 'rb') as f:
        return pickle.load(f)


class Model(object):
    """A model, what was asked from its hybrid method, and its last results."""
    def __init__(self, case, **over):
        self.case, self.net = case, ref.Net(case)
        over = dict(over)
        if case['archived'] is not None:
            over['archived_variables'] = list(case['archived'])
        self.m = ref.model(case, rootfinding=case['method'], decimal_precision=case['dps'], tolerance=case['tol'],
                           max_rootfinding_iterations=case['iters'], **over)
        self.asked = []
        self.before = None
        left = [list(case['c0'])] + [list(g) for g in case['more']]

        def fn(model, n):
            self.asked.append(n)
            if n == 0:
                return [mpmath.mpf(v) for v in left[0]]
            if n >= len(left):
                raise GiveUp()
            return [mpmath.mpf(v) for v in left[n]]
        self.m.hybrid_method_register(fn)

    def results(self):
        m = self.m
        return repr((m.steady_state_coverages, m.TOFs, m.reversibilities, m.error))


def verify(mod, op, ctx):
    """All results of the last run describe the same state."""
    m, net, case = mod.m, mod.net, mod.case
    cvgs = list(m.steady_state_coverages)
    check(len(cvgs) == len(net.ads), '%d coverages for %r', len(cvgs), net.ads)
    # a good coarse guess is reported as it is, then free sites are known to float precision only
    exact = all(isinstance(v, mpmath.mpf) for v in cvgs)
    cv = dict(zip(net.ads, [ref.mpf(v) if exact else ref.mpf(float(v)) for v in cvgs]))
    e = energies_dict(net, case['alt'] if op['alt'] else (case['Ga'], case['dG']))
    kf, kr = net.rate_constants(e['Gaf'], e['Gar'])
    x = net.activities(cv)
    slack = 1e-15*(len(net.ads) + 1)*max([1] + [abs(v) for v in cv.values()]) if not exact else ref.mpf(10)**(2 - min(case['dps'], 46))
    xs = {k: abs(v) + slack for k, v in x.items()}
    wf, wr = net.rates(kf, kr, x)
    sf, sr = net.rates(kf, kr, xs)
    df = [abs(a - b) + REL*abs(b) for a, b in zip(sf, wf)]
    dr = [abs(a - b) + REL*abs(b) for a, b in zip(sr, wr)]
    names = net.gas + net.liq
    check(len(m.TOFs) == len(names), '%d turnover frequencies for %r', len(m.TOFs), names)
    for j, name in enumerate(names):
        want, _ = net.tof(name, wf, wr)
        tol = sum(abs(net.net[i].get(name, 0))*(df[i] + dr[i]) for i in range(len(net.rxns)))
        check(abs(ref.mpf(m.TOFs[j]) - want) <= tol, 'turnover frequency of %s is %s, at the reported coverages it is %s', name, m.TOFs[j], want)
    check(len(m.reversibilities) == len(net.rxns), '%d reversibilities', len(m.reversibilities))
    for i, expr in enumerate(net.exprs):
        if abs(wf[i]) > 1e6*df[i] and wf[i]:
            want = wr[i]/wf[i]
            tol = (dr[i] + abs(want)*df[i])/abs(wf[i])*2 + 1e-12*abs(want)
            check(abs(ref.mpf(m.reversibilities[i]) - want) <= tol, '%s: reversibility %s, at the reported coverages it is %s',
                  expr, m.reversibilities[i], want)
    d, _ = net.dtheta(wf, wr)
    _, s1 = net.dtheta(wf, wr)
    _, s2 = net.dtheta(sf, sr)
    noise = max(abs(a - b) for a, b in zip(s1, s2)) + 1e-9*max(s1)
    resid, norm = max(abs(v) for v in d), sum(v*v for v in d)**0.5
    err = ref.mpf(m.error)
    check(any(abs(err - w) <= 1e-6*abs(w) + noise for w in (resid, norm)), 'reported error %s, residual %s, norm %s', m.error, resid, norm)
    if not op['fsolve']:
        check(resid <= case['tol']*1.0001 + noise, 'the largest derivative is %s, tolerance %s', resid, case['tol'])
        check(min(cv.values()) >= 0 and min(x[s] for s in net.sites) >= -case['tol']*1.0001 - 1e-15, 'coverages %r', cvgs)
        if case['kind'] is not None and not op['alt']:
            want = analytical(case, net)
            for a in net.ads:
                check(abs(cv[a] - want[a]) <= 1e-4 if case['tol'] < 1e-6 else True, 'coverage of %s is %s, exact %s', a, cv[a], want[a])
    info = m.model_info
    check(list(info['gas_names']) == net.gas and list(info['adsorbate_names']) == net.ads and
          list(info['rxn_expressions']) == net.exprs, 'report %r', info)
    check(info['steady_state_coverages'] == [float(v) for v in cvgs], 'report: coverages %r instead of %r', info['steady_state_coverages'], cvgs)
    check(info['TOFs'] == [float(v) for v in m.TOFs], 'report: TOFs %r instead of %r', info['TOFs'], m.TOFs)
    check(list(info['reversibilities']) == list(m.reversibilities), 'report: reversibilities')
    # archive
    variables = ['steady_state_coverages'] if case['archived'] is None else case['archived']
    if not variables:
        return
    data = archive()
    if op['fsolve']:      # low-precision coverages are not archived
        variables = [v for v in variables if v in ('rates', 'net_rates', 'reversibilities', 'tofs')]
        if not variables:
            return
    check(data is not None, 'no archive')
    check(set(variables) <= set(data) and set(data) <= set(VARIABLES), 'archive of %r contains %r', variables, sorted(data))
    if 'steady_state_coverages' in variables:
        check(list(data['steady_state_coverages']) == cvgs, 'archived coverages %r, reported %r', data['steady_state_coverages'], cvgs)
    if 'steady_state_error' in variables:
        check(data['steady_state_error'] == m.error, 'archived error %r, reported %r', data['steady_state_error'], m.error)
    if 'tofs' in variables:
        check(list(data['tofs']) == list(m.TOFs), 'archived TOFs %r, reported %r', data['tofs'], m.TOFs)
    if 'reversibilities' in variables:
        check(list(data['reversibilities']) == list(m.reversibilities), 'archived reversibilities %r', data['reversibilities'])
    if 'rates' in variables:
        for got, want, tol in zip(data['rates'], (wf, wr), (df, dr)):
            check(len(got) == len(want) and all(abs(ref.mpf(a) - b) <= t for a, b, t in zip(got, want, tol)), 'archived rates %r, expected %r', got, want)
    if 'net_rates' in variables:
        got = data['net_rates']
        check(len(got) == len(wf) and all(abs(ref.mpf(a) - (b - c)) <= t + u for a, b, c, t, u in zip(got, wf, wr, df, dr)),
              'archived net rates %r', got)


def tamper(op, models, cases):
    """Remove the archive or replace it by that of another model."""
    data = archive()
    if op['how'] == 'delete' or data is None:
        if data is not None:
            os.remove('data.pkl')
        return
    n = len(data.get('steady_state_coverages', ())) or 1
    if op['how'] == 'missing':
        data.pop('steady_state_coverages', None)
    else:
        n += {'shorter': -1, 'longer': 1, 'other': 0}[op['how']]
        data['steady_state_coverages'] = tuple(mpmath.mpf(op['seed'])/(n + 1) for _ in range(n))
    with open('data.pkl', 'wb') as f:
        pickle.dump(data, f)


def run(mod, op):
    kw = {}
    if op['kind'] != 'none':
        kw['init_cvgs'] = op['init']
    if op['alt']:
        kw['relative_energies'] = energies_dict(mod.net, mod.case['alt'])
    if op['fsolve']:
        kw['fsolve'] = True
    if op['coarse'] is not None:
        kw['coarse_guess'] = op['coarse']
    if op['XRC']:
        kw['XRC'] = True
        if op['product']:
            kw['product_name'] = mod.net.gas[op['gas'] % len(mod.net.gas)]
        if op['eps']:
            kw['epsilon'] = op['eps']
    given = repr(kw)
    mod.asked[:] = []
    old = solved(mod.m)
    try:
        mod.m.run(**kw)
    except Exception as e:
        # A failure after the steady state was found does not count as 'no solution',
        # unless it is one of the further root findings for the rate control.
        if no_solution(e) and not op['XRC'] and solved(mod.m) is not None and solved(mod.m) is not old:
            raise Violation('steady state found, but the run ended with %r' % (e,))
        if no_solution(e) and op['XRC'] and op['product'] and op['kind'] == 'init' and not op['fsolve']:
            apart(mod, kw, e)
        raise
    check(repr(kw) == given, 'the arguments were changed')


def apart(mod, kw, error):
    """Rate control of a run that failed: calculated after the run it must fail, too."""
    kw = dict(kw)
    gas = kw.pop('product_name')
    kw.pop('XRC')
    # epsilon of a run without any is 1e-5
    args = dict(epsilon=kw.pop('epsilon', 1e-5))
    if 'relative_energies' in kw:
        args['relative_energies'] = kw['relative_energies']
    new = Model(mod.case)
    try:
        new.m.run(**kw)
        new.m.solver.get_single_XRC(gas, **args)
    except Exception as e:
        if not no_solution(e):
            raise
        return
    raise Violation('a run with rate control failed with %r, both are possible one after the other' % (error,))


def solved(m):
    """The coverages of the last run that found any."""
    try:
        return m.steady_state_coverages
    except AttributeError:
        return None


def t_history(case, ctx):
    from scaks.errors.error import ParameterError
    cases = case['cases']
    models = [None]*len(cases)
    done, from_archive = 0, False
    for op in case['ops']:
        if op['op'] == 'archive':
            tamper(op, models, cases)
            ctx.label('archive: ' + op['how'])
            continue
        i = op['which']
        if models[i] is None or op['fresh']:
            models[i] = Model(cases[i])
        mod = models[i]
        n = len(mod.net.ads)
        old = archive()
        results = mod.results() if mod.before else None
        if op['kind'] == 'bad':
            ctx.label('refused')
            try:
                run(mod, op)
            except ParameterError:
                pass
            else:
                raise Violation('initial coverages %r accepted for %r' % (op['init'], mod.net.ads))
            check(repr(archive()) == repr(old), 'a refused run changed the archive')
            check(results is None or mod.results() == results, 'a refused run changed the results')
            continue
        # which initial coverages are to be used
        source = 'given' if op['kind'] == 'init' else 'hybrid' if old is None else \
            'archive' if len(old.get('steady_state_coverages', ())) == n else 'foreign'
        XRC = op['XRC']
        try:
            run(mod, op)
        except ParameterError:
            if XRC and not op['product']:
                # asked for without naming a product: the steady state itself has been found
                ctx.label('no product')
                mod.before = True
                verify(mod, op, ctx)
                continue
            raise
        except Exception as e:
            if not no_solution(e):
                raise
            ctx.label('none: ' + type(e).__name__)
            models[i] = None
            continue
        finally:
            check(mod.asked[:1] != [0] or source == 'hybrid', 'hybrid method asked for initial coverages (%s)', source)
        check(not (XRC and not op['product']), 'rate control of an unnamed product')
        if source == 'hybrid':
            check(mod.asked[:1] == [0], 'hybrid method was not asked for initial coverages')
        ctx.label('start: ' + source)
        ctx.label('fsolve' if op['fsolve'] else 'precise')
        if XRC:
            ctx.label('XRC')
        done += 1
        from_archive = from_archive or source == 'archive'
        mod.before = True
        verify(mod, op, ctx)
    ctx.nontrivial(done > 1 or from_archive)


# -------------------------------------------------------------- repeatability
@st.composite
def repeats(draw):
    case = draw(networks())
    case['dps'] = draw(st.sampled_from([30, 50, 100]))
    first = draw(runs(case, 0, ['init', 'none'], options=False))
    case['alt_used'] = draw(st.integers(0, 3)) == 0
    if case['archived'] is not None and 'steady_state_coverages' not in case['archived']:
        case['archived'] = case['archived'] + ['steady_state_coverages']
    again = [dict(fresh=draw(st.booleans()), coarse=draw(st.sampled_from([None, True, False])),
                  method=draw(st.sampled_from([case['method'], 'MDNewton', 'ConstrainedNewton']))) for _ in range(draw(st.integers(1, 3)))]
    return dict(case=case, first=first, again=again)


def t_repeat(case, ctx):
    """Runs in the same place start from the archived coverages and change nothing."""
    inner, first = case['case'], dict(case['first'], alt=case['case']['alt_used'])
    mod = Model(inner)
    try:
        run(mod, first)
    except Exception as e:
        if not no_solution(e):
            raise
        ctx.label('none')
        return
    verify(mod, first, ctx)
    want = [ref.mpf(v) for v in mod.m.steady_state_coverages]
    tofs = [ref.mpf(v) for v in mod.m.TOFs]
    ctx.nontrivial()
    for a in case['again']:
        if a['fresh']:
            mod = Model(dict(inner, method=a['method']))
        op = dict(first, kind='none', coarse=a['coarse'])
        run(mod, op)
        check(mod.asked == [], 'hybrid method was asked %r although the archive holds the solution', mod.asked)
        verify(mod, op, ctx)
        for name, v, w in zip(mod.net.ads, mod.m.steady_state_coverages, want):
            check(abs(ref.mpf(v) - w) <= 1e-12 + 10*inner['tol'], 'coverage of %s is %s, in the run before %s', name, v, w)
        want = [ref.mpf(v) for v in mod.m.steady_state_coverages]


TESTS = [Test('history', histories(), t_history, 360, 3000),
         Test('repeat', repeats(), t_repeat, 300, 3000)]
