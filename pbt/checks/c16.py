"""C16: ODE integration and its trajectory file."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks import c14
from pbt.core import Test, check

RULE = "non-trivial: the coverages change by more than 1e-3 during the integration (steady test: more than one adsorbate)"
ASSUMPTIONS = ["rate constants between 1e-2 and 1e2 per second, so that every integration method can follow"]
ACC = 2e-4


@st.composite
def energies(draw, n, T):
    """Energies with moderate rate constants."""
    kT = ref.KB*T
    pre = math.log(kT/ref.H)
    Ga, dG = [], []
    for _ in range(n):
        lf, lr = draw(gen.nice(-2, 1.5, 1)), draw(gen.nice(-2, 1.5, 1))
        gf, gr = kT*(pre - lf*math.log(10)), kT*(pre - lr*math.log(10))
        Ga.append(gf)
        dG.append(gf - gr)
    return Ga, dG


@st.composite
def cases(draw):
    rxns = draw(gen.networks(max_rxns=4, max_mult=1, max_coef=4))
    case = draw(gen.conditions(rxns, zero=False))
    case['gas'] = {g: min(p, 1.0) for g, p in case['gas'].items()}
    case['liq'] = {g: min(p, 1.0) for g, p in case['liq'].items()}
    n = len(rxns)
    case['Ga'], case['dG'] = draw(energies(n, case['T']))
    case['alt'] = draw(st.one_of(st.none(), energies(n, case['T'])))
    case['cvgs'] = draw(gen.coverages(case))
    case['default'] = draw(st.integers(0, 5)) == 0
    case['abs'] = None
    if case['alt'] is not None and draw(st.booleans()):
        # the model has absolute energies of its own, the dynamics are those of the given ones
        net = ref.Net(case)
        case['abs'] = {n: draw(gen.nice(-0.8, 0.4)) for n in net.gas + net.liq + net.ads + net.sites}
        case['abs'].update({t: draw(gen.nice(0.5, 2.5)) for t in net.ts})
    if draw(st.integers(0, 7)) == 0:
        case['cvgs'] = {a: 0.0 for a in case['cvgs']}
    case['algo'] = draw(st.sampled_from([None, 'lsoda', 'vode', 'dopri5', 'dop853']))
    case['start'] = draw(st.sampled_from([None, 0.0, 0.5, 2.0]))
    case['length'] = draw(gen.nice(0.05, 3, 2))
    case['span'] = draw(st.sampled_from([0.1, 0.05, 0.03, 0.25]))
    case['interval'] = draw(st.integers(1, 7))
    case['traj'] = draw(st.sampled_from([True, True, False]))
    return case


def solution(net, e, y0, times, t0):
    """Independent integration of the coverage equations."""
    from scipy.integrate import solve_ivp
    kf, kr = net.rate_constants(e[0], e[1])
    kf, kr = [float(k) for k in kf], [float(k) for k in kr]
    case = net.case
    ads = net.ads

    def f(t, y):
        x = dict(zip(ads, y))
        for g in net.gas:
            x[g] = case['gas'][g]
        for l in net.liq:
            x[l] = case['liq'][l]
        for s in net.sites:
            x[s] = case['sites'][s] - sum(v for a, v in zip(ads, y) if net.site_of[a] == s)
        out = np.zeros(len(ads))
        for i in range(len(net.rxns)):
            a, b = kf[i], kr[i]
            for k, n in net.lhs[i].items():
                a *= x[k]**n
            for k, n in net.rhs[i].items():
                b *= x[k]**n
            for j, name in enumerate(ads):
                out[j] += net.net[i].get(name, 0)*(a - b)
        return out
    end = max(times)
    if end == t0:
        return [list(y0) for _ in times]
    r = solve_ivp(f, (t0, end), y0, method='LSODA', rtol=1e-10, atol=1e-13, t_eval=sorted(set(times)))
    assert r.success
    table = {t: r.y[:, i] for i, t in enumerate(sorted(set(times)))}
    return [table[t] for t in times]


def steps(t0, end, span):
    out, t = [], t0
    while t < end:
        t = t + span
        out.append(t)
    return out


def t_integrate(case, ctx):
    net = ref.Net(case)
    if not net.ads:
        return
    over = dict(decimal_precision=30, ode_output_interval=case['interval'])
    if case['abs']:
        m = ref.bare(case, parser='AbsoluteEnergyParser', **over)
        with open('abs_in.py', 'w') as f:
            f.write('absolute_energies = %r\n' % (case['abs'],))
        m.parser.parse_data(filename='abs_in.py')
        m.solver.get_data()
        ctx.label('absolute energies')
    else:
        m = ref.model(case, **over)
    t0 = case['start'] or 0.0
    end = t0 + case['length']
    kw = dict(time_end=end, time_span=case['span'])
    if case['algo']:
        kw['algo'] = case['algo']
    if case['start'] is not None:
        kw['time_start'] = t0
    if case['traj']:
        kw['traj_output'] = True
    y0 = [case['cvgs'][a] for a in net.ads]
    if case['default']:
        y0 = [0.0]*len(net.ads)
        if case['abs']:
            kT = ref.KB*case['T']
            low = min(case['abs'].values())
            w = {n: math.exp((low - case['abs'][n])/kT) for n in net.ads + net.sites}
            y0 = [w[a]/sum(w.values()) for a in net.ads]
            if any(sum(v for a, v in zip(net.ads, y0) if net.site_of[a] == s) > case['sites'][s] for s in net.sites):
                ctx.label('Boltzmann start above a site total')
                return
    else:
        kw['initial_cvgs'] = tuple(y0)
    pair = (case['Ga'], case['dG'])
    if case['alt'] is not None:
        pair = case['alt']
        f, r, d = net.relative(*pair)
        kw['relative_energies'] = dict(Gaf=f, Gar=r, dG=d)
    t, y = m.solver.solve_ode(**kw)
    expected = steps(t0, end, case['span'])
    ctx.label(case['algo'] or 'default')
    check(end <= t, 'integration to %s ended at %s', end, t)
    check(t < end + case['span']*1.001, 'integration to %s ended at %s', end, t)
    check(len(y) == len(net.ads), '%d coverages for %d adsorbates', len(y), len(net.ads))
    times, cvgs = [], []
    if case['traj']:
        loc = {}
        with open('auto_ode_coverages.py') as f:
            exec(f.read(), {}, loc)
        times, cvgs = loc['times'], loc['coverages']
        check(len(times) == len(cvgs), '%d times and %d coverages in the trajectory', len(times), len(cvgs))
        check(len(times) == len(expected)//case['interval'], '%d records of %d steps, interval %d',
              len(times), len(expected), case['interval'])
        want = expected[case['interval']-1::case['interval']]
        for a, b in zip(times, want):
            check(abs(a - b) < 1e-6, 'record at time %s, expected %s', a, b)
        check(all(a < b for a, b in zip(times, times[1:])), 'times do not increase: %r', times)
        if want and len(expected) % case['interval'] == 0:
            # the last step is recorded: it is the returned one, to all digits
            ctx.label('last step recorded')
            check(ref.close(times[-1], t, 1e-9), 'last record at %s, integration ended at %s', times[-1], t)
            for a, g, w in zip(net.ads, cvgs[-1], y):
                check(ref.close(g, w, 1e-9, tiny=1e-18), 'last record of %s is %r, returned %r', a, g, w)
    ctx.label('records', len(times))
    wanted = solution(net, net.relative(*pair), y0, list(times) + [t], t0)
    for when, got, want in zip(list(times) + [t], list(cvgs) + [y], wanted):
        check(len(got) == len(net.ads), '%d coverages at %s', len(got), when)
        for a, g, w in zip(net.ads, got, want):
            check(abs(g - w) <= ACC, 'coverage of %s at %s is %s, expected %s', a, when, g, w)
            check(g >= -ACC, 'coverage of %s at %s is %s', a, when, g)
        for s in net.sites:
            tot = sum(g for a, g in zip(net.ads, got) if net.site_of[a] == s)
            check(tot <= case['sites'][s] + ACC, 'coverages of %s at %s sum to %s', s, when, tot)
    ctx.nontrivial(any(abs(a - b) > 1e-3 for a, b in zip(y, y0)))


@st.composite
def steady_cases(draw):
    case = draw(c14.solvable())
    case['Ga'], case['dG'] = draw(energies(len(case['rxns']), case['T']))
    case['algo'] = draw(st.sampled_from(['lsoda', 'vode', 'dopri5']))
    case['length'] = draw(gen.nice(0.1, 5, 1))
    return case


def t_steady(case, ctx):
    net = ref.Net(case)
    want = c14.analytical(case, net)
    y0 = [float(want[a]) for a in net.ads]
    m = ref.model(case, decimal_precision=30)
    t, y = m.solver.solve_ode(algo=case['algo'], time_end=case['length'], time_span=0.1, initial_cvgs=tuple(y0))
    ctx.nontrivial(len(net.ads) > 1)
    for a, b, c in zip(net.ads, y0, y):
        check(abs(b - c) <= 1e-6, 'steady coverage of %s drifts from %s to %s', a, b, c)


@st.composite
def stiff_cases(draw):
    case = draw(st.one_of(c14.solvable(), gen.kinetic_cases()))
    case['cvgs'] = draw(gen.coverages(case))
    case['empty'] = draw(st.booleans())
    case['algo'] = draw(st.sampled_from([None, 'lsoda', 'lsoda', None, None, 'lsoda', None, 'vode']))
    case['span'] = draw(st.sampled_from([0.01, 0.1, 1.0]))
    case['count'] = draw(st.integers(1, 40))
    case['interval'] = draw(st.integers(1, 7))
    case['alt'] = draw(st.one_of(st.none(), gen.energies(len(case['rxns']))))
    return case


def t_stiff(case, ctx):
    """Rate constants over many orders of magnitude: the integration stops at the end, or before it if it fails."""
    net = ref.Net(case)
    if not net.ads:
        return
    m = ref.model(case, decimal_precision=30, ode_output_interval=case['interval'])
    y0 = [0.0 if case['empty'] else float(case['cvgs'][a]) for a in net.ads]
    kw = {}
    if case['algo']:
        kw['algo'] = case['algo']
    if case['alt'] is not None:
        f, r, d = net.relative(*case['alt'])
        kw['relative_energies'] = dict(Gaf=f, Gar=r, dG=d)
    end = case['count']*case['span']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t, y = m.solver.solve_ode(time_end=end, time_span=case['span'], initial_cvgs=tuple(y0), traj_output=True, **kw)
    ctx.label('complete' if t >= end else 'stopped')
    ctx.nontrivial(any(abs(a - b) > 1e-3 for a, b in zip(y, y0)))
    check(0 <= t < end + case['span']*1.001, 'integration from 0 to %s ended at %s', end, t)
    check(len(y) == len(net.ads), '%d coverages for %d adsorbates', len(y), len(net.ads))
    loc = {}
    # values are not judged here: an integration which diverges may write them as nan or inf
    with open('auto_ode_coverages.py') as f:
        exec(f.read(), {'nan': float('nan'), 'inf': float('inf')}, loc)
    times, cvgs = loc['times'], loc['coverages']
    check(len(times) == len(cvgs), '%d times and %d coverages in the trajectory', len(times), len(cvgs))
    check(all(a <= b for a, b in zip(times, times[1:])), 'times go back: %r', times)
    check(all(0 <= a <= t*(1 + 1e-12) for a in times), 'records at %r, integration from 0 to %s', times, t)
    check(all(len(c) == len(net.ads) for c in cvgs), 'records of %r for %d adsorbates', cvgs, len(net.ads))


@st.composite
def guess_cases(draw):
    case = draw(cases())
    case['count'] = draw(st.sampled_from([0, 1, 5]))
    return case


def t_guess(case, ctx):
    """The default way to new initial coverages: ten seconds of integration from the solver's coverages."""
    net = ref.Net(case)
    if not net.ads:
        return
    m = ref.model(case, decimal_precision=30)
    y = m.hybrid_method(m, case['count'])
    y0 = [0.0]*len(net.ads)
    want = solution(net, net.relative(case['Ga'], case['dG']), y0, [10.0, 10.02], 0.0)
    ctx.nontrivial(any(v > 1e-3 for v in want[0]))
    check(len(y) == len(net.ads), '%d coverages for %d adsorbates', len(y), len(net.ads))
    for a, got, v, w in zip(net.ads, y, *want):
        check(min(v, w) - ACC <= got <= max(v, w) + ACC, 'coverage of %s after ten seconds is %s, expected %s', a, got, v)


TESTS = [Test('guess', guess_cases(), t_guess, 40, 500), Test('stiff', stiff_cases(), t_stiff, 150, 3000), Test('integrate', cases(), t_integrate, 1000, 10000),
         Test('steady', steady_cases(), t_steady, 500, 4000)]
