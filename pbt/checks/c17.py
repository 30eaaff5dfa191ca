"""C17: degrees of rate control."""
import os
import pickle

import mpmath
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks.c10 import energies_dict
from pbt.core import Test, Violation, check

RULE = "non-trivial: at least two reactions have a degree of rate control above 0.01"
ASSUMPTIONS = ["steady states are solved to 1e-25 with 50 digits so that differences are meaningful"]
ISOMERS = ['HNO', 'HON', 'NHO', 'NOH', 'OHN']


@st.composite
def cycles(draw):
    """Networks with a steady turnover."""
    kind = draw(st.sampled_from(['chain', 'chain', 'branched', 'oxidation', 'dimer', 'er', 'twosites']))
    s = draw(st.sampled_from(['s', 't']))
    f = (1, '*', 1, s)
    if kind in ('chain', 'branched'):
        n = draw(st.integers(1, 4))
        names = ISOMERS[:n]
        rxns = [[[(1, names[0], 1, 'g'), f], None, [(1, names[0], 1, s)]]]
        for a, b in zip(names, names[1:]):
            rxns.append([[(1, a, 1, s)], None, [(1, b, 1, s)]])
        rxns.append([[(1, names[-1], 1, s)], None, [(1, 'NHO' if names[-1] == 'HNO' else names[-1], 1, 'g'), f]])
        if n == 1:
            rxns[-1] = [[(1, 'HNO', 1, s)], None, [(1, 'OHN', 1, 'g'), f]]
        if kind == 'branched':
            a = draw(st.sampled_from(names))
            rxns.append([[(1, a, 1, s)], None, [(1, 'ONH', 1, 'g'), f]])
    elif kind == 'oxidation':
        rxns = [[[(1, 'CO', 1, 'g'), f], None, [(1, 'CO', 1, s)]],
                [[(1, 'O2', 1, 'g'), (2, '*', 1, s)], None, [(2, 'O', 1, s)]],
                [[(1, 'CO', 1, s), (1, 'O', 1, s)], None, [(1, 'CO2', 1, 'g'), (2, '*', 1, s)]]]
    elif kind == 'dimer':
        rxns = [[[(1, 'N', 1, 'g'), f], None, [(1, 'N', 1, s)]],
                [[(2, 'N', 1, s)], None, [(1, 'N2', 1, 'g'), (2, '*', 1, s)]]]
    elif kind == 'er':
        rxns = [[[(1, 'O2', 1, 'g'), (2, '*', 1, s)], None, [(2, 'O', 1, s)]],
                [[(1, 'CO', 1, 'g'), (1, 'O', 1, s)], None, [(1, 'CO2', 1, 'g'), f]]]
    else:
        rxns = [[[(1, 'CO', 1, 'g'), (1, '*', 1, 's')], None, [(1, 'CO', 1, 's')]],
                [[(1, 'O2', 1, 'g'), (2, '*', 1, 't')], None, [(2, 'O', 1, 't')]],
                [[(1, 'CO', 1, 's'), (1, 'O', 1, 't')], None, [(1, 'CO2', 1, 'g'), (1, '*', 1, 's'), (1, '*', 1, 't')]]]
    rxns = [r[::-1] if draw(st.integers(0, 3)) == 0 else r for r in rxns]
    rxns = list(draw(st.permutations(rxns)))
    case = draw(gen.conditions(rxns, zero=False))
    case['T'] = draw(gen.nice(400, 900, 1))

    def barriers():
        if draw(st.integers(0, 2)) == 0:
            # strongly endothermic and exothermic steps
            dG = [draw(gen.nice(-1.8, 1.8)) for _ in rxns]
            return [round(max(d, 0) + draw(gen.nice(0.0, 0.8)), 6) for d in dG], dG
        if draw(st.integers(0, 2)) == 0:
            # states between the ends: barriers may be below either of them
            dG = [draw(gen.nice(-0.5, 0.5)) for _ in rxns]
            return [round(max(d, 0) + draw(gen.nice(-0.2, 0.6)), 6) for d in dG], dG
        dG = [draw(gen.nice(-0.4, 0.4)) for _ in rxns]
        return [round(max(d, 0) + draw(gen.nice(0.3, 0.8)), 6) for d in dG], dG
    case['Ga'], case['dG'] = barriers()
    case['alt'] = barriers() if draw(st.booleans()) else None
    case['eps'] = draw(st.sampled_from([1e-4, 1e-5, 3e-4]))
    case['give'] = draw(st.booleans())
    case['gasno'] = draw(st.integers(0, 5))
    return case


def newton(net, kf, kr, start):
    """Root of the coverage equations near start."""
    mp = ref._ctx
    y = [ref.mpf(v) for v in start]
    for _ in range(60):
        x = net.activities(dict(zip(net.ads, y)))
        rf, rr = net.rates(kf, kr, x)
        d, scale = net.dtheta(rf, rr)
        J, _ = net.jacobian(kf, kr, x)
        step = mp.lu_solve(mp.matrix(J), mp.matrix(d))
        y = [a - b for a, b in zip(y, step)]
        if max(abs(v) for v in step) < ref.mpf(10)**-38:
            break
    else:
        return None, None, None
    x = net.activities(dict(zip(net.ads, y)))
    if min(y) < 0 or min(x[s] for s in net.sites) < 0:
        return None, None, None
    return (y,) + tuple(net.rates(kf, kr, x))


def snapshot(m):
    data = {}
    if os.path.exists(m.data_file):
        with open(m.data_file, 'rb') as f:
            data = pickle.load(f)
    return (tuple(m.solver.coverages), m.solver.error, repr(m.relative_energies), repr(sorted(data.items(), key=lambda q: q[0])))


class GiveUp(Exception):
    pass


def t_xrc(case, ctx):
    net = ref.Net(case)
    m = ref.model(case, decimal_precision=50, tolerance=1e-25, perturbation_size=case['eps'],
                  archived_variables=['steady_state_coverages', 'steady_state_error', 'initial_guess', 'rates', 'net_rates', 'tofs'])

    def hybrid(model, n):
        raise GiveUp()
    m.hybrid_method_register(hybrid)
    pair = case['alt'] or (case['Ga'], case['dG'])
    e = energies_dict(net, pair)
    kw = {'relative_energies': e} if case['alt'] else {}
    sites = {s: 1 + sum(net.site_of[a] == s for a in net.ads) for s in net.sites}
    start = [mpmath.mpf(case['sites'][net.site_of[a]])/sites[net.site_of[a]] for a in net.ads]
    kf, kr = net.rate_constants(e['Gaf'], e['Gar'])
    try:
        # a short integration brings the start close to the physical root
        y0, _, _ = newton(net, kf, kr, start)
        got = m.solver.get_steady_state_cvgs(c0=start, **kw)
    except (GiveUp, ZeroDivisionError):
        ctx.label('no steady state')
        return
    if got is None or y0 is None:
        ctx.label('no steady state')
        return
    y, rf, rr = newton(net, kf, kr, got)
    if y is None:
        ctx.label('no reference')
        return
    gas = net.gas[case['gasno'] % len(net.gas)]
    r, scale = net.tof(gas, rf, rr)
    # the steady state is solved to residuals of 1e-25: a turnover has to be far above that
    if abs(r) < 1e-5*scale or abs(r) < 1e-18:
        ctx.label('no turnover')
        return
    want = []
    for i in range(len(net.rxns)):
        f = [g + (case['eps'] if i == j else 0) for j, g in enumerate(e['Gaf'])]
        b = [g + (case['eps'] if i == j else 0) for j, g in enumerate(e['Gar'])]
        k1, k2 = net.rate_constants(f, b)
        z, f1, r1 = newton(net, k1, k2, y)
        if z is None:
            ctx.label('no reference')
            return
        want.append(kf[i]/r*(net.tof(gas, f1, r1)[0] - r)/(k1[i] - kf[i]))
    args = dict(kw)
    if case['give']:
        args['epsilon'] = mpmath.mpf(case['eps'])
    ctx.label('explicit energies' if case['alt'] else 'own energies')
    if max(abs(d) for d in e['dG']) > 1.0:
        ctx.label('large reaction energy')
    before = snapshot(m)
    text = repr(e)
    try:
        got = m.solver.get_single_XRC(gas, **args)
    except GiveUp:
        # the damped iteration creeps along a stiff manifold: no answer here
        ctx.label('perturbed iteration gives up')
        return
    check(len(got) == len(want), '%d degrees of rate control for %d reactions', len(got), len(want))
    ctx.nontrivial(sum(abs(w) > 0.01 for w in want) > 1)
    for i, (g, w) in enumerate(zip(got, want)):
        check(abs(ref.mpf(g) - w) <= 2e-3*max(1, abs(w)), 'degree of rate control of %s for %s is %s, expected %s',
              net.exprs[i], gas, g, w)
    # the sum rule holds for infinitesimal perturbations
    finite = abs(sum(want) - 1)
    check(abs(sum(ref.mpf(g) for g in got) - 1) <= 0.02*max(1, max(abs(w) for w in want)) + 2*finite,
          'degrees of rate control of %s sum to %s', gas, sum(got))
    after = snapshot(m)
    for name, a, b in zip(('coverages', 'error', 'relative energies', 'archive'), before, after):
        if name == 'archive':
            continue
        check(a == b, '%s changed from %s to %s', name, a, b)
    check(repr(e) == text, 'the given energies were changed')
    # the archive describes the unperturbed model
    with open(m.data_file, 'rb') as f:
        data = pickle.load(f)
    check([float(v) for v in data['steady_state_coverages']] == [float(v) for v in before[0]],
          'archived steady state coverages are %r', data['steady_state_coverages'])
    for key, i in (('rates', 0), ('tofs', 1)):
        if key in data and key == 'tofs':
            names = net.gas + net.liq
            for n, v in zip(names, data['tofs']):
                w, sc = net.tof(n, rf, rr)
                check(abs(ref.mpf(v) - w) <= 1e-9*sc, 'archived TOF of %s is %s, expected %s', n, v, w)
        if key in data and key == 'rates':
            for v, w in zip(data['rates'][0], rf):
                check(ref.close(v, w, 1e-9), 'archived forward rate %s, expected %s', v, w)
    again = m.solver.get_single_XRC(gas, **args)
    for g, h in zip(got, again):
        check(g == h, 'second computation gives %s instead of %s', h, g)


@st.composite
def bad_cases(draw):
    return draw(cycles())


def t_refuse(case, ctx):
    net = ref.Net(case)
    m = ref.model(case, decimal_precision=50)
    ctx.nontrivial()
    try:
        got = m.solver.get_single_XRC(net.gas[0])
    except Exception:
        return
    raise Violation('degrees of rate control without a steady state: %r' % (got,))


TESTS = [Test('xrc', cycles(), t_xrc, 780, 5000),
         Test('refuse', bad_cases(), t_refuse, 180, 500)]
