"""C07: Eyring rate constants in detailed balance."""
import mpmath
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Test, Violation, check

RULE = ("non-trivial: barriers are not all equal, or (pressures) a gas with a coefficient above "
        "one or two gases in one state")


@st.composite
def cases(draw):
    case = draw(gen.kinetic_cases(max_rxns=4))
    case['T'] = draw(gen.nice(100, 2000, 2))
    n = len(case['rxns'])
    case['alt'] = draw(gen.energies(n))
    case['raise'] = (draw(st.integers(0, n-1)), draw(gen.nice(0.01, 0.5)))
    case['solver'] = draw(st.sampled_from(['mkm', 'mkm', 'kmc']))
    case['order'] = draw(st.permutations(['own', 'alt', 'own2', 'raised']))
    return case


def mk(case):
    if case['solver'] == 'mkm':
        return ref.model(case)
    return ref.kmc_model(case)


def rel(case, ga, dg):
    f, r, d = ref.Net(case).relative(ga, dg)
    return dict(Gaf=f, Gar=r, dG=d)


def ok(a, b, ctx_rel=1e-9):
    return ref.close(a, b, ctx_rel)


def rates(m, case, E, explicit):
    """All rate constants through every public way."""
    out = []
    if case['solver'] == 'mkm':
        kf, kr = m.solver.get_rate_constants(relative_energies=E) if explicit else m.solver.get_rate_constants()
        check(len(kf) == len(kr) == len(case['rxns']), '%d rate constants', len(kf))
        out.append((list(kf), list(kr)))
    src = E if explicit else m.relative_energies
    pairs = [m.solver.get_rxn_rates_TST(gen.rxn_str(r), src) for r in case['rxns']]
    out.append(([p[0] for p in pairs], [p[1] for p in pairs]))
    return out


def t_rates(case, ctx):
    net = ref.Net(case)
    m = mk(case)
    ctx.label(case['solver'])
    T = case['T']
    own = rel(case, case['Ga'], case['dG'])
    alt = rel(case, *case['alt'])
    ctx.nontrivial(len(set(own['Gaf'] + own['Gar'])) > 1)
    i, up = case['raise']
    raised = {k: list(v) for k, v in own.items()}
    raised['Gaf'][i] += up
    raised['Gar'][i] += up
    seen = {}
    for which in case['order']:
        E = dict(own=own, own2=own, alt=alt, raised=raised)[which]
        explicit = which != 'own'
        for kf, kr in rates(m, case, E, explicit):
            for j in range(len(net.rxns)):
                for got, barrier, d in ((kf[j], E['Gaf'][j], 'forward'), (kr[j], E['Gar'][j], 'reverse')):
                    want = net.k_of(barrier)
                    check(ok(got, want), '%s rate constant of %s at %s K, barrier %s is %s, expected %s',
                          d, net.exprs[j], T, barrier, got, want)
                if kr[j] != 0 and kf[j] != 0 and float(kr[j]) > 1e-290:
                    K = ref._ctx.exp(-ref.mpf(E['dG'][j])/(ref.mpf(ref.KB)*ref.mpf(T)))
                    check(ok(ref.mpf(kf[j])/ref.mpf(kr[j]), K), 'kf/kr of %s is %s, exp(-dG/kT) is %s',
                          net.exprs[j], kf[j]/kr[j], K)
            seen[which] = (kf, kr)
    for d in (0, 1):
        for j in range(len(net.rxns)):
            a, b = seen['own'][d][j], seen['raised'][d][j]
            if j == i:
                check(b < a or a == 0, 'rate constant does not fall with the barrier')
            else:
                check(ok(a, b), 'rate constant of an untouched reaction changes')
    for E in (0.0, up, case['Ga'][0]):
        check(ok(m.solver.get_kTST(E, T), net.k_of(E)), 'get_kTST(%s, %s)', E, T)
        check(ok(m.solver.get_kTST(E, T*1.5), net.k_of(E, T*1.5)), 'get_kTST at another temperature')


def t_pressure(case, ctx):
    net = ref.Net(case)
    m = mk(case)
    ctx.label(case['solver'])
    own = rel(case, case['Ga'], case['dG'])
    alt = rel(case, *case['alt'])
    for E in (own, alt):
        for j, r in enumerate(net.rxns):
            got = m.solver.get_rxn_rates_TST(net.exprs[j], E, include_pressure=True)
            for g, barrier, side, d in ((got[0], E['Gaf'][j], net.lhs[j], 'forward'),
                                        (got[1], E['Gar'][j], net.rhs[j], 'reverse')):
                p = ref.mpf(1)
                gases = [(k, c) for k, c in side.items() if k in net.gas]
                for k, c in gases:
                    p *= ref.mpf(case['gas'][k])**c
                ctx.nontrivial(len(gases) > 1 or any(c > 1 for k, c in gases))
                want = net.k_of(barrier)*p
                check(ref.close(g, want), '%s rate of %s with pressures is %s, expected %s', d, net.exprs[j], g, want)
            got = m.solver.get_rxn_rates_TST(net.exprs[j], E)
            check(ok(got[0], net.k_of(E['Gaf'][j])), 'rate without pressures')


TESTS = [Test('rates', cases(), t_rates, 2000, 40000),
         Test('pressure', cases(), t_pressure, 1500, 30000)]
