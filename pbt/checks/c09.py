"""C09: collision theory."""
from hypothesis import strategies as st

from pbt import gen, ref, thermo
from pbt.checks.c02 import atoms
from pbt.core import Test, Violation, check

RULE = ("non-trivial: (function) barrier and mass not at their defaults; (reaction) the reaction "
        "has a gas on one side")


@st.composite
def fcases(draw):
    return dict(E=draw(gen.nice(0, 2)), A=draw(gen.nice(0.1, 50)), r=draw(gen.nice(0.01, 1.0, 2)),
                m=draw(gen.nice(1, 300, 2)), T=draw(gen.nice(100, 2000, 1)), p=draw(st.one_of(st.none(), gen.nice(0.1, 1e6, 1))),
                f=draw(st.one_of(st.none(), gen.nice(0.01, 1.0, 2))), over=draw(gen.nice(1.01, 5, 2)),
                up=draw(gen.nice(0.01, 0.5)), c=draw(st.sampled_from([2, 3, 10])))


def t_function(case, ctx):
    from scaks.solvers.solver_base import SolverBase
    E, A, r, m, T = case['E'], case['A']*1e-20, case['r'], case['m']*ref.AMU, case['T']
    kw = {}
    if case['p'] is not None:
        kw['p'] = case['p']
    if case['f'] is not None:
        kw['f'] = case['f']
    ctx.nontrivial(E > 0 and bool(kw))
    k = SolverBase.get_kCT
    got = k(E, A, r, m, T, **kw)
    want = thermo.kct(E, A, r, m, T, **kw)
    check(ref.close(got, want, 1e-9), 'collision rate is %r, expected %r', got, want)
    c, p = case['c'], kw.get('p', ref.P0)

    def rat(x, y):
        return ref.close(x, y, 1e-9)
    rest = {q: v for q, v in kw.items() if q != 'p'}
    check(rat(k(E, A, r, m, T, p=p*c, **rest), c*got), 'rate is not proportional to the pressure')
    check(rat(k(E, A*c, r, m, T, **kw), c*got), 'rate is not proportional to the area')
    check(rat(k(E, A, r, m*c*c, T, **kw), got/c), 'rate does not fall with the root of the mass')
    check(rat(k(E, A, r/c, m, T, **kw), got/c), 'rate is not proportional to the active ratio')
    up = k(E + case['up'], A, r, m, T, **kw)
    check(up < got or got == 0, 'rate does not fall with the barrier: %r -> %r', got, up)
    if got > 1e-280:
        Ga = SolverBase.get_TST_barrier_from_CT(got, T)
        back = ref._ctx.exp(-ref.mpf(Ga)/(ref.mpf(ref.KB)*ref.mpf(T)))*ref.mpf(ref.KB)*ref.mpf(T)/ref.mpf(ref.H)
        check(ref.close(back, got, 1e-8), 'equivalent barrier %r gives back %s instead of %r', Ga, back, got)
    for bad in (dict(act_ratio=case['over']), dict(f=case['over'])):
        args = dict(Ea=E, Auc=A, act_ratio=r, m=m, T=T)
        args.update(kw)
        args.update(bad)
        try:
            got = k(**args)
        except Exception:
            continue
        raise Violation('%r accepted: %r' % (bad, got))


GASES = [(('C', 1), ('O', 1)), (('O', 2),), (('H', 2),), (('N', 2),), (('N', 1), ('O', 1)), (('H', 1),), (('O', 1),),
         (('N', 1),), (('C', 1),)]


@st.composite
def rcases(draw):
    comps = draw(st.lists(st.sampled_from(GASES), min_size=1, max_size=3, unique=True))
    sites = draw(st.lists(st.sampled_from(gen.SITES), min_size=1, max_size=2, unique=True))
    rxns, seen = [], set()
    for _ in range(draw(st.integers(1, 4))):
        r = draw(gen.reaction(None, sites, comps))
        if gen.rxn_str(r) in seen or gen.trivial(r):
            continue
        seen.add(gen.rxn_str(r))
        rxns.append(r)
    if not rxns:
        rxns = [[[(1, 'CO', 1, 'g'), (1, '*', 1, 's')], None, [(1, 'CO', 1, 's')]]]
    case = draw(gen.conditions(rxns, zero=False))
    case['Ga'], case['dG'] = draw(gen.energies(len(rxns)))
    case['alt'] = draw(gen.energies(len(rxns)))
    case.update(area=draw(gen.nice(1, 50, 2)), ratio=draw(gen.nice(0.05, 1.0, 2)),
                solver=draw(st.sampled_from(['mkm', 'kmc'])))
    return case


def expected(net, case, i, E, with_p):
    """(forward, reverse) rate of reaction i."""
    T = case['T']
    r = net.rxns[i]
    gaf, gar, dg = E['Gaf'][i], E['Gar'][i], E['dG'][i]
    left = [sp for sp in r[0] if sp[3] == 'g']
    right = [sp for sp in r[2] if sp[3] == 'g']
    if not left and not right:
        return net.k_of(gaf), net.k_of(gar), 'no gas'
    coef, name, _, _ = (left or right)[0]
    gas = name + '_g'
    m = thermo.mass_of(atoms(name))*ref.AMU
    p = ref.P0*(case['gas'][gas] if with_p else 1.0)
    s = thermo.entropy(gas, m, p, T)
    if left:
        mp = ref._ctx
        f = (mp.mpf(case['ratio'])*mp.exp(-mp.mpf(gaf)/(mp.mpf(ref.KB)*mp.mpf(T)))*mp.mpf(p)*mp.mpf(case['area'])*mp.mpf('1e-20')
             / mp.sqrt(2*mp.pi*mp.mpf(m)*mp.mpf(ref.KB_J)*mp.mpf(T)))
        barrier = -mp.log(f*mp.mpf(ref.H)/(mp.mpf(ref.KB)*mp.mpf(T)))*mp.mpf(ref.KB)*mp.mpf(T)
        back = barrier - (dg - coef*s)
        if back < 0:
            back = 0
        return f, net.k_of(back), 'adsorption'
    return net.k_of(gaf), net.k_of(gar - coef*s), 'desorption'


def t_reaction(case, ctx):
    net = ref.Net(case)
    over = dict(unitcell_area=case['area']*1e-20, active_ratio=case['ratio'], rate_algo='CT')
    m = ref.model(case, **over) if case['solver'] == 'mkm' else ref.kmc_model(case, **over)
    ctx.label(case['solver'])
    for pair in ((case['Ga'], case['dG']), case['alt'], (case['Ga'], case['dG'])):
        f, r, d = net.relative(*pair)
        E = dict(Gaf=f, Gar=r, dG=d)
        before = repr(E)
        for with_p in (False, True):
            for i, e in enumerate(net.exprs):
                wf, wr, kind = expected(net, case, i, E, with_p)
                ctx.nontrivial(kind != 'no gas')
                ctx.label(kind)
                gf, gr = m.solver.get_rxn_rates_CT(e, E, include_pressure=with_p)
                check(ref.close(gf, wf, 1e-8), '%s: forward rate is %s, expected %s (%s, pressure %s)', e, gf, wf, kind, with_p)
                check(ref.close(gr, wr, 1e-7), '%s: reverse rate is %s, expected %s (%s, pressure %s)', e, gr, wr, kind, with_p)
        if case['solver'] == 'mkm':
            kf, kr = m.solver.get_rate_constants(relative_energies=E)
            for i, e in enumerate(net.exprs):
                wf, wr, kind = expected(net, case, i, E, False)
                check(ref.close(kf[i], wf, 1e-8), '%s: forward rate constant %s, expected %s', e, kf[i], wf)
                check(ref.close(kr[i], wr, 1e-7), '%s: reverse rate constant %s, expected %s', e, kr[i], wr)
        check(repr(E) == before, 'the given energies were modified')


@st.composite
def badcases(draw):
    case = draw(rcases())
    case['kind'] = draw(st.sampled_from(['area', 'ratio']))
    case['value'] = draw(st.sampled_from([0.0, -1e-19, -1.0])) if case['kind'] == 'area' else draw(gen.nice(1.01, 4, 2))
    return case


def t_refuse(case, ctx):
    net = ref.Net(case)
    over = dict(unitcell_area=case['area']*1e-20, active_ratio=case['ratio'], rate_algo='CT')
    over['unitcell_area' if case['kind'] == 'area' else 'active_ratio'] = case['value']
    adsorption = [e for e, r in zip(net.exprs, net.rxns) if any(sp[3] == 'g' for sp in r[0])]
    if case['kind'] == 'ratio' and not adsorption:
        return
    ctx.nontrivial()
    ctx.label(case['kind'])
    f, r, d = net.relative()
    try:
        m = ref.model(case, **over) if case['solver'] == 'mkm' else ref.kmc_model(case, **over)
        got = m.solver.get_rxn_rates_CT((adsorption or net.exprs)[0], dict(Gaf=f, Gar=r, dG=d))
    except Exception:
        return
    raise Violation('%s %r accepted, rates %r' % (case['kind'], case['value'], got))


TESTS = [Test('function', fcases(), t_function, 3000, 60000),
         Test('reaction', rcases(), t_reaction, 1500, 30000),
         Test('refuse', badcases(), t_refuse, 400, 4000)]
