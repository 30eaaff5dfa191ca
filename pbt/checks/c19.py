"""C19: correction of relative energies."""
from hypothesis import strategies as st

from pbt import gen, ref, thermo
from pbt.checks.c02 import atoms
from pbt.core import Test, Violation, check

RULE = "non-trivial: some reaction has a tabulated gas in a state"
COMPS = [(('C', 1), ('O', 1)), (('O', 2),), (('H', 2),), (('N', 2),), (('N', 1), ('O', 1)),
         (('C', 1), ('O', 2)), (('H', 2), ('O', 1)), (('C', 1), ('H', 4)), (('O', 1),), (('F', 1),)]


@st.composite
def cases(draw):
    comps = draw(st.lists(st.sampled_from(COMPS), min_size=1, max_size=4, unique=True))
    sites = draw(st.lists(st.sampled_from(gen.SITES), min_size=1, max_size=2, unique=True))
    rxns, seen = [], set()
    for _ in range(draw(st.integers(1, 5))):
        r = draw(gen.reaction(None, sites, comps, max_mult=3))
        if r[1] and draw(st.integers(0, 3)) == 0:
            # a gas waits in the transition state and on both sides
            g = (1, gen.name_of(draw(st.sampled_from(comps))), 1, 'g')
            r = [list(r[0]) + [g], list(r[1]) + [g], list(r[2]) + [g]]
        if gen.rxn_str(r) in seen or gen.trivial(r):
            continue
        seen.add(gen.rxn_str(r))
        rxns.append(r)
    if not rxns:
        rxns = [[[(1, 'CO', 1, 'g'), (1, '*', 1, 's')], None, [(1, 'CO', 1, 's')]]]
    case = draw(gen.conditions(rxns, zero=False))
    case['T'] = draw(gen.nice(120, 1200, 1))
    Ga, dG = draw(gen.energies(len(rxns)))
    # without transition state the barrier is the higher end state
    case['Ga'] = [a if r[1] else max(0.0, d) for r, a, d in zip(rxns, Ga, dG)]
    case['dG'] = dG
    case['method'] = draw(st.sampled_from(['shomate', 'entropy', 'default']))
    case['bad'] = draw(st.sampled_from(['', 'Shomate', 'none', 'entropy ', 'harmonic']))
    return case


def t_correct(case, ctx):
    net = ref.Net(case)
    m = ref.model(case)
    method = case['method']
    ctx.label(method)

    def corr(name):
        gas = name + '_g'
        if method == 'entropy':
            return thermo.entropy(gas, thermo.mass_of(atoms(name))*ref.AMU, ref.P0*case['gas'][gas], case['T'])
        return thermo.shomate(gas, case['T'])

    def shift(state):
        return sum(sp[0]*corr(sp[1]) for sp in state if sp[3] == 'g')
    f, r, d = net.relative()
    E = dict(Gaf=list(f), Gar=list(r), dG=list(d))
    if method == 'default':
        out = m.corrector.correct_relative_energies(E)
    else:
        out = m.corrector.correct_relative_energies(E, method=method)
    for i, rx in enumerate(net.rxns):
        a, b = shift(rx[0]), shift(rx[2])
        t = shift(rx[1]) if rx[1] else None
        ctx.nontrivial(a != 0 or b != 0)
        wd = d[i] + b - a
        if t is None:
            wf = max(0.0, wd)
            ctx.label('two states')
        else:
            wf = f[i] + t - a
            ctx.label('three states')
            if t:
                ctx.label('gas in the transition state')
        if not any(sp[3] == 'g' for s in rx for sp in s or []):
            ctx.label('without gas')
            wf, wd = f[i], d[i]
        gf, gr, gd = out['Gaf'][i], out['Gar'][i], out['dG'][i]
        tol = 1e-9*(1 + abs(a) + abs(b) + abs(t or 0))
        check(abs(gd - wd) <= tol, 'reaction energy of %s corrected from %s to %s, expected %s', net.exprs[i], d[i], gd, wd)
        check(abs(gf - wf) <= tol, 'barrier of %s corrected from %s to %s, expected %s', net.exprs[i], f[i], gf, wf)
        check(abs(gr - (gf - gd)) <= tol, 'reverse barrier of %s is %s, forward barrier - reaction energy is %s',
              net.exprs[i], gr, gf - gd)
    rel = m.relative_energies
    check(list(rel['Gaf']) == f and list(rel['dG']) == d, "the model's own energies changed")
    # locality: the same reaction alone gets the same correction
    if len(net.rxns) > 1:
        k = len(net.rxns)-1
        solo = dict(case, rxns=[net.rxns[k]], Ga=[case['Ga'][k]], dG=[case['dG'][k]])
        sn = ref.Net(solo)
        solo['gas'] = {g: case['gas'][g] for g in sn.gas}
        solo['liq'] = {g: case['liq'][g] for g in sn.liq}
        solo['sites'] = {g: case['sites'][g] for g in sn.sites}
        E1 = dict(Gaf=[f[k]], Gar=[r[k]], dG=[d[k]])
        out1 = ref.model(solo).corrector.correct_relative_energies(E1, method='shomate' if method == 'default' else method)
        for q in ('Gaf', 'Gar', 'dG'):
            check(out1[q][0] == out[q][k], '%s of %s depends on the other reactions', q, net.exprs[k])
    try:
        got = m.corrector.correct_relative_energies(dict(Gaf=list(f), Gar=list(r), dG=list(d)), method=case['bad'])
    except Exception:
        return
    raise Violation('method %r accepted' % case['bad'])


TESTS = [Test('correct', cases(), t_correct, 5000, 50000)]
