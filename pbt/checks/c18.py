"""C18: Shomate and statistical-mechanics corrections."""
from math import log

from hypothesis import strategies as st

from pbt import gen, ref, thermo
from pbt.checks.c02 import atoms
from pbt.core import Test, check

RULE = "non-trivial: the gas is tabulated (Shomate: and the temperature is in range or below it)"

CASE = dict(rxns=[[[(1, 'CO', 1, 'g'), (1, '*', 1, 's')], None, [(1, 'CO', 1, 's')]]],
            liq={}, sites={'*_s': 1.0})
SGAS = sorted({g for g, lo, hi in thermo.SHOMATE})
EGAS = sorted(set(thermo.ROT) & set(thermo.VIB))
OTHER = ['Ne_g', 'F2_g', 'CH3_g', 'HCO_g', 'CO_s', 'O2_s', 'H2_t', 'CO_l', 'H2O_l', '*_s', 'H-O_2s', 'NO_b',
         'C2H2_g', 'CHCl3_g', 'SO2_g', 'H2S_g', 'D2_g', 'Br2_g', 'CS2_g']


def near(a, b, tol=1e-10):
    return abs(a - b) <= tol*max(1e-3, abs(a), abs(b))


@st.composite
def temps(draw, gas=None):
    edges = sorted({x for (g, lo, hi) in thermo.SHOMATE if g == gas for x in (lo, hi)})
    if edges and draw(st.integers(0, 2)) == 0:
        e = draw(st.sampled_from(edges))
        return e + draw(st.sampled_from([0.0, 0.5, -0.5, 0.0]))
    return draw(st.one_of(gen.nice(50, 1500, 1), gen.nice(200, 7000, 1)))


@st.composite
def sh_cases(draw):
    gas = draw(st.one_of(st.sampled_from(SGAS), st.sampled_from(SGAS), st.sampled_from(OTHER)))
    return dict(gas=gas, T=draw(temps(gas)), Tmodel=draw(temps(gas)))


def t_shomate(case, ctx):
    gas, T = case['gas'], case['T']
    m = ref.bare(dict(CASE, gas={'CO_g': 1.0}, T=case['Tmodel']))
    is_gas = gas.endswith('_g')
    want = thermo.shomate(gas, T) if is_gas else 0.0
    ctx.nontrivial(want != 0.0)
    ctx.label('tabulated' if want else 'no correction')
    got = m.corrector.shomate_correction(gas, T)
    check(near(got, want), 'Shomate correction of %s at %s K is %r, expected %r', gas, T, got, want)
    got = m.corrector.shomate_correction(gas, T=T)
    check(near(got, want), 'Shomate correction of %s at %s K is %r, expected %r', gas, T, got, want)
    want = thermo.shomate(gas, case['Tmodel']) if is_gas else 0.0
    got = m.corrector.shomate_correction(gas)
    check(near(got, want), "Shomate correction of %s at the model's %s K is %r, expected %r",
          gas, case['Tmodel'], got, want)


@st.composite
def en_cases(draw):
    gas = draw(st.one_of(st.sampled_from(EGAS), st.sampled_from(EGAS), st.sampled_from(EGAS), st.sampled_from(OTHER)))
    return dict(gas=gas, T=draw(gen.nice(60, 3000, 1)), Tmodel=draw(gen.nice(60, 3000, 1)),
                p=draw(st.one_of(gen.nice(0.001, 5), gen.nice(1, 1e6, 1))), pmodel=draw(gen.nice(0.001, 20)),
                amu=draw(gen.nice(1, 300, 2)),
                give=draw(st.tuples(st.booleans(), st.booleans(), st.booleans())))


def t_entropy(case, ctx):
    gas, T, p, m = case['gas'], case['T'], case['p'], case['amu']*ref.AMU
    known = gas.endswith('_g') and gas in thermo.ROT and gas in thermo.VIB
    ctx.nontrivial(known)
    setup = dict(CASE, gas={'CO_g': 1.0}, T=case['Tmodel'])
    name = gas.split('_')[0]
    weighable = known and all(e in thermo.MASS for e in atoms(name))
    if gas.endswith('_g'):
        setup['gas'][gas] = case['pmodel']
    model = ref.bare(setup)
    f = model.corrector.entropy_correction
    if not known:
        ctx.label('not in the database')
        for args in ((gas,), (gas, m), (gas, m, p), (gas, m, p, T)):
            got = f(*args)
            check(got == 0.0, 'entropy correction of %s is %r', gas, got)
        return
    ctx.label('linear' if len(thermo.ROT[gas][1]) == 1 else 'nonlinear')
    base = f(gas, m, p, T)
    want = thermo.entropy(gas, m, p, T)
    check(near(base, want), 'entropy correction of %s (m=%s, p=%s, T=%s) is %r, expected %r', gas, m, p, T, base, want)
    # scaling laws
    kT2 = ref.KB*T*log(2)
    got = f(gas, m, 2*p, T)
    check(near(got - base, kT2, 1e-8), 'doubling the pressure changes %r by %r, not by kT ln2 = %r', base, got - base, kT2)
    got = f(gas, 2*m, p, T)
    check(near(got - base, -1.5*kT2, 1e-8), 'doubling the mass changes %r by %r, not by -1.5 kT ln2', base, got - base)
    # defaults
    gm, gp, gT = case['give']
    gm = gm or not weighable
    kw, use = {}, {}
    use['m'] = m if gm else thermo.mass_of(atoms(name))*ref.AMU
    use['p'] = p if gp else ref.P0*case['pmodel']
    use['T'] = T if gT else case['Tmodel']
    if gm:
        kw['m'] = m
    if gp:
        kw['p'] = p
    if gT:
        kw['T'] = T
    ctx.label('defaults used: %d' % (3 - len(kw)))
    got, want = f(gas, **kw), thermo.entropy(gas, **use)
    check(near(got, want), 'entropy correction of %s with %r given is %r, expected %r', gas, kw, got, want)
    got = f(gas, m, p, T)
    check(got == base, 'second call gives %r instead of %r', got, base)


TESTS = [Test('shomate', sh_cases(), t_shomate, 3000, 60000),
         Test('entropy', en_cases(), t_entropy, 3000, 60000)]
