"""C03: reverting swaps the ends and nothing else."""
from collections import Counter

from hypothesis import strategies as st

from pbt import gen
from pbt.checks.c02 import balanced, edit
from pbt.core import Test, check

RULE = "non-trivial: left and right state of the reaction are different"


@st.composite
def cases(draw):
    rxns = draw(gen.networks(max_rxns=1, multisite=True, max_mult=3))
    r = rxns[0]
    if draw(st.integers(0, 3)) == 0:
        r = draw(edit(r))
    pad = draw(st.sampled_from(['', ' ', '  ']))
    return dict(rxn=r, pad=pad)


def content(state):
    return [(f.stoichiometry(), f.species(), f.nsite(), f.site()) for f in state]


def gases(fs):
    c = Counter()
    for f in fs:
        c[f.species_site()] += f.stoichiometry()
    return dict(c)


def passes(rxn):
    try:
        rxn.check_conservation()
        return True
    except Exception:
        return False


def t_revert(case, ctx):
    from scaks.parsers.rxn_parser import RxnEquation
    r = case['rxn']
    e = case['pad'] + gen.rxn_str(r) + case['pad']
    states = [[tuple(sp) for sp in s] for s in r if s]
    ctx.nontrivial(states[0] != states[-1])
    ctx.label('with transition state' if r[1] else 'without transition state')
    rxn = RxnEquation(e)
    rev = rxn.revert()
    check(isinstance(rev, RxnEquation), 'revert gives %r', type(rev))
    got = [content(s) for s in rev.to_formula_list()]
    check(got == states[::-1], 'reverse of %s is %s', e, rev.rxn_equation())
    check([content(s) for s in rxn.to_formula_list()] == states, 'original changed')
    back = rev.revert()
    check([content(s) for s in back.to_formula_list()] == states, 'reverted twice: %s', back.rxn_equation())
    check(back.texen() == rxn.texen(), 'LaTeX after reverting twice: %s', back.texen())

    def want(state):
        c = Counter()
        for coef, name, n, site in state:
            if site == 'g':
                c[name + '_g'] += coef
        return dict(c)
    for x, first, last in ((rxn, states[0], states[-1]), (rev, states[-1], states[0]), (back, states[0], states[-1])):
        check(gases(x.adsorption_gases()) == want(first), '%s consumes %r, written %r',
              x.rxn_equation(), gases(x.adsorption_gases()), want(first))
        check(gases(x.desorption_gases()) == want(last), '%s produces %r, written %r',
              x.rxn_equation(), gases(x.desorption_gases()), want(last))
    if want(states[0]) or want(states[-1]):
        ctx.label('with gas')
    b = balanced(r)
    check(passes(rxn) == b, '%s balanced: %s, check: %s', e, b, passes(rxn))
    check(passes(rev) == b, 'reverse of %s balanced: %s, check: %s', e, b, passes(rev))


TESTS = [Test('revert', cases(), t_revert, 5000, 100000)]
