"""C29: molecular masses."""
from hypothesis import strategies as st

from pbt import ref
from pbt.core import Test, Violation, check
from pbt.thermo import MASS

RULE = ("non-trivial: (mass, relation) the formula has a group, a multiplier or a two-letter element; (unknown) always")
KNOWN = sorted(MASS)
UNKNOWN = ['B', 'P', 'I', 'K', 'He', 'Ho', 'Hf', 'Co', 'Cu', 'Ce', 'No', 'Na', 'Ni', 'Os', 'Fe', 'Si', 'Sn', 'Pt', 'Ar', 'Xx', 'Z', 'Nh', 'Ch']


# formula = (leading multiplier or None, [terms]); term = (element or formula, number or None)
@st.composite
def formula(draw, elements=tuple(KNOWN), depth=3, lead=True, zero=True):
    number = st.one_of(st.none(), st.integers(1, 9), st.sampled_from([10, 12, 20, 0 if zero else 1]))
    terms = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3, 5]))):
        if depth and draw(st.integers(0, 3)) == 0:
            terms.append((draw(formula(elements, depth - 1, True, zero)), draw(number)))
        else:
            terms.append((draw(st.sampled_from(elements)), draw(number)))
    return (draw(st.sampled_from([None, None, 1, 2, 3, 11])) if lead else None, terms)


def text(f):
    lead, terms = f
    out = '' if lead is None else str(lead)
    for t, n in terms:
        out += (t if isinstance(t, str) else '(%s)' % text(t)) + ('' if n is None else str(n))
    return out


def symbols(f):
    """Elements in the order written, each as often as it counts."""
    lead, terms = f
    out = []
    for t, n in terms:
        out += ([t] if isinstance(t, str) else symbols(t))*(1 if n is None else n)
    return out*(1 if lead is None else lead)


def size(f):
    lead, terms = f
    return (1 if lead is None else lead)*sum((1 if isinstance(t, str) else size(t))*(1 if n is None else n) for t, n in terms)


def mass(f):
    return sum(MASS[e] for e in symbols(f))


def small(strategy):
    return strategy.filter(lambda f: size(f) < 20000)


def interesting(f):
    lead, terms = f
    return lead is not None or any(n is not None or not isinstance(t, str) or len(t) > 1 for t, n in terms)


def verify(name, want, tol=1e-9):
    from scaks.parsers import AbsoluteEnergyParser, RelativeEnergyParser
    from scaks.parsers.parser_base import ParserBase
    for P in (ParserBase, RelativeEnergyParser, AbsoluteEnergyParser):
        got = P.get_molecular_mass(name)
        check(abs(got - want) <= tol*abs(want), 'mass of %s is %r, expected %r', name, got, want)
        got = P.get_molecular_mass(name, absolute=True)
        check(abs(got - want*ref.AMU) <= tol*abs(want)*ref.AMU, 'absolute mass of %s is %r, expected %r', name, got, want*ref.AMU)
        got = P.get_molecular_mass(name, absolute=False)
        check(abs(got - want) <= tol*abs(want), 'mass of %s is %r, expected %r', name, got, want)


def masses(f, ctx):
    from scaks.functions import string2symbols
    ctx.nontrivial(interesting(f))
    name = text(f)
    got = string2symbols(name)
    check(list(got) == symbols(f), 'elements of %s are %r, expected %r', name, got[:50], symbols(f)[:50])
    verify(name, mass(f))


def relation(case, ctx):
    """Additive under concatenation, proportional to multipliers."""
    from scaks.parsers.parser_base import ParserBase
    a, b, n = case
    ctx.nontrivial(interesting(a) or interesting(b))
    m = ParserBase.get_molecular_mass
    ma, mb = m(text(a)), m(text(b))
    verify(text(a) + text(b), ma + mb)
    verify(text(b) + text(a), ma + mb)
    verify('(%s)%d' % (text(a), n), n*ma)
    verify('%d%s' % (n, text(a)), n*ma)
    verify('%d(%s)' % (n, text(a)), n*ma)
    verify('(%s)%d%s' % (text(a), n, text(b)), n*ma + mb)
    verify('%d%s%s' % (n, text(a), text(b)), n*(ma + mb))
    verify('((%s))' % text(a), ma)


@st.composite
def spoilt(draw):
    f = draw(small(formula(zero=False)))

    def put(f, what):
        lead, terms = f
        terms = list(terms)
        i = draw(st.integers(0, len(terms) - 1))
        if not isinstance(terms[i][0], str) and draw(st.booleans()):
            terms[i] = (put(terms[i][0], what), terms[i][1])
        else:
            n = draw(st.one_of(st.none(), st.integers(1, 5)))
            if draw(st.booleans()):
                terms[i] = (what, n)
            else:
                terms.insert(i, (what, n))
        return (lead, terms)
    if draw(st.integers(0, 3)):
        return dict(f=put(f, draw(st.sampled_from(UNKNOWN))), kind='unknown')
    return dict(f=put(f, draw(st.sampled_from(['x', 'h', 'cl', '-', '*', '_', '+', ' ', '.']))), kind='malformed')


def refused(case, ctx):
    from scaks.errors.error import ElementSearchingError
    from scaks.parsers.parser_base import ParserBase
    ctx.nontrivial()
    ctx.label(case['kind'])
    name = text(case['f'])
    # the kind of refusal depends on what is written first (a letter may join the element before it)
    errors = ElementSearchingError if case['kind'] == 'unknown' else (ElementSearchingError, ValueError)
    for absolute in (False, True):
        try:
            got = ParserBase.get_molecular_mass(name, absolute=absolute)
        except errors:
            pass
        else:
            raise Violation('the mass of %s is %r' % (name, got))


pair = st.tuples(formula(depth=2, lead=False), formula(depth=2, lead=False), st.sampled_from([1, 2, 3, 7, 10, 15]))
TESTS = [Test('mass', small(formula()), masses, 4500, 40000),
         Test('relation', pair.filter(lambda c: c[2]*(size(c[0]) + size(c[1])) < 20000), relation, 1800, 20000),
         Test('unknown', spoilt(), refused, 1800, 20000)]
