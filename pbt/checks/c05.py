"""C05: total reaction of catalytic networks."""
import re
from fractions import Fraction
from functools import reduce
from math import gcd

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks.c02 import atoms
from pbt.core import Test, Violation, check

RULE = ("non-trivial: the network closes a route with at least three steps, or has no route "
        "although it has at least two steps")


@st.composite
def routes(draw):
    """A closed walk over surface species: every step is a reaction, at the end
    the surface is empty again."""
    elements = draw(st.lists(st.sampled_from(gen.ELEMENTS), min_size=1, max_size=2, unique=True))
    site = draw(st.sampled_from(gen.SITES))
    other = draw(st.sampled_from(gen.SITES))
    comps = draw(st.lists(gen.compositions(elements, 2), min_size=1, max_size=3, unique=True))
    surface, rxns = [], []
    mult = draw(st.sampled_from([1, 1, 1, 2]))

    def ph():
        return 'l' if draw(st.integers(0, 8)) == 0 else 'g'

    def add(lhs, rhs):
        lhs, rhs = gen.balance(gen.merge(lhs), gen.merge(rhs))
        r = [lhs, None, rhs]
        if gen.rxn_str(r) not in [gen.rxn_str(x) for x in rxns] and not gen.trivial(r):
            rxns.append(r)
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(['ads', 'diss', 'combine', 'des', 'diff', 'er']))
        if kind in ('combine', 'des', 'diff', 'er') and not surface or kind == 'combine' and len(surface) < 2:
            kind = 'ads'
        if kind == 'ads':
            c = draw(st.sampled_from(comps))
            add([(1, gen.name_of(c), 1, ph())], [(1, gen.name_of(c), 1, site)])
            surface.append((c, site))
        elif kind == 'diss':
            a, b = draw(st.sampled_from(comps)), draw(st.sampled_from(comps))
            add([(1, gen.name_of(gen.join(a, b)), 1, ph())],
                [(1, gen.name_of(a), 1, site), (1, gen.name_of(b), 1, site)])
            surface += [(a, site), (b, site)]
        elif kind == 'combine':
            a = surface.pop(draw(st.integers(0, len(surface)-1)))
            b = surface.pop(draw(st.integers(0, len(surface)-1)))
            c = gen.join(a[0], b[0])
            lhs = [(1, gen.name_of(a[0]), 1, a[1]), (1, gen.name_of(b[0]), 1, b[1])]
            if draw(st.booleans()):
                add(lhs, [(1, gen.name_of(c), 1, ph())])
            else:
                add(lhs, [(1, gen.name_of(c), 1, site)])
                surface.append((c, site))
        elif kind == 'des':
            a = surface.pop(draw(st.integers(0, len(surface)-1)))
            add([(1, gen.name_of(a[0]), 1, a[1])], [(1, gen.name_of(a[0]), 1, ph())])
        elif kind == 'diff':
            k = draw(st.integers(0, len(surface)-1))
            a = surface[k]
            add([(1, gen.name_of(a[0]), 1, a[1])], [(1, gen.name_of(a[0]), 1, other)])
            surface[k] = (a[0], other)
        else:
            a = surface.pop(draw(st.integers(0, len(surface)-1)))
            c = draw(st.sampled_from(comps))
            add([(1, gen.name_of(a[0]), 1, a[1]), (1, gen.name_of(c), 1, ph())],
                [(1, gen.name_of(gen.join(a[0], c)), 1, ph())])
    closing = []
    for a, s in surface:
        closing.append((a, s))
    if draw(st.integers(0, 5)):
        for a, s in closing:
            add([(1, gen.name_of(a), 1, s)], [(1, gen.name_of(a), 1, ph())])
    if not rxns:
        add([(1, gen.name_of(comps[0]), 1, 'g')], [(1, gen.name_of(comps[0]), 1, site)])
    # variations: reversed steps, multiples, order
    out = []
    for r in rxns:
        if draw(st.integers(0, 5)) == 0:
            r = [r[2], None, r[0]]
        m = draw(st.sampled_from([1, 1, 1, 2, 3])) if mult > 1 else 1
        out.append([[(m*sp[0],) + tuple(sp[1:]) for sp in r[0]], None,
                    [(m*sp[0],) + tuple(sp[1:]) for sp in r[2]]])
    if draw(st.integers(0, 3)) == 0:
        out = [list(x) for x in draw(st.permutations(out))]
    return out


@st.composite
def large(draw):
    """A large molecule falls apart and its parts react with several others:
    the total reaction has large coefficients."""
    a, b = draw(st.lists(st.sampled_from(gen.ELEMENTS), min_size=2, max_size=2, unique=True))
    s, t = draw(st.sampled_from(gen.SITES)), draw(st.sampled_from(gen.SITES))
    k, j, i = draw(st.integers(1, 9)), draw(st.integers(1, 4)), draw(st.integers(1, 3))
    name = lambda *c: gen.name_of(tuple(c))
    states = [([(1, name((a, k)), 1, 'g')], [(k, a, 1, s)]),
              ([(1, name((b, i)), 1, 'g')], [(i, b, 1, t)]),
              ([(1, a, 1, s), (j, b, 1, t)], [(1, name((a, 1), (b, j)), 1, draw(st.sampled_from('ggl')))])]
    out = []
    for x, y in states:
        x, y = gen.balance(x, y)
        out.append([y, None, x] if draw(st.integers(0, 5)) == 0 else [x, None, y])
    return [list(x) for x in draw(st.permutations(out))]


@st.composite
def cases(draw):
    kind = draw(st.integers(0, 9))
    rxns = draw(routes()) if kind > 2 else draw(gen.networks(max_rxns=6)) if kind else draw(large())
    return draw(gen.conditions(rxns))


# ---- exact linear algebra
def rref(rows):
    rows = [[Fraction(x) for x in r] for r in rows]
    piv, i = [], 0
    ncol = len(rows[0]) if rows else 0
    for j in range(ncol):
        p = next((k for k in range(i, len(rows)) if rows[k][j]), None)
        if p is None:
            continue
        rows[i], rows[p] = rows[p], rows[i]
        rows[i] = [x/rows[i][j] for x in rows[i]]
        for k in range(len(rows)):
            if k != i and rows[k][j]:
                f = rows[k][j]
                rows[k] = [a - f*b for a, b in zip(rows[k], rows[i])]
        piv.append(j)
        i += 1
    return rows[:i], piv


def null_space(rows, ncol):
    red, piv = rref(rows) if rows else ([], [])
    basis = []
    for j in range(ncol):
        if j in piv:
            continue
        v = [Fraction(0)]*ncol
        v[j] = Fraction(1)
        for r, p in zip(red, piv):
            v[p] = -r[j]
        basis.append(v)
    return basis


def in_span(vectors, target):
    base = len(rref(vectors)[1]) if vectors else 0
    return len(rref(vectors + [target])[1]) == base


TERM = re.compile(r'^(\d*)([A-Z][A-Za-z0-9]*_[gl])$')


def t_total(case, ctx):
    net = ref.Net(case)
    m = ref.bare(case)
    n = len(net.rxns)
    surf, fluid = net.sites + net.ads, net.gas + net.liq
    rows = [[net.net[i].get(s, 0) for i in range(n)] for s in surf]
    basis = null_space(rows, n)
    nets = [[sum(v[i]*net.net[i].get(f, 0) for i in range(n)) for f in fluid] for v in basis]
    has_route = any(any(x) for x in nets)
    if not has_route:
        ctx.nontrivial(n > 1)
        ctx.label('no route')
        try:
            e = m.parser.get_total_rxn_equation()
        except Exception:
            return
        raise Violation('total reaction %r of a network without route' % e)
    ctx.label('%d dimensional route space' % min(len(basis), 3))
    eq = m.parser.get_total_rxn_equation()
    sides = eq.split('->')
    check(len(sides) == 2, 'total equation %r', eq)
    coef = {}
    for sign, side in ((-1, sides[0]), (1, sides[1])):
        check(side.strip(), 'empty side in %r', eq)
        for term in side.split('+'):
            mt = TERM.match(term.strip())
            check(mt, 'term %r of %r is no gas or liquid', term, eq)
            c = int(mt.group(1)) if mt.group(1) else 1
            check(c > 0, 'zero coefficient in %r', eq)
            check(mt.group(2) not in coef, '%s twice in %r', mt.group(2), eq)
            check(mt.group(2) in fluid, '%s is not in the network', mt.group(2))
            coef[mt.group(2)] = sign*c
    el = {}
    for k, c in coef.items():
        for e, x in atoms(k.split('_')[0]).items():
            el[e] = el.get(e, 0) + c*x
    check(not any(el.values()), '%r is not balanced: %r', eq, el)
    vec = [Fraction(coef.get(f, 0)) for f in fluid]
    check(in_span(nets, vec), '%r is not a combination of the steps', eq)
    if max(abs(c) for c in coef.values()) > 9:
        ctx.label('coefficients above nine')
    check(reduce(gcd, [abs(c) for c in coef.values()]) == 1, 'coefficients of %r have a common factor', eq)
    if len(basis) == 1:
        v = basis[0]
        used = [x for x in v if x]
        ctx.nontrivial(len(used) > 2)
        if any(abs(x) != abs(used[0]) for x in used):
            ctx.label('uneven stoichiometric numbers')
        sign = 1 if all(x >= 0 for x in v) else -1 if all(x <= 0 for x in v) else 0
        if sign:
            ctx.label('all steps forward')
            for f, x in zip(fluid, nets[0]):
                x = x*sign
                if x:
                    check((coef.get(f, 0) > 0) == (x > 0), '%s is on the wrong side of %r', f, eq)
        else:
            ctx.label('steps in both directions')
    else:
        ctx.nontrivial()
    check(m.parser.get_total_rxn_equation() == eq, 'second call differs')


TESTS = [Test('total', cases(), t_total, 5000, 60000)]
