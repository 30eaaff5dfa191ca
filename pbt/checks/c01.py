"""C01: expressions parse to what is written."""
import re
from collections import Counter

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Test, Violation, check

RULE = ("non-trivial: an expression with at least three species of which one has a coefficient, "
        "a repeated element or species, a two-letter element, a bond or several sites; for the "
        "refusal test, a text that is not empty")
ASSUMPTIONS = ["coefficients are written directly before the formula, states are joined by "
               "'->' or '<->' TS '->' as documented"]

ELEMENTS = ['H', 'C', 'N', 'O', 'F', 'S', 'P', 'K', 'Cl', 'Ne', 'Br', 'Pt', 'Na', 'Si', 'Cu', 'Co', 'He']
SITES = ['s', 't', 'b', 'top', 'hcp', 'fcc', 'T', 'Ab', 'tB', 'G', 'L']
STARS = ['']
unit = st.tuples(st.sampled_from(ELEMENTS),
                 st.one_of(st.none(), st.none(), st.integers(2, 9), st.integers(10, 120)))
part = st.lists(unit, min_size=1, max_size=4).map(tuple)


@st.composite
def formulas(draw):
    kind = draw(st.sampled_from('gglaaaatt*'))
    coef = draw(st.one_of(st.none(), st.none(), st.integers(2, 9), st.integers(1, 130)))
    if kind == '*':
        return (coef, None, None, draw(st.sampled_from(SITES)))
    parts = (draw(part),)
    if kind == 't':
        parts += tuple(draw(st.lists(part, min_size=1, max_size=2)))
    if kind == 'g':
        return (coef, parts, None, 'g')
    if kind == 'l':
        return (coef, parts, None, 'l')
    n = draw(st.one_of(st.none(), st.none(), st.integers(1, 4), st.integers(10, 25)))
    return (coef, parts, n, draw(st.sampled_from(SITES)))


def name(parts):
    if parts is None:
        return '*'
    return '-'.join(''.join(e + (str(n) if n else '') for e, n in p) for p in parts)


def text(f):
    coef, parts, n, site = f
    return '%s%s_%s%s' % ('' if coef is None else coef, name(parts), '' if n is None else n, site)


state = st.lists(formulas(), min_size=1, max_size=4)
space = st.sampled_from(['', ' ', ' ', '  ', '\t'])


@st.composite
def written(draw, s):
    """A state with duplicated species and spacing: (formulas, text)."""
    if len(s) < 4 and draw(st.integers(0, 3)) == 0:
        s = s + [draw(st.sampled_from(s))]
    out = draw(space)
    for i, f in enumerate(s):
        if i:
            out += draw(space) + '+' + draw(space)
        out += text(f)
    return s, out + draw(space)


@st.composite
def cases(draw):
    states, texts = [], []
    for _ in range(draw(st.sampled_from([2, 2, 3]))):
        s, t = draw(written(draw(state)))
        states.append(s)
        texts.append(t)
    expr = texts[0] + ('->' if len(texts) == 2 else '<->') + '->'.join(texts[1:])
    return dict(states=states, expr=expr)


def elements_of(parts):
    c = Counter()
    for p in parts or ():
        for e, n in p:
            c[e] += n or 1
    return c


def check_formula(obj, f, where):
    coef, parts, n, site = f
    c, k = coef or 1 if coef is not None else 1, n if n is not None else 1
    check(obj.formula().strip() == text(f), 'formula %r instead of %r', obj.formula(), text(f))
    check(obj.stoichiometry() == c, '%s: coefficient %r, written %r', where, obj.stoichiometry(), c)
    check(obj.species() == name(parts), '%s: name %r, written %r', where, obj.species(), name(parts))
    check(obj.nsite() == k, '%s: %r sites, written %r', where, obj.nsite(), k)
    check(obj.site() == site, '%s: site %r, written %r', where, obj.site(), site)
    check(obj.species_site() == text((None,) + f[1:]), '%s: species_site %r', where, obj.species_site())
    kind = {'g': 'gas', 'l': 'liquid'}.get(site, 'site' if parts is None else 'adsorbate')
    check(obj.type() == kind, '%s: kind %r, written %r', where, obj.type(), kind)
    el = {e: x*c for e, x in elements_of(parts).items()}
    check(obj.get_elements_dict() == el, '%s: elements %r, written %r', where, obj.get_elements_dict(), el)
    check(obj.get_species_elements_dict() == dict(elements_of(parts)), '%s: elements of one %r',
          where, obj.get_species_elements_dict())
    if site not in ('g', 'l'):
        check(obj.get_sites_dict() == {site: k*c}, '%s: sites %r', where, obj.get_sites_dict())
    check(squeeze(obj.texen()) == tex(f), '%s: LaTeX %r, expected %r', where, obj.texen(), tex(f))


def squeeze(s):
    return re.sub(r'\s+', '', s)


def tex(f):
    coef, parts, n, site = f
    c = '' if coef in (None, 1) else str(coef)
    if parts is None:
        return '%s*(%s)' % (c, site)
    body = '-'.join(''.join(e + ('_{%d}' % k if k else '') for e, k in p) for p in parts)
    return '%s%s(%s)' % (c, body, site)


def t_expression(case, ctx):
    from scaks.parsers.rxn_parser import ChemFormula, ChemState, RxnEquation
    states, expr = case['states'], case['expr']
    flat = [f for s in states for f in s]
    ctx.nontrivial(len(flat) >= 3 and any(
        f[0] not in (None, 1) or f[2] is not None or len(f[1] or ()) > 1 or
        any(len(e) > 1 for p in f[1] or () for e, n in p) for f in flat))
    if len(states) == 3:
        ctx.label('with transition state')
    rxn = RxnEquation(expr)
    check(rxn.rxn_equation() == expr, 'expression changed to %r', rxn.rxn_equation())
    got = rxn.tolist()
    check(len(got) == len(states), '%d states parsed, %d written', len(got), len(states))
    lists = rxn.to_formula_list()
    check(len(lists) == len(states), '%d formula lists, %d states', len(lists), len(states))
    for i, (obj, s) in enumerate(zip(got, states)):
        formulas = obj.tolist()
        check(len(formulas) == len(s) == len(lists[i]), 'state %d: %d species parsed, %d written',
              i, len(formulas), len(s))
        for a, b, f in zip(formulas, lists[i], s):
            check_formula(a, f, 'state %d' % i)
            check_formula(b, f, 'formula list %d' % i)
        check(obj.get_species_site_list() == [text((None,) + f[1:]) for f in s],
              'species list %r', obj.get_species_site_list())
        sd, ed, td = Counter(), Counter(), Counter()
        for f in s:
            c = f[0] if f[0] is not None else 1
            sd[text((None,) + f[1:])] += c
            for e, n in elements_of(f[1]).items():
                ed[e] += n*c
            if f[3] not in ('g', 'l'):
                td[f[3]] += c*(f[2] if f[2] is not None else 1)
        if len(sd) < len(s):
            ctx.label('repeated species')
        check(obj.get_species_site_dict() == dict(sd), 'species counts %r, written %r',
              obj.get_species_site_dict(), dict(sd))
        check(obj.get_elements_dict() == dict(ed), 'element counts %r, written %r',
              obj.get_elements_dict(), dict(ed))
        check(obj.get_sites_dict() == dict(td), 'site counts %r, written %r',
              obj.get_sites_dict(), dict(td))
        want = '+'.join(tex(f) for f in s)
        check(squeeze(obj.texen()) == want, 'LaTeX of state %r, expected %r', obj.texen(), want)
    texs = ['+'.join(tex(f) for f in s) for s in states]
    arrows = [r'\rightarrow'] if len(states) == 2 else [r'\leftrightarrow', r'\rightarrow']
    want = texs[0] + ''.join(a + t for a, t in zip(arrows, texs[1:]))
    check(squeeze(rxn.texen()) == want, 'LaTeX %r, expected %r', rxn.texen(), want)
    # Parsing again (nothing is consumed) and composing formulas to a state.
    a, b = ChemFormula(text(states[0][0])), ChemFormula(text(states[-1][-1]))
    both = a + b
    check(isinstance(both, ChemState), 'sum of formulas is %r', type(both))
    check([x.formula() for x in both.tolist()] == [a.formula(), b.formula()],
          'sum of formulas is %r', both.chem_state())
    check([s.chem_state() for s in rxn.tolist()] == [s.chem_state() for s in got], 'second parse differs')


@st.composite
def garbage(draw):
    """Text without the '_site' part."""
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return draw(st.text(alphabet='CHO2*-+ g.,', max_size=8))
    f = draw(formulas())
    t = text(f)
    if kind == 1:
        return t.split('_')[0]
    if kind == 2:
        return t.split('_')[0] + '_' + draw(st.sampled_from(['', '2', '12', ' ', ' s', '2 s', '-s']))
    return t.replace('_', draw(st.sampled_from(['', '(', ' ', '.', '__'[:0]])))


def t_garbage(case, ctx):
    from scaks.parsers.rxn_parser import ChemFormula, ChemFormulaError
    ctx.nontrivial(bool(case.strip()))
    try:
        f = ChemFormula(case)
    except ChemFormulaError:
        return
    raise Violation('%r was accepted as %r' % (case, f.species_site()))


TESTS = [Test('expression', cases(), t_expression, 6000, 120000),
         Test('garbage', garbage(), t_garbage, 1500, 20000)]
