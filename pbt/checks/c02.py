"""C02: exactly the balanced reactions are accepted."""
from collections import Counter

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Test, Violation, check

RULE = ("non-trivial: the reaction has at least two species in some state and either is balanced "
        "or differs from a balanced one by a single edit")

EDITS = ['coef', 'drop', 'element', 'site', 'nsite', 'add', 'phase', 'ts', 'swapelement', 'none', 'two']


def atoms(name):
    """Own scanner: element counts of a name."""
    c, i = Counter(), 0
    while i < len(name):
        if name[i] in '-*':
            i += 1
            continue
        e = name[i]
        i += 1
        if i < len(name) and name[i].islower():
            e += name[i]
            i += 1
        d = ''
        while i < len(name) and name[i].isdigit():
            d += name[i]
            i += 1
        c[e] += int(d) if d else 1
    return c


def totals(state):
    el, si = Counter(), Counter()
    for coef, name, n, site in state:
        for e, k in atoms(name).items():
            el[e] += k*coef
        if site not in ('g', 'l'):
            si[site] += coef*n
    return el, si


def balanced(rxn):
    t = [totals(s) for s in rxn if s]
    return all(x == t[0] for x in t)


@st.composite
def edit(draw, rxn):
    rxn = [list(s) if s else None for s in rxn]
    kind = draw(st.sampled_from(EDITS))
    which = draw(st.sampled_from([i for i in range(3) if rxn[i]]))
    if kind == 'ts' and rxn[1]:
        which = 1
    s = rxn[which]
    k = draw(st.integers(0, len(s)-1))
    coef, name, n, site = s[k]
    if kind == 'coef' or kind == 'ts':
        s[k] = (max(1, coef + draw(st.sampled_from([-1, 1, 2, 9]))), name, n, site)
    elif kind == 'drop' and len(s) > 1:
        s.pop(k)
    elif kind == 'element' and name != '*':
        s[k] = (coef, name + draw(st.sampled_from(['H', 'Cl', 'C', 'O2'])), n, site)
    elif kind == 'swapelement' and name != '*':
        a = draw(st.sampled_from(['N', 'S', 'Ne', 'C', 'Cl']))
        b = draw(st.sampled_from(['Ne', 'N', 'Cl', 'C', 'S']))
        s[k] = (coef, name.replace(a, b), n, site)
    elif kind == 'site' and site not in ('g', 'l'):
        s[k] = (coef, name, n, draw(st.sampled_from(gen.SITES)))
    elif kind == 'nsite' and site not in ('g', 'l') and name != '*':
        s[k] = (coef, name, n + draw(st.sampled_from([1, -1])) or 2, site)
    elif kind == 'add':
        s.append(draw(st.sampled_from([(1, '*', 1, 's'), (1, 'H', 1, 'g'), (1, 'CO', 1, 's'),
                                       (2, '*', 1, 't'), (1, 'Cl', 1, 'l')])))
    elif kind == 'phase' and name != '*':
        s[k] = (coef, name, 1, draw(st.sampled_from(['g', 'l', 's', 't'])))
    elif kind == 'two':
        # two edits which may or may not cancel
        for j in (0, 2):
            c, nm, nn, si = rxn[j][-1]
            rxn[j][-1] = (c+1, nm, nn, si)
    return rxn


@st.composite
def cases(draw):
    rxns = draw(gen.networks(max_rxns=4, multisite=True))
    out = []
    idx = draw(st.integers(0, len(rxns)-1))
    for i, r in enumerate(rxns):
        if i == idx and draw(st.integers(0, 3)):
            r = draw(edit(r))
        out.append(r)
    return dict(rxns=out)


def refused(f, *args):
    try:
        r = f(*args)
    except (NameError, AttributeError, IndexError):
        raise                # not a refusal but an accident
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)
    check(r is None or r is True or not isinstance(r, bool), 'returned %r', r)
    return None


def t_accept(case, ctx):
    from scaks.parsers.rxn_parser import ChemFormula, ChemState, RxnEquation
    ok = True
    for r in case['rxns']:
        e = gen.rxn_str(r)
        want = balanced(r)
        ok = ok and want
        ctx.label('balanced' if want else 'unbalanced')
        if r[1]:
            ctx.label('with transition state')
            if balanced([r[0], None, r[2]]) and not want:
                ctx.label('only transition state unbalanced')
        if max(len(s) for s in r if s) > 1:
            ctx.nontrivial()
        err = refused(RxnEquation(e).check_conservation)
        check((err is None) == want, '%s is %s but check_conservation %s', e,
              'balanced' if want else 'unbalanced', 'passes' if err is None else 'says ' + str(err))
        states = [s for s in r if s]
        for i in range(len(states)):
            for j in range(len(states)):
                a, b = gen.state_str(states[i]), gen.state_str(states[j])
                w = totals(states[i]) == totals(states[j])
                err = refused(ChemState(a).conserve, ChemState(b))
                check((err is None) == w, 'conserve of %s and %s: %s', a, b, err)
        for a in r[0]:
            for b in r[2]:
                if (a[3] in ('g', 'l')) or (b[3] in ('g', 'l')):
                    continue
                w = totals([a]) == totals([b])
                err = refused(ChemFormula(gen.formula_str(a)).conserve,
                              ChemFormula(gen.formula_str(b)))
                check((err is None) == w, 'conserve of formulas %s and %s: %s',
                      gen.formula_str(a), gen.formula_str(b), err)
    c = dict(case, gas={}, liq={}, sites={}, T=300.0)
    net = ref.Net(c)
    c['gas'] = {g: 1.0 for g in net.gas}
    c['liq'] = {g: 1.0 for g in net.liq}
    c['sites'] = {s: 1.0 for s in net.sites}
    try:
        ref.bare(c)
        built, err = True, None
    except Exception as e:
        built, err = False, '%s: %s' % (type(e).__name__, e)
    check(built == ok, 'model of %s reactions %s: %s %s', 'balanced' if ok else 'unbalanced',
          net.exprs, 'built' if built else 'refused', err)


TESTS = [Test('accept', cases(), t_accept, 4000, 80000)]
