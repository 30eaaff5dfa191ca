"""C15: initial coverages and Boltzmann guesses."""
import mpmath
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks import c13
from pbt.core import Test, Violation, check

RULE = ("non-trivial: (start) the supplied coverages are unphysical, or physical with an adsorbate "
        "above zero; (boltzmann) at least two adsorbates; (convert) at least one adsorbate")


class Stop(Exception):
    pass


@st.composite
def guess(draw, case, net):
    kind = draw(st.sampled_from(['physical', 'wild', 'wild', 'over', 'edge']))
    if kind == 'physical':
        c = draw(gen.exact_coverages(case))
        return [c[a] for a in net.ads], True
    if kind == 'edge':
        c = draw(gen.exact_coverages(case, full=True))
        return [c[a] for a in net.ads], True
    if kind == 'over':
        return [draw(st.integers(0, 64))/64 for a in net.ads], None
    return [draw(st.one_of(gen.nice(-3, 3), st.sampled_from([0.0, 1.0, -1e-30, 1e6, -1e6, 1e-300]))) for a in net.ads], None


@st.composite
def start_cases(draw):
    case = draw(gen.kinetic_cases(max_rxns=4))
    case['sites'] = {s: draw(st.sampled_from([1.0, 0.5, 0.25, 0.75])) for s in case['sites']}
    net = ref.Net(case)
    case['guesses'] = [draw(guess(case, net)) for _ in range(3)]
    case['first'] = draw(st.sampled_from(['given', 'given', 'hybrid']))
    case['type'] = draw(st.sampled_from(['mpf', 'float']))
    case['container'] = draw(st.sampled_from(['list', 'tuple']))
    return case


def physical(net, case, values):
    """Exactly physical?"""
    cv = dict(zip(net.ads, [ref.mpf(v) for v in values]))
    return all(v >= 0 for v in cv.values()) and all(
        sum((cv[a] for a in net.ads if net.site_of[a] == s), ref.mpf(0)) <= ref.mpf(case['sites'][s]) for s in net.sites)


def t_start(case, ctx):
    net = ref.Net(case)
    if not net.ads:
        return
    m = ref.model(case)
    s = m.solver
    conv = mpmath.mpf if case['type'] == 'mpf' else float
    box = list if case['container'] == 'list' else tuple
    queue = [box([conv(v) for v in g]) for g, _ in case['guesses']]
    seen = []

    def hybrid(model, n):
        if not queue:
            raise Stop()
        return queue.pop(0)

    def evaluate(cvgs, relative_energies=None):
        # the first point the solver looks at; then let this start fail
        seen.append([ref.mpf(v) for v in cvgs])
        raise ZeroDivisionError()
    m.hybrid_method_register(hybrid)
    s.steady_state_function = evaluate
    try:
        if case['first'] == 'given':
            s.get_steady_state_cvgs(c0=queue.pop(0))
        else:
            s.get_steady_state_cvgs()
    except Stop:
        pass
    check(len(seen) == 3, '%d starts instead of 3', len(seen))
    for (given, _), got in zip(case['guesses'], seen):
        ok = physical(net, case, given)
        ctx.label('physical' if ok else 'unphysical')
        ctx.nontrivial(not ok or any(v > 0 for v in given))
        check(len(got) == len(net.ads), '%d coverages for %d adsorbates', len(got), len(net.ads))
        if ok:
            check(all(a == ref.mpf(b) for a, b in zip(got, given)), 'physical initial coverages %r were changed to %r',
                  given, [float(v) for v in got])
        for a, v in zip(net.ads, got):
            check(v >= 0, 'starts with coverage %s of %s', v, a)
        for site in net.sites:
            tot = sum((v for a, v in zip(net.ads, got) if net.site_of[a] == site), ref.mpf(0))
            check(tot <= ref.mpf(case['sites'][site])*(1 + ref.mpf('1e-14')), 'starts with %s on %s, total %s',
                  tot, site, case['sites'][site])


@st.composite
def boltz_cases(draw):
    case = draw(c13.cases(max_rxns=4))
    case['shift'] = draw(gen.nice(-1, 1))
    case['lift'] = draw(gen.nice(0.01, 0.5))
    case['pick'] = draw(st.integers(0, 20))
    return case


def t_boltzmann(case, ctx):
    net = ref.Net(case)
    if not net.ads:
        return
    ctx.nontrivial(len(net.ads) > 1)
    kT = ref.mpf(ref.KB)*ref.mpf(case['T'])

    def run(E):
        return c13.model(dict(case, abs=E)).solver

    def expected(E, empty):
        names = net.ads + (net.sites if empty else [])
        z = sum(ref._ctx.exp(-ref.mpf(E[n])/kT) for n in names)
        return [ref._ctx.exp(-ref.mpf(E[n])/kT)/z for n in net.ads]
    E = case['abs']
    s = run(E)
    for empty in (True, False):
        got = s.boltzmann_coverages(include_empty_site=empty)
        want = expected(E, empty)
        check(len(got) == len(want), '%d Boltzmann coverages', len(got))
        for a, g, w in zip(net.ads, got, want):
            check(g > 0, 'Boltzmann coverage of %s is %s', a, g)
            check(ref.close(g, w, 1e-9), 'Boltzmann coverage of %s (empty sites %s) is %s, expected %s', a, empty, g, w)
        total = sum(ref.mpf(g) for g in got)
        if not empty:
            check(abs(total - 1) < 1e-12, 'Boltzmann coverages sum to %s', total)
        else:
            check(total <= 1 + ref.mpf('1e-40'), 'Boltzmann coverages with empty sites sum to %s', total)
    got = s.boltzmann_coverages()
    for a, g, w in zip(net.ads, got, expected(E, True)):
        check(ref.close(g, w, 1e-9), 'default Boltzmann coverage of %s is %s, expected %s', a, g, w)
    for i, a in enumerate(net.ads):
        for j, b in enumerate(net.ads):
            if E[a] < E[b]:
                check(got[i] > got[j], '%s is lower in energy than %s but has coverage %s < %s', a, b, got[i], got[j])
    shifted = run({k: v + case['shift'] for k, v in E.items()}).boltzmann_coverages()
    for a, g, h in zip(net.ads, got, shifted):
        check(ref.close(g, h, 1e-9), 'a common shift of the energies changes the coverage of %s from %s to %s', a, g, h)
    a = net.ads[case['pick'] % len(net.ads)]
    lifted = run({k: v + (case['lift'] if k == a else 0) for k, v in E.items()}).boltzmann_coverages()
    i = net.ads.index(a)
    check(lifted[i] < got[i], 'coverage of %s does not fall with its energy: %s -> %s', a, got[i], lifted[i])


def t_convert(case, ctx):
    net = ref.Net(case)
    m = ref.model(case)
    ctx.nontrivial(bool(net.ads))
    cv = [mpmath.mpf(case['cvgs'][a]) for a in net.ads]
    to_dict, to_tuple = (getattr(m.solver, n, None) for n in ('_cvg_tuple2dict', '_cvg_dict2tuple'))
    if to_dict is None or to_tuple is None:       # protected helpers
        ctx.label('no converter')
        return
    d = to_dict(tuple(cv))
    check(set(d) == set(net.ads) | set(net.sites), 'coverages of %r', sorted(d))
    x = net.activities(case['cvgs'])
    for k, v in d.items():
        check(abs(ref.mpf(v) - x[k]) < 1e-25, 'coverage of %s is %s, expected %s', k, v, x[k])
    back = to_tuple(d)
    check(tuple(back) == tuple(cv), 'converted back: %r', back)


def t_noabs(case, ctx):
    """No Boltzmann guess without absolute energies."""
    ctx.nontrivial()
    m = ref.model(case)
    try:
        got = m.solver.boltzmann_coverages()
    except Exception:
        return
    raise Violation('Boltzmann coverages without absolute energies: %r' % (got,))


TESTS = [Test('start', start_cases(), t_start, 1500, 30000),
         Test('boltzmann', boltz_cases(), t_boltzmann, 800, 12000),
         Test('convert', gen.with_coverages(gen.kinetic_cases(max_rxns=4)), t_convert, 500, 8000),
         Test('noabs', gen.kinetic_cases(max_rxns=2), t_noabs, 60, 500)]
