"""C11: coverage derivatives."""
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks.c10 import REL, coverage_tuple, execute, is_nontrivial, rounds
from pbt.core import Test, check

RULE = ("non-trivial: some reaction has a species with total coefficient above 1 and some "
        "adsorbate has a coverage above zero, or explicit energies are passed; "
        "for the boundary test: an adsorbate coverage or a free-site coverage is exactly zero")


def tolerance(net, kf, kr, x, slack):
    """dtheta/dt and allowed error per adsorbate."""
    rf, rr = net.rates(kf, kr, x)
    xs = {k: abs(v) + slack for k, v in x.items()}
    sf, sr = net.rates(kf, kr, xs)
    want, scale = net.dtheta(rf, rr)
    tol = []
    for a, sc in zip(net.ads, scale):
        t = REL*sc
        for i, n in enumerate(net.net):
            t += abs(n.get(a, 0))*(abs(sf[i] - rf[i]) + abs(sr[i] - rr[i]))
        tol.append(t)
    return want, tol


def t_derivatives(case, ctx):
    net = ref.Net(case)
    s = ref.model(case).solver
    ctx.nontrivial(is_nontrivial(case, net))
    cv = coverage_tuple(net, case['cvgs'], case['kind'])
    slack = 4e-16*len(net.ads) if case['kind'] == 'float' else 1e-40
    x = net.activities(case['cvgs'])
    if not net.ads:
        return
    for explicit, kf, kr in rounds(case, net):
        kw = {} if explicit is None else {'relative_energies': explicit}
        tag = 'own' if explicit is None else 'explicit'
        ctx.label(tag)
        want, tol = tolerance(net, kf, kr, x, slack)
        got = s.steady_state_function(cv, **kw)
        check(len(got) == len(net.ads), '%d derivatives for %r', len(got), net.ads)
        for a, g, w, t in zip(net.ads, got, want, tol):
            check(abs(ref.mpf(g) - w) <= t, 'd%s/dt (%s energies) is %s, expected %s', a, tag, g, w)
            if not any(n.get(a, 0) for n in net.net):
                ctx.label('untouched adsorbate')
                check(g == 0, 'd%s/dt is %s although no reaction changes it', a, g)
        if explicit is None:
            out = [None]*len(net.ads)
            texts = s.get_dtheta_dt_expressions()
            execute(texts, net, case, kf, kr, dtheta_dt=out)
            exact, scale = net.dtheta(*net.rates(kf, kr, x))
            for a, g, w, sc, text in zip(net.ads, out, exact, scale, texts):
                check(abs(ref.mpf(g) - w) <= 1e-30*sc, '%s gives %s, expected %s', text, g, w)
        r = s.get_residual(cv, **kw)
        check(r == max(abs(g) for g in got), 'residual %s of derivatives %s', r, got)
        w = max(abs(v) for v in want)
        check(abs(ref.mpf(r) - w) <= max(tol), 'residual is %s, expected %s', r, w)


def t_boundary(case, ctx):
    """Coverages stay physical: derivatives point inwards at the boundary."""
    net = ref.Net(case)
    s = ref.model(case).solver
    if not net.ads:
        return
    cv = coverage_tuple(net, case['cvgs'], 'mpf')
    x = net.activities(case['cvgs'])
    for explicit, kf, kr in rounds(case, net):
        kw = {} if explicit is None else {'relative_energies': explicit}
        got = s.steady_state_function(cv, **kw)
        rf, rr = net.rates(kf, kr, x)
        _, scale = net.dtheta(rf, rr)
        for a, g, sc in zip(net.ads, got, scale):
            if x[a] == 0:
                ctx.nontrivial()
                ctx.label('empty adsorbate')
                check(ref.mpf(g) >= -1e-40*sc, 'd%s/dt is %s at zero coverage', a, g)
        for site in net.sites:
            if x[site] == 0:
                ctx.nontrivial()
                ctx.label('no free site')
                # the free sites change by minus the sum over the adsorbates on the site
                v = -sum(ref.mpf(g) for a, g in zip(net.ads, got) if net.site_of[a] == site)
                sc = sum(sc for a, sc in zip(net.ads, scale) if net.site_of[a] == site)
                check(v >= -1e-40*sc, 'free %s change by %s when there are none', site, v)


@st.composite
def cases(draw, exact=False, **kw):
    case = draw(gen.with_coverages(gen.kinetic_cases(**kw), exact=exact, alt=True))
    case['kind'] = draw(st.sampled_from(['mpf', 'mpf', 'float', 'list']))
    return case


TESTS = [Test('derivatives', cases(), t_derivatives, 1600, 40000),
         Test('multi', cases(max_mult=3, max_rxns=3, kinds=['diss', 'assocgas', 'auto', 'general', 'promoted', 'liq']),
              t_derivatives, 800, 20000),
         Test('boundary', cases(exact=True), t_boundary, 1200, 20000)]
