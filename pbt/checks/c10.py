"""C10: mass action, net rates, reversibilities and turnover frequencies."""
import math

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks.c02 import atoms
from pbt.core import Test, Violation, check

RULE = ("non-trivial: some reaction has a species with total coefficient above 1 and some "
        "adsorbate has a coverage above zero, or explicit energies are passed")

REL = 1e-9


def coverage_tuple(net, cvgs, kind):
    import mpmath
    if kind == 'mpf':
        return tuple(mpmath.mpf(cvgs[a]) for a in net.ads)
    if kind == 'list':
        return [mpmath.mpf(cvgs[a]) for a in net.ads]
    return tuple(cvgs[a] for a in net.ads)


def energies_dict(net, pair):
    f, r, d = net.relative(*pair)
    return dict(Gaf=f, Gar=r, dG=d)


def is_nontrivial(case, net):
    big = any(n > 1 for side in net.lhs + net.rhs for n in side.values())
    return (big and any(v > 0 for v in case['cvgs'].values())) or case.get('alt') is not None


def rounds(case, net):
    """Own energies, explicit ones, own again: (explicit dict or None, kf, kr)."""
    own = energies_dict(net, (case['Ga'], case['dG']))
    out = [(None, own)]
    if case.get('alt') is not None:
        alt = energies_dict(net, case['alt'])
        out += [(alt, alt), (None, own), (own, own), (alt, alt)]
    for explicit, e in out:
        kf, kr = net.rate_constants(e['Gaf'], e['Gar'])
        yield explicit, kf, kr


def execute(lines, net, case, kf, kr, **lists):
    """Run assignments written by the solver with independent values."""
    x = net.activities(case['cvgs'])
    scope = dict(kf=kf, kr=kr, p={g: ref.mpf(case['gas'][g]) for g in net.gas}, c={l: ref.mpf(case['liq'][l]) for l in net.liq},
                 theta={n: x[n] for n in net.ads + net.sites}, **lists)
    exec('\n'.join(lines), scope)


def t_rates(case, ctx):
    net = ref.Net(case)
    m = ref.model(case)
    s = m.solver
    ctx.nontrivial(is_nontrivial(case, net))
    cv = coverage_tuple(net, case['cvgs'], case['kind'])
    # free sites lose up to 1e-16 when python floats are used
    slack = 4e-16*len(net.ads) if case['kind'] == 'float' else 1e-40
    check(list(m.adsorbate_names) == net.ads, 'adsorbates %r', m.adsorbate_names)
    x = net.activities(case['cvgs'])
    names = list(m.gas_names) + list(m.liquid_names)
    check(names == net.gas + net.liq, 'gases and liquids %r', names)
    check(s.pressures == {g: case['gas'][g] for g in net.gas}, 'pressures %r', s.pressures)
    check(s.concentrations == {l: case['liq'][l] for l in net.liq}, 'concentrations %r', s.concentrations)
    groups = {q: [a for a in net.ads if net.site_of[a] == q] for q in net.sites}
    check({q: list(v) for q, v in s.classified_adsorbates.items()} == groups, 'adsorbates of the sites %r, expected %r', s.classified_adsorbates, groups)
    for explicit, kf, kr in rounds(case, net):
        kw = {} if explicit is None else {'relative_energies': explicit}
        tag = 'own' if explicit is None else 'explicit'
        ctx.label(tag)
        wf, wr = net.rates(kf, kr, x)
        # scale: the same rate with every activity enlarged by the slack
        xs = {k: abs(v) + slack for k, v in x.items()}
        sf, sr = net.rates(kf, kr, xs)
        df = [abs(a - b) + REL*abs(b) for a, b in zip(sf, wf)]
        dr = [abs(a - b) + REL*abs(b) for a, b in zip(sr, wr)]
        rf, rr = s.get_rates(cv, **kw)
        check(len(rf) == len(net.rxns) == len(rr), 'number of rates %d, %d', len(rf), len(rr))
        for i, e in enumerate(net.exprs):
            check(abs(ref.mpf(rf[i]) - wf[i]) <= df[i], '%s (%s energies): forward rate %s, expected %s', e, tag, rf[i], wf[i])
            check(abs(ref.mpf(rr[i]) - wr[i]) <= dr[i], '%s (%s energies): reverse rate %s, expected %s', e, tag, rr[i], wr[i])
        nets = s.get_net_rates(cv, **kw)
        for i, e in enumerate(net.exprs):
            check(abs(ref.mpf(nets[i]) - (wf[i] - wr[i])) <= df[i] + dr[i],
                  '%s (%s energies): net rate %s, expected %s', e, tag, nets[i], wf[i] - wr[i])
        rev = s.get_reversibilities(rf, rr)
        for i, e in enumerate(net.exprs):
            a, b = ref.mpf(rf[i]), ref.mpf(rr[i])
            if a == 0:
                ctx.label('no forward rate')
                check(not math.isfinite(rev[i]), '%s: reversibility %r of rates 0 and %s', e, rev[i], rr[i])
            else:
                check(ref.close(rev[i], b/a, 1e-12), '%s: reversibility %r of rates %s and %s', e, rev[i], rf[i], rr[i])
        tofs = s.get_tof(cv, **kw)
        check(len(tofs) == len(names), '%d turnover frequencies for %r', len(tofs), names)
        for j, name in enumerate(names):
            want, _ = net.tof(name, wf, wr)
            tol = sum(abs(net.net[i].get(name, 0))*(df[i] + dr[i]) for i in range(len(net.rxns)))
            check(abs(ref.mpf(tofs[j]) - want) <= tol, 'turnover frequency of %s (%s energies) is %s, expected %s',
                  name, tag, tofs[j], want)
        for j, name in enumerate(net.gas):
            one = s.get_tof(cv, gas_name=name, **kw)
            check(one == tofs[j], 'turnover frequency of %s alone is %s, in the list %s', name, one, tofs[j])
        if explicit is None:
            # the rates written as text
            ff, rr_ = [None]*len(net.rxns), [None]*len(net.rxns)
            texts = s.get_rate_expressions()
            again = s.rate_expressions
            check(tuple(map(list, texts)) == tuple(map(list, again)), 'rate expressions %r, queried %r', texts, again)
            for lines in texts:
                check(len(lines) == len(net.rxns), '%d rate expressions', len(lines))
                execute(lines, net, case, kf, kr, rfs=ff, rrs=rr_)
            for i, e in enumerate(net.exprs):
                check(ref.close(ff[i], wf[i], 1e-30) and ref.close(rr_[i], wr[i], 1e-30), '%s: the texts %s and %s give %s and %s, expected %s and %s',
                      e, texts[0][i], texts[1][i], ff[i], rr_[i], wf[i], wr[i])
                pair = s.get_elementary_rate_expression(e)
                check([t.split(' = ', 1)[1] for t in (texts[0][i], texts[1][i])] == list(pair), '%s: texts %r, alone %r', e, texts, pair)
        # mass balance
        dth = s.steady_state_function(cv, **kw)
        total = {}
        for name, v in zip(names + net.ads, list(tofs) + list(dth)):
            for el, n in atoms(name.split('_')[0]).items():
                a, b = total.get(el, (ref.mpf(0), ref.mpf(0)))
                total[el] = (a + n*ref.mpf(v), b)
        scale = sum((abs(a) + abs(b))*40 for a, b in zip(wf, wr))
        slop = sum((a + b)*40 for a, b in zip(df, dr))
        for el, (v, _) in total.items():
            check(abs(v) <= 1e-12*scale + slop, 'element %s is not conserved: %s per second', el, v)


def t_refuse(case, ctx):
    net = ref.Net(case)
    s = ref.model(case).solver
    cv = coverage_tuple(net, case['cvgs'], 'mpf')
    ctx.nontrivial()
    names = net.liq + net.ads + net.sites + net.ts + ['Q_g', 'CO']
    name = names[case['pick'] % len(names)]
    try:
        got = s.get_tof(cv, gas_name=name)
    except Exception:
        pass
    else:
        raise Violation('turnover frequency of %s, which is no gas of the model: %r' % (name, got))
    rf, rr = s.get_rates(cv)
    try:
        got = s.get_reversibilities(list(rf) + [1.0], rr)
    except Exception:
        return
    raise Violation('reversibilities of %d and %d rates: %r' % (len(rf) + 1, len(rr), got))


@st.composite
def cases(draw, **kw):
    case = draw(gen.with_coverages(gen.kinetic_cases(**kw), alt=True))
    case['kind'] = draw(st.sampled_from(['mpf', 'mpf', 'float', 'list']))
    return case


@st.composite
def refuse_cases(draw):
    case = draw(gen.with_coverages(gen.kinetic_cases()))
    case['pick'] = draw(st.integers(0, 50))
    return case


TESTS = [Test('rates', cases(), t_rates, 1600, 40000),
         Test('multi', cases(max_mult=3, max_rxns=3, kinds=['diss', 'assocgas', 'auto', 'general', 'promoted', 'liq']), t_rates, 800, 20000),
         Test('refuse', refuse_cases(), t_refuse, 300, 3000)]
