"""C38: formulas written as LaTeX."""
import os
import re

import mpmath
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks.c13 import cases as symbol_cases, model, relative
from pbt.core import Test, Violation, check

RULE = "non-trivial: at least two reactions with different rate expressions and an expression with a power or a free-site sum"
ASSUMPTIONS = ["the reader knows sums, products, quotients, powers, e^{...}, brackets, numbers and indexed symbols"]
TOKEN = re.compile(r'\s+|(?P<skip>\\left|\\right|\\,|\\cdot|\\times)|(?P<frac>\\frac)|(?P<num>\d+\.?\d*)|'
                   r'(?P<sym>\\?[A-Za-z]+(?:_\{[^{}]*\})?)|(?P<op>[-+^{}()])')
ctx_ = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.MPContext()
ctx_.dps = 40
mpf = ctx_.mpf


def plain(name):
    """Name of a symbol without the marks of typesetting."""
    return re.sub(r'[\\{}_\s^]', '', name)


def read(text, values):
    """Value of a LaTeX expression."""
    toks, at = [], 0
    while at < len(text):
        m = TOKEN.match(text, at)
        check(m, 'cannot read %r in %r', text[at:at + 20], text)
        at = m.end()
        if m.lastgroup and m.lastgroup != 'skip':
            toks.append((m.lastgroup, m.group()))
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else (None, None)

    def take(want=None):
        t = peek()
        check(t[0] is not None and (want is None or t[1] == want), 'expected %r at token %d of %r', want, pos[0], text)
        pos[0] += 1
        return t

    def group():
        take('{')
        v = total()
        take('}')
        return v

    def total():
        sign, v = 1, mpf(0)
        if peek()[1] == '-':
            take()
            sign = -1
        v = sign*product()
        while peek()[1] in ('+', '-'):
            sign = 1 if take()[1] == '+' else -1
            v += sign*product()
        return v

    def product():
        v, n = mpf(1), 0
        while peek()[0] in ('frac', 'num', 'sym') or peek()[1] == '(':
            v *= power()
            n += 1
        check(n, 'empty product at token %d of %r', pos[0], text)
        return v

    def power():
        kind, t = take()
        if kind == 'frac':
            a = group()
            v = a/group()
        elif kind == 'num':
            v = mpf(float(t))
        elif kind == 'sym':
            if t == 'e' and peek()[1] == '^':
                take()
                return ctx_.exp(group())
            check(plain(t) in values, 'unknown symbol %r in %r', t, text)
            v = values[plain(t)]
        else:
            v = total()
            take(')')
        if peek()[1] == '^':
            take()
            v = v**group()
        return v
    out = total()
    check(pos[0] == len(toks), 'trailing text in %r', text)
    return out


def equations(text):
    out = []
    for l in text.split('\n'):
        if not l.strip():
            continue
        check(l.endswith(r'\\') and ' = ' in l, 'line %r is not an equation', l)
        left, right = l[:-2].split(' = ', 1)
        out.append((left, right))
    return out


def t_latex(case, ctx):
    net = ref.Net(case)
    if not net.ads:
        return
    Ga, dG = relative(case)
    m = model(case)
    s = m.solver
    x = net.activities(case['cvgs'])
    values = {'kB': mpf(ref.KB), 'h': mpf(ref.H), 'T': mpf(case['T'])}
    for i in range(len(net.rxns)):
        values['Ga%d' % i], values['dG%d' % i] = mpf(Ga[i]), mpf(dG[i])
    for n in net.gas:
        values[plain('p_' + n)] = mpf(case['gas'][n])
    for n in net.liq:
        values[plain('C_' + n)] = values[plain('c_' + n)] = mpf(case['liq'][n])
    for n in net.ads:
        values[plain('theta_' + n)] = mpf(case['cvgs'][n])
    for n in net.sites:
        values[plain('theta_' + n)] = mpf(x[n])
    kf, kr = net.rate_constants(Ga, [a - d for a, d in zip(Ga, dG)])
    rf, rr = net.rates(kf, kr, x)

    def values_of(syms):
        subs = {}
        for e in syms:
            for v in getattr(e, 'free_symbols', ()):
                check(plain(str(v)) in values, 'unknown symbol %s', v)
                subs[v] = values[plain(str(v))]
        return [mpf(str(e.evalf(30, subs=subs))) for e in syms]

    def agree(text, syms, want, left, scale=None):
        eqs = equations(text)
        check(len(eqs) == len(want), '%d equations for %d quantities', len(eqs), len(want))
        for i, (l, r) in enumerate(eqs):
            check(left is None or re.search(left % (i + 1), l), 'equation %d starts with %s', i, l)
            got = read(r, values)
            if syms is not None:
                # sums nearly cancel: the printed numbers have 15 digits
                w = syms[i]
                check(ref.close(got, w, 1e-9, scale=1e-11*scale, tiny=1e-120), 'the LaTeX form of %s reads %r, the expression is %r: %s', l, got, w, r)
            if want[i] is not None:
                check(ref.close(got, want[i], 1e-9, scale=1e-11*scale, tiny=1e-120), '%s reads %r, expected %r: %s', l, got, want[i], r)
        return eqs

    big = max([abs(v) for v in rf + rr] + [mpf(0)])
    # the total of a site is printed with 15 digits, the free sites may nearly cancel (agree allows 1e-20 of this)
    wf, wr = net.rates(kf, kr, dict(x, **{n: case['sites'][n] for n in net.sites}))
    big += mpf('1e7')*max([abs(v) for v in wf + wr] + [mpf(0)])
    ctx.nontrivial(len(net.rxns) > 1 and any(n > 1 for side in net.lhs + net.rhs for n in side.values()))
    s.get_rate_syms()
    s.get_dtheta_dt_syms()
    check(not os.path.exists('formulas.tex'), 'formulas were written without being asked for')
    syms = s.get_rate_syms(log_latex=True)
    text = open('formulas.tex').read()
    eqs = equations(text)
    n = len(net.rxns)
    check(len(eqs) == 2*n, '%d equations for %d reactions', len(eqs), n)
    half = [''.join('%s = %s\\\\\n' % e for e in part) for part in (eqs[:n], eqs[n:])]
    agree(half[0], values_of(syms[0]), rf, r'r_\{f%d\D.*\+', big)
    agree(half[1], values_of(syms[1]), rr, r'r_\{r%d\D.*-', big)
    # rates written twice are the same, coverage derivatives are appended
    s.get_rate_syms(log_latex=True)
    more = open('formulas.tex').read()
    check(more == text*2, 'formulas written twice differ: %r', more)
    d = s.get_dtheta_dt_syms(log_latex=True)
    all_ = open('formulas.tex').read()
    check(all_.startswith(more), 'earlier formulas are lost')
    coeff = max([abs(c) for r in net.net for c in r.values()] + [1])*n
    simple = all(abs(c) <= 1 for r in net.net for c in r.values()) and all(
        not (a in l and a in r) and l.get(a, 0) + r.get(a, 0) <= 1 for l, r in zip(net.lhs, net.rhs) for a in net.ads)
    dt, _ = net.dtheta(rf, rr)
    agree(all_[len(more):], values_of(d), [v if simple else None for v in dt], r'\\theta_\{%d\}', big*coeff)
    # other quantities through the same writer
    ks = s.get_rate_constant_syms()
    agree(''.join(s.get_latex_strs('k_{f', '}', ks[0])), values_of(ks[0]), kf, r'k_\{f%d\}', 0)
    agree(''.join(s.get_latex_strs('k_{r', '}', ks[1])), values_of(ks[1]), kr, r'k_\{r%d\}', 0)
    K = s.get_equilibrium_constant_syms()
    agree(''.join(s.get_latex_strs('K_{', '}', K)), values_of(K), [a/b for a, b in zip(kf, kr)], r'K_\{%d\}', 0)
    nets = s.get_net_rate_syms()
    agree(''.join(s.get_latex_strs('r_{', '}', nets)), values_of(nets), [a - b for a, b in zip(rf, rr)], r'r_\{%d\}', big)


TESTS = [Test('latex', symbol_cases(max_rxns=3, many=True), t_latex, 1280, 5000)]
