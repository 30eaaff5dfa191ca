"""C28: on-the-fly analysis plugins."""
from hypothesis import strategies as st

from pbt import ref
from pbt.checks.c14 import cases as general, hybrid, no_solution, solvable
from pbt.core import Test, Violation, check

RULE = ("non-trivial: (protocol) a Newton iteration with at least two registered steps or a restart; "
        "(classes) the class has a parent plugin; (refuse) always")
mp = ref._ctx
METHODS = ('setup', 'register_step', 'finalize')


@st.composite
def plugin(draw):
    """Levels of a class hierarchy: (own methods, own interval, mixin methods)."""
    levels = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        levels.append((draw(st.lists(st.sampled_from(METHODS), unique=True, max_size=3)),
                       draw(st.sampled_from([None, None, 1, 2, 3, 5])),
                       draw(st.lists(st.sampled_from(METHODS), unique=True, max_size=2)) if draw(st.integers(0, 4)) == 0 else []))
    return levels


@st.composite
def protocols(draw):
    case = draw(st.one_of(solvable(), general(max_rxns=3)))
    case['iters'] = draw(st.sampled_from([2, 3, 4, 7, 20]))
    case['tol'] = draw(st.sampled_from([1e-8, 1e-12]))
    case['method'] = draw(st.sampled_from(['MDNewton', 'MDNewton', 'ConstrainedNewton']))
    case['plugins'] = draw(st.lists(plugin(), max_size=3))
    case['twice'] = draw(st.booleans())
    # a plugin class may be registered more than once
    case['again'] = draw(st.sampled_from([None, None, 0, 1, 2]))
    return case


def build(levels, tag, log):
    from scaks.plugins.analysis import OnTheFlyAnalysis

    def make(name, method):
        if method == 'register_step':
            def fn(self, model, inner_counter, outer_counter):
                log.append((name, method, model, inner_counter, outer_counter, [ref.mpf(v) for v in model.solver.coverages], ref.mpf(model.solver.error)))
        else:
            def fn(self, model, outer_counter):
                log.append((name, method, model, None, outer_counter, None, None))
        return fn
    cls = OnTheFlyAnalysis
    effective, interval = {}, 1
    for i, (methods, own, mixed) in enumerate(levels):
        bases = (cls,)
        if mixed:
            name = '%s.mixin%d' % (tag, i)
            bases = (type('Mixin', (object,), {m: make(name, m) for m in mixed}), cls)
            for m in mixed:
                effective[m] = name
        name = '%s.%d' % (tag, i)
        attrs = {m: make(name, m) for m in methods}
        for m in methods:
            effective[m] = name
        if own is not None:
            attrs['interval'] = own
            interval = own
        cls = type(OnTheFlyAnalysis)('Plugin%d' % i, bases, attrs)
    return cls, effective, interval


def solve(case, net, plugins, log, label):
    """Run one model with the plugins, return (outcome, model, guesses taken)."""
    import mpmath
    m = ref.model(case, rootfinding=case['method'], decimal_precision=case['dps'], tolerance=case['tol'],
                  max_rootfinding_iterations=case['iters'])
    taken = []
    inner = hybrid(case['more'])

    def fn(model, n):
        out = inner(model, n)
        taken.append(n)
        return out
    m.hybrid_method_register(fn)
    for cls in plugins:
        m.analysis_register(cls)
    check(len(m.analysis) == len(plugins) and all(isinstance(a, c) for a, c in zip(m.analysis, plugins)),
          '%s has the plugins %r', label, m.analysis)
    kw = {}
    if case['alt'] is not None:
        f, r, d = net.relative(*case['alt'])
        kw['relative_energies'] = dict(Gaf=f, Gar=r, dG=d)
    try:
        got = m.solver.get_steady_state_cvgs(c0=[mpmath.mpf(v) for v in case['c0']], single_pt=case['single'], **kw)
        outcome = ('none',) if got is None else ('ok', [ref.mpf(v) for v in got], ref.mpf(m.solver.error))
    except Exception as e:
        if not no_solution(e):
            raise
        outcome = ('raised', type(e).__name__)
    return outcome, m, taken


PROBE = [(list(METHODS), None, [])]


def protocol(log, name, m, interval, effective):
    """Check the calls of one plugin; return list of (outer, inners)."""
    mine = [l for l in log if l[0].split('.')[0] == name]
    for l in mine:
        check(l[2] is m, '%s: %s got another model', name, l[1])
        check(effective.get(l[1]) == l[0], '%s: %s of %s was called instead of %s', name, l[1], l[0], effective.get(l[1]))
    return mine


def newton(net, kf, kr, cvgs):
    """Newton step at some coverages, None where it is not well defined."""
    x = net.activities(dict(zip(net.ads, cvgs)))
    d, _ = net.dtheta(*net.rates(kf, kr, x))
    J, _ = net.jacobian(kf, kr, x)
    if not all(any(row) for row in J):
        return None
    size = [max(map(abs, row)) for row in J]
    J = mp.matrix([[v/q for v in row] for q, row in zip(size, J)])
    try:
        inverse = mp.inverse(J)
    except ZeroDivisionError:
        return None
    if max(map(abs, inverse)) > 1e12:
        return None
    return list(inverse*mp.matrix([-v/q for q, v in zip(size, d)]))


def steps_taken(case, net, m, rounds, ctx):
    """Plugins see the coverages and the error of their own step."""
    e = net.relative(*(case['alt'] or (case['Ga'], case['dG'])))
    kf, kr = net.rate_constants(e[0], e[1])
    for o, steps in rounds:
        before = None
        if o == 1 or o - 2 < len(case['more']):
            before = [ref.mpf(v) for v in (case['c0'] if o == 1 else case['more'][o - 2])]
            x = net.activities(dict(zip(net.ads, before)))
            if any(x[k] <= 1e-9 for k in net.ads + net.sites):
                before = None           # (may be moved to the range that is allowed)
        for n, cvg, err in steps:
            x = net.activities(dict(zip(net.ads, cvg)))
            d, scale = net.dtheta(*net.rates(kf, kr, x))
            big = net.dtheta(*net.rates(kf, kr, {k: abs(v) + max(map(abs, cvg)) + 1 for k, v in x.items()}))[1]
            noise = max(big)*(ref.mpf(10)**(3 - min(case['dps'], 46)) + ref.mpf(10)**-9)
            values = [max(abs(v) for v in d), sum(v*v for v in d)**0.5]
            check(any(abs(err - v) <= 1e-6*v + noise for v in values), 'step %d of iteration %d: the error is %s, at the coverages %r it is %s',
                  n, o, err, [float(v) for v in cvg], values)
            if max(values) > 10*noise:
                ctx.label('error')
            if before is not None and case['method'] == 'MDNewton' and n <= 4:
                s = newton(net, kf, kr, before)
                size = max(map(abs, s)) if s else 0
                if size > 0:
                    moved = [a - b for a, b in zip(cvg, before)]
                    i = max(range(len(s)), key=lambda k: abs(s[k]))
                    l = moved[i]/s[i]
                    check(-1e-4 <= l <= 1.0001 and all(abs(a - l*b) <= 1e-4*size*max(l, ref.mpf(10)**-6) + 1e-12*size + ref.mpf(10)**-15 for a, b in zip(moved, s)),
                          'step %d of iteration %d: plugins see %r after %r, which is no part of the Newton step %r', n, o,
                          [float(v) for v in cvg], [float(v) for v in before], [float(v) for v in s])
                    ctx.label('Newton step')
            before = cvg


def t_protocol(case, ctx):
    net = ref.Net(case)
    if not net.ads:
        return
    log, quiet = [], []
    probe, eff, _ = build(PROBE, 'probe', log)
    built = [build(p, 'p%d' % i, log) for i, p in enumerate(case['plugins'])]
    classes = [b[0] for b in built]
    again = case.get('again')
    again = again if again is not None and again < len(built) else None
    if again is not None:
        ctx.label('class registered twice')
        classes.append(classes[again])
    k = len(classes)//2
    classes.insert(k, probe)
    outcome, m, taken = solve(case, net, classes, log, 'model')
    ctx.label(outcome[0])
    # the probe sees everything
    rounds, open_ = [], None
    for tag, what, model, inner, outer, cvg, err in [l for l in log if l[0].startswith('probe')]:
        check(model is m, 'plugin got another model')
        check(type(outer) is int and outer >= 1, 'outer counter %r', outer)
        if what == 'setup':
            check(open_ is None, 'setup(%r) before the previous iteration was finalized', outer)
            open_ = [outer, []]
        elif what == 'register_step':
            check(open_ is not None and open_[0] == outer, 'step of iteration %r outside of it', outer)
            open_[1].append((inner, cvg, err))
        else:
            check(open_ is not None and open_[0] == outer, 'finalize(%r) without its setup', outer)
            rounds.append(open_)
            open_ = None
    check(open_ is None, 'iteration %r was never finalized', open_ and open_[0])
    outers = [r[0] for r in rounds]
    check(outers == list(range(1, len(outers)+1)), 'outer counters %r', outers)
    for o, steps in rounds:
        inners = [s[0] for s in steps]
        check(inners == list(range(1, len(inners)+1)), 'inner counters %r in iteration %d', inners, o)
        check(len(inners) <= case['iters'], '%d steps, at most %d allowed', len(inners), case['iters'])
    if case['single']:
        check(len(rounds) == 1 + len(taken), '%d iterations reported, %d started', len(rounds), 1 + len(taken))
    else:
        check(len(rounds) <= 1 + len(taken), '%d iterations reported, %d started', len(rounds), 1 + len(taken))
        check(len(rounds) >= len(taken), '%d iterations reported, at least %d started', len(rounds), len(taken))
    ctx.nontrivial(len(rounds) > 1 or any(len(r[1]) >= 2 for r in rounds))
    if len(rounds) > 1:
        ctx.label('restarted')
    if taken == list(range(1, len(taken) + 1)):
        steps_taken(case, net, m, rounds, ctx)
    # every other plugin sees its share
    for i, (cls, effective, interval) in enumerate(built):
        name = 'p%d' % i
        mine = protocol(log, name, m, interval, effective)
        want = []
        for o, steps in rounds:
            if 'setup' in effective:
                want.append(('setup', None, o))
            if 'register_step' in effective:
                want += [('register_step', n, o) for n, _, _ in steps if n % interval == 0]
            if 'finalize' in effective:
                want.append(('finalize', None, o))
        if i == again:
            want = [w for w in want for _ in range(2)]
        got = [(l[1], l[3], l[4]) for l in mine]
        check(got == want, 'plugin %r with interval %d got %r, expected %r', case['plugins'][i], interval, got, want)
        if interval > 1:
            ctx.label('interval above one')
        # and the same state as the probe
        seen = {(o, n): (c, e) for o, steps in rounds for n, c, e in steps}
        for l in mine:
            if l[1] == 'register_step':
                check((l[5], l[6]) == seen[(l[4], l[3])], 'plugins see different coverages or errors in one step')
    # plugins change nothing, and belong to their model
    size = len(log)
    plain, m2, taken2 = solve(case, net, [], quiet, 'second model')
    check(len(log) == size, 'plugins of the first model were called for another model')
    check(plain[0] == outcome[0] and taken2 == taken, 'without plugins the outcome is %r (%r), with them %r (%r)', plain[0], taken2,
          outcome[0], taken)
    if plain[0] == 'ok':
        check(plain[1] == outcome[1] and plain[2] == outcome[2], 'result with plugins %r, without %r', outcome[1:], plain[1:])
    if case['twice'] and outcome[0] == 'ok':
        # a further solve of the first model starts counting again
        start = len(log)
        import mpmath
        m.hybrid_method_register(hybrid(case['more']))
        try:
            m.solver.get_steady_state_cvgs(c0=[mpmath.mpf(v)/2 for v in case['c0']], single_pt=True)
        except Exception as e:
            if not no_solution(e):
                raise
        calls = [(l[1], l[4]) for l in log[start:] if l[0].startswith('probe') and l[1] != 'register_step']
        n = len(calls)//2
        check(calls == [c for o in range(1, n+1) for c in (('setup', o), ('finalize', o))] and n >= 1, 'second solve reports %r', calls)


@st.composite
def hierarchies(draw):
    return dict(a=draw(plugin()), b=draw(plugin()))


def t_classes(case, ctx):
    """Call the callbacks of generated classes directly."""
    log = []
    ctx.nontrivial(len(case['a']) > 1)

    class Solver(object):
        coverages = (0.5,)
        error = 0.25

    class Model(object):
        solver = Solver()
    m = Model()
    for tag in 'ab':
        cls, effective, interval = build(case[tag], tag, log)
        obj = cls()
        check(obj.interval == interval, 'interval is %r, expected %r', obj.interval, interval)
        for method in METHODS:
            del log[:]
            args = (m, 4, 7) if method == 'register_step' else (m, 7)
            check(getattr(obj, method)(*args) is None, '%s returned something', method)
            if method == 'register_step':
                getattr(obj, method)(model=m, inner_counter=4, outer_counter=7)
            else:
                getattr(obj, method)(model=m, outer_counter=7)
            got = [(l[0], l[1], l[3], l[4]) for l in log]
            want = [(effective[method], method, 4 if method == 'register_step' else None, 7)]*2 if method in effective else []
            check(got == want, '%s called %r, expected %r', method, got, want)
        check(obj.logger.name.startswith('scaks'), 'logger is %r', obj.logger.name)


@st.composite
def bad(draw):
    return dict(kind=draw(st.sampled_from(['interval', 'derived interval', 'method', 'register'])), i=draw(st.integers(0, 30)),
                levels=draw(plugin()))


SIMPLE = dict(rxns=[[[(1, 'CO', 1, 'g'), (1, '*', 1, 's')], None, [(1, 'CO', 1, 's')]]], gas={'CO_g': 1.0}, liq={},
              sites={'*_s': 1.0}, T=500.0, Ga=[0.0], dG=[-0.5])


def t_refuse(case, ctx):
    from scaks.plugins.analysis import OnTheFlyAnalysis
    kind, i = case['kind'], case['i']
    ctx.nontrivial()
    ctx.label(kind)
    meta = type(OnTheFlyAnalysis)
    try:
        if kind in ('interval', 'derived interval'):
            base = build(case['levels'], 'x', [])[0] if kind == 'derived interval' else OnTheFlyAnalysis
            value = [0, -1, 1.0, '2', None, True, [1], -100, 2.5][i % 9]
            meta('Bad', (base,), dict(interval=value))
        elif kind == 'method':
            value = [5, 'text', [], 1.5, {}][i % 5]
            meta('Bad', (OnTheFlyAnalysis,), {METHODS[i % 3]: value})
        else:
            m = ref.model(SIMPLE)

            class Plain(object):
                interval = 1

                def setup(self, model, outer_counter):
                    pass
            value = [Plain, object, dict, int][i % 4]
            try:
                m.analysis_register(value)
            finally:
                check(len(m.analysis) == 0, 'model has plugins %r', m.analysis)
    except (TypeError, AttributeError):
        return
    raise Violation('%s: %r accepted' % (kind, value))


TESTS = [Test('protocol', protocols(), t_protocol, 960, 10000, isolated=True),
         Test('classes', hierarchies(), t_classes, 1600, 15000),
         Test('refuse', bad(), t_refuse, 800, 5000, isolated=True)]
