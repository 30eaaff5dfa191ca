"""C32: Newton iterators."""
import mpmath
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Test, Violation, check

RULE = ("non-trivial: (near, linear) the start is not the root; (far, constrained) at least three iterates "
        "were taken; (missing, singular) always")


# A system is f_i(x) = sum_j A_ij d_j + sum_jk B_ijk d_j d_k + c_i d_i^3 with d = x - root.
@st.composite
def systems(draw, quadratic, cubic, rows=0):
    n = draw(st.integers(1, 4))
    m = n + rows
    small = gen.nice(-1, 1)
    A = [[draw(small) for _ in range(n)] for _ in range(m)]
    for i in range(n):       # rows dominated by their diagonal, so the matrix is well-conditioned
        A[i][i] = draw(st.sampled_from([-1, 1]))*round(sum(abs(v) for j, v in enumerate(A[i]) if j != i) + draw(gen.nice(1, 3)), 3)
    B = [[[draw(gen.nice(-quadratic, quadratic)) if quadratic else 0.0 for _ in range(n)] for _ in range(n)] for _ in range(m)]
    c = [draw(gen.nice(-cubic, cubic)) if cubic else 0.0 for _ in range(n)]
    # functions of different scale make the damping reject good steps unless they are linear
    scale = [draw(st.sampled_from([1.0, 1.0, 1e-6, 1e4])) for _ in range(m)] if rows == 0 and quadratic != 0.05 else [1.0]*m
    order = draw(st.permutations(range(m))) if rows == 0 else list(range(m))
    return dict(A=A, B=B, c=c, scale=scale, order=list(order), root=[draw(gen.nice(-3, 3)) for _ in range(n)],
                dps=draw(st.sampled_from([15, 30, 50, 100])))


def functions(case, mp):
    A, B, c = case['A'], case['B'], case['c']
    n = len(case['root'])
    r = [mp.mpf(v) for v in case['root']]
    conv = mp.mpf

    def f(x):
        d = [conv(x[j]) - r[j] for j in range(n)]
        out = []
        for i in case['order']:
            v = mp.mpf(0)
            for j in range(n):
                v += conv(A[i][j])*d[j]
                for k in range(n):
                    v += conv(B[i][j][k])*d[j]*d[k]
            if i < n:
                v += conv(c[i])*d[i]**3
            out.append(v*conv(case['scale'][i]))
        return out

    def J(x):
        d = [conv(x[j]) - r[j] for j in range(n)]
        M = mp.matrix(len(A), n)
        for row, i in enumerate(case['order']):
            for j in range(n):
                v = conv(A[i][j])
                for k in range(n):
                    v += (conv(B[i][j][k]) + conv(B[i][k][j]))*d[k]
                if i == j:
                    v += 3*conv(c[i])*d[i]**2
                M[row, j] = v*conv(case['scale'][i])
        return M
    return f, J


def start(case, mp):
    x0 = [mp.mpf(r) + mp.mpf(o) for r, o in zip(case['root'], case['offset'])]
    return {'tuple': tuple, 'list': list, 'matrix': mp.matrix}[case['form']](x0)


def error(case, x):
    return max(abs(ref.mpf(a) - ref.mpf(r)) for a, r in zip(x, case['root']))


def truthful(case, x, norm, fx, tol):
    """Reported value and norm belong to the reported point."""
    f, _ = functions(case, ref._ctx)
    want = f([ref.mpf(v) for v in x])
    big = [sum(abs(v) for v in row) for row in zip(want)]
    scale = max([1] + [abs(ref.mpf(v)) for v in x])**3*100*max(case['scale'])
    check(len(fx) == len(want), '%d values for %d functions', len(fx), len(want))
    for a, b in zip(fx, want):
        check(abs(ref.mpf(a) - b) <= tol*(scale + max(big)), 'value %s reported, at the reported point it is %s', a, b)
    w = sum(v*v for v in want)**0.5
    check(abs(ref.mpf(norm) - w) <= tol*(scale + w)*4, 'norm %s reported, at the reported point it is %s', norm, w)
    return w


def iterations(case, **kw):
    from scaks.solvers.rootfinding_iterators import MDNewton
    mp = mpmath.mp
    mp.dps = case['dps']
    f, J = functions(case, mp)
    if case.get('jacobian', True):
        kw['J'] = J
    return MDNewton(f, start(case, mp), verbose=case.get('verbose', False), **kw)


def descent(case, it, n, ctx):
    """Iterates of the damped method; checks what every one of them has to fulfil."""
    eps = ref.mpf(10)**(3 - min(case['dps'], 46))
    f, _ = functions(case, mpmath.mp)
    mp = mpmath.mp
    x0 = start(case, mp)
    old = mp.norm(mp.matrix(f(x0)))
    out = []
    for i, (x, norm, fx) in enumerate(it):
        check(len(x) == len(case['root']), '%d unknowns', len(x))
        truthful(case, x, norm, fx, eps)
        check(norm <= old, 'norm rises from %s to %s', old, norm)
        old = norm
        out.append(x)
        if i + 1 >= n:
            break
    return out


def t_near(case, ctx):
    """Quadratic convergence close to a well-conditioned root."""
    n = len(case['root'])
    mp = mpmath.mp
    mp.dps = case['dps']
    e = error(case, start(case, mp))
    ctx.nontrivial(e > 0)
    ctx.label('%d unknowns' % n)
    floor = ref.mpf(10)**(5 - min(case['dps'], 46))*max(case['scale'])/min(case['scale'])
    xs = descent(case, iterations(case), 9, ctx)
    for i, x in enumerate(xs):
        new = error(case, x)
        check(new <= 1.5*e**2 + floor, 'iterate %d: distance from the root %s, before %s', i + 1, new, e)
        e = new
    check(e <= floor*10, 'distance from the root is %s after %d iterations', e, len(xs))


def t_linear(case, ctx):
    """One step solves a linear system."""
    mp = mpmath.mp
    mp.dps = case['dps']
    e = error(case, start(case, mp))
    ctx.nontrivial(e > 0)
    ctx.label('rows %d' % (len(case['A']) - len(case['root'])))
    floor = ref.mpf(10)**(6 - min(case['dps'], 46))*(max(case['scale'])/min(case['scale']) + 10)*(1 + e)
    for x in descent(case, iterations(case), 3, ctx):
        check(error(case, x) <= floor, 'distance from the root %s after a step from %s', error(case, x), e)


def t_far(case, ctx):
    """Any start: true reports and descent."""
    try:
        xs = descent(case, iterations(case), 12, ctx)
    except ZeroDivisionError:
        ctx.label('singular')
        return
    ctx.nontrivial(len(xs) > 2)


def t_numeric(case, ctx):
    """Without a Jacobian the iterator finds the root as well."""
    mp = mpmath.mp
    mp.dps = case['dps']
    ctx.nontrivial(error(case, start(case, mp)) > 0)
    xs = descent(dict(case), iterations(dict(case, jacobian=False)), 12, ctx)
    limit = ref.mpf(10)**(-min(case['dps'], 46)/2.0)*max(case['scale'])/min(case['scale'])
    check(error(case, xs[-1]) <= limit, 'distance from the root is %s after %d iterations', error(case, xs[-1]), len(xs))


# ---------------------------------------------------------------- constrained
def constraint_of(case, mp, calls):
    kind, lo, hi = case['box']

    def fn(x):
        if kind == 'none':
            out = tuple(x)
        elif kind == 'clip':
            out = tuple(min(max(v, mp.mpf(lo)), mp.mpf(hi)) for v in x)
        else:       # scale towards the origin
            s = sum(abs(v) for v in x)
            out = tuple(v*mp.mpf(hi)/s for v in x) if s > hi else tuple(x)
        calls.append((tuple(x), out))
        return out
    return fn


def parameters(case, mp, calls):
    f, J = functions(case, mp)
    return f, dict(J=J, constraint=constraint_of(case, mp, calls), norm=lambda v: mp.norm(v, p=2), mpfloat=mp.mpf,
                   matrix=mp.matrix, Axb_solver=mp.lu_solve)


def t_constrained(case, ctx):
    from scaks.solvers.rootfinding_iterators import ConstrainedNewton
    mp = mpmath.mp
    mp.dps = case['dps']
    calls = []
    f, kw = parameters(case, mp, calls)
    eps = ref.mpf(10)**(3 - min(case['dps'], 46))
    e0 = error(case, start(case, mp))
    xs = []
    try:
        for i, (x, norm, fx) in enumerate(ConstrainedNewton(f, start(case, mp), **kw)):
            truthful(case, x, norm, fx, eps)
            xs.append(x)
            if i < 5:
                check(not calls, 'constraint applied to iterate %d', i + 1)
            else:
                check(len(calls) >= 1, 'constraint not applied to iterate %d', i + 1)
                check(tuple(x) == calls[-1][1], 'iterate %d is %r, the constraint gave %r', i + 1, x, calls[-1][1])
                if case['box'][0] == 'clip':
                    check(all(case['box'][1] <= v <= case['box'][2] for v in x), 'iterate %d violates the constraint: %r', i + 1, x)
                calls[:] = []
            if i + 1 >= case['steps']:
                break
    except (ValueError, ZeroDivisionError) as e:       # singular Jacobian
        ctx.label('singular')
        return
    except RuntimeError as e:
        # scipy's line search cannot bracket a minimum where the function is flat, that is at a root
        ctx.label('line search')
        check(not xs or error(case, xs[-1]) < 1e-3 or not case['close'], 'line search failed at distance %s', error(case, (xs or [start(case, mp)])[-1]))
        return
    ctx.nontrivial(len(xs) > 2)
    if case['close'] and xs:
        e = e0
        for x in xs[:5]:
            new = error(case, x)
            check(new <= 6*e**2 + 1e-4*e + 1e-13*(1 + max(abs(v) for v in case['root'])), 'distance from the root %s, before %s', new, e)
            e = new


def t_missing(case, ctx):
    from scaks.errors.error import ParameterError
    from scaks.solvers.rootfinding_iterators import ConstrainedNewton
    ctx.nontrivial()
    mp = mpmath.mp
    f, kw = parameters(case, mp, [])
    for k in case['missing']:
        kw.pop(k)
    try:
        ConstrainedNewton(f, start(case, mp), **kw)
    except ParameterError:
        return
    raise Violation('accepted without %r' % (case['missing'],))


def t_singular(case, ctx):
    """No iterate is reported where the step is not defined."""
    from scaks.solvers.rootfinding_iterators import ConstrainedNewton, MDNewton
    mp = mpmath.mp
    mp.dps = 30
    ctx.nontrivial()
    n = case['n']
    M = [[mp.mpf(v) for v in row] for row in case['rows']]
    M[case['i'] % n] = [v*case['k'] for v in M[case['j'] % n]] if case['i'] % n != case['j'] % n else [mp.mpf(0)]*n

    def f(x):
        return [sum(a*b for a, b in zip(row, x)) + 1 for row in M]

    def J(x):
        return mp.matrix(M)
    x0 = tuple(mp.mpf(v) for v in case['x0'])
    for make in (lambda: MDNewton(f, x0, J=J, verbose=False),
                 lambda: ConstrainedNewton(f, x0, J=J, constraint=lambda x: x, norm=mp.norm, mpfloat=mp.mpf, matrix=mp.matrix, Axb_solver=mp.lu_solve)):
        old = mp.norm(mp.matrix(f(x0)))
        try:
            for i, (x, norm, fx) in enumerate(make()):
                check(abs(norm - mp.norm(mp.matrix(f(x)))) <= mp.mpf(10)**-20*(1 + abs(norm)), 'norm %s is not the one at the reported point', norm)
                if i > 3:
                    break
        except (ZeroDivisionError, ValueError, TypeError, RuntimeError):
            ctx.label('refused')


@st.composite
def starts(draw, base, radius, digits=3):
    case = draw(base)
    case['offset'] = [draw(st.one_of(gen.nice(-radius, radius, digits), st.just(0.0))) for _ in case['root']]
    case['form'] = draw(st.sampled_from(['tuple', 'list', 'matrix']))
    case['verbose'] = draw(st.booleans())
    return case


@st.composite
def boxes(draw):
    close = draw(st.booleans())
    case = draw(starts(systems(0.05, 0), 0.1) if close else starts(systems(2, 1), 20))
    case['form'] = 'tuple'
    case['close'] = close
    if close:       # the line search balances the functions, so their scales have to be alike
        case['scale'] = [1.0]*len(case['scale'])
    lo = draw(gen.nice(-2, 1))
    case['box'] = (draw(st.sampled_from(['none', 'clip', 'clip', 'scale'])), lo, lo + draw(gen.nice(0.5, 4)))
    if case['box'][0] == 'scale':
        case['box'] = ('scale', 0, draw(gen.nice(0.2, 2)))
    case['steps'] = draw(st.sampled_from([5, 7, 8, 10]))
    return case


@st.composite
def missing(draw):
    case = draw(boxes())
    case['missing'] = draw(st.lists(st.sampled_from(['J', 'constraint', 'norm', 'mpfloat', 'matrix', 'Axb_solver']), unique=True, min_size=1))
    return case


@st.composite
def singular(draw):
    n = draw(st.integers(1, 3))
    return dict(n=n, rows=[[draw(gen.nice(-3, 3)) for _ in range(n)] for _ in range(n)], i=draw(st.integers(0, 2)), j=draw(st.integers(0, 2)),
                k=draw(st.sampled_from([0, 1, 2, -1])), x0=[draw(gen.nice(-3, 3)) for _ in range(n)])


TESTS = [Test('near', starts(systems(0.05, 0), 0.1), t_near, 400, 10000),
         Test('linear', starts(st.one_of(systems(0, 0), systems(0, 0), systems(0, 0, rows=1), systems(0, 0, rows=2)), 10), t_linear, 400, 10000),
         Test('far', starts(systems(2, 1), 20), t_far, 300, 8000),
         Test('numeric', starts(systems(0.05, 0), 0.1), t_numeric, 150, 4000),
         Test('constrained', boxes(), t_constrained, 200, 6000),
         Test('missing', missing(), t_missing, 150, 2000),
         Test('singular', singular(), t_singular, 150, 2000)]
