"""C27: coordinate groups (model-based operation histories)."""
import copy

from hypothesis import strategies as st

from pbt.core import Test, Violation, check

RULE = "non-trivial: (merge) the groups share a point and differ in another, (history) at least three operations"
TOL = 1e-4
ELEMENTS = ['V', 'A', 'B_u', 'O_s', 'v', '']
# offsets well inside and well outside the tolerance
NEAR = [0.0, 0.0, 0.0, 3e-5, -4e-5]
FAR = [3e-4, -0.01, 2.5e-4]
GRID = st.sampled_from([-1.0, -0.5, 0.0, 0.5, 1.0, 20.0, -300.0])


@st.composite
def group(draw, min_size=0, base=None, max_size=6):
    """Distinct grid points, some moved a little (in or beyond the tolerance)."""
    pts = [list(p) for p in draw(st.lists(st.tuples(GRID, GRID, GRID), min_size=min_size, max_size=max_size, unique=True))]
    if base:
        for p in base:
            if len(pts) < 9 and draw(st.integers(0, 2)) == 0:
                q = [round(x*2)/2. for x in p]
                if q in pts:
                    continue
                pts.insert(draw(st.integers(0, len(pts))), q)
    for p in pts:
        if draw(st.integers(0, 3)) == 0:
            p[draw(st.integers(0, 2))] += draw(st.sampled_from(NEAR + FAR))
    els = draw(st.one_of(st.none(), st.lists(st.sampled_from(ELEMENTS), min_size=len(pts), max_size=len(pts))))
    return [pts, els]


def same(p, q):
    return all(abs(a - b) <= TOL for a, b in zip(p, q))


def named(g):
    return g[0], (['V']*len(g[0]) if g[1] is None else g[1])


def merge(a, b):
    """Reference: points of a, then points of b that coincide with none of a."""
    (c1, e1), (c2, e2) = a, b
    coords, els = [list(c) for c in c1], list(e1)
    for c, e in zip(c2, e2):
        for i, r in enumerate(c1):
            if same(c, r):
                if e1[i] == 'V' and e != 'V':
                    els[i] = e
                break
        else:
            coords.append(list(c))
            els.append(e)
    return coords, els


def make(g):
    from scaks.utilities.coordinate_utilities import CoordsGroup
    g = copy.deepcopy(g)
    if g[1] is None:
        return CoordsGroup(g[0])
    return CoordsGroup(g[0], g[1])


def state(cg):
    return [list(map(float, c)) for c in cg.coordinates()], list(cg.elements())


def equal(got, want, tol=0.0):
    return (got[1] == list(want[1]) and len(got[0]) == len(want[0]) and
            all(len(a) == 3 and all(abs(x - y) <= tol for x, y in zip(a, b)) for a, b in zip(got[0], want[0])))


@st.composite
def pairs(draw):
    a = draw(group())
    b = draw(group(base=a[0]))
    # a point may coincide with one point of the other group only
    for g, h in ((a, b), (b, a)):
        for p in g[0]:
            if sum(same(p, q) for q in h[0]) > 1:
                g[0], g[1] = [], None
                break
    return dict(a=a, b=b, v=[draw(gen_float()) for _ in range(3)], w=[draw(gen_float()) for _ in range(3)])


def gen_float():
    return st.sampled_from([0.0, 0.5, -1.0, 0.25, 3.125, -2.5, 0.1, 1e-5, 100.0, 1/3., -2.598076211])


def t_merge(case, ctx):
    a, b = named(case['a']), named(case['b'])
    A, B = make(case['a']), make(case['b'])
    common = sum(any(same(p, q) for q in a[0]) for p in b[0])
    ctx.nontrivial(0 < common < len(b[0]))
    if any(same(p, q) and p != q for p in a[0] for q in b[0]):
        ctx.label('coincide within the tolerance')
    if any(same(p, q) and x != y and 'V' in (x, y) for p, x in zip(*a) for q, y in zip(*b)):
        ctx.label('vacancy meets an element')
    if any(same(p, q) and x != y and 'V' not in (x, y) for p, x in zip(*a) for q, y in zip(*b)):
        ctx.label('two elements meet')
    check(equal(state(A), a) and equal(state(B), b), 'groups are %r and %r', state(A), state(B))
    check(len(A) == len(a[0]), 'length %d', len(A))
    S = A + B
    want = merge(a, b)
    check(equal(state(S), want), '%r + %r = %r, expected %r', a, b, state(S), want)
    check(len(S) == len(want[0]), 'length of the sum is %d', len(S))
    check(equal(state(A), a) and equal(state(B), b), 'adding changed its operands: %r, %r', state(A), state(B))
    check(equal(state(B + A), merge(b, a)), 'sum in the other order is wrong')
    check(equal(state(A + A), a), 'adding a group to itself gives %r', state(A + A))
    check(equal(state(S + A), want) and equal(state(S + S), want), 'adding what is already there changes the group')
    # the sum does not share its lists with the operands
    S.append([77.0, 0.0, 0.0], 'A')
    check(equal(state(A), a) and equal(state(B), b), 'appending to the sum changed an operand')


def t_move(case, ctx):
    a = named(case['a'])
    A = make(case['a'])
    v, w = case['v'], case['w']
    ctx.nontrivial(len(a[0]) > 0 and any(v))

    def shift(p, *vs):
        return [x + sum(u[i] for u in vs) for i, x in enumerate(p)]
    tol = 1e-9
    M = A.move(list(v))
    check(equal(state(M), ([shift(p, v) for p in a[0]], a[1]), tol), 'moved by %r: %r -> %r', v, a, state(M))
    check(equal(state(A), a), 'moving changed the group: %r', state(A))
    check(all(type(c) is list and all(type(x) is float for x in c) for c in M.coordinates()), 'coordinates are not lists of floats')
    check(equal(state(M.move([-x for x in v])), a, tol), 'moving back does not invert')
    check(equal(state(M.move(list(w))), ([shift(p, v, w) for p in a[0]], a[1]), tol), 'moves do not compose')
    check(equal(state(A.move()), a, tol), 'moving by nothing gives %r', state(A.move()))
    M.append([77.0, 0.0, 0.0], 'A')
    check(equal(state(A), a), 'appending to the moved group changed the original')
    B = make(case['b'])
    check(equal(state((A + B).move([0.5, -1.0, 0.25])), state(A.move([0.5, -1.0, 0.25]) + B.move([0.5, -1.0, 0.25])), 1e-3),
          'moving does not commute with adding')


@st.composite
def histories(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(['append', 'append', 'extend', 'add', 'iadd', 'move', 'self']))
        if op == 'append':
            p = [draw(GRID) + 10.0*len(ops), draw(GRID), draw(GRID)]
            ops.append((op, p, draw(st.one_of(st.none(), st.sampled_from(ELEMENTS)))))
        elif op in ('extend', 'add', 'iadd'):
            ops.append((op, draw(group(max_size=3))))
        elif op == 'move':
            ops.append((op, [draw(st.sampled_from([0.0, 0.5, -1.0, 2.0, 1/3.])) for _ in range(3)]))
        else:
            ops.append((op,))
    return dict(start=draw(st.one_of(st.none(), group(max_size=4))), ops=ops)


def t_history(case, ctx):
    from scaks.utilities.coordinate_utilities import CoordsGroup
    cur = CoordsGroup() if case['start'] is None else make(case['start'])
    ref = ([], []) if case['start'] is None else [copy.deepcopy(x) for x in named(case['start'])]
    ref = (list(ref[0]), list(ref[1]))
    ctx.nontrivial(len(case['ops']) >= 3)
    old = []
    for op in copy.deepcopy(case['ops']):
        ctx.label(op[0])
        if op[0] == 'append':
            if op[2] is None:
                cur.append(op[1])
            else:
                cur.append(op[1], op[2])
            ref[0].append(op[1])
            ref[1].append('V' if op[2] is None else op[2])
        elif op[0] == 'extend':
            g = named(op[1])
            if op[1][1] is None:
                cur.extend(op[1][0])
            else:
                cur.extend(op[1][0], op[1][1])
            ref[0].extend(g[0])
            ref[1].extend(g[1])
        elif op[0] in ('add', 'iadd'):
            g = named(op[1])
            old.append((cur, copy.deepcopy(ref)))
            other = make(op[1])
            if op[0] == 'add':
                cur = cur + other
                ref = merge(ref, g)
            else:
                cur = other + cur
                ref = merge(g, ref)
            check(equal(state(other), g), 'operand changed to %r', state(other))
        elif op[0] == 'move':
            old.append((cur, copy.deepcopy(ref)))
            cur = cur.move(list(op[1]))
            ref = ([[a + b for a, b in zip(p, op[1])] for p in ref[0]], list(ref[1]))
        else:
            old.append((cur, copy.deepcopy(ref)))
            cur = cur + cur
            ref = merge(ref, ref)
        check(equal(state(cur), ref, 1e-9), 'after %r the group is %r, expected %r', op, state(cur), ref)
        check(len(cur) == len(ref[0]) == len(cur.coordinates()) == len(cur.elements()), 'lengths disagree')
    for cg, was in old:
        check(equal(state(cg), was, 1e-9), 'an earlier group changed from %r to %r', was, state(cg))
    fresh = CoordsGroup()
    check(len(fresh) == 0 and fresh.elements() == [], 'a new group has %r', state(fresh))


BAD_POINT = [[0.0, 1.0], [0.0, 1.0, 2.0, 3.0], (0.0, 1.0, 2.0), [0, 1.0, 2.0], [0.0, '1', 2.0], None, 'abc', [], [0.0, None, 1.0], 1.0]
BAD_ELEMENT = [1, 1.5, ['A'], ('A',), b'A', {}]
BAD_VECTOR = [[0.0, 1.0], [0.0, 1.0, 2.0, 3.0], (0.0, 1.0, 2.0), 'abc', 1.0, []]


@st.composite
def bad(draw):
    return dict(g=draw(group(min_size=1)), kind=draw(st.sampled_from(['point', 'element', 'vector', 'new', 'extend length', 'extend point'])),
                i=draw(st.integers(0, 20)))


def t_refuse(case, ctx):
    from scaks.utilities.coordinate_utilities import CoordsGroup
    a = named(case['g'])
    A = make(case['g'])
    kind, i = case['kind'], case['i']
    ctx.nontrivial()
    ctx.label(kind)
    good = [5.0, 5.0, 5.0]
    try:
        if kind == 'point':
            A.append(copy.deepcopy(BAD_POINT[i % len(BAD_POINT)]), 'A')
        elif kind == 'element':
            A.append(good, BAD_ELEMENT[i % len(BAD_ELEMENT)])
        elif kind == 'vector':
            A.move(BAD_VECTOR[i % len(BAD_VECTOR)])
        elif kind == 'new':
            els = list(a[1])
            CoordsGroup([list(p) for p in a[0]], els[:-1] if i % 2 else els + ['V'])
        elif kind == 'extend length':
            A.extend([good, [6.0, 5.0, 5.0]], ['A'] if i % 2 else ['A', 'B', 'C'])
        elif kind == 'extend point':
            A.extend([copy.deepcopy(BAD_POINT[i % len(BAD_POINT)])], ['A'])
    except ValueError:
        check(equal(state(A), a) and len(A) == len(a[0]), 'refusing changed the group from %r to %r', a, state(A))
        return
    raise Violation('%s %d accepted' % (kind, i))


TESTS = [Test('merge', pairs(), t_merge, 3000, 60000), Test('move', pairs(), t_move, 2000, 40000),
         Test('history', histories(), t_history, 2000, 40000), Test('refuse', bad(), t_refuse, 1000, 15000)]
