"""C43: maps over two pressures show the collected values at their pressures."""
import itertools

from hypothesis import strategies as st

from pbt import gen
from pbt.checks.c40 import run_script
from pbt.checks.c41 import put
from pbt.core import Test, check

RULE = "non-trivial: at least one inner point of the map lies strictly between pressures of both axes and the values differ"
ASSUMPTIONS = ["a map is read from the arguments of the contour plots that matplotlib receives",
               "outside the collected pressures a map continues with the value at the border",
               "at least two values of each pressure, all different"]

KINDS = ['kmc CO', 'kmc O', 'kmc tofs', 'kmc phase', 'mkm CO', 'mkm O', 'mkm tofs', 'mkm phase']
SCRIPT = {'kmc CO': 'kmc_plot/map_plot/plot_CO_cvgs_contour.py', 'kmc O': 'kmc_plot/map_plot/plot_O_cvgs_contour.py',
          'kmc tofs': 'kmc_plot/map_plot/plot_tofs_contour.py', 'kmc phase': 'kmc_plot/map_plot/plot_phase_diagram.py',
          'mkm CO': 'mkm_plot/map_plot/plot_CO_cvgs_contour.py', 'mkm O': 'mkm_plot/map_plot/plot_O_cvgs_contour.py',
          'mkm tofs': 'mkm_plot/map_plot/plot_tof_contour.py', 'mkm phase': 'mkm_plot/map_plot/plot_phase_diagram.py'}


@st.composite
def map_cases(draw):
    case = dict(kind=draw(st.sampled_from(KINDS)), files=draw(st.booleans()))
    if not case['kind'].startswith('kmc'):
        case['files'] = False
    # pressures inside and outside the windows of the scripts
    small = case['kind'] in ('kmc CO', 'kmc O', 'kmc tofs')
    px = gen.nice(1e-5, 1e-4) if small else gen.nice(0.001, 0.5)
    py = gen.nice(0.001, 5 if small else 0.5)
    far = st.sampled_from([1e-05, 2e-06, 10.0, 9.0, 100.0, 0.5, 5.0])
    for name, p in (('pCO', px), ('pO2', py)):
        case[name] = draw(st.lists(st.one_of(p, p, p, far), min_size=2, max_size=5, unique=True))
        case[name] = draw(st.sampled_from([case[name], sorted(case[name]), sorted(case[name], key=str)]))
    nx, ny = len(case['pCO']), len(case['pO2'])
    scale = draw(st.sampled_from([1.0, 1.0, 1e3, 1e-6, 1e-9, 1e9]))
    case['scale'] = scale
    for name in ('CO', 'O', 'tofs'):
        case[name] = [draw(st.lists(gen.nice(0, 1), min_size=nx, max_size=nx)) for _ in range(ny)]
    return case


def bilinear(xs, ys, z, x, y):
    """Value at (x, y), with z[i][j] at (xs[j], ys[i]); the border continues."""
    def at(ps, p):
        ps = sorted(ps)
        p = min(max(p, ps[0]), ps[-1])
        for a, b in zip(ps, ps[1:]):
            if a <= p <= b:
                return a, b, (p - a)/(b - a)
    (xa, xb, tx), (ya, yb, ty) = at(xs, x), at(ys, y)

    def v(p, q):
        return z[ys.index(q)][xs.index(p)]
    return (1 - tx)*((1 - ty)*v(xa, ya) + ty*v(xa, yb)) + tx*((1 - ty)*v(xb, ya) + ty*v(xb, yb))


def t_map(case, ctx):
    import sys
    import warnings
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import numpy as np
    from matplotlib.axes import Axes
    kind, xs, ys = case['kind'], case['pCO'], case['pO2']
    values = {k: [[v*(case['scale'] if k == 'tofs' else 1) for v in row] for row in case[k]] for k in ('CO', 'O', 'tofs')}
    ctx.label(kind)
    if case['files']:
        # the whole way: result files of the jobs, the scripts that collect them, the plot
        ctx.label('collected')
        for i, y in enumerate(ys):
            for j, x in enumerate(xs):
                d = 'pO2-%s/pCO-%s/' % (y, x)
                put(d + 'auto_coverages.py', 'coverages = %r\n' % ([[0.5, 0.25], [0.125, values['O'][i][j]], [0.75, values['CO'][i][j]]],))
                rates = [0.0]*14
                rates[10], rates[12], rates[11], rates[0] = values['tofs'][i][j]*0.25, values['tofs'][i][j]*0.75, 7.0, 3.0
                put(d + 'auto_frequency.py', 'reaction_rates = %r\n' % ({'r%02d' % k: r for k, r in enumerate(rates)},))
        for n in ('extract_CO_cvgs', 'extract_O_cvgs', 'extract_tofs'):
            run_script('kmc_plot/map_plot/%s.py' % n, {})
    elif kind.startswith('kmc'):
        for n, k, q in (('CO-cvgs', 'CO', 'cvgs'), ('O-cvgs', 'O', 'cvgs'), ('tofs', 'tofs', 'tofs')):
            np.savez(n + '-data.npz', **{'pCOs': xs, 'pO2s': ys, q: values[k]})
    else:
        put('auto_cvgs.py', 'pCO = %r\npO2 = %r\ncvgs_O = %r\ncvgs_CO = %r\n' % (xs, ys, values['O'], values['CO']))
        put('auto_tofs.py', 'pCO = %r\npO2 = %r\ntofs = %r\n' % (xs, ys, values['tofs']))
    drawn, shown = [], []
    real = Axes.contourf, Axes.contour, plt.show, list(sys.path)

    def record(name, f):
        def inner(ax, *args, **kw):
            drawn.append((name, args, ax))
            return f(ax, *args, **kw)
        return inner
    plt.close('all')
    Axes.contourf, Axes.contour = record('filled', real[0]), record('lines', real[1])
    plt.show = lambda *a, **k: shown.append(1)
    sys.path.insert(0, '.')
    for m in ('auto_cvgs', 'auto_tofs'):
        sys.modules.pop(m, None)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            run_script(SCRIPT[kind], {})
        check(shown, 'no plot was shown')
        if kind.endswith('phase'):
            want = {'filled': [[o - c for o, c in zip(r, q)] for r, q in zip(values['O'], values['CO'])], 'lines': values['tofs']}
        else:
            want = {'filled': values[kind.split()[1]]}
        check(sorted({d[0] for d in drawn}) == sorted(want), 'drawn: %r, expected %r', sorted(d[0] for d in drawn), sorted(want))
        inner = False
        for name, args, ax in drawn:
            check('CO' in ax.get_xlabel() and 'O' in ax.get_ylabel() and 'CO' not in ax.get_ylabel(),
                  'axes are %r and %r', ax.get_xlabel(), ax.get_ylabel())
            x, y, z = (np.asarray(a, dtype=float) for a in args[:3])
            if x.ndim == 1:
                x, y = np.meshgrid(x, y)
            check(x.shape == y.shape == z.shape, 'shapes %r, %r and %r', x.shape, y.shape, z.shape)
            n, m = z.shape
            inner = inner or any(min(xs) < v < max(xs) for v in x[0]) and any(min(ys) < v < max(ys) for v in y[:, 0])
            big = max(abs(v) for row in want[name] for v in row)
            for i, j in itertools.product(sorted({0, 1, n - 1, *range(2, n, 7)}), sorted({0, 1, m - 1, *range(2, m, 9)})):
                w = bilinear(xs, ys, want[name], x[i, j], y[i, j])
                check(abs(z[i, j] - w) <= 1e-9*big + 1e-300, '%s map at pCO=%r, pO2=%r shows %r, expected %r',
                      name, float(x[i, j]), float(y[i, j]), float(z[i, j]), w)
        ctx.nontrivial(inner and all(len({v for row in w for v in row}) > 1 for w in want.values()))
    finally:
        Axes.contourf, Axes.contour, plt.show = real[:3]
        sys.path[:] = real[3]
        for m in ('auto_cvgs', 'auto_tofs'):
            sys.modules.pop(m, None)
        plt.close('all')


TESTS = [Test('map', map_cases(), t_map, 900, 4000)]
