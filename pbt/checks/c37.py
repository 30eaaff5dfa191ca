"""C37: energy profiles of the elementary reactions."""
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Test, check

RULE = ("non-trivial: at least two reactions, one with and one without a barrier above both ends")
ASSUMPTIONS = ["the curve between the states (interpolation, third-party catplot) is taken as given for a list of state energies"]


class Recorder(object):
    """Keeps what is in every figure when it is saved."""
    def __init__(self, real):
        from matplotlib.figure import Figure
        self.figures, self.real, self.cls = [], real, Figure

    def __enter__(self):
        self.original = original = self.cls.savefig

        def savefig(figure, name, *a, **k):
            lines = [(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), l.get_color(), l.get_linewidth())
                     for ax in figure.axes for l in ax.lines]
            limits = [(ax.get_xlim(), ax.get_ylim()) for ax in figure.axes]
            self.figures.append((os.path.normpath(name), lines, limits))
            if self.real:
                return original(figure, name, *a, **k)
            with open(name, 'w') as f:
                f.write('stand-in')
        self.cls.savefig = savefig
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        self.cls.savefig = self.original
        plt.close('all')


def expected(energies, options):
    from catplot.interpolate import get_potential_energy_points
    return get_potential_energy_points(energies, n=options.get('n', 100), hline_length=options.get('hline_length', 1.0),
                                       peak_width=options.get('peak_width', 1.0), kind=options.get('interp_method', 'spline'))


def t_profiles(case, ctx):
    net = ref.Net(case)
    if case['parser'] == 'relative':
        m = ref.bare(case)
        m.parser.parse_data(filename='no_such_file', energy_data=dict(Ga=list(case['Ga']), dG=list(case['dG'])))
    else:
        m = ref.model(case)
    Gaf, _, dG = net.relative()
    options = case['options']
    high = [a > max(0.0, d) + 1e-5 for a, d in zip(Gaf, dG)]
    ctx.nontrivial(len(Gaf) > 1 and any(high) and not all(high))
    for r, h in zip(net.rxns, high):
        ctx.label('%s %s' % ('3 states' if r[1] else '2 states', 'with barrier' if h else 'without barrier'))
    if case['folder']:
        os.mkdir('energy_profile')
        with open('energy_profile/old.txt', 'w') as f:
            f.write('x')
    before = repr(m.relative_energies)
    for again in range(case['times']):
        with Recorder(case['real']) as rec:
            m.plotter.plot_all(**options)
        check(len(rec.figures) == len(net.exprs), '%d figures for %d reactions', len(rec.figures), len(net.exprs))
        for i, (name, lines, limits) in enumerate(rec.figures):
            e = net.exprs[i]
            check(name == 'energy_profile/%d_%s.png' % (i, e), 'profile %d of %s is saved as %s', i, e, name)
            check(os.path.getsize(name) > 0, 'profile of %s was not written', e)
            if case['real']:
                check(open(name, 'rb').read(8) == b'\x89PNG\r\n\x1a\n', 'profile of %s is not an image', e)
            depth = options.get('shadow_depth', 0)
            check(len(lines) == 1 + depth, 'profile of %s has %d lines, expected %d', e, len(lines), 1 + depth)
            main = [l for l in lines if l[2] == options.get('color', '#000000') and l[3] == options.get('line_width', 3)]
            check(len(main) == 1, 'profile of %s has no line of the colour and width asked for: %r', e, [l[2:] for l in lines])
            check(sum(l[2] == options.get('shadow_color', '#595959') for l in lines) == depth, 'profile of %s has shadows %r', e, lines)
            a, d = Gaf[i], dG[i]
            top = max(a, 0.0, d)
            for x, y, _, _ in lines:
                check(abs(y[0]) < 1e-9 and abs(y[-1] - d) < 1e-9, 'profile of %s goes from %r to %r, expected 0 to %r', e, y[0], y[-1], d)
                # the barrier lies at a multiple of the spacing of points only by chance
                check(y.max() > top - 0.05*(abs(top) + abs(top - d)) - 1e-5, 'profile of %s reaches %r, barrier %r', e, y.max(), top)
                wx, wy = expected([0.0, a, d] if high[i] else [0.0, d], options)
                check(len(x) == len(wx) and np.allclose(x, np.array(wx, float), atol=1e-9) and np.allclose(y, np.array(wy, float), atol=1e-6),
                      'profile of %s with barrier %r and reaction energy %r is not the curve of these energies', e, a, d)
                (x0, x1), (y0, y1) = limits[0]
                check(x0 <= x.min() and x.max() <= x1 and y0 <= y.min() and y.max() <= y1, 'profile of %s is cut by the axes', e)
        check(sorted(os.listdir('energy_profile')) == sorted({os.path.basename(n) for n, _, _ in rec.figures} | ({'old.txt'} if case['folder'] else set())),
              'files %r', os.listdir('energy_profile'))
    check(repr(m.relative_energies) == before, 'plotting changes the energies from %s to %r', before, m.relative_energies)


@st.composite
def profile_cases(draw):
    case = draw(gen.kinetic_cases(max_rxns=4))
    for i in range(len(case['Ga'])):
        kind = draw(st.integers(0, 9))
        if kind == 0:
            case['Ga'][i] = max(0.0, case['dG'][i])           # as high as the higher end
        elif kind == 1:
            case['dG'][i] = 0.0
        elif kind == 2:
            case['Ga'][i] = max(0.0, case['dG'][i]) + 0.002
    options = {}
    if draw(st.booleans()):
        options = draw(st.fixed_dictionaries({}, optional=dict(
            color=st.sampled_from(['#A52A2A', '#123456']), line_width=st.sampled_from([1, 2.5, 7]),
            shadow_color=st.sampled_from(['#111111', '#0000FF']), shadow_depth=st.integers(0, 4), n=st.integers(20, 120),
            hline_length=st.sampled_from([0.5, 1.0, 2.0]), peak_width=st.sampled_from([0.5, 1.0, 3.0]))))
    case.update(options=options, real=draw(st.integers(0, 11)) == 0, folder=draw(st.booleans()), times=draw(st.sampled_from([1, 1, 2])),
                parser=draw(st.sampled_from(['relative', 'loaded'])))
    return case


TESTS = [Test('profiles', profile_cases(), t_profiles, 625, 4000)]
