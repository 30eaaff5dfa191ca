"""C41: series of jobs: creating them, collecting and plotting their results."""
import os

from hypothesis import strategies as st

from pbt import gen
from pbt.checks.c40 import run_script
from pbt.core import Test, check

RULE = ("non-trivial: at least two jobs (jobs), at least two folders with results (collect), at least two points (plot)")
ASSUMPTIONS = ["the constants at the top of a script are replaced by those of the case",
               "setup files consist of assignments of literals",
               "file removals and shell commands of the scripts are only executed when they stay in the scratch folder"]

number = st.one_of(gen.nice(0, 10), st.sampled_from([1/3., 1e-7, 2.5e-12, 0.1 + 0.2, 1e22]))
value = st.recursive(st.one_of(st.integers(-5, 10**12), number, st.booleans(), st.none(),
                               st.sampled_from(['KMCSolver', 'CO_g', "it's", 'a "b"', 'line\nbreak', 'a\\b', ''])),
                     lambda v: st.one_of(st.lists(v, max_size=3), st.tuples(v, v), st.tuples(v), st.dictionaries(st.sampled_from('abc'), v, max_size=2)),
                     max_leaves=5)
KEYS = ['temperature', 'nstep', 'rxn_expressions', 'cell_vectors', 'parser', 'basis_sites', 'x']


def grid(values, draw):
    """The python text of a list of pressures."""
    return draw(st.sampled_from(['np.array(%r)', '%r', 'tuple(%r)'])) % (values,)


@st.composite
def job_cases(draw):
    case = dict(two=draw(st.booleans()), name=draw(st.sampled_from(['pt-100.mkm', 'a.mkm', 'x y.mkm'])))
    case['one'] = draw(st.sampled_from(['CO_g', 'O2_g', 'H2_g']))
    species = {}
    for g in ['CO_g', 'O2_g'] + draw(st.lists(st.sampled_from(['H2_g', '*_s', '*_t']), unique=True)):
        species[g] = dict({'pressure': draw(number)} if g[0] != '*' else {'total': draw(number), 'type': 'site', 'site_name': g})
        if draw(st.booleans()):
            species[g]['more'] = draw(value)
    species.setdefault(case['one'], {})
    case['setup'] = dict(draw(st.dictionaries(st.sampled_from(KEYS), value, max_size=5)), species_definitions=species)
    axis = st.lists(number, min_size=1, max_size=4, unique=True)
    case['a'], case['b'] = draw(axis), draw(axis)
    case['ta'], case['tb'] = grid(case['a'], draw), grid(case['b'], draw)
    case['files'] = draw(st.lists(st.sampled_from(['run.py', 'rel_energy.py', 'sub/deep/x.py', 'kmc_processes.py', '0.1']), unique=True))
    case['stale'] = draw(st.lists(st.tuples(st.integers(0, 15), st.sampled_from(['run.py', 'old.txt', 'data/x', 'auto_tofs.py'])), max_size=3, unique=True))
    case['other'] = draw(st.booleans())
    return case


def put(path, text):
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def tree(top):
    out = {}
    for folder, dirs, files in os.walk(top):
        for n in files:
            p = os.path.join(folder, n)
            with open(p) as f:
                out[os.path.relpath(p, top)] = f.read()
    return out


def read_setup(path):
    loc = {}
    exec(open(path).read(), {}, loc)
    return loc


def t_jobs(case, ctx):
    put('template/' + case['name'], ''.join('%s = %r\n' % kv for kv in case['setup'].items()))
    for n in case['files']:
        put('template/' + n, '# file %s\n' % n)
    if case['other']:
        put('results/a.txt', 'keep')
    import numpy as np
    # str() of a number is the name of its folder
    a, b = [[str(v) for v in eval(t, {'np': np})] for t in (case['ta'], case['tb'])]
    if case['two']:
        jobs = [('pO2-%s/pCO-%s' % (y, x), {'CO_g': u, 'O2_g': v}) for y, v in zip(b, case['b']) for x, u in zip(a, case['a'])]
        script, constants = 'kmc_run/2d-run/create_jobs.py', dict(pCOs=case['ta'], pO2s=case['tb'], filename=repr(case['name']))
    else:
        jobs = [(x, {case['one']: u}) for x, u in zip(a, case['a'])]
        script = 'kmc_run/1d-run/create_jobs.py'
        constants = dict(species_pressures='{%r: %s, "Ne_g": [1.0, 2.0]}' % (case['one'], case['ta']), filename=repr(case['name']),
                         species_name=repr(case['one']))
    stale = [(jobs[i % len(jobs)][0], n) for i, n in case['stale']]
    for d, n in stale:
        put(d + '/' + n, 'stale')
    template = tree('template')
    ctx.nontrivial(len(jobs) > 1)
    ctx.label('two gases' if case['two'] else 'one gas')
    if stale:
        ctx.label('stale job')
    run_script(script, constants)
    check(tree('template') == template, 'the template was changed')
    check(not case['other'] or tree('results') == {'a.txt': 'keep'}, 'another folder was changed')
    with open('job_dirs.txt') as f:
        listed = f.read().split('\n')
    check(listed == [d for d, _ in jobs] + [''], 'listed jobs %r, expected %r', listed, [d for d, _ in jobs])
    for d, pressures in jobs:
        got = tree(d)
        check(sorted(got) == sorted(template), 'job %s has files %r, the template %r', d, sorted(got), sorted(template))
        for n in got:
            if n != case['name']:
                check(got[n] == template[n], 'job %s: %s differs from the template', d, n)
        setup = read_setup(d + '/' + case['name'])
        want = read_setup('template/' + case['name'])
        for g, p in pressures.items():
            got_p = setup['species_definitions'][g].get('pressure')
            check(isinstance(got_p, (int, float)) and got_p == p, 'job %s: pressure of %s is %r, expected %r', d, g, got_p, p)
            want['species_definitions'][g]['pressure'] = p
        check(setup == want and repr(setup) == repr(want), 'job %s: setup %r, expected %r', d, setup, want)
    tops = sorted({d.split('/')[0] for d, _ in jobs} | {'template', 'job_dirs.txt'} | ({'results'} if case['other'] else set()))
    check(sorted(os.listdir('.')) == tops, 'created %r, expected %r', sorted(os.listdir('.')), tops)


# ---------------------------------------------------------------- collecting
@st.composite
def collect_cases(draw):
    case = dict(kind=draw(st.sampled_from(['batch cvgs', 'batch tofs', 'CO', 'O', 'tofs'])))
    p = st.lists(st.one_of(gen.nice(0.001, 30), st.sampled_from([1e-05, 2.5e-7, 1/3., 10.0, 9.0, 100.0])), min_size=1, max_size=5, unique=True)
    case['pCO'], case['pO2'] = draw(p), draw(p)
    nx, ny = len(case['pCO']), len(case['pO2']) if not case['kind'].startswith('batch') else 1
    case['values'] = [[draw(st.lists(gen.nice(0, 1), min_size=14, max_size=14)) for _ in range(nx)] for _ in range(ny)]
    case['records'] = draw(st.integers(1, 3))
    case['types'] = list(draw(st.permutations(['V', 'O_s', 'O_u', 'O_d', 'O_l', 'O_r', 'C'])))
    case['missing'] = draw(st.lists(st.integers(0, 4), max_size=2)) if case['kind'].startswith('batch') else []
    case['norate'] = draw(st.integers(0, 3)) == 3
    case['order'] = draw(st.permutations(list(range(14))))
    return case


NAMES = ['A%d_g + *_s -> A%d_s(%s)' % (i, i, d) for i in range(7) for d in ('->', '<-')]


def t_collect(case, ctx):
    import numpy as np
    kind, xs, ys = case['kind'], case['pCO'], case['pO2']

    def coverages(d, v):
        # one list per type of site, the last record counts
        n = case['records']
        cvgs = [[0.125]*(n - 1) + [c] for c in v[:len(case['types'])]]
        put(d + '/auto_coverages.py', 'times = []\nsteps = []\npossible_types = %r\ncoverages = %r\n' % (tuple(case['types']), cvgs))

    def rates(d, v, with_rates=True):
        order = case['order']
        put(d + '/auto_frequency.py', 'reaction_occurencies = {}\n' +
            ('reaction_rates = %r\n' % ({NAMES[i]: v[i] for i in order},) if with_rates else ''))
    if kind.startswith('batch'):
        want = []
        for j, x in enumerate(xs):
            d, v = str(x), case['values'][0][j]
            os.mkdir(d)
            if j in case['missing']:
                continue
            if kind == 'batch cvgs':
                coverages(d, v)
                at = dict(zip(case['types'], v))
                want.append((x, sum(at[k] for k in ('O_s', 'O_r', 'O_u', 'O_d', 'O_l')), at['C']))
            else:
                rates(d, v, not (case['norate'] and j == 0))
                if not (case['norate'] and j == 0):
                    want.append((x, v[0] + v[2]))
        put('template/auto_coverages.py', 'possible_types = coverages = 3')
        put('template/auto_frequency.py', 'reaction_rates = 3')
        put('notes.txt', '')
        run_script('kmc_plot/batch_plot/extract_%s.py' % kind.split()[1], {})
        want.sort()
        ctx.nontrivial(len(want) > 1)
        data = dict(np.load('%s-data.npz' % kind.split()[1]))
        check(list(data['p']) == [w[0] for w in want], 'pressures %r, expected %r', list(data['p']), [w[0] for w in want])
        names = ('O_cvgs', 'CO_cvgs') if kind == 'batch cvgs' else ('tofs',)
        for k, name in enumerate(names):
            check(len(data[name]) == len(want), '%d values of %s for %d folders', len(data[name]), name, len(want))
            for w, g in zip(want, data[name]):
                check(abs(g - w[1 + k]) <= 1e-12, '%s at pressure %r is %r, expected %r', name, w[0], g, w[1 + k])
        ctx.label(kind)
        return
    ctx.nontrivial(len(xs) > 1 and len(ys) > 1)
    ctx.label(kind)
    want = {}
    for i, y in enumerate(ys):
        for j, x in enumerate(xs):
            d, v = 'pO2-%s/pCO-%s' % (y, x), case['values'][i][j]
            if kind == 'tofs':
                rates(d, v)
                want[x, y] = v[10] + v[12]
            else:
                coverages(d, v)
                want[x, y] = v[len(case['types']) - (1 if kind == 'CO' else 2)]
    put('template/auto_coverages.py', 'coverages = 3')
    put('job_dirs.txt', '')
    run_script('kmc_plot/map_plot/extract_%s.py' % (kind if kind == 'tofs' else kind + '_cvgs'), {})
    data = dict(np.load('tofs-data.npz' if kind == 'tofs' else kind + '-cvgs-data.npz'))
    check(sorted(data['pCOs']) == sorted(xs) and sorted(data['pO2s']) == sorted(ys), 'pressures %r and %r, expected %r and %r',
          list(data['pCOs']), list(data['pO2s']), xs, ys)
    values = data['tofs' if kind == 'tofs' else 'cvgs']
    check(values.shape == (len(ys), len(xs)), 'shape %r for %d x %d', values.shape, len(ys), len(xs))
    for y, row in zip(data['pO2s'], values):
        for x, g in zip(data['pCOs'], row):
            check(abs(g - want[float(x), float(y)]) <= 1e-12, '%s at pCO=%r, pO2=%r is %r, expected %r', kind, x, y, g, want[float(x), float(y)])


# ---------------------------------------------------------------- plotting
BATCH = ['batch_plot/plot_cvgs', 'batch_plot/plot_tofs', 'batch_plot/plot_cvgs_tof']
MKM = ['plot_TOFs', 'plot_cvgs', 'plot_cvgs_tof', 'plot_ode_coverages']
PLACES = {'100': [[0.0, 0.0, 0.0], [0.0, 0.5, 0.0], [0.5, 0.0, 0.0], [0.5, 0.5, 0.0]],
          '111': [[0.0, 0.0, 0.0], [0.0, 0.5, 0.0], [0.5, 0.0, 0.0], [0.5, 0.5, 0.0], [1/3., 1/3., 0.0], [2/3., 2/3., 0.0]]}
CELLS = {'100': [[1.0, 0.0], [0.0, 1.0]], '111': [[1.0, 0.0], [0.5, 0.87]]}


@st.composite
def plot_cases(draw):
    case = dict(kind=draw(st.sampled_from(['coverages', 'frequencies', 'merged', 'tof', 'processes'] + BATCH + ['mkm ' + k for k in MKM])))
    n = draw(st.integers(1, 6))
    case['steps'] = sorted(draw(st.lists(st.integers(0, 10**6), min_size=n, max_size=n, unique=True)))
    case['times'] = sorted(draw(st.lists(gen.nice(0, 100), min_size=n, max_size=n, unique=True)))
    case['types'] = draw(st.lists(st.sampled_from(['Vac', 'V', 'O_s', 'O_u', 'C', 'CO', 'H']), min_size=1, max_size=5, unique=True))
    case['cvgs'] = [draw(st.lists(gen.nice(0, 1), min_size=n, max_size=n)) for _ in case['types']]
    case['counts'] = [draw(st.integers(0, 10**6)) for _ in range(2*draw(st.integers(1, 5)))]
    case['rates'] = [draw(st.lists(gen.nice(0, 10), min_size=8, max_size=8)) for _ in range(n)]
    case['order'] = draw(st.permutations(list(range(8))))
    case['columns'] = draw(st.integers(3 if case['kind'] == 'mkm plot_cvgs' else 2, 4))
    case['surface'] = draw(st.sampled_from(['100', '111']))
    offset = st.tuples(st.sampled_from([0.0, 0.5, 1.0, -0.5, 0.25]), st.sampled_from([0.0, 0.5, -1.0]), st.just(0.0)).map(list)
    procs = []
    for _ in range(draw(st.integers(1, 3)) if case['kind'] == 'processes' else 0):
        m = draw(st.integers(1, 3))
        names = st.lists(st.sampled_from(['V', 'C', 'O_s', 'O_u', 'O_l']), min_size=m, max_size=m)
        procs.append(dict(reaction=draw(st.sampled_from(['CO_g + *_s -> CO_s', 'CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s'])),
                          coordinates_group=[draw(st.lists(offset, min_size=m, max_size=m)) for _ in range(draw(st.integers(1, 2)))],
                          elements_before=draw(names), elements_after=draw(names),
                          basis_sites=draw(st.lists(st.integers(0, len(PLACES[case['surface']]) - 1), min_size=1, max_size=2))))
    case['procs'] = procs
    return case


# reactions that form CO2 (the product of the script) and others, in both directions
MIXED = [r + d for r in ('CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s', 'CO_g + *_s -> CO_s', 'COOH_s -> CO2_g + H_s', 'O2_g + 2*_s -> 2O_s')
         for d in ('(->)', '(<-)')]
SIGN = [1, -1, 0, 0, 1, -1, 0, 0]


def lines(ax):
    return {l.get_label(): ([float(v) for v in l.get_xdata()], [float(v) for v in l.get_ydata()]) for l in ax.lines}


def dots(ax):
    """Label -> points of a scatter plot."""
    return {c.get_label(): [tuple(float(v) for v in p) for p in c.get_offsets()] for c in ax.collections}


def same_points(got, want):
    return len(got) == len(want) and all(len(g) == len(w) and all(abs(a - b) <= 1e-9*max(1, abs(b)) for a, b in zip(g, w)) for g, w in zip(got, want))


def t_plot(case, ctx):
    import sys
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import numpy as np
    from matplotlib.figure import Figure
    plt.close('all')
    saved, shown, pictures, argv = [], [], [], sys.argv
    real = plt.savefig, plt.show, Figure.savefig
    kind, n = case['kind'], len(case['steps'])
    x, columns = case['times'], case['columns']
    ctx.label(kind)
    ctx.nontrivial(n > 1)
    table = [[row[j]/10. for j in range(columns)] for row in case['rates']]   # coverages, record by record
    tofs = [row[-1] for row in case['rates']]
    script = 'kmc_plot/plot_%s.py' % kind
    if kind in ('coverages', 'merged'):
        put('auto_coverages.py', 'times = %r\nsteps = %r\ncoverages = %r\npossible_types = %r\n' % (
            case['times'], case['steps'], case['cvgs'], tuple(case['types'])))
        if kind == 'merged':
            script = 'kmc_plot/plot_merged_coverages.py'
    elif kind == 'frequencies':
        put('auto_frequency.py', 'reaction_occurencies = %r\n' % (dict(zip(NAMES, case['counts'])),))
        ctx.nontrivial(len(case['counts']) > 2)
    elif kind == 'tof':
        put('auto_tofs.py', 'times = %r\ntofs = %r\nprocesses = %r\n' % (case['times'], case['rates'], [MIXED[i] for i in case['order']]))
    elif kind == 'processes':
        script = 'kmc_plot/plot_processes-%s.py' % case['surface']
        put('kmc_processes.py', 'processes = %r\n' % (case['procs'],))
        ctx.nontrivial(len(case['procs']) > 1)
    elif kind in BATCH:
        np.savez('cvgs-data.npz', p=x, CO_cvgs=[r[0] for r in table], O_cvgs=[r[1] for r in table])
        np.savez('tofs-data.npz', p=x, tofs=tofs)
        script = 'kmc_plot/%s.py' % kind
    else:
        script = 'mkm_plot/%s.py' % kind.split()[1]
        put('auto_tofs.py', 'pCO = %r\ntofs = %r\n' % (x, tofs))
        put('auto_cvgs.py', 'pCO = %r\ncvgs = %r\nadsorbates = %r\n' % (x, table, ['A%d_s' % i for i in range(columns)]))
        put('auto_ode_coverages.py', 'times = %r\ncoverages = %r\n' % (x, table))

    def keep(fig, name, *a, **k):
        pictures.append((name, [(tuple(float(v) for v in p), c.get_facecolor()[0][:3]) for c in fig.axes[0].collections
                                for p in c.get_offsets()], fig.axes[0].get_title()))
    sys.argv = ['plot', '-s'] if kind in ('coverages', 'frequencies', 'tof') else ['plot']
    plt.savefig = lambda name, *a, **k: saved.append(name)
    plt.show = lambda *a, **k: shown.append(1)
    Figure.savefig = keep
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            run_script(script, {})
        figs = [plt.figure(i) for i in plt.get_fignums()]
        if kind in ('coverages', 'frequencies', 'tof'):
            check(saved == [('tofs' if kind == 'tof' else kind) + '.png'], 'saved %r', saved)
        elif kind != 'processes':
            check(shown and not saved, 'shown %d times, saved %r', len(shown), saved)
        if kind == 'coverages':
            check(len(figs[-1].axes) == 2, '%d plots', len(figs[-1].axes))
            for ax, xs in zip(figs[-1].axes, (case['steps'], case['times'])):
                got = [(list(l.get_xdata()), list(l.get_ydata())) for l in ax.lines]
                check(got == [(xs, c) for c in case['cvgs']], 'lines %r, expected %r', got, [(xs, c) for c in case['cvgs']])
        elif kind == 'frequencies':
            ax = figs[-1].axes[0]
            bars = [r.get_width() for c in ax.containers for r in c]
            want = case['counts'][::2] + case['counts'][1::2]
            check(bars == want, 'bars %r, expected forward and reverse numbers %r', bars, want)
            texts = [t.get_text() for t in ax.texts]
            check(texts == [r'$\bf{%d}$' % w for w in want], 'labels %r', texts)
        elif kind == 'merged':
            check(len(figs) == 2, '%d figures', len(figs))
            total = {k: [sum(c[i] for t, c in zip(case['types'], case['cvgs']) if t[0] == k) for i in range(n)] for k in 'COV'}
            for fig, xs in zip(figs, (case['steps'], case['times'])):
                got = dots(fig.axes[0])
                for label, k in ((r'$\bf{CO^{*}}$', 'C'), (r'$\bf{O^{*}}$', 'O'), (r'$\bf{*}$', 'V')):
                    want = list(zip(xs, total[k]))
                    check(same_points(got[label], want), '%s: points %r, expected %r', label, got[label], want)
                means = sorted(l.get_ydata()[0] for l in fig.axes[0].lines)
                want = sorted(sum(total[k])/n for k in 'CO')
                check(len(means) == 2 and all(abs(a - b) < 1e-9 for a, b in zip(means, want)), 'averages %r, expected %r', means, want)
        elif kind == 'tof':
            want = [(t, sum(SIGN[i]*r[j] for j, i in enumerate(case['order']))) for t, r in zip(case['times'], case['rates'])]
            l, = figs[-1].axes[0].lines
            got = list(zip(l.get_xdata(), l.get_ydata()))
            check(len(got) == len(want) and all(a == c and abs(b - d) <= 1e-9 for (a, b), (c, d) in zip(got, want)),
                  'turnover frequencies %r, expected %r', got, want)
        elif kind == 'processes':
            places, cell = PLACES[case['surface']], CELLS[case['surface']]
            check(len(pictures) == 2*len(case['procs']), '%d pictures of %d processes', len(pictures), len(case['procs']))
            colours = {}
            for i, p in enumerate(case['procs']):
                b = places[p['basis_sites'][0]]
                at = [[c + d for c, d in zip(q, b)] for q in p['coordinates_group'][0]]
                at = [(q[0]*cell[0][0] + q[1]*cell[1][0], q[0]*cell[0][1] + q[1]*cell[1][1]) for q in at]
                for k, (when, key) in enumerate((('before', 'elements_before'), ('after', 'elements_after'))):
                    name, got, title = pictures[2*i + k]
                    check(name == './processes/process_%d_%d.png' % (i, k), 'picture %r of process %d', name, i)
                    check(p['reaction'] in title and when in title, 'title %r of %r %s', title, p['reaction'], when)
                    check(same_points([g[0] for g in got], at), 'process %d %s: points %r, expected %r', i, when, got, at)
                    for e, g in zip(p[key], got):
                        check(colours.setdefault(e, tuple(g[1])) == tuple(g[1]), 'process %d %s: colour of %s differs', i, when, e)
            check(len(set(colours[e] for e in colours if e in ('V', 'C', 'O_s'))) == len([e for e in colours if e in ('V', 'C', 'O_s')]),
                  'elements share a colour: %r', colours)
        elif kind == 'mkm plot_ode_coverages':
            got = dots(figs[-1].axes[0])
            for label, f in ((r'$\bf{CO^{*}}$', lambda r: r[0]), (r'$\bf{O^{*}}$', lambda r: r[1]), (r'$\bf{*}$', lambda r: 1 - r[0] - r[1])):
                want = [(t, f(r)) for t, r in zip(x, table)]
                check(same_points(got[label], want), '%s: points %r, expected %r', label, got[label], want)
        else:
            axes = figs[-1].axes
            if kind.endswith('_cvgs') or kind.endswith('cvgs_tof'):
                got = lines(axes[0])
                if kind == 'mkm plot_cvgs':
                    want = {'CO': [r[0] + r[1] for r in table], 'O': [r[2] for r in table]}
                else:
                    want = {'CO': [r[0] for r in table], 'O': [r[1] for r in table]}
                for k, w in want.items():
                    label = k if kind in ('mkm plot_cvgs', 'mkm plot_cvgs_tof') else r'$\theta_{%s^{*}}$' % k
                    check(label in got and same_points([got[label][0], got[label][1]], [x, w]), '%s: %r, expected %r', label, got.get(label), (x, w))
            if not kind.endswith('_cvgs'):
                l, = axes[-1].lines
                check(list(l.get_xdata()) == x and list(l.get_ydata()) == tofs, 'turnover frequencies %r, expected %r', list(l.get_ydata()), tofs)
    finally:
        plt.savefig, plt.show, Figure.savefig = real
        sys.argv = argv
        plt.close('all')


TESTS = [Test('jobs', job_cases(), t_jobs, 800, 6000),
         Test('collect', collect_cases(), t_collect, 800, 6000),
         Test('plot', plot_cases(), t_plot, 480, 3000)]
