"""C08: histories of queries on several models in one process."""
import random

from hypothesis import strategies as st

from pbt import gen, ref, thermo
from pbt.core import Test, check

RULE = ("non-trivial: two models of the same network with different conditions are both queried, or "
        "one model is queried with own and explicit energies, or its energies change between queries")

QUERIES = ['k', 'rates', 'net', 'tof', 'dtheta', 'resid', 'jac', 'symk', 'energies', 'names', 'mats', 'shomate', 'single']
OPS = QUERIES + ['dtheta', 'jac', 'k', 'rates', 'reparse', 'edit', 'plugin', 'build']


@st.composite
def cases(draw):
    base = draw(gen.with_coverages(gen.kinetic_cases(max_rxns=3)))
    models = [base]
    for _ in range(draw(st.integers(1, 2))):
        kind = draw(st.sampled_from(['conditions', 'energies', 'other', 'subset', 'twin']))
        if kind == 'conditions':
            c = draw(gen.conditions(base['rxns']))
            c['Ga'], c['dG'] = base['Ga'], base['dG']
        elif kind == 'energies':
            c = dict(base)
            c['Ga'], c['dG'] = draw(gen.energies(len(base['rxns'])))
        elif kind == 'subset':
            # the same expressions with other neighbours
            rx = list(draw(st.permutations(base['rxns'])))[:draw(st.integers(1, len(base['rxns'])))]
            c = draw(gen.conditions(rx))
            c['Ga'], c['dG'] = draw(gen.energies(len(rx)))
        elif kind == 'twin':
            c = dict(base)
        else:
            c = draw(gen.kinetic_cases(max_rxns=3))
        c['cvgs'] = draw(gen.coverages(c))
        models.append(c)
    for c in models:
        c['dps'] = draw(st.sampled_from([100, 100, 50, 30]))
        c['sets'] = [draw(gen.energies(len(c['rxns']))) for _ in range(2)]
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, len(models) - 1), st.sampled_from([-1, -1, 0, 1]),
                                  st.integers(0, 5)), min_size=3, max_size=16))
    return dict(models=models, ops=ops, share=draw(st.booleans()))


class State(object):
    """One model, its explicit energies and what must come out."""
    def __init__(self, case, shared):
        self.case, self.net = case, ref.Net(case)
        self.own = (list(case['Ga']), list(case['dG']))
        self.given = []
        for pair in case['sets']:
            f, r, d = self.net.relative(*pair)
            self.given.append(dict(Gaf=f, Gar=r, dG=d))
        self.model = None
        self.plugins = 0
        self.shared = shared
        self.used = set()

    def build(self):
        over = dict(decimal_precision=self.case['dps'])
        if self.shared is not None:
            over['species_definitions'] = self.shared
        self.model = ref.model(self.case, **over)

    def energies(self, j):
        if j >= 0:
            e = self.given[j]
            return e['Gaf'], e['Gar'], e['dG']
        return self.net.relative(*self.own)


TOL = 1e-12


def t_history(case, ctx):
    import mpmath
    from scaks.plugins.analysis import OnTheFlyAnalysis
    states = []
    shared = {}
    for c in case['models']:
        sh = None
        if case['share']:
            key = repr(ref.setup(c)['species_definitions'])
            sh = shared.setdefault(key, ref.setup(c)['species_definitions'])
        states.append(State(c, sh))
    for step, (op, i, j, n) in enumerate(case['ops']):
        s = states[i]
        net = s.net
        if s.model is None or op == 'build':
            s.build()
            s.own = (list(s.case['Ga']), list(s.case['dG']))
            s.plugins = 0
        m = s.model
        where = 'step %d (%s on model %d, %s energies)' % (step, op, i, 'own' if j < 0 else 'explicit')
        ctx.label(op)
        s.used.add(j)
        if op == 'reparse':
            pair = s.case['sets'][n % 2]
            s.own = ([g + 0.125 for g in pair[0]], list(pair[1]))
            m.parser.parse_data(filename='none', energy_data=dict(Ga=list(s.own[0]), dG=list(s.own[1])))
            ctx.nontrivial()
            continue
        if op == 'edit':
            e = s.given[max(j, 0)]
            k = n % len(net.rxns)
            e['Gaf'][k] = round(e['Gaf'][k] + 0.25, 6)
            e['Gar'][k] = round(e['Gar'][k] + 0.25, 6)
            ctx.nontrivial()
            continue
        if op == 'plugin':
            class Plugin(OnTheFlyAnalysis):
                interval = 1

                def setup(self, model, outer):
                    pass

                def register_step(self, model, inner, outer):
                    pass

                def finalize(self, model, outer):
                    pass
            m.analysis_register(Plugin)
            s.plugins += 1
            for q in states:
                if q.model is not None:
                    check(len(q.model.analysis) == q.plugins, '%s: a model has %d plugins, %d were registered with it',
                          where, len(q.model.analysis), q.plugins)
            continue
        if op == 'build':
            check(len(m.analysis) == 0, '%s: a new model has %d plugins', where, len(m.analysis))
            continue
        gaf, gar, dg = s.energies(j)
        kf, kr = net.rate_constants(gaf, gar)
        x = net.activities(s.case['cvgs'])
        slack = 1e-15*(len(net.ads) + 1)
        kw = {} if j < 0 else {'relative_energies': s.given[j]}
        before = repr(kw)
        cv = tuple(s.case['cvgs'][a] for a in net.ads)
        wf, wr = net.rates(kf, kr, x)
        sf, sr = net.rates(kf, kr, {a: abs(v) + slack for a, v in x.items()})
        df = [abs(a - b) + TOL*abs(a) for a, b in zip(sf, wf)]
        dr = [abs(a - b) + TOL*abs(a) for a, b in zip(sr, wr)]

        def near(name, got, want, tol):
            check(len(got) == len(want), '%s: %d values instead of %d', where, len(got), len(want))
            for q, (g, w, t) in enumerate(zip(got, want, tol)):
                check(abs(ref.mpf(g) - w) <= t, '%s: %s [%d] is %s, expected %s', where, name, q, g, w)
            if isinstance(got, list) and name[:6] != 'energy':
                # the caller may do with the numbers what he likes
                got[:] = [v*3 + 1 for v in got]
        if op == 'k':
            gf, gr = m.solver.get_rate_constants(**kw)
            near('forward rate constant', gf, kf, [TOL*k for k in kf])
            near('reverse rate constant', gr, kr, [TOL*k for k in kr])
        elif op == 'rates':
            gf, gr = m.solver.get_rates(cv, **kw)
            near('forward rate', gf, wf, df)
            near('reverse rate', gr, wr, dr)
        elif op == 'net':
            near('net rate', m.solver.get_net_rates(cv, **kw), [a - b for a, b in zip(wf, wr)], [a + b for a, b in zip(df, dr)])
        elif op == 'tof':
            names = net.gas + net.liq
            near('TOF', m.solver.get_tof(cv, **kw), [net.tof(g, wf, wr)[0] for g in names],
                 [sum(abs(net.net[q].get(g, 0))*(df[q] + dr[q]) for q in range(len(kf))) for g in names])
        elif op in ('dtheta', 'resid') and net.ads:
            want, _ = net.dtheta(wf, wr)
            tol = [sum(max(abs(net.net[q].get(a, 0)), 1)*(df[q] + dr[q]) for q in range(len(kf))) for a in net.ads]
            if op == 'dtheta':
                near('dtheta/dt', m.solver.steady_state_function(cv, **kw), want, tol)
            else:
                near('residual', [m.solver.get_residual(cv, **kw)], [max(abs(w) for w in want)], [max(tol)])
        elif op == 'jac' and net.ads:
            want, SC = net.jacobian(kf, kr, x)
            _, SC2 = net.jacobian(kf, kr, {a: abs(v) + slack for a, v in x.items()})
            J = m.solver.analytical_jacobian(cv, **kw)
            for a in range(len(net.ads)):
                near('Jacobian row %d' % a, [J[a, b] for b in range(len(net.ads))], want[a],
                     [TOL*SC[a][b] + abs(SC2[a][b] - SC[a][b]) for b in range(len(net.ads))])
            J[0, 0] += 1
        elif op == 'symk' and j < 0:
            m.solver.get_data_symbols()
            gf, gr = m.solver.get_rate_constants_by_sym()
            near('symbolic forward rate constant', gf, kf, [1e-10*k for k in kf])
            near('symbolic reverse rate constant', gr, kr, [1e-10*k for k in kr])
        elif op == 'energies':
            f, r, d = net.relative(*s.own)
            e = m.relative_energies
            for key, want in (('Gaf', f), ('Gar', r), ('dG', d)):
                near('energy ' + key, e[key], [ref.mpf(w) for w in want], [1e-9]*len(want))
        elif op == 'names':
            got = (list(m.gas_names), list(m.liquid_names), list(m.adsorbate_names), list(m.site_names), list(m.transition_state_names))
            check(got == (net.gas, net.liq, net.ads, net.sites, net.ts), '%s: names %r', where, got)
            check(m.temperature == s.case['T'], '%s: temperature %r', where, m.temperature)
            for name, p in list(s.case['gas'].items()):
                check(m.species_definitions[name]['pressure'] == p, '%s: pressure of %s', where, name)
        elif op == 'mats':
            A, B = m.parser.get_stoichiometry_matrices()
            names = net.ads + net.sites
            for q in range(len(net.rxns)):
                for col, a in enumerate(net.sites + net.ads):
                    check(-A[q, col] == net.net[q].get(a, 0), '%s: stoichiometry of %s in reaction %d is %s', where, a, q, A[q, col])
            A *= 2
            B *= 2
        elif op == 'shomate':
            gas = sorted({g for g, _, _ in thermo.SHOMATE})[n % 5]
            got = m.corrector.shomate_correction(gas)
            want = thermo.shomate(gas, s.case['T'])
            check(abs(got - want) <= 1e-9, '%s: correction %r, expected %r', where, got, want)
        elif op == 'single':
            q = n % len(kf)
            e = dict(Gaf=gaf, Gar=gar, dG=dg)
            gf, gr = m.solver.get_rxn_rates_TST(net.exprs[q], e)
            near('rate constants of one reaction', [gf, gr], [kf[q], kr[q]], [TOL*kf[q], TOL*kr[q]])
        check(repr(kw) == before, '%s: the given energies were changed', where)
    built = [s for s in states if s.model is not None]
    ctx.nontrivial(any(len(s.used) > 1 for s in built) or
                   any(a.case is not b.case and set(a.net.exprs) & set(b.net.exprs) for a in built for b in built))


TESTS = [Test('history', cases(), t_history, 2400, 30000, isolated=True)]
