"""Independent reference for kinetics, written from the property statements.

Works on the literal network (see gen.py), never on the code's own parsing.
"""
import math

import mpmath

from .gen import rxn_str, species_str

KB = 8.6173324e-5          # eV/K
H = 4.135667662e-15        # eV*s
KB_J = 1.38064852e-23
H_J = 6.62607004e-34
AMU = 1.66053904e-27
P0 = 101325.0

_ctx = mpmath.MPContext()
_ctx.dps = 50
mpf = _ctx.mpf


def is_empty(sp):
    return sp[1] == '*'


class Net(object):
    def __init__(self, case):
        self.case = case
        self.rxns = case['rxns']
        self.exprs = [rxn_str(r) for r in self.rxns]
        gas, liq, ads, ts, sites = set(), set(), set(), set(), set()
        for r in self.rxns:
            for state in r:
                for sp in state or []:
                    key = species_str(sp)
                    if sp[3] == 'g':
                        gas.add(key)
                    elif sp[3] == 'l':
                        liq.add(key)
                    else:
                        sites.add('*_' + sp[3])
                        if '-' in sp[1]:
                            ts.add(key)
                        elif not is_empty(sp):
                            ads.add(key)
        self.gas, self.liq, self.ads = sorted(gas), sorted(liq), sorted(ads)
        self.ts, self.sites = sorted(ts), sorted(sites)
        self.site_of = {}
        for r in self.rxns:
            for state in (r[0], r[2]):
                for sp in state:
                    if sp[3] not in ('g', 'l'):
                        self.site_of[species_str(sp)] = '*_' + sp[3]
        self.lhs = [self.count(r[0]) for r in self.rxns]
        self.rhs = [self.count(r[2]) for r in self.rxns]
        self.net = []
        for a, b in zip(self.lhs, self.rhs):
            self.net.append({k: b.get(k, 0) - a.get(k, 0) for k in sorted(set(a) | set(b))})

    @staticmethod
    def count(state):
        out = {}
        for sp in state:
            k = species_str(sp)
            out[k] = out.get(k, 0) + sp[0]
        return out

    # ------------------------------------------------------------ energies
    def relative(self, Ga=None, dG=None):
        Ga = self.case['Ga'] if Ga is None else Ga
        dG = self.case['dG'] if dG is None else dG
        f = [d if abs(a) < 1e-10 and d > 0 else a for a, d in zip(Ga, dG)]
        return f, [a - d for a, d in zip(f, dG)], list(dG)

    # ------------------------------------------------------------ rates
    def k_of(self, barrier, T=None):
        T = self.case['T'] if T is None else T
        return mpf(KB)*mpf(T)/mpf(H)*_ctx.exp(-mpf(barrier)/(mpf(KB)*mpf(T)))

    def rate_constants(self, gaf, gar, T=None):
        return [self.k_of(a, T) for a in gaf], [self.k_of(a, T) for a in gar]

    def activities(self, cvgs):
        """cvgs: dict adsorbate -> coverage."""
        x = {}
        for g in self.gas:
            x[g] = mpf(self.case['gas'][g])
        for l in self.liq:
            x[l] = mpf(self.case['liq'][l])
        for s in self.sites:
            x[s] = mpf(self.case['sites'][s]) - sum(
                (mpf(cvgs[a]) for a in self.ads if self.site_of[a] == s), mpf(0))
        for a in self.ads:
            x[a] = mpf(cvgs[a])
        return x

    def rates(self, kf, kr, x):
        rf, rr = [], []
        for i in range(len(self.rxns)):
            rf.append(kf[i]*prod(x[k]**n for k, n in self.lhs[i].items()))
            rr.append(kr[i]*prod(x[k]**n for k, n in self.rhs[i].items()))
        return rf, rr

    def dtheta(self, rf, rr):
        """(values, scale): scale is the sum of absolute terms."""
        v, sc = [], []
        for a in self.ads:
            t, s = mpf(0), mpf(0)
            for i, net in enumerate(self.net):
                n = net.get(a, 0)
                t += n*(rf[i] - rr[i])
                m = max(self.lhs[i].get(a, 0), self.rhs[i].get(a, 0))
                s += m*(abs(rf[i]) + abs(rr[i]))
            v.append(t)
            sc.append(s)
        return v, sc

    def tof(self, name, rf, rr):
        t, s = mpf(0), mpf(0)
        for i, net in enumerate(self.net):
            t += net.get(name, 0)*(rf[i] - rr[i])
            s += max(self.lhs[i].get(name, 0), self.rhs[i].get(name, 0))*(abs(rf[i]) + abs(rr[i]))
        return t, s

    def jacobian(self, kf, kr, x):
        """d(dtheta_i/dt)/d(theta_j), free sites eliminated; (values, scale)."""
        n = len(self.ads)
        J = [[mpf(0)]*n for _ in range(n)]
        SC = [[mpf(0)]*n for _ in range(n)]
        for r in range(len(self.rxns)):
            for side, k, sign in ((self.lhs[r], kf[r], 1), (self.rhs[r], kr[r], -1)):
                for j, aj in enumerate(self.ads):
                    d, dsc = mpf(0), mpf(0)
                    for key, m in side.items():
                        if key == aj:
                            inner = 1
                        elif key == self.site_of[aj]:
                            inner = -1
                        else:
                            continue
                        term = inner*m*x[key]**(m-1)*prod(
                            x[q]**p for q, p in side.items() if q != key)
                        d += term
                        dsc += abs(term)
                    for i, ai in enumerate(self.ads):
                        c = self.net[r].get(ai, 0)
                        J[i][j] += c*sign*k*d
                        m = max(self.lhs[r].get(ai, 0), self.rhs[r].get(ai, 0))
                        SC[i][j] += m*abs(k)*dsc
        return J, SC


def prod(it):
    p = mpf(1)
    for v in it:
        p *= v
    return p


def close(a, b, rel=1e-9, scale=0, tiny=1e-300):
    a, b = mpf(a), mpf(b)
    if a == b:
        return True
    if not (_ctx.isfinite(a) and _ctx.isfinite(b)):
        return False
    return abs(a - b) <= rel*max(abs(a), abs(b), abs(mpf(scale))) + tiny


def isfinite(a):
    return bool(_ctx.isfinite(mpf(a)))


# ---------------------------------------------------------------- model building
def setup(case, **over):
    defs = {}
    for g, p in case.get('gas', {}).items():
        defs[g] = {'pressure': p}
    for l, c in case.get('liq', {}).items():
        defs[l] = {'concentration': c}
    for s, tot in case['sites'].items():
        defs[s] = {'site_name': s[2:], 'type': 'site', 'total': tot}
    d = dict(rxn_expressions=[rxn_str(r) for r in case['rxns']],
             species_definitions=defs, temperature=case['T'],
             parser='RelativeEnergyParser', solver='SteadyStateSolver',
             corrector='ThermodynamicCorrector', plotter='EnergyProfilePlotter')
    d.update(over)
    return d


def bare(case, **over):
    from scaks.models.micro_kinetic_model import MicroKineticModel
    return MicroKineticModel(setup_dict=setup(case, **over), logger_level=50,
                             file_handler_level=50, console_handler_level=50)


def model(case, **over):
    """Model with energies parsed and numeric data loaded."""
    m = bare(case, **over)
    m.parser.parse_data(filename='no_such_file', energy_data=dict(Ga=list(case['Ga']), dG=list(case['dG'])))
    m.solver.get_data()
    return m


def cvg_list(net, cvgs):
    return [cvgs[a] for a in net.ads]


def kmc_setup(case, **over):
    d = setup(case)
    d.update(parser='KMCParser', solver='KMCSolver',
             cell_vectors=[[3.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 10.0]],
             basis_sites=[[0.0, 0.0, 0.0]], repetitions=(2, 2, 1), periodic=(True, True, False),
             possible_element_types=['V'], empty_type='V', possible_site_types=['M'],
             coverage_ratios=[1.0])
    d.pop('plotter')
    d.update(over)
    return d


def kmc_model(case, processes=(), parse=True, levels=None, **over):
    """Lattice model; input files are written to the working directory."""
    from scaks.models.kmc_model import KMCModel
    levels = levels or dict(logger_level=50, file_handler_level=50, console_handler_level=50)
    m = KMCModel(setup_dict=kmc_setup(case, **over), **levels)
    if parse:
        with open('in_energy.py', 'w') as f:
            f.write('Ga = %r\ndG = %r\n' % (list(case['Ga']), list(case['dG'])))
        with open('in_processes.py', 'w') as f:
            f.write('processes = %r\n' % (list(processes),))
        m.parser.parse_data(energy_file='in_energy.py', processes_file='in_processes.py',
                            configuration_file='no_config', sitesmap_file='no_sites')
    return m
