"""C35: the log reports what was computed."""
import logging
import math
import os
import re

import mpmath
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks import c10, c19, c20, c30
from pbt.core import Test, check

RULE = ("non-trivial: two or more rows in every checked table (tables, corrections, lattice); a solved model (run); "
        "two or more parameters (setup)")
FREE = dict(logger_level=10, file_handler_level=10, console_handler_level=50)


def loud(case, cls=None, **over):
    from scaks.models.micro_kinetic_model import MicroKineticModel
    m = (cls or MicroKineticModel)(setup_dict=ref.setup(case, **over), **FREE)
    m.parser.parse_data(filename='no_such_file', energy_data=dict(Ga=list(case['Ga']), dG=list(case['dG'])))
    m.solver.get_data()
    return m


class Log(object):
    """Reads the log file piece by piece."""
    def __init__(self, name='out.log'):
        self.name, self.at = name, 0

    def new(self):
        with open(self.name) as f:
            f.seek(self.at)
            text = f.read()
            self.at = f.tell()
        return text.split('\n')


def rule_line(line):
    return len(line) > 10 and set(line) == {'-'}


def tables(lines, title):
    """Rows of every table whose title matches."""
    out, i = [], 0
    while i < len(lines):
        if re.search(title, lines[i]):
            j = i
            while j < len(lines) and not rule_line(lines[j]):
                j += 1
            k = j + 1
            while k < len(lines) and not rule_line(lines[k]):
                k += 1
            check(k < len(lines), 'table %r is not closed: %r', title, lines[i:i + 20])
            out.append((lines[i:j], lines[j + 1:k]))
            i = k
        i += 1
    return out


def one(lines, title, which=0, number=None):
    t = tables(lines, title)
    check(len(t) > which if number is None else len(t) == number, '%d tables %r in %r', len(t), title, lines)
    return t[which]


def equal(text, want):
    got = float(text)
    want = float(want)
    return got == want or (math.isnan(got) and math.isnan(want))


def listed(lines, title, names, values, which=0, number=None):
    """Table with index, name and value."""
    head, rows = one(lines, title, which, number)
    check(len(rows) == len(names), '%s: %d rows for %r', title, len(rows), names)
    for i, (row, name, v) in enumerate(zip(rows, names, values)):
        m = re.match(r'\s*(\d+)\s+(.*)$', row)
        check(m and int(m.group(1)) == i and m.group(2).startswith(name), '%s: row %d is %r, expected %s', title, i, row, name)
        rest = m.group(2)[len(name):]
        check(equal(rest, v), '%s: row %r, the value is %r', title, row, v)


def two_columns(lines, first, second, exprs, a, b, which=0, number=None):
    """Table of forward and reverse values with 5 digits: (value, tolerance) each."""
    head, rows = one(lines, r'reactions\s+%s\s+%s' % (first, second), which, number)
    check(len(rows) == len(exprs), '%s: %d rows for %r', first, len(rows), exprs)
    for row, e, x, y in zip(rows, exprs, a, b):
        check(row.startswith(e), '%s: row %r, expected %s', first, row, e)
        got = row[len(e):].split()
        check(len(got) == 2, '%s: row %r', first, row)
        for g, (v, tol) in zip(got, (x, y)):
            check(abs(float(g) - float(v)) <= 5.1e-5*abs(float(v)) + float(tol), '%s: row %r, the values are %s and %s', first, row, x[0], y[0])


def t_tables(case, ctx):
    net = ref.Net(case)
    ctx.nontrivial(len(net.rxns) > 1)
    m = loud(case)
    log = Log()
    log.new()
    s = m.solver
    cv = tuple(mpmath.mpf(case['cvgs'][a]) for a in net.ads)
    x = net.activities(case['cvgs'])
    for explicit, kf, kr in c10.rounds(case, net):
        kw = {} if explicit is None else {'relative_energies': explicit}
        s.get_rate_constants(log=True, **kw)
        lines = log.new()
        wf, wr = net.rates(kf, kr, x)
        two_columns(lines, 'k_forward', 'k_reverse', net.exprs, [(k, k*1e-9) for k in kf], [(k, k*1e-9) for k in kr], number=1)
        rf, rr = s.get_rates(cv, log=True, **kw)
        two_columns(log.new(), 'R_forward', 'R_reverse', net.exprs, [(k, abs(k)*1e-9) for k in wf], [(k, abs(k)*1e-9) for k in wr], number=1)
        rev = s.get_reversibilities(rf, rr)
        listed(log.new(), 'Reversibilities:', net.exprs, rev, number=1)
        tofs = s.get_tof(cv, **kw)
        listed(log.new(), 'Turnover Frequencies:', net.gas, tofs, number=1)
        if net.gas:
            s.get_tof(cv, gas_name=net.gas[case['pick'] % len(net.gas)], **kw)
            listed(log.new(), 'Turnover Frequencies:', net.gas, tofs, number=1)
        s.get_rates(cv, **kw)
        check(not tables(log.new(), 'R_forward'), 'rates written although this was not asked for')


def perturbation(lines, eps):
    for q in lines:
        if q.split('   ')[-1].lstrip().startswith('INFO     epsilon') or ' epsilon = ' in q:
            v = float(q.split('=')[1])
            check(abs(v - eps) <= 5.1e-3*eps, 'perturbation of %s is written as %s', eps, v)


def t_run(case, ctx):
    inner = case['case']
    net = ref.Net(inner)
    m = loud(inner, rootfinding=inner['method'], decimal_precision=inner['dps'], tolerance=inner['tol'],
             max_rootfinding_iterations=100)
    log = Log()
    mod = c30.Model.__new__(c30.Model)
    mod.case, mod.net, mod.m, mod.asked, mod.before = inner, net, m, [], None
    left = [list(inner['c0'])] + [list(g) for g in inner['more']]

    def fn(model, n):
        if n >= len(left):
            raise c30.GiveUp()
        return [mpmath.mpf(v) for v in left[n]]
    m.hybrid_method_register(fn)
    for i, op in enumerate(case['ops']):
        if i:
            ctx.label('again')
        if not one_run(mod, op, log, ctx):
            return


def one_run(mod, op, log, ctx):
    from scaks.errors.error import ParameterError
    inner, net, m = mod.case, mod.net, mod.m
    log.new()
    try:
        c30.run(mod, op)
    except ParameterError:
        if not (op['XRC'] and not op['product']):
            raise
    except Exception as e:
        if not c30.no_solution(e):
            raise
        ctx.label('none')
        return False
    ctx.nontrivial()
    lines = log.new()
    e = c10.energies_dict(net, inner['alt'] if op['alt'] else (inner['Ga'], inner['dG']))
    kf, kr = net.rate_constants(e['Gaf'], e['Gar'])
    two_columns(lines, 'k_forward', 'k_reverse', net.exprs, [(k, k*1e-9) for k in kf], [(k, k*1e-9) for k in kr], number=1)
    cvgs = list(m.steady_state_coverages)
    exact = all(isinstance(v, mpmath.mpf) for v in cvgs)
    x = net.activities({a: ref.mpf(v if exact else float(v)) for a, v in zip(net.ads, cvgs)})
    slack = 1e-15*(len(net.ads) + 1)*max([1] + [abs(ref.mpf(float(v))) for v in cvgs]) if not exact else ref.mpf(10)**(2 - min(inner['dps'], 46))
    wf, wr = net.rates(kf, kr, x)
    sf, sr = net.rates(kf, kr, {k: abs(v) + slack for k, v in x.items()})
    two_columns(lines, 'R_forward', 'R_reverse', net.exprs,
                [(v, abs(w - v) + 1e-9*abs(v)) for v, w in zip(wf, sf)], [(v, abs(w - v) + 1e-9*abs(v)) for v, w in zip(wr, sr)], number=1)
    listed(lines, 'Turnover Frequencies:', net.gas, m.TOFs)
    listed(lines, 'Reversibilities:', net.exprs, m.reversibilities, number=1)
    if not op['fsolve']:
        listed(lines, 'Steady State Coverages:', net.ads, cvgs)
    if op['XRC'] and op['product'] and not op['fsolve']:
        ctx.label('rate control')
        gas = net.gas[op['gas'] % len(net.gas)]
        title = 'Degree of Rate Control for %s:' % re.escape(gas)
        head, rows = one(lines, title, number=1)
        kw = {'epsilon': op['eps']} if op['eps'] else {'epsilon': 1e-5}
        perturbation(lines, kw['epsilon'])
        if op['alt']:
            kw['relative_energies'] = e
        got = m.solver.get_single_XRC(gas, **kw)
        lines = log.new()
        listed(lines, title, net.exprs, got, number=1)
        steps = [re.search(r'XRC\((.*)\) = (\S+)', q) for q in lines]
        steps = [q.groups() for q in steps if q]
        check([q[0] for q in steps] == net.exprs, 'rate control of the steps %r', steps)
        for (e1, v), w in zip(steps, got):
            w = float(w)
            check(abs(float(v) - w) <= 5.1e-3*abs(w) or equal(v, w), 'rate control of %s is written as %s, the value is %s', e1, v, w)
        perturbation(lines, kw['epsilon'])
    return True


def t_correct(case, ctx):
    """Energies before and after correction."""
    net = ref.Net(case)
    ctx.nontrivial(len(net.rxns) > 1)
    m = loud(case)
    log = Log()
    log.new()
    f, r, d = net.relative()
    e = dict(Gaf=list(f), Gar=list(r), dG=list(d))
    out = m.corrector.correct_relative_energies(e, method=case['method'])
    lines = log.new()
    text = '\n'.join(lines)
    check('Use %s method' % case['method'] in text, 'method %s is not named in %r', case['method'], lines)
    rows = [l for l in lines if ' Gaf(' in l or ': Gaf(' in l]
    check(len(rows) == len(net.exprs), '%d lines for %d reactions: %r', len(rows), len(net.exprs), rows)
    for i, (row, expr) in enumerate(zip(rows, net.exprs)):
        check(expr + ': ' in row, 'line %r for %s', row, expr)
        got = re.findall(r'(Gaf|Gar|dG)\((\S+) -> (\S+?)\)', row)
        check([g[0] for g in got] == ['Gaf', 'Gar', 'dG'], 'line %r', row)
        for (k, a, b), x in zip(got, (f[i], r[i], d[i])):
            check(abs(float(a) - x) <= 0.00501 and abs(float(b) - out[k][i]) <= 0.00501, '%s in line %r, the values are %r and %r', k, row, x, out[k][i])


def t_setup(case, ctx):
    """Parameters are echoed, unknown ones reported."""
    over = dict(case['over'])
    over.update(case['unknown'])
    ctx.nontrivial(len(over) > 1)
    m = loud(case, **over)
    lines = Log().new()
    body = [re.sub(r'^model\S*\s+(INFO|WARNING)\s', '', l).lstrip() for l in lines]
    warn = [l for l in lines if 'WARNING' in l]
    for k, v in case['over'].items():
        check('%s = %s' % (k, v) in body, 'parameter %s = %s is not in the log', k, v)
    for k in case['unknown']:
        check(any("'%s'" % k in l for l in warn), 'no warning about unknown %s', k)
    check(len(warn) == len(case['unknown']), 'warnings %r for unknown %r', warn, sorted(case['unknown']))
    exprs = [gen.rxn_str(r) for r in case['rxns']]
    at = [i for i, l in enumerate(body) if l == 'rxn_expressions =']
    check(len(at) == 1 and [l.strip() for l in body[at[0] + 1:at[0] + 1 + len(exprs)]] == exprs, 'reactions in the log: %r', body)
    # levels of the handlers
    for handler, level in case['levels']:
        h = [x for x in logging.getLogger('model').handlers if type(x).__name__ == handler][0]
        before = h.level
        others = [x.level for x in logging.getLogger('model').handlers if x is not h]
        old = m.set_logger_level(handler, level)
        check(old == before and h.level == level, 'level of %s was %r, now %r, returned %r', handler, before, h.level, old)
        check(others == [x.level for x in logging.getLogger('model').handlers if x is not h], 'another level was changed')
        log = Log()
        log.new()
        if handler == 'FileHandler':
            m.solver.get_reversibilities([1.0]*len(exprs), [0.5]*len(exprs))
            shown = bool(tables(log.new(), 'Reversibilities:'))
            check(shown == (level <= 20), 'information is %s at level %d', 'written' if shown else 'not written', level)
    try:
        m.set_logger_level('NoSuchHandler', 10)
    except ValueError:
        pass
    else:
        check(False, 'level of an unknown handler was set')


def t_again(case, ctx):
    """A second model after clear_handlers has a log of its own."""
    first = ref.Net(case[0])
    second = ref.Net(case[1])
    ctx.nontrivial(len(first.rxns) > 1 and len(second.rxns) > 1)

    def tables_of(m, net, c, log):
        cv = tuple(mpmath.mpf(c['cvgs'][a]) for a in net.ads)
        log.new()
        rf, rr = m.solver.get_rates(cv, log=True)
        lines = log.new()
        two_columns(lines, 'R_forward', 'R_reverse', net.exprs, [(v, abs(v)*1e-9) for v in rf], [(v, abs(v)*1e-9) for v in rr], number=1)
        tofs = m.solver.get_tof(cv)
        lines = log.new()
        if tables(lines, 'Turnover Frequencies:') or net.gas:
            listed(lines, 'Turnover Frequencies:', net.gas, tofs, number=1)

    m1 = loud(case[0])
    log1 = Log()
    tables_of(m1, first, case[0], log1)
    m1.clear_handlers()
    check(logging.getLogger('model').handlers == [], 'handlers left: %r', logging.getLogger('model').handlers)
    m1.solver.get_tof(tuple(mpmath.mpf(case[0]['cvgs'][a]) for a in first.ads))
    check(log1.new() == [''], 'the log was written without handlers')
    os.mkdir('b')
    os.chdir('b')
    m2 = loud(case[1])
    log2 = Log()
    tables_of(m2, second, case[1], log2)
    os.chdir('..')
    check(log1.new() == [''], 'the log of the first model was written by the second')


@st.composite
def table_cases(draw):
    case = draw(gen.with_coverages(gen.kinetic_cases(), alt=True))
    case['pick'] = draw(st.integers(0, 3))
    return case


@st.composite
def run_cases(draw):
    inner = draw(c30.networks())
    inner['dps'] = draw(st.sampled_from([30, 50, 100]))
    ops = [draw(c30.runs(inner, 0, ['init', 'none'])) for _ in range(draw(st.integers(1, 3)))]
    return dict(case=inner, ops=ops)


@st.composite
def setup_cases(draw):
    case = draw(gen.kinetic_cases(max_rxns=3))
    over = dict(temperature=draw(gen.nice(250, 900)), decimal_precision=draw(st.integers(20, 200)), tolerance=draw(st.sampled_from([1e-8, 1e-10])),
                max_rootfinding_iterations=draw(st.integers(1, 500)), perturbation_size=draw(st.sampled_from([0.01, 1e-5])),
                rootfinding=draw(st.sampled_from(['MDNewton', 'ConstrainedNewton'])))
    keys = draw(st.lists(st.sampled_from(sorted(over)), unique=True))
    case['over'] = {k: over[k] for k in keys}
    case['unknown'] = {k: draw(st.integers(0, 9)) for k in draw(st.lists(st.sampled_from(['tempreature', 'colour', 'x', 'gas_presure']), max_size=2, unique=True))}
    case['levels'] = draw(st.lists(st.tuples(st.sampled_from(['FileHandler', 'StreamHandler']), st.sampled_from([10, 20, 30, 40, 50])).map(list), max_size=3))
    return case


def t_lattice(case, ctx):
    """Processes of a lattice model: rates and changes of elements."""
    net = ref.Net(case)
    m = c20.build(case, levels=FREE)
    log = Log()
    text = '\n'.join(log.new())
    check('Total %d processes dicts read in.' % len(case['procs']) in text, 'number of definitions is not in the log')
    got = m.solver.processes
    lines = [re.sub(r'^model\S*\s+(INFO|WARNING)\s', '', l) for l in log.new()]
    ctx.nontrivial(len(got) > 2)
    marks = [i for i, l in enumerate(lines) if re.search(r' \(Gaf=.*, Gar=.*, dG=.*\)$', l)]
    check(len(marks) == len(case['procs']), '%d definitions in the log, %d in the model', len(marks), len(case['procs']))
    f, r, d = net.relative()
    at = 0
    for p, i, end in zip(case['procs'], marks, marks[1:] + [len(lines)]):
        part = lines[i:end]
        k = net.exprs.index(p['reaction'])
        q = re.search(r'^(.*) \(Gaf=(.*), Gar=(.*), dG=(.*)\)$', part[0]).groups()
        check(q[0].strip() == p['reaction'] and [float(v) for v in q[1:]] == [f[k], r[k], d[k]], 'line %r, energies %r', part[0], (f[k], r[k], d[k]))
        rates = {}
        for l in part:
            w = re.search(r'R\((forward|reverse)\) = (\S+) s\^-1', l)
            if w:
                rates[w.group(1)] = float(w.group(2))
        n = 0
        changes = []
        for l in part:
            if re.match(r'\s+/', l) or re.match(r'\s+\\', l):
                changes.append(l.strip())
        want = []
        for site in p['basis_sites']:
            for c in p['coordinates_group']:
                for direction, a, b in (('forward', 'elements_before', 'elements_after'), ('reverse', 'elements_after', 'elements_before')):
                    if direction == 'reverse' and p.get('redist'):
                        continue
                    g = got[at].kwargs
                    at += 1
                    if direction in rates:
                        check(abs(g['rate_constant'] - rates[direction]) <= 1e-12*abs(rates[direction]),
                              '%s rate of %s is written as %r, the process has %r', direction, p['reaction'], rates[direction], g['rate_constant'])
                    want += ['/' + str(p[a]), '\\' + str(p[b])]
        check('forward' in rates, 'no rate of %s in %r', p['reaction'], part)
        check(changes == want, 'changes of elements %r, expected %r', changes, want)
        check([l.split('=')[1].strip() for l in part if l.lstrip().startswith('Basis site =')] ==
              [str(s) for s in p['basis_sites'] for c in p['coordinates_group']], 'basis sites of %s in the log', p['reaction'])
        check([l.split('=')[1].strip() for l in part if l.lstrip().startswith('Coordinates =')] ==
              [str(c) for s in p['basis_sites'] for c in p['coordinates_group']], 'coordinates of %s in the log', p['reaction'])
    check(at == len(got), '%d processes, %d described', len(got), at)


@st.composite
def correct_cases(draw):
    case = draw(c19.cases())
    if case['method'] == 'default':
        case['method'] = 'shomate'
    return case


TESTS = [Test('tables', table_cases(), t_tables, 1400, 13000),
         Test('run', run_cases(), t_run, 700, 6000),
         Test('correct', correct_cases(), t_correct, 600, 5000),
         Test('setup', setup_cases(), t_setup, 600, 5000),
         Test('again', st.lists(table_cases(), min_size=2, max_size=2), t_again, 240, 2000),
         Test('lattice', c20.cases(), t_lattice, 750, 6000)]
