"""C21: data files of the on-the-fly KMC analyses."""
import re
import types as pytypes

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks.c20 import build, cases as process_cases, wanted
from pbt.core import Test, Violation, check

RULE = ("non-trivial: (coverages) at least three records and two occupied types; (frequency, tof, events) at "
        "least three steps with two different processes")


@st.composite
def histories(draw):
    case = draw(process_cases())
    net = ref.Net(case)
    procs, mapping = wanted(case, net)
    if not mapping:
        for d in case['procs']:
            d.pop('fast', None)
        procs, mapping = wanted(case, net)
    n = len(mapping)
    reps = draw(st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 2)))
    nsites = reps[0]*reps[1]*reps[2]*case['nbasis']
    case['elements'] = draw(st.permutations(case['elements']))
    k = len(case['elements'])
    ratios = draw(st.lists(st.sampled_from([1.0, 0.5, 0.25, 1/3., 0.0, 0.123456789]), min_size=case['nbasis'], max_size=case['nbasis']))
    case.update(reps=reps, ratios=ratios, empty=draw(st.sampled_from(case['elements'])),
                start=draw(st.lists(st.integers(0, k-1), min_size=nsites, max_size=nsites)),
                step0=draw(st.sampled_from([0, 0, 0, 1, 500])), time0=draw(st.sampled_from([0.0, 0.0, 12.5, 1e-7])),
                scale=draw(st.sampled_from([1.0, 1.0, 1e-9, 1e-12, 1e5])),
                buffer=draw(st.integers(1, 9)), buffer2=draw(st.sampled_from([1, 2, 3, 50, 500])))
    some = draw(st.lists(st.integers(0, n-1), min_size=min(n, 2), max_size=4, unique=True))
    nsteps = draw(st.sampled_from([0, 1, 2, 5, 8, 12, 17, 22, 30]))
    codes = draw(st.lists(st.integers(0, 2**48), min_size=nsteps, max_size=nsteps))
    case['steps'] = []
    for c in codes:
        c, dt = divmod(c, 400)
        c, pick = divmod(c, len(some))
        changes = []
        for _ in range(c % 3):
            c, site = divmod(c//3, nsites)
            c, t = divmod(c, k)
            changes.append((site, t))
        # time passed (none in some steps, but the first one), picked process, changed sites, available sites
        dt = 0 if case['steps'] and dt % 9 == 8 else dt + 1
        case['steps'].append([dt, some[pick], changes, c % 10**6])
    case['tof_start'] = case['step0'] + draw(st.integers(0, 25))
    case['tof_interval'] = (draw(st.integers(0, 8))*70.7 + 1.37)*case['scale']
    case['rates'] = draw(st.lists(st.sampled_from([1.0, 1e-3, 2.5e7, 3.0, 1e-12, 123456.78901234]), min_size=n, max_size=n))
    for i in range(n):          # processes that cannot happen
        if i not in some and draw(st.integers(0, 4)) == 0:
            case['rates'][i] = 0.0
    case['dead'] = draw(st.integers(0, 9)) == 0
    return case


class Configuration(object):
    def __init__(self, types):
        self._types = types

    def types(self):
        return list(self._types)


class Interactions(object):
    def __init__(self, picked, sites, rates):
        self.picked, self.sites, self.rates = picked, sites, rates

    def pickedIndex(self):
        return self.picked

    def processAvailableSites(self):
        return list(self.sites)

    def processRates(self):
        return list(self.rates)


def prepare_model(case):
    m = build(case, repetitions=tuple(case['reps']), coverage_ratios=list(case['ratios']), empty_type=case['empty'],
              tof_start=case['tof_start'], tof_interval=case['tof_interval'])
    m.run(scripting=False)
    return m


def records(case, nproc):
    """(step, time, types, picked, sites) for the start and every step."""
    types = [case['elements'][i] for i in case['start']]
    step, time = case['step0'], case['time0']
    out = [(step, time, list(types), None, None)]
    for j, (dt, picked, changes, code) in enumerate(case['steps']):
        step += 1
        time += dt*0.25*case['scale']
        for s, t in changes:
            types[s] = case['elements'][t]
        sites = [(code//(7**(q % 6)) + q) % 7 for q in range(nproc)]
        if sum(sites) == 0:
            sites[0] = 1
        if case['dead'] and j == len(case['steps'])-1:
            sites = [0]*nproc
        out.append((step, time, list(types), picked, sites))
    return out


def drive(plugin, recs, rates):
    step, time, types, _, _ = recs[0]
    plugin.setup(step, time, Configuration(types), Interactions(0, [1]*len(rates), rates))
    for step, time, types, picked, sites in recs[1:]:
        plugin.registerStep(step, time, Configuration(types), Interactions(picked, sites, rates))
    plugin.finalize()


def load(name):
    scope = {}
    exec(compile(open(name).read(), name, 'exec'), scope)
    return scope


def interesting(case):
    return len(case['steps']) >= 3 and len(set(s[1] for s in case['steps'])) >= 2


def t_coverages(case, ctx):
    from scaks.solvers.kmc_plugins import CoveragesAnalysis
    m = prepare_model(case)
    recs = records(case, len(case['rates']))
    seen = []
    default = CoveragesAnalysis(m)
    drive(default, recs, case['rates'])
    for i, b in enumerate((case['buffer'], case['buffer2'])):
        drive(CoveragesAnalysis(m, filename='cvg%d.py' % i, buffer_size=b), recs, case['rates'])
    ctx.nontrivial(len(recs) >= 3 and len(set(t for r in recs for t in r[2])) >= 3)
    if len(recs) > case['buffer']:
        ctx.label('several flushes')
    ncells = len(recs[0][2])//len(case['ratios'])
    for name in ('auto_coverages.py', 'cvg0.py', 'cvg1.py'):
        d = load(name)
        check(d['times'] == [r[1] for r in recs], '%s: times %r, expected %r', name, d['times'], [r[1] for r in recs])
        check(d['steps'] == [r[0] for r in recs], '%s: steps %r, expected %r', name, d['steps'], [r[0] for r in recs])
        check(d['possible_types'] == case['elements'], '%s: types %r', name, d['possible_types'])
        check(len(d['coverages']) == len(case['elements']), '%s: %d coverage lists', name, len(d['coverages']))
        want = []
        for el in case['elements']:
            want.append([sum(case['ratios'][s % len(case['ratios'])] for s, t in enumerate(r[2]) if t == el)/ncells for r in recs])
        k = case['elements'].index(case['empty'])
        want[k] = [1 - sum(w[j] for q, w in enumerate(want) if q != k) for j in range(len(recs))]
        for el, g, w in zip(case['elements'], d['coverages'], want):
            check(len(g) == len(w), '%s: %d coverages of %s, expected %d', name, len(g), el, len(w))
            for j, (a, b) in enumerate(zip(g, w)):
                check(abs(a - b) < 1e-11, '%s: coverage of %s in record %d is %r, expected %r', name, el, j, a, b)
        seen.append((d['times'], d['steps'], [list(c) for c in d['coverages']]))
    check(seen[0] == seen[1] == seen[2], 'data depend on the buffer size')


def t_frequency(case, ctx):
    from scaks.solvers.kmc_plugins import FrequencyAnalysis
    m = prepare_model(case)
    recs = records(case, len(case['rates']))
    mapping = list(m.process_mapping)
    drive(FrequencyAnalysis(m), recs, case['rates'])
    d = load('auto_frequency.py')
    ctx.nontrivial(interesting(case))
    nproc = len(m.processes)
    occ = [0]*nproc
    reaction = {r: 0 for r in mapping}
    steady = {r: 0 for r in mapping}
    first, last = None, case['time0']
    for step, time, types, picked, sites in recs[1:]:
        occ[picked] += 1
        reaction[mapping[picked]] += 1
        if step >= case['tof_start']:
            steady[mapping[picked]] += 1
            if first is None:
                first = time
        last = time
    if len(set(mapping)) < len(mapping):
        ctx.label('several processes per reaction')
    check(list(d['process_occurencies']) == occ, 'counts %r, expected %r', d['process_occurencies'], occ)
    check(d['reaction_occurencies'] == reaction, 'counts per reaction %r, expected %r', d['reaction_occurencies'], reaction)
    check(sum(d['reaction_occurencies'].values()) == len(recs)-1, 'counts do not add up to the number of steps')
    check(d['steady_reaction_occurencies'] == steady, 'steady counts %r, expected %r (from step %d)',
          d['steady_reaction_occurencies'], steady, case['tof_start'])
    check(set(d['reaction_rates']) == set(mapping), 'rates of %r', sorted(d['reaction_rates']))
    nsites = len(case['start'])
    if first is not None and last > first:
        ctx.label('steady period')
        for r in sorted(reaction):
            w = steady[r]/(nsites*(last - first))
            check(ref.close(d['reaction_rates'][r], w, 1e-9), 'rate of %s is %r, expected %r', r, d['reaction_rates'][r], w)
    else:
        for r in sorted(reaction):
            if steady[r] == 0:
                check(d['reaction_rates'][r] == 0, 'rate of %s is %r without an event', r, d['reaction_rates'][r])


def t_tof(case, ctx):
    from scaks.solvers.kmc_plugins import TOFAnalysis
    m = prepare_model(case)
    recs = records(case, len(case['rates']))
    mapping = list(m.process_mapping)
    nsites = len(case['start'])
    ctx.nontrivial(interesting(case))
    start = case['time0']
    occ = [0]*len(m.processes)
    times, tofs = [], []
    for step, time, types, picked, sites in recs[1:]:
        occ[picked] += 1
        if time - start > case['tof_interval']:
            times.append(start)
            tofs.append([o/(nsites*(time - start)) for o in occ])
            occ = [0]*len(occ)
            start = time
    if len(times) > 1:
        ctx.label('several intervals')
    if len(times) > case['buffer']:
        ctx.label('several flushes')
    drive(TOFAnalysis(m), recs, case['rates'])
    for i, b in enumerate((case['buffer'], case['buffer2'])):
        drive(TOFAnalysis(m, filename='tof%d.py' % i, buffer_size=b), recs, case['rates'])
    for name in ('auto_tofs.py', 'tof0.py', 'tof1.py'):
        d = load(name)
        check(list(d['processes']) == mapping, '%s: processes %r, expected %r', name, d['processes'], mapping)
        check(d['times'] == times, '%s: intervals begin at %r, expected %r', name, d['times'], times)
        check(len(d['tofs']) == len(tofs), '%s: %d intervals, expected %d', name, len(d['tofs']), len(tofs))
        for i, (g, w) in enumerate(zip(d['tofs'], tofs)):
            check(len(g) == len(w), '%s: interval %d has %d frequencies, expected %d', name, i, len(g), len(w))
            for j, (a, b) in enumerate(zip(g, w)):
                check(ref.close(a, b, 1e-9), '%s: frequency of process %d in interval %d is %r, expected %r', name, j, i, a, b)


def rows(lines):
    out = []
    for l in lines:
        if l.startswith('|'):
            out.append([c.strip() for c in l.strip().strip('|').split('|')])
    return out


def t_events(case, ctx):
    from scaks.solvers.kmc_plugins import EventAnalysis
    m = prepare_model(case)
    recs = records(case, len(case['rates']))
    mapping = list(m.process_mapping)
    rates = case['rates']
    ctx.nontrivial(interesting(case))
    if case['dead']:
        ctx.label('no process left at the end')
    drive(EventAnalysis(m), recs, rates)
    texts = [open('auto_events.txt').read()]
    for i, b in enumerate((case['buffer'], case['buffer2'])):
        drive(EventAnalysis(m, filename='ev%d.txt' % i, buffer_size=b), recs, rates)
        texts.append(open('ev%d.txt' % i).read())
    check(texts[0] == texts[1] == texts[2], 'the report depends on the buffer size')
    blocks = re.split(r'\nStep: ', texts[0])
    head = rows(blocks[0].splitlines())
    check(head[0] == ['process index', 'reaction'] and [r[1] for r in head[1:]] == mapping and
          [r[0] for r in head[1:]] == [str(i) for i in range(len(mapping))], 'list of processes is %r', head)
    check(len(blocks)-1 == max(0, len(recs)-2), '%d steps reported, expected %d', len(blocks)-1, max(0, len(recs)-2))
    for block, prev, cur in zip(blocks[1:], recs[1:], recs[2:]):
        check(block.split('\n')[0] == str(prev[0]), 'block of step %s, expected %d', block.split('\n')[0], prev[0])
        n = re.search(r'Total available sites number: (\d+)', block)
        check(n and int(n.group(1)) == sum(prev[4]), 'step %d: total number of sites %r, expected %d', prev[0], n and n.group(1), sum(prev[4]))
        tab = rows(block.splitlines())[1:]
        check(len(tab) == len(mapping), 'step %d: %d rows', prev[0], len(tab))
        total = sum(a*b for a, b in zip(prev[4], rates))
        for i, row in enumerate(tab):
            label = '(%d) %s' % (i, mapping[i])
            if i == cur[3]:
                label = '-> ' + label
            check(row[0] == label, 'step %d: row %r, expected %r (picked in step %d: %d)', prev[0], row[0], label, cur[0], cur[3])
            check(int(row[1]) == prev[4][i], 'step %d: %s sites for process %d, expected %d', prev[0], row[1], i, prev[4][i])
            r = prev[4][i]*rates[i]
            check(abs(float(row[2]) - r) <= 6e-3*r, 'step %d: total rate %s of process %d, expected %r', prev[0], row[2], i, r)
            p = 100.0*r/total if total else 0.0
            check(row[3].endswith('%') and abs(float(row[3][:-1]) - p) <= 0.0051, 'step %d: probability %s of process %d, expected %r',
                  prev[0], row[3], i, p)
        w = re.search(r"picked in step (\d+)\)", block)
        check(w and int(w.group(1)) == cur[0], 'step %d: picked in step %r', prev[0], w and w.group(1))


TESTS = [Test('coverages', histories(), t_coverages, 600, 12000),
         Test('frequency', histories(), t_frequency, 600, 12000),
         Test('tof', histories(), t_tof, 600, 12000),
         Test('events', histories(), t_events, 500, 10000)]
