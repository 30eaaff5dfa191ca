"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'Hypothesis: generated expression ASTs rendered to text, AST as oracle',
    'C02': 'Hypothesis: balanced-by-construction reactions and single edits, reference counts',
    'C03': 'Hypothesis: metamorphic (involution, exchange of ends)',
    'C04': 'Hypothesis: generated networks, reference stoichiometry',
    'C05': 'Hypothesis: generated routes, exact rational linear algebra as oracle',
    'C06': 'Hypothesis: generated energies, reference rules and gauge invariance',
    'C07': 'Hypothesis: generated networks, Eyring reference, detailed balance, monotonicity',
    'C08': 'Hypothesis: model-based histories over several models, fresh process as oracle',
    'C09': 'Hypothesis: generated networks, kinetic gas theory reference, scaling laws',
    'C10': 'Hypothesis: generated networks and coverages, mass-action reference',
    'C11': 'Hypothesis: generated networks and coverages, stoichiometric reference, invariants',
    'C12': 'Hypothesis: generated networks and coverages, polynomial derivative reference',
    'C13': 'Hypothesis: differential testing of the symbolic against the numeric route',
    'C14': 'Hypothesis: generated networks, guesses and methods; validity predicate, analytic solutions',
    'C15': 'Hypothesis: generated guesses, simplex predicate, reference distributions',
    'C16': 'Hypothesis: generated networks, differential testing against an independent integrator',
    'C17': 'Hypothesis: generated networks, reference derivative, repeatability',
    'C18': 'Hypothesis: generated gases and conditions, reference formulas, scaling laws',
    'C19': 'Hypothesis: generated networks, reference shifts',
    'C20': 'Hypothesis: generated process definitions, reference expansion (recording engine)',
    'C21': 'Hypothesis: generated simulation histories, round trip through the written files',
    'C22': 'Hypothesis: generated lattices, reference count and Python/C++ differential testing',
    'C23': 'Hypothesis: generated sequences and rank numbers on stand-in and mpirun ranks, concatenation identity',
    'C24': 'Hypothesis: generated setups and single invalid edits, reference acceptance',
    'C25': 'Hypothesis: generated valid and edited shapes, reference predicates',
    'C26': 'Hypothesis: round trip through generated text',
    'C27': 'Hypothesis: operation sequences against a reference model',
    'C28': 'Hypothesis: generated solves with recording plugins, trace automaton',
    'C29': 'Hypothesis: generated formula ASTs, sum over the AST',
    'C30': 'Hypothesis: generated run histories, independent recomputation, archive contents',
    'C31': 'Hypothesis: generated lattices and files, reference (recording engine)',
    'C32': 'Hypothesis: generated systems with known roots, recomputed residuals',
    'C33': 'Hypothesis: metamorphic relations between equivalent models',
    'C35': 'Hypothesis: generated calls and runs, log tables parsed back and compared with the returned values',
    'C36': 'Hypothesis: generated schedules of forked ranks and mpirun ranks, differential testing against a single process',
    'C37': 'Hypothesis: generated networks and energies, reference curves and file names',
    'C38': 'Hypothesis: generated networks, the written LaTeX is read back and evaluated against reference rates',
    'C39': 'Hypothesis: generated setups and trajectories, continued simulations against the recorded end (recording engine)',
    'C40': 'Hypothesis: scripts executed in generated folders, against an independent reference model, an independent integrator and the recording engine',
    'C41': 'Hypothesis: scripts executed in generated folders, round trips of setups and results',
    'C42': 'Hypothesis: varied example models, reference expansion and rates, steady-state predicate',
    'C43': 'Hypothesis: generated grids of results, plotted maps against an independent bilinear interpolation',
    'C34': 'Hypothesis: equilibria by construction, identities of driving forces',
}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, 'pbt', 'checks', p.lower() + '.py')):
        cmd = '/opt/venv/bin/python pbt/run.py %s --tier ' % p
        checks.append(dict(property=p, quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
                           technique=TECH[p], level='exploration',
                           level_note='generated-input search against an explicit oracle; case '
                                      'numbers and distribution are in the evidence file'))
    else:
        na.append(dict(property=p, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python pbt/selftest.py', checks=checks, not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'open')
