"""Writes /verif/known_findings.json (never run by a check)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [dict(property='C13', id='sym-dtheta-stoichiometry', status='open',
    what="SteadyStateSolver.get_elementary_dtheta_dt_sym takes the sign of the first occurrence of an "
         "adsorbate and ignores how often it occurs, so steady_state_function_by_sym and "
         "analytical_jacobian_by_sym differ from the numeric route when the net coefficient of an "
         "adsorbate in a reaction is not +1 or -1 (the wrong expressions are pinned by stable tests)",
    where='scaks/solvers/steady_state_solver.py get_elementary_dtheta_dt_sym'),
  dict(property='C42', id='au-60x60-coordinates', status='open',
    what="examples/KMC/CO-Oxidation-Au-100/60x60/nodiff/kmc_processes.py names the coordinates [0.0, 2.0, 0.0] and "
         "[1.0, 0.5, 0.0] twice in one process, so this model cannot be set up",
    where='examples/KMC/CO-Oxidation-Au-100/60x60/nodiff/kmc_processes.py'),
  dict(property='C42', id='pt-100-interval', status='open',
    what="trajectory_dump_interval = nstep/100 (or /200) in five pt-100.mkm files under "
         "examples/KMC/CO-Oxidation-Pt-100/10x10 is a float in Python 3, which the model refuses",
    where='examples/KMC/CO-Oxidation-Pt-100/10x10/{redistribution,redistribution/no-rejection,superposition/*}/pt-100.mkm')]
MAP = {'7de72c4': ['C16', 'C30'], 'ea3ed7d': ['C08'], 'e627fba': ['C35'], '4634c5a': ['C14'], '2b88546': ['C06', 'C10'], 'c6d8579': ['C43'], '4bc5ea5': ['C08'], '32548fe': ['C08', 'C28'], '675661b': ['C11'], '3cad053': ['C12'],
 '30cc5eb': ['C13'], '26d465b': ['C13'], '189d5d5': ['C01', 'C02'], '1ea9539': ['C01', 'C02'],
 '25d335c': ['C24'], '3e4b21e': ['C07', 'C09', 'C19'], '9ea6143': ['C06'], 'b741bf2': ['C18'],
 '817641c': ['C14', 'C32'], 'bcaabfb': ['C14'], '152a90d': ['C14'], 'e906d52': ['C28'], '9a4350a': ['C30'],
 'aadbff8': ['C30'], 'b002537': ['C30'], '81e47b0': ['C10'], '0cfce2d': ['C17'], '57418d3': ['C23'],
 '85fa58a': ['C21'], '0a41264': ['C20'], '63206f4': ['C21'], '280f550': ['C21'], '41c627d': ['C28'],
 'c212c92': ['C26'], 'be1a035': ['C27'], '97d92bb': ['C05'], 'bd8babd': ['C32'], '257c02e': ['C12'], '9d7f17d': ['C12'],
 'e92cd8f': ['C21'], '82d696c': ['C27'], 'b8c97e2': ['C24'], '5d95de4': ['C32'],
 '87ba22a': ['C36'], 'd4100c8': ['C36'], '290dd40': ['C36'], '2e83595': ['C37'], '5200a63': ['C38'], '67e08fa': ['C39'],
 '17b2e08': ['C40'], '5395902': ['C40'], '76e5b3c': ['C41'], '048709d': ['C41'], '0e51b8a': ['C41'], '50b292c': ['C20'], 'bb0c4a4': ['C24'], '17bb835': ['C14']}
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'c8eac05..HEAD'], text=True)
fixed = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    for p in MAP[h]:
        fixed.append('fixed: property=%s %s %s' % (p, h, s[5:]))
json.dump(dict(findings=OPEN, fixed=fixed), open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(fixed))
