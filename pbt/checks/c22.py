"""C22: coverage statistics in Python and C++."""
import os
import shutil
import subprocess
import tempfile
from fractions import Fraction

from hypothesis import strategies as st

from pbt.core import HarnessError, REPO, Test, Violation, check

RULE = "non-trivial: at least two unit cells, a requested type that occurs and an occurring type that is not requested"
ASSUMPTIONS = ["The C++ function is compiled from the sources in /repo/c++ with address and undefined-behaviour sanitizers "
               "and called in a process of its own, not through the Python wrapper (SWIG is not installed)."]

MAIN = r'''
#include "kmc_functions.h"
#include <iostream>
#include <cstdio>
static std::vector<std::string> strings() {
    std::string line; std::getline(std::cin, line);
    std::vector<std::string> v(std::stoul(line));
    for (auto & s : v) std::getline(std::cin, s);
    return v;
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line != "case") return 3;
        auto types = strings();
        auto possible = strings();
        auto text = strings();
        std::vector<double> ratios;
        for (auto & s : text) ratios.push_back(std::strtod(s.c_str(), nullptr));
        const auto types0 = types; const auto possible0 = possible; const auto ratios0 = ratios;
        auto c = collect_coverages(types, possible, ratios);
        std::printf("%zu", c.size());
        for (double x : c) std::printf(" %a", x);
        std::printf("%s\n", (types == types0 && possible == possible0 && ratios == ratios0) ? "" : " changed");
        std::fflush(stdout);
    }
    return 0;
}
'''
_state = {'dir': None, 'owner': None, 'proc': {}}


def prepare():
    d = tempfile.mkdtemp(prefix='scakspbt_cxx_')
    _state.update(dir=d, owner=os.getpid())
    src = os.path.join(d, 'main.cpp')
    with open(src, 'w') as f:
        f.write(MAIN)
    cxx = os.path.join(REPO, 'c++')
    base = ['g++', '-std=c++11', '-O1', '-g', '-I', os.path.join(cxx, 'include'), src,
            os.path.join(cxx, 'src', 'kmc_functions.cpp'), '-o', os.path.join(d, 'kmc')]
    flags = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_DEBUG']
    p = subprocess.run(base + flags, capture_output=True, text=True)
    if p.returncode:
        cleanup()
        raise HarnessError('cannot compile the C++ sources: ' + p.stderr[-2000:])


def cleanup():
    if _state['dir'] and _state['owner'] == os.getpid():
        shutil.rmtree(_state['dir'], ignore_errors=True)
        _state['dir'] = None


def stop():
    p = _state['proc'].pop(os.getpid(), None)
    if p:
        p.stdin.close()
        p.wait()


def cxx(types, possible, ratios):
    import atexit
    if not _state['dir']:
        prepare()
        atexit.register(cleanup)
    pid = os.getpid()
    p = _state['proc'].get(pid)
    if p is None:
        p = subprocess.Popen([os.path.join(_state['dir'], 'kmc')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True, cwd='/',
                             env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        _state['proc'][pid] = p
    text = ['case']
    for seq in (types, possible, [repr(float(r)) for r in ratios]):
        text.append(str(len(seq)))
        text += seq
    try:
        p.stdin.write('\n'.join(text) + '\n')
        p.stdin.flush()
        line = p.stdout.readline()
    except BrokenPipeError:
        line = ''
    if not line:
        err = p.stderr.read()
        p.wait()
        _state['proc'].pop(pid)
        first = [l for l in err.splitlines() if 'rror' in l][:2]
        raise Violation('the C++ function died: %s' % ' '.join(first))
    parts = line.split()
    check('changed' not in parts, 'the C++ function changed its arguments')
    out = [float.fromhex(x) for x in parts[1:]]
    check(len(out) == int(parts[0]), 'bad answer %r', line)
    return out


NAMES = ['V', 'A', 'B', 'A_u', 'A_', 'a', 'Vac', '*', 'O_r', 'CO', '', 'A B']


@st.composite
def cases(draw):
    alphabet = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    nbasis = draw(st.integers(1, 5))
    ncells = draw(st.sampled_from([1, 1, 2, 3, 4, 7, 12, 30]))
    n = nbasis*ncells
    types = draw(st.lists(st.sampled_from(alphabet), min_size=n, max_size=n))
    possible = draw(st.lists(st.sampled_from(NAMES), max_size=5, unique=True))
    for a in alphabet:
        if a not in possible and draw(st.booleans()):
            possible.append(a)
    possible = draw(st.permutations(possible))
    ratio = st.one_of(st.sampled_from([1.0, 0.5, 0.25, 0.0, 1/3., 2.0]), st.floats(0, 10, allow_nan=False, width=32))
    ratios = draw(st.lists(ratio, min_size=nbasis, max_size=nbasis))
    return dict(types=types, possible=list(possible), ratios=ratios)


def t_coverages(case, ctx):
    from scaks.solvers.kmc_plugins.kmc_functions import collect_coverages
    types, possible, ratios = case['types'], case['possible'], case['ratios']
    n = len(types)//len(ratios)
    ctx.nontrivial(n > 1 and any(t in possible for t in types) and any(t not in possible for t in types))
    if len(ratios) > 1:
        ctx.label('several basis sites')
    want = [float(sum((Fraction(ratios[i % len(ratios)]) for i, t in enumerate(types) if t == p), Fraction(0))/n)
            for p in possible]
    args = list(types), list(possible), list(ratios)
    py = list(collect_coverages(*args))
    check(args == (types, possible, ratios), 'arguments were modified')
    cc = cxx(types, possible, ratios)
    for name, got in (('Python', py), ('C++', cc)):
        check(len(got) == len(want), '%s gives %d coverages for %d types', name, len(got), len(want))
        for p, g, w in zip(possible, got, want):
            check(abs(g - w) <= 1e-12*(1 + abs(w)), '%s coverage of %r is %r, expected %r', name, p, g, w)


TESTS = [Test('coverages', cases(), t_coverages, 6000, 200000)]
