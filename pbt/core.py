"""Runner shared by all checks: drives Hypothesis, shards over processes,
shrinks, writes replay files and evidence.

A check module defines TESTS, a list of Test objects.  A case is always plain
python data (dict/list/tuple/str/number/bool/None) so that a failing case can be
written to a replay file with repr() and re-run without Hypothesis.
"""
import ast
import contextlib
import hashlib
import importlib
import io
import json
import logging
import multiprocessing
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SCAKS_REPO', '/repo')
CASE_CPU_LIMIT = 100        # CPU seconds; an ordinary case takes well below 5
SHRINK_WALL_LIMIT = 60      # seconds spent on shrinking, affects the replay only


class Violation(Exception):
    """The property does not hold for the current case."""


class HarnessError(BaseException):
    """Something is wrong with the machinery or the sandbox."""


class CaseTimeout(BaseException):
    pass


class StopCampaign(BaseException):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Test(object):
    def __init__(self, name, strategy, fn, quick, thorough, isolated=False):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.isolated = isolated      # run every case in a forked child


class Ctx(object):
    """Handed to every case: classification, scratch folder, known findings."""
    def __init__(self, prop, known):
        self.prop, self.known_list = prop, known
        self.evaluations = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.known_seen = {}
        self._nontrivial = False
        self.scratch = None

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    def known(self, fid, detail):
        """Report a listed finding; anything not listed is a violation."""
        for k in self.known_list:
            if k['property'] == self.prop and k['id'] == fid:
                self.known_seen[fid] = k['what']
                self.label('known finding ' + fid)
                return
        raise Violation(detail)

    def fresh_dir(self):
        """Empty the scratch folder, which is also the working directory."""
        d = self.scratch
        assert d and d.startswith(tempfile.gettempdir()) and 'scakspbt' in d
        for n in os.listdir(d):
            p = os.path.join(d, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        os.chdir(d)


def close_model_handlers():
    """Models add handlers to a global logger and never close them."""
    lg = logging.getLogger('model')
    for h in list(lg.handlers):
        lg.removeHandler(h)
        try:
            h.close()
        except Exception:
            pass


def mpirun(size, module, name, case, wait=150):
    """Run fn(case) of a check module on ranks started by the real mpirun, in the current folder.

    Results in rank order, or None where mpirun cannot start its processes."""
    folder = tempfile.mkdtemp(prefix='mpi_',)
    try:
        with open(os.path.join(folder, 'case.pkl'), 'wb') as f:
            pickle.dump(case, f)
        env = {k: v for k, v in os.environ.items() if not k.startswith(('OMPI_', 'PMIX_', 'PRTE_', 'ORTE_', 'OPAL_'))}
        env.update(TMPDIR=folder, PMIX_MCA_gds='hash', OMPI_MCA_mpi_yield_when_idle='1', SCAKS_REPO=REPO,
                   OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader')
        cmd = ['mpirun', '--oversubscribe', '--bind-to', 'none', '-n', str(size), sys.executable,
               os.path.join(VERIF, 'pbt', 'mpirank.py'), folder, module, name]
        try:
            p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.DEVNULL, start_new_session=True)
        except OSError:
            return None
        late = False
        try:
            p.wait(wait)
        except subprocess.TimeoutExpired:
            late = True
        finally:
            for sig in (signal.SIGTERM, signal.SIGKILL):        # (the first lets mpirun end its ranks)
                try:
                    os.killpg(p.pid, sig)
                    p.wait(10)
                except (OSError, subprocess.TimeoutExpired):
                    pass
        started = [os.path.exists(os.path.join(folder, 'started_%d' % r)) for r in range(size)]
        if not all(started):
            return None
        out = []
        for r in range(size):
            try:
                with open(os.path.join(folder, 'result_%d.pkl' % r), 'rb') as f:
                    out.append(pickle.load(f))
            except OSError:
                out.append(None)
        for r, o in enumerate(out):
            if o and o[0] == 'failed':
                raise Violation('rank %d of %d fails: %s\n%s' % (r, size, o[1], o[2][-1500:]))
        for r, o in enumerate(out):
            if o is None:
                raise Violation('rank %d of %d %s' % (r, size, 'does not end' if late else 'ends without a result'))
        return [o[1] for o in out]
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def bootstrap():
    """Make scaks (from REPO), the KMCLib stub and hypothesis importable."""
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    for p in (os.path.join(VERIF, 'pbt', 'stubs'), REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    extra = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    try:
        import hypothesis  # noqa
    except ImportError:
        sys.path.append(extra)
        import hypothesis  # noqa
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()):
        for name in ('models.micro_kinetic_model', 'models.kmc_model', 'solvers.kmc_plugins'):
            try:
                importlib.import_module('scaks.' + name)
            except Exception:
                pass    # the cases that need it report it
    import scaks
    f = os.path.abspath(scaks.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError('scaks imported from %s, not from %s' % (f, REPO))
    import numpy as np
    np.seterr(all='ignore')


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ''
    for fr in reversed(tb):
        if '/scaks/' in fr.filename:
            where = ' at scaks/%s:%d' % (fr.filename.split('/scaks/', 1)[1], fr.lineno)
            break
    if isinstance(exc, Violation):
        return str(exc)
    if not where:
        fr = tb[-1]
        where = ' at %s:%d' % (os.path.basename(fr.filename), fr.lineno)
    return 'unexpected %s: %s%s' % (type(exc).__name__, str(exc)[:300], where)


def case_key(case):
    return hashlib.blake2b(repr(case).encode(), digest_size=8).digest()


def _on_timer(signum, frame):
    raise CaseTimeout()


def run_one(test, case, ctx):
    """Run one case, return None or the failure message."""
    ctx._nontrivial = False
    ctx.fresh_dir()
    signal.signal(signal.SIGPROF, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        test.fn(case, ctx)
        return None
    except (OSError, MemoryError) as e:
        if isinstance(e, OSError) and e.errno in (24, 28, 12, 23):
            raise HarnessError('environment: %r' % e)
        if isinstance(e, MemoryError):
            raise HarnessError('out of memory')
        return describe(e)
    except Exception as e:
        return describe(e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        close_model_handlers()


def run_isolated(test, case, ctx):
    """Run one case in a forked child, so that no state of the code survives."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = None
        try:
            os.close(r)
            ctx.labels, ctx.known_seen = {}, {}
            try:
                msg = run_one(test, case, ctx)
                out = ('ok', msg, ctx._nontrivial, ctx.labels, ctx.known_seen)
            except CaseTimeout:
                out = ('timeout',)
            except HarnessError as e:
                out = ('harness', str(e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        if status & 0x7f:
            return 'process died with signal %d' % (status & 0x7f)
        raise HarnessError('isolated case gave no answer')
    out = pickle.loads(data)
    if out[0] == 'timeout':
        raise CaseTimeout()
    if out[0] == 'harness':
        raise HarnessError(out[1])
    _, msg, nt, labels, known = out
    ctx._nontrivial = nt
    for k, v in labels.items():
        ctx.label(k, v)
    ctx.known_seen.update(known)
    return msg


class _Fail(Exception):
    pass


def fewer_mutations():
    """Hypothesis derives up to five variants from each random case; here only
    one case in four has variants, so that most cases are independent draws."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner as R
        derive = R.generate_mutations_from
    except (ImportError, AttributeError):
        return
    if getattr(derive, 'scarce', False):
        return

    def sometimes(self, data):
        if self.random.random() < 0.25:
            derive(self, data)
    sometimes.scarce = True
    R.generate_mutations_from = sometimes


def campaign(test, n, seed, ctx, stop):
    """Run n generated cases; return (message, minimal case) or None."""
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase, Verbosity
    from hypothesis.errors import Unsatisfiable, HypothesisException
    fewer_mutations()
    failures = []            # (size, case, message)
    state = {'first': None}

    def body(case):
        if state['first'] is None:
            if stop.is_set():
                raise StopCampaign()
        elif time.time() - state['first'] > SHRINK_WALL_LIMIT:
            raise StopCampaign()
        snapshot = repr(case)
        ctx.evaluations += 1
        try:
            msg = (run_isolated if test.isolated else run_one)(test, case, ctx)
        except CaseTimeout:
            failures.append((len(snapshot), snapshot,
                             'case did not finish within %d CPU seconds' % CASE_CPU_LIMIT))
            stop.set()
            raise StopCampaign()
        if ctx._nontrivial:
            ctx.keys.add((test.name, hashlib.blake2b(snapshot.encode(), digest_size=8).digest()))
            if len(ctx.samples) < 3 and len(snapshot) < 4000:
                ctx.samples.append({'test': test.name, 'case': snapshot})
        if msg is not None:
            failures.append((len(snapshot), snapshot, msg))
            if state['first'] is None:
                state['first'] = time.time()
                stop.set()
            raise _Fail(msg)

    runner = given(test.strategy)(body)
    runner = settings(max_examples=n, database=None, deadline=None,
                      suppress_health_check=list(HealthCheck),
                      phases=[Phase.generate] + ([] if os.environ.get('VERIF_NOSHRINK') else [Phase.shrink]),
                      report_multiple_bugs=False, print_blob=False,
                      verbosity=Verbosity.quiet)(runner)
    runner = hseed(seed)(runner)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runner()
    except StopCampaign:
        pass
    except _Fail:
        pass
    except Unsatisfiable as e:
        raise HarnessError('generator of %s: %s' % (test.name, e))
    except HypothesisException as e:
        if not failures:
            raise HarnessError('hypothesis: %r' % e)
    except Exception as e:
        # e.g. an exception group of flaky failures
        if not failures:
            raise HarnessError('%s: %s' % (test.name, ''.join(traceback.format_exception(e))))
    if failures:
        size, snapshot, msg = min(failures, key=lambda x: x[0])
        return msg, snapshot
    return None


def worker(prop, tier, seed, idx, nworkers, known, stop, queue):
    scratch = tempfile.mkdtemp(prefix='scakspbt_%s_' % prop)
    result = {'idx': idx, 'error': None, 'failure': None}
    try:
        ctx = Ctx(prop, known)
        ctx.scratch = scratch
        os.chdir(scratch)
        devnull = os.open(os.devnull, os.O_WRONLY)
        saved_err = os.dup(2)
        os.dup2(devnull, 2)
        os.dup2(devnull, 1)
        module = importlib.import_module('pbt.checks.%s' % prop.lower())
        for ti, test in enumerate(module.TESTS):
            total = test.quick if tier == 'quick' else test.thorough
            n = total // nworkers + (1 if idx < total % nworkers else 0)
            if n == 0 or stop.is_set():
                continue
            t0 = time.time()
            failure = campaign(test, n, seed*100003 + idx*101 + ti, ctx, stop)
            ctx.label('cpu seconds ' + test.name, round(time.time() - t0, 1))
            if failure:
                result['failure'] = (test.name,) + failure
                break
        result.update(evaluations=ctx.evaluations, keys=ctx.keys, labels=ctx.labels,
                      samples=ctx.samples, known=ctx.known_seen)
    except BaseException as e:
        result['error'] = ''.join(traceback.format_exception(e))
        stop.set()
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
        queue.put(pickle.dumps(result))


def replay(prop, path):
    bootstrap()
    data = json.load(open(path))
    module = importlib.import_module('pbt.checks.%s' % prop.lower())
    test = [t for t in module.TESTS if t.name == data['test']][0]
    ctx = Ctx(prop, load_known())
    ctx.scratch = tempfile.mkdtemp(prefix='scakspbt_%s_' % prop)
    try:
        case = ast.literal_eval(data['case'])
        msg = (run_isolated if test.isolated else run_one)(test, case, ctx)
    finally:
        os.chdir('/')
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    if msg:
        print('%s' % msg)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('replay passes')
    return 0


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    bootstrap()
    known = [k for k in load_known() if k.get('status', 'open') == 'open']
    module = importlib.import_module('pbt.checks.%s' % prop.lower())
    if hasattr(module, 'prepare'):
        module.prepare()
    nworkers = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    mp = multiprocessing.get_context('fork')
    stop = mp.Event()
    queue = mp.Queue()
    procs = [mp.Process(target=worker, args=(prop, tier, seed, i, nworkers, known, stop, queue))
             for i in range(nworkers)]
    for p in procs:
        p.start()
    results = []
    dead = 0
    while len(results) < nworkers:
        try:
            results.append(pickle.loads(queue.get(timeout=5)))
        except Exception:
            dead += 1
            if not any(p.is_alive() for p in procs) and queue.empty():
                if dead > 3:
                    break
    for p in procs:
        p.join(10)
    if hasattr(module, 'cleanup'):
        module.cleanup()
    results.sort(key=lambda r: r['idx'])
    errors = [r['error'] for r in results if r['error']]
    failures = [r['failure'] for r in results if r['failure']]
    keys, labels, samples, nev, seen = set(), {}, [], 0, {}
    for r in results:
        if r['error']:
            continue
        keys |= r['keys']
        nev += r['evaluations']
        seen.update(r['known'])
        if len(samples) < 8:
            samples += [s for s in r['samples'] if s['test'] not in
                        [x['test'] for x in samples]] or r['samples'][:1]
        for k, v in r['labels'].items():
            labels[k] = round(labels.get(k, 0) + v, 1)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=nev, distinct_nontrivial=len(keys), rule=module.RULE,
                      samples=samples[:8], classes=dict(sorted(labels.items())),
                      known_findings_seen=sorted(seen)),
        assumptions=getattr(module, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - t0, 2), violations=len(failures))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for fid in sorted(seen):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, fid, seen[fid]))
    if failures:
        test, msg, snapshot = min(failures, key=lambda x: len(x[2]))
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s_%s.json' % (
            prop, hashlib.blake2b(snapshot.encode(), digest_size=6).hexdigest()))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, test=test, message=msg, case=snapshot,
                           run='python pbt/run.py %s --replay %s' % (prop, path)), f, indent=1)
        print('%s/%s: %s' % (prop, test, msg))
        print('  case: %s' % snapshot[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors or len(results) < nworkers:
        for e in errors:
            print(e, file=sys.stderr)
        print('%s: harness error (%d of %d workers answered)' % (
            prop, len(results) - len(errors), nworkers), file=sys.stderr)
        return 2
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs' % (
        prop, tier, seed, nev, len(keys), time.time() - t0))
    return 0
