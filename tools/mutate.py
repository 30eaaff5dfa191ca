"""Mutation campaign: which small changes of the code does no check notice?

python tools/mutate.py cover              lines executed by every check -> /tmp/mut/cover.json
python tools/mutate.py run N SEED [FILE…] N random mutants -> /tmp/mut/results.jsonl
Works on copies (/tmp/mut/r*, /tmp/mut/v*), never on /repo.
"""
import ast, copy, glob, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from threading import Lock
M = '/tmp/mut'
SRC = M + '/src'     # git -C /repo archive HEAD | tar x -C /tmp/mut/src
PY = '/opt/venv/bin/python'
W = int(os.environ.get('MUT_WORKERS', '4'))
SKIP = ('tests/', 'images2gif', 'profiling', 'scaks/database/elements')
CHECKS = ['C%02d' % i for i in range(1, 60) if os.path.exists('/verif/pbt/checks/c%02d.py' % i)]


def copies(i):
    r, v = '%s/r%d' % (M, i), '%s/v%d' % (M, i)
    for d in (r, v):
        if os.path.isdir(d):
            shutil.rmtree(d)
    subprocess.check_call(['cp', '-a', SRC, r])
    shutil.copytree('/verif', v, ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', 'evidence'))
    return r, v


def run(v, r, check, workers, extra=None, limit=500):
    env = dict(os.environ, SCAKS_REPO=r, VERIF_WORKERS=str(workers), VERIF_SEED='1', VERIF_NOSHRINK='1', VERIF_TIER='quick',
               PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', OMP_NUM_THREADS='1')
    env.update(extra or {})
    t = time.time()
    cmd = 'ulimit -v 12000000; exec %s pbt/run.py %s' % (PY, check)
    p = subprocess.Popen(['bash', '-c', cmd], cwd=v, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
        code = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, code = 'TIMEOUT', 99
    return code, out, time.time() - t


def cover():
    cov = {}
    r, v = copies(0)
    for c in CHECKS:
        f = M + '/cov.txt'
        if os.path.exists(f):
            os.remove(f)
        code, out, dt = run(v, r, c, 8, dict(COVOUT=f, PYTHONPATH=M + '/site'))
        lines = {}
        for l in set(open(f)):
            a, b = l.rsplit(':', 1)
            if a.startswith(r + '/'):
                lines.setdefault(a[len(r) + 1:], []).append(int(b))
        cov[c] = dict(time=dt, lines=lines)
        print(c, code, round(dt, 1), sum(map(len, lines.values())), flush=True)
    json.dump(cov, open(M + '/cover.json', 'w'))


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.Mod: ast.Mult,
       ast.FloorDiv: ast.Mult}


def is_log(node):
    s = ast.unparse(node)
    return ('logger' in s or 'log_allowed' in s or s.startswith('print(') or s.startswith('msg = ') or s.startswith('msg += ')
            or 'logging' in s or s.startswith("'''") or 'warnings' in s)


def mutants(src):
    """List of (line, description, function applying the change to a fresh tree)."""
    tree = ast.parse(src)
    out = []
    nodes = list(ast.walk(tree))
    parents = {}
    for n in nodes:
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    def stmt(n):
        while n in parents and not isinstance(n, ast.stmt):
            n = parents[n]
        return n
    for i, n in enumerate(nodes):
        s = stmt(n)
        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and is_log(s):
            continue
        if isinstance(s, ast.Raise):
            continue
        def add(desc, fn, i=i, n=n):
            out.append((n.lineno, desc, i, fn))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            if 'is_master' in ast.unparse(n) or '__main__' in ast.unparse(n):
                continue
            add('cmp', lambda t, x, p: x.ops.__setitem__(0, CMP[type(x.ops[0])]()))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            add('bin', lambda t, x, p: setattr(x, 'op', BIN[type(x.op)]()))
        elif isinstance(n, ast.BoolOp):
            add('bool', lambda t, x, p: setattr(x, 'op', ast.Or() if isinstance(x.op, ast.And) else ast.And()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            def un(t, x, p):
                for f, val in ast.iter_fields(p):
                    if val is x:
                        setattr(p, f, x.operand)
                    elif isinstance(val, list):
                        setattr(p, f, [x.operand if y is x else y for y in val])
            add('un', un)
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            v = n.value
            if isinstance(v, bool):
                add('const', lambda t, x, p: setattr(x, 'value', not x.value))
            elif isinstance(v, int):
                add('const+', lambda t, x, p: setattr(x, 'value', x.value + 1))
                if v > 0:
                    add('const-', lambda t, x, p: setattr(x, 'value', x.value - 1))
            elif isinstance(v, float):
                add('const*', lambda t, x, p: setattr(x, 'value', x.value*1.25 if x.value else 1.0))
        elif isinstance(n, ast.If) and 'master' not in ast.unparse(n.test) and 'log' not in ast.unparse(n.test) and '__main__' not in ast.unparse(n.test):
            add('if1', lambda t, x, p: setattr(x, 'test', ast.Constant(True)))
            add('if0', lambda t, x, p: setattr(x, 'test', ast.Constant(False)))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            def rm(t, x, p):
                for f in ('body', 'orelse', 'finalbody'):
                    b = getattr(p, f, None)
                    if isinstance(b, list) and any(y is x for y in b):
                        setattr(p, f, [ast.Pass() if y is x else y for y in b])
            add('del', rm)
        elif isinstance(n, ast.Break):
            def br(t, x, p):
                for f in ('body', 'orelse'):
                    b = getattr(p, f, None)
                    if isinstance(b, list) and any(y is x for y in b):
                        setattr(p, f, [ast.Continue() if y is x else y for y in b])
            add('break', br)
        elif isinstance(n, ast.Continue):
            def co(t, x, p):
                for f in ('body', 'orelse'):
                    b = getattr(p, f, None)
                    if isinstance(b, list) and any(y is x for y in b):
                        setattr(p, f, [ast.Break() if y is x else y for y in b])
            add('continue', co)
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                add('slice', lambda t, x, p: setattr(x, 'lower', None))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'abs', 'float', 'tuple', 'list', 'reversed', 'set', 'int', 'deepcopy') and len(n.args) == 1 and not n.keywords:
            def cl(t, x, p):
                for f, val in ast.iter_fields(p):
                    if val is x:
                        setattr(p, f, x.args[0])
                    elif isinstance(val, list):
                        setattr(p, f, [x.args[0] if y is x else y for y in val])
            add('call', cl)
    return out


def put(p, x, y):
    """Replace child x of p by y."""
    for f, val in ast.iter_fields(p):
        if val is x:
            setattr(p, f, y)
        elif isinstance(val, list):
            setattr(p, f, [y if q is x else q for q in val])


def mutants2(src):
    """Wrong names, keys and arguments, lost conditions and wrappers."""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    parents = {c: n for n in nodes for c in ast.iter_child_nodes(n)}
    out = []
    keys = sorted({n.slice.value for n in nodes if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)})

    def up(n, kind):
        while n in parents and not isinstance(n, kind):
            n = parents[n]
        return n if isinstance(n, kind) else None
    for i, n in enumerate(nodes):
        s = up(n, ast.stmt)
        if s is None or isinstance(s, ast.Raise) or (isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and is_log(s)):
            continue
        fun = up(n, ast.FunctionDef)

        def add(desc, fn, i=i, n=n):
            out.append((n.lineno, desc, i, fn))
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                add('kw%d' % k, lambda t, x, p, k=k: x.keywords.pop(k))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                add('swap', lambda t, x, p: x.args.__setitem__(slice(0, 2), [x.args[1], x.args[0]]))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('strip', 'copy', 'tolist', 'transpose', 'lower', 'reverse', 'flatten', 'evalf'):
                add('method', lambda t, x, p: put(p, x, x.func.value))
            if ast.unparse(n.func) in ('copy.deepcopy', 'self._mpf', 'mp.mpf', 'np.array', 'str', 'sum', 'max', 'min') and len(n.args) == 1:
                add('wrap', lambda t, x, p: put(p, x, x.args[0]))
        elif isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                add('drop%d' % k, lambda t, x, p, k=k: put(p, x, x.values[1 - k] if len(x.values) == 2 else ast.BoolOp(x.op, x.values[:k] + x.values[k+1:])))
        elif isinstance(n, ast.comprehension) and n.ifs:
            n.lineno = n.ifs[0].lineno
            add('compif', lambda t, x, p: setattr(x, 'ifs', []))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in keys and len(keys) > 1:
            other = keys[(keys.index(n.value) + 1) % len(keys)]
            add('key', lambda t, x, p, o=other: setattr(x, 'value', o))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and fun is not None:
            names = [a.arg for a in fun.args.args if a.arg not in ('self', 'cls')]
            names += [q.id for q in ast.walk(fun) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)]
            names = sorted(set(names))
            if n.id in names and len(names) > 1:
                # the most similar other name, and the next one
                import difflib
                best = max((q for q in names if q != n.id), key=lambda q: difflib.SequenceMatcher(None, q, n.id).ratio())
                add('name', lambda t, x, p, o=best: setattr(x, 'id', o))
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            add('ret', lambda t, x, p: x.value.elts.reverse())
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            attrs = sorted({q.attr for q in nodes if isinstance(q, ast.Attribute) and ast.unparse(q.value) == ast.unparse(n.value)})
            if len(attrs) > 1 and ast.unparse(n.value) in ('self._owner', 'self', 'model', 'self.parser'):
                import difflib
                best = max((q for q in attrs if q != n.attr), key=lambda q: difflib.SequenceMatcher(None, q, n.attr).ratio())
                add('attr', lambda t, x, p, o=best: setattr(x, 'attr', o))
    return out


if os.environ.get('MUT_KIND') == '2':
    mutants = mutants2


def apply(src, i, fn):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    parents = {}
    for n in nodes:
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    fn(tree, nodes[i], parents.get(nodes[i]))
    return ast.unparse(ast.fix_missing_locations(tree))


def campaign(n, seed, only):
    cov = json.load(open(M + '/cover.json'))
    rnd = random.Random(seed)
    files = [os.path.relpath(f, SRC) for f in sorted(glob.glob(SRC + '/scaks/**/*.py', recursive=True) + glob.glob(SRC + '/scripts/**/*.py', recursive=True))]
    files = [f for f in files if not any(s in f for s in SKIP) and (not only or any(o in f for o in only))]
    pool = []
    for f in files:
        src = open(SRC + '/' + f).read()
        try:
            ms = mutants(src)
        except SyntaxError:
            continue
        pool += [(f,) + m for m in ms]
    print(len(pool), 'possible mutants in', len(files), 'files', flush=True)
    done = set()
    if os.path.exists(M + '/results.jsonl'):
        for l in open(M + '/results.jsonl'):
            d = json.loads(l)
            if not ('database' in d['file'] and d['verdict'] == 'uncovered'):
              done.add((d['file'], d['line'], d['desc'], d['i']))
    pool = [p for p in pool if (p[0], p[1], p[2], p[3]) not in done]
    rnd.shuffle(pool)
    pool = pool[:n]
    lock = Lock()
    free = list(range(W))
    dirs = {i: copies(i) for i in free}
    t0 = time.time()

    def one(m):
        f, line, desc, i, fn = m
        with lock:
            w = free.pop()
        r, v = dirs[w]
        src = open(SRC + '/' + f).read()
        res = dict(file=f, line=line, desc=desc, i=i, text=src.splitlines()[line - 1].strip())
        try:
            new = apply(src, i, fn)
            base = ast.unparse(ast.parse(src))
            diff = [l for l in __import__('difflib').unified_diff(base.splitlines(), new.splitlines(), n=0, lineterm='')][2:]
            res['diff'] = diff[:8]
            if new == base:
                res['verdict'] = 'same'
                return res
            open(r + '/' + f, 'w').write(new)
            cs = [c for c in cov if line in cov[c]['lines'].get(f, [])]
            # specific and quick checks first
            size = {c: len(cov[c]['lines'].get(f, [])) for c in cs}
            cs.sort(key=lambda c: (-size[c]/sum(map(len, cov[c]['lines'].values())), cov[c]['time']))
            res['checks'] = cs
            if not cs and 'database' in f:
                cs = res['checks'] = ['C18', 'C19', 'C09', 'C01', 'C02', 'C22']
            if not cs:
                res['verdict'] = 'uncovered'
                return res
            for c in cs[:8]:
                code, out, dt = run(v, r, c, max(1, 8//W))
                if code == 1 and 'VIOLATION' in out:
                    res['verdict'] = 'killed'
                    res['by'] = c
                    return res
                if code not in (0, 1):
                    res['verdict'] = 'error %s' % code
                    res['by'] = c
                    res['out'] = out[-300:]
                    return res
            res['verdict'] = 'survived'
            return res
        except Exception as e:
            res['verdict'] = 'tool %r' % e
            return res
        finally:
            shutil.copy(SRC + '/' + f, r + '/' + f)
            with lock:
                free.append(w)
                open(M + '/results.jsonl', 'a').write(json.dumps(res) + '\n')
                print(round(time.time() - t0), res.get('verdict'), res.get('by', ''), f, line, desc, flush=True)
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(one, pool))


if __name__ == '__main__':
    if sys.argv[1] == 'cover':
        cover()
    else:
        campaign(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:])
