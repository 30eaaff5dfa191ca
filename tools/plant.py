#!/usr/bin/env python3
"""Plant bugs: python3 tools/plant.py SPEC.py [ID ...] [--recheck]

SPEC.py defines BUGS, a list of dict(id, prop, edits=[(file, old, new)], needs, breaks, demo, kmc=False).
Each is confirmed (original lines, builds, stable tests pass, demonstration passes clean and fails
patched), run against its property's quick check, and kept in seeded/<id>/ when confirmed, caught or not.
"""
import json
import os
import re
import shutil
import subprocess
import sys

REPO, VERIF = '/repo', '/verif'
ORIG = 'c8eac05'
BASE = os.environ.get('PLANT_DIR', '/tmp/bugs')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, timeout=1000, cwd=REPO, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', **(env or {}))
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def clean():
    sh('git checkout -- .')


def run_demo(path):
    return sh('bash %s/demo.sh' % path, timeout=300)


def original(diff):
    """The changed or removed lines belong to the original commit."""
    bad = []
    file = None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            file = line[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            n = int(m.group(1))
        elif line.startswith('-') and not line.startswith('---'):
            out = sh('git blame -s -L %d,%d HEAD -- %s' % (n, n, file))[1]
            if not out.startswith(('^' + ORIG[:6], ORIG)):
                bad.append((file, n, line))
            n += 1
        elif line.startswith(' '):
            n += 1
    return bad


def plant(bug, recheck=False):
    d = '%s/seeded/%s' % (VERIF, bug['id'])
    clean()
    for f, old, new in bug['edits']:
        s = open(os.path.join(REPO, f)).read()
        if s.count(old) != 1:
            return 'BAD EDIT: %d matches of %r in %s' % (s.count(old), old[:60], f)
        open(os.path.join(REPO, f), 'w').write(s.replace(old, new))
    diff = sh('git diff')[1]
    bad = original(diff)
    if bad:
        clean()
        return 'NOT ORIGINAL %r' % bad
    tmp = '/tmp/plant-demo'
    shutil.rmtree(tmp, True)
    os.makedirs(tmp)
    open(tmp + '/demo.py', 'w').write(bug['demo'])
    shutil.copy(BASE + '/helper.py', tmp)
    if bug.get('kmc'):
        shutil.copytree(VERIF + '/pbt/stubs/KMCLib', tmp + '/KMCLib', ignore=shutil.ignore_patterns('__pycache__'))
    open(tmp + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                                      'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(tmp + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=bug['prop'], needs=bug['needs'], what_it_breaks=bug['breaks']),
              open(tmp + '/meta.json', 'w'), indent=1)
    clean()
    rc, out = run_demo(tmp)
    if rc:
        return 'DEMO FAILS CLEAN ' + out[-400:]
    sh('git apply %s/patch.diff' % tmp)
    rc, out = sh('bash /opt/vp/build.sh')
    if rc:
        clean()
        return 'BUILD FAILED ' + out[-300:]
    sh('bash /opt/vp/test.sh /tmp/plant-tests.json')
    lost = STABLE - set(json.load(open('/tmp/plant-tests.json'))['passed'])
    if lost:
        clean()
        return 'TESTS FAIL %s' % sorted(lost)[:3]
    rc, out = run_demo(tmp)
    if rc == 0 or rc == 124:
        clean()
        return 'DEMO DOES NOT FAIL %s %s' % (rc, out[-300:])
    failing = out.strip().splitlines()[-1:] or ['']
    props = [bug['prop']] + bug.get('also', [])
    caught = []
    for p in props:
        rc, out = sh('/opt/venv/bin/python pbt/run.py %s --tier quick' % p, cwd=VERIF,
                     env=dict(VERIF_SEED='1', VERIF_TIER='quick'), timeout=900)
        if rc == 1 and 'VIOLATION property=%s' % p in out:
            caught.append(p)
        elif rc not in (0, 1):
            caught.append('%s:rc%d' % (p, rc))
    clean()
    shutil.rmtree(d, True)
    shutil.copytree(tmp, d, ignore=shutil.ignore_patterns('__pycache__'))
    return '%s by %s (demo: %s)' % ('CAUGHT' if bug['prop'] in caught else 'MISSED', caught, failing[0][:150])


if __name__ == '__main__':
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    if sh('git status --short')[1].strip():
        sys.exit('/repo is not clean')
    try:
        for bug in spec['BUGS']:
            if not ids or bug['id'] in ids:
                print(bug['id'], bug['prop'], plant(bug), flush=True)
    finally:
        clean()
        sh('bash /opt/vp/build.sh')
