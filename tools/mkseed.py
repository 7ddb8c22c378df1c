#!/usr/bin/env python3
"""mkseed.py FILE...: plants the bugs described in FILE (python: BUGS list) in a scratch copy of /repo, confirms each
(original lines, builds, stable tests pass, demo passes without and fails with it), keeps it in seeded/<id> and runs
the check of its property (and those in `also`) against the copy.  ONLY="ID.." selects, CHECK=0 skips the checks."""
import json
import os
import re
import shutil
import subprocess
import sys
import textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = '32701ab'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def original(repo, diff_paths):
    """the lines changed belong to the base commit"""
    for p in diff_paths:
        d = sh('git diff -U0 -- %s' % p, repo).stdout
        blame = {}
        for ln in sh('git blame -s HEAD -- %s' % p, repo).stdout.split('\n'):
            m = re.match(r'\^?([0-9a-f]+)(?:\s+\S+)?\s+(\d+)\)', ln)
            if m:
                blame[int(m.group(2))] = m.group(1)
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            for k in range(a, a + n):
                if not blame.get(k, '').startswith(BASE[:6]):
                    return '%s:%d is not an original line (%s)' % (p, k, blame.get(k))
            if n == 0:
                return None if blame.get(a, '').startswith(BASE[:6]) else 'only adds'
    return None


def one(b):
    i = b['id']
    out = os.path.join(V, 'seeded', i)
    tmp = '/tmp/seed-' + i
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp + '/d')
    repo = tmp + '/repo'
    try:
        sh('cp -a /repo ' + repo)
        sh('git checkout -q -- .', repo)
        open(tmp + '/d/demo.py', 'w').write(textwrap.dedent(b['demo']).lstrip())
        open(tmp + '/d/demo.sh', 'w').write('#!/bin/sh\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(tmp + '/d/demo.sh', 0o755)
        env = dict(PYTHONPATH=repo + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PATH='/opt/venv/bin:' + os.environ['PATH'])
        r0 = sh('sh %s/d/demo.sh' % tmp, repo, env, timeout=300)
        if r0.returncode:
            return 'DEMO FAILS ON THE UNCHANGED TREE ' + (r0.stdout[-300:] + r0.stderr[-800:])
        for path, old, new in b['edits']:
            p = os.path.join(repo, path)
            s = open(p).read()
            if s.count(old) != 1:
                return 'EDIT DOES NOT MATCH ONCE %s %d %r' % (path, s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', repo).stdout
        bad = original(repo, {p for p, _, _ in b['edits']})
        if bad:
            return 'NOT ORIGINAL ' + bad
        if any(p.endswith('.pyx') for p, _, _ in b['edits']):
            sh('rm -f src/eventio/*.so src/eventio/*.c src/eventio/simtel/*.so src/eventio/simtel/*.c', repo)
            r = sh(PY + ' setup.py build_ext --inplace -j 4', repo, dict(SETUPTOOLS_SCM_PRETEND_VERSION='1.0.0'))
            if r.returncode:
                return 'BUILD FAILS ' + r.stdout[-300:] + r.stderr[-800:]
        r1 = sh('sh %s/d/demo.sh' % tmp, repo, env, timeout=300)
        sh(PY + ' -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 '
           '--junitxml=%s/junit.xml' % tmp, repo, env)
        sh('/usr/bin/python3 /opt/vp/results.py %s/t.json junit:%s/junit.xml' % (tmp, tmp))
        t = json.load(open(tmp + '/t.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = set(t['passed'])
        missing = [x for x in base if x not in passed]
        if missing:
            return 'TESTS FAIL %s' % missing[:3]
        if r1.returncode == 0:
            return 'DEMO PASSES WITH THE BUG'
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(tmp + '/d/' + f, out + '/' + f)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(out + '/meta.json', 'w'), indent=1)
        res = 'kept; with the bug: ' + (r1.stderr or r1.stdout).strip().split('\n')[-1][:120]
        if os.environ.get('CHECK', '1') != '0':
            for c in [b['property']] + list(b.get('also', ())):
                o = sh('%s check.py %s' % (PY, c), V, dict(VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'), 1000)
                v = [x for x in o.stdout.split('\n') if x.startswith('VIOLATION')]
                res += '\n    %s rc=%d %s %s' % (c, o.returncode, len(v), (v or o.stdout.split('\n'))[0][-150:])
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(files):
    only = set(os.environ.get('ONLY', '').split()) or None
    for f in files:
        d = {}
        exec(compile(open(f).read(), f, 'exec'), d)
        for b in d['BUGS']:
            if only is None or b['id'] in only:
                print(b['id'], one(b), flush=True)


main(sys.argv[1:])
