"""Plants bugs in scratch copies of /repo.

  plant.py make SPEC.py     builds seeded/<id>/ from the bug descriptions in SPEC.py (list BUGS of
                            dicts id, prop, edits [(file, old, new)], needs, breaks, demo), after
                            checking that the build and the stable tests pass with the bug, and that
                            the demo passes without it and fails with it
  plant.py catch [--tier T] [--all] [ID ...]
                            runs the check of the bug's property (--all: every check) against a copy
                            with the bug applied
Nothing is changed in /repo.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='2',
           CUDA_VISIBLE_DEVICES='', MPLBACKEND='Agg')
ENV.pop('PYTHONPATH', None)
DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg
unset PYTHONPATH
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())   # run from the repository
import torch
import ocnn
assert os.path.realpath(ocnn.__file__).startswith(os.path.realpath(os.getcwd()))
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def copy():
    tmp = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    sh(['cp', '-a', '/repo', tmp + '/repo'])
    return tmp, tmp + '/repo'


def drop(tmp):
    assert tmp.startswith('/tmp/plant.')
    shutil.rmtree(tmp)


def tests(repo):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    xml = os.path.join(os.path.dirname(repo), 'junit.xml')
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o',
        'junit_family=xunit2', '--continue-on-collection-errors', '--junitxml=' + xml, 'test'], cwd=repo)
    ok = set()
    for t in ET.parse(xml).getroot().iter('testcase'):
        if not [c for c in t if c.tag in ('failure', 'error', 'skipped')]:
            ok.add('%s::%s' % (t.get('classname'), t.get('name')))
    return stable - ok


def imports(repo):
    code = ('import sys, os, glob, importlib, pkgutil\n'
            'sys.path.insert(0, os.getcwd()); sys.path.insert(0, os.getcwd() + "/projects")\n'
            'for f in glob.glob("projects/**/*.py", recursive=True): compile(open(f).read(), f, "exec")\n'
            'import ocnn\n'
            'for m in pkgutil.walk_packages(ocnn.__path__, "ocnn."): importlib.import_module(m.name)\n'
            'for f in sorted(os.listdir("projects")):\n'
            '  if f.endswith(".py"): importlib.import_module(f[:-3])\n')
    return sh([PY, '-c', code], cwd=repo)


def make(bug):
    d = os.path.join(SEED, bug['id'])
    tmp, repo = copy()
    try:
        work = os.path.join(tmp, 'demo')
        os.makedirs(work)
        open(work + '/demo.py', 'w').write(HEAD + bug['demo'].lstrip('\n'))
        open(work + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(work + '/demo.sh', 0o755)
        clean = sh(['bash', work + '/demo.sh'], cwd=repo, timeout=300)
        if clean.returncode:
            return 'demo fails without the bug: ' + clean.stdout[-1500:]
        for f, old, new in bug['edits']:
            s = open(os.path.join(repo, f)).read()
            if s.count(old) != 1:
                return '%d matches in %s of %r' % (s.count(old), f, old)
            open(os.path.join(repo, f), 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], cwd=repo).stdout
        r = imports(repo)
        if r.returncode:
            return 'does not import: ' + r.stdout[-800:]
        bad = tests(repo)
        if bad:
            return 'stable tests fail: %s' % sorted(bad)
        r = sh(['bash', work + '/demo.sh'], cwd=repo, timeout=300)
        if r.returncode == 0:
            return 'demo does not notice the bug: ' + r.stdout[-500:]
        last = r.stdout.strip().split('\n')[-1]
        os.makedirs(d, exist_ok=True)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(work + '/' + f, d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=bug['prop'], needs=bug['needs'], what_it_breaks=bug['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        return 'ok   (%s)' % last[:100]
    finally:
        drop(tmp)


def catch(bid, tier, every):
    meta = json.load(open(os.path.join(SEED, bid, 'meta.json')))
    tmp, repo = copy()
    res = {}
    try:
        r = sh(['git', 'apply', os.path.join(SEED, bid, 'patch.diff')], cwd=repo)
        if r.returncode:
            return bid, {'apply': r.stdout}
        props = [meta['property']]
        if every:
            props = [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
        for p in props:
            env = dict(os.environ, OCNN_REPO=repo, OCNN_OUT=tmp)
            r = sh([os.path.join(HERE, 'check.sh'), p, tier], env=env, timeout=3000)
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            res[p] = ('CAUGHT ' + v[0][:150]) if r.returncode == 1 and v else \
                'quiet' if r.returncode == 0 else 'rc %d %s' % (r.returncode, r.stdout[-300:])
        return bid, res
    finally:
        drop(tmp)


def main():
    a = sys.argv[2:]
    if sys.argv[1] == 'make':
        g = {}
        exec(open(a[0]).read(), g)
        bugs = [b for b in g['BUGS'] if len(a) < 2 or b['id'] in a[1:]]
        with cf.ThreadPoolExecutor(4) as ex:
            for b, r in zip(bugs, ex.map(make, bugs)):
                print('%-28s %s' % (b['id'], r), flush=True)
    else:
        tier = 'thorough' if '--thorough' in a else 'quick'
        ids = [x for x in a if not x.startswith('-')] or sorted(os.listdir(SEED))
        with cf.ThreadPoolExecutor(2) as ex:
            for b, r in ex.map(lambda i: catch(i, tier, '--all' in a), ids):
                for p, x in r.items():
                    if '--all' not in a or x != 'quiet':
                        print('%-28s %s %s' % (b, p, x), flush=True)


if __name__ == '__main__':
    main()
