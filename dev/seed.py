#!/usr/bin/env python3
"""dev/seed.py make [ids]   writes /verif/seeded/<id> from dev/seeds/defs_*.py
dev/seed.py try [ids]    applies each patch to /repo, builds, tests, runs the demo and its check, undoes it"""
import sys, os, glob, json, subprocess, shutil, tempfile, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', 'seeded')
defs = []
for f in sorted(glob.glob(HERE + '/seeds/defs_*.py')):
    sp = importlib.util.spec_from_file_location('d', f)
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    defs += m.SEEDS
ids = sys.argv[2:]
sel = [d for d in defs if not ids or d['id'] in ids]


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def make(d):
    t = tempfile.mkdtemp(prefix='seed-')
    sh('git -C /repo worktree prune; git clone -q /repo %s/r' % t)
    for f, a, b in d['subs']:
        p = '%s/r/%s' % (t, f)
        s = open(p).read()
        assert s.count(a) >= 1, (d['id'], f, a[:60])
        open(p, 'w').write(s.replace(a, b, 1))
    diff = sh('git -C %s/r diff' % t).stdout
    o = os.path.join(OUT, d['id'])
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.cpp', 'w').write(d['demo'])
    for h in d.get('with', ['planner.hpp']):
        shutil.copy(HERE + '/seeds/' + h, o)
    shutil.copy(HERE + '/seeds/' + d.get('sh', 'demo.sh'), o + '/demo.sh')
    os.chmod(o + '/demo.sh', 0o755)
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)


def demo(d):
    t = tempfile.mkdtemp(prefix='seeddemo-')
    for x in os.listdir(os.path.join(OUT, d['id'])):
        if x not in ('patch.diff', 'meta.json'):
            shutil.copy(os.path.join(OUT, d['id'], x), t)
    r = sh('timeout 300 bash %s/demo.sh' % t, cwd='/repo')
    shutil.rmtree(t)
    return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]


if sys.argv[1] == 'make':
    for d in sel:
        make(d); print('made', d['id'])
else:
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    print('build base', sh('bash /opt/vp/build.sh').returncode)
    base = {d['id']: demo(d) for d in sel}
    for d in sel:
        p = os.path.join(OUT, d['id'], 'patch.diff')
        r = sh('git -C /repo apply %s' % p)
        try:
            b = sh('bash /opt/vp/build.sh').returncode
            sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            tj = open('/tmp/seedtest.json').read()
            dm = demo(d)
            c = sh('python3 %s/../check.py %s' % (HERE, d['property']), env=dict(os.environ, VERIF_EVID='/tmp/seedev'))
            hit = ('VIOLATION property=' + d['property']) in c.stdout
        finally:
            sh('git -C /repo checkout -- .')
        print('%-26s %s apply=%d build=%d base-demo=%s demo=%s check=%s rc=%d %s' % (
            d['id'], d['property'], r.returncode, b, base[d['id']], dm, 'CAUGHT' if hit else 'MISSED', c.returncode, tj.replace('\n', ' ')[:160]), flush=True)
    print('rebuild', sh('bash /opt/vp/build.sh').returncode)
