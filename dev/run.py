#!/usr/bin/env python3
"""dev/run.py [-j N] [-k regex] [-p C01,C02]: run checks on scratch copies of /repo with the edits of dev/edits_*.py.
kind 'bug': at least one of the expected checks must report; kind 'ok': none may."""
import sys, os, re, subprocess, shutil, glob, concurrent.futures, importlib.util, tempfile, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=6)
ap.add_argument('-k', default='')
ap.add_argument('-p', default='')
ap.add_argument('-b', action='store_true', help='also build and test the copy')
ap.add_argument('-s', type=int, default=1, help='every s-th bug only')
ap.add_argument('-v', action='store_true')
ap.add_argument('files', nargs='*')
A = ap.parse_args()
edits = []
for f in A.files or sorted(glob.glob(HERE + '/edits_*.py')):
    sp = importlib.util.spec_from_file_location('e', f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    edits += [(e[0], e[1], e[2].split() if isinstance(e[2], str) else e[2], e[3]) for e in m.EDITS]


def one(e):
    kind, name, props, subs = e
    d = tempfile.mkdtemp(prefix='mut-')
    ev = tempfile.mkdtemp(prefix='mutev-')
    try:
        for x in ('src', 'include', 'subpackages'):
            shutil.copytree(os.environ.get('BASE', '/repo') + '/' + x, d + '/' + x)
        for f, a, b in subs:
            p = os.path.join(d, f)
            s = open(p).read()
            if a not in s:
                return name, 'NOAPPLY', '%s: %r' % (f, a[:60])
            open(p, 'w').write(s.replace(a, b, 1))
        out = []
        ok = False
        broken = False
        for pr in ([x for x in A.p.split(',') if x in props] if A.p else props):
            r = subprocess.run([sys.executable, os.path.join(HERE, '..', 'check.py'), pr], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVID=ev), timeout=1500)
            hit = 'VIOLATION property=' + pr in r.stdout
            if r.returncode not in (0, 1):
                broken = True
                out.append('%s BROKEN rc=%d: %s' % (pr, r.returncode, (r.stdout + r.stderr)[-300:]))
            elif hit:
                ok = True
                out.append('%s HIT: %s' % (pr, [l for l in r.stdout.splitlines() if '[' in l][:1]))
            else:
                out.append('%s quiet' % pr)
        if kind == 'bug':
            st = 'caught' if ok else ('BROKEN' if broken else 'MISSED')
        else:
            st = 'FALSE-ALARM' if ok else ('BROKEN' if broken else 'quiet')
        return name, st, ' | '.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(ev, ignore_errors=True)


sel = [e for n, e in enumerate(edits) if re.search(A.k, e[1]) and (e[0] != 'bug' or n % A.s == 0)]
if A.p:
    ps = set(A.p.split(','))
    sel = [e for e in sel if ps & set(e[2])]
bad = 0
with concurrent.futures.ThreadPoolExecutor(A.j) as ex:
    for n, st, msg in ex.map(one, sel):
        good = st in ('caught', 'quiet')
        bad += not good
        print('%-12s %-45s %s' % (st, n, msg[:600] if A.v or not good else msg[:150]), flush=True)
print('%d edits, %d not as expected' % (len(sel), bad))
