"""C29: state shared by the whole process (statics, singletons, globals) is only used under one common mutex."""
from lib import *
from loader import AnalysisError, nodes

UNSAFE = {'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'setlocale', 'std::setlocale', 'std::strtok', 'std::localtime', 'std::gmtime', 'std::asctime', 'std::ctime',
          'rand', 'srand', 'std::rand', 'std::srand', 'drand48', 'srand48', 'std::locale::global', 'setenv', 'putenv', 'tmpnam', 'std::tmpnam'}
# programs, not part of the library
PROGRAMS = ('polynomial_timing_evaluation.cpp',)
PLOTS = ('plotting_utils.hpp',)


def check_C29(ctx):
    Lb = lib(ctx)
    P = Lb.prog
    own = [f for f in P.fns.values() if not f['file'].startswith('/') and not f['file'].endswith(PROGRAMS + PLOTS) and '/test' not in f['file']]
    statics, touching, own_thread = {}, set(), set()
    ncalls = 0
    for f in own:
        for n in nodes(f):
            k = n.get('k')
            if k == 'var' and n.get('sc') in ('slocal', 'global') and n.get('id') and not std(n.get('qn') or ''):
                if not n.get('tls'):
                    touching.add(f['id'])
                else:
                    own_thread.add(n['qn'])
            for v in n.get('v') or () if isinstance(n.get('v'), list) else ():
                if isinstance(v, dict) and v.get('tls'):
                    own_thread.add(f['name'] + '::' + v['name'])
                    continue
                if not isinstance(v, dict) or not v.get('static'):
                    continue
                if immutable(v.get('t') or '') or v.get('cst'):
                    ctx.ok('local', 'static local %s of %s is constant' % (v['name'], f['sn']))
                else:
                    statics[f['name'] + '::' + v['name']] = (f, v)
                    touching.add(f['id'])
            if k == 'call':
                ncalls += 1
                nm = n.get('name') or ''
                if nm in UNSAFE:
                    ctx.bad('library', '%s:%s' % (nm, f['sn']), '%s:%s' % (f['file'], n.get('l', f['l'])), 'calls %s, which uses hidden process-wide state' % nm)
    ctx.ok('library', '%d calls, none of a library function with hidden process-wide state' % ncalls)
    touch = {f['id']: f for f in own if f['id'] in touching}
    # functions whose result gives access to such state, and everything that may be reached only through them
    callers = {}
    for f in own:
        for n in nodes(f):
            for key in ('fn', 'callee', 'ctor', 'dtor'):
                if isinstance(n.get(key), str) and n[key] in P.fns:
                    callers.setdefault(n[key], set()).add(f['id'])
    give = {i for i, f in touch.items() if ref(f.get('ret'))}
    work = set(touch)
    todo = list(give)
    while todo:
        i = todo.pop()
        for j in callers.get(i, ()):
            if j not in work:
                work.add(j)
            if ref(P.fns[j].get('ret')) and j not in give:
                give.add(j)
                todo.append(j)
    # members of a class whose objects only exist as process-wide state
    single = set()
    for i in give:
        t = base(P.fns[i].get('ret') or '')
        if any(base(n.get('t') or '') == t for f, n in statics.values()):
            single.add(t)
    for f in own:
        if f.get('cls') in single and not f.get('static') and f.get('kind') not in ('ctor', 'dtor'):
            work.add(f['id'])
    private = {f['id'] for f in own if f.get('acc') in ('private', 'protected')}
    hidden = {i for i in work if (i in private) and callers.get(i)}
    for i in hidden:
        work |= callers[i]
    acc = []
    names = {P.fns[i]['name'] for i in work}
    for i in sorted(work, key=lambda x: P.fns[x]['name']):
        f = P.fns[i]
        if i in hidden or not f.get('body'):
            continue
        evs, ends, thrown, I = Lb.run(f, inline=lambda g: g['id'] in hidden or g['id'] in give or g['id'] in work and g['file'] == f['file'])
        for ev, tags, st in evs:
            l = ev.loc
            if ev.kind not in ('r', 'w', 'erase', 'erase_if') or l is None or l[0] != 'L':
                continue
            root = l[1]
            if root[0] == 'this' and f.get('cls') in single:
                root = ('g', 'the ' + f['cls'].split('::')[-1])
            if root[0] != 'g' or std(root[1]) or root[1] in own_thread or free(P, statics, root[1]):
                continue
            acc.append((root[1], l[2][0][1] if l[2] and l[2][0][0] == 'f' else '', ev.kind != 'r', frozenset(mutex(x[0], f, single) for x in ev.held), f, ev))
    byname = {}
    for a in acc:
        n = a[0]
        for q, (g, nd) in statics.items():
            if n == q and base(nd.get('t') or '') in single:
                n = 'the ' + base(nd.get('t')).split('::')[-1]
        byname.setdefault(n, []).append(a)
    for n, (f, nd) in statics.items():
        if n not in byname and base(nd.get('t') or '') not in single:
            ctx.ok('local', 'static local %s is not written after its initialisation' % n)
    for n, l in sorted(byname.items()):
        for fld in sorted({a[1] for a in l}):
            g = [a for a in l if a[1] == fld or not a[1] or not fld]
            wr = [a for a in g if a[2] and a[1] == fld]
            if not wr:
                ctx.ok('shared', '%s%s is only read' % (n, '.' + fld if fld else ''))
                continue
            bad = None
            for w in wr:
                for o in g:
                    if not (w[3] & o[3]):
                        bad = bad or (w, o)
            if bad:
                w, o = bad
                ctx.bad('shared', '%s%s' % (n, ':' + fld if fld else ''), w[5].where(), '%s%s is process-wide, written by %s and used by %s without a common mutex' % (n, '.' + fld if fld else '', w[4]['sn'], o[4]['sn']))
            else:
                ctx.ok('shared', '%s%s: %d accesses in %d functions under one mutex' % (n, '.' + fld if fld else '', len(g), len({a[4]['id'] for a in g})))
    ctx.require(1, 'library', 'library calls')
    ctx.assume.append('Initialisation of static locals is synchronised by the language; std streams are synchronised by the library; nlopt keeps its random state per thread.')


def free(P, statics, n):
    """state that synchronises itself"""
    t = (P.globals.get(n) or {}).get('t') if n in P.globals else None
    if n in statics:
        t = statics[n][1].get('t')
    return bool(t) and immutable(t)


def std(q):
    return q.startswith('std::') or q.startswith('Eigen::')


def ref(t):
    return bool(t) and t.rstrip().endswith(('&', '*')) and not t.startswith('const ')


def base(t):
    return t.replace('const ', '').replace('&', '').replace('*', '').replace('static ', '').strip()


def immutable(t):
    t = t.strip()
    return t.startswith('const ') and not t.rstrip().endswith('*') or t.endswith('*const') or 'std::atomic' in t or 'mutex' in t or 'once_flag' in t


def mutex(l, f, single):
    if l[1][0] == 'this' and f.get('cls') in single:
        return (('g', 'the ' + f['cls'].split('::')[-1]), l[2])
    for s in single:
        if l[1][0] == 'g' and l[2]:
            return (('g', 'the ' + s.split('::')[-1]) if l[1][0] == 'g' and 'Instance' in l[1][1] else l[1], l[2])
    return (l[1], l[2])
