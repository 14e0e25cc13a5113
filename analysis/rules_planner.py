"""C01-C08: concurrency, protocol and life cycle of the planner."""
from planner import *
from loader import AnalysisError

_P = {}


def planner(ctx):
    if 'p' not in _P:
        _P['p'] = Planner(ctx)
        _P['p'].roles
    return _P['p']


E_NAMES = ('evaluateTrajectory', 'getMaxTime', 'getMinTime', 'getDynamicWaypoints')


def fut_ready(t, v, fut):
    """branch fact saying that the future is ready"""
    while t[0] == 'not':
        t, v = t[1], not v
    if t[0] == 'op' and t[1] == '==' and v:
        a, b = t[2], t[3]
        if isc(b):
            a, b = b, a
        if isc(a) and a[1] == 0 and b[0] == 'futstatus':
            return True
    if t[0] == 'fn' and t[1] == 'future.valid' and not v:
        return False
    return False


def phase_tagger(R):
    """tags: idle = this thread knows that no computation is in progress and only it can start one;
    done = the computation is known to have finished and has not been released yet"""
    def tag(ev, st):
        k = ev.kind
        tags = st.tags
        if k == 'branch':
            l, v = flag_test(ev.val, ev.extra)
            if l == R['computing']:
                n = (tags - {'idle'}) if v else (tags | {'idle'})
                n = (n | {'busy'}) if v else (n - {'busy'})
                return n
            if fut_ready(ev.val, ev.extra, R['future']):
                return tags | {'done'}
        elif k in ('fut_wait', 'fut_get') and ev.loc == R['future']:
            return tags | {'done'}
        elif k in ('astore', 'aexch') and ev.loc == R['computing']:
            if maybe_false(ev.val):
                return tags - {'done', 'busy'}
        elif k == 'launch' and ev.name == 'async':
            return tags - {'idle'}
        return None
    return tag


def roots(P):
    """(label, thread class, function) of everything that can run on the planner's state"""
    R = P.roles
    out = []
    for f in P.public():
        if f['id'] == R['worker']['id'] or f['id'] == R['task']['id']:
            continue
        if f['sn'] == 'generateTrajectory':
            continue       # launched by the worker only; not a control call
        cls = 'E' if f['sn'] in E_NAMES else 'C'
        out.append((f['sn'], cls, f))
    out.append(('worker', 'T', R['worker']))
    out.append(('computation', 'A', R['task']))
    return out


def run_root(P, lab, f, tagger):
    return P.run(f, tagger=tagger)


# ------------------------------------------------------------------ protocol validity
def protocol(P, runs, ctx, report):
    """the hand-over protocol the phases rest on; returns True if it holds"""
    R = P.roles
    okp = True
    for lab, c, f, evs in runs:
        for ev, tags, st in evs:
            if ev.kind in ('astore', 'aexch') and ev.loc == R['computing']:
                if maybe_true(ev.val):
                    ctx.ok('handover', '%s marks a computation in progress at %s' % (lab, ev.where()))
                    if c != 'T' or 'idle' not in tags:
                        okp = False
                        report('handover', 'set-computing:' + ev.fn.split('::')[-1], ev.where(),
                               'a computation is marked in progress %s' % ('without having tested that none is in progress' if c == 'T' else 'by a thread other than the worker'))
                if maybe_false(ev.val):
                    ctx.ok('handover', '%s marks the computation finished at %s' % (lab, ev.where()))
                    # tags are taken after the event: look at what was known before it
        for ev, tags, st in evs:
            if ev.kind == 'launch' and ev.name == 'async':
                ctx.ok('handover', 'launch at ' + ev.where())
    return okp


# ------------------------------------------------------------------ C01
def access_path(P, loc):
    """normalised path of an access to planner state, or None for private memory"""
    r = loc[1]
    fl = []
    for s in loc[2]:
        if s[0] == 'f':
            fl.append(s[1])
    if r == ('this',):
        return tuple(fl)
    if r[0] == '*':
        # pointee of a pointer held by the planner
        t = r[1]
        if t[0] == 'init' and t[1][1] == ('this',):
            return tuple(x[1] for x in t[1][2] if x[0] == 'f') + ('->',) + tuple(fl)
        return None
    return None


def ordered(a, b):
    """accesses ordered by the hand-over protocol"""
    ca, ta = a
    cb, tb = b
    if ca > cb:
        ca, ta, cb, tb = cb, tb, ca, ta
    # classes sorted: A < C < E < T
    if ca == 'A' and cb == 'E':
        return 'done' in tb
    if ca == 'A' and cb == 'T':
        return 'idle' in tb
    if ca == 'E' and cb == 'T':
        return 'done' in ta and 'idle' in tb
    return False


def concurrent(ca, cb):
    if ca == cb:
        return ca == 'C'
    return True


def tags_before(evs):
    return evs


def all_runs(P, tagger):
    out = []
    for lab, c, f in roots(P):
        evs, ends, thrown, I = P.run(f, tagger=tagger)
        out.append((lab, c, f, evs))
    return out


def is_sync_type(t):
    return any(t.startswith(x) or t.startswith('const ' + x) for x in ('std::mutex', 'std::atomic', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex', 'std::condition_variable', 'std::once_flag'))


def check_C01(ctx):
    P = planner(ctx)
    R = P.roles
    acc = {}
    runs = []
    base = phase_tagger(R)
    for lab, c, f in roots(P):
        evs, ends, thrown, I = P.run(f, tagger=base, kinds=None)
        runs.append((lab, c, f, evs))
    valid = protocol(P, runs, ctx, ctx.bad)
    sync = set(x['name'] for x in P.rec['fields'] if is_sync_type(x['t']))
    atom = {}
    for lab, c, f, evs in runs:
        for ev, tags, st in evs:
            if ev.kind in ('r', 'w', 'erase', 'erase_if', 'fut_get', 'fut_wait', 'fut_wait_for'):
                if ev.loc is None:
                    continue
                p = access_path(P, ev.loc)
                if not p:
                    continue
                w = ev.kind not in ('r', 'fut_wait', 'fut_wait_for')
                if p[0] in sync or any(x.endswith('mutex_') and False for x in p):
                    continue
                if ev.extra == 'ctorinit':
                    continue
                ph = frozenset(t for t in tags if t in ('idle', 'done')) if valid else frozenset()
                locks = frozenset(l[0] for l in ev.held if l[0][1] == ('this',))
                k = (c, p, w, ph, locks)
                acc.setdefault(k, (lab, ev))
            elif ev.kind in ('aload', 'astore', 'aexch') and on_this(ev.loc):
                atom.setdefault(fields(ev.loc), set()).add(c)
    # mutex-typed accesses inside members (traj_.evaluate_mutex_) are not data
    accs = list(acc.items())
    paths = sorted(set(k[1] for k, _ in accs))
    for p in paths:
        ctx.ok('guarded', '.'.join(p))
    for p in sorted(atom):
        ctx.ok('atomic', '.'.join(p))
    npairs = 0
    for i in range(len(accs)):
        (c1, p1, w1, ph1, l1), (lab1, e1) = accs[i]
        for j in range(i, len(accs)):
            (c2, p2, w2, ph2, l2), (lab2, e2) = accs[j]
            if not (w1 or w2):
                continue
            n = min(len(p1), len(p2))
            if p1[:n] != p2[:n]:
                continue
            if not concurrent(c1, c2):
                continue
            npairs += 1
            if l1 & l2:
                continue
            if ordered((c1, ph1), (c2, ph2)):
                continue
            a, b = ((lab1, e1, w1), (lab2, e2, w2)) if w1 else ((lab2, e2, w2), (lab1, e1, w1))
            p = p1 if len(p1) <= len(p2) else p2
            ctx.bad('race', '%s:%s/%s' % ('.'.join(p), a[1].fn.split('::')[-1], b[1].fn.split('::')[-1]), a[1].where(),
                    '%s is written on the %s side at %s and %s on the %s side at %s with no common mutex and no hand-over between them' %
                    ('.'.join(p), a[0], a[1].where(), 'written' if b[2] else 'read', b[0], b[1].where()),
                    ['access 1: ' + ' > '.join(a[1].chain) + ' holding {' + ', '.join(show_loc(x[0]) for x in a[1].held) + '}',
                     'access 2: ' + ' > '.join(b[1].chain) + ' holding {' + ', '.join(show_loc(x[0]) for x in b[1].held) + '}'])
    ctx.counts['conflicting_access_pairs'] = npairs
    # nothing shared escapes by reference
    written = set(p[0] for (c, p, w, ph, l) in acc if w)
    for lab, c, f, evs in runs:
        if c not in 'CE':
            continue
        ri = f.get('ri', {})
        if ri.get('ref') or ri.get('ptr'):
            for ev, tags, st in evs:
                if ev.kind == 'return':
                    l = ev.loc
                    if l is None and ev.val and ev.val[0] in ('addr', 'iter'):
                        l = ev.val[1]
                    if on_this(l) and l[2] and l[2][0][1] in written:
                        ctx.bad('escape', f['sn'], ev.where(), 'public call %s hands out a reference into shared member %s' % (f['sn'], show_loc(l)))
        ctx.ok('escape', f['sn'])
    ts_class(P, ctx)
    ctx.require(8, 'guarded', 'shared members of the planner')
    ctx.require(3, 'handover', 'computing flag protocol')
    ctx.assume += ['evaluating calls (evaluateTrajectory, getMaxTime, getMinTime, getDynamicWaypoints) come from one thread at a time',
                   'opaque library calls access only their arguments and the object they are called on']


def ts_class(P, ctx):
    """the class that wraps the trajectory: every access to the shared pointer under one of its mutexes"""
    cls = P.field_of(P.roles['traj'])['bt'] or P.field_of(P.roles['traj'])['t']
    rec = P.prog.record(cls)
    muts = [f['name'] for f in rec['fields'] if 'mutex' in f['t']]
    data = [f['name'] for f in rec['fields'] if not is_sync_type(f['t'])]
    acc = []
    for m in rec['methods']:
        f = P.prog.fns.get(m['id'])
        if f is None or f.get('body') is None or m.get('acc') != 'public' or f['kind'] == 'dtor':
            continue
        evs, ends, thrown, I = P.run(f)
        for ev, tags, st in evs:
            if ev.kind not in ('r', 'w') or ev.loc is None or ev.extra == 'ctorinit':
                continue
            r = ev.loc[1]
            own = r == ('this',)
            if own and f['kind'] == 'ctor':
                continue      # not shared yet
            if not own and not (r[0] == 'p' and ev.loc[2] and ev.loc[2][0][1] in data):
                continue
            if not ev.loc[2] or ev.loc[2][0][1] not in data:
                continue
            # a moved-from argument is not shared by contract of rvalue references
            if not own and any(p.get('rv') for p in f['params'] if p['name'] == r[1]):
                continue
            locks = frozenset(l[0][2][0][1] for l in ev.held if l[0][1] == r and l[0][2])
            acc.append((ev.loc[2][0][1], ev.kind == 'w', locks, f, ev))
            ctx.ok('wrapper', '%s %s in %s' % ('write' if ev.kind == 'w' else 'read', ev.loc[2][0][1], f['sn']))
    for i, a in enumerate(acc):
        for b in acc[i:]:
            if a[0] == b[0] and (a[1] or b[1]) and not (a[2] & b[2]):
                x, y = (a, b) if a[1] else (b, a)
                ctx.bad('wrapper-race', '%s:%s/%s' % (x[0], x[3]['sn'], y[3]['sn']), y[4].where(),
                        '%s is written by %s (%s) and accessed by %s (%s) without a common mutex' % (x[0], x[3]['sn'], x[4].where(), y[3]['sn'], y[4].where()))


# ------------------------------------------------------------------ C02
GROW = ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'resize', 'reserve', 'emplace', 'assign', 'append', 'substr')
HEAVY = ('std::vector<', 'std::deque<', 'std::list<', 'std::map<', 'std::unordered_map<', 'std::function<', 'std::basic_string<', 'std::__cxx11::basic_string<', 'std::string')


class Throws:
    """which expressions may leave by exception"""
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def fn(self, f):
        k = f['id']
        if k not in self.memo:
            self.memo[k] = False
            if f.get('ne'):
                return False
            self.memo[k] = self.tree(f['body'])
        return self.memo[k]

    def tree(self, b):
        work = [b]
        while work:
            y = work.pop()
            if isinstance(y, list):
                work += y
                continue
            if not isinstance(y, dict):
                continue
            k = y.get('k')
            if k == 'throw':
                return True
            if k == 'try' and any(h.get('v') is None for h in y['h']):
                work += y['h']
                continue
            if k == 'lambda':
                continue
            if k in ('call', 'ctor') and self.direct(y):
                return True
            work += [v for v in y.values() if isinstance(v, (dict, list))]
        return False

    def direct(self, e):
        """reason why this call itself may throw, or None"""
        if e.get('ne') or e.get('noret'):
            return None
        sn = e.get('sn', '')
        cls = e.get('cls', '') or ''
        name = e.get('name', '') or cls
        f = self.P.prog.fns.get(e.get('fn'))
        if e['k'] == 'ctor':
            if e.get('elid') or e.get('move'):
                return None
            if e.get('copy'):
                if cls.startswith(HEAVY) or cls in self.P.data:
                    return 'copy of ' + cls
                return None
            if cls == 'std::thread':
                return 'std::thread'
            if f is not None and f.get('body') is not None:
                return cls if self.fn(f) else None
            return None
        if cls.startswith(('std::future', 'std::shared_future')):
            return 'std::future::get' if sn == 'get' else None
        if cls.startswith('std::'):
            if cls.startswith(HEAVY) and (sn in GROW or sn == 'at'):
                return '%s of %s' % (sn, cls.split('<')[0])
            if cls.startswith(HEAVY) and e.get('op') == '=':
                return 'copy of ' + cls.split('<')[0]
            return None
        if name.startswith('std::'):
            return name if sn in ('async', 'make_shared', 'make_unique', 'stoi', 'stod') else None
        if f is not None and f.get('body') is not None:
            return f['name'] if self.fn(f) else None
        return None


def waits_on(P):
    """mutexes the awaited threads acquire"""


def check_C02(ctx):
    P = planner(ctx)
    R = P.roles
    TH = Throws(P)
    base = phase_tagger(R)

    def throwing(e, st):
        if not any(o is None for _, o in st.locks):
            return None
        return TH.direct(e)
    jobs = [(lab, c, f) for lab, c, f in roots(P)]
    for c in P.ctor():
        jobs.append(('constructor', 'D', c))
    if P.dtor():
        jobs.append(('destructor', 'D', P.dtor()))
    tsc = P.field_of(R['traj'])['bt'] or P.field_of(R['traj'])['t']
    for m in P.prog.record(tsc)['methods']:
        f = P.prog.fns.get(m['id'])
        if f is not None and f.get('body') is not None and m.get('acc') == 'public' and f['kind'] != 'dtor' and not f.get('defaulted'):
            jobs.append((f['name'].split('::')[-2] + '::' + f['sn'], 'W', f))
    edges = []
    takes = {}
    waits = []
    KINDS = ('lock', 'unlock', 'unlock_unheld', 'endthrow', 'end', 'throw', 'branch', 'fut_wait', 'fut_get', 'fut_wait_for', 'join', 'launch',
             'astore', 'aexch', 'loop', 'iterend', 'call', 'time', 'enter')
    shared = lambda m: m[1][0] not in ('v', 't')
    for lab, c, f in jobs:
        entry = {}
        sleeps = {}
        pub_lock = f['sn'] in ('lock', 'unlock', 'try_lock')       # BasicLockable interface of the wrapper
        evs, ends, thrown, I = P.run(f, tagger=base, throwing=throwing, kinds=KINDS)
        ctx.ok('released', '%s %s' % (lab, f['name']))
        for ev, tags, st in evs:
            held = [l[0] for l in ev.held]
            if ev.kind == 'lock':
                ctx.ok('lock-site', ev.where())
                takes.setdefault(c, set()).add(ev.loc)
                if ev.loc in held and ev.extra != 'try' and 'recursive' not in ev.fn:
                    if not recursive(P, ev.loc):
                        ctx.bad('relock', '%s:%s' % (show_loc(ev.loc), ev.fn.split('::')[-1]), ev.where(),
                                '%s is locked again by the thread that holds it (in %s)' % (show_loc(ev.loc), ' > '.join(ev.chain)))
                if ev.extra is None:
                    for h in held:
                        if h != ev.loc and shared(h) and shared(ev.loc):
                            edges.append((h, ev.loc, c, lab, frozenset(x for x in held if x != h), ev, frozenset(tags)))
            elif ev.kind == 'unlock_unheld' and not pub_lock:
                ctx.bad('unlock', '%s:%s' % (show_loc(ev.loc), ev.fn.split('::')[-1]), ev.where(),
                        '%s is unlocked on a path that does not hold it' % show_loc(ev.loc))
            elif ev.kind in ('fut_wait', 'fut_get', 'join') or (ev.kind == 'fut_wait_for' and ev.args and not zero_dur(ev.args[0])):
                waits.append((ev, c, lab, 'done' in ev.pre and ev.kind != 'join'))
                ctx.ok('wait-site', ev.where())
            elif ev.kind == 'loop':
                entry[ev.extra] = frozenset(l[0] for l in ev.held)
            elif ev.kind == 'time' and not ev.name.endswith('now'):
                for l in ev.loops:
                    sleeps[l] = ev
            elif ev.kind == 'iterend' and ev.extra in entry and ev.val is None:
                now = frozenset(l[0] for l in ev.held)
                for m in now - entry[ev.extra]:
                    ctx.bad('leak', '%s:%s' % (show_loc(m), f['sn']), ev.where(), '%s is still held when the next iteration of the loop starts' % show_loc(m))
                if now and ev.extra in sleeps:
                    waits.append((sleeps[ev.extra], c, lab, False, now))
        if not pub_lock:
            for st in ends + thrown:
                for m, o in st.locks:
                    if m[1][0] in ('v', 't'):
                        continue
                    src = [ev for ev, _, _ in evs if ev.kind == 'lock' and ev.loc == m]
                    thr = [ev for ev, _, s in evs if ev.kind == 'throw' and any(x[0] == m for x in ev.held)]
                    w = src[-1].where() if src else f['name']
                    ctx.bad('leak', '%s:%s' % (show_loc(m), (src[-1].fn if src else f['name']).split('::')[-1]), w,
                            '%s locked at %s is still held when %s %s' % (show_loc(m), w, lab,
                            ('leaves by an exception (%s at %s)' % (thr[0].name, thr[0].where()) if thr else 'leaves by an exception') if st.exc else 'returns'))
    # waiting while holding what the awaited thread needs
    for ev, c, lab, done, *now in waits:
        if done:
            continue
        held = now[0] if now else set(l[0] for l in ev.held)
        if ev.kind == 'join':
            need = takes.get('T', set())
            who = 'the worker thread'
        elif ev.kind == 'time':
            need = takes.get('T', set()) if c != 'T' else takes.get('E', set()) | takes.get('C', set())
            who = 'another thread'
        else:
            need = takes.get('A', set())
            who = 'the computation'
        for m in held & need:
            ctx.bad('wait', '%s:%s' % (show_loc(m), ev.fn.split('::')[-1]), ev.where(),
                    '%s waits for %s while holding %s, which %s acquires' % (lab, who, show_loc(m), who))
    # lock order
    adj = {}
    for e in edges:
        adj.setdefault(e[0], {}).setdefault(e[1], []).append(e)
        ctx.ok('order', '%s before %s' % (show_loc(e[0]), show_loc(e[1])))

    def conflict(path):
        for i in range(len(path)):
            for j in range(i + 1, len(path)):
                a, b = path[i], path[j]
                if not conc2(a[2], b[2]):
                    return False
                if a[4] & b[4]:
                    return False
                if ordered((a[2], a[6]), (b[2], b[6])):
                    return False
        return True

    def search(start, node, path):
        for nxt, es in adj.get(node, {}).items():
            uniq = {}
            for e in es:
                uniq.setdefault((e[2], e[4], e[6]), e)
            for e in uniq.values():
                p = path + [e]
                if nxt == start:
                    if len(p) > 1 and conflict(p):
                        key = '/'.join(sorted(show_loc(x[0]) for x in p))
                        ctx.bad('lock-order', key, p[-1][5].where(), 'lock-order cycle: ' + '; '.join(
                            '%s takes %s while holding %s at %s' % (x[3], show_loc(x[1]), show_loc(x[0]), x[5].where()) for x in p))
                elif len(p) < 3 and nxt not in [x[0] for x in p]:
                    search(start, nxt, p)
    for m in list(adj):
        search(m, m, [])
    ctx.require(10, 'lock-site', 'lock operations')
    ctx.require(2, 'wait-site', 'waits for the computation and the worker')
    ctx.assume += ['standard streams and clocks do not throw; allocation and element access may',
                   'evaluating calls come from one thread at a time']


def conc2(a, b):
    if 'D' in (a, b):
        return a in 'TA' or b in 'TA'
    if a == 'W' or b == 'W':
        return True
    return concurrent(a, b)


def recursive(P, m):
    if not on_this(m):
        return False
    for f in P.rec['fields']:
        if f['name'] == m[2][0][1] and len(m[2]) == 1:
            return 'recursive' in f['t']
    return False


def zero_dur(t):
    return isc(t) and t[1] == 0 or not isc(t) and not contains(t, lambda y: isc(y) and y[1] != 0)
