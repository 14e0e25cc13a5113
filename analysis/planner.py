"""Model of the planner: which member plays which role, which code runs on which thread.

Roles are found through the public interface (what setWaypoints fills, what getSpeed returns ...),
never through the names of private members."""
import loader
from loader import AnalysisError
from engine import Interp, State
from terms import *

THIS = L(('this',))
CONC = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex', 'std::shared_timed_mutex', 'std::atomic',
        'std::thread', 'std::future', 'std::condition_variable')


def on_this(loc):
    return loc is not None and loc[0] == 'L' and loc[1] == ('this',)


def fields(loc):
    """field path of a location, elements dropped"""
    return tuple(s[1] for s in loc[2] if s[0] == 'f')


def flag_test(t, val):
    """branch fact as (atomic location, truth value) if it tests an atomic flag"""
    while True:
        if t[0] == 'not':
            t, val = t[1], not val
            continue
        if t[0] == 'op' and t[1] == '==':
            a, b = t[2], t[3]
            if isc(b) and b[1] in (0, 1):
                a, b = b, a
            if isc(a) and a[1] in (0, 1):
                t = b
                if a[1] == 0:
                    val = not val
                continue
        break
    if t[0] == 'aread':
        return t[1], val
    return None, None


def maybe_true(v):
    return not (isc(v) and not v[1])


def maybe_false(v):
    return not (isc(v) and v[1])


class Planner:
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = loader.load(loader.PLAN_UNITS)
        ctx.use(prog=self.prog)
        cls = [r for r in self.prog.records.values() if r['sn'] == 'DynamicTrajectory' and
               any(m['sn'] == 'setWaypoints' for m in r['methods'])]
        if len(cls) != 1:
            raise AnalysisError('anchor vanished: class DynamicTrajectory')
        self.rec = cls[0]
        self.cls = self.rec['name']
        # plain data classes (no synchronisation inside): the waypoint class and what it is made of
        wp = self.method('appendWaypoint')['params'][0]
        self.wpcls = wp['bt'] if wp.get('bt') in self.prog.records else None
        if self.wpcls is None:
            raise AnalysisError('anchor vanished: parameter of appendWaypoint')
        self.data = {self.wpcls}
        work = [self.wpcls]
        while work:
            r = self.prog.records.get(work.pop())
            if r is None:
                continue
            for f in r['fields']:
                for n in self.prog.records:
                    if n in f['t'] and n not in self.data and self.prog.records[n].get('file', '').find('subpackages') < 0 and '::' not in n[len(n):]:
                        self.data.add(n)
                        work.append(n)
            for b in r['bases']:
                bn = b if isinstance(b, str) else b.get('t', b.get('name', ''))
                if bn in self.prog.records and bn not in self.data:
                    self.data.add(bn)
        self.runs = {}
        self.effects = {}
        self.interps = []
        self._roles = None

    # -------------------------------------------------------------- functions
    def method(self, sn, n=None):
        return self.prog.method(self.cls, sn, n)

    @staticmethod
    def cut(loc):
        """member path of a location of this, up to the first element"""
        out = []
        for s in loc[2]:
            if s[0] != 'f':
                break
            out.append(s)
        return tuple(out)

    def mutates(self, fn):
        """does a non-const method change its object?"""
        k = fn['id']
        if k not in self.effects:
            self.effects[k] = frozenset([()])       # recursion
            hit = []

            def obs(ev, st):
                if ev.kind in ('w', 'erase', 'erase_if', 'astore', 'aexch', 'lock') and on_this(ev.loc):
                    hit.append(ev)
            I = Interp(self.prog, inline=self.full_inline, observer=obs, cap=16, kinds=('w', 'erase', 'erase_if', 'astore', 'aexch', 'lock'))
            try:
                I.run(fn)
            except AnalysisError:
                hit.append(None)
            self.effects[k] = frozenset(self.cut(ev.loc) if ev is not None else () for ev in hit)
        return self.effects[k]

    def is_project(self, fn):
        return not fn['file'].startswith('subpackages') and not fn['file'].startswith('/')

    def conc_inline(self, fn):
        """inline everything of the planner except the plain data classes"""
        return self.is_project(fn) and fn.get('cls') not in self.data

    def full_inline(self, fn):
        return self.is_project(fn)

    def public(self):
        out = []
        for m in self.rec['methods']:
            if m.get('acc') != 'public' or m.get('implicit') or m.get('deleted'):
                continue
            f = self.prog.fns.get(m['id'])
            if f is None or f.get('body') is None or f['kind'] in ('ctor', 'dtor') or m.get('ctor') or m.get('dtor'):
                continue
            if m['sn'].startswith('operator'):
                continue
            out.append(f)
        return out

    def ctor(self):
        c = [f for f in self.prog.methods(self.cls) if f['kind'] == 'ctor' and f.get('body') is not None]
        if not c:
            raise AnalysisError('anchor vanished: constructor of the planner')
        return c

    def dtor(self):
        c = [f for f in self.prog.methods(self.cls) if f['kind'] == 'dtor' and f.get('body') is not None]
        return c[0] if c else None

    def run(self, fn, tagger=None, inline=None, args=None, kinds=None, key=None, cap=None, throwing=None, init=None, project=None, probe=None, precise=False):
        evs = []

        def obs(ev, st):
            if probe is not None:
                ev.p = probe(I, ev, st)
            evs.append((ev, st.tags, st))
        I = Interp(self.prog, inline=inline or self.conc_inline, observer=obs, tagger=tagger, kinds=kinds,
                   cap=cap or (48 if self.ctx.thorough else 24), throwing=throwing, project=project, mutates=self.mutates,
                   server=(self._roles or {}).get('worker') is fn)
        self.interps.append(I)
        self.cur = I
        I.precise = precise
        ends, thrown = I.run(fn, args=args, init=init)
        self.ctx.use(I)
        return evs, ends, thrown, I

    # -------------------------------------------------------------- roles
    @property
    def roles(self):
        if self._roles is None:
            self._roles = self.find_roles()
        return self._roles

    def one(self, s, what):
        s = set(s)
        if len(s) != 1:
            raise AnalysisError('anchor vanished: %s (%d candidates: %s)' % (what, len(s), sorted(show_loc(x) for x in s)))
        return next(iter(s))

    def simple(self, name, n=None):
        k = ('simple', name)
        if k not in self.runs:
            self.runs[k] = self.run(self.method(name, n))
        return self.runs[k]

    def flag_of_getter(self, name):
        evs, ends, _, _ = self.simple(name)
        c = [ev.loc for ev, _, _ in evs if ev.kind in ('aload', 'aexch') and on_this(ev.loc)]
        return self.one(c, 'flag behind ' + name)

    def queue_of(self, name, what):
        """container member that receives the parameters of the call"""
        evs, ends, _, _ = self.simple(name)
        c = set()
        for ev, _, _ in evs:
            if ev.kind == 'w' and on_this(ev.loc) and contains(ev.val, lambda t: t[0] == 'init' and len(t) == 2 and t[1][1][0] == 'p'):
                c.add(L(('this',), ev.loc[2][:1]))
        return self.one(c, what)

    def find_roles(self):
        r = {}
        evs, ends, _, _ = self.simple('setWaypoints')
        st = [(ev.loc, ev.held) for ev, _, _ in evs if ev.kind in ('astore', 'aexch') and on_this(ev.loc) and maybe_true(ev.val)]
        if not st:   # request raised elsewhere: take it from appendWaypoint
            st = [(ev.loc, ev.held) for ev, _, _ in self.simple('appendWaypoint')[0] if ev.kind in ('astore', 'aexch') and on_this(ev.loc)]
        r['request'] = self.one([x for x, _ in st], 'request flag')
        r['setq'] = self.queue_of('setWaypoints', 'queue of set waypoints')
        r['addq'] = self.queue_of('appendWaypoint', 'queue of appended waypoints')
        r['modq'] = self.queue_of('modifyWaypoint', 'queue of modifications')
        # the mutex of the command queues: the one held by most writers of the queues
        held = {}
        for n in ('setWaypoints', 'appendWaypoint', 'modifyWaypoint'):
            for ev, _, _ in self.simple(n)[0]:
                if ev.kind == 'lock':
                    held.setdefault(ev.loc, set()).add(n)
        if not held:
            raise AnalysisError('anchor vanished: mutex of the command queues')
        r['todo'] = max(sorted(held, key=serial), key=lambda k: len(held[k]))
        r['computing'] = self.flag_of_getter('getComputingNewTrajectoryStatus')
        r['regen'] = self.flag_of_getter('getWasTrajectoryRegenerated')
        sp = set(s.ret for s in self.simple('getSpeed')[1] if s.ret)
        sp = [t[1] for t in sp if t[0] == 'init']
        r['speed'] = self.one(sp, 'speed member')
        r['params'] = L(('this',), r['speed'][2][:1])
        off = [t[1] for t in set(s.ret for s in self.simple('getTimeCompensation')[1]) if t[0] == 'init']
        r['offset'] = self.one(off, 'time compensation member')
        # worker
        workers = set()
        for c in self.ctor():
            for ev, _, _ in self.run(c)[0]:
                if ev.kind == 'launch' and ev.name == 'thread':
                    f = self.callable(ev.args)
                    if f is not None:
                        workers.add(f['id'])
        if len(workers) != 1:
            raise AnalysisError('anchor vanished: worker thread started by the constructor')
        r['worker'] = self.prog.fns[workers.pop()]
        # asynchronous computation and its future
        tasks = set()
        futs = set()
        wevs = self.run(r['worker'])[0]
        self.wevs = wevs
        for ev, _, _ in wevs:
            if ev.kind == 'launch' and ev.name == 'async':
                f = self.callable(ev.args)
                if f is not None:
                    tasks.add(f['id'])
            if ev.kind == 'w' and on_this(ev.loc) and ev.val and ev.val[0] == 'async':
                futs.add(ev.loc)
        if len(tasks) != 1:
            raise AnalysisError('anchor vanished: asynchronous computation started by the worker')
        r['task'] = self.prog.fns[tasks.pop()]
        r['future'] = self.one(futs, 'future of the computation')
        # adoption
        gd = self.simple('getDynamicWaypoints')
        tr = set()
        for ev, _, _ in gd[0]:
            if ev.kind == 'w' and on_this(ev.loc) and contains(ev.val, lambda t: t[0] == 'futval') and len(ev.loc[2]) >= 1:
                f0 = ev.loc[2][:1]
                if L(('this',), f0) != r['params']:
                    tr.add(L(('this',), f0))
        # values computed from the trajectory (time compensation) go to parameter structs: keep class-typed members holding it
        tr = set(x for x in tr if self.field_of(x)['t'] == self.task_result(r))
        r['traj'] = self.one(tr, 'active trajectory')
        rets = set(t for s in gd[1] if s.ret for t in alts(s.ret) if t[0] == 'init' and on_this(t[1]))
        act = [t[1] for t in rets]
        # on adoption paths the value of another member (the waypoints of the next trajectory) is returned
        nxt = set()
        for ev, _, _ in gd[0]:
            if ev.kind == 'w' and on_this(ev.loc) and ev.loc in act and ev.val[0] == 'init' and on_this(ev.val[1]):
                nxt.add(ev.val[1])
        act = [a for a in act if a not in nxt]
        r['active'] = self.one(act, 'active waypoints')
        r['next'] = self.one(nxt, 'waypoints of the next trajectory') if nxt else None
        # parameters of the next trajectory
        np = set()
        for ev, _, _ in gd[0]:
            if ev.kind == 'w' and ev.loc == r['params']:
                for t in walk(ev.val):
                    if t and t[0] == 'init' and len(t) == 2 and on_this(t[1]) and t[1] != r['params'] and len(t[1][2]) == 1 and \
                            self.field_of(t[1])['t'] == self.field_of(r['params'])['t']:
                        np.add(t[1])
        if not np:
            np = set(L(('this',), (('f', f['name']),)) for f in self.rec['fields'] if f['t'] == self.field_of(r['params'])['t']) - {r['params']}
        r['nparams'] = self.one(np, 'parameters of the next trajectory') if np else None
        # stop flag
        stop = set()
        if self.dtor() is not None:
            for ev, _, _ in self.run(self.dtor())[0]:
                if ev.kind in ('astore', 'aexch') and on_this(ev.loc) and maybe_true(ev.val):
                    stop.add(ev.loc)
        r['stop'] = next(iter(stop)) if len(stop) == 1 else None
        # start time of the trajectory in use: what getMaxTime adds to the trajectory's own end
        starts = set()
        for s in self.simple('getMaxTime')[1]:
            t = s.ret
            if t and t[0] == 'op' and t[1] == '+':
                for x in (t[2], t[3]):
                    if x[0] == 'init' and on_this(x[1]) and is_prefix(r['params'], x[1]):
                        starts.add(x[1])
        r['start'] = self.one(starts, 'start time of the trajectory in use') if starts else None
        return r

    def task_result(self, r):
        return r['task'].get('ret')

    def field_of(self, loc):
        for f in self.rec['fields']:
            if f['name'] == loc[2][0][1]:
                return f
        raise AnalysisError('anchor vanished: member %s' % show_loc(loc))

    def callable(self, ts):
        """function run by std::thread/std::async(args)"""
        for t in ts[:1]:
            if t[0] == 'fnref':
                return self.prog.fns.get(t[1])
            if t[0] == 'lambda':
                for I in self.interps:
                    if t in I.lambdas:
                        le, fr = I.lambdas[t]
                        d = le.get('def')
                        if d and d.get('body'):
                            d.setdefault('name', fr.fn['name'] + '::lambda')
                            d.setdefault('file', fr.fn['file'])
                            d.setdefault('kind', 'method')
                            d.setdefault('sn', 'lambda')
                            d['id'] = 'lambda@' + fr.fn['id']
                            self.prog.fns.setdefault(d['id'], d)
                            return self.prog.fns[d['id']]
        return None

    def lock_name(self, m):
        return show_loc(m)
