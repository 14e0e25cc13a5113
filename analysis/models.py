"""Transfer functions for the library types the project uses (containers, iterators, algorithms,
smart pointers, atomics, mutexes and guards, futures, threads, strings, Eigen, glog, streams)."""
from terms import *


def bt(t):
    t = t or ''
    if t.startswith('const '):
        t = t[6:]
    return t.rstrip(' &')


SEQ = ('std::vector', 'std::deque', 'std::list', 'std::array')
ASSOC = ('std::map', 'std::set', 'std::unordered_map', 'std::unordered_set', 'std::multimap')
MUTEXES = ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex', 'std::__mutex_base')
GUARDS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')
PTRS = ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access')
ATOM = ('std::atomic', 'std::__atomic_base')
FUT = ('std::future', 'std::shared_future', 'std::__basic_future')
OSTR = ('std::basic_ostream', 'std::ostream', 'std::basic_ofstream', 'std::basic_stringstream', 'std::basic_ostringstream')


def isseq(t):
    return bt(t).startswith(SEQ)


class Models:
    def __init__(self, I):
        self.I = I

    # ------------------------------------------------------------ helpers
    def objloc(self, e, st):
        I = self.I
        if e.get('arrow'):
            return [(s, I.deref(t, s, e)) for s, t in I.ev(e['obj'], st)]
        return I.lval(e['obj'], st)

    def default_value(self, t):
        t = bt(t)
        if t.startswith(SEQ[:3] + ASSOC) or 'basic_string' in t:
            return ('empty',)
        if t.startswith(('std::shared_ptr', 'std::unique_ptr')):
            return NULL
        return ('fresh', t)

    def evs(self, exprs, st):
        I = self.I
        cur = [(st, ())]
        for a in exprs:
            nx = []
            for s, ts in cur:
                for s2, t in I.ev(a, s):
                    nx.append((s2, ts + (t if t is not None else ('void',),)))
            cur = nx
        return cur

    # ------------------------------------------------------------ calls
    def call(self, e, st, want, target, discard):
        I = self.I
        sn = e.get('sn', '')
        name = e.get('name', '')
        cls = bt(e.get('cls', ''))
        if e.get('lam'):
            return self.call_lambda(e, st)
        if cls:
            if cls.startswith(MUTEXES):
                return self.mutex(e, st, sn)
            if cls.startswith(GUARDS):
                return self.guard_call(e, st, sn)
            if cls.startswith(ATOM):
                return self.atomic(e, st, sn)
            if cls.startswith(PTRS):
                return self.ptr(e, st, sn, want)
            if cls.startswith(FUT):
                return self.future(e, st, sn)
            if cls == 'std::thread' or cls == 'std::jthread':
                return self.thread(e, st, sn)
            if cls.startswith(SEQ):
                return self.seq(e, st, sn, cls, want)
            if cls.startswith(ASSOC):
                return self.assoc(e, st, sn, cls)
            if 'iterator' in cls:
                return self.iter(e, st, sn)
            if cls.startswith('std::basic_string<') or cls.startswith('std::__cxx11::basic_string<'):
                return self.string(e, st, sn)
            if cls.startswith('Eigen::'):
                return self.eigen(e, st, sn, cls, want)
            if cls == 'YAML::Node' and I.yaml is not None and e.get('obj') is not None:
                r = self.yaml_node(e, st, sn, want)
                if r is not None:
                    return r
            if cls.startswith('google::') or 'logging' in cls and cls.startswith('google'):
                return self.glog(e, st, sn)
            if cls.startswith(OSTR) or cls.startswith('std::ostream'):
                if e.get('op') == '<<' or sn in ('flush', 'precision', 'width', 'setf', 'put', 'write'):
                    return self.stream(e, st)
            if cls.startswith('std::pair') and e.get('op') == '=':
                return self.copy_assign(e, st)
            if cls.startswith('std::function') and e.get('op') == '()':
                return self.call_lambda(e, st)
            if e.get('op') == '=' and e.get('obj') is not None:
                f = I.callee_fn(e)
                if f is None or f.get('body') is None or f.get('defaulted'):
                    return self.copy_assign(e, st)
        if name.startswith('google::'):
            return self.glog(e, st, sn)
        if sn == 'PRINT_STRINGS' or sn == 'PRINT_ROS2_STRINGS':
            out = []
            for s, ts in self.evs(e.get('a') or [], st):
                out.append((s, ('void',)))
            return out
        if name == 'YAML::operator<<' and len(e.get('a') or []) == 2:
            # prints into its first operand and returns it
            out = []
            for s, l in I.lval(e['a'][0], st):
                for s2, t in I.ev(e['a'][1], s):
                    I.write(s2, l, ('out', name, I.site(e), 0, I.load(s2, l), t if t[0] != 'L' else I.value(s2, t)), e, extra='out')
                    out.append((s2, l if want == 'l' else I.value(s2, l)))
            return out
        if e.get('op') == '<<' and e.get('a') and ('ostream' in e['a'][0].get('t', '') or 'stream<' in e['a'][0].get('t', '')):
            return self.stream(e, st)
        if name.startswith('std::') or name.startswith('__') or name.startswith('__gnu') or e.get('builtin'):
            r = self.stdfn(e, st, sn, name, want)
            if r is not None:
                return r
        if name.startswith('Eigen::') or e.get('op') and any('Eigen::' in (a.get('t') or '') for a in (e.get('a') or [])) and not cls:
            return self.eigen_free(e, st, sn)
        if sn in ('abs', 'fabs', 'sqrt', 'exp', 'pow', 'floor', 'ceil', 'sin', 'cos', 'tan', 'atan2', 'acos', 'asin', 'log', 'round', 'lround', 'isnan', 'isinf', 'isfinite', 'fmod') and not cls:
            return [(s, self.mathfn(sn, ts)) for s, ts in self.evs(e.get('a') or [], st)]
        return None

    def mathfn(self, sn, ts):
        if sn == 'fabs':
            sn = 'abs'
        if sn == 'abs' and len(ts) == 1 and isc(ts[0]):
            return c(abs(ts[0][1]))
        return ('fn', sn) + tuple(ts)

    def copy_assign(self, e, st):
        I = self.I
        out = []
        for s, t in I.ev(e['a'][0], st):
            for s2, loc in self.objloc(e, s):
                if t is None:
                    t = ('void',)
                if t[0] == 'guard':
                    pass
                I.write(s2, loc, t, e)
                out.append((s2, loc))
        return out

    def stream(self, e, st):
        I = self.I
        cur = [st]
        ex = list(e.get('a') or [])
        if e.get('obj') is not None:
            ex = [e['obj']] + ex
        first = None
        vals = [(st, ())]
        for i, a in enumerate(ex):
            nx = []
            for s, ts in vals:
                if a['k'] == 'fnref' or (a.get('k') == 'opaque'):
                    nx.append((s, ts))
                    continue
                if i == 0:
                    for s2, l in I.lval(a, s):
                        nx.append((s2, ts + (l,)))
                    continue
                for s2, t in I.ev(a, s):
                    nx.append((s2, ts + (t,)))
            vals = nx
        out = []
        for s, ts in vals:
            l = ts[0] if ts else None
            # only file / string streams are of interest to rules
            if len(ts) > 1:
                I.emit(s, 'stream', e, loc=l, args=ts[1:])
            if len(ts) > 1 or e.get('sn') == 'flush':
                if l is not None and l[0] == 'L':
                    v = I.load(s, l)
                    b = v
                    while b[0] == 'mut':
                        b = b[3]
                    if b[0] in ('ctor', 'fresh') and str(b[1]).startswith(('std::basic_ofstream', 'std::basic_fstream')):
                        I.write(s, l, ('mut', e['sn'] if e.get('sn') in ('flush', 'write', 'put') else 'operator<<', I.site(e), v) + tuple(x if x[0] != 'L' else I.value(s, x) for x in ts[1:]), e, extra='mut')
            out.append((s, l if l is not None else ('void',)))
        return out

    # documents being built: a node of a key is a part of the node ------
    def yaml_node(self, e, st, sn, want):
        I = self.I
        if sn not in ('operator[]', 'operator=') or len(e.get('a') or []) != 1:
            return None
        out = []
        for s, ob in I.lval(e['obj'], st):
            for s2, k in I.ev(e['a'][0], s):
                if sn == 'operator=':
                    I.write(s2, ob, k, e)
                    out.append((s2, ob if want == 'l' else k))
                    continue
                b = k
                while b[0] == 'ctor' and 'basic_string' in str(b[1]) and len(b) >= 3:
                    b = b[2]
                n = I.yaml.get(b[1][1][1].split('::')[-1]) if b[0] == 'init' and b[1][0] == 'L' and b[1][1][0] == 'g' and not b[1][2] else b[1] if b[0] == 'str' else None
                if n is None:
                    return None
                loc = ('L', ob[1], ob[2] + (('f', 'yaml:' + n),))
                out.append((s2, loc if want == 'l' else I.value(s2, loc)))
        return out

    # glog ------------------------------------------------------------
    CHK = {'Check_EQImpl': '==', 'Check_NEImpl': '!=', 'Check_LTImpl': '<', 'Check_LEImpl': '<=', 'Check_GTImpl': '>', 'Check_GEImpl': '>='}

    def glog(self, e, st, sn):
        I = self.I
        if sn in self.CHK:
            out = []
            for s, ts in self.evs(e['a'][:2], st):
                out.append((s, ('checkop', self.CHK[sn], ts[0], ts[1])))
            return out
        if sn == 'GetReferenceableValue':
            return I.lval(e['a'][0], st) if e['a'][0]['k'] in ('var', 'mem', 'idx') else I.ev(e['a'][0], st)
        if sn == 'CheckNotNull':
            out = []
            for s, ts in self.evs([e['a'][-1]], st):
                t = ts[0]
                for s2 in I.assume(s, neg(op('==', t, NULL)), True, e):
                    I.emit(s2, 'checked', e, val=neg(op('==', t, NULL)))
                    out.append((s2, t))
            return out
        if sn == 'operator bool' and e.get('obj') is not None:
            return I.ev(e['obj'], st)
        out = []
        ex = list(e.get('a') or [])
        if e.get('obj') is not None:
            ex = [e['obj']] + ex
        for s, ts in self.evs([a for a in ex if a['k'] != 'fnref'], st):
            out.append((s, ('log',)))
        return out

    # locks ------------------------------------------------------------
    def mutex(self, e, st, sn):
        I = self.I
        out = []
        for s, m in self.objloc(e, st):
            if sn in ('lock', 'lock_shared'):
                I.lock(s, m, e, None)
                out.append((s, ('void',)))
            elif sn in ('unlock', 'unlock_shared'):
                I.unlock(s, m, e, None)
                out.append((s, ('void',)))
            elif sn in ('try_lock', 'try_lock_shared'):
                z = s.copy()
                I.lock(s, m, e, None, 'try')
                out.append((s, TRUE))
                out.append((z, FALSE))
            else:
                out.append((s, ('opq', 'mutex')))
        return out

    def guard_ctor(self, e, st):
        I = self.I
        cls = bt(e['cls'])
        a = e['a']
        if (e.get('move') or e.get('copy')) and a:
            out = []
            # moving a guard: same ownership
            src = a[0]
            if src['k'] == 'var' or (src['k'] == 'call' and src.get('sn') in ('move', 'forward')):
                for s, l in I.lval(src, st):
                    t = I.load(s, l)
                    out.append((s, t))
                return out
            return I.ev(src, st)
        gid = ('g',) + I.site(e)
        if not a:
            s = st
            s.guards = s.guards + ((gid, I.scopes[-1] if I.scopes else None, (), False),)
            return [(s, ('guard', gid))]
        mut = []
        mode = 'lock'
        cur = [(st, ())]
        for x in a:
            t = x.get('t', '')
            if 'adopt_lock' in t: mode = 'adopt'; continue
            if 'defer_lock' in t: mode = 'defer'; continue
            if 'try_to_lock' in t: mode = 'try'; continue
            if 'mutex' not in t:
                mode = 'try'
                continue
            nx = []
            for s, ls in cur:
                for s2, l in I.lval(x, s):
                    nx.append((s2, ls + (l,)))
            cur = nx
        out = []
        for s, ls in cur:
            if mode == 'lock':
                if len(ls) > 1:
                    I.emit(s, 'lockset', e, args=ls)
                for m in ls:
                    if len(ls) > 1:
                        I.lock(s, m, e, gid, 'multi')
                    else:
                        I.lock(s, m, e, gid)
                s.guards = s.guards + ((gid, I.scopes[-1] if I.scopes else None, ls, True),)
            elif mode == 'adopt':
                # the mutex was locked by hand: the guard now owns it
                lk = list(s.locks)
                for m in ls:
                    for i in range(len(lk)):
                        if lk[i][0] == m:
                            lk[i] = (m, gid)
                s.locks = tuple(lk)
                s.guards = s.guards + ((gid, I.scopes[-1] if I.scopes else None, ls, True),)
            elif mode == 'try':
                z = s.copy()
                z.guards = z.guards + ((gid, I.scopes[-1] if I.scopes else None, ls, False),)
                out.append((z, ('guard', gid)))
                for m in ls:
                    I.lock(s, m, e, gid, 'try')
                s.guards = s.guards + ((gid, I.scopes[-1] if I.scopes else None, ls, True),)
            else:
                s.guards = s.guards + ((gid, I.scopes[-1] if I.scopes else None, ls, False),)
            out.append((s, ('guard', gid)))
        return out

    def guard_call(self, e, st, sn):
        I = self.I
        out = []
        for s, l in self.objloc(e, st):
            t = I.load(s, l)
            g = None
            if t[0] == 'guard':
                for x in s.guards:
                    if x[0] == t[1]:
                        g = x
            if sn == 'operator=' and e.get('a'):
                for s2, t2 in I.ev(e['a'][0], s):
                    if g:
                        I.release_guard(s2, g, e)
                    I.write(s2, l, t2, e, quiet=True)
                    if t2[0] == 'guard':
                        s2.guards = tuple((x[0], I.scopes[-1], x[2], x[3]) if x[0] == t2[1] else x for x in s2.guards)
                    out.append((s2, l))
                continue
            if g is None:
                out.append((s, ('opq', 'guard')))
                continue
            if sn == 'lock' or sn == 'lock_shared':
                for m in g[2]:
                    I.lock(s, m, e, g[0])
                s.guards = tuple((x[0], x[1], x[2], True) if x[0] == g[0] else x for x in s.guards)
                out.append((s, ('void',)))
            elif sn == 'unlock' or sn == 'unlock_shared':
                for m in reversed(g[2]):
                    I.unlock(s, m, e, g[0])
                s.guards = tuple((x[0], x[1], x[2], False) if x[0] == g[0] else x for x in s.guards)
                out.append((s, ('void',)))
            elif sn in ('owns_lock', 'operator bool'):
                out.append((s, c(g[3])))
            elif sn == 'try_lock':
                z = s.copy()
                for m in g[2]:
                    I.lock(s, m, e, g[0], 'try')
                s.guards = tuple((x[0], x[1], x[2], True) if x[0] == g[0] else x for x in s.guards)
                out += [(s, TRUE), (z, FALSE)]
            elif sn == 'release':
                s.guards = tuple(x for x in s.guards if x[0] != g[0])
                lk = [((m, None) if o == g[0] else (m, o)) for m, o in s.locks]
                s.locks = tuple(lk)
                out.append((s, ('addr', g[2][0]) if g[2] else NULL))
            else:
                out.append((s, ('opq', 'guard')))
        return out

    # atomics ------------------------------------------------------------
    def atomic(self, e, st, sn):
        I = self.I
        out = []
        for s, l in self.objloc(e, st):
            for s2, ts in self.evs((e.get('a') or [])[:2], s):
                if sn.startswith('operator ') or sn == 'load':
                    I.emit(s2, 'aload', e, loc=l)
                    out.append((s2, self.aterm(s2, l, e)))
                elif sn in ('store', 'operator=', 'clear', 'test_and_set'):
                    v = ts[0] if ts else c(0)
                    I.write(s2, l, v, e, quiet=True)
                    I.emit(s2, 'astore', e, loc=l, val=v)
                    out.append((s2, v))
                elif sn == 'exchange':
                    old = self.aterm(s2, l, e)
                    I.write(s2, l, ts[0], e, quiet=True)
                    I.emit(s2, 'aexch', e, loc=l, val=ts[0], args=(old,))
                    out.append((s2, old))
                elif sn in ('compare_exchange_strong', 'compare_exchange_weak'):
                    want_ = ts[0]
                    z = s2.copy()
                    I.write(s2, l, ts[1], e, quiet=True)
                    I.emit(s2, 'aexch', e, loc=l, val=ts[1], args=(want_,), extra='cas')
                    out.append((s2, TRUE))
                    I.emit(z, 'aload', e, loc=l)
                    out.append((z, FALSE))
                elif sn in ('fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'operator++', 'operator--', 'operator+=', 'operator-=', 'operator|=', 'operator&='):
                    old = self.aterm(s2, l, e)
                    v = ('fn', 'atomic.' + sn, old) + ts
                    if sn in ('fetch_or', 'operator|=') and ts and isc(ts[0]) and ts[0][1]:
                        v = TRUE
                    if sn in ('fetch_and', 'operator&=') and ts and isc(ts[0]) and not ts[0][1]:
                        v = FALSE
                    I.write(s2, l, v, e, quiet=True)
                    I.emit(s2, 'aexch', e, loc=l, val=v, args=(old,))
                    out.append((s2, old))
                else:
                    out.append((s2, ('opq', 'atomic.' + sn)))
        return out

    def aterm(self, st, l, e):
        """value read from an atomic: any thread may have changed it, so each read is its own value"""
        if l[1][0] == 'v' or (l[1][0] == 't'):
            return self.I.load(st, l)
        return ('aread', l, self.I.site(e))

    # smart pointers ------------------------------------------------------
    def ptr(self, e, st, sn, want):
        I = self.I
        out = []
        for s, l in self.objloc(e, st):
            if sn in ('operator->', 'get'):
                out.append((s, I.read(s, l, e, whole=False)))
            elif sn == 'operator*':
                out.append((s, I.deref(I.read(s, l, e, whole=False), s, e)))
            elif sn == 'operator bool':
                out.append((s, neg(op('==', I.read(s, l, e, whole=False), NULL))))
            elif sn == 'reset':
                for s2, ts in self.evs(e.get('a') or [], s):
                    I.write(s2, l, ts[0] if ts else NULL, e)
                    out.append((s2, ('void',)))
            elif sn == 'operator=':
                for s2, t in I.ev(e['a'][0], s):
                    I.write(s2, l, t, e)
                    out.append((s2, l))
            elif sn == 'release':
                v = I.read(s, l, e, whole=False)
                I.write(s, l, NULL, e)
                out.append((s, v))
            elif sn == 'use_count':
                out.append((s, ('ret', 'use_count', I.site(e))))
            elif sn == 'swap':
                for s2, l2 in I.lval(e['a'][0], s):
                    a, b = I.read(s2, l, e), I.read(s2, l2, e)
                    I.write(s2, l, b, e)
                    I.write(s2, l2, a, e)
                    out.append((s2, ('void',)))
            elif sn == 'operator[]':
                for s2, ts in self.evs(e['a'], s):
                    out.append((s2, I.index(I.read(s2, l, e, whole=False), ts[0], s2)))
            else:
                out.append((s, ('opq', 'ptr.' + sn)))
        return out

    # futures / threads ----------------------------------------------------
    def future(self, e, st, sn):
        I = self.I
        out = []
        for s, l in self.objloc(e, st):
            for s2, ts in self.evs(e.get('a') or [], s):
                if sn == 'valid':
                    I.emit(s2, 'r', e, loc=l)
                    v = I.load(s2, l)
                    t = ('fn', 'future.valid', v)
                    if v[0] == 'async':
                        t = TRUE
                    out.append((s2, t))
                elif sn in ('wait', 'get', 'wait_for', 'wait_until'):
                    I.emit(s2, 'w' if sn == 'get' else 'r', e, loc=l, val=('gotten',))
                    I.emit(s2, 'fut_' + sn, e, loc=l, args=ts)
                    v = I.load(s2, l)
                    if sn == 'get':
                        r = ('futval', v, I.site(e))
                        s2.store[l] = ('invalid',)
                        out.append((s2, r))
                    elif sn == 'wait':
                        out.append((s2, ('void',)))
                    else:
                        out.append((s2, ('futstatus', v, I.site(e), ts[0] if ts else ('void',))))
                elif sn == 'operator=':
                    I.write(s2, l, ts[0], e)
                    out.append((s2, l))
                else:
                    out.append((s2, ('opq', 'future.' + sn)))
        return out

    def thread(self, e, st, sn):
        I = self.I
        out = []
        for s, l in self.objloc(e, st):
            for s2, ts in self.evs(e.get('a') or [], s):
                if sn in ('join', 'detach'):
                    I.emit(s2, 'w', e, loc=l, val=('joined',))
                    I.emit(s2, sn, e, loc=l)
                    out.append((s2, ('void',)))
                elif sn == 'joinable':
                    I.emit(s2, 'r', e, loc=l)
                    out.append((s2, ('fn', 'joinable', I.load(s2, l))))
                elif sn == 'operator=':
                    I.write(s2, l, ts[0], e)
                    out.append((s2, l))
                else:
                    out.append((s2, ('opq', 'thread.' + sn)))
        return out

    def launch(self, e, st, args, kind):
        """args: argument expressions (callable first)"""
        I = self.I
        out = []
        for s, ts in self.evs(args, st):
            I.emit(s, 'launch', e, name=kind, args=ts)
            out.append((s, (kind, I.site(e)) + ts))
        return out

    # sequences ------------------------------------------------------------
    def seq(self, e, st, sn, cls, want):
        I = self.I
        out = []
        a = e.get('a') or []
        for s, l in self.objloc(e, st):
            if sn in ('size', 'length'):
                v = I.read(s, l, e)
                out.append((s, size(v) if not cls.startswith('std::array') else self.array_size(cls)))
            elif sn == 'empty':
                v = I.read(s, l, e)
                out.append((s, op('==', size(v), c(0))))
            elif sn in ('begin', 'cbegin'):
                out.append((s, ('iter', l, c(0))))
            elif sn in ('end', 'cend'):
                I.emit(s, 'r', e, loc=l)
                out.append((s, ('iter', l, size(I.value(s, l)))))
            elif sn in ('rbegin', 'crbegin'):
                out.append((s, ('riter', l, op('-', size(I.value(s, l)), c(1)))))
            elif sn in ('rend', 'crend'):
                out.append((s, ('riter', l, c(-1))))
            elif sn in ('front', 'back', 'operator[]', 'at'):
                for s2, ts in self.evs(a, s):
                    I.emit(s2, 'r', e, loc=l, extra='access')
                    if sn == 'front':
                        i = c(0)
                    elif sn == 'back':
                        i = op('-', size(I.value(s2, l)), c(1))
                    else:
                        i = ts[0]
                    I.emit(s2, 'index', e, loc=l, val=i, name=sn)
                    out.append((s2, elem(l, i)))
            elif sn == 'data':
                out.append((s, ('addr', elem(l, c(0)))))
            elif sn in ('clear',):
                I.write(s, l, ('empty',), e, extra='clear')
                out.append((s, ('void',)))
            elif sn in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
                for s2, v in self.construct(e, s, cls, a):
                    I.emit(s2, 'r', e, loc=l)
                    base = I.value(s2, l)
                    t = ('push' if 'back' in sn else 'pushf', base, v)
                    n = size(base)
                    I.write(s2, l, t, e, extra=sn)
                    out.append((s2, elem(l, n if 'back' in sn else c(0))))
            elif sn in ('reserve', 'shrink_to_fit'):
                for s2, ts in self.evs(a, s):
                    I.emit(s2, 'w', e, loc=l, val=I.load(s2, l), extra='reserve')
                    out.append((s2, ('void',)))
            elif sn == 'resize':
                for s2, ts in self.evs(a, s):
                    base = I.value(s2, l)
                    I.write(s2, l, ('resized', base, ts[0]) + ts[1:], e, extra='resize')
                    out.append((s2, ('void',)))
            elif sn == 'assign':
                for s2, ts in self.evs(a, s):
                    v = self.range_value(s2, ts)
                    I.write(s2, l, v, e, extra='assign')
                    out.append((s2, ('void',)))
            elif sn == 'operator=':
                for s2, t in I.ev(a[0], s):
                    if t is None:
                        t = ('void',)
                    if t[0] == 'ilist' and len(t) == 1:
                        t = ('empty',)
                    I.write(s2, l, t, e)
                    src = a[0]
                    if src['k'] == 'call' and src.get('sn') == 'move' and src.get('name') == 'std::move':
                        n0 = I.mute()
                        r = I.lval(src, s2.copy())
                        I.unmute(n0)
                        if r:
                            I.write(s2, r[0][1], ('empty',), e, extra='moved')
                    out.append((s2, l))
            elif sn == 'swap':
                for s2, l2 in I.lval(a[0], s):
                    x, y = I.read(s2, l, e), I.read(s2, l2, e)
                    I.write(s2, l, y, e, extra='swap')
                    I.write(s2, l2, x, e, extra='swap')
                    out.append((s2, ('void',)))
            elif sn == 'insert':
                for s2, ts in self.evs(a, s):
                    base = I.value(s2, l)
                    if len(ts) == 3 and ts[1][0] == 'iter':
                        v = self.range_value(s2, ts[1:])
                    elif len(ts) == 2:
                        v = ('push', ('empty',), ts[1])
                    else:
                        v = ('opq', 'insert') + ts
                    pos = ts[0]
                    if pos[0] == 'iter' and pos[1] == l and pos[2] == size(base):
                        nv = self.append(base, v)
                    elif pos[0] == 'iter' and pos[1] == l and pos[2] == c(0):
                        nv = ('pushf', base, v[2]) if v[0] == 'push' and v[1] == ('empty',) else ('append', v, base)
                    else:
                        nv = ('insert', base, pos, v)
                    I.write(s2, l, nv, e, extra='insert')
                    out.append((s2, ('iter', l, pos[2] if pos[0] == 'iter' else ('opq',))))
            elif sn == 'erase':
                for s2, ts in self.evs(a, s):
                    base = I.value(s2, l)
                    if len(ts) == 1 and ts[0][0] == 'iter':
                        i = ts[0][2]
                        I.emit(s2, 'erase', e, loc=l, val=i, args=(self.elem_val(s2, l, i),))
                        nv = ('erased', base, i)
                        ret = ('iter', l, i)
                    elif len(ts) == 2 and ts[0][0] == 'removed':
                        nv = ts[0][2]
                        ret = ('iter', l, size(nv))
                        I.emit(s2, 'erase_if', e, loc=l, val=nv)
                    else:
                        nv = ('erased', base) + ts
                        ret = ('iter', l, ts[0][2] if ts[0][0] == 'iter' else ('opq',))
                        I.emit(s2, 'erase', e, loc=l, val=ts[0], args=())
                    I.write(s2, l, nv, e, extra='erase')
                    out.append((s2, ret))
            elif sn in ('pop_back', 'pop_front'):
                base = I.value(s, l)
                nv = base[1] if base[0] == ('push' if sn == 'pop_back' else 'pushf') else (sn, base)
                I.write(s, l, nv, e, extra=sn)
                out.append((s, ('void',)))
            elif sn == 'fill':
                for s2, ts in self.evs(a, s):
                    I.write(s2, l, ('filled', ts[0]), e)
                    out.append((s2, ('void',)))
            elif sn in ('capacity', 'max_size', 'get_allocator'):
                out.append((s, ('opq', sn)))
            else:
                for s2, ts in self.evs(a, s):
                    I.write(s2, l, ('opq', sn, I.site(e)) + ts, e)
                    out.append((s2, ('opq', sn) + ts))
        return out

    def array_size(self, cls):
        try:
            return c(int(cls.rsplit(',', 1)[1].strip(' >')))
        except Exception:
            return ('opq', 'array-size')

    def elem_val(self, st, l, i):
        return self.I.value(st, elem(l, i))

    def append(self, base, v):
        if v == ('empty',):
            return base
        if base == ('empty',):
            return v
        if v[0] == 'push' and v[1] == ('empty',):
            return ('push', base, v[2])
        return ('append', base, v)

    def range_value(self, st, ts):
        """value of the range [b, e)"""
        I = self.I
        if len(ts) == 2 and ts[0][0] == 'iter' and ts[1][0] == 'iter' and ts[0][1] == ts[1][1]:
            l = ts[0][1]
            v = I.read(st, l)
            if ts[0][2] == c(0) and ts[1][2] == size(v):
                return v
            return ('slice', v, ts[0][2], ts[1][2])
        if len(ts) == 1:
            return ts[0]
        if len(ts) == 2 and ts[0][0] != 'iter':
            return ('sized', ts[1], ts[0])
        return ('opq', 'range') + tuple(ts)

    def elem_type(self, cls):
        i = cls.find('<')
        d = 0
        for j in range(i + 1, len(cls)):
            ch = cls[j]
            if ch == '<':
                d += 1
            elif ch == '>':
                if d == 0:
                    return cls[i + 1:j]
                d -= 1
            elif ch == ',' and d == 0:
                return cls[i + 1:j]
        return ''

    def construct(self, e, st, cls, a):
        """value of the element constructed by push/emplace"""
        I = self.I
        et = self.elem_type(cls)
        if len(a) == 1:
            at = bt(a[0].get('t', ''))
            if at == et or not et or et in ('double', 'int', 'float', 'bool', 'unsigned long') or not self.find_ctors(et):
                return [(s, t if t is not None else ('void',)) for s, t in I.ev(a[0], st)]
        if et.startswith('std::pair') and len(a) == 2:
            return [(s, ('obj', et, (('first', ts[0]), ('second', ts[1])))) for s, ts in self.evs(a, st)]
        f = self.pick_ctor(et, a)
        if f is not None and I.inline(f) and len(I.frames) < I.MAXDEPTH and not any(x.fn is f for x in I.frames):
            out = []
            tl = L(('t', 'emp') + I.site(e))
            for s2, args in I.args({'a': a}, st, [dict(p) for p in f['params']]):
                for kk in [kk for kk in s2.store if kk[0] == 'L' and is_prefix(tl, kk)]:
                    del s2.store[kk]
                s2.store[tl] = ('fresh', et)
                # defaulted parameters
                args = list(args)
                while len(args) < len(f['params']):
                    args.append(('default', f['params'][len(args)].get('name', '')))
                for s3, _ in I.enter(f, s2, tl, tuple(args), e):
                    out.append((s3, I.value(s3, tl)))
            return out
        return [(s, ('ctor', et) + ts) for s, ts in self.evs(a, st)]

    def find_ctors(self, et):
        return [f for f in self.I.prog.fns.values() if f.get('cls') == et and f['kind'] == 'ctor']

    def pick_ctor(self, et, a):
        best = None
        for f in self.find_ctors(et):
            if f.get('implicit'):
                continue
            ps = f['params']
            if len(ps) < len(a):
                continue
            score = 0
            ok = True
            for p, x in zip(ps, a):
                xt = bt(x.get('t', ''))
                pt = p.get('bt', '')
                if pt == xt:
                    score += 10
                elif 'basic_string' in pt and ('char' in xt):
                    score += 5
                elif pt in ('int', 'double', 'float', 'unsigned long', 'bool') and xt in ('int', 'double', 'float', 'unsigned long', 'bool', 'long', 'unsigned int'):
                    score += 4
                elif pt.startswith('Eigen::') and xt.startswith('Eigen::'):
                    score += 4
                else:
                    ok = False
            score -= len(ps) - len(a)
            if ok and (best is None or score > best[0]):
                best = (score, f)
        return best[1] if best else None

    def assoc(self, e, st, sn, cls):
        I = self.I
        out = []
        a = e.get('a') or []
        for s, l in self.objloc(e, st):
            for s2, ts in self.evs(a, s):
                if sn in ('operator[]', 'at'):
                    if sn == 'operator[]':
                        I.emit(s2, 'w', e, loc=l, val=I.load(s2, l), extra='map[]')
                    else:
                        I.emit(s2, 'r', e, loc=l)
                    out.append((s2, elem(l, ts[0])))
                elif sn in ('find', 'count', 'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'lower_bound', 'upper_bound'):
                    v = I.read(s2, l, e)
                    if sn == 'size':
                        out.append((s2, size(v)))
                    elif sn == 'empty':
                        out.append((s2, op('==', size(v), c(0))))
                    elif sn in ('begin', 'cbegin'):
                        out.append((s2, ('iter', l, c(0))))
                    elif sn in ('end', 'cend'):
                        out.append((s2, ('iter', l, size(v))))
                    elif sn == 'count':
                        out.append((s2, ('fn', 'count', v) + ts))
                    else:
                        out.append((s2, ('iter', l, ('find', v) + ts)))
                elif sn == 'clear':
                    I.write(s2, l, ('empty',), e, extra='clear')
                    out.append((s2, ('void',)))
                elif sn == 'operator=':
                    I.write(s2, l, ts[0], e)
                    out.append((s2, l))
                else:
                    base = I.value(s2, l)
                    I.write(s2, l, ('mutated', sn, base) + ts, e, extra=sn)
                    out.append((s2, ('ret', sn, I.site(e)) + ts))
        return out

    def iter(self, e, st, sn):
        I = self.I
        out = []
        o = e.get('op')
        if e.get('obj') is None:
            return self.stdfn(e, st, sn, e.get('name', ''), 'v')
        for s, l in self.objloc(e, st):
            v = I.load(s, l)
            for s2, ts in self.evs(e.get('a') or [], s):
                if o in ('->',):
                    if v[0] in ('iter', 'riter'):
                        out.append((s2, ('addr', elem(v[1], v[2]))))
                    else:
                        out.append((s2, ('addr', L(('*', v)))))
                elif o == '*':
                    out.append((s2, elem(v[1], v[2]) if v[0] in ('iter', 'riter') else L(('*', v))))
                elif o in ('++', '--'):
                    if v[0] == 'riter':
                        nv = ('riter', v[1], op('-' if o == '++' else '+', v[2], c(1)))
                    elif v[0] == 'iter':
                        nv = ('iter', v[1], op(o[0], v[2], c(1)))
                    else:
                        nv = op(o[0], v, c(1))
                    I.write(s2, l, nv, e, quiet=l[1][0] in ('v', 't'))
                    out.append((s2, v if ts else l))
                elif o in ('+', '-', '+=', '-='):
                    b = ts[0]
                    if v[0] == 'iter' and b[0] == 'iter':
                        r = op('-', v[2], b[2])
                    elif v[0] in ('iter', 'riter'):
                        oo = o[0] if v[0] == 'iter' else ('-' if o[0] == '+' else '+')
                        r = (v[0], v[1], op(oo, v[2], b))
                    else:
                        r = op(o[0], v, b)
                    if o.endswith('='):
                        I.write(s2, l, r, e, quiet=True)
                        out.append((s2, l))
                    else:
                        out.append((s2, r))
                elif o in ('==', '!=', '<', '>', '<=', '>='):
                    out.append((s2, self.itercmp(o, v, ts[0])))
                elif o == '=':
                    I.write(s2, l, ts[0], e, quiet=l[1][0] in ('v', 't'))
                    out.append((s2, l))
                elif o == '[]':
                    out.append((s2, elem(v[1], op('+', v[2], ts[0])) if v[0] == 'iter' else L(('*', v))))
                elif sn == 'base':
                    out.append((s2, v))
                else:
                    out.append((s2, ('opq', 'iter.' + sn)))
        return out

    def itercmp(self, o, a, b):
        if a[0] in ('iter', 'riter') and b[0] == a[0] and a[1] == b[1]:
            return compare(o, a[2], b[2])
        return compare(o, a, b)

    # strings ---------------------------------------------------------------
    def string(self, e, st, sn):
        I = self.I
        out = []
        for s, l in self.objloc(e, st):
            for s2, ts in self.evs(e.get('a') or [], s):
                if sn in ('empty',):
                    out.append((s2, op('==', I.read(s2, l, e), ('s', ''))))
                elif sn in ('size', 'length'):
                    v = I.read(s2, l, e)
                    out.append((s2, self.strsize(v)))
                elif sn == 'compare' and len(ts) == 1:
                    out.append((s2, ('fn', 'strcmp', I.read(s2, l, e), ts[0])))
                elif sn in ('operator=', 'assign') and len(ts) == 1:
                    I.write(s2, l, ts[0], e)
                    out.append((s2, l))
                elif sn == 'clear':
                    I.write(s2, l, ('s', ''), e)
                    out.append((s2, ('void',)))
                elif e.get('mc'):
                    out.append((s2, ('fn', 'string.' + sn, I.read(s2, l, e)) + ts))
                else:
                    v = ('fn', 'string.' + sn, I.read(s2, l, e)) + ts
                    I.write(s2, l, v, e)
                    out.append((s2, l))
        return out

    def strsize(self, v):
        if v[0] == 's':
            return c(len(v[1]))
        if v == ('empty',):
            return c(0)
        return ('size', v)

    # Eigen -----------------------------------------------------------------
    ELEM = ('operator[]', 'operator()', 'coeff', 'coeffRef', 'x', 'y', 'z', 'w')
    VIEW = ('head', 'tail', 'segment', 'block', 'col', 'row', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'topLeftCorner', 'topRightCorner',
            'bottomLeftCorner', 'bottomRightCorner', 'middleRows', 'middleCols', 'noalias', 'array', 'matrix', 'diagonal', 'derived', 'const_cast_derived')

    def eigen(self, e, st, sn, cls, want):
        I = self.I
        out = []
        a = e.get('a') or []
        if e.get('obj') is None:
            for s, ts in self.evs(a, st):
                if sn == 'Zero':
                    out.append((s, ZERO if not ts else ('zeros',) + ts))
                else:
                    out.append((s, ('fn', 'Eigen.' + sn) + ts))
            return out
        if sn in self.ELEM or sn in self.VIEW:
            rv = e['obj']['k'] in ('call', 'ctor', 'bin', 'cond') and not e['obj'].get('rref')
            for s, l in self.objloc(e, st):
                for s2, ts in self.evs(a, s):
                    if sn in ('x', 'y', 'z', 'w'):
                        key = ('e', c('xyzw'.index(sn)))
                        if 'Quaternion' in cls:
                            key = ('f', sn)
                    elif sn in self.ELEM and len(ts) == 1:
                        key = ('e', ts[0])
                    elif sn in self.ELEM:
                        key = ('e', ('ij',) + ts)
                    elif sn in ('noalias', 'array', 'matrix', 'derived', 'const_cast_derived'):
                        key = None
                    else:
                        key = ('e', ('view', sn, e.get('ta', '')) + ts)
                    if sn in ('operator()', 'operator[]', 'coeff', 'coeffRef'):
                        I.emit(s2, 'index', e, loc=l, val=ts[0] if len(ts) == 1 else ('ij',) + ts, name='eigen')
                    ll = sub(l, key) if key else l
                    out.append((s2, ll))
            return out
        o = e.get('op')
        if o in ('=', '+=', '-=', '*=', '/='):
            for s, t in I.ev(a[0], st):
                for s2, l in self.objloc(e, s):
                    if t is None:
                        t = ('void',)
                    if o != '=':
                        I.emit(s2, 'r', e, loc=l)
                        t2 = op(o[0], I.value(s2, l), t)
                    else:
                        t2 = t
                    I.write(s2, l, t2, e)
                    out.append((s2, l))
            return out
        if sn in ('setZero', 'setConstant', 'setOnes', 'setIdentity', 'resize', 'conservativeResize', 'fill', 'normalize', 'setRandom', 'setLinSpaced', 'swap', 'compute', 'transposeInPlace', 'setFromTriplets', 'reserve', 'makeCompressed', 'analyzePattern', 'factorize') or (o == '<<') or (o == ','):
            for s, l in self.objloc(e, st):
                for s2, ts in self.evs(a, s):
                    base = I.value(s2, l)
                    v = ZERO if sn == 'setZero' and not ts else ('eig', sn, base) + ts
                    if sn == 'setZero' and ts:
                        v = ('zeros',) + ts
                    elif sn == 'setZero':
                        b = mk(base)
                        while b[0] == 'with':
                            b = b[1]
                        if b[0] == 'zeros':
                            v = b
                        elif b[0] == 'resized':
                            v = ('zeros',) + b[2:]
                        elif b[0] == 'ctor' and len(b) > 2 and 'Eigen::Matrix<' in str(b[1]):
                            v = ('zeros',) + b[2:]
                    if sn == 'resize':
                        v = ('resized', base, ts[0]) + ts[1:]
                    I.write(s2, l, v, e, extra=sn)
                    if o in ('<<', ','):
                        out.append((s2, l))
                    else:
                        out.append((s2, l if e.get('rref') else ('void',)))
            return out
        for s, l in (self.objloc(e, st)):
            for s2, ts in self.evs(a, s):
                v = I.read(s2, l, e)
                if sn in ('size', 'rows') and not ts:
                    out.append((s2, ('fn', 'Eigen.' + sn, v)))
                    continue
                if e.get('op') in ('+', '-', '*', '/') and len(ts) == 1:
                    out.append((s2, op(e['op'], v, ts[0])))
                elif e.get('op') == '-' and not ts:
                    out.append((s2, I.negate(v)))
                elif e.get('op') in ('==', '!='):
                    out.append((s2, compare(e['op'], v, ts[0])))
                elif sn in ('eval', 'operator double', 'value', 'finished', 'lazyProduct'):
                    out.append((s2, v))
                else:
                    out.append((s2, ('fn', 'Eigen.' + sn, v) + ts + ((('ta', e['ta']),) if e.get('ta') and sn in ('lpNorm', 'cast') else ())))
        return out

    def eigen_free(self, e, st, sn):
        out = []
        for s, ts in self.evs(e.get('a') or [], st):
            o = e.get('op')
            if o in ('+', '-', '*', '/') and len(ts) == 2:
                out.append((s, op(o, ts[0], ts[1])))
            elif o in ('==', '!=') and len(ts) == 2:
                out.append((s, compare(o, ts[0], ts[1])))
            else:
                out.append((s, ('fn', 'Eigen.' + sn) + ts))
        return out

    # std free functions ---------------------------------------------------
    def stdfn(self, e, st, sn, name, want):
        I = self.I
        a = e.get('a') or []
        o = e.get('op')
        if name in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof', 'std::__addressof'):
            if sn in ('addressof', '__addressof'):
                return [(s, ('addr', l)) for s, l in I.lval(a[0], st)]
            return I.lval(a[0], st)
        if name == 'std::async':
            ex = a
            kind = 'async'
            pol = None
            if a and 'launch' in a[0].get('t', ''):
                pol = a[0].get('cv')
                ex = a[1:]
            out = []
            for s, t in self.launch(e, st, ex, 'async'):
                I.emit(s, 'async_policy', e, val=c(pol) if pol is not None else ('none',))
                if s.locks:
                    pass
                out.append((s, t))
            return out
        if name in ('std::make_shared', 'std::make_unique'):
            out = []
            ty = bt(e.get('ta', '').split(',<')[0])
            f = self.pick_ctor(ty, a)
            t = ('new', I.site(e), ty)
            loc = L(('*', t))
            if f is not None and I.inline(f) and len(I.frames) < I.MAXDEPTH:
                for s2, args in I.args({'a': a}, st, [dict(p) for p in f['params']]):
                    s2.store[loc] = ('fresh', ty)
                    for s3, _ in I.enter(f, s2, loc, args, e):
                        I.emit(s3, 'new', e, val=t, extra='smart')
                        out.append((s3, t))
                return out
            for s, ts in self.evs(a, st):
                if len(ts) == 1 and a and bt(a[0].get('t', '')) == ty:
                    s.store[loc] = ts[0]
                else:
                    s.store[loc] = ('ctor', ty) + ts if ts else ('fresh', ty)
                I.emit(s, 'new', e, val=t, extra='smart')
                out.append((s, t))
            return out
        if sn in ('abs', 'fabs', 'sqrt', 'exp', 'pow', 'floor', 'ceil', 'sin', 'cos', 'tan', 'atan2', 'acos', 'asin', 'log', 'round', 'lround', 'isnan', 'isinf', 'isfinite', 'fmod', 'trunc', 'hypot', 'log10', 'cbrt'):
            return [(s, self.mathfn(sn, ts)) for s, ts in self.evs(a, st)]
        if name in ('std::max', 'std::min') and len(a) == 2:
            return [(s, self.minmax(sn, ts[0], ts[1])) for s, ts in self.evs(a, st)]
        if name in ('std::max', 'std::min') and len(a) == 1:
            out = []
            for s, ts in self.evs(a, st):
                t = ts[0]
                if t[0] == 'ilist' and len(t) > 1:
                    r = t[1]
                    for x in t[2:]:
                        r = self.minmax(sn, r, x)
                    out.append((s, r))
                else:
                    out.append((s, ('fn', sn, t)))
            return out
        if name == 'std::clamp' and len(a) == 3:
            return [(s, self.minmax('min', self.minmax('max', ts[0], ts[1]), ts[2])) for s, ts in self.evs(a, st)]
        if o in ('==', '!=', '<', '>', '<=', '>=') and len(a) == 2:
            out = []
            for s, ts in self.evs(a, st):
                x, y = [(('s', '') if (t == ('empty',) and 'basic_string' in (q.get('t') or '')) else t) for t, q in zip(ts, a)]
                ta, tb = a[0].get('t', ''), a[1].get('t', '')
                if x[0] in ('iter', 'riter') or y[0] in ('iter', 'riter'):
                    out.append((s, self.itercmp(o, x, y)))
                else:
                    out.append((s, compare(o, x, y)))
            return out
        if o in ('+', '-', '*', '/') and len(a) == 2:
            out = []
            for s, ts in self.evs(a, st):
                if 'basic_string' in (e.get('rt') or ''):
                    out.append((s, ('fn', 'strcat') + ts))
                else:
                    out.append((s, I.binop(o, ts[0], ts[1])))
            return out
        if name in ('std::begin', 'std::cbegin'):
            return [(s, ('iter', l, c(0))) for s, l in I.lval(a[0], st)]
        if name in ('std::end', 'std::cend'):
            return [(s, ('iter', l, size(I.value(s, l)))) for s, l in I.lval(a[0], st)]
        if name in ('std::next', 'std::prev', 'std::advance'):
            out = []
            for s, ts in self.evs(a, st):
                k = ts[1] if len(ts) > 1 else c(1)
                oo = '-' if sn == 'prev' else '+'
                out.append((s, ('iter', ts[0][1], op(oo, ts[0][2], k)) if ts[0][0] == 'iter' else ('opq', sn) + ts))
            return out
        if name == 'std::distance':
            return [(s, op('-', ts[1][2], ts[0][2]) if ts[0][0] == 'iter' == ts[1][0] else ('opq', sn) + ts) for s, ts in self.evs(a, st)]
        if name == 'std::make_pair':
            return [(s, ('obj', 'std::pair', (('first', ts[0]), ('second', ts[1])))) for s, ts in self.evs(a, st)]
        if name in ('std::lock',):
            cur = [(st, ())]
            for x in a:
                nx = []
                for s, ls in cur:
                    for s2, l in I.lval(x, s):
                        nx.append((s2, ls + (l,)))
                cur = nx
            out = []
            for s, ls in cur:
                I.emit(s, 'lockset', e, args=ls)
                for l in ls:
                    t = I.load(s, l)
                    if t[0] == 'guard':
                        for g in s.guards:
                            if g[0] == t[1]:
                                for m in g[2]:
                                    I.emit(s, 'lock', e, loc=m, extra=('multi', g[0]))
                                    s.locks = s.locks + ((m, g[0]),)
                        s.guards = tuple((x[0], x[1], x[2], True) if x[0] == t[1] else x for x in s.guards)
                    else:
                        I.emit(s, 'lock', e, loc=l, extra=('multi', None))
                        s.locks = s.locks + ((l, None),)
                out.append((s, ('void',)))
            return out
        if name == 'std::swap' and len(a) == 2:
            out = []
            for s, l in I.lval(a[0], st):
                for s2, l2 in I.lval(a[1], s):
                    x, y = I.read(s2, l, e), I.read(s2, l2, e)
                    I.write(s2, l, y, e, extra='swap')
                    I.write(s2, l2, x, e, extra='swap')
                    out.append((s2, ('void',)))
            return out
        if name == 'std::exchange' and len(a) == 2:
            out = []
            for s, t in I.ev(a[1], st):
                for s2, l in I.lval(a[0], s):
                    old = I.read(s2, l, e)
                    if t == ('ilist',) or t[0] == 'fresh':
                        t = ('empty',) if old[0] in ('init', 'push', 'append', 'fold') and isseq(a[0].get('t')) else t
                    I.write(s2, l, t, e, extra='exchange')
                    out.append((s2, old))
            return out
        if name == 'std::accumulate' and len(a) >= 3:
            return self.accumulate(e, st, a)
        if name in ('std::for_each', 'std::find_if', 'std::find_if_not', 'std::any_of', 'std::all_of', 'std::none_of', 'std::remove_if', 'std::count_if',
                    'std::copy', 'std::copy_if', 'std::transform', 'std::find', 'std::max_element', 'std::min_element', 'std::sort', 'std::fill', 'std::lower_bound', 'std::upper_bound', 'std::iota', 'std::reverse'):
            return self.algo(e, st, sn, a)
        if name == 'std::back_inserter':
            return [(s, ('backins', l)) for s, l in I.lval(a[0], st)]
        if name.startswith(('std::chrono', 'std::this_thread')):
            out = []
            for s, ts in self.evs(a, st):
                if sn in ('now', 'sleep_for', 'sleep_until', 'yield'):
                    I.emit(s, 'time', e, name=name, args=ts)
                    out.append((s, ('ret', name, I.site(e))))
                else:
                    out.append((s, ('fn', name) + ts))
            return out
        if name in ('std::to_string', 'std::get', 'std::isnan', 'std::isinf', 'std::isfinite'):
            if sn == 'get':
                out = []
                ta = e.get('ta', '').split(',')[0]
                for s, l in I.lval(a[0], st):
                    nm = {'0': 'first', '1': 'second'}.get(ta, '#' + ta) if 'pair<' in a[0].get('t', '') else '#' + ta
                    out.append((s, fld(l, nm)))
                return out
            return [(s, ('fn', sn) + ts) for s, ts in self.evs(a, st)]
        if name in ('std::fill_n',):
            return None
        return None

    def minmax(self, sn, x, y):
        if isc(x) and isc(y):
            return c(max(x[1], y[1]) if sn == 'max' else min(x[1], y[1]))
        if serial(y) < serial(x):
            x, y = y, x
        return ('fn', sn, x, y)

    # lambdas and algorithms ------------------------------------------------
    def call_lambda(self, e, st):
        I = self.I
        out = []
        for s, l in (I.lval(e['obj'], st) if e.get('obj') is not None else [(st, None)]):
            lam = I.load(s, l) if l is not None else None
            if lam is not None and lam[0] == 'lambda' and lam in I.lambdas:
                le, fr = I.lambdas[lam]
                d = le.get('def')
                if d:
                    for s2, args in I.args(e, s, [dict(p) for p in d['params']]):
                        out += self.apply(lam, s2, args, e)
                    continue
            for s2, ts in self.evs(e.get('a') or [], s):
                I.emit(s2, 'call', e, name='lambda', args=ts)
                out.append((s2, ('ret', 'lambda', I.site(e)) + ts))
        return out

    def apply(self, lam, st, args, node):
        I = self.I
        le, fr = I.lambdas[lam]
        d = le.get('def')
        if not d or not d.get('body') or any(f.fn is d for f in I.frames):
            return [(st, ('ret', 'lambda', I.site(node)))]
        d.setdefault('name', fr.fn['name'] + '::lambda')
        d.setdefault('file', fr.fn['file'])
        return I.enter(d, st, fr.this, args, node, outer=fr)

    def range_of(self, s, b, e2):
        I = self.I
        if b[0] == 'iter' and e2[0] == 'iter' and b[1] == e2[1]:
            return b[1], b[2], e2[2]
        return None

    def pseudo_loop(self, e, s, loc, lo, hi):
        I = self.I
        lid = ('loop',) + (I.frame.fid, I.nid(e), I.itctx)
        info = I.loops.setdefault(lid, {'node': e, 'fn': I.frame.fn['name'], 'line': e.get('l'), 'file': I.frame.fn['file']})
        info['range'] = loc
        info['rangeval'] = I.value(s, loc)
        info['lo'], info['hi'] = lo, hi
        info['trip'] = op('-', hi, lo)
        idx = ('ix', lid) if lo == c(0) else op('+', lo, ('ix', lid))
        return lid, idx

    def pred_apply(self, f, s, args, e, s_terms=None):
        """apply a callable value to argument locations/terms"""
        I = self.I
        if f[0] == 'lambda' and f in I.lambdas:
            return self.apply(f, s, args, e)
        if f[0] == 'fnref' and f[1] in I.prog.fns and I.prog.fns[f[1]].get('body'):
            fn = I.prog.fns[f[1]]
            if not any(x.fn is fn for x in I.frames):
                return I.enter(fn, s, I.frame.this, args, e)
        return [(s, ('ret', 'callable', I.site(e)) + tuple(I.valof(s, x) for x in args))]

    def accumulate(self, e, st, a):
        I = self.I
        out = []
        for s, ts in self.evs(a, st):
            r = self.range_of(s, ts[0], ts[1])
            if r is None:
                out.append((s, ('opq', 'accumulate') + ts))
                continue
            loc, lo, hi = r
            lid, idx = self.pseudo_loop(e, s, loc, lo, hi)
            acc = L(('t', 'acc') + I.site(e))
            lv = ('lv', lid, acc)
            if len(ts) == 4:
                steps = []
                z = s.copy()
                z.facts[op('<', ('ix', lid), I.loops[lid]['trip'])] = True
                I.loopstack.append(lid)
                for s2, v in self.pred_apply(ts[3], z, (lv, elem(loc, idx)), e):
                    steps.append(I.valof(s2, v) if v is not None else ('void',))
                I.loopstack.pop()
                stepv = steps[0] if len(set(steps)) == 1 else ('cases',) + tuple(((), x) for x in sorted(set(steps), key=serial))
            else:
                stepv = op('+', lv, I.value(s, elem(loc, idx)))
            out.append((s, ('fold', lid, acc, ts[2], stepv)))
        return out

    def algo(self, e, st, sn, a):
        I = self.I
        out = []
        for s, ts in self.evs(a, st):
            r = self.range_of(s, ts[0], ts[1]) if len(ts) >= 2 else None
            if r is None:
                I.emit(s, 'call', e, name='std::' + sn, args=ts)
                for t in ts:
                    if t[0] == 'iter' and sn not in ('find', 'find_if', 'any_of', 'all_of', 'none_of', 'count_if', 'max_element', 'min_element', 'lower_bound', 'upper_bound'):
                        I.write(s, t[1], ('opq', sn, I.site(e)) + ts, e)
                out.append((s, ('opq', sn, I.site(e)) + ts))
                continue
            loc, lo, hi = r
            I.emit(s, 'r', e, loc=loc, extra='range')
            whole = lo == c(0) and hi == size(I.value(s, loc))
            lid, idx = self.pseudo_loop(e, s, loc, lo, hi)
            el = elem(loc, idx)
            trip = I.loops[lid]['trip']
            nonempty = neg(op('==', trip, c(0)))
            if sn in ('find_if', 'find_if_not', 'any_of', 'none_of', 'all_of', 'find'):
                want_ = sn not in ('find_if_not', 'all_of')
                z = s.copy()
                hit = []
                if I.known(z, nonempty[1] if nonempty[0] == 'not' else nonempty) is not True:
                    z.facts[op('<', ('ix', lid), trip)] = True
                    I.loopstack.append(lid)
                    if sn == 'find':
                        res = [(z, op('==', I.value(z, el), ts[2]))]
                    else:
                        res = self.pred_apply(ts[2], z, (el,), e)
                    I.loopstack.pop()
                    for s2, v in res:
                        for s3, b in I.split(s2, I.truth(v, 'bool'), e):
                            if b == want_:
                                hit.append(s3)
                miss = s
                miss.facts[('noelem', lid)] = True
                I.loops[lid]['hits'] = I.loops[lid].get('hits', ()) + tuple(tuple(h.facts.items()) for h in hit)
                for h in I.dedupe(hit):
                    if sn in ('find_if', 'find_if_not', 'find'):
                        h.facts[op('==', idx, hi)] = False
                        out.append((h, ('iter', loc, idx)))
                    else:
                        out.append((h, c(sn == 'any_of')))
                if sn in ('find_if', 'find_if_not', 'find'):
                    out.append((miss, ('iter', loc, hi)))
                else:
                    out.append((miss, c(sn != 'any_of')))
            elif sn in ('remove_if', 'count_if', 'copy_if'):
                pred = ts[2] if sn != 'copy_if' else ts[3]
                z = s.copy()
                z.facts[op('<', ('ix', lid), trip)] = True
                I.loopstack.append(lid)
                cs = []
                for s2, v in self.pred_apply(pred, z, (el,), e):
                    for s3, b in I.split(s2, I.truth(v, 'bool'), e):
                        cs.append((tuple(sorted(((t, x) for t, x in s3.facts.items() if s.facts.get(t) != x), key=serial)), b))
                I.loopstack.pop()
                drop = tuple(sorted(f for f, b in cs if b))
                keep = tuple(sorted(f for f, b in cs if not b))
                base = I.value(s, loc)
                if sn == 'remove_if':
                    nv = ('filtered', lid, base, keep, drop)
                    I.emit(s, 'filter', e, loc=loc, val=nv)
                    I.write(s, loc, ('opq', 'partially-removed', base), e, quiet=True)
                    out.append((s, ('removed', loc, nv)))
                elif sn == 'copy_if':
                    d = ts[2]
                    nv = ('filtered', lid, base, drop, keep)
                    if d[0] == 'backins':
                        I.write(s, d[1], self.append(I.value(s, d[1]), nv), e, extra='append')
                    out.append((s, d))
                else:
                    out.append((s, ('countif', lid, base, drop)))
            elif sn == 'for_each' and whole:
                for s2 in I.algo_loop(e, s, loc, ts[2]):
                    out.append((s2, ts[2]))
            elif sn == 'for_each':
                for s2 in self.foreach(e, s, loc, idx, lid, lambda z: self.pred_apply(ts[2], z, (el,), e)):
                    out.append((s2, ts[2]))
            elif sn == 'copy':
                d = ts[2]
                v = self.range_value(s, ts[:2])
                if d[0] == 'backins':
                    I.emit(s, 'r', e, loc=d[1])
                    I.write(s, d[1], self.append(I.value(s, d[1]), v), e, extra='append')
                elif d[0] == 'iter':
                    I.write(s, d[1], ('copied', I.value(s, d[1]), d[2], v), e, extra='copy')
                out.append((s, d))
            elif sn == 'transform' and len(ts) == 4:
                d = ts[2]
                z = s.copy()
                z.facts[op('<', ('ix', lid), trip)] = True
                I.loopstack.append(lid)
                vals = []
                for s2, v in self.pred_apply(ts[3], z, (el,), e):
                    vals.append(I.valof(s2, v))
                I.loopstack.pop()
                v = phi(vals) if vals else ('opq',)
                if d[0] == 'backins':
                    base = I.value(s, d[1])
                    I.write(s, d[1], ('fold', lid, d[1], base, ('push', ('lv', lid, d[1]), v)), e, extra='append')
                elif d[0] == 'iter':
                    nk = elem(d[1], ('all', lid))
                    I.write(s, elem(d[1], op('+', d[2], ('ix', lid)) if d[2] != c(0) else ('ix', lid)), v, e)
                out.append((s, d))
            elif sn in ('max_element', 'min_element'):
                if len(ts) == 3:
                    I.emit(s, 'call', e, name='std::' + sn, args=ts)
                out.append((s, ('iter', loc, (sn, I.value(s, loc)) + ts[2:])))
            elif sn in ('sort', 'reverse', 'fill', 'iota'):
                # a part of the container is another operation than all of it
                part = () if whole else tuple(x[2] if x[0] == 'iter' else x for x in ts[:2])
                I.write(s, loc, ('fn', sn if whole else sn + '_part', I.value(s, loc)) + ts[2:] + part, e, extra=sn)
                out.append((s, ('void',)))
            elif sn in ('lower_bound', 'upper_bound'):
                out.append((s, ('iter', loc, (sn, I.value(s, loc)) + ts[2:])))
            else:
                out.append((s, ('opq', sn, I.site(e)) + ts))
        return out

    def foreach(self, e, s, loc, idx, lid, bodyfn):
        """run bodyfn as the body of a loop over loc"""
        I = self.I
        sts = {'k': 'models_body', 'l': e.get('l')}
        I.emit(s, 'loop', e, extra=lid, loc=loc)
        zero = s.copy()
        t = op('==', I.loops[lid]['trip'], c(0))
        z = s
        if t == TRUE:
            return [zero]
        z.facts[op('<', ('ix', lid), I.loops[lid]['trip'])] = True
        if t != FALSE:
            z.facts[t] = False
        before = dict(z.store)
        I.loopstack.append(lid)
        ends = [x for x, _ in bodyfn(z)]
        I.loopstack.pop()
        ix = ('ix', lid)
        res = []
        for x in I.dedupe(ends):
            for k in list(x.facts):
                if contains(k, lambda y: y == ix):
                    del x.facts[k]
            for k in list(x.store):
                if k[0] != 'L':
                    continue
                if any(q[0] == 'e' and contains(q[1], lambda y: y == ix) for q in k[2]):
                    v = x.store.pop(k)
                    nk = ('L', k[1], tuple(('e', ('all', lid)) if q == ('e', ix) else q for q in k[2]))
                    x.store[nk] = v
                    if nk not in x.alls:
                        x.alls = x.alls + (nk,)
                elif before.get(k) != x.store[k] and k[1] in set(b[1] for b in before if b[0] == 'L'):
                    old = before.get(k)
                    v = x.store[k]
                    if old is not None:
                        lv = ('lv', lid, k)
                        x.store[k] = ('fold', lid, k, old, subst(v, {old: lv}) if old[0] not in ('c',) else v)
            res.append(x)
        mons = set((x.mon, x.locks) for x in res)
        if (zero.mon, zero.locks) not in mons and t != FALSE:
            if t != TRUE:
                zero.facts[t] = True
            res.append(zero)
        return res

    # constructors ------------------------------------------------------------
    def ctor(self, e, st, target, discard):
        I = self.I
        cls = bt(e['cls'])
        a = e.get('a') or []
        if cls.startswith(GUARDS):
            return self.guard_ctor(e, st)
        if cls.startswith(MUTEXES):
            return [(st, ('mutex',))]
        if cls.startswith('google::'):
            if 'LogMessageFatal' in cls or 'NullStreamFatal' in cls:
                for s, ts in self.evs(a, st):
                    I.emit(s, 'abort', e)
                return []
            return [(s, ('log',)) for s, ts in self.evs([x for x in a if x['k'] not in ('fnref', 'opaque')], st)]
        if cls == 'std::thread' or cls == 'std::jthread':
            if (e.get('move') or e.get('copy')) and a:
                return I.ev(a[0], st)
            if not a:
                return [(st, ('nothread',))]
            return self.launch(e, st, a, 'thread')
        if cls.startswith(ATOM):
            if a:
                return [(s, ts[0]) for s, ts in self.evs(a, st)]
            return [(st, ('undef', 'atomic'))]
        if cls.startswith(FUT):
            if a:
                return I.ev(a[0], st)
            return [(st, ('invalid',))]
        if cls.startswith(SEQ + ASSOC):
            if not a or (len(a) == 1 and 'allocator' in a[0].get('t', '') and 'basic_string' not in a[0].get('t', '') and not isseq(a[0].get('t'))):
                return [(st, ('empty',))] if not cls.startswith('std::array') else None
            if e.get('copy') or e.get('move'):
                out = []
                for s, l in I.lval(a[0], st):
                    v = I.read(s, l, e)
                    if e.get('move') and l[1][0] in ('this', 'p', 'v', '*') and a[0]['k'] == 'call' and a[0].get('sn') == 'move':
                        I.write(s, l, ('empty',), e, extra='moved')
                    out.append((s, v))
                return out
            out = []
            for s, ts in self.evs([x for x in a if not (x.get('t', '').startswith('std::allocator'))], st):
                if len(ts) == 1 and ts[0][0] == 'ilist':
                    out.append((s, ts[0] if len(ts[0]) > 1 else ('empty',)))
                elif len(ts) == 1:
                    out.append((s, ('sized', c(0), ts[0])))
                elif len(ts) == 2 and ts[0][0] == 'iter':
                    out.append((s, self.range_value(s, ts)))
                elif len(ts) == 2:
                    out.append((s, ('sized', ts[1], ts[0])))
                else:
                    out.append((s, ('ctor', cls) + ts))
            return out
        if 'iterator' in cls and cls.startswith(('std::', '__gnu_cxx::')) and a:
            return I.ev(a[0], st)
        if cls.startswith(PTRS):
            if not a:
                return [(st, NULL)]
            if (e.get('copy') or e.get('move')) or len(a) >= 1:
                out = []
                if a[0]['k'] in ('var', 'mem') or (a[0]['k'] == 'call' and a[0].get('sn') == 'move'):
                    for s, l in I.lval(a[0], st):
                        v = I.read(s, l, e, whole=False)
                        if a[0]['k'] == 'call' and l[1][0] in ('this', 'p', 'v', '*'):
                            I.write(s, l, NULL, e, extra='moved')
                        out.append((s, v))
                    return out
                return I.ev(a[0], st)
        if 'basic_string<' in cls and cls.startswith('std::'):
            if not a:
                return [(st, ('s', ''))]
            if e.get('copy') or e.get('move'):
                return I.ev(a[0], st)
            out = []
            for s, ts in self.evs([x for x in a if not (x.get('t', '').startswith('std::allocator') or x.get('t', '').startswith('const std::allocator'))], st):
                out.append((s, ts[0] if len(ts) == 1 else ('ctor', 'string') + ts))
            return out
        if cls.startswith('std::pair<'):
            if e.get('copy') or e.get('move'):
                return I.ev(a[0], st)
            if len(a) == 2:
                return [(s, ('obj', cls, (('first', ts[0]), ('second', ts[1])))) for s, ts in self.evs(a, st)]
            if len(a) == 1:
                return I.ev(a[0], st)
        if cls.startswith('std::function<') and a:
            return I.ev(a[0], st)
        if cls.startswith('Eigen::'):
            if not a:
                return [(st, ('undef', cls))] if cls.startswith('Eigen::Matrix<') and ', -1' not in cls else [(st, ('empty',) if cls.startswith('Eigen::Matrix') else ('fresh', cls))]
            if len(a) == 1:
                t0 = bt(a[0].get('t', ''))
                if t0.startswith('Eigen::') or e.get('copy') or e.get('move'):
                    return [(s, t if t is not None else ('void',)) for s, t in I.ev(a[0], st)]
            out = []
            for s, ts in self.evs(a, st):
                if cls.startswith('Eigen::Matrix<') and len(ts) >= 2 and all(isc(t) and t[1] == 0 for t in ts) and ', -1' not in cls:
                    out.append((s, ZERO))
                else:
                    out.append((s, ('ctor', cls) + ts))
            return out
        if cls.startswith('std::chrono'):
            return [(s, ts[0] if len(ts) == 1 else ('ctor', cls) + ts) for s, ts in self.evs(a, st)]
        return None
