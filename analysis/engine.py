"""Path-sensitive abstract interpreter over the type-checked program (forward dataflow).

The abstract state maps memory locations to value numbers (terms.py) and carries the branch
facts, the mutexes held and the history of the events a rule is interested in.  States are joined
at control-flow joins (equal history + equal locks), loops are solved by havocking what the body
modifies and recognising induction variables and folds, calls into the analysed classes are
inlined context-sensitively, everything else is a modelled or an opaque transfer function.
No code of the project is executed and no solver is involved."""
import re
import sys
from terms import *
from loader import AnalysisError

sys.setrecursionlimit(20000)


class State:
    __slots__ = ('store', 'facts', 'locks', 'guards', 'mon', 'ret', 'exc', 'alls', 'tags')

    def __init__(self):
        self.store = Store()
        self.facts = Store()
        self.locks = ()
        self.guards = ()
        self.mon = ()
        self.ret = None
        self.exc = None
        self.alls = ()
        self.tags = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.store = Store(self.store)
        s.facts = Store(self.facts)
        s.locks = self.locks
        s.guards = self.guards
        s.mon = self.mon
        s.ret = self.ret
        s.exc = self.exc
        s.alls = self.alls
        s.tags = self.tags
        return s


class Event:
    __slots__ = ('kind', 'loc', 'val', 'name', 'args', 'obj', 'fn', 'file', 'line', 'loops', 'chain', 'node', 'extra', 'held', 'pre', 'p')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def where(self):
        return '%s:%s (%s)' % (self.file, self.line, self.fn)


class Frame:
    def __init__(self, fid, fn, this, outer=None):
        self.fid = fid
        self.fn = fn
        self.this = this
        self.outer = outer
        self.vars = set()
        self.retref = bool(fn and fn.get('ri', {}).get('ref'))


def base_type(t):
    t = t or ''
    for p in ('const ', 'volatile '):
        if t.startswith(p):
            t = t[len(p):]
    return t.strip()


STMTS_NEXT = 'n'


def apart_views(a, b, whole):
    """the views a and b of the vector whole have no element in common"""
    if a[0] != 'view' or b[0] != 'view':
        return False
    from algebra import poly, pconst, padd
    n = whole
    while n is not None and n[0] == 'with':
        n = n[1]
    n = None if n is None else n[1] if n[0] == 'zeros' and len(n) == 2 else n[2] if n[0] in ('resized', 'ctor') and len(n) == 3 and 'Matrix' in str(n) else None

    def ends(v):
        x = v[3:]
        if v[1] in ('head', 'topRows') and len(x) == 1:
            return c(0), x[0]
        if v[1] in ('segment', 'middleRows') and len(x) == 2:
            return x[0], op('+', x[0], x[1])
        if v[1] in ('tail', 'bottomRows') and len(x) == 1 and n is not None:
            return op('-', n, x[0]), n
        return None
    p, q = ends(a), ends(b)
    if p is None or q is None:
        return False
    for lo, hi in ((q[0], p[1]), (p[0], q[1])):
        d = pconst(padd(poly(lo), poly(hi), -1))
        if d is not None and d >= 0:
            return True
    return False


class Interp:
    MAXDEPTH = 14

    def __init__(self, prog, inline=None, observer=None, project=None, cap=48, throwing=None, tagger=None, kinds=None, mutates=None, server=False):
        self.server = server
        self.precise = False
        self.solving = 0
        self.prog = prog
        self.mutates = mutates
        self.inline = inline or (lambda fn: True)
        self.observer = observer
        self.project = project
        self.throwing = throwing
        self.yaml = None        # string constants, when documents are built
        self.exc_types = None   # type of exception -> types of handlers that catch it
        self.tagger = tagger
        self.tower = {}
        self.cap = cap
        self.disj = False
        self.rounds = None      # constant loops: analysed up to this many rounds
        self.kinds = kinds
        self.frames = []
        self.muted = 0
        self.loopstack = []
        self.itctx = ()
        self.loops = {}
        self.nodeids = {}
        self.nodekeep = []
        self.fidtab = {}
        self.thrown = []
        self.lambdas = {}
        self.stats = {'functions': set(), 'rounds cut': 0, 'calls': 0, 'branches': 0, 'events': 0, 'merged': 0, 'stmts': 0,
                      'opaque': set(), 'inlined_calls': 0}
        import models
        self.models = models.Models(self)

    # ---------------------------------------------------------------- utilities
    def nid(self, node):
        k = id(node)
        if k not in self.nodeids:
            self.nodeids[k] = len(self.nodeids) + 1
            self.nodekeep.append(node)
        return self.nodeids[k]

    def site(self, node):
        return (self.frame.fid, self.nid(node), self.itctx)

    @property
    def frame(self):
        return self.frames[-1]

    def emit(self, st, kind, node=None, loc=None, val=None, name=None, args=None, obj=None, extra=None):
        if self.kinds is not None and kind not in self.kinds:
            return
        if not self.tagger and not self.project and (self.muted or not self.observer):
            return
        ev = Event(kind=kind, loc=loc, val=val, name=name, args=args, obj=obj, extra=extra,
                   fn=self.frame.fn['name'] if self.frames else '', file=self.frame.fn['file'] if self.frames else '',
                   line=node.get('l') if node else None, loops=tuple(self.loopstack), node=node,
                   chain=tuple(f.fn['sn'] for f in self.frames), held=st.locks, pre=st.tags)
        if self.tagger:
            t = self.tagger(ev, st)
            if t is not None:
                st.tags = t
        if self.observer and not self.muted:
            self.stats['events'] += 1
            self.observer(ev, st)
        if self.project:
            m = self.project(ev, st)
            if m is not None:
                st.mon = st.mon + (m,)

    # ---------------------------------------------------------------- memory
    def proj(self, t, step):
        h = t[0]
        if h == 'init':
            return ('init', sub(t[1], step))
        if h == 'lv':
            return ('lv', t[1], sub(t[2], step))
        if h == 'obj' and step[0] == 'f':
            for k, v in t[2]:
                if k == step[1]:
                    return v
            return ('fld', t, step[1])
        if h == 'with':
            under = []
            hit = None
            for steps, v in t[2]:
                s0 = steps[0]
                if s0 == step:
                    if len(steps) == 1:
                        hit = v
                    else:
                        under.append((steps[1:], v))
                elif s0[0] == 'e' and step[0] == 'e':
                    if s0[1][0] == 'all':
                        vv = self.at_ix(v, {('ix', s0[1][1]): step[1]})
                        if len(steps) == 1:
                            hit = vv
                        else:
                            under.append((steps[1:], vv))
                    elif not (isc(s0[1]) and isc(step[1])):
                        b = self.proj(t[1], step)
                        return ('maybe', b, v)
            base = hit if hit is not None else self.proj(t[1], step)
            if under:
                return ('with', base, tuple(sorted(under, key=serial)))
            return base
        if h == 'zero' and step[0] == 'e':
            return c(0)
        if h == 'ctor' and step[0] == 'e' and isc(step[1]) and t[1].startswith('Eigen::Matrix') and \
                isinstance(step[1][1], int) and 0 <= step[1][1] < len(t) - 2 and len(t) > 3:
            return t[2 + step[1][1]]
        if h == 'ilist' and step[0] == 'e' and isc(step[1]) and 0 <= step[1][1] < len(t) - 1:
            return t[1 + step[1][1]]
        if h == 'push' and step[0] == 'e':
            n = size(t[1])
            if step[1] == n:
                return t[2]
            if isc(n) and isc(step[1]):
                return self.proj(t[1], step)
        if h == 'pushf' and step[0] == 'e' and isc(step[1]):
            if step[1][1] == 0:
                return t[2]
            return self.proj(t[1], ('e', c(step[1][1] - 1)))
        if h == 'phi':
            return phi([self.proj(x, step) for x in t[1]])
        if step[0] == 'f':
            return ('fld', t, step[1])
        return ('at', t, step[1])

    def load(self, st, loc):
        t = self.load1(st, loc)
        if st.alls and loc not in st.store and any(x[0] == 'e' for x in loc[2]):
            t = self.over_part(st, loc, t)
        return t

    def covers(self, st, m, whole):
        """conditions under which the loops that m names ran the iterations it says; None: they did not"""
        cs = []
        for k, b in m.items():
            info = self.loops.get(k[1]) or {}
            ts = info.get('conds') or ()
            if b == k or len(ts) != 1 or size(whole) in (info.get('trips') or ()):
                continue
            t, pol = subst(next(iter(ts)), m), True
            if t[0] == 'not':
                t, pol = t[1], False
            if isc(t):
                if bool(t[1]) != pol:
                    return None
                continue
            kn = self.known(st, t)
            if kn is (not pol):
                return None
            if kn is not pol:
                cs.append((t, pol))
        return tuple(cs)

    def load1(self, st, loc, skip=()):
        s = st.store
        if loc in s:
            return s[loc]
        steps = loc[2]
        def whole_of(k, i):
            p = ('L', k[1], k[2][:i])
            return s.get(p, ('init', p))
        al = [k for k in st.alls if k[1] == loc[1] and k in s and k not in skip] if st.alls and any(x[0] == 'e' for x in steps) else ()
        for n in range(len(steps), -1, -1):
            p = ('L', loc[1], steps[:n])
            t = None
            if p in s:
                t = s[p]
            else:
                for k in al:
                    if len(k[2]) == n:
                        m = self.match_all(k[2], steps[:n])
                        if m:
                            cs = self.covers(st, m, whole_of(k, [i for i in range(n) if k[2][i] != steps[i]][-1])) if self.disj else ()
                            if cs is None:
                                continue
                            t = self.at_ix(s[k], m)
                            if cs:
                                for stp in steps[n:]:
                                    t = self.proj(t, stp)
                                b = self.load1(st, loc, skip + (k,))
                                out = [(cs, t)] + [(cs[:i] + ((cs[i][0], not cs[i][1]),), b) for i in range(len(cs))]
                                d = max(self.tower.get(mk(t), 0), self.tower.get(mk(b), 0)) + 1
                                t = mk(('cases',) + tuple(out) if d < 5 else ('unk', 'tower', loc))
                                self.tower[t] = d if d < 5 else 0
                                return t
                            break
            if t is not None:
                for stp in steps[n:]:
                    t = self.proj(t, stp)
                return t
        return ('init', loc)

    def at_ix(self, v, m):
        """v, written by an iteration of a loop, for the iteration that m says"""
        if not hasattr(self, '_atix'):
            self._atix = {}
        key = (v, tuple(m.items()))
        r = self._atix.get(key)
        if r is None:
            r = self._atix[key] = subst(v, m, {k[1]: x for k, x in m.items() if k != x})
        return r

    def elem_key(self, k, lid, ix):
        """key of the elements an iteration writes, for all iterations; a container about which nothing is known after"""
        out = []
        for n, x in enumerate(k[2]):
            if x == ('e', ix):
                out.append(('e', ('all', lid)))
            elif x[0] == 'e' and contains(x[1], lambda y: y == ix):
                off = subst(x[1], {ix: c(0)})
                sg = 1 if op('-', subst(x[1], {ix: c(1)}), off) == c(1) or x[1] == op('+', off, ix) else \
                    -1 if x[1] == op('-', off, ix) else 0
                if not sg or contains(off, lambda y: len(y) > 1 and y[0] in ('lv', 'ix') and y[1] == lid):
                    return None, ('L', k[1], tuple(out))
                out.append(('e', ('part', lid, off, sg)))
            else:
                out.append(x)
        return ('L', k[1], tuple(out)), None

    def part_shape(self, k):
        """which elements the pattern means, independent of the loop that wrote them"""
        m, out = {}, []
        for n, x in enumerate(k[2]):
            if x[0] == 'e' and x[1][0] in ('all', 'part'):
                m[('ix', x[1][1])] = ('s', '#%d' % n)
        for n, x in enumerate(k[2]):
            if x[0] == 'e' and x[1][0] == 'part':
                cs = (self.loops.get(x[1][1]) or {}).get('conds') or ()
                if len(cs) != 1:
                    return k
                out.append((x[1][2:], subst(next(iter(cs)), m)))
            else:
                out.append('*' if x[0] == 'e' and x[1][0] == 'all' else x)
        return mk(('shape', k[1]) + tuple(out))

    def in_part(self, p, b):
        """(iteration that wrote element b, conditions under which one did)"""
        lid, off, sg = p[1:4]
        it = op('-', b, off) if sg > 0 else op('-', off, b)
        cs = [(op('<', it, c(0)), False)] if it[0] != 'ix' else []
        ts = (self.loops.get(lid) or {}).get('conds') or ()
        if len(ts) == 1:
            t, pol = subst(next(iter(ts)), {('ix', lid): it}), True
            if t[0] == 'not':
                t, pol = t[1], False
            cs.append((t, pol))
        return it, tuple(x for x in cs if not (isc(x[0]) and bool(x[0][1]) == x[1]))

    def over_part(self, st, loc, t):
        """t, read at loc, unless a loop over a part of the container has written it"""
        for k in st.alls:
            if k[1] != loc[1] or k not in st.store or len(k[2]) > len(loc[2]) or not any(x[0] == 'e' and x[1][0] == 'part' for x in k[2]):
                continue
            m, cs, ok = {}, (), True
            for a, b in zip(k[2], loc[2]):
                if a == b:
                    continue
                if a[0] == 'e' and b[0] == 'e' and a[1][0] == 'all':
                    m[('ix', a[1][1])] = b[1]
                elif a[0] == 'e' and b[0] == 'e' and a[1][0] == 'part':
                    it, c2 = self.in_part(a[1], b[1])
                    m[('ix', a[1][1])] = it
                    cs += c2
                else:
                    ok = False
                    break
            parts = {x[1][1] for x in k[2] if x[0] == 'e' and x[1][0] == 'part'}
            cs = tuple((subst(x, {a: b2 for a, b2 in m.items() if a[1] not in parts}), b) for x, b in cs)
            if not ok or any(self.known(st, x) is (not b) for x, b in cs):
                continue
            cs = tuple((x, b) for x, b in cs if self.known(st, x) is not b)
            v = self.at_ix(st.store[k], m)
            for stp in loc[2][len(k[2]):]:
                v = self.proj(v, stp)
            out = [(cs, v)]
            for n in range(len(cs)):
                out.append((cs[:n] + ((cs[n][0], not cs[n][1]),), t))
            if cs:
                # provisional passes over nested loops: no endless towers of choices
                n = max(self.tower.get(mk(t), 0), self.tower.get(mk(v), 0)) + 1
                t = mk(('cases',) + tuple(out) if n < 5 else ('unk', 'tower', loc))
                self.tower[t] = n if n < 5 else 0
            else:
                t = v
        return t

    def match_all(self, pat, steps):
        """the element indices for which the pattern (elements written by loops) is steps; None: it is not"""
        m = {}
        for a, b in zip(pat, steps):
            if a == b:
                continue
            if a[0] == 'e' and b[0] == 'e' and a[1][0] == 'all':
                m[('ix', a[1][1])] = b[1]
            else:
                return None
        return m

    def value(self, st, loc):
        """whole value of loc, including separately stored parts"""
        base = self.load(st, loc)
        n = len(loc[2])
        over = []
        if st.alls and any(x[0] == 'e' for x in loc[2]):
            for k in st.alls:
                if k[1] == loc[1] and len(k[2]) > n and k in st.store and k[2][:n] != loc[2]:
                    m = self.match_all(k[2][:n], loc[2])
                    if m and ('L', loc[1], loc[2] + k[2][n:]) not in st.store:
                        v, i = self.at_ix(st.store[k], m), [i for i in range(n) if k[2][i] != loc[2][i]][-1]
                        cs = self.covers(st, m, st.store.get(('L', k[1], k[2][:i]), ('init', ('L', k[1], k[2][:i])))) if self.disj else ()
                        if cs is None:
                            continue
                        if cs:
                            b = base
                            for stp in k[2][n:]:
                                b = self.proj(b, stp)
                            d = max(self.tower.get(mk(v), 0), self.tower.get(mk(b), 0)) + 1
                            v = mk(('cases', (cs, v)) + tuple((cs[:j] + ((cs[j][0], not cs[j][1]),), b) for j in range(len(cs))) if d < 5 else ('unk', 'tower', loc))
                            self.tower[v] = d if d < 5 else 0
                        over.append((k[2][n:], v))
        for k, v in st.store.items():
            if k[0] == 'L' and k[1] == loc[1] and len(k[2]) > n and k[2][:n] == loc[2]:
                over.append((k[2][n:], v))
        if not over:
            return base
        over.sort(key=serial)
        if base[0] == 'push':
            # the element just appended
            e = ('e', size(base[1]))
            last = [(k[1:], v) for k, v in over if k[0] == e]
            if last:
                whole = [v for k, v in last if not k]
                rest = tuple((k, v) for k, v in last if k)
                el = whole[0] if whole else base[2]
                if rest:
                    el = ('with', el, rest) if el[0] != 'with' else ('with', el[1], tuple(sorted([x for x in el[2] if not any(x[0][:len(k)] == k for k, v in rest)] + list(rest), key=serial)))
                base = ('push', base[1], el)
                over = [x for x in over if x[0][0] != e]
                if not over:
                    return base
        return ('with', base, tuple(over))

    def write(self, st, loc, val, node=None, quiet=False, extra=None):
        n = len(loc[2])
        s = st.store
        if val[0] == 'with' and val[1] == ('init', loc):
            pass
        dead = [k for k in s if k[0] == 'L' and k[1] == loc[1] and len(k[2]) > n and k[2][:n] == loc[2]]
        for k in dead:
            del s[k]
        if st.alls and any(x[0] == 'e' for x in loc[2]):
            for k in st.alls:
                if k[1] == loc[1] and len(k[2]) > n and k in s and self.match_all(k[2][:n], loc[2]):
                    t = val
                    for stp in k[2][n:]:
                        t = self.proj(t, stp)
                    s[('L', loc[1], loc[2] + k[2][n:])] = t
        # weak update of other elements of the same container
        for i, stp in enumerate(loc[2]):
            if stp[0] == 'e' and not isc(stp[1]):
                for k in list(s):
                    if k[0] == 'L' and k[1] == loc[1] and len(k[2]) == n and k != loc and k[2][:i] == loc[2][:i] and \
                            k[2][i][0] == 'e' and k[2][i][1] != stp[1] and k[2][i + 1:] == loc[2][i + 1:] and k[2][i][1][0] != 'all' and \
                            not apart_views(k[2][i][1], stp[1], s.get(('L', loc[1], loc[2][:i]))):
                        s[k] = ('maybe', s[k], val)
        s[loc] = val
        if not quiet:
            self.emit(st, 'w', node, loc=loc, val=val, extra=extra)

    def read(self, st, loc, node=None, whole=True):
        self.emit(st, 'r', node, loc=loc)
        return self.value(st, loc) if whole else self.load(st, loc)

    # ---------------------------------------------------------------- joins
    def dedupe(self, sts, lax=False):
        """drop equal states; with lax (or many states) states equal up to branch facts are joined"""
        if len(sts) <= 1:
            return sts
        lax = lax or len(sts) > 4
        seen = {}
        out = []
        for s in sts:
            k = (s.mon, s.locks, s.guards, s.tags, s.ret, s.exc, frozenset(s.store.items()))
            if not lax:
                k += (frozenset(s.facts.items()),)
            o = seen.get(k)
            if o is not None:
                self.stats['merged'] += 1
                if lax:
                    both = Store((t, b) for t, b in o.facts.items() if s.facts.get(t) == b)
                    if self.disj:
                        alts = [tuple(sorted(((t, b) for t, b in x.facts.items() if both.get(t) != b), key=serial)) for x in (o, s)]
                        if all(alts) and sum(len(x) for x in alts) <= 40:
                            both[mk(('anyof',) + tuple(sorted(alts, key=serial)))] = True
                    o.facts = both
                continue
            seen[k] = s
            out.append(s)
        if len(out) > self.cap:
            out = self.merge(out)
        return out

    def exclusive(self, g):
        """what tells the states apart; None when that is too much or not enough"""
        if len(g) > 16:
            return None
        f0 = g[0].facts
        both = {t for t, b in f0.items() if all(s.facts.get(t) == b for s in g[1:])}
        alts = [tuple(sorted(((t, b) for t, b in s.facts.items() if t not in both), key=serial)) for s in g]
        if any(not x or len(x) > 6 for x in alts):
            return None
        return alts

    def choice(self, alts, vs):
        return mk(('cases',) + tuple(sorted(zip(alts, vs), key=serial)))

    def merge(self, sts):
        groups = {}
        for s in sts:
            k = (s.mon, s.locks, s.guards, s.tags, s.exc, s.ret if s.ret is not None and (isc(s.ret) or s.ret[0] == 'L') else (s.ret is None))
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            self.stats['merged'] += len(g) - 1
            m = g[0].copy()
            keys = set()
            for s in g:
                keys.update(s.store)
            st = Store()
            alts = self.exclusive(g) if self.disj else None
            for k in keys:
                if k[0] == 'r':
                    vs = [s.store[k] for s in g if k in s.store]
                    if all(v == vs[0] for v in vs):
                        st[k] = vs[0]
                    else:
                        st[k] = vs[0]
                    continue
                # where no loop has written the elements: the element itself
                ke = k
                if k[0] == 'L' and any(x[0] == 'e' and x[1][0] == 'all' for x in k[2]):
                    ke = ('L', k[1], tuple(('e', ('ix', x[1][1])) if x[0] == 'e' and x[1][0] == 'all' else x for x in k[2]))
                vs = [s.store[k] if k in s.store else self.load(s, ke) for s in g]
                if all(v == vs[0] for v in vs):
                    st[k] = vs[0]
                else:
                    st[k] = self.choice(alts, vs) if alts else phi(vs)
            m.store = st
            f0 = g[0].facts
            m.facts = Store((t, b) for t, b in f0.items() if all(s.facts.get(t) == b for s in g[1:]))
            if m.ret is not None:
                rs = [s.ret for s in g]
                if any(r != rs[0] for r in rs):
                    m.ret = phi(rs) if all(r[0] != 'L' for r in rs) else rs[0]
            al = []
            for s in g:
                for a in s.alls:
                    if a not in al:
                        al.append(a)
            m.alls = tuple(al)
            out.append(m)
        if len(out) > self.cap * 6:
            raise AnalysisError('state explosion in %s (%d states)' % (self.frame.fn['name'], len(out)))
        return out

    # ---------------------------------------------------------------- facts
    def known(self, st, t):
        f = st.facts
        if t in f:
            return f[t]
        if t[0] == 'op' and t[1] in ('<', '=='):
            a, b = t[2], t[3]
            if t[1] == '<':
                r = f.get(('op', '<', b, a))
                if r:
                    return False
                e = op('==', a, b)
                if f.get(e):
                    return False
                if r is False and f.get(e) is False:
                    return True
                if isc(a) or isc(b):
                    return self.bound(st, t)
            else:
                if f.get(('op', '<', a, b)) or f.get(('op', '<', b, a)):
                    return False
                if f.get(('op', '<', a, b)) is False and f.get(('op', '<', b, a)) is False:
                    return True
                if isc(a) or isc(b):
                    return self.bound(st, t)
        return None

    def bound(self, st, t):
        a, b = t[2], t[3]
        x, k, right = (a, b[1], True) if isc(b) else (b, a[1], False)
        if not isinstance(k, (int, float)):
            return None
        lo, los, hi, his, ne = None, False, None, False, []
        if is_unsigned(x):
            lo = 0
        for f, v in st.facts.items():
            if f[0] != 'op' or f[1] not in ('<', '=='):
                continue
            p, q = f[2], f[3]
            if p == x and isc(q) and isinstance(q[1], (int, float)):
                kk = q[1]
                if f[1] == '==':
                    if v:
                        lo, los, hi, his = kk, False, kk, False
                    else:
                        ne.append(kk)
                elif v:
                    if hi is None or kk <= hi:
                        hi, his = kk, True
                else:
                    if lo is None or kk > lo:
                        lo, los = kk, False
            elif q == x and isc(p) and isinstance(p[1], (int, float)):
                kk = p[1]
                if f[1] == '==':
                    if v:
                        lo, los, hi, his = kk, False, kk, False
                    else:
                        ne.append(kk)
                elif v:
                    if lo is None or kk >= lo:
                        lo, los = kk, True
                else:
                    if hi is None or kk < hi:
                        hi, his = kk, False
        if t[1] == '==':
            if lo is not None and (k < lo or (k == lo and los)):
                return False
            if hi is not None and (k > hi or (k == hi and his)):
                return False
            if k in ne:
                return False
            if lo is not None and lo == hi == k and not los and not his:
                return True
            return None
        if right:      # x < k
            if hi is not None and (hi < k or (hi == k and his)):
                return True
            if lo is not None and lo >= k:
                return False
        else:          # k < x
            if lo is not None and (lo > k or (lo == k and los)):
                return True
            if hi is not None and hi <= k:
                return False
        return None

    def assume(self, st, t, val, node=None):
        """returns the states in which term t has truth value val ([] or [st])"""
        while t[0] == 'not':
            t = t[1]
            val = not val
        if isc(t):
            return [st] if bool(t[1]) == val else []
        k = self.known(st, t)
        if k is not None:
            return [st] if k == val else []
        st.facts[t] = val
        self.emit(st, 'branch', node, val=t, extra=val)
        return [st]

    def split(self, st, t, node=None):
        pol = True
        while t[0] == 'not':
            t = t[1]
            pol = not pol
        if isc(t):
            return [(st, bool(t[1]) == pol)]
        k = self.known(st, t)
        if k is not None:
            return [(st, k == pol)]
        if t[0] == 'phi':
            out = []
            allc = all(isc(x) for x in t[1])
            if allc:
                pass
        self.stats['branches'] += 1
        out = []
        for v in (True, False):
            s = st.copy()
            s.facts[t] = v
            self.emit(s, 'branch', node, val=t, extra=v)
            out.append((s, v == pol))
        return out

    def truth(self, t, ty=None):
        """term as condition"""
        h = t[0]
        if h == 'c' or h == 'not':
            return t
        if h == 'op' and t[1] in ('<', '==', '&&', '||'):
            return t
        if h == 'null':
            return FALSE
        if h in ('addr', 'new', 'str', 'lambda'):
            return TRUE
        if h == 'zero':
            return FALSE
        if h == 'checkop':
            return neg(compare(t[1], t[2], t[3]))
        if h == 'size':
            return neg(op('==', t, c(0)))
        if ty and ty != 'bool' and not self.boolish(t):
            if '*' in ty:
                return neg(op('==', t, NULL))
            return neg(op('==', t, c(0)))
        return t

    def boolish(self, t):
        return t[0] in ('op',) and t[1] in ('<', '==', '&&', '||')

    def cond(self, e, st):
        """evaluate e as a condition: list of (state, bool)"""
        if e is None:
            return [(st, True)]
        k = e['k']
        if k == 'bin' and e['op'] == '&&':
            out = []
            for s, v in self.cond(e['a'][0], st):
                if not v:
                    out.append((s, False))
                else:
                    out += self.cond(e['a'][1], s)
            return out
        if k == 'bin' and e['op'] == '||':
            out = []
            for s, v in self.cond(e['a'][0], st):
                if v:
                    out.append((s, True))
                else:
                    out += self.cond(e['a'][1], s)
            return out
        if k == 'un' and e['op'] == '!':
            return [(s, not v) for s, v in self.cond(e['a'][0], st)]
        if k == 'cast' and e.get('t') == 'bool' and len(e['a']) == 1:
            inner = e['a'][0]
            if inner.get('t', '').endswith('bool'):
                return self.cond(inner, st)
        if k == 'cast' and len(e['a']) == 1:
            x = e['a'][0]
            while x is not None and x['k'] in ('cast', 'paren') and len(x['a']) == 1:
                x = x['a'][0]
            if x is not None and x['k'] == 'call' and x.get('sn') == '__builtin_expect':
                return self.cond(x['a'][0], st)
        if k == 'call' and e.get('sn') == '__builtin_expect':
            return self.cond(e['a'][0], st)
        if k == 'cast' and len(e['a']) == 1 and e['a'][0].get('t', '').endswith('bool'):
            return self.cond(e['a'][0], st)
        out = []
        for s, t in self.ev(e, st):
            ty = e.get('t', '')
            if k == 'cast' and ty == 'bool':
                ty = e['a'][0].get('t', '')
            t = self.truth(t, base_type(ty))
            out += self.split(s, t, e)
        return out

    # ---------------------------------------------------------------- statements
    def new_out(self):
        return {'n': [], 'b': [], 'c': [], 'r': []}

    def exec(self, s, sts):
        """execute statement s from states sts -> outcome dict"""
        out = self.new_out()
        if s is None:
            out['n'] = sts
            return out
        if not sts:
            return out
        self.stats['stmts'] += 1
        k = s['k']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise AnalysisError('unsupported statement %s at %s:%s' % (k, self.frame.fn['file'], s.get('l')))
        return m(s, sts)

    def seq(self, stmts, sts):
        out = self.new_out()
        cur = sts
        for s in stmts:
            if not cur:
                break
            o = self.exec(s, cur)
            for k in 'bcr':
                out[k] += o[k]
            cur = self.dedupe(o['n'])
        out['n'] = cur
        for k in 'bcr':
            out[k] = self.dedupe(out[k])
        return out

    def x_block(self, s, sts):
        scope = (self.frame.fid, self.nid(s))
        n0 = len(self.thrown)
        self.scopes.append(scope)
        out = self.seq(s['s'], sts)
        self.scopes.pop()
        for k in out:
            for st in out[k]:
                self.leave(st, scope, s)
            if len(out[k]) > 1:
                out[k] = self.dedupe(out[k])
        for st in self.thrown[n0:]:
            self.leave(st, scope, s)
        return out

    scopes = []

    def leave(self, st, scope, node):
        """release the guards declared in scope"""
        gs = [g for g in st.guards if g[1] == scope]
        for g in reversed(gs):
            self.release_guard(st, g, node)

    def release_guard(self, st, g, node, keep=False):
        st.guards = tuple(x for x in st.guards if x[0] != g[0])
        if g[3]:
            for m in reversed(g[2]):
                self.unlock(st, m, node, g[0])

    def lock(self, st, mloc, node, owner, how=None):
        self.emit(st, 'lock', node, loc=mloc, extra=how)
        st.locks = st.locks + ((mloc, owner),)

    def unlock(self, st, mloc, node, owner):
        held = list(st.locks)
        for i in range(len(held) - 1, -1, -1):
            if held[i][0] == mloc:
                del held[i]
                st.locks = tuple(held)
                self.emit(st, 'unlock', node, loc=mloc, extra=owner)
                return
        self.emit(st, 'unlock_unheld', node, loc=mloc, extra=owner)

    def x_decl(self, s, sts):
        out = self.new_out()
        cur = sts
        for v in s['v']:
            nxt = []
            for st in cur:
                nxt += self.declare(v, st, s)
            cur = nxt
        out['n'] = cur
        return out

    def varloc(self, v):
        return L(('v', self.frame.fid, v['id'], v.get('name', '')))

    def declare(self, v, st, node):
        if v.get('static'):
            loc = L(('g', self.frame.fn['name'] + '::' + v['name']))
            st.store[('r', self.frame.fid, v['id'])] = loc
            self.frame.vars.add(v['id'])
            self.emit(st, 'static_local', node, loc=loc)
            return [st]
        self.frame.vars.add(v['id'])
        init = v.get('init')
        res = []
        if v.get('ref'):
            if init is None:
                return [st]
            for s2, loc in self.lval(init, st):
                s2.store[('r', self.frame.fid, v['id'])] = loc
                res.append(s2)
        else:
            loc = self.varloc(v)
            # forget whatever an earlier execution left
            for kk in [kk for kk in st.store if kk[0] == 'L' and kk[1] == loc[1]]:
                del st.store[kk]
            st.store.pop(('r', self.frame.fid, v['id']), None)
            if init is None:
                st.store[loc] = ('undef', loc)
                self.emit(st, 'undef', node, loc=loc, extra=v)
                res.append(st)
            else:
                for s2, t in self.ev(init, st, target=loc):
                    if t is not None:
                        if t[0] == 'guard':
                            s2.guards = tuple((g[0], self.scopes[-1], g[2], g[3]) if g[0] == t[1] else g for g in s2.guards)
                        self.write(s2, loc, t, node, extra='decl')
                    res.append(s2)
        if v.get('bindings'):
            out = []
            for s2 in res:
                cur = [s2]
                for b in v['bindings']:
                    self.frame.vars.add(b['id'])
                    nx = []
                    for s3 in cur:
                        if b.get('e'):
                            for s4, loc in self.lval(b['e'], s3):
                                s4.store[('r', self.frame.fid, b['id'])] = loc
                                nx.append(s4)
                        else:
                            base = s3.store.get(('r', self.frame.fid, v['id'])) or self.varloc(v)
                            i = v['bindings'].index(b)
                            nm = ('first', 'second')[i] if 'pair<' in v.get('bt', '') and i < 2 else '#%d' % i
                            s3.store[('r', self.frame.fid, b['id'])] = fld(base, nm)
                            nx.append(s3)
                    cur = nx
                out += cur
            res = out
        return res

    def x_null(self, s, sts):
        o = self.new_out()
        o['n'] = sts
        return o

    def x_expr(self, s, sts):
        o = self.new_out()
        e = s['e']
        for st in sts:
            for s2, t in self.ev(e, st, discard=True):
                if t is not None and t[0] == 'guard':
                    g = [g for g in s2.guards if g[0] == t[1]]
                    if g:
                        self.release_guard(s2, g[0], s)
                if t is not None and t[0] == 'ret' and e['k'] == 'call':
                    self.emit(s2, 'discard', e, val=t, name=e.get('name'))
                o['n'].append(s2)
        return o

    def x_label(self, s, sts):
        return self.exec(s['a'], sts)

    def x_goto(self, s, sts):
        raise AnalysisError('goto is not supported (%s:%s)' % (self.frame.fn['file'], s.get('l')))

    def x_break(self, s, sts):
        o = self.new_out()
        o['b'] = sts
        return o

    def x_continue(self, s, sts):
        o = self.new_out()
        o['c'] = sts
        return o

    def x_return(self, s, sts):
        o = self.new_out()
        e = s.get('e')
        for st in sts:
            if e is None:
                st.ret = ('void',)
                self.emit(st, 'return', s)
                o['r'].append(st)
                continue
            if self.frame.retref:
                for s2, loc in self.lval(e, st):
                    s2.ret = loc
                    self.emit(s2, 'return', s, loc=loc)
                    o['r'].append(s2)
            elif self.frame.fn.get('ret') == 'bool' and e.get('k') in ('bin', 'un') and e.get('op') in ('&&', '||', '!'):
                for s2, v in self.cond(e, st):
                    s2.ret = c(v)
                    self.emit(s2, 'return', s, val=s2.ret)
                    o['r'].append(s2)
            else:
                for s2, t in self.ev(e, st):
                    if t is not None and t[0] == 'guard':
                        s2.guards = tuple((g[0], 'ret', g[2], g[3]) if g[0] == t[1] else g for g in s2.guards)
                    s2.ret = t if t is not None else ('void',)
                    self.emit(s2, 'return', s, val=s2.ret)
                    o['r'].append(s2)
        return o

    def x_if(self, s, sts):
        out = self.new_out()
        cur = sts
        if s.get('init'):
            cur = self.exec(s['init'], cur)['n']
        if s.get('cv'):
            nx = []
            for st in cur:
                nx += self.declare(s['cv'], st, s)
            cur = nx
        tb, fb = [], []
        for st in cur:
            for s2, v in self.cond(s['c'], st):
                (tb if v else fb).append(s2)
        tb, fb = self.dedupe(tb), self.dedupe(fb)
        o1 = self.exec(s.get('a'), tb)
        o2 = self.exec(s.get('b'), fb)
        for k in out:
            out[k] = self.dedupe(o1[k] + o2[k])
        return out

    def x_switch(self, s, sts):
        out = self.new_out()
        cur = sts
        if s.get('init'):
            cur = self.exec(s['init'], cur)['n']
        if s.get('cv'):
            nx = []
            for st in cur:
                nx += self.declare(s['cv'], st, s)
            cur = nx
        items = []   # (labels, stmt)
        def flat(x):
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x)
                x = x['a']
            items.append((labels, x))
        body = s['a']
        for x in (body['s'] if body and body['k'] == 'block' else [body]):
            flat(x)
        scope = (self.frame.fid, self.nid(s))
        self.scopes.append(scope)
        n0 = len(self.thrown)
        for st in cur:
            for s2, t in self.ev(s['c'], st):
                pend = [s2]
                starts = []
                dflt = None
                for i, (labels, _) in enumerate(items):
                    for lb in labels:
                        if lb['k'] == 'default':
                            dflt = i
                            continue
                        nx = []
                        for p in pend:
                            for pv, v in self.ev(lb['v'], p):
                                for p2, b in self.split(pv, op('==', t, v), lb):
                                    if b:
                                        starts.append((i, p2))
                                    else:
                                        nx.append(p2)
                        pend = nx
                for p in pend:
                    if dflt is not None:
                        starts.append((dflt, p))
                    else:
                        out['n'].append(p)
                for i, p in starts:
                    o = self.seq([x for _, x in items[i:] if x is not None], [p])
                    out['n'] += o['n'] + o['b']
                    out['c'] += o['c']
                    out['r'] += o['r']
        self.scopes.pop()
        for k in out:
            for st in out[k]:
                self.leave(st, scope, s)
            out[k] = self.dedupe(out[k])
        for st in self.thrown[n0:]:
            self.leave(st, scope, s)
        return out

    def x_case(self, s, sts):
        return self.exec(s['a'], sts)
    x_default = x_case

    def x_try(self, s, sts):
        n0 = len(self.thrown)
        out = self.exec(s['a'], sts)
        caught = self.thrown[n0:]
        del self.thrown[n0:]
        hs = s['h']
        if self.exc_types is not None:
            # exceptions of known types: the first handler that matches, otherwise they escape
            for st in caught:
                k = st.exc[1] if st.exc else None
                h = next((h for h in hs if h.get('v') is None or any(x in self.exc_types.get(k, ()) for x in (re.sub(r'^const |[ &]+$', '', h['v']['t']),))), None)
                if h is None:
                    self.thrown.append(st)
                    continue
                ex, st.exc = st.exc, None
                st.facts[mk(('sym', 'caught'))] = True
                self.emit(st, 'catch', s, val=ex)
                o = self.exec(h['a'], [st])
                for k in out:
                    out[k] += o[k]
            caught = []
        if caught:
            caught = self.dedupe(caught)
            for st in caught:
                ex = st.exc
                st.exc = None
                st.tags = st.tags
                self.emit(st, 'catch', s, val=ex)
            # every handler may be the one that matches
            for h in hs:
                o = self.exec(h['a'], [x.copy() for x in caught])
                for k in out:
                    out[k] += o[k]
        for k in out:
            out[k] = self.dedupe(out[k])
        return out

    # ---------------------------------------------------------------- loops
    def x_while(self, s, sts):
        return self.loop(s, sts, None, s.get('cv'), s['c'], None, s['a'])

    def x_do(self, s, sts):
        return self.loop(s, sts, None, None, s['c'], None, s['a'], post=True)

    def x_for(self, s, sts):
        scope = (self.frame.fid, self.nid(s))
        self.scopes.append(scope)
        n0 = len(self.thrown)
        cur = sts
        if s.get('init'):
            cur = self.exec(s['init'], cur)['n']
        out = self.loop(s, cur, None, s.get('cv'), s['c'], s.get('inc'), s['a'])
        self.scopes.pop()
        for k in out:
            for st in out[k]:
                self.leave(st, scope, s)
        for st in self.thrown[n0:]:
            self.leave(st, scope, s)
        return out

    def x_rfor(self, s, sts):
        out = self.new_out()
        cur = sts
        if s.get('init'):
            cur = self.exec(s['init'], cur)['n']
        res = []
        for st in cur:
            for s2, loc in self.lval(s['range'], st):
                self.emit(s2, 'r', s, loc=loc, extra='range')
                res.append((s2, loc))
        groups = {}
        for s2, loc in res:
            groups.setdefault(loc, []).append(s2)
        for loc, ss in groups.items():
            o = self.loop(s, ss, loc, None, None, None, s['a'])
            for k in out:
                out[k] += o[k]
        return out

    def x_foreachbody(self, s, sts):
        """body of an algorithm call: apply the callable to the current element"""
        out = self.new_out()
        for st in sts:
            loc = st.store[('r', self.frame.fid, s['id'])]
            for s2, _ in self.models.pred_apply(s['f'], st, (loc,), s['node']):
                out['n'].append(s2)
        return out

    def algo_loop(self, e, st, rng, f):
        """std::for_each over a whole container as a range-for"""
        s = e.get('_loop')
        if s is None:
            vid = 'foreach%d' % self.nid(e)
            s = e['_loop'] = {'k': 'rfor', 'l': e.get('l'), 'v': {'id': vid, 'name': '', 'ref': True},
                              'a': {'k': 'foreachbody', 'id': vid, 'node': e, 'l': e.get('l')}}
        s['a']['f'] = f
        return self.loop(s, [st], rng, None, None, None, s['a'])['n']

    def const_ilist(self, st, loc):
        v = self.value(st, loc)
        if v[0] == 'ilist':
            return len(v) - 1
        return None

    def check_while(self, s):
        """glog CHECK_op expansion: while (CheckOpString r = Check_XXImpl(a, b)) LogMessageFatal()"""
        cv = s.get('cv')
        if not cv or not cv.get('init'):
            return False
        return 'CheckOpString' in cv.get('t', '') or 'CheckOpString' in cv.get('bt', '')

    def loop(self, s, sts, rng, cv, cnd, inc, body, post=False):
        out = self.new_out()
        sts = self.dedupe(sts)
        if s['k'] == 'while' and self.check_while(s):
            for st in sts:
                for s2, t in self.ev(cv['init'], st):
                    t = self.truth(t)
                    for s3, v in self.split(s2, t, s):
                        if v:
                            self.emit(s3, 'abort', s)
                        else:
                            out['n'].append(s3)
            out['n'] = self.dedupe(out['n'])
            return out
        if len(sts) > (6 if self.disj and self.rounds else 2):
            sts = self.merge(sts)
        for st in sts:
            o = self.unroll(s, st, rng, cv, cnd, inc, body, post)
            if o is None:
                self.solving += 1
                o = self.solve(s, st, rng, cv, cnd, inc, body, post)
                self.solving -= 1
            for k in out:
                out[k] += o[k]
        for k in out:
            out[k] = self.dedupe(out[k])
        return out

    def mute(self):
        self.muted += 1
        return len(self.thrown)

    def unmute(self, n0):
        self.muted -= 1
        del self.thrown[n0:]

    def unroll(self, s, st, rng, cv, cnd, inc, body, post):
        """loops whose trip count is a small constant are unrolled"""
        if cv is not None or cnd is None and rng is None:
            return None
        if rng is not None:
            n = self.const_ilist(st, rng)
            if n is None:
                sz = size(self.value(st, rng))
                if isc(sz) and sz[1] <= 8:
                    n = sz[1]
            if n is None or n > 16:
                return None
            out = self.new_out()
            cur = [st]
            save = self.itctx
            for i in range(n):
                self.itctx = save + ((self.nid(s), i),)
                nx = []
                for x in cur:
                    nx += self.bind_range(s, x, rng, c(i))
                o = self.exec(body, nx)
                out['n'] += o['b']
                out['r'] += o['r']
                cur = self.dedupe(o['n'] + o['c'])
            self.itctx = save
            out['n'] += cur
            return out
        # peek
        def peek(x):
            n0 = self.mute()
            r = self.cond(cnd, x.copy())
            self.unmute(n0)
            return r[0][1] if len(r) == 1 else None
        if post:
            return None
        p = peek(st)
        if p is None:
            return None
        if p and cnd.get('cv') is not None and not inc:
            return None     # while (true)
        # dry run to see that every condition is decided
        out = self.new_out()
        cur = [st]
        save = self.itctx
        stash = self.thrown[:]
        n0 = self.mute()
        ok = True
        probe = [st.copy()]
        total = 0
        for i in range(40):
            nx = []
            only = self.rounds is not None and i >= self.rounds
            for x in probe:
                p = peek(x)
                if p is None:
                    ok = False
                    break
                if p:
                    nx += [y for y, v in self.cond(cnd, x) if v]
            if not ok or not nx:
                break
            if only:
                # only the counter counts
                probe = nx[:1]
            else:
                o = self.exec(body, nx)
                probe = self.dedupe(o['n'] + o['c'])
            total = i + 1
            if inc:
                q = []
                for x in probe:
                    q += [y for y, _ in self.ev(inc, x)]
                probe = q
        else:
            ok = False
        self.unmute(n0)
        if not ok:
            return None
        for i in range(41):
            self.itctx = save + ((self.nid(s), i),)
            nx = []
            for x in cur:
                for y, v in self.cond(cnd, x):
                    if v:
                        nx.append(y)
                    else:
                        out['n'].append(y)
            if not nx:
                break
            if self.rounds is not None and self.rounds <= i < total - 1:
                # every round executes the same body: the first ones and the last one stand for all
                self.stats['rounds cut'] += 1
                cur = nx
                if inc:
                    cur = [y for x in cur for y, _ in self.ev(inc, x)]
                continue
            o = self.exec(body, nx)
            out['n'] += o['b']
            out['r'] += o['r']
            cur = self.dedupe(o['n'] + o['c'])
            if inc:
                q = []
                for x in cur:
                    q += [y for y, _ in self.ev(inc, x)]
                cur = q
        self.itctx = save
        return out

    def bind_range(self, s, st, rng, idx):
        v = s['v']
        self.frame.vars.add(v['id'])
        el = elem(rng, idx)
        if v.get('ref'):
            st.store[('r', self.frame.fid, v['id'])] = el
        else:
            loc = self.varloc(v)
            t = self.read(st, el, s)
            self.write(st, loc, t, s, quiet=True)
        for i, b in enumerate(v.get('bindings') or []):
            self.frame.vars.add(b['id'])
            base = el if v.get('ref') else self.varloc(v)
            nm = ('first', 'second')[i] if 'pair<' in v.get('bt', '') and i < 2 else '#%d' % i
            st.store[('r', self.frame.fid, b['id'])] = fld(base, nm)
        return [st]

    def solve(self, s, st, rng, cv, cnd, inc, body, post):
        lid = ('loop',) + (self.frame.fid, self.nid(s), self.itctx)
        info = self.loops.setdefault(lid, {'node': s, 'fn': self.frame.fn['name'], 'line': s.get('l'), 'file': self.frame.fn['file']})
        info['range'] = rng
        if rng is not None:
            info['rangeval'] = self.value(st, rng)
            if info['rangeval'] not in info.setdefault('rangevals', []):
                info['rangevals'].append(info['rangeval'])
        ix = ('ix', lid)
        pre_roots = set(k[1] for k in st.store if k[0] == 'L')
        frame_vars0 = set(self.frame.vars)
        server = self.server and rng is None and self.solving == 1
        induct = {}      # loc -> (start, step)
        mod = set()

        def is_inner(k):
            r = k[1]
            return r[0] in ('v', 't') and r not in pre_roots

        def start(base):
            x = base.copy()
            tops = [m for m in mod if not any(n != m and is_prefix(n, m) for n in mod)]
            for m in tops:
                ent = self.load(st, m)
                dead = [k for k in x.store if k[0] == 'L' and is_prefix(m, k)]
                for k in dead:
                    del x.store[k]
                if m in induct:
                    i0, stp = induct[m]
                    if ent[0] == 'iter':
                        x.store[m] = ('iter', ent[1], op('+' if stp > 0 else '-', ent[2], ix))
                    else:
                        x.store[m] = op('+' if stp > 0 else '-', i0, ix)
                elif ent[0] == 'iter':
                    x.store[m] = ('iter', ent[1], ('lv', lid, m))
                elif server and m[1] == ('this',):
                    # every round of the outermost loop of a thread starts from an arbitrary object,
                    # as the thread itself does
                    if any(k[0] == 'L' and k != m and is_prefix(k, m) for k in x.store):
                        x.store[m] = ('init', m)
                    for t in [t for t in x.facts if contains(t, lambda y: y[0] == 'init' and len(y) == 2 and is_prefix(m, y[1]))]:
                        del x.facts[t]
                else:
                    x.store[m] = ('lv', lid, m)
            return x

        def one(x, final):
            """one arbitrary iteration from x: (entered cond-false states, end states, breaks, returns)"""
            falses = []
            if post:
                ins = [x]
            elif rng is not None:
                t = op('<', ix, size(self.value(x, rng) if rng not in mod else ('lv', lid, rng)))
                x.facts[t] = True
                x.facts[op('==', size(info['rangeval']), c(0))] = False
                ins = self.bind_range(s, x, rng, ix)
            else:
                ins = []
                cur = [x]
                if cv is not None:
                    cur = self.declare(cv, x, s)
                for y in cur:
                    for z, v in self.cond(cnd, y):
                        (ins if v else falses).append(z)
            if final:
                self.loopstack.append(lid)
            o = self.exec(body, ins)
            ends = self.dedupe(o['n'] + o['c'])
            if inc:
                q = []
                for y in ends:
                    q += [z for z, _ in self.ev(inc, y)]
                ends = q
            if post:
                q = []
                for y in ends:
                    for z, v in self.cond(cnd, y):
                        (q if v else falses).append(z)
                posts = falses
                ends = q
                if final:
                    self.loopstack.pop()
                return posts, ends, o['b'], o['r']
            if final:
                self.loopstack.pop()
            return falses, ends, o['b'], o['r']

        def close():
            nonlocal mod
            ends = falses = []
            for rnd in range(6):
                n0 = self.mute()
                x0 = start(st)
                ref = dict(x0.store)
                falses, ends, brk, ret = one(x0, False)
                self.unmute(n0)
                new = set()
                for e in ends + (falses if post else []):
                    for k, v in e.store.items():
                        if k[0] != 'L' or is_inner(k):
                            continue
                        if ref.get(k) != v and self.load_ref(ref, k) != v:
                            if any(x[0] == 'e' and contains(x[1], lambda y: y == ix) for x in k[2]):
                                continue
                            new.add(k)
                    for k in ref:
                        if k[0] == 'L' and k not in e.store and not is_inner(k):
                            # deleted because a parent was overwritten: the parent is in new
                            pass
                new -= mod
                if not new:
                    break
                mod = mod | new
            return falses, ends

        falses, ends = close()
        # induction variables
        changed = False
        for m in list(mod):
            ent = self.load(st, m)
            vals = set()
            for e in ends + (falses if post else []):
                v = self.load(e, m)
                if ent[0] == 'iter' and v[0] == 'iter' and v[1] == ent[1]:
                    v = v[2]
                vals.add(v)
            if len(vals) == 1:
                v = next(iter(vals))
                lv = ('lv', lid, m)
                if v == op('+', lv, c(1)):
                    induct[m] = (ent, 1)
                    changed = True
                elif v == op('-', lv, c(1)):
                    induct[m] = (ent, -1)
                    changed = True
        elems = {m for m in mod if m not in induct and any(x[0] == 'e' for x in m[2])}
        if changed and elems:
            # elements met under the provisional values of an induction variable are not single elements
            mod = mod - elems
            falses, ends = close()
        info['induct'] = dict(induct)
        # final pass
        x0 = start(st)
        falses0 = []
        if not post and rng is None:
            n0 = self.mute()
            e0 = [st.copy()]
            if cv is not None:
                e0 = self.declare(cv, e0[0], s)
            for y in e0:
                for z, v in self.cond(cnd, y):
                    if not v:
                        falses0.append(z)
            self.unmute(n0)
        elif rng is not None:
            z = st.copy()
            t = op('==', size(info['rangeval']), c(0))
            if self.known(z, t) is not False and t != FALSE:
                if t != TRUE:
                    z.facts[t] = True
                falses0.append(z)
        for z in [x0]:
            self.emit(z, 'loop', s, extra=lid, loc=rng)
        falses, ends, brk, ret = one(x0, True)
        for z in ends:
            self.emit(z, 'iterend', s, extra=lid)
        for z in brk:
            self.emit(z, 'iterend', s, extra=lid, val=('break',))
        out = self.new_out()
        out['r'] = ret
        info['ends'] = max(len(ends), info.get('ends', 0))
        info['breaks'] = max(len(brk), info.get('breaks', 0))
        info['returns'] = max(len(ret), info.get('returns', 0))
        if not post and rng is None:
            info['condfacts'] = None
        info.setdefault('trips', set()).add(self.trip(info, st, rng, cnd, x0, ix, falses))
        # exit states after at least one iteration
        many = []
        src = ends if not post else falses
        if src:
            tops = [m for m in mod if not any(n != m and is_prefix(n, m) for n in mod)]
            folds = {}
            entry = set(st.facts.items())
            for m in tops:
                cases = []
                for e in src:
                    v = self.value(e, m)
                    cases.append((e, v))
                if all(v == cases[0][1] for _, v in cases):
                    stepv = cases[0][1]
                else:
                    stepv = ('cases',) + tuple(sorted(
                        [(tuple(sorted(((t, b) for t, b in e.facts.items() if (t, b) not in entry), key=serial)), v) for e, v in cases], key=serial))
                if m in induct:
                    i0, stp = induct[m]
                    n = self.trip(info, st, rng, cnd, x0, ix, falses)
                    if n is not None:
                        if i0[0] == 'iter':
                            folds[m] = ('iter', i0[1], op('+' if stp > 0 else '-', i0[2], n))
                        else:
                            folds[m] = op('+' if stp > 0 else '-', i0, n)
                    else:
                        folds[m] = ('lv', lid, m)
                else:
                    folds[m] = ('fold', lid, m, self.value(st, m), stepv)
            info['folds'] = folds
            elemkeys = sorted(set(k for e in src for k in e.store if k[0] == 'L' and
                                  any(x[0] == 'e' and contains(x[1], lambda y: y == ix) for x in k[2])), key=serial)
            groups = {}
            for e in src:
                groups.setdefault((e.mon, e.locks, e.guards, e.tags), []).append(e)
            for es in groups.values():
                e = es[0]
                z = e.copy()
                z.facts = Store((t, b) for t, b in e.facts.items() if not contains(t, lambda y: y[0] in ("ix", "lv") and len(y) > 1 and y[1] == lid))
                for t in list(z.facts):
                    if t not in st.facts and len(groups) and any(o.facts.get(t) != z.facts[t] for o in src):
                        del z.facts[t]
                for m in tops:
                    for k in [k for k in z.store if k[0] == 'L' and is_prefix(m, k)]:
                        del z.store[k]
                    z.store[m] = folds[m]
                    # the last iteration has the last word
                    vs = set(self.value(o, m) for o in es)
                    if len(vs) == 1 and isc(next(iter(vs))):
                        z.store[m] = next(iter(vs))
                # elements written by an iteration: every element of the container
                al = list(z.alls)
                for k in [k for k in z.store if k[0] == 'L' and any(x[0] == 'e' and contains(x[1], lambda y: y == ix) for x in k[2])]:
                    del z.store[k]
                for k in elemkeys:
                    nk, unk = self.elem_key(k, lid, ix)
                    if unk is not None:
                        # elements chosen in a way that is not followed: nothing is known about the container
                        for k2 in [a for a in z.store if a[0] == 'L' and is_prefix(unk, a)]:
                            del z.store[k2]
                        z.store[unk] = ('unk', lid, unk)
                        continue
                    vals = [(o, self.load(o, k)) for o in src]
                    if all(v == vals[0][1] for _, v in vals):
                        v = vals[0][1]
                    else:
                        v = ('cases',) + tuple(sorted(
                            [(tuple(sorted(((t, b) for t, b in o.facts.items() if (t, b) not in entry), key=serial)), v) for o, v in vals], key=serial))
                    if any(x[0] == 'e' and x[1][0] == 'part' for x in nk[2]):
                        sh = self.part_shape(nk)
                        for k2 in [a for a in al if a[1] == nk[1] and a != nk and len(a[2]) == len(nk[2]) and self.part_shape(a) == sh]:
                            z.store.pop(k2, None)
                            al.remove(k2)
                        z.store[nk] = v
                        if nk not in al:
                            al.append(nk)
                        continue
                    pat = tuple(('e', '*') if x[0] == 'e' and x[1][0] == 'all' else x for x in nk[2])
                    for k2 in [a for a in z.store if a[0] == 'L' and a[1] == nk[1] and a != nk and len(a[2]) >= len(pat) and
                               tuple(('e', '*') if x[0] == 'e' and x[1][0] == 'all' else x for x in a[2])[:len(pat)] == pat]:
                        del z.store[k2]
                        if k2 in al:
                            al.remove(k2)
                    z.store[nk] = v
                    if nk not in al:
                        al.append(nk)
                z.alls = tuple(al)
                many.append(z)
            # condition false at exit
            if not post and rng is None and cnd is not None:
                q = []
                n0 = self.mute()
                for z in many:
                    y0 = [z]
                    if cv is not None:
                        y0 = self.declare(cv, z, s)
                    for y in y0:
                        for w, v in self.cond(cnd, y):
                            if not v:
                                q.append(w)
                self.unmute(n0)
                many = q
        if falses0 and many:
            mons = set((z.mon, z.locks) for z in many)
            keep = [z for z in falses0 if (z.mon, z.locks) not in mons]
            if self.disj:
                # the exit states stand for loops without an iteration as well
                for z in many:
                    for t in [t for t, b in z.facts.items() if any(o.facts.get(t, b) != b for o in falses0 if o not in keep)]:
                        del z.facts[t]
            out['n'] = many + keep
            for z in out['n']:
                pass
        else:
            out['n'] = many + falses0
        if post and not src:
            out['n'] = many
        out['n'] += brk
        for z in out['n']:
            pass
        return out

    def load_ref(self, store, k):
        class T:
            pass
        t = T()
        t.store = store
        t.alls = ()
        return self.load(t, k)

    def trip(self, info, st, rng, cnd, x0, ix, falses):
        """number of iterations when the loop runs until its condition fails"""
        if rng is not None:
            n = size(info['rangeval'])
            info['trip'] = n
            return n
        if cnd is None or info.get('breaks'):
            pass
        n0 = self.mute()
        r = []
        try:
            y = x0.copy()
            if cnd is None:
                return None
            if cnd['k'] == 'bin' and cnd['op'] in ('<', '>', '!=', '<=', '>=') or cnd['k'] == 'call' and cnd.get('op') in ('!=', '<'):
                r = self.ev(cnd, y)
        finally:
            self.unmute(n0)
        if len(r) != 1:
            return None
        t = r[0][1]
        info['conds'] = {t}
        tr = None
        n = t
        pol = True
        if n[0] == 'not':
            n = n[1]
            pol = False
        if n[0] == 'op' and n[1] == '<' and pol:
            a, b = n[2], n[3]
            if a == ix:
                tr = b
            elif b[0] == 'op' and b[1] == '-' and b[3] == ix and a == c(0):
                tr = b[2]
            elif a[0] == 'op' and a[1] == '+' and a[3] == ix:
                tr = op('-', b, a[2])
            elif a[0] == 'op' and a[1] == '+' and a[2] == ix:
                tr = op('-', b, a[3])
        elif n[0] == 'op' and n[1] == '==' and not pol:
            a, b = n[2], n[3]
            if a == ix: tr = b
            elif b == ix: tr = a
        elif n[0] == 'op' and n[1] == '<' and not pol:
            # !(b < a)  ==  a <= b
            b, a = n[2], n[3]
            if a == ix:
                tr = op('+', b, c(1))
        info['trip'] = tr
        return tr

    # ---------------------------------------------------------------- expressions
    def findvar(self, e, st):
        """location of a variable reference (following references)"""
        vid = e['id']
        f = self.frame
        while f is not None:
            if vid in f.vars:
                r = st.store.get(('r', f.fid, vid))
                if r is not None:
                    return r
                return L(('v', f.fid, vid, e.get('name', '')))
            f = f.outer
        return L(('v', self.frame.fid, vid, e.get('name', '')))

    def lval(self, e, st):
        k = e['k']
        if k == 'var':
            sc = e.get('sc')
            if sc == 'enum':
                return [(st, self.temp(e, st, self.const(e)))]
            if sc in ('global', 'slocal'):
                r = st.store.get(('r', self.frame.fid, e.get('id')))
                if r is not None:
                    return [(st, r)]
                return [(st, L(('g', e.get('qn', e['name']))))]
            return [(st, self.findvar(e, st))]
        if k == 'this':
            return [(st, self.temp(e, st, ('addr', self.frame.this)))]
        if k == 'mem':
            out = []
            if e.get('arrow'):
                for s2, t in self.ev(e['b'], st):
                    out.append((s2, fld(self.deref(t, s2, e), e['f'])))
            else:
                for s2, loc in self.lval(e['b'], st):
                    out.append((s2, fld(loc, e['f'])))
            if e.get('rf'):
                out = [(s2, self.load(s2, l)[1] if self.load(s2, l)[0] == 'addr' else l) for s2, l in out]
            return out
        if k == 'un' and e['op'] == '*':
            return [(s2, self.deref(t, s2, e)) for s2, t in self.ev(e['a'][0], st)]
        if k == 'un' and e['op'] in ('++', '--'):
            out = []
            for s2, loc in self.lval(e['a'][0], st):
                self.incdec(s2, loc, e['op'], e)
                out.append((s2, loc))
            return out
        if k == 'idx':
            out = []
            for s2, b in self.ev_base(e['a'][0], st):
                for s3, i in self.ev(e['a'][1], s2):
                    out.append((s3, self.index(b, i, s3)))
            return out
        if k == 'asg':
            return self.assign(e, st)
        if k == 'cond':
            out = []
            for s2, v in self.cond(e['a'][0], st):
                out += self.lval(e['a'][1 if v else 2], s2)
            return out
        if k == 'cast':
            src = e['a'][0]
            if e.get('ck') in ('NoOp', 'LValueToRValue', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'LValueBitCast'):
                return self.lval(src, st)
            return [(s2, self.temp(e, s2, t)) for s2, t in self.ev(e, st)]
        if k == 'call':
            res = self.call(e, st, want='l')
            out = []
            for s2, r in res:
                if r is None:
                    r = ('void',)
                if r[0] == 'L':
                    out.append((s2, r))
                else:
                    out.append((s2, self.temp(e, s2, r)))
            return out
        if k == 'bin' and e['op'] == ',':
            out = []
            for s2, _ in self.ev(e['a'][0], st, discard=True):
                out += self.lval(e['a'][1], s2)
            return out
        if k == 'ctor' and (e.get('copy') or e.get('move')) and e.get('elid') and len(e['a']) >= 1:
            return self.lval(e['a'][0], st)
        out = []
        tl = L(('t',) + self.site(e))
        for s2, t in self.ev(e, st, target=tl):
            if t is not None:
                for kk in [kk for kk in s2.store if kk[0] == 'L' and kk[1] == tl[1]]:
                    del s2.store[kk]
                s2.store[tl] = t
            out.append((s2, tl))
        return out

    def temp(self, e, st, t):
        loc = L(('t',) + self.site(e))
        for kk in [kk for kk in st.store if kk[0] == 'L' and kk[1] == loc[1]]:
            del st.store[kk]
        st.store[loc] = t
        return loc

    def deref(self, t, st, e=None):
        if t[0] == 'addr':
            return t[1]
        if t[0] == 'iter':
            return elem(t[1], t[2])
        if t[0] == 'op' and t[1] == '+' and t[2][0] == 'addr':
            l = t[2][1]
            if l[2] and l[2][-1][0] == 'e':
                return ('L', l[1], l[2][:-1] + (('e', op('+', l[2][-1][1], t[3])),))
            return elem(l, t[3])
        if t[0] == 'L':
            return t
        return L(('*', t))

    def ev_base(self, e, st):
        """base of a subscript: an array location or a pointer value"""
        at = e.get('t', '')
        if at.endswith(']'):
            return self.lval(e, st)
        return [(s2, t) for s2, t in self.ev(e, st)]

    def index(self, b, i, st):
        if b[0] == 'L':
            return elem(b, i)
        if b[0] == 'addr':
            l = b[1]
            if l[2] and l[2][-1] == ('e', c(0)):
                return ('L', l[1], l[2][:-1] + (('e', i),))
            return elem(l, i)
        if b[0] == 'op' and b[1] == '+':
            return elem(self.deref(b[2], st), op('+', b[3], i))
        return elem(L(('*', b)), i)

    def const(self, e):
        if 'cv' in e:
            return c(e['cv'])
        if 'cvs' in e:
            return ('cs', e['cvs'])
        return None

    def ev(self, e, st, target=None, discard=False):
        """evaluate e to a value term; list of (state, term or None if built in place at target)"""
        if e is None:
            return [(st, ('void',))]
        k = e['k']
        if 'cv' in e and k not in ('asg',) and not (k == 'call'):
            return [(st, c(e['cv']))]
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return self.e_opaque(e, st, target, discard)
        return m(e, st, target, discard)

    def e_lit(self, e, st, target, discard):
        v = self.const(e)
        return [(st, v if v is not None else ('lit', e.get('t')))]

    def e_str(self, e, st, target, discard):
        return [(st, ('s', e.get('v', '')))]

    def e_null(self, e, st, target, discard):
        return [(st, NULL)]

    def e_zero(self, e, st, target, discard):
        return [(st, c(0))]

    def e_this(self, e, st, target, discard):
        return [(st, ('addr', self.frame.this))]

    def e_fnref(self, e, st, target, discard):
        return [(st, ('fnref', e['fn'], e['name']))]

    def e_var(self, e, st, target, discard):
        if e.get('sc') == 'enum':
            return [(st, self.const(e) or ('s', e.get('qn')))]
        return [(s2, self.read(s2, loc, e)) for s2, loc in self.lval(e, st)]

    def e_mem(self, e, st, target, discard):
        b = e['b']
        if not e.get('arrow') and b['k'] in ('call', 'ctor', 'ilist') and not b.get('rref'):
            out = []
            for s2, loc in self.lval(b, st):
                out.append((s2, self.read(s2, fld(loc, e['f']), e)))
            return out
        return [(s2, self.read(s2, loc, e)) for s2, loc in self.lval(e, st)]

    def e_idx(self, e, st, target, discard):
        return [(s2, self.read(s2, loc, e)) for s2, loc in self.lval(e, st)]

    def e_un(self, e, st, target, discard):
        o = e['op']
        if o == '&':
            a = e['a'][0]
            if a['k'] == 'fnref':
                return [(st, ('fnref', a['fn'], a['name']))]
            if a['k'] == 'opaque' or (a['k'] == 'mem' and False):
                return [(st, ('fn', 'memptr'))]
            return [(s2, ('addr', loc)) for s2, loc in self.lval(a, st)]
        if o == '*':
            return [(s2, self.read(s2, loc, e)) for s2, loc in self.lval(e, st)]
        if o == '!':
            out = []
            a = e['a'][0]
            for s2, t in self.ev(a, st):
                out.append((s2, neg(self.truth(t, base_type(a.get('t', ''))))))
            return out
        if o == '-':
            return [(s2, self.negate(t)) for s2, t in self.ev(e['a'][0], st)]
        if o == '+':
            return self.ev(e['a'][0], st)
        if o in ('++', '--', 'post++', 'post--'):
            out = []
            for s2, loc in self.lval(e['a'][0], st):
                old, new = self.incdec(s2, loc, o[-2:], e)
                out.append((s2, old if o.startswith('post') else new))
            return out
        return [(s2, ('fn', 'un' + o, t)) for s2, t in self.ev(e['a'][0], st)]

    def negate(self, t):
        if isc(t):
            return c(-t[1])
        if t[0] == 'op' and t[1] == '*' and isc(t[2]):
            return op('*', c(-t[2][1]), t[3])
        return op('*', c(-1), t)

    def incdec(self, st, loc, o, e):
        self.emit(st, 'r', e, loc=loc)
        old = self.load(st, loc)
        if old[0] == 'iter':
            new = ('iter', old[1], op(o[0], old[2], c(1)))
        else:
            new = op(o[0], old, c(1))
        self.write(st, loc, new, e)
        return old, new

    CMP = ('<', '>', '<=', '>=', '==', '!=')

    def binop(self, o, a, b):
        if o in self.CMP:
            if a == ZERO: a = c(0)
            if b == ZERO: b = c(0)
            return compare(o, a, b)
        if o in ('+', '-') and a[0] == 'iter':
            return ('iter', a[1], op(o, a[2], b)) if b[0] != 'iter' else op('-', a[2], b[2])
        if o == '+' and b[0] == 'iter':
            return ('iter', b[1], op(o, b[2], a))
        return op(o, a, b)

    def e_bin(self, e, st, target, discard):
        o = e['op']
        if o in ('&&', '||'):
            return [(s2, c(v)) for s2, v in self.cond(e, st)]
        if o == ',':
            out = []
            for s2, _ in self.ev(e['a'][0], st, discard=True):
                out += self.ev(e['a'][1], s2, target, discard)
            return out
        out = []
        for s2, a in self.ev(e['a'][0], st):
            for s3, b in self.ev(e['a'][1], s2):
                out.append((s3, self.binop(o, a, b)))
        return out

    def assign(self, e, st):
        out = []
        for s2, t in self.ev(e['a'][1], st):
            for s3, loc in self.lval(e['a'][0], s2):
                if e['op'] != '=':
                    self.emit(s3, 'r', e, loc=loc)
                    t2 = self.binop(e['op'][:-1], self.load(s3, loc), t)
                else:
                    t2 = t
                self.write(s3, loc, t2, e)
                out.append((s3, loc))
        return out

    def e_asg(self, e, st, target, discard):
        return [(s2, self.load(s2, loc)) for s2, loc in self.assign(e, st)]

    def e_cond(self, e, st, target, discard):
        out = []
        for s2, v in self.cond(e['a'][0], st):
            out += self.ev(e['a'][1 if v else 2], s2, target, discard)
        return out

    def e_cast(self, e, st, target, discard):
        src = e['a'][0]
        ty = base_type(e.get('t', ''))
        out = []
        if ty == 'void':
            return [(s2, ('void',)) for s2, _ in self.ev(src, st, discard=True)]
        for s2, t in self.ev(src, st):
            ck = e.get('ck', '')
            if ty == 'bool' and ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
                t = self.truth(t, base_type(src.get('t', '')))
            elif ck == 'FloatingToIntegral':
                if isc(t):
                    t = c(int(t[1]))
                else:
                    t = ('fn', 'trunc:' + ty, t)
            out.append((s2, t))
        return out

    def e_throw(self, e, st, target, discard):
        states = [st]
        ex = ('rethrow',)
        for a in e['a']:
            nx = []
            for s in states:
                for s2, t in self.ev(a, s):
                    nx.append(s2)
                    ex = ('exc', base_type(a.get('t', '')))
            states = nx
        for s in states:
            s.exc = ex
            self.emit(s, 'throw', e, val=ex)
            self.thrown.append(s)
        return []

    def e_lambda(self, e, st, target, discard):
        key = ('lambda',) + self.site(e)
        self.lambdas[key] = (e, self.frame)
        # by-value captures with initialisers
        for cp in e.get('cap', []):
            if cp.get('init') is not None:
                r = self.ev(cp['init'], st)
                if r:
                    st = r[0][0]
                    self.frame.vars.add(cp['id'])
                    st.store[L(('v', self.frame.fid, cp['id'], cp.get('name', '')))] = r[0][1]
        return [(st, key)]

    def e_new(self, e, st, target, discard):
        states = [(st, None)]
        if e.get('size') is not None:
            states = self.ev(e['size'], st)
        out = []
        for s2, n in states:
            t = ('new', self.site(e), e.get('at'))
            loc = L(('*', t))
            if e.get('init') is not None and not e.get('arr'):
                for s3, v in self.ev(e['init'], s2, target=loc):
                    if v is not None:
                        self.write(s3, loc, v, e, quiet=True)
                    self.emit(s3, 'new', e, val=t, extra=bool(e.get('arr')))
                    out.append((s3, t))
            else:
                self.emit(s2, 'new', e, val=t, extra=bool(e.get('arr')))
                out.append((s2, t))
        return out

    def e_del(self, e, st, target, discard):
        out = []
        for s2, t in self.ev(e['a'][0], st):
            self.emit(s2, 'delete', e, val=t, extra=bool(e.get('arr')))
            out.append((s2, ('void',)))
        return out

    def e_ilist(self, e, st, target, discard):
        states = [(st, ())]
        for a in e['a']:
            nx = []
            for s, ts in states:
                for s2, t in self.ev(a, s):
                    nx.append((s2, ts + (t if t is not None else ('void',),)))
            states = nx
        out = []
        for s, ts in states:
            if e.get('fields') is not None and len(e['fields']) >= len(ts) and 'initializer_list' not in e.get('t', ''):
                out.append((s, ('obj', base_type(e.get('t', '')), tuple(zip(e['fields'], ts)))))
            elif len(ts) == 1 and not e.get('t', '').endswith(']') and 'initializer_list' not in e.get('t', ''):
                out.append((s, ts[0]))
            else:
                out.append((s, ('ilist',) + ts))
        return out

    def e_opaque(self, e, st, target, discard):
        states = [(st, ())]
        for a in e.get('a') or []:
            nx = []
            for s, ts in states:
                for s2, t in self.ev(a, s):
                    nx.append((s2, ts + (t if t is not None else ('void',),)))
            states = nx
        return [(s, ('opq', e.get('cls', e['k']), self.site(e)) + ts) for s, ts in states]

    # ---------------------------------------------------------------- calls
    def args(self, e, st, pps):
        """evaluate arguments: list of (state, [('L'..)|term]) by parameter passing mode"""
        states = [(st, ())]
        for i, a in enumerate(e.get('a') or []):
            pp = pps[i] if i < len(pps) else {}
            nx = []
            for s, ts in states:
                if pp.get('ref'):
                    for s2, loc in self.lval(a, s):
                        nx.append((s2, ts + (loc,)))
                else:
                    for s2, t in self.ev(a, s):
                        if t is None:
                            t = ('void',)
                        nx.append((s2, ts + (t,)))
            states = nx
        return states

    def e_call(self, e, st, target, discard):
        out = []
        for s2, r in self.call(e, st, want='v', target=target, discard=discard):
            if r is not None and r[0] == 'L':
                if discard:
                    out.append((s2, ('void',)))
                else:
                    out.append((s2, self.read(s2, r, e)))
            else:
                out.append((s2, r))
        return out

    def valof(self, st, x, node=None):
        """argument as value term"""
        if x is not None and x[0] == 'L':
            return self.value(st, x)
        return x

    def callee_fn(self, e):
        f = self.prog.fns.get(e.get('fn'))
        if f is not None and f.get('internal') and f['file'] != self.frame.fn['file']:
            g = self.prog.fns.get('%s@%s' % (e.get('fn'), self.frame.fn['file']))
            if g is not None:
                return g
        return f

    def call(self, e, st, want='v', target=None, discard=False):
        self.stats['calls'] += 1
        r = self.models.call(e, st, want, target, discard)
        if r is not None:
            if self.throwing:
                for s2, _ in r:
                    self.fork_throw(s2, e)
            return r
        # object
        objs = [(st, None)]
        if e.get('obj') is not None:
            if e.get('arrow'):
                objs = [(s2, self.deref(t, s2, e)) for s2, t in self.ev(e['obj'], st)]
            else:
                objs = self.lval(e['obj'], st)
        elif e.get('callee') is not None:
            cal = e['callee']
            objs = []
            for s2, t in self.ev(cal, st):
                objs.append((s2, t))
        out = []
        fn = self.callee_fn(e)
        for s1, ob in objs:
            for s2, args in self.args(e, s1, e.get('pp') or []):
                if fn is not None and fn.get('body') is not None and self.inline(fn) and len(self.frames) < self.MAXDEPTH and \
                        not any(f.fn is fn for f in self.frames):
                    this = ob if (ob is not None and ob[0] == 'L') else self.frame.this
                    out += self.enter(fn, s2, this, args, e)
                else:
                    if self.throwing:
                        self.fork_throw(s2, e)
                    out += self.opaque_call(e, s2, ob, args, fn)
        return out

    def fork_throw(self, st, node):
        """the path on which the call throws, if the rule wants it"""
        what = self.throwing(node, st)
        for what in what if isinstance(what, (list, tuple)) else (what,) if what else ():
            z = st.copy()
            z.exc = ('exc', what)
            self.emit(z, 'throw', node, val=z.exc, name=what)
            self.thrown.append(z)

    def frame_id(self, node):
        key = (self.frame.fid if self.frames else 0, self.nid(node), self.itctx)
        if key not in self.fidtab:
            self.fidtab[key] = len(self.fidtab) + 1
        return self.fidtab[key]

    def enter(self, fn, st, this, args, node, outer=None):
        """inline one call; list of (state, return value or location)"""
        self.stats['functions'].add(fn['name'])
        self.stats['inlined_calls'] += 1
        self.emit(st, 'enter', node, name=fn['name'], args=args, obj=this)
        fr = Frame(self.frame_id(node), fn, this, outer)
        # clear leftovers of an earlier execution of the same frame
        for kk in [kk for kk in st.store if (kk[0] == 'r' and kk[1] == fr.fid) or (kk[0] == 'L' and kk[1][0] == 'v' and kk[1][1] == fr.fid)]:
            del st.store[kk]
        for i, p in enumerate(fn['params']):
            fr.vars.add(p['id'])
            a = args[i] if i < len(args) else ('default',)
            if p.get('ref'):
                if a[0] == 'L':
                    st.store[('r', fr.fid, p['id'])] = a
                else:
                    loc = L(('v', fr.fid, p['id'], p['name']))
                    st.store[loc] = a
            else:
                loc = L(('v', fr.fid, p['id'], p['name']))
                if a[0] == 'L':
                    a = self.read(st, a, node)
                st.store[loc] = a
        self.frames.append(fr)
        n0 = len(self.thrown)
        try:
            sts = [st]
            if fn['kind'] == 'ctor':
                sts = self.ctor_inits(fn, sts, this, node)
            o = self.exec(fn['body'], sts)
        finally:
            self.frames.pop()
        ends = []
        for s in o['n']:
            s.ret = ('void',)
            ends.append(s)
        ends += o['r']
        fid = fr.fid
        for s in ends + self.thrown[n0:]:
            keep = s.ret[1] if s.ret is not None and s.ret[0] == 'L' else None
            for kk in [kk for kk in s.store if (kk[0] == 'r' and kk[1] == fid) or
                       (kk[0] == 'L' and kk[1][0] in ('v', 't') and kk[1][1] == fid and kk[1] != keep)]:
                del s.store[kk]
        ends = self.dedupe(ends, True)
        if len(ends) > self.cap // 2:
            ends = self.merge(ends)
        out = []
        for s in ends:
            r = s.ret
            s.ret = None
            self.emit(s, 'exit', node, name=fn['name'], val=r, obj=this)
            out.append((s, r))
        return out

    def ctor_inits(self, fn, sts, this, node):
        for i in fn.get('inits', []):
            nx = []
            for s in sts:
                e = i['e']
                if i.get('field'):
                    loc = fld(this, i['field'])
                    if e is None:
                        nx.append(s)
                        continue
                    if e['k'] == 'ctor' and e.get('dflt') and e.get('triv'):
                        nx.append(s)
                        continue
                    for s2, t in self.ev(e, s, target=loc):
                        if t is not None:
                            self.write(s2, loc, t, e, extra='ctorinit')
                        nx.append(s2)
                elif i.get('deleg') or i.get('base'):
                    for s2, t in self.ev(e, s, target=this):
                        if t is not None and i.get('deleg'):
                            self.write(s2, this, t, e, extra='ctorinit')
                        nx.append(s2)
                else:
                    nx.append(s)
            sts = nx
        return sts

    def opaque_call(self, e, st, ob, args, fn=None):
        name = e.get('name', '?')
        self.stats['opaque'].add(name)
        pps = e.get('pp') or []
        vals = []
        for i, a in enumerate(args):
            if a[0] == 'L':
                self.emit(st, 'r', e, loc=a)
                vals.append(self.value(st, a))
            else:
                vals.append(a)
        obv = None
        if ob is not None and ob[0] == 'L':
            if e.get('mc') or e.get('lam'):
                self.emit(st, 'r', e, loc=ob)
            obv = self.value(st, ob)
        self.emit(st, 'call', e, name=name, args=tuple(vals), obj=ob, extra=args)
        mutating = False
        if ob is not None and ob[0] == 'L' and not e.get('mc') and not e.get('mstatic'):
            mutating = self.mutates is None or fn is None or fn.get('body') is None or self.mutates(fn)
        outrefs = []
        for i, a in enumerate(args):
            pp = pps[i] if i < len(pps) else {}
            if a[0] == 'L' and pp.get('ref') and not pp.get('cst'):
                outrefs.append((i, a))
            elif a[0] == 'addr' and pp.get('ptr') and not pp.get('pcst'):
                outrefs.append((i, a[1]))
            elif a[0] == 'new' and pp.get('ptr') and not pp.get('pcst'):
                outrefs.append((i, ('L', ('*', a), ())))
            elif self.disj and a[0] == 'init' and pp.get('ptr') and not pp.get('pcst'):
                outrefs.append((i, ('L', ('*', a), ())))
        site = self.site(e)
        if e.get('noret'):
            self.emit(st, 'abort', e)
            return []
        for i, loc in outrefs:
            self.write(st, loc, ('out', name, site, i) + ((obv,) if obv is not None else ()) + tuple(vals), e, extra='out')
        if mutating and self.precise and isinstance(mutating, frozenset) and () not in mutating:
            # only the members it may change
            for p in sorted(mutating):
                if not any(q != p and p[:len(q)] == q for q in mutating):
                    m = ('L', ob[1], ob[2] + p)
                    self.write(st, m, ('out', name, site, p, self.value(st, m)) + tuple(vals), e, extra='out')
        elif mutating:
            self.write(st, ob, ('mut', name, site, obv) + tuple(vals), e, extra='mut')
        pure = not mutating and not outrefs and (e.get('mc') or fn is None)
        if pure:
            r = ('fn', name) + ((obv,) if obv is not None else ()) + tuple(vals)
        else:
            r = ('ret', name, site) + ((obv,) if obv is not None else ()) + tuple(vals)
        if e.get('rref') and ob is not None and ob[0] == 'L':
            # reference into the object
            key = ('f', '.' + e.get('sn', '?') + (" ".join(show(x) for x in vals) if vals else ''))
            return [(st, sub(ob, key))]
        return [(st, r)]

    # constructors -------------------------------------------------------------
    def e_ctor(self, e, st, target, discard):
        r = self.models.ctor(e, st, target, discard)
        if self.throwing:
            for s2, _ in r or [(st, None)]:
                self.fork_throw(s2, e)
        if r is not None:
            return r
        cls = e['cls']
        fn = self.prog.fns.get(e.get('fn'))
        pps = e.get('pp') or []
        if (e.get('copy') or e.get('move')) and len(e['a']) >= 1:
            if not (fn is not None and fn.get('body') is not None and not fn.get('defaulted') and self.inline(fn)):
                # memberwise copy
                out = []
                for s2, loc in self.lval(e['a'][0], st):
                    out.append((s2, self.read(s2, loc, e)))
                return out
            if e.get('elid') and e['a'][0]['k'] in ('call', 'ctor', 'ilist', 'cond', 'cast'):
                return self.ev(e['a'][0], st, target=target)
        if fn is not None and fn.get('body') is not None and self.inline(fn) and len(self.frames) < self.MAXDEPTH and \
                not any(f.fn is fn for f in self.frames):
            out = []
            inplace = target is not None
            tl = target or L(('t',) + self.site(e))
            for s2, args in self.args(e, st, pps):
                for kk in [kk for kk in s2.store if kk[0] == 'L' and is_prefix(tl, kk)]:
                    del s2.store[kk]
                s2.store[tl] = ('fresh', cls)
                for s3, _ in self.enter(fn, s2, tl, args, e):
                    out.append((s3, None if inplace else self.value(s3, tl)))
            return out
        out = []
        for s2, args in self.args(e, st, pps):
            vals = []
            for i, a in enumerate(args):
                if a[0] == 'L':
                    self.emit(s2, 'r', e, loc=a)
                    vals.append(self.value(s2, a))
                else:
                    vals.append(a)
            self.emit(s2, 'call', e, name=cls + '::ctor', args=tuple(vals), extra=args)
            if e.get('dflt') and not vals:
                rec = self.prog.records.get(cls)
                if rec is not None and not any(m.get('dflt') and not m.get('implicit') and not m.get('defaulted') for m in rec['methods']):
                    s3s = [s2]
                    flds = []
                    for f in rec['fields']:
                        if f.get('init') is not None:
                            nx = []
                            val = None
                            for s4 in s3s:
                                for s5, t in self.ev(f['init'], s4):
                                    nx.append(s5)
                                    val = t
                            s3s = nx
                            flds.append((f['name'], val))
                        elif f['t'].startswith('std::') and not f['t'].startswith(('std::array', 'std::atomic')):
                            flds.append((f['name'], self.models.default_value(f['t'])))
                        elif f.get('scalar'):
                            flds.append((f['name'], c(0) if e.get('zero') else ('undef', f['name'])))
                    for s4 in s3s:
                        out.append((s4, ('obj', cls, tuple(flds))))
                    continue
                out.append((s2, ('fresh', cls)))
                continue
            out.append((s2, ('ctor', cls) + tuple(vals)))
        return out

    # ---------------------------------------------------------------- entry point
    def run(self, fn, this=None, args=None, init=None, dtor=False):
        """analyse fn from an arbitrary state; returns list of (state, ret) of normal exits and the thrown states"""
        self.thrown = []
        self.scopes = []
        st = init or State()
        this = this or L(('this',))
        fr = Frame(self.frame_id(fn), fn, this)
        for i, p in enumerate(fn['params']):
            fr.vars.add(p['id'])
            if args and i < len(args) and args[i] is not None:
                a = args[i]
                if p.get('ref') and a[0] == 'L':
                    st.store[('r', fr.fid, p['id'])] = a
                else:
                    st.store[L(('v', fr.fid, p['id'], p['name']))] = a
                continue
            ploc = L(('p', p['name'] or '#%d' % i))
            if p.get('ref'):
                st.store[('r', fr.fid, p['id'])] = ploc
            else:
                st.store[L(('v', fr.fid, p['id'], p['name']))] = ('init', ploc)
        self.stats['functions'].add(fn['name'])
        self.frames.append(fr)
        try:
            sts = [st]
            if fn['kind'] == 'ctor':
                sts = self.ctor_inits(fn, sts, this, fn)
            o = self.exec(fn['body'], sts)
            ends = []
            for s in o['n']:
                s.ret = ('void',)
                ends.append(s)
            ends += o['r']
            for s in ends:
                self.emit(s, 'end', None)
            for s in self.thrown:
                self.emit(s, 'endthrow', None)
        finally:
            self.frames.pop()
        return self.dedupe(ends), self.dedupe(self.thrown)
