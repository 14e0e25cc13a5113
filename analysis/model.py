"""Evaluation of symbolic summaries over small finite domains.

A summary (the value a function leaves in its result, with loops as folds) is a term over the inputs and over opaque calls.
Model.ev interprets such a term when the inputs range over a finite domain (orderings of a few candidates, a few sizes);
None means that the term is not determined by the domain, which callers treat as a deviation from the specification."""
import itertools
import math
from terms import *

BIG = 1e300
LIMITS = {'std::numeric_limits<double>::max': BIG, 'std::numeric_limits<double>::lowest': -BIG,
          'std::numeric_limits<double>::infinity': float('inf'), 'std::numeric_limits<double>::min': 2.2e-308,
          'std::numeric_limits<double>::epsilon': 2.2e-16, 'std::numeric_limits<float>::max': 3.4e38,
          'std::numeric_limits<float>::lowest': -3.4e38, 'std::numeric_limits<double>::quiet_NaN': None}


class Vec(list):
    """a vector with arithmetic"""

    def __add__(self, o):
        return Vec(a + b for a, b in self.zip(o))

    def __sub__(self, o):
        return Vec(a - b for a, b in self.zip(o))

    def __mul__(self, k):
        if isinstance(k, list):
            raise TypeError
        return Vec(a * k for a in self)
    __rmul__ = __mul__

    def __truediv__(self, k):
        return Vec(a / k for a in self)

    def zip(self, o):
        if not isinstance(o, Vec) or len(o) != len(self):
            raise TypeError
        return zip(self, o)


class Model:
    """look(t, ev) -> (True, value) for inputs and opaque calls, None otherwise"""

    def __init__(self, I, look, less=None):
        self.I, self.look = I, look
        self.less = less or (lambda a, b: a < b)
        self.memo = {}

    # environment: {('ix', lid): n, ('lv', lid, m): value}
    def ev(self, t, env=None, d=0):
        t = mk(t)
        env = env or {}
        if d > 300:
            return None
        key = None
        if not env:
            key = t
            if key in self.memo:
                return self.memo[key]
        v = self.ev1(t, env, d)
        if key is not None:
            self.memo[key] = v
        return v

    def ev1(self, t, env, d):
        h = t[0]
        if h == 'c':
            return t[1]
        if t in env:
            return env[t]
        r = self.look(t, lambda x: self.ev(x, env, d + 1))
        if r is not None:
            return r[1]
        E = lambda x: self.ev(x, env, d + 1)
        if h == 'op':
            a = E(t[2])
            if a is None:
                return None
            b = E(t[3])
            if b is None:
                return None
            try:
                o = t[1]
                if o == '<':
                    return self.less(a, b)
                if o == '==':
                    return a == b
                if o == '+':
                    return a + b
                if o == '-':
                    return a - b
                if o == '*':
                    return a * b
                if o == '/':
                    return a / b
                if o == '&&':
                    return bool(a) and bool(b)
                if o == '||':
                    return bool(a) or bool(b)
                if o in ('&', '|', '^', '%', '>>', '<<'):
                    a, b = int(a), int(b)
                    return a & b if o == '&' else a | b if o == '|' else a ^ b if o == '^' else a % b if o == '%' and b > 0 <= a else None
            except Exception:
                return None
            return None
        if h == 'not':
            a = E(t[1])
            return None if a is None else not a
        if h == 'neg':
            a = E(t[1])
            return None if a is None else -a
        if h == 'fn':
            n = t[1]
            if n in LIMITS:
                return LIMITS[n]
            if n in ('min', 'max') and len(t) == 4:
                a, b = E(t[2]), E(t[3])
                if a is None or b is None:
                    return None
                try:
                    return (b if self.less(b, a) else a) if n == 'min' else (b if self.less(a, b) else a)
                except Exception:
                    return None
            args = [E(x) for x in t[2:]]
            if any(x is None for x in args):
                return None
            try:
                b = n.split('::')[-1]
                if n == 'Eigen.head':
                    return Vec(args[0][:args[1]]) if 0 <= args[1] <= len(args[0]) else None
                if n == 'Eigen.tail':
                    return Vec(args[0][len(args[0]) - args[1]:]) if 0 <= args[1] <= len(args[0]) else None
                if n == 'Eigen.segment':
                    return Vec(args[0][args[1]:args[1] + args[2]]) if 0 <= args[1] and args[1] + args[2] <= len(args[0]) else None
                if n.startswith('trunc:'):
                    return math.trunc(args[0])
                if b in ('abs', 'fabs'):
                    return abs(args[0])
                if b == 'sqrt':
                    return math.sqrt(args[0])
                if b == 'pow':
                    return math.pow(args[0], args[1])
                if b == 'iota' and len(args) == 2:
                    return [args[1] + i for i in range(len(args[0]))]
                if n in ('Eigen.size', 'Eigen.rows') or b == 'size':
                    return len(args[0])
                if b == 'imag':
                    return args[0].imag
                if b == 'real':
                    return args[0].real
                if n in ('Eigen.norm',):
                    return math.sqrt(sum(x * x for x in args[0]))
                if n in ('Eigen.squaredNorm',):
                    return sum(x * x for x in args[0])
            except Exception:
                return None
            return None
        if h == 'size':
            a = E(t[1])
            return len(a) if isinstance(a, (list, tuple)) else None
        if h == 'obj' and len(t) == 3:
            return {n: E(v) for n, v in t[2]}
        if h == 'empty':
            return []
        if h == 'push':
            a, b = E(t[1]), E(t[2])
            return None if not isinstance(a, list) or b is None else a + [b]
        if h == 'append':
            a, b = E(t[1]), E(t[2])
            return a + b if isinstance(a, list) and isinstance(b, list) else None
        if h == 'at' and t[2][0] == 'view':
            a = E(t[1])
            r = vrange(t[2], a, E)
            return Vec(a[r[0]:r[1]]) if r else None
        if h == 'at':
            a, b = E(t[1]), E(t[2])
            try:
                return a[b] if b >= 0 else None
            except Exception:
                return None
        if h == 'fld':
            a = E(t[1])
            return a.get(t[2]) if isinstance(a, dict) else None
        if h == 'fresh':
            return {}
        if h == 'resized':
            a, n = E(t[1]), E(t[2])
            if n is None:
                return None
            a = list(a)[:n] if isinstance(a, (list, tuple)) else []
            return a + [{}] * (n - len(a))
        if h == 'sized':
            n = E(t[2])
            return None if n is None else [E(t[1])] * n
        if h == 'zero' and len(t) == 1:
            return 0
        if h in ('zeros',):
            n = E(t[1])
            return None if n is None else Vec([0] * n)
        if h == 'cases':
            out = []
            for f, v in t[1:]:
                r = self.holds(f, env, d)
                if r is not False:
                    x = E(v)
                    if x not in out:
                        out.append(x)
            return out[0] if len(out) == 1 else None
        if h == 'with':
            return self.with_(t, env, d)
        if h == 'fold':
            return self.fold(t, env, d)
        if h == 'lv' and len(t) == 3:
            m = t[2]
            parts = {}
            for k, v in env.items():
                if k[0] == 'lv' and k[1] == t[1] and k[2][1] == m[1]:
                    n = len(k[2][2])
                    if m[2][:n] == k[2][2]:
                        return walk(v, m[2][n:], E)
                    if k[2][2][:len(m[2])] == m[2] and n == len(m[2]) + 1 and k[2][2][-1][0] == 'f':
                        parts[k[2][2][-1][1]] = v
            return parts or None
        return None

    def none_hits(self, lid, env, d):
        """no element of the searched range satisfies the predicate"""
        info = self.I.loops.get(lid) or {}
        n = self.ev(info['trip'], env, d + 1) if info.get('trip') is not None else None
        if 'hits' not in info or not isinstance(n, int) or n > 40:
            return None
        rs = [self.holds(h, dict(env, **{}) | {mk(('ix', lid)): k}, d + 1) for k in range(n) for h in info['hits']]
        return False if True in rs else None if None in rs else True

    def holds(self, facts, env=None, d=0):
        """True / False; None when a fact is not determined and no other is false"""
        unk = False
        for t, b in facts:
            if b == 'sym' or t[0] in ('sym',):
                continue
            if t[0] == 'anyof':
                rs = [self.holds(x, env, d + 1) for x in t[1:]]
                if all(r is False for r in rs):
                    return False
                unk |= not any(rs)
                continue
            if t[0] == 'noelem':
                r = self.none_hits(t[1], env or {}, d)
                if r is not None and r != bool(b):
                    return False
                unk |= r is None
                continue
            v = self.ev(t, env, d + 1)
            if v is None:
                if not ignorable(t):
                    unk = True
            elif bool(v) != bool(b):
                return False
        return None if unk else True

    def trips(self, lid, env, d):
        info = self.I.loops.get(lid) or {}
        ns = set()
        if info.get('range') is not None:
            for x in info.get('rangevals') or [info['rangeval']]:
                a = self.ev(x, env, d + 1)
                if isinstance(a, (list, tuple)):
                    ns.add(len(a))
        else:
            # (earlier visits of an inner loop leave trip counts in provisional terms)
            ns = {self.ev(x, env, d + 1) for x in info.get('trips') or () if x is not None} - {None}
        if len(ns) != 1:
            return None
        return max(0, ns.pop())

    def why(self, t, env=None, d=0, out=None):
        return whynot(self, t, env)

    def fold(self, t, env, d):
        _, lid, m, base, step = t
        n = self.trips(lid, env, d)
        if n is None:
            return None
        folds = {k: mk(v) for k, v in ((self.I.loops.get(lid) or {}).get('folds') or {}).items()}
        folds[m] = t
        key = ('run', lid, tuple(sorted((serial(k), repr(v)) for k, v in env.items() if k[1] != lid)))
        # all variables of the loop advance together
        state = {}
        for k, f in folds.items():
            if f[0] == 'fold':
                state[mk(('lv', lid, k))] = self.ev(f[3], env, d + 1)
        for i in range(n):
            e = dict(env)
            e[mk(('ix', lid))] = i
            e.update({k: v for k, v in state.items() if v is not None})
            new = {}
            for k, f in folds.items():
                if f[0] == 'fold':
                    new[mk(('lv', lid, k))] = self.ev(f[4], e, d + 1)
            state = new
        return state.get(mk(('lv', lid, m)))

    def with_(self, t, env, d):
        base = self.ev(t[1], env, d + 1)
        out = dict(base) if isinstance(base, dict) else list(base) if isinstance(base, (list, tuple)) else None
        for steps, v in sorted(t[2], key=lambda x: (len(x[0]), serial(mk(x[0])))):
            if out is None:
                out = {} if steps[0][0] == 'f' else None
                if out is None:
                    return None
            out = self.put(out, steps, v, env, d)
            if out is None:
                return None
        return out

    def put(self, obj, steps, v, env, d):
        s = steps[0]
        if s[0] == 'f':
            o = dict(obj) if isinstance(obj, dict) else {}
            o[s[1]] = self.ev(v, env, d + 1) if len(steps) == 1 else self.put(o.get(s[1]), steps[1:], v, env, d)
            return o
        if not isinstance(obj, (list, dict)) or isinstance(obj, dict) and '#elements' in obj:
            # elements of something not known as a whole
            k = self.ev(s[1], env, d + 1) if s[0] == 'e' and s[1][0] not in ('all', 'view') and len(steps) == 1 else None
            return None if k is None else dict(obj if isinstance(obj, dict) else {'#elements': obj}, **{str(k): self.ev(v, env, d + 1)})
        if not isinstance(obj, list):
            return None
        ix = s[1]
        if ix[0] == 'all':
            n = self.trips(ix[1], env, d)
            if n is None or n > len(obj):
                return None
            o = list(obj)
            for i in range(n):
                e = dict(env)
                e[mk(('ix', ix[1]))] = i
                o[i] = self.ev(v, e, d + 1) if len(steps) == 1 else self.put(o[i], steps[1:], v, e, d)
            return o
        if ix[0] == 'view':
            r = vrange(ix, obj, lambda x: self.ev(x, env, d + 1))
            if r is None or len(steps) != 1:
                return None
            x = self.ev(v, env, d + 1)
            if x == 0 and not isinstance(x, (list, bool)):
                x = Vec([0] * (r[1] - r[0]))
            if not isinstance(x, list) or len(x) != r[1] - r[0]:
                return None
            return type(obj)(obj[:r[0]] + x + obj[r[1]:])
        k = self.ev(ix, env, d + 1)
        if not isinstance(k, int) or not 0 <= k < len(obj):
            return None
        o = list(obj)
        o[k] = self.ev(v, env, d + 1) if len(steps) == 1 else self.put(o[k], steps[1:], v, env, d)
        return o


def vrange(ix, obj, ev):
    """elements [lo, hi) of a view"""
    if not isinstance(obj, list):
        return None
    n, a = ix[1], [ev(x) for x in ix[3:]]
    if any(not isinstance(x, int) for x in a):
        return None
    lo, hi = {('head', 1): lambda: (0, a[0]), ('topRows', 1): lambda: (0, a[0]), ('tail', 1): lambda: (len(obj) - a[0], len(obj)),
              ('bottomRows', 1): lambda: (len(obj) - a[0], len(obj)), ('segment', 2): lambda: (a[0], a[0] + a[1]),
              ('middleRows', 2): lambda: (a[0], a[0] + a[1])}.get((n, len(a)), lambda: (-1, -1))()
    return (lo, hi) if 0 <= lo <= hi <= len(obj) else None


def walk(obj, steps, ev):
    """the part of a domain object named by location steps"""
    for s in steps:
        if s[0] == 'f':
            if not isinstance(obj, dict) or s[1] not in obj:
                return None
            obj = obj[s[1]]
        elif s[0] == 'e' and s[1][0] == 'view':
            r = vrange(s[1], obj, ev)
            if r is None:
                return None
            obj = Vec(obj[r[0]:r[1]])
        elif s[0] == 'e':
            k = ev(s[1])
            if not isinstance(k, int) or not isinstance(obj, (list, tuple)) or not 0 <= k < len(obj):
                return None
            obj = obj[k]
        else:
            return None
    return obj


def inputs(objs):
    """look function for locations: objs maps roots ('this', ('p', name), ...) to domain objects"""
    def look(t, ev):
        if t[0] == 'init' and t[1][0] == 'L':
            root, steps = t[1][1], t[1][2]
            key = root
            if root[0] == '*' and root[1][0] == 'init' and root[1][1][0] == 'L' and root[1][1][2] == ():
                key = root[1][1][1]
            if key == ('this',):
                key = 'this'
            if key in objs:
                return (True, walk(objs[key], steps, ev))
            if root[0] == '*':
                # pointers are represented by what they point to
                o = ev(root[1])
                return (True, walk(o, steps, ev) if o is not None else None)
        return None
    return look


def ignorable(t):
    """facts about addresses, logging and stream states decide nothing"""
    if t[0] == 'op' and t[1] == '==' and any(x == ('null',) for x in t[2:]):
        return True
    return False


def whynot(M, t, env=None):
    """development aid: smallest subterms without a value"""
    hits = []
    ev = M.ev1

    def ev1(x, e, d):
        n = len(hits)
        v = ev(x, e, d)
        if v is None and len(hits) == n:
            hits.append(x)
        return v
    M.ev1 = ev1
    M.memo = {}
    M.ev(t, env)
    M.ev1 = ev
    return hits
