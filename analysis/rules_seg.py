"""C18: derived segments and trajectories. The coefficients of the result are read symbolically at dimension #i and
order #k; in every relative situation of sizes and times (a finite set of worlds) the reading that applies is compared
with what reparametrisation requires: coefficient[k] * new_time^k = source[k] * old_time^k."""
import loader
from loader import AnalysisError
from terms import *
from lib import *
from algebra import poly, peq, padd, pmul, pconst
from rules_traj import traj_inline, loop_full

IX, KX = mk(('s', '#i')), mk(('s', '#k'))
JX = mk(('s', '#j'))


def par_obj(f, n):
    for p in f['params']:
        if p['name'] == n:
            return L(('*', ('init', L(('p', n))))) if p['t'].replace(' ', '').endswith('*') else L(('p', n))
    raise AnalysisError('anchor vanished: parameter %s of %s' % (n, f['name']))


def param(f, pred, what):
    for p in f['params']:
        if pred(p['t'].replace(' ', '')):
            return p['name']
    raise AnalysisError('anchor vanished: %s of %s' % (what, f['name']))


class Reader:
    """reads elements of container values as lists of (conditions, value)"""

    def __init__(self, I):
        self.I = I

    def at_iteration(self, v, lid, k):
        """v, written by iteration ix of the loop, for iteration k"""
        return self.I.at_ix(v, {('ix', lid): k})

    def proj(self, t, step, d=0):
        t = mk(t)
        I = self.I
        if d > 40:
            return [((), ('?', t))]
        h = t[0]
        if h == 'cases':
            out = []
            for f, v in t[1:]:
                out += [(tuple(f) + g, x) for g, x in self.proj(v, step, d + 1)]
            return out
        if h == 'phi':
            return [r for v in t[1] for r in self.proj(v, step, d + 1)]
        if h == 'with':
            under, hit, views = [], None, []
            for steps, v in t[2]:
                s0 = steps[0]
                if s0 == step:
                    if len(steps) == 1:
                        hit = v
                    else:
                        under.append((steps[1:], v))
                elif s0[0] == 'e' and step[0] == 'e':
                    ix = s0[1]
                    if ix[0] == 'all':
                        vv = self.at_iteration(v, ix[1], step[1])
                        rest = tuple(('e', self.at_iteration(x[1], ix[1], step[1])) if x[0] == 'e' and x[1][0] != 'all' else x for x in steps[1:])
                        n = self.trips(ix[1], t[1])
                        if n is not None and step[1] not in (n, ('ix', ix[1])):
                            # only the first n elements are written
                            views.append((('first', n, rest), vv))
                        elif not rest:
                            hit = vv
                        else:
                            under.append((rest, vv))
                    elif ix[0] == 'part':
                        it, cs = I.in_part(ix, step[1])
                        m = {('ix', ix[1]): it}
                        views.append((('when', cs, tuple(('e', I.at_ix(x[1], m)) if x[0] == 'e' and x[1][0] not in ('all', 'part') else x for x in steps[1:])), I.at_ix(v, m)))
                    elif ix[0] == 'view' and len(steps) == 1:
                        views.append((ix, v))
                    else:
                        views.append((('one', ix, steps[1:]), v))
            base = [((), hit)] if hit is not None else self.proj(t[1], step, d + 1)
            out = []
            for f, b in base:
                out.append((f, ('with', b, tuple(sorted(under, key=serial))) if under else b))
            for ix, v in views:
                out = self.view(ix, v, step[1], out, d, t)
            # a whole value that is itself a choice
            res = []
            for f, x in out:
                res += self.split(f, x)
            return res
        if h == 'eig' and t[1] in ('conservativeResize',) and step[0] == 'e' and len(t) >= 4:
            return self.proj(t[2], step, d + 1)
        if h in ('zeros', 'zero') and step[0] == 'e':
            return [((), c(0))]
        if h == 'fn' and t[1] in ('Eigen.head', 'Eigen.topRows') and step[0] == 'e':
            return self.proj(t[2], step, d + 1)
        if h == 'fn' and t[1] == 'Eigen.Constant' and step[0] == 'e' and len(t) == 4:
            return [((), t[3])]
        if h == 'op' and step[0] == 'e' and t[1] in ('+', '-'):
            return [(f + g, op(t[1], x, y)) for f, x in self.proj(t[2], step, d + 1) for g, y in self.proj(t[3], step, d + 1)]
        if h == 'init' and t[1][2] and t[1][2][-1][0] == 'e' and t[1][2][-1][1][0] == 'view' and step[0] == 'e':
            v = t[1][2][-1][1]
            if v[1] in ('head', 'topRows'):
                return [((), ('init', L(t[1][1], t[1][2][:-1] + (step,))))]
            if v[1] == 'segment':
                return [((), ('init', L(t[1][1], t[1][2][:-1] + (('e', op('+', v[3], step[1])),))))]
            return [((), ('?', t))]
        return self.split((), I.proj(t, step))

    def split(self, f, x, d=0):
        x = mk(x)
        if x[0] == 'cases' and d < 12:
            return [r for g, v in x[1:] for r in self.split(f + tuple(g), v, d + 1)]
        if x[0] == 'phi' and d < 12:
            return [r for v in x[1] for r in self.split(f, v, d + 1)]
        return [(f, x)]

    def trips(self, lid, t):
        """number of elements the loop writes; None: all of them"""
        t = mk(t)
        while t[0] == 'with':
            t = t[1]
        info = self.I.loops.get(lid) or {}
        if loop_full(self.I, lid):
            return None
        ts = [x for x in info.get('trips') or () if x is not None]
        if not ts or size(t) in ts:
            return None
        return ts[0]

    def view(self, ix, v, k, base, d, whole=None):
        if ix[0] == 'when':
            cs = ix[1]
            out = []
            if ix[2]:
                out += [(f + cs, ('with', b, ((ix[2], v),)) if b[0] != 'with' else ('with', b[1], tuple(sorted(b[2] + ((ix[2], v),), key=serial)))) for f, b in base]
            else:
                out.append((cs, v))
            for n in range(len(cs)):
                out += [(f + cs[:n] + ((cs[n][0], not cs[n][1]),), b) for f, b in base]
            return out
        if ix[0] == 'first':
            here = op('<', k, ix[1])
            if ix[2]:
                return [(f + ((here, True),), ('with', b, ((ix[2], v),)) if b[0] != 'with' else ('with', b[1], tuple(sorted(b[2] + ((ix[2], v),), key=serial)))) for f, b in base] + \
                    [(f + ((here, False),), b) for f, b in base]
            return [(((here, True),), v)] + [(f + ((here, False),), b) for f, b in base]
        if ix[0] == 'one':
            here = op('==', ix[1], k)
            if ix[2]:
                return [(f + ((here, True),), ('with', b, ((ix[2], v),))) for f, b in base] + [(f + ((here, False),), b) for f, b in base]
            return [((here, True),) + g for g in ()] + [(((here, True),), v)] + [(f + ((here, False),), b) for f, b in base]
        n = ix[1]
        args = ix[3:]
        if n in ('head', 'topRows') and len(args) == 1:
            lo, hi = c(0), args[0]
        elif n in ('segment', 'middleRows') and len(args) == 2:
            lo, hi = args[0], op('+', args[0], args[1])
        elif n in ('tail', 'bottomRows') and len(args) == 1 and whole is not None:
            lo, hi = op('-', vsize(whole), args[0]), vsize(whole)
        elif n in ('block',) and len(args) == 4:
            lo, hi = args[0], op('+', args[0], args[2])
        else:
            return base + [((), ('?', v))]
        inside = ((op('<', k, lo), False), (op('<', k, hi), True))
        out = [(inside + f, x) for f, x in self.proj(v, ('e', op('-', k, lo) if lo != c(0) else k), d + 1)]
        for f, b in base:
            out.append((f + ((op('<', k, hi), False),), b))
            if lo != c(0):
                out.append((f + ((op('<', k, lo), True),), b))
        return out

    def get(self, t, *steps):
        rs = [((), mk(t))]
        for s in steps:
            rs = [(f + g, x) for f, v in rs for g, x in self.proj(v, s)]
        return rs

    def coef(self, seg, i=IX, k=KX):
        return self.get(seg, ('f', 'polynomials_'), ('e', i), ('f', 'coefficients_'), ('e', k))


class World:
    """numbers for sizes and times; look maps an atom to the name of a number"""

    def __init__(self, look, w):
        self.look, self.w = look, w

    def num(self, t, d=0):
        t = mk(t)
        if d > 40:
            return None
        if isc(t):
            return t[1] if isinstance(t[1], (int, float)) else None
        if t == IX or t == KX:
            return self.w.get('i' if t == IX else 'k')
        n = self.look(t)
        if n is not None:
            return self.w.get(n) if isinstance(n, str) else n
        if t[0] == 'op':
            a, b = self.num(t[2], d + 1), self.num(t[3], d + 1)
            if a is None or b is None:
                return None
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '<': lambda: a < b, '==': lambda: a == b}[t[1]]()
            except (KeyError, ZeroDivisionError):
                return None
        if t[0] == 'not':
            a = self.num(t[1], d + 1)
            return None if a is None else not a
        if t[0] == 'neg':
            a = self.num(t[1], d + 1)
            return None if a is None else -a
        if t[0] == 'fn' and t[1] in ('min', 'max') and len(t) == 4:
            a, b = self.num(t[2], d + 1), self.num(t[3], d + 1)
            return None if a is None or b is None else (min if t[1] == 'min' else max)(a, b)
        return None

    def holds(self, facts):
        for t, b in facts:
            if b == 'sym' or t[0] in ('sym',):
                continue
            if t[0] == 'anyof':
                if not any(self.holds(x) for x in t[1:]):
                    return False
                continue
            r = self.num(t)
            if r is not None and bool(r) != bool(b):
                return False
        return True


def power(p, k, e=1):
    """p^k for a symbolic k as a polynomial in atoms #pw, when p is a monomial"""
    x = poly(k)
    if len(x) != 1 or () in x or list(x.values()) != [1]:
        out = {(): 1}
        for m, v in x.items():
            if v != int(v):
                break
            if m == ():
                if len(p) != 1:
                    break
                (pm, pv), = p.items()
                n = int(v) * e
                out = pmul(out, {tuple((a, b * n) for a, b in pm): pv ** n})
            elif len(m) == 1 and m[0][1] == 1:
                out = pmul(out, power(p, m[0][0], int(v) * e))
            else:
                break
        else:
            return out
    if len(p) != 1:
        return {((mk(('#pw', tuple(sorted(p.items(), key=lambda z: serial(mk(('m',) + tuple(a for a, _ in z[0]))))), k)), e),): 1}
    (m, v), = p.items()
    out = {(): 1}
    for a, n in m:
        out = pmul(out, {((mk(('#pw', a, k)), n * e),): 1})
    if v != 1:
        out = pmul(out, {((mk(('#pw', c(v), k)), e),): 1})
    return out


class Value:
    """polynomial normal form of a value in a world: max/min resolved, running powers recognised"""

    def __init__(self, I, W, same=None):
        self.I, self.W, self.same = I, W, same or {}

    def atom(self, x):
        if x in self.same:
            return {((self.same[x], 1),): 1}
        if x[0] == 'cases':
            # the one case that holds in this world, when that is known of every case
            rs = [[self.W.num(t) == b for t, b in g if self.W.num(t) is not None] + [None] * any(self.W.num(t) is None for t, b in g)
                  for g, _ in x[1:]]
            on = [i for i, r in enumerate(rs) if False not in r]
            return poly(x[1 + on[0]][1], self.atom) if len(on) == 1 and None not in rs[on[0]] else None
        if x[0] == 'fn' and x[1] in ('min', 'max') and len(x) == 4:
            a, b = self.W.num(x[2]), self.W.num(x[3])
            if a is not None and b is not None:
                y = x[2] if (a <= b) == (x[1] == 'min') else x[3]
                return poly(y, self.atom)
            return None
        if x[0] in ('fn',) and x[1] == 'pow' and len(x) == 4 and not isc(x[3]):
            e = poly(x[3])
            # whole multiples and sums of symbolic exponents
            out = {(): 1}
            b = poly(x[2], self.atom)
            for m, v in e.items():
                if m == ():
                    for _ in range(abs(int(v))):
                        q = b if v > 0 else poly(op('/', c(1), x[2]), self.atom)
                        out = pmul(out, q)
                elif len(m) == 1 and m[0][1] == 1 and v == int(v):
                    out = pmul(out, power(b, m[0][0], int(v)))
                else:
                    return None
            return out
        if x[0] == 'lvat':
            f = (self.I.loops.get(x[1]) or {}).get('folds') or {}
            g = f.get(x[2])
            if g is None:
                return None
            g = mk(g)
            lv = mk(('lv', x[1], x[2]))
            base, step = g[3], g[4]
            if step[0] in ('cases', 'phi'):
                return None
            p = poly(step, self.atom)
            q = pmul(p, {((lv, -1),): 1})
            if any(contains(a, lambda y: len(y) > 1 and y[0] in ('lv', 'ix') and y[1] == x[1]) for m in q for a, _ in m):
                # running sum 1, 2, 3 ...: base + index
                r = padd(p, {((lv, 1),): 1}, -1)
                if pconst(r) == 1:
                    return padd(poly(base, self.atom), poly(x[3], self.atom))
                return None
            return pmul(poly(base, self.atom), power(q, x[3]))
        return None

    def of(self, t):
        return self.concrete(poly(t, self.atom))

    def concrete(self, p):
        """powers with an exponent that is a number in this world"""
        out = {}
        for m, v in p.items():
            q = {(): v}
            for a, n in m:
                e = self.W.num(a[2]) if a[0] == '#pw' else None
                if e == 0:
                    continue
                if e is not None and e == int(e) and isinstance(a[1], tuple) and isinstance(a[1][0], str):
                    if isc(a[1]):
                        q = {k: x * a[1][1] ** (e * n) for k, x in q.items()}
                        continue
                    q = pmul(q, {((a[1], int(e) * n),): 1})
                    continue
                q = pmul(q, {((a, n),): 1})
            out = padd(out, q)
        return out


def bare(t):
    """the vector whose elements were assigned: same size"""
    while t[0] == 'with':
        t = t[1]
    return t


def vsize(t):
    """number of elements of a vector value, as a term"""
    t = bare(mk(t))
    if t[0] == 'zeros' and len(t) >= 2:
        return t[1]
    if t[0] == 'resized' and len(t) >= 3:
        return t[2]
    if t[0] == 'ctor' and len(t) == 3 and 'Eigen::Matrix' in str(t[1]):
        return t[2]
    if t[0] == 'fn' and t[1] == 'Eigen.Constant' and len(t) == 4:
        return t[2]
    return mk(('fn', 'Eigen.size', t))


def looker(owners):
    """owners: list of (location of a segment, suffix); atoms of a segment -> names of numbers"""
    def look(t):
        if t[0] == 'init':
            l = t[1]
            for o, s in owners:
                if o[1] == l[1] and l[2][:len(o[2])] == o[2]:
                    r = l[2][len(o[2]):]
                    if len(r) == 1 and r[0][0] == 'f' and r[0][1] in ('D_', 'N_', 'time_'):
                        return r[0][1] + s
                    if len(r) == 3 and r[0] == ('f', 'polynomials_') and r[2] == ('f', 'N_'):
                        return 'N_' + s
        if t[0] in ('size', 'fn') and (t[0] == 'size' or t[1] in ('Eigen.size', 'Eigen.rows')) and bare(t[-1])[0] == 'init':
            l = bare(t[-1])[1]
            for o, s in owners:
                if o[1] == l[1] and l[2][:len(o[2])] == o[2]:
                    r = l[2][len(o[2]):]
                    if r == (('f', 'polynomials_'),):
                        return 'D_' + s
                    if len(r) == 3 and r[0] == ('f', 'polynomials_') and r[2] == ('f', 'coefficients_'):
                        return 'N_' + s
        return None
    return look


def segment_look(own):
    """atoms of any segment of this trajectory are those of segment #j"""
    def look(t):
        if t[0] == 'init' and t[1][1] == THIS[1] and len(t[1][2]) >= 2 and t[1][2][0] == ('f', 'segments_') and t[1][2][1][0] == 'e':
            t = mk(('init', L(t[1][1], (t[1][2][0], ('e', JX)) + t[1][2][2:])))
        elif t[0] in ('fn', 'size') and len(t) > 1 and isinstance(t[-1], tuple) and bare(t[-1])[:1] == ('init',):
            t = t[:-1] + (bare(t[-1]),)
            l = t[-1][1]
            if l[1] == THIS[1] and l[2][:1] == (('f', 'segments_'),) and len(l[2]) > 2 and l[2][1][0] == 'e':
                t = mk(t[:-1] + (('init', L(l[1], (l[2][0], ('e', JX)) + l[2][2:])),))
        return own(t)
    return look


def worlds(spec):
    ws = [{}]
    for n, vs in spec:
        ws = [dict(w, **{n: v}) for w in ws for v in vs]
    return ws


def field(o, *names):
    return mk(('init', L(o[1], o[2] + tuple(('f', n) for n in names))))


def coef_at(o, i, k):
    return mk(('init', L(o[1], o[2] + (('f', 'polynomials_'), ('e', i), ('f', 'coefficients_'), ('e', k)))))


ROUNDS = 2      # of a loop with a constant number of rounds


class Job:
    def __init__(self, ctx, Lb, f, inline=None, opaque=(), tagger=None, cap=None):
        self.ctx, self.f = ctx, f
        self.evs, self.ends, self.thrown, self.I = Lb.run(f, inline=inline, opaque=opaque, tagger=tagger, cap=cap, disj=True, rounds=ROUNDS)
        self.R = Reader(self.I)
        self.where = '%s:%s' % (f['file'], f['l'])
        self.sn = f['name'].replace(NS, '')
        self.said = set()

    def bad(self, rule, key, msg):
        if (rule, key) not in self.said:
            self.said.add((rule, key))
            self.ctx.bad(rule, '%s:%s' % (self.sn, key), self.where, '%s %s' % (self.sn, msg))

    def ok(self, rule, key):
        self.ctx.ok(rule, '%s: %s' % (self.sn, key))

    def compare(self, rule, what, rs, facts, W, want, same, msg):
        """some reading applies in world W, and every one that applies is want"""
        n = 0
        V = Value(self.I, W, same)
        ref = V.of(want)
        for g, v in rs:
            if not W.holds(g):
                continue
            n += 1
            if not peq(V.of(v), ref):
                self.bad(rule, what, msg)
                return False
        if not n:
            self.bad(rule, what, msg + ' (nothing is stored)')
            return False
        return True


def time_tagger():
    """keep paths apart that differ in the comparison of durations and sizes"""
    def tag(ev, st):
        if ev.kind == 'branch' and ev.val is not None and \
                contains(ev.val, lambda y: len(y) == 2 and y[0] == 'init' and y[1][2][-1:] in ((('f', 'time_'),), (('f', 'D_'),), (('f', 'N_'),))) and \
                not contains(ev.val, lambda y: y[:1] in (('ix',), ('lv',))):
            return st.tags | {('t', mk(ev.val), bool(ev.extra))}
        return None
    return tag


def facts_of(st):
    out = list(st.facts.items())
    for t in st.tags:
        if isinstance(t, tuple) and len(t) == 3 and t[0] == 't':
            out.append((t[1], t[2]))
    return out


SIZES = (0, 1, 2)
DEG = (0, 2, 3)


def check_C18(ctx):
    Lb = lib(ctx)
    P = Lb.prog
    seg, traj, pol = NS + 'Segment', NS + 'Trajectory', NS + 'Polynomial'
    for c_, w in ((seg, 'time_'), (seg, 'polynomials_'), (seg, 'D_'), (seg, 'N_'), (traj, 'segments_'), (pol, 'coefficients_'), (pol, 'N_')):
        if not any(x['name'] == w for x in P.record(c_)['fields']):
            raise AnalysisError('anchor vanished: %s::%s' % (c_, w))
    poly_scale(ctx, Lb)
    poly_offset(ctx, Lb)
    poly_pad(ctx, Lb)
    seg_single(ctx, Lb)
    seg_append(ctx, Lb)
    seg_offset(ctx, Lb)
    traj_single(ctx, Lb)
    traj_append(ctx, Lb)
    traj_offset(ctx, Lb)
    traj_scale(ctx, Lb, 'scaleSegmentTimes')
    traj_scale(ctx, Lb, 'scaleSegmentTimesToMeetConstraints')
    ctx.require(11, 'derived', 'operations that derive segments and trajectories')
    ctx.assume.append('A segment has D_ polynomials of N_ coefficients each, and all segments of a trajectory have its D_ and N_.')


# ---------------------------------------------------------------- polynomials
def pol_look(locs):
    def look(t):
        for l, s in locs:
            if t == field(l, 'N_'):
                return 'N_' + s
            if t[0] in ('fn', 'size') and bare(t[-1]) == field(l, 'coefficients_') and (t[0] == 'size' or t[1] in ('Eigen.size', 'Eigen.rows')):
                return 'N_' + s
        return None
    return look


def poly_scale(ctx, Lb):
    f = Lb.method('Polynomial', 'scalePolynomialInTime')
    J = Job(ctx, Lb, f)
    fac = ('init', L(('p', f['params'][0]['name'])))
    old = mk(('init', L(THIS[1], (('f', 'coefficients_'), ('e', KX)))))
    want = op('*', old, ('fn', 'pow', fac, KX))
    good = bool(J.ends)
    for st in J.ends:
        v = J.I.value(st, L(THIS[1], (('f', 'coefficients_'),)))
        for w in worlds((('N_', (1, 2, 3)), ('k', (0, 1, 2)))):
            if w['k'] >= w['N_']:
                continue
            W = World(pol_look([(THIS, '')]), w)
            if W.holds(facts_of(st)):
                good &= J.compare('scaled', 'coefficients', J.R.get(v, ('e', KX)), None, W, want, {},
                                  'does not multiply the coefficient of order k by the k-th power of the factor')
    if good:
        J.ok('derived', 'every coefficient by its power of the factor')


def poly_offset(ctx, Lb):
    f = Lb.method('Polynomial', 'offsetPolynomial')
    J = Job(ctx, Lb, f)
    o = ('init', L(('p', f['params'][0]['name'])))
    old = mk(('init', L(THIS[1], (('f', 'coefficients_'), ('e', KX)))))
    old0 = mk(('init', L(THIS[1], (('f', 'coefficients_'), ('e', c(0))))))
    good = bool(J.ends)
    for st in J.ends:
        v = J.I.value(st, L(THIS[1], (('f', 'coefficients_'),)))
        for w in worlds((('N_', (1, 2)), ('k', (0, 1)))):
            W = World(pol_look([(THIS, '')]), w)
            if w['k'] < w['N_'] and W.holds(facts_of(st)):
                if w['k'] == 0:
                    good &= J.compare('offset', 'constant', J.R.get(v, ('e', c(0))), None, W, op('+', old0, o), {}, 'does not add the offset to the constant coefficient')
                else:
                    good &= J.compare('offset', 'others', J.R.get(v, ('e', KX)), None, W, old, {}, 'changes a coefficient other than the constant one')
    if good:
        J.ok('derived', 'the constant coefficient only')


def poly_pad(ctx, Lb):
    f = Lb.method('Polynomial', 'getPolynomialWithAppendedCoefficients')
    J = Job(ctx, Lb, f)
    nn = ('init', L(('p', param(f, lambda t: t in ('int', 'constint', 'size_t', 'unsignedint', 'unsignedlong'), 'the number of coefficients'))))
    out = par_obj(f, param(f, lambda t: 'Polynomial' in t, 'the result'))
    look0 = pol_look([(THIS, '')])

    def look(t):
        if t == nn:
            return 'new'
        if t[0] == 'fn' and t[1] in ('Eigen.size', 'Eigen.rows'):
            n = vsize(t[2])
            if n[0] != 'fn':
                return look(n)
        return look0(t)
    good = bool(J.ends)
    for st in J.ends:
        v = J.I.value(st, out)
        for w in worlds((('N_', (1, 2, 3)), ('new', (1, 2, 3)), ('k', (0, 1, 2)))):
            W = World(look, w)
            if not W.holds(facts_of(st)):
                continue
            if w['new'] < w['N_']:
                if st.ret != c(0):
                    J.bad('padded', 'shrink', 'does not refuse to drop coefficients')
                    good = False
                continue
            if st.ret != c(1):
                J.bad('padded', 'refuses', 'refuses to append coefficients')
                good = False
                continue
            n = [x for g, x in J.R.get(v, ('f', 'N_')) if W.holds(g)]
            if [W.num(x) for x in n] != [w['new']]:
                J.bad('padded', 'N', 'does not produce a polynomial of the size asked for')
                good = False
            if w['k'] < w['new']:
                want = mk(('init', L(THIS[1], (('f', 'coefficients_'), ('e', KX))))) if w['k'] < w['N_'] else c(0)
                good &= J.compare('padded', 'coefficients', J.R.get(v, ('f', 'coefficients_'), ('e', KX)), None, W, want, {},
                                  'does not keep the coefficients and append zeros')
    if good:
        J.ok('derived', 'zeros appended')


# ---------------------------------------------------------------- segments
def seg_out(f):
    return par_obj(f, param(f, lambda t: t.endswith('Segment*') and not t.startswith('const') or t.endswith('Segment&') and not t.startswith('const'), 'the resulting segment'))


def seg_single(ctx, Lb):
    f = Lb.method('Segment', 'getSegmentWithSingleDimension')
    J = Job(ctx, Lb, f)
    out = seg_out(f)
    dim = mk(('init', L(('p', param(f, lambda t: t in ('int', 'constint', 'size_t', 'unsignedint'), 'the dimension')))))
    base = looker([(THIS, '')])
    look = lambda t: 'dim' if t == dim else base(t)
    good = bool(J.ends)
    seen = 0
    for st in J.ends:
        for w in worlds((('D_', (1, 2, 3)), ('N_', (2, 3)), ('dim', (-1, 0, 1, 2, 3)), ('time_', (1,)), ('k', (0, 1, 2)))):
            W = World(look, w)
            if not W.holds(facts_of(st)):
                continue
            if not 0 <= w['dim'] < w['D_']:
                if st.ret != c(0):
                    J.bad('extracted', 'range', 'accepts a dimension that the segment does not have')
                    good = False
                continue
            if st.ret != c(1):
                J.bad('extracted', 'refuses', 'refuses a dimension that the segment has')
                good = False
                continue
            seen += 1
            good &= single(J, J.I.value(st, out), THIS, dim, w, W, '')
    if good and seen:
        J.ok('derived', 'duration, degree and polynomial of the dimension')


def single(J, v, src, dim, w, W, sfx):
    good = True
    for n, want in (('D_', 1), ('N_', w['N_' + sfx])):
        x = [W.num(y) for g, y in J.R.get(v, ('f', n)) if W.holds(g)]
        if x != [want]:
            J.bad('extracted', n, 'produces a segment with another %s' % ('dimension than one' if n == 'D_' else 'number of coefficients'))
            good = False
    good &= J.compare('extracted', 'time_', J.R.get(v, ('f', 'time_')), None, W, field(src, 'time_'), {}, 'does not keep the duration of the segment')
    if w['k'] < w['N_' + sfx]:
        good &= J.compare('extracted', 'coefficients', J.R.coef(v, c(0)), None, W, coef_at(src, dim, KX), {},
                          'does not keep the polynomial of the dimension asked for')
    return good


TIMES = ((1, 2), (2, 1), (1, 1), (0, 0), (0, 1), (1, 0))


def seg_append(ctx, Lb):
    f = Lb.method('Segment', 'getSegmentWithAppendedDimension')
    J = Job(ctx, Lb, f, tagger=time_tagger(), cap=64)
    app = par_obj(f, param(f, lambda t: 'Segment' in t and t.startswith('const'), 'the segment to append'))
    out = seg_out(f)
    look = looker([(THIS, ''), (app, 'o')])
    tt, to = field(THIS, 'time_'), field(app, 'time_')
    good, seen = True, 0
    for st in J.ends:
        v = J.I.value(st, out)
        rd = {n: J.R.get(v, ('f', n)) for n in ('D_', 'N_', 'time_')}
        co = J.R.coef(v)
        done = set()
        for w in worlds((('D_', SIZES), ('D_o', SIZES), ('N_', DEG), ('N_o', DEG), ('tt', TIMES), )):
            w['time_'], w['time_o'] = w['tt']
            W = World(look, w)
            if not W.holds(facts_of(st)):
                continue
            full = w['D_'] * w['N_'] > 0
            fullo = w['D_o'] * w['N_o'] > 0
            if st.ret != c(1):
                J.bad('appended', 'refuses', 'refuses segments that can be combined')
                good = False
                continue
            if not full and not fullo:
                continue
            seen += 1
            D = (w['D_'] if full else 0) + (w['D_o'] if fullo else 0)
            N = max(w['N_'] if full else 0, w['N_o'] if fullo else 0)
            T = max(w['time_'] if full else 0, w['time_o'] if fullo else 0)
            for n, want, what in (('D_', D, 'as many dimensions as both together'), ('N_', N, 'the larger number of coefficients'),
                                  ('time_', T, 'the longer duration')):
                x = [W.num(y) for g, y in rd[n] if W.holds(g)]
                if len(x) != 1 or x[0] != want:
                    J.bad('appended', n, 'does not produce a segment with ' + what)
                    good = False
            new = tt if w['time_'] >= w['time_o'] and full or not fullo else to
            same = {to: tt} if w['time_'] == w['time_o'] else {}
            for i in range(D):
                for k in range(N):
                    W = World(look, dict(w, i=i, k=k))
                    own = full and i < w['D_']
                    s, d, n, t = (THIS, IX, w['N_'], tt) if own else (app, op('-', IX, field(THIS, 'D_')) if full else IX, w['N_o'], to)
                    if k >= n:
                        want = c(0)
                    elif t == new or t in same or w['time_'] == w['time_o']:
                        want = coef_at(s, d, KX)
                    else:
                        want = op('*', coef_at(s, d, KX), ('fn', 'pow', op('/', t, new), KX))
                    what = 'coefficients of the %s segment' % ('extended' if own else 'appended')
                    msg = 'does not keep the %s, reparametrised once to the common duration' % what
                    if T == 0 and k > 0:
                        continue
                    g2 = compare_append(J, what, co, W, want, same, msg, D, d, s)
                    good &= g2
    if good and seen:
        J.ok('derived', 'both polynomials in every dimension')


def compare_append(J, what, co, W, want, same, msg, D, d, s):
    return J.compare('appended', what, co, None, W, want, same, msg)


def seg_offset(ctx, Lb):
    f = Lb.method('Segment', 'offsetSegment')
    J = Job(ctx, Lb, f)
    offset_common(J, f, lambda st: J.I.value(st, THIS), THIS, looker([(THIS, '')]))


def offset_common(J, f, seg_of, src, base, skip=()):
    a = L(('p', f['params'][0]['name']))
    A = mk(('init', a))

    def look(t):
        if t[0] in ('fn', 'size') and t[-1] == A and (t[0] == 'size' or t[1] in ('Eigen.size', 'Eigen.rows')):
            return 'A'
        return base(t)
    good, seen = True, 0
    for st in J.ends:
        v = seg_of(st)
        co = J.R.coef(v)
        co0 = J.R.coef(v, IX, c(0))
        for w in worlds((('D_', (1, 2, 3, 4)), ('N_', (2,)), ('A', (0, 1, 2, 3, 4)), ('time_', (1,)))):
            W = World(look, w)
            if not W.holds(facts_of(st)):
                continue
            fits = w['A'] >= min(w['D_'], 3)
            if (st.ret == c(1)) != fits:
                J.bad('moved', 'answer', 'accepts an offset that is too short, or refuses one that is not')
                good = False
            seen += fits
            for n in ('D_', 'N_', 'time_'):
                good &= J.compare('moved', n, J.R.get(v, ('f', n)), None, W, field(src, n), {}, 'changes %s' % {'time_': 'the duration', 'D_': 'the dimension', 'N_': 'the degree'}[n])
            for i in range(w['D_']):
                W = World(look, dict(w, i=i, k=1))
                good &= J.compare('moved', 'higher', co, None, W, coef_at(src, IX, KX), {}, 'changes more than the constant coefficients')
                W = World(look, dict(w, i=i, k=0))
                want = coef_at(src, IX, c(0))
                if fits and i < 3:
                    want = op('+', want, ('init', L(a[1], a[2] + (('e', IX),))))
                good &= J.compare('moved', 'constant', co0, None, W, want, {},
                                  'does not move each of the first three dimensions by its own offset' if fits else 'moves although it refuses the offset')
    if good and seen:
        J.ok('derived', 'first three dimensions moved')


# ---------------------------------------------------------------- trajectories


def seg_at(lid=None):
    return L(THIS[1], (('f', 'segments_'), ('e', JX if lid is None else mk(('ix', lid)))))


def each_segment(J, T, S):
    """the elements of T, one for each element of the container S in order: [(loop, conditions, element)] or None"""
    T = mk(T)
    I = J.I
    if T[0] == 'phi':
        out = []
        for x in T[1]:
            r = each_segment(J, x, S)
            if r is None:
                return None
            out += r
        return out
    if T[0] == 'fold':
        lid, m, base, step = T[1:5]
        if base[0] not in ('empty', 'fresh') and not (base[0] == 'ilist' and len(base) == 1):
            return None
        info = I.loops.get(lid) or {}
        if info.get('breaks') or not (loop_full(I, lid, S) or size(S) in (info.get('trips') or ())):
            return None
        cs = [(f, v) for f, v in step[1:]] if step[0] == 'cases' else [((), v) for v in step[1]] if step[0] == 'phi' else [((), step)]
        out = []
        for f, v in cs:
            if v[0] != 'push' or v[1] != mk(('lv', lid, m)):
                return None
            out.append((lid, tuple(f), v[2]))
        return out
    if T[0] == 'with' and T[1][0] in ('resized', 'init'):
        n = T[1]
        out = []
        lids = {k[0][1][1] for k, v in T[2] if k[0][0] == 'e' and k[0][1][0] == 'all'}
        for lid in lids:
            info = I.loops.get(lid) or {}
            if loop_full(I, lid, S) or size(S) in (info.get('trips') or ()):
                el = I.proj(T, ('e', mk(('ix', lid))))
                out.append((lid, (), el))
        return out or None
    if T[0] == 'map' or T[0] == 'init':
        return None
    return None


def traj_single(ctx, Lb):
    f = Lb.method('Trajectory', 'getTrajectoryWithSingleDimension')
    J = Job(ctx, Lb, f, inline=traj_inline(Lb))
    dim = mk(('init', L(('p', f['params'][0]['name']))))
    S = mk(('init', L(THIS[1], (('f', 'segments_'),))))
    good, seen = True, 0
    for st in J.ends:
        T = J.I.proj(st.ret, ('f', 'segments_'))
        es = each_segment(J, T, S)
        if es is None:
            J.bad('extracted', 'segments', 'does not extract the dimension from every segment in order')
            good = False
            continue
        for lid, g0, el in es:
            src = seg_at(lid)
            base = looker([(src, ''), (THIS, '')])
            look = lambda t: 'dim' if t == dim else base(t)
            for w in worlds((('D_', (1, 2, 3)), ('N_', (2, 3)), ('dim', (0, 1, 2, 3)), ('time_', (1,)), ('k', (0, 1, 2)))):
                W = World(look, w)
                if not W.holds(facts_of(st)) or not W.holds(g0):
                    continue
                if w['dim'] >= w['D_']:
                    J.bad('extracted', 'range', 'accepts a dimension that the trajectory does not have')
                    good = False
                    continue
                seen += 1
                good &= single(J, el, src, dim, w, W, '')
    if good and seen:
        J.ok('derived', 'every segment with its duration')


def traj_append(ctx, Lb):
    f = Lb.method('Trajectory', 'getTrajectoryWithAppendedDimension')
    unit = NS + 'Segment::getSegmentWithAppendedDimension'
    J = Job(ctx, Lb, f, inline=traj_inline(Lb), opaque=('getSegmentWithAppendedDimension',), tagger=time_tagger(), cap=64)
    app = par_obj(f, param(f, lambda t: 'Trajectory' in t and t.startswith('const'), 'the trajectory to append'))
    out = par_obj(f, param(f, lambda t: 'Trajectory' in t and not t.startswith('const'), 'the result'))
    S = mk(('init', L(THIS[1], (('f', 'segments_'),))))
    So = mk(('init', L(app[1], app[2] + (('f', 'segments_'),))))
    calls = [ev for ev, t, s in J.evs if ev.kind == 'call' and ev.name == unit]
    good, seen = bool(calls), 0
    if not calls:
        J.bad('appended', 'segments', 'does not combine the segments pairwise')
    base = looker([(THIS, ''), (app, 'o')])
    for st in J.ends:
        if st.ret != c(1):
            continue
        T = mk(J.I.value(st, sub(out, ('f', 'segments_'))))
        ws = []
        for w in worlds((('D_', (0, 1)), ('N_', (0, 2)), ('D_o', (0, 1)), ('N_o', (0, 2)))):
            if World(base, w).holds(facts_of(st)):
                ws.append((w['D_'] * w['N_'] > 0, w['D_o'] * w['N_o'] > 0))
        if not ws:
            continue
        if T == So:
            if any(a for a, b in ws):
                J.bad('appended', 'left', 'drops its own dimensions')
                good = False
            continue
        if T == S:
            if any(b and a for a, b in ws) or any(b for a, b in ws):
                J.bad('appended', 'right', 'drops the dimensions to append')
                good = False
            continue
        es = each_segment(J, T, S)
        if es is None:
            J.bad('appended', 'segments', 'does not combine every segment in order')
            good = False
            continue
        if st.facts.get(op('==', size(S), size(So))) is not True and st.facts.get(op('==', size(So), size(S))) is not True:
            J.bad('appended', 'count', 'combines trajectories without checking that they have equally many segments')
            good = False
        for lid, g0, el in es:
            ix = mk(('ix', lid))
            a, b = L(S[1][1], S[1][2] + (('e', ix),)), L(So[1][1], So[1][2] + (('e', ix),))
            seen += 1
            o = el
            if o[0] != 'out' or o[1] != unit or not pairwise(o, a, b):
                J.bad('appended', 'pairs', 'does not combine each segment with its counterpart')
                good = False
                continue
            # the result is only used when the combination succeeded
            r = [b2 for t, b2 in g0 if t[0] == 'fn' and t[1] == unit or t[0] == 'ret' and unit in t]
            if g0 and r and not all(r):
                J.bad('appended', 'failure', 'uses the result of a combination that failed')
                good = False
        lid = es[0][0]
        if not propagated(J, unit):
            J.bad('appended', 'failure', 'ignores that segments cannot be combined')
            good = False
    if good and seen:
        J.ok('derived', 'every pair of segments')


def pairwise(o, a, b):
    xs = [x for x in o[2:] if isinstance(x, tuple)]
    txt = [y for x in xs for y in walk(mk(x))] + xs
    ia, ib = mk(('init', a)), mk(('init', b))
    return ia in txt and ib in txt or a in txt and b in txt or ia in txt and b in txt or a in txt and ib in txt


def propagated(J, unit):
    """no iteration goes on after the unit has failed"""
    for ev, t, st in J.evs:
        if ev.kind == 'iterend' and ev.val is None:
            for x, b in st.facts.items():
                if b is False and x[0] == 'fn' and x[1] == unit:
                    return False
    fails = [st for st in J.ends if st.ret == c(0)]
    return bool(fails)


def traj_offset(ctx, Lb):
    f = Lb.method('Trajectory', 'offsetTrajectory')
    J = Job(ctx, Lb, f, inline=traj_inline(Lb))
    src = seg_at()
    S = L(THIS[1], (('f', 'segments_'),))
    own = looker([(src, ''), (THIS, '')])

    base = segment_look(own)

    def seg_of(st):
        rs = J.R.get(J.I.value(st, S), ('e', JX))
        return mk(('cases',) + tuple(rs)) if len(rs) > 1 or rs[0][0] else rs[0][1]
    offset_common(J, f, seg_of, src, base)


def traj_scale(ctx, Lb, sn):
    f = Lb.method('Trajectory', sn)
    J = Job(ctx, Lb, f, inline=traj_inline(Lb))
    src = seg_at()
    S = L(THIS[1], (('f', 'segments_'),))
    own = looker([(src, '')])

    look = segment_look(own)
    t0 = field(src, 'time_')
    good, seen = True, 0
    for st in J.ends:
        v = J.I.value(st, S)
        rs = J.R.get(v, ('e', JX))
        el = rs[0][1] if len(rs) == 1 and not rs[0][0] else mk(('cases',) + tuple(rs))
        W = World(look, {'D_': 2, 'N_': 3, 'i': 1, 'k': 2})
        ts = [x for g, x in J.R.get(el, ('f', 'time_')) if W.holds(g)]
        co = [x for g, x in J.R.coef(el) if W.holds(g)]
        if not ts or not co:
            J.bad('stretched', 'nothing', 'stores no duration or no coefficients')
            good = False
            continue
        V = Value(J.I, W)
        for t in ts:
            p = V.of(t)
            if len(p) != 1:
                J.bad('stretched', 'time_', 'does not multiply the duration of a segment by one factor')
                good = False
                continue
            q = pmul(p, {((t0, -1),): 1})
            want = V.concrete(pmul({((coef_at(src, IX, KX), 1),): 1}, power(q, KX, -1)))
            seen += 1
            if any(not peq(V.of(x), want) for x in co):
                J.bad('stretched', 'coefficients', 'does not reparametrise every polynomial once by the inverse of the factor of the duration')
                good = False
        for n in ('D_', 'N_'):
            if any(V.of(x) != V.of(field(src, n)) for g, x in J.R.get(el, ('f', n))):
                J.bad('stretched', n, 'changes the shape of a segment')
                good = False
        if sn == 'scaleSegmentTimes' and st.ret == c(1):
            fac = mk(('init', L(('p', f['params'][0]['name']))))
            if any(not peq(V.of(t), V.of(op('*', t0, fac))) for t in ts):
                J.bad('stretched', 'factor', 'does not multiply the duration of every segment by the factor asked for')
                good = False
        if sn == 'scaleSegmentTimes' and st.ret == c(0) and v != ('init', S):
            J.bad('stretched', 'refused', 'refuses but changes the trajectory')
            good = False
        # every segment, every dimension, every coefficient
        for steps, y in (v[2] if v[0] == 'with' else ()):
            k = coefs = None
            lids = [x[1][1] for x in steps if x[0] == 'e' and x[1][0] == 'all']
            for n, lid in enumerate(lids):
                if not covers(J.I, lid, n, look):
                    J.bad('stretched', 'all', 'does not stretch every segment, dimension and coefficient')
                    good = False
    if good and seen:
        J.ok('derived', 'durations and polynomials together')


def covers(I, lid, level, look):
    info = I.loops.get(lid) or {}
    if info.get('breaks') or info.get('returns'):
        return False
    if loop_full(I, lid):
        return True
    for t in info.get('trips') or ():
        if t is None:
            continue
        if level == 0 and t == size(mk(('init', L(THIS[1], (('f', 'segments_'),))))):
            return True
        if level and look(t) in ('D_', 'N_')[level - 1:level]:
            return True
        if level and t[0] in ('size', 'fn', 'fld', 'init') and level:
            n = strip_size(t)
            if n == ('D_', 'N_')[level - 1]:
                return True
    return False


def strip_size(t):
    """D_ for the number of polynomials of some segment, N_ for the number of coefficients of some polynomial"""
    if t[0] == 'init':
        l = t[1][2]
        return l[-1][1] if l and l[-1][0] == 'f' and l[-1][1] in ('D_', 'N_') else None
    if t[0] == 'fld' and t[2] in ('D_', 'N_'):
        return t[2]
    if t[0] in ('size', 'fn'):
        x = t[-1]
        while x[0] == 'with':
            x = x[1]
        if x[0] == 'init' and x[1][2]:
            return {'polynomials_': 'D_', 'coefficients_': 'N_'}.get(x[1][2][-1][1])
        if x[0] == 'fld':
            return {'polynomials_': 'D_', 'coefficients_': 'N_'}.get(x[2])
    return None
