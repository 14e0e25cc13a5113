"""C19: extrema and limits. The summaries of the search functions are evaluated over a finite order abstraction:
all orderings and ties of a few candidates, roots inside / on / outside the interval, a few segments and dimensions."""
import itertools
import math
from lib import *
from algebra import *
from model import Model, Vec, inputs, walk, BIG
from loader import AnalysisError


def pname(f, n):
    return f['params'][n]['name']


def opaque_name(t, *names):
    """t is the value or the output of a call that was not followed"""
    return t[0] in ('fn', 'ret', 'out') and isinstance(t[1], str) and any(t[1] == n or t[1].endswith('::' + n) for n in names)


def call_args(t):
    if t[0] == 'fn':
        return t[2:]
    if t[0] == 'ret':
        return t[3:]
    return t[4:]


class Search:
    def __init__(self, ctx, Lb, cls, name, opaque=(), n=None, rule="extrema", fn=None, probe=None, cap=None, rounds=None, throwing=None, exc_types=None, yaml=None):
        self.ctx = ctx
        self.f = f = fn or Lb.method(cls, name, n)
        self.rule = rule
        self.evs, self.ends, self.thrown, self.I = Lb.run(f, opaque=opaque, disj=True, inline=lambda g: '/rpoly/' not in g['file'], probe=probe, cap=cap, rounds=rounds, throwing=throwing, exc_types=exc_types, yaml=yaml)
        self.where = '%s:%s' % (f['file'], f['l'])
        self.sn = f['name'].replace(NS, '').replace('mav_trajectory_generation::', '')
        self.failed = set()
        self.n = 0

    def bad(self, key, msg):
        if key not in self.failed:
            self.failed.add(key)
            self.ctx.bad(self.rule, '%s:%s' % (self.sn, key), self.where, '%s %s' % (self.sn, msg))

    def done(self, what):
        if not self.n:
            raise AnalysisError('%s: no case of the order abstraction applies' % self.sn)
        if not self.failed:
            self.ctx.ok(self.rule, '%s: %s (%d cases)' % (self.sn, what, self.n))

    def states(self, look, less=None):
        """ends that apply in this case, with their models"""
        out = []
        for st in self.ends:
            M = Model(self.I, look, less)
            if M.holds(st.facts.items()) is not False:
                out.append((st, M))
        self.n += 1
        return out

    def at(self, st, M, par, *fields):
        o = ('*', mk(('init', L(('p', par)))))
        v = self.I.value(st, L(o, tuple(('f', x) for x in fields)))
        return M.ev(v)


def both(*looks):
    def look(t, ev):
        for l in looks:
            r = l(t, ev)
            if r is not None:
                return r
        return None
    return look


def close(a, b):
    return a is not None and b is not None and not isinstance(a, dict) and abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def check_C19(ctx):
    Lb = lib(ctx)
    P = Lb.prog
    for c_, w in (('Segment', 'time_'), ('Segment', 'polynomials_'), ('Segment', 'D_'), ('Segment', 'N_'), ('Trajectory', 'segments_'),
                  ('Extremum', 'value'), ('Extremum', 'time'), ('Extremum', 'segment_idx')):
        if not any(x['name'] == w for x in P.record(NS + c_)['fields']):
            raise AnalysisError('anchor vanished: %s::%s' % (c_, w))
    candidates_of_roots(ctx, Lb)
    select_polynomial(ctx, Lb)
    times_of_segment(ctx, Lb)
    candidates_of_segment(ctx, Lb)
    select_segment(ctx, Lb)
    over_trajectory(ctx, Lb)
    limits(ctx, Lb)
    feasible(ctx, Lb)
    over_optimizer(ctx, Lb)
    constraint(ctx, Lb)
    feasible_optimizer(ctx, Lb)
    ctx.require(10, 'extrema', 'searches for extrema and scalings to limits')


ROOTS = (complex(-1, 0), complex(0, 0), complex(0.5, 0), complex(1, 0), complex(2, 0), complex(0.5, 1), complex(0.25, 0), complex(0.5, -1), complex(-0.5, 0), complex(-0.25, 0.5))


def candidates_of_roots(ctx, Lb):
    """both ends and every real root inside the interval, and nothing outside of it"""
    S = Search(ctx, Lb, 'Polynomial', 'computeMinMaxCandidates', opaque=('getRoots',))
    ts, te, dv, out = (pname(S.f, i) for i in range(4))
    lists = [()] + [(r,) for r in ROOTS] + list(itertools.permutations(ROOTS[:6], 2)) + [ROOTS, ROOTS[::-1]]
    for a, b in ((0.0, 1.0), (1.0, 1.0), (1.0, 0.0), (-1.0, 1.0)):
        for roots in lists:
            good_args = []

            def calls(t, ev):
                if opaque_name(t, 'getRoots'):
                    args = call_args(t)
                    if ev(args[1]) != 3:
                        good_args.append(False)
                    return (True, True if t[0] == 'ret' else list(roots))
                return None
            look = both(calls, inputs({'this': {'N_': 6}, ('p', ts): a, ('p', te): b, ('p', dv): 2, ('p', out): []}))
            sts = S.states(look)
            if not sts:
                S.bad('none', 'has no outcome for some input')
            for st, M in sts:
                r = M.ev(st.ret)
                if a > b:
                    if r:
                        S.bad('interval', 'accepts an interval that ends before it starts')
                    continue
                if not r:
                    S.bad('refuses', 'refuses a valid interval')
                    continue
                v = S.at(st, M, out)
                want = {a, b} | {x.real for x in roots if x.imag == 0 and a <= x.real <= b}
                if good_args:
                    S.bad('order', 'does not search the roots of the next higher derivative')
                elif not isinstance(v, list) or any(x is None for x in v):
                    S.bad('unknown', 'stores candidates that are not the ends of the interval or roots')
                elif not want <= set(v):
                    S.bad('missing', 'does not consider both ends of the interval and every real root inside of it')
                elif not all(a <= x <= b for x in v):
                    S.bad('outside', 'considers candidates outside of the interval')
    S.done('both ends and every real root inside')


def select_polynomial(ctx, Lb):
    """the smallest and the largest value of the candidates, with their times"""
    S = Search(ctx, Lb, 'Polynomial', 'selectMinMaxFromCandidates', opaque=('evaluate',))
    cs, dv, mi, ma = (pname(S.f, i) for i in range(4))
    for n in (0, 1, 2, 3):
        for vals in itertools.product((-5.0, -1.0, 2.0), repeat=n):
            times = [10.0 + i for i in range(n)]

            def calls(t, ev):
                if opaque_name(t, 'evaluate'):
                    a = call_args(t)
                    x, o = ev(a[1]), ev(a[2])
                    return (True, vals[times.index(x)] if x in times and o == 1 else None)
                return None
            look = both(calls, inputs({('p', cs): times, ('p', dv): 1, ('p', mi): {'first': 77.0, 'second': 77.0}, ('p', ma): {'first': 77.0, 'second': 77.0}}))
            sts = S.states(look)
            if not sts:
                S.bad('none', 'has no outcome for some input')
            for st, M in sts:
                r = M.ev(st.ret)
                if not n:
                    if r:
                        S.bad('empty', 'finds extrema among no candidates')
                    continue
                if not r:
                    S.bad('refuses', 'refuses candidates')
                    continue
                for p, want, w in ((mi, min(vals), 'smallest'), (ma, max(vals), 'largest')):
                    x, t = S.at(st, M, p, 'second'), S.at(st, M, p, 'first')
                    if x != want:
                        S.bad(w, 'does not report the %s value of all candidates' % w)
                    elif t not in times or vals[times.index(t)] != want:
                        S.bad(w + ' time', 'does not report the time of the %s value' % w)
    S.done('smallest and largest candidate')


def candidates_of_segment(ctx, Lb):
    """every candidate time with the norm of the derivative over the dimensions asked for"""
    S = Search(ctx, Lb, 'Segment', 'computeMinMaxMagnitudeCandidates', opaque=('computeMinMaxMagnitudeCandidateTimes', 'evaluate'))
    dv, ts, te, dm, out = (pname(S.f, i) for i in range(5))
    for times in ((), (0.0, 4.0), (0.0, 4.0, 1.0)):
        for dims in ((1,), (0, 2), (2, 1, 0)):
            for ok in (True, False):
                seg = {'D_': 3, 'N_': 6, 'time_': 9.0, 'polynomials_': [{'#': i} for i in range(3)]}
                value = lambda d, t: (d + 2.0) * (t + 1.5) * (-1) ** d

                def calls(t, ev):
                    if opaque_name(t, 'computeMinMaxMagnitudeCandidateTimes'):
                        a = call_args(t)
                        if [ev(x) for x in a[1:5]] != [2, 0.0, 4.0, list(dims)]:
                            return (True, None)
                        return (True, ok if t[0] == 'ret' else list(times) if ok else [])
                    if opaque_name(t, 'evaluate'):
                        a = call_args(t)
                        p, x, o = (ev(y) for y in a[:3])
                        return (True, value(p['#'], x) if isinstance(p, dict) and '#' in p and o == 2 and x is not None else None)
                    return None
                look = both(calls, inputs({'this': seg, ('p', dv): 2, ('p', ts): 0.0, ('p', te): 4.0, ('p', dm): list(dims), ('p', out): []}))
                sts = S.states(look)
                if not sts:
                    S.bad('none', 'has no outcome for some input')
                for st, M in sts:
                    r = M.ev(st.ret)
                    if not ok:
                        if r is not False and r != 0:
                            S.bad('failure', 'reports success when the candidates could not be found')
                        continue
                    if not r:
                        S.bad('refuses', 'refuses candidates')
                        continue
                    v = S.at(st, M, out)
                    if not isinstance(v, list) or len(v) != len(times) or any(not isinstance(x, dict) for x in v):
                        S.bad('number', 'does not produce one candidate per candidate time')
                        continue
                    for x, t in zip(v, times):
                        if x.get('time') != t:
                            S.bad('time', 'does not keep the time of a candidate')
                        if not close(x.get('value'), math.sqrt(sum(value(d, t) ** 2 for d in dims))):
                            S.bad('value', 'does not compute the norm of the derivative over the dimensions asked for')
    S.done('time and norm of every candidate')


def ext_less(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a['value'] < b['value']
    return a < b


def select_segment(ctx, Lb):
    S = Search(ctx, Lb, 'Segment', 'selectMinMaxMagnitudeFromCandidates')
    dv, ts, te, dm, cs, mi, ma = (pname(S.f, i) for i in range(7))
    for a, b in ((0.0, 4.0), (4.0, 0.0)):
        for n in (1, 2, 3):
            for vals in itertools.product((0.0, 1.0, 2.0), repeat=n):
                for outside in (None, -1.0, 5.0):
                    times = [0.0, 4.0, 2.0][:n]
                    c_ = [{'time': t, 'value': v, 'segment_idx': 0} for t, v in zip(times, vals)]
                    if outside is not None:
                        c_.insert(1, {'time': outside, 'value': 9.0, 'segment_idx': 0})
                        c_.insert(0, {'time': outside, 'value': -9.0, 'segment_idx': 0})
                    junk = {'time': 77.0, 'value': 1.5, 'segment_idx': 3}
                    look = inputs({('p', cs): c_, ('p', ts): a, ('p', te): b, ('p', dv): 1, ('p', dm): [0], ('p', mi): junk, ('p', ma): junk})
                    sts = S.states(look, ext_less)
                    if not sts:
                        S.bad('none', 'has no outcome for some input')
                    for st, M in sts:
                        r = M.ev(st.ret)
                        if a > b:
                            if r:
                                S.bad('interval', 'accepts an interval that ends before it starts')
                            continue
                        if not r:
                            S.bad('refuses', 'refuses candidates')
                            continue
                        for p, want, w in ((mi, min(vals), 'smallest'), (ma, max(vals), 'largest')):
                            x, t = S.at(st, M, p, 'value'), S.at(st, M, p, 'time')
                            if x != want:
                                S.bad(w, 'does not report the %s candidate inside the interval' % w)
                            elif t not in times or vals[times.index(t)] != want:
                                S.bad(w + ' time', 'does not report the time of the %s candidate' % w)
    S.done('smallest and largest candidate inside')


def over_trajectory(ctx, Lb):
    """the extremum of all segments and the segment it belongs to"""
    S = Search(ctx, Lb, 'Trajectory', 'computeMinMaxMagnitude', opaque=('computeMinMaxMagnitudeCandidateTimes', 'evaluate'))
    dv, dm, mi, ma = (pname(S.f, i) for i in range(4))
    for n in (1, 2, 3):
        for vals in itertools.product((1.0, 2.0, 3.0), repeat=n):
            for fail in [None] + list(range(n)):
                segs = [{'time_': 10.0 + i, 'D_': 1, 'N_': 6, 'polynomials_': [{'#': i}], '#': i} for i in range(n)]
                # two candidates per segment, the middle one is the larger by half a unit
                tab = {(i, 0.0): vals[i] for i in range(n)}
                tab.update({(i, 5.0 + i): vals[i] + 0.5 for i in range(n)})

                def calls(t, ev):
                    if opaque_name(t, 'computeMinMaxMagnitudeCandidateTimes'):
                        a = call_args(t)
                        s = ev(a[0])
                        if not isinstance(s, dict) or '#' not in s or [ev(x) for x in a[1:5]] != [2, 0.0, s['time_'], [0]]:
                            return (True, None)
                        if t[0] == 'ret':
                            return (True, s['#'] != fail)
                        return (True, [] if s['#'] == fail else [0.0, 5.0 + s['#']])
                    if opaque_name(t, 'evaluate'):
                        a = call_args(t)
                        p, x, o = (ev(y) for y in a[:3])
                        return (True, tab.get((p['#'], x)) if isinstance(p, dict) and '#' in p and o == 2 else None)
                    return None
                junk = {'time': 77.0, 'value': 2.2, 'segment_idx': 9}
                look = both(calls, inputs({'this': {'segments_': segs, 'D_': 1, 'N_': 6}, ('p', dv): 2, ('p', dm): [0], ('p', mi): junk, ('p', ma): junk}))
                sts = S.states(look, ext_less)
                if fail is not None:
                    # the state at the failing segment returns inside the loop: see 'failure' below
                    continue
                sts = [(st, M) for st, M in sts if M.ev(st.ret) != 0 or st.ret != c(0)]
                if not sts:
                    S.bad('none', 'has no outcome for some input')
                for st, M in sts:
                    if not M.ev(st.ret):
                        S.bad('refuses', 'refuses segments whose candidates were found')
                        continue
                    for p, want, w in ((mi, min(vals), 'smallest'), (ma, max(vals) + 0.5, 'largest')):
                        x, t, k = (S.at(st, M, p, y) for y in ('value', 'time', 'segment_idx'))
                        if not close(x, want):
                            S.bad(w, 'does not report the %s value of all segments' % w)
                        elif tab.get((k, t)) != want:
                            S.bad(w + ' place', 'does not report the segment and time of the %s value' % w)
    # a failure in a segment is a failure
    for ev, tags, st in S.evs:
        pass
    for st in S.ends:
        for t, b in st.facts.items():
            if t[0] == 'ret' and opaque_name(t, 'computeMinMaxMagnitudeCandidateTimes') and not b and st.ret != c(0):
                S.bad('failure', 'reports success when the candidates of a segment could not be found')
    S.done('extremum over all segments')


def limits(ctx, Lb):
    """largest velocity and acceleration over all dimensions; both must be found"""
    S = Search(ctx, Lb, 'Trajectory', 'computeMaxVelocityAndAcceleration', opaque=('computeMinMaxMagnitude',))
    v, a = pname(S.f, 0), pname(S.f, 1)
    for okv, oka in itertools.product((True, False), repeat=2):
        def calls(t, ev):
            if opaque_name(t, 'computeMinMaxMagnitude'):
                x = call_args(t)
                o = ev(x[1])
                if o not in (1, 2) or ev(x[2]) != [0, 1, 2]:
                    return (True, None)
                if t[0] == 'ret':
                    return (True, okv if o == 1 else oka)
                # parameter 3 is the largest
                return (True, {'value': (100.0 if t[3] == 3 else 50.0) + o, 'time': 0.0, 'segment_idx': 0})
            return None
        look = both(calls, inputs({'this': {'D_': 3, 'N_': 6, 'segments_': [{}]}, ('p', v): 0.0, ('p', a): 0.0}))
        sts = S.states(look)
        if not sts:
            S.bad('none', 'has no outcome for some input')
        for st, M in sts:
            r = M.ev(st.ret)
            if bool(r) != (okv and oka) or r is None:
                S.bad('failure', 'does not report whether both limits could be found')
            if okv and oka:
                x = (S.at(st, M, v), S.at(st, M, a))
                if x != (101.0, 102.0):
                    S.bad('which', 'does not report the largest velocity and the largest acceleration over all dimensions')
    S.done('largest velocity and acceleration')


def convolution(a, b):
    out = Vec([0.0] * (len(a) + len(b) - 1))
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def derived(co, d):
    co = list(co)
    for _ in range(d):
        co = [i * x for i, x in enumerate(co)][1:] + [0.0]
    return Vec(co)


def times_of_segment(ctx, Lb):
    """the roots of the derivative of the squared magnitude: sum over the dimensions of p^(d) p^(d+1)"""
    S = Search(ctx, Lb, 'Segment', 'computeMinMaxMagnitudeCandidateTimes', opaque=('computeMinMaxCandidates', 'getCoefficients', 'convolve', 'getConvolutionLength'))
    dv, ts, te, dm, out = (pname(S.f, i) for i in range(5))
    N = 5
    cos = [Vec([1.0, 2.0, -3.0, 4.0, 2.0]), Vec([0.5, -1.0, 1.0, 3.0, -2.0]), Vec([2.0, 1.0, 4.0, -1.0, 1.0])]
    polys = [{'#': i, 'N_': N, 'coefficients_': x} for i, x in enumerate(cos)]
    seg = {'D_': 3, 'N_': N, 'time_': 9.0, 'polynomials_': polys}
    for order in (0, 1, 2):
        for dims in ((), (1,), (-1,), (3,), (0, 1), (2, 0), (1, 3), (-1, 0), (2, 1, 0)):
            for fail in (False, True):
                def calls(t, ev):
                    if opaque_name(t, 'getCoefficients'):
                        a = call_args(t)
                        p, d = ev(a[0]), ev(a[1])
                        return (True, derived(p['coefficients_'], d) if isinstance(p, dict) and '#' in p and isinstance(d, int) and d >= 0 else None)
                    if opaque_name(t, 'getConvolutionLength'):
                        a = [ev(x) for x in call_args(t)]
                        return (True, None if None in a else a[-2] + a[-1] - 1)
                    if opaque_name(t, 'convolve'):
                        a = [ev(x) for x in call_args(t)][-2:]
                        return (True, convolution(*a) if all(isinstance(x, list) and x for x in a) else None)
                    if opaque_name(t, 'computeMinMaxCandidates'):
                        a = call_args(t)
                        p, x, y, o = (ev(z) for z in a[:4])
                        if (x, y) != (0.0, 4.0) or o is None or not isinstance(p, dict):
                            return (True, None)
                        if t[0] != 'out':
                            return (True, not fail)
                        if '#' in p:
                            return (True, [('p', p['#'], o)])
                        v = p.get('coefficients_')
                        return (True, [('c', tuple(v), o)] if isinstance(v, list) and None not in v else None)
                    return None
                look = both(calls, inputs({'this': seg, ('p', dv): order, ('p', ts): 0.0, ('p', te): 4.0, ('p', dm): list(dims), ('p', out): []}))
                sts = S.states(look)
                inside = all(0 <= d < 3 for d in dims) and dims
                for st, M in sts:
                    r = M.ev(st.ret)
                    if r is None:
                        S.bad('result', 'does not report whether the candidates could be found')
                    elif not inside or fail:
                        # states of a loop that has already met a bad dimension leave inside of it
                        if r and not len(dims) > 1:
                            S.bad('failure', 'reports success for dimensions that do not exist or roots that could not be searched')
                        elif r and fail and inside:
                            S.bad('failure', 'reports success when the roots could not be searched')
                    elif not r:
                        if loops_left(st):
                            continue
                        S.bad('refuses', 'refuses dimensions that exist')
                    else:
                        v = S.at(st, M, out)
                        if not isinstance(v, list):
                            S.bad('unknown', 'stores candidates that are not those of the derivative of the squared magnitude')
                            continue
                        sq = Vec([0.0] * (2 * (N - order) - 2))
                        for d in dims:
                            sq = sq + convolution(derived(cos[d], order)[:N - order], derived(cos[d], order + 1)[:N - order - 1])
                        got = any(x[0] == 'c' and x[2] == -1 and len(x[1]) >= len(sq) and all(close(a, b) for a, b in zip(list(x[1]), list(sq) + [0.0] * len(x[1]))) for x in v)
                        if not got and len(dims) == 1:
                            if ('p', dims[0], order) not in v:
                                S.bad('missing', 'does not search where the derivative of the magnitude of one dimension vanishes')
                            elif ('p', dims[0], order - 1) not in v:
                                S.bad('zeros', 'does not search where the magnitude of one dimension vanishes')
                        elif not got:
                            S.bad('missing', 'does not search where the derivative of the squared magnitude over the dimensions vanishes')
    # an element that is out of range is refused
    bounds_checked(S, dm)
    S.done('where the derivative of the squared magnitude vanishes')


def loops_left(st):
    """the state left a loop from inside (its facts are about one iteration)"""
    return any(contains(t, lambda y: y[:1] == ('ix',)) for t in st.facts)


def bounds_checked(S, dm):
    """no polynomial is used for a dimension outside [0, D_)"""
    D = mk(('init', L(('this',), (('f', 'D_'),))))
    for ev, tags, st in S.evs:
        if ev.kind != 'call':
            continue
        ob = ev.obj
        if ob is None or ob[0] != 'L' or len(ob[2]) < 2 or ob[2][0] != ('f', 'polynomials_') or ob[1] != ('this',) or ob[2][1][0] != 'e':
            continue
        k = ob[2][1][1]
        if not contains(k, lambda y: y == ('p', dm)):
            continue
        low = [b for t, b in st.facts.items() if t == op('<', k, c(0))]
        high = [b for t, b in st.facts.items() if t == op('<', k, D)]
        if low != [False] or high != [True]:
            S.bad('bounds', 'uses the polynomial of a dimension without checking that it exists')


def feasible(ctx, Lb):
    """stretching until both limits are met: the factor is the larger violation and never below one"""
    def probe(I, ev, st):
        # only the first two rounds: the later ones execute the same body
        return st.copy() if ev.kind == 'call' and ev.name and ev.name.endswith('computeMaxVelocityAndAcceleration') and all(i < 2 for n, i in I.itctx) else None
    S = Search(ctx, Lb, 'Trajectory', 'scaleSegmentTimesToMeetConstraints', opaque=('computeMaxVelocityAndAcceleration', 'scalePolynomialInTime'), probe=probe, cap=400, rounds=2)
    vm, am = pname(S.f, 0), pname(S.f, 1)
    calls_ = [ev.p for ev, tags, st in S.evs if ev.kind == 'call' and ev.p is not None]
    if len(calls_) < 2:
        S.bad('again', 'does not evaluate the limits again after stretching')
    el = L(('this',), (('f', 'segments_'),))
    seen = set()
    for v, a, ok in itertools.product((1.0, 2.0, 2.04, 5.0, 20.0), (1.0, 8.0, 8.16, 32.0, 800.0), (True, False)):
        def calls(t, ev):
            if opaque_name(t, 'computeMaxVelocityAndAcceleration'):
                if t[0] == 'out':
                    return (True, {0: v, 1: a}.get(t[3]))
                return (True, ok)
            if opaque_name(t, 'scalePolynomialInTime'):
                return (True, {})
            return None
        segs = [{'time_': 3.0, 'D_': 1, 'N_': 2, 'polynomials_': [{'N_': 2, 'coefficients_': Vec([1.0, 2.0])}]},
                {'time_': 7.0, 'D_': 1, 'N_': 2, 'polynomials_': [{'N_': 2, 'coefficients_': Vec([1.0, 2.0])}]}]
        look = both(calls, inputs({'this': {'segments_': segs, 'D_': 1, 'N_': 2, 'max_time_': 10.0}, ('p', vm): 2.0, ('p', am): 8.0}))
        within = v <= 2.0 and a <= 8.0
        sts = S.states(look)
        rets = set()
        for st, M in sts:
            rets.add(M.ev(st.ret))
        if None in rets or len({bool(r) for r in rets}) != 1:
            S.bad('result', 'does not report whether the limits are met')
        elif any(rets) != (within and ok):
            S.bad('result', 'reports that the limits are met when they are not, or the other way round')
        if not ok:
            continue
        for st in calls_:
            M = Model(S.I, look)
            if M.holds(st.facts.items()) is False:
                continue
            x = time_at(S, st, M)
            if x is None:
                S.bad('unknown', 'stretches the segments by a factor that the limits do not determine')
                continue
            f = [y / z['time_'] for y, z in zip(x, segs)]
            want = max(1.0, v / 2.0, math.sqrt(a / 8.0))
            if f == [1.0, 1.0]:
                continue
            n = max(1, round(math.log(f[0]) / math.log(want))) if want > 1 and f[0] > 0 else 1
            seen.add(n)
            if not all(y >= 1 - 1e-12 for y in f):
                S.bad('shorter', 'shortens a segment')
            elif within:
                S.bad('needless', 'stretches a trajectory that meets both limits')
            elif not all(abs(y / want ** n - 1) < 1e-9 for y in f):
                S.bad('factor', 'does not stretch by the larger of the velocity violation and the root of the acceleration violation')
    if 1 not in seen:
        S.bad('never', 'never stretches a trajectory that exceeds a limit')
    S.done('stretched by the larger violation')


def time_at(S, st, M):
    v = S.I.value(st, L(('this',), (('f', 'segments_'),)))
    x = M.ev(v)
    if not isinstance(x, list) or not all(isinstance(y, dict) and isinstance(y.get('time_'), (int, float)) for y in x):
        return None
    return [y['time_'] for y in x]


def over_optimizer(ctx, Lb):
    """the optimiser's own maximum: all segments, both ends, every candidate"""
    cls = 'PolynomialOptimization<10>'
    S = Search(ctx, Lb, cls, 'computeMaximumOfMagnitude', opaque=('computeSegmentMaximumMagnitudeCandidates', 'evaluate'))
    dv, cs = pname(S.f, 0), pname(S.f, 1)
    for n in (1, 2, 3):
        for vals in itertools.product((0.0, 1.0, 2.0), repeat=n):
            for where in (0, 1, 2):
                segs = [{'time_': 10.0 + i, 'D_': 1, 'N_': 6, '#': i} for i in range(n)]
                tab = {}
                for i in range(n):
                    tt = (0.0, 5.0 + i, 10.0 + i)
                    for j, t in enumerate(tt):
                        tab[i, t] = vals[i] * (1.0 if j == where else 0.5) + (0.0 if vals[i] else 0.0)

                def calls(t, ev):
                    if opaque_name(t, 'computeSegmentMaximumMagnitudeCandidates'):
                        a = call_args(t)[-5:]
                        s = ev(a[1])
                        if not isinstance(s, dict) or '#' not in s or [ev(x) for x in (a[0], a[2], a[3])] != [2, 0.0, s['time_']]:
                            return (True, None)
                        return (True, True if t[0] != 'out' else [0.0, s['time_'], 5.0 + s['#']])
                    if opaque_name(t, 'evaluate'):
                        a = call_args(t)
                        s, x, o = (ev(y) for y in a[:3])
                        return (True, Vec([tab.get((s['#'], x))]) if isinstance(s, dict) and '#' in s and o == 2 and (s['#'], x) in tab else None)
                    return None
                look = both(calls, inputs({'this': {'segments_': segs, 'n_segments_': n}, ('p', dv): 2, ('p', cs): []}))
                sts = S.states(look, ext_less)
                if not sts:
                    S.bad('none', 'has no outcome for some input')
                for st, M in sts:
                    v = M.ev(st.ret)
                    if not isinstance(v, dict) or not close(v.get('value'), max(tab.values())):
                        S.bad('largest', 'does not report the largest magnitude of all segments')
                    elif max(vals) > 0 and tab.get((v.get('segment_idx'), v.get('time'))) != max(tab.values()):
                        S.bad('place', 'does not report the segment and the time of the largest magnitude')
    S.done('largest magnitude over all segments')


def constraint(ctx, Lb):
    """a limit is violated by the largest magnitude of its own derivative minus its value"""
    S = Search(ctx, Lb, 'PolynomialOptimizationNonLinear<10>', 'evaluateMaximumMagnitudeConstraint', opaque=('computeMaximumOfMagnitude',))
    data = pname(S.f, 2)
    for o in (1, 2, 3):
        def calls(t, ev):
            if opaque_name(t, 'computeMaximumOfMagnitude'):
                x = ev(call_args(t)[1])
                return (True, {'value': 10.0 * x, 'time': 0.0, 'segment_idx': 0} if x is not None else None)
            return None
        look = both(calls, inputs({('p', pname(S.f, 1)): [], ('p', data): {'derivative': o, 'value': 4.0, 'this_object': {'poly_opt_': {}}}}))
        for st, M in S.states(look):
            if M.ev(st.ret) != 10.0 * o - 4.0:
                S.bad('violation', 'is not the largest magnitude of the constrained derivative minus the limit')
    S.done('violation of the constrained derivative')


def feasible_optimizer(ctx, Lb):
    """the optimiser scales its trajectory with the limits of the constraints and takes over the times"""
    def probe(I, ev, st):
        return st.copy() if ev.kind == 'call' and ev.name and ev.name.endswith('::scaleSegmentTimesToMeetConstraints') else None
    S = Search(ctx, Lb, 'PolynomialOptimizationNonLinear<10>', 'scaleSegmentTimesWithViolation',
               opaque=('solveLinear', 'updateSegmentTimes', 'scaleSegmentTimesToMeetConstraints', 'computeMaxVelocityAndAcceleration', 'getTrajectory', 'getSegmentTimes'), probe=probe)
    sites = [ev for ev, tags, st in S.evs if ev.kind == 'call' and ev.p is not None]
    for st in S.ends:
        p = S.I.value(st, L(('this',), (('f', 'poly_opt_'),)))
        t = p
        if not (t[0] == 'mut' and t[1].endswith('::solveLinear')):
            S.bad('solve', 'does not solve again with the new times')
        u = t[3] if t[0] == 'mut' and len(t) > 3 else t
        if not (contains(p, lambda y: y[0] == 'mut' and y[1].endswith('::updateSegmentTimes') and
                         contains(y[4:], lambda z: z[:1] == ('mut',) and z[1].endswith('::scaleSegmentTimesToMeetConstraints')))):
            S.bad('times', 'does not take over the times of the scaled trajectory')
    if not sites:
        S.bad('never', 'does not scale the trajectory')
    inf = (BIG, float('inf'))
    for cons in ((), ((1, 3.0),), ((2, 5.0),), ((1, 3.0), (2, 5.0)), ((2, 5.0), (1, 3.0)), ((3, 9.0), (2, 5.0), (1, 3.0)), ((1, 3.0), (2, 5.0), (3, 9.0))):
        look = inputs({'this': {'inequality_constraints_': [{'derivative': o, 'value': v} for o, v in cons], 'poly_opt_': {},
                                'optimization_parameters_': {'print_debug_info_time_allocation': False}}})
        n = 0
        for ev in sites:
            M = Model(S.I, look)
            if M.holds(ev.p.facts.items()) is False:
                continue
            n += 1
            S.n += 1
            args = [M.ev(x) for x in ev.args[-2:]]
            d = dict(cons)
            for k, o, w in ((0, 1, 'velocity'), (1, 2, 'acceleration')):
                if o in d and args[k] != d[o]:
                    S.bad(w, 'does not scale with the %s limit of the constraints' % w)
                if o not in d and args[k] not in inf:
                    S.bad(w + ' free', 'restricts the %s although it is not constrained' % w)
            tr = S.I.value(ev.p, ev.obj) if ev.obj is not None and ev.obj[0] == 'L' else None
            if tr is None or not contains(tr, lambda y: y[0] == 'out' and isinstance(y[1], str) and y[1].endswith('::getTrajectory')):
                S.bad('trajectory', 'does not scale the current trajectory')
        if not n:
            S.bad('skipped', 'does not scale the trajectory for some constraints')
    S.done('scaled to the constrained limits')
