"""C25: the optimiser refuses invalid problems. The set-up is summarised symbolically; every defect of a problem (numbers,
dimensions, derivative, times) is given to the summary, and no path that it allows may finish or write a matrix.
A path refuses where its conditions are false, or where a loop on it has no iteration that goes on for some element."""
import itertools
from lib import *
from model import Model, inputs
from loader import AnalysisError
from rules_ext import Search, pname
from rules_io import free_loops

N = 10


def loop_tagger(ev, st):
    if ev.kind == 'loop' and not nested(st):
        return st.tags | {('loop', ev.extra)}
    return None


def nested(st):
    """inside of an iteration (indices bound by a summarised loop do not count)"""
    return bool(free_loops(st, None))


class Setup:
    rule = 'validation'

    def __init__(self, ctx, Lb, cls, name, n=None):
        self.ctx = ctx
        self.f = f = Lb.method(cls, name, n)
        self.sn = f['name'].replace(NS, '')
        self.where = '%s:%s' % (f['file'], f['l'])

        def probe(I, ev, st):
            return st.copy() if ev.kind in ('iterend', 'w') else None
        self.evs, self.ends, self.thrown, self.I = Lb.run(f, disj=True, inline=lambda g: '/rpoly/' not in g['file'], tagger=loop_tagger, probe=probe)
        self.iters = {}
        for ev, tags, st in self.evs:
            if ev.kind == 'iterend':
                self.iters.setdefault(ev.extra, []).append((ev.val is None, ev.p))
        P = Lb.prog
        self.writes = [(ev, tags) for ev, tags, st in self.evs if ev.kind == 'w' and ev.loc is not None and ev.loc[0] == 'L' and ev.loc[1] == ('this',)
                       and any(s[0] == 'f' and 'matri' in s[1] for s in ev.loc[2]) and any(s[0] == 'e' for s in ev.loc[2])]
        self.failed, self.n = set(), 0

    def bad(self, key, msg):
        if key not in self.failed:
            self.failed.add(key)
            self.ctx.bad(self.rule, '%s:%s' % (self.sn, key), self.where, '%s %s' % (self.sn, msg))

    def trips(self, lid, M):
        info = self.I.loops.get(lid) or {}
        rv = info.get('rangeval')
        if rv is not None:
            v = M.ev(rv)
            return len(v) if isinstance(v, (list, dict)) else None
        ns = {M.ev(x) for x in info.get('trips') or () if x is not None}
        if len(ns) == 1:
            v = ns.pop()
            return v if isinstance(v, int) and 0 <= v < 20 else None
        return None

    def passes(self, lid, M):
        """can the loop be left in this case?"""
        n = self.trips(lid, M)
        if n is None:
            return True
        for k in range(n):
            env = {mk(('ix', lid)): k}
            go = stop = False
            for cont, st in self.iters.get(lid, ()):
                if self.holds(st, M, env) is not False:
                    go, stop = go or cont, stop or not cont
            if stop:
                return True
            if not go:
                return False
        return True

    def holds(self, st, M, env):
        fs = [(t, b) for t, b in st.facts.items()]
        return M.holds(fs, env, 0) if env else M.holds(fs)

    def reach(self, st, tags, look, limit=3):
        """environments under which the state is reached"""
        M = Model(self.I, look)
        if any(not self.passes(t[1], M) for t in tags if t[0] == 'loop' and mk(('ix', t[1])) not in free_loops(st, self.I)):
            return
        ix = [x for x in free_loops(st, self.I)]
        for c_ in itertools.product(range(limit), repeat=min(len(ix), 3)):
            env = {mk(k): v for k, v in zip(ix, c_)}
            over = False
            for k, v in env.items():
                n = self.trips(k[1], M)
                over |= n is not None and v >= n
                # the iterations in front have to go on
                for j in range(v if n is not None else 0):
                    e = {k: j}
                    over |= not any(cont and self.holds(s, M, e) is not False for cont, s in self.iters.get(k[1], ()))
            if not over and self.holds(st, M, env) is not False:
                yield M, env

    def accepted(self, look):
        self.n += 1
        for st in self.ends:
            for M, env in self.reach(st, st.tags, look):
                r = M.ev(st.ret, env) if st.ret is not None else True
                if r is False or r == 0 and r is not None and r is not True:
                    continue
                return True
        return False

    def computed(self, look, bad):
        """a matrix is written; bad(env) tells whether for the defective element"""
        for ev, tags in self.writes:
            for M, env in self.reach(ev.p, tags, look):
                if bad(ev, env, M):
                    return '%s:%s' % (ev.file, ev.line) if hasattr(ev, 'file') else str(ev.line)
        return None


def vertex(d):
    return {'D_': d, 'constraints_': {}}


def element(ev, env, M):
    """index of the element of the list of matrices that is written"""
    k = [s[1] for s in ev.loc[2] if s[0] == 'e'][0]
    return M.ev(k, env)


def problems(D):
    ok = lambda n: ([vertex(D) for _ in range(n + 1)], [1.0 + i for i in range(n)], 3)
    out = []
    for nv, nt in itertools.product(range(0, 4), range(0, 4)):
        if nv != nt + 1:
            out.append(('numbers', 'a set-up with different numbers of vertices and segment times', ([vertex(D)] * nv, [1.0] * nt, 3), None))
    for n in (1, 2):
        for i in range(n + 1):
            for d in (D - 1, D + 1):
                v, t, o = ok(n)
                v[i] = vertex(d)
                out.append(('dimension', 'a vertex of another dimension than the optimisation', (v, t, o), None))
        for i in range(n):
            for x in (0.0, -1.0):
                v, t, o = ok(n)
                t[i] = x
                out.append(('time', 'a segment time that is not positive', (v, t, o), i))
        for o in (-1, N // 2, N // 2 + 1, N):
            v, t, _ = ok(n)
            out.append(('derivative', 'a derivative that the polynomial cannot represent', (v, t, o), None))
    return out, [ok(1), ok(2)]


def linear(D, n=0):
    return {'dimension_': D, 'n_segments_': n, 'n_vertices_': n + 1, 'segments_': [{'time_': 1.0, 'D_': D, 'N_': N} for _ in range(n)], 'segment_times_': [1.0] * n,
            'derivative_to_optimize_': 3, 'vertices_': [vertex(D)] * (n + 1), 'cost_matrices_': [{}] * n, 'inverse_mapping_matrices_': [{}] * n}


def check_C25(ctx):
    Lb = lib(ctx)
    for cls, wrap in (('PolynomialOptimization<10>', lambda x: x), ('PolynomialOptimizationNonLinear<10>', lambda x: {'poly_opt_': x})):
        S = Setup(ctx, Lb, cls, 'setupFromVertices', 3)
        v, t, o = (pname(S.f, i) for i in range(3))
        if not S.writes:
            raise AnalysisError('%s: no matrix is computed' % S.sn)
        for D in (1, 3):
            bads, good = problems(D)
            for key, what, (vs, ts, d), idx in bads:
                look = inputs({'this': wrap(linear(D)), ('p', v): vs, ('p', t): ts, ('p', o): d})
                if S.accepted(look):
                    S.bad(key, 'accepts ' + what)
                elif idx is None and S.computed(look, lambda ev, env, M: True) is not None:
                    S.bad(key + ' late', 'computes matrices before it refuses ' + what)
                elif idx is not None and S.computed(look, lambda ev, env, M: element(ev, env, M) in (idx, None)) is not None:
                    S.bad(key + ' late', 'computes the matrix of a segment before it refuses ' + what)
            for vs, ts, d in good:
                for d in range(0, N // 2):
                    if not S.accepted(inputs({'this': wrap(linear(D)), ('p', v): vs, ('p', t): ts, ('p', o): d})):
                        S.bad('valid', 'refuses a valid problem')
        finish(ctx, S, 'every invalid problem is refused before a matrix is computed from it')
    S = Setup(ctx, Lb, 'PolynomialOptimization<10>', 'updateSegmentTimes')
    t = pname(S.f, 0)
    for n in (1, 2, 3):
        for m in range(0, 5):
            look = inputs({'this': linear(3, n), ('p', t): [1.0 + i for i in range(m)]})
            if S.accepted(look) != (m == n):
                S.bad('numbers' if m != n else 'valid', 'accepts a number of segment times that is not that of the segments' if m != n else 'refuses valid segment times')
            elif m != n and S.computed(look, lambda ev, env, M: True):
                S.bad('numbers late', 'computes matrices before it refuses the number of segment times')
        for i in range(n):
            for x in (0.0, -1.0):
                ts = [1.0] * n
                ts[i] = x
                look = inputs({'this': linear(3, n), ('p', t): ts})
                if S.accepted(look):
                    S.bad('time', 'accepts a segment time that is not positive')
                elif S.computed(look, lambda ev, env, M: element(ev, env, M) in (i, None)):
                    S.bad('time late', 'computes the matrix of a segment before it refuses its time')
    finish(ctx, S, 'every invalid list of times is refused')


def finish(ctx, S, what):
    if not S.failed:
        ctx.ok(S.rule, '%s: %s (%d cases)' % (S.sn, what, S.n))


# ---- C24: nothing is produced from matrices of other times
OPQ = ('computeQuadraticCostJacobian', 'setupMappingMatrix', 'invertMappingMatrix', 'scaleSegmentTimesToMeetConstraints', 'computeMaxVelocityAndAcceleration',
       'computeMaximumOfMagnitude')
LIN, NLI = 'PolynomialOptimization<10>', 'PolynomialOptimizationNonLinear<10>'
PRODUCERS = ('computeCost', 'getTrajectory', 'getSegments', 'computeMaximumOfMagnitude')


class Fresh:
    """runs a function with n segments of D dimensions and reads the members of the linear optimiser"""
    rule = 'refreshed'

    def __init__(self, ctx, Lb, cls, name, n, D, root=('this',), pre=(), sizes=(), nargs=None):
        from engine import State
        self.ctx, self.n, self.D = ctx, n, D
        self.f = f = Lb.method(cls, name, nargs)
        self.sn = f['name'].replace(NS, '')
        self.where = '%s:%s' % (f['file'], f['l'])
        if root == 'data':
            root = ('*', mk(('init', L(('p', f['params'][-1]['name'])))))
        self.root, self.pre = root, pre
        st = State()
        st.store[self.at('n_segments_')] = c(n)
        st.store[self.at('n_vertices_')] = c(n + 1)
        st.store[self.at('dimension_')] = c(D)
        for m, k in (('segments_', n), ('segment_times_', n), ('cost_matrices_', n), ('inverse_mapping_matrices_', n),
                     ('fixed_constraints_compact_', D), ('free_constraints_compact_', D)):
            st.store[self.at(m)] = ('sized', ('init', self.at(m)), c(k))
        for p, k in sizes:
            p = pname(f, p)
            st.store[L(('p', p))] = ('sized', ('init', L(('p', p))), c(k))
        self.old = {m: st.store[self.at(m)] for m in ('segments_', 'segment_times_', 'cost_matrices_', 'inverse_mapping_matrices_', 'fixed_constraints_compact_', 'free_constraints_compact_')}

        def probe(I, ev, s):
            return s.copy() if ev.kind == 'call' and ev.name.split('::')[-1] in PRODUCERS or ev.kind == 'enter' and (ev.name or '').split('::')[-1] in PRODUCERS else None
        self.evs, self.ends, self.thrown, self.I = Lb.run(f, disj=True, inline=lambda g: '/rpoly/' not in g['file'], init=st, rounds=8, probe=probe, opaque=OPQ)
        self.failed, self.k = set(), 0
        if not self.ends:
            raise AnalysisError('%s never returns' % self.sn)

    def at(self, *steps):
        return L(self.root, tuple(('f', x) for x in self.pre) + tuple(('e', c(s)) if isinstance(s, int) else ('f', s) for s in steps))

    def val(self, st, *steps):
        return mk(self.I.value(st, self.at(*steps)))

    def bad(self, key, msg):
        if key not in self.failed:
            self.failed.add(key)
            self.ctx.bad(self.rule, '%s:%s' % (self.sn, key), self.where, '%s %s' % (self.sn, msg))

    def same(self, m, i, v):
        """v is what the member held before the call"""
        return v == mk(self.I.proj(self.old[m], ('e', c(i)))) or v == mk(('init', self.at(m, i)))

    def vague(self, v):
        return contains(v, lambda y: y[:1] in (('unk',), ('opq',)))

    def of(self, v, part):
        """v was computed from part"""
        return contains(v, lambda y: y == part)

    def member(self, v, m):
        return contains(v, lambda y: y[:1] == ('init',) and y[1] == self.at(m))

    def matrices(self, st, times=None, when='leaves'):
        """matrices belong to the times"""
        for i in range(self.n):
            self.k += 1
            t = self.val(st, 'segment_times_', i)
            if times is not None and t != mk(times(i)):
                self.bad('times', '%s segment times that are not the given ones' % when)
            for m, what in (('cost_matrices_', 'cost matrix'), ('inverse_mapping_matrices_', 'mapping matrix')):
                v = self.val(st, m, i)
                if self.same('segment_times_', i, t) and self.same(m, i, v):
                    continue
                if self.same(m, i, v):
                    self.bad(m, '%s the %s of a segment unchanged although its time changed' % (when, what))
                elif not self.of(v, t) and not self.vague(v):
                    self.bad(m, '%s a %s that is not computed from the time of its segment' % (when, what))
                elif m == 'cost_matrices_' and not self.of(v, self.val(st, 'derivative_to_optimize_')) and not self.vague(v):
                    self.bad(m + ' derivative', '%s a %s that is not computed for the derivative to optimise' % (when, what))

    def solved(self, st, when='leaves', force=False):
        """segments belong to the times, matrices and constraints"""
        for i in range(self.n):
            self.k += 1
            t = self.val(st, 'segment_times_', i)
            st_ = self.val(st, 'segments_', i, 'time_')
            ch = not self.same('segment_times_', i, t) or force
            if ch and st_ != t:
                self.bad('segment time', '%s a segment whose duration is not its segment time' % when)
            a = self.val(st, 'inverse_mapping_matrices_', i)
            for d in range(self.D):
                p = self.val(st, 'segments_', i, 'polynomials_', d)
                fr, fx = self.val(st, 'free_constraints_compact_', d), self.val(st, 'fixed_constraints_compact_', d)
                ch = force or not (self.same('inverse_mapping_matrices_', i, a) and self.same('free_constraints_compact_', d, fr) and self.same('fixed_constraints_compact_', d, fx))
                if not ch:
                    continue
                for x, what in ((a, 'mapping matrix'), (fr, 'free constraints'), (fx, 'fixed constraints')):
                    if not self.of(p, x) and not self.vague(p):
                        self.bad('segment ' + what, '%s a segment that is not computed from the current %s' % (when, what))

    def produced(self):
        """what is produced on the way is produced from refreshed segments"""
        for ev, tags, st in self.evs:
            if getattr(ev, 'p', None) is not None and ev.kind in ('call', 'enter'):
                what = ev.name.split('::')[-1]
                self.matrices(ev.p, None, 'uses (%s)' % what)
                self.solved(ev.p, 'uses (%s)' % what)

    def done(self, what):
        if not self.k:
            raise AnalysisError('%s: nothing to compare' % self.sn)
        if not self.failed:
            self.ctx.ok(self.rule, '%s: %s (%d segments, %d dimensions, %d comparisons)' % (self.sn, what, self.n, self.D, self.k))


def given(f, k):
    p = pname(f, k)
    return lambda *i: ('at', ('sized', ('init', L(('p', p))), c(i[0])), c(i[1]))


def check_C24(ctx):
    Lb = lib(ctx)
    for n, D in ((1, 1), (2, 2), (3, 1)):
        F = Fresh(ctx, Lb, LIN, 'updateSegmentTimes', n, D, sizes=((0, n),))
        for st in F.ends:
            F.matrices(st, lambda i: F.I.proj(('sized', ('init', L(('p', pname(F.f, 0)))), c(n)), ('e', c(i))))
        F.done('matrices of every segment belong to the new times')
        F = Fresh(ctx, Lb, LIN, 'setupFromVertices', n, D, sizes=((0, n + 1), (1, n)), nargs=3)
        for st in F.ends:
            F.matrices(st, lambda i: F.I.proj(('sized', ('init', L(('p', pname(F.f, 1)))), c(n)), ('e', c(i))))
            for m in ('constraint_reordering_', 'n_free_constraints_', 'n_fixed_constraints_', 'n_all_constraints_'):
                v = F.val(st, m)
                if v == mk(('init', F.at(m))):
                    F.bad(m, 'leaves the constraints of the former problem')
                elif F.member(v, 'vertices_'):
                    F.bad(m, 'orders the constraints of the former vertices')
            if F.val(st, 'derivative_to_optimize_') != mk(('init', L(('p', pname(F.f, 2))))):
                F.bad('derivative', 'does not take over the derivative to optimise')
        F.done('everything derived belongs to the new problem')
        F = Fresh(ctx, Lb, LIN, 'solveLinear', n, D)
        zero = [op('==', c(0), ('init', F.at('n_free_constraints_'))), op('==', ('init', F.at('n_free_constraints_')), c(0))]
        for st in F.ends:
            F.solved(st, force=True)
            none = any(st.facts.get(z) is True for z in zero)
            for d in range(D):
                v = F.val(st, 'free_constraints_compact_', d)
                if not none and F.same('free_constraints_compact_', d, v):
                    F.bad('free', 'does not solve for the free constraints of every dimension')
                elif not none and not F.of(v, F.val(st, 'fixed_constraints_compact_', d)) and not F.vague(v):
                    F.bad('free', 'solves for the free constraints without the fixed ones of the same dimension')
                for m in kept(F, v):
                    F.bad('kept', 'solves with %s, which is kept from an earlier problem' % m)
        F.done('a solution refreshes every segment')
        F = Fresh(ctx, Lb, LIN, 'setFreeConstraints', n, D, sizes=((0, D),))
        for st in F.ends:
            F.solved(st, force=True)
            for d in range(D):
                if F.val(st, 'free_constraints_compact_', d) != mk(F.I.proj(('sized', ('init', L(('p', pname(F.f, 0)))), c(D)), ('e', c(d)))):
                    F.bad('free', 'does not take over the free constraints of every dimension')
        F.done('free constraints refresh every segment')
    P = ('poly_opt_',)
    for n, D in ((1, 1), (2, 1)) if not ctx.thorough else ((1, 1), (2, 1), (2, 2), (3, 1)):
        for name, sizes in (('objectiveFunctionTime', ((0, n),)), ('objectiveFunctionTimeMellingerOuterLoop', ((0, n),)), ('objectiveFunctionTimeAndConstraints', ())):
            F = Fresh(ctx, Lb, NLI, name, n, D, root='data', pre=P, sizes=sizes)
            for st in F.ends:
                if sizes:
                    F.matrices(st, lambda i: F.I.proj(('sized', ('init', L(('p', pname(F.f, 0)))), c(n)), ('e', c(i))))
                else:
                    F.matrices(st)
                F.solved(st)
                if any(F.same('segment_times_', i, F.val(st, 'segment_times_', i)) for i in range(n)):
                    F.bad('ignored', 'does not take over the segment times')
            F.produced()
            F.done('costs belong to the times and constraints they are asked for')
        for name in ('getCostAndGradientMellinger', 'scaleSegmentTimesWithViolation'):
            F = Fresh(ctx, Lb, NLI, name, n, D, pre=P)
            for st in F.ends:
                F.matrices(st)
                F.solved(st)
                F.k += 1
            F.produced()
            F.done('the optimiser is left with segments of its times')


KNOWN = ('segments_', 'segment_times_', 'cost_matrices_', 'inverse_mapping_matrices_', 'fixed_constraints_compact_', 'free_constraints_compact_', 'constraint_reordering_',
         'n_free_constraints_', 'n_fixed_constraints_', 'n_all_constraints_', 'n_segments_', 'n_vertices_', 'dimension_', 'vertices_', 'derivative_to_optimize_')


def kept(F, v):
    out = set()

    def see(y):
        if y[:1] == ('init',) and y[1][1] == F.root and y[1][2] and y[1][2][0][0] == 'f' and y[1][2][0][1] not in KNOWN:
            out.add(y[1][2][0][1])
        return False
    contains(v, see)
    return sorted(out)
