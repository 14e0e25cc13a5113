"""Trajectory container and samplers: library part of C09; C17, C18, C23."""
from lib import *
from algebra import *
from shapes import loop_full
from loader import AnalysisError

SEG_EVAL = 'Segment::evaluate'


def snap(I, ev, st):
    if ev.kind in ('call', 'iterend', 'w', 'end'):
        return st.copy()


def seg_time(I, el):
    """duration of the segment value el"""
    return I.proj(el, ('f', 'time_'))


def pre(lid):
    return mk(('s', '#pre', lid))


TOTAL = mk(('s', '#total'))


def iter_states(evs, lid):
    """states at the end of the iterations of a loop that go on / that leave it"""
    on, off = [], []
    for ev, tags, st in evs:
        if ev.kind == 'iterend' and ev.extra == lid:
            (on if ev.val is None else off).append(ev.p)
    return on, off


def lv_step(I, evs, lid, m, state):
    return I.value(state, m)


def prefix_norm(I, evs, t, C):
    """polynomial of t in which running sums of the segment durations of C read #pre(loop) (the segments
    visited so far) or #total"""
    def same_elem(x, lid):
        return x == seg_time(I, I.proj(C, ('e', mk(('ix', lid)))))

    def atom(x):
        if x[0] == 'lv' and len(x) == 3:
            fo = fold_of(I, x)
            if fo is None:
                return None
            on, _ = iter_states(evs, x[1])
            sgn = set()
            for s in on:
                p = padd(poly(I.value(s, x[2])), {((x, 1),): 1}, -1)
                if peq(p, poly(seg_time(I, I.proj(C, ('e', mk(('ix', x[1]))))))):
                    sgn.add(1)
                elif peq(scaled(p, -1), poly(seg_time(I, I.proj(C, ('e', mk(('ix', x[1]))))))):
                    sgn.add(-1)
                else:
                    return None
            if len(sgn) != 1:
                return None
            return padd(poly(fo[3], atom), {((pre(x[1]), 1),): sgn.pop()})
        if x[0] == 'fold':
            lid, m, base, step = x[1:5]
            p = padd(poly(step), {((mk(('lv', lid, m)), 1),): 1}, -1)
            tm = poly(seg_time(I, I.proj(C, ('e', mk(('ix', lid))))))
            for k in (1, -1):
                if peq(scaled(p, k), tm):
                    full = size(C) in (I.loops.get(lid) or {}).get('trips', ()) or loop_full(I, lid, C)
                    if full:
                        return padd(poly(base, atom), {((TOTAL, 1),): k})
        return None
    return poly(t, atom)


def fold_of(I, lv):
    f = (I.loops.get(lv[1]) or {}).get('folds') or {}
    v = f.get(lv[2])
    if v is not None and v[0] == 'fold':
        return mk(v)
    return None


def prefix(I, C, idx):
    """sum of the durations of the segments of C in front of index idx"""
    if idx[0] == 'ix':
        return {((pre(idx[1]), 1),): 1}
    if idx == op('-', size(C), c(1)):
        return padd({((TOTAL, 1),): 1}, poly(seg_time(I, I.proj(C, ('e', idx)))), -1)
    if idx == c(0):
        return {}
    return None


def holds(facts, p, strict=False):
    """some fact says p >= 0 (or > 0): the polynomial is the difference of the two sides of a comparison"""
    for t, v in facts.items():
        if t[0] == 'op' and t[1] == '<':
            d = padd(poly(t[3]), poly(t[2]), -1)      # t true: d > 0, false: -d >= 0
            if v and peq(d, p):
                return True
            if not v and not strict and peq(scaled(d, -1), p):
                return True
            if not v and not strict is False and False:
                return True
        if t[0] == 'op' and t[1] == '==' and v and not strict:
            d = padd(poly(t[3]), poly(t[2]), -1)
            if peq(d, p) or peq(scaled(d, -1), p):
                return True
    return False


def in_bounds(I, evs, facts, C, idx):
    n = size(C)
    if idx[0] == 'ix':
        return op('<', idx, n) in facts and facts[op('<', idx, n)] is True
    if facts.get(op('<', idx, n)) is True:
        return True
    nonempty = facts.get(op('==', c(0), n)) is False or any(t[0] == 'op' and t[1] == '<' and t[3] == n and v for t, v in facts.items())
    if idx == op('-', n, c(1)):
        return nonempty
    if isc(idx):
        return idx == c(0) and nonempty
    if idx[0] == 'lv' and len(idx) == 3:
        fo = fold_of(I, idx)
        if fo is None:
            return False
        for a in alts_of(fo[3]):
            if not (a == op('-', n, c(1)) and nonempty or a == c(0) and nonempty or a[0] == 'ix' or facts.get(op('<', a, n)) is True):
                return False
        on, _ = iter_states(evs, idx[1])
        for s in on:
            v = I.value(s, idx[2])
            if v != idx and s.facts.get(op('<', v, n)) is not True:
                return False
        return True
    return False


def alts_of(v):
    return list(v[1]) if v[0] == 'phi' else [x for _, x in v[1:]] if v[0] == 'cases' else [v]


def container_spans(ctx):
    """Trajectory::evaluate and evaluateRange pick the segment and the time inside it that belong to the time asked for"""
    Lb = lib(ctx, [SRC + 'trajectory.cpp'])
    f = Lb.method('Trajectory', 'evaluate')
    evs, ends, thrown, I = Lb.run(f, opaque=[SEG_EVAL], probe=snap)
    t = ('init', L(('p', f['params'][0]['name'])))
    order = ('init', L(('p', f['params'][1]['name'])))
    n = 0
    seen = set()
    for ev, tags, st in evs:
        if ev.kind == 'call' and ev.name.endswith(SEG_EVAL):
            facts = ev.p.facts
            k = (ev.where(), ev.obj, ev.args, tuple(sorted(map(repr, facts.items()))))
            if k in seen:
                continue
            seen.add(k)
            C, idx = elem_of(ev.obj)
            n += 1
            ctx.ok('segment', 'evaluate(%s) of segment %s' % (show(ev.args[0])[:100], show(idx)[:60] if idx else '?'))
            if idx is None:
                ctx.bad('segment', 'evaluate:which', ev.where(), 'evaluate does not evaluate one of the segments')
                continue
            x = ev.args[0]
            if not in_bounds(I, evs, facts, C, idx):
                ctx.bad('bounds', 'evaluate', ev.where(), 'evaluate may access segment %s of a trajectory that has no such segment' % show(idx)[:80])
            pf = prefix(I, C, idx)
            xs = padd(prefix_norm(I, evs, x, C), poly(t), -1)
            if pf is None or not peq(padd(xs, pf), {}):
                ctx.bad('segment', 'evaluate:time', ev.where(), 'segment %s is evaluated at %s, which is not the time asked for minus the duration of the segments in front of it' % (show(idx)[:60], show(x)[:120]))
                continue
            if len(ev.args) < 2 or ev.args[1] != order:
                ctx.bad('segment', 'evaluate:order', ev.where(), 'a segment is evaluated for another derivative than asked for')
            if not fits(I, evs, facts, C, idx, x, t):
                ctx.bad('inside', 'evaluate:late', ev.where(), 'segment %s may be evaluated after its end: times past the end of the trajectory are not rejected' % show(idx)[:60])
            # earlier segments were skipped because they end before t
            if idx[0] == 'ix':
                on, _ = iter_states(evs, idx[1])
                T = seg_time(I, I.proj(C, ('e', idx)))
                for s in on:
                    p = padd(padd(poly(t), {((pre(idx[1]), 1),): 1}, -1), poly(T), -1)
                    if not holds_norm(I, evs, s.facts, p, C):
                        ctx.bad('inside', 'evaluate:early', ev.where(), 'a segment that has not ended at the time asked for may be passed over')
            elif idx == op('-', size(C), c(1)):
                pass
    ctx.ok('segment', '%d evaluations in Trajectory::evaluate' % n)
    if not n:
        ctx.bad('segment', 'evaluate:none', f['name'], 'evaluate evaluates no segment')
    check_range(ctx, Lb)
    samplers(ctx)


def holds_norm(I, evs, facts, p, C):
    """p >= 0 follows from one fact, running sums normalised"""
    for t, v in facts.items():
        if t[0] == 'op' and t[1] == '<':
            d = padd(prefix_norm(I, evs, t[3], C), prefix_norm(I, evs, t[2], C), -1)
            if peq(d if v else scaled(d, -1), p):
                return True
        if t[0] == 'op' and t[1] == '==' and v:
            d = padd(prefix_norm(I, evs, t[3], C), prefix_norm(I, evs, t[2], C), -1)
            if peq(d, p) or peq(scaled(d, -1), p):
                return True
    return False


def fits(I, evs, facts, C, idx, x, t):
    """the local time is not past the end of the segment"""
    T = seg_time(I, I.proj(C, ('e', idx)))
    want = padd(poly(T), prefix_norm(I, evs, x, C), -1)
    if idx == op('-', size(C), c(1)):
        # T(last) - (t - total + T(last)) = total - t
        want = padd({((TOTAL, 1),): 1}, poly(t), -1)
    return holds_norm(I, evs, facts, want, C)


def elem_of(loc):
    if loc is not None and loc[0] == 'L' and loc[2] and loc[2][-1][0] == 'e':
        return mk(('init', ('L', loc[1], loc[2][:-1]))), loc[2][-1][1]
    return None, None


def check_range(ctx, Lb):
    f = Lb.method('Trajectory', 'evaluateRange')
    ps = [('init', L(('p', p['name']))) for p in f['params']]
    if len(ps) < 6:
        raise AnalysisError('anchor vanished: evaluateRange(t_start, t_end, dt, order, result, times)')
    t0, t1, dt, order = ps[:4]
    evs, ends, thrown, I = Lb.run(f, opaque=[SEG_EVAL], probe=snap, cap=64)
    n = 0
    seen = set()
    for ev, tags, st in evs:
        if not (ev.kind == 'call' and ev.name.endswith(SEG_EVAL)):
            continue
        facts = ev.p.facts
        k = (ev.where(), ev.obj, ev.args, tuple(sorted(map(repr, facts.items()))))
        if k in seen:
            continue
        seen.add(k)
        n += 1
        C, idx = elem_of(ev.obj)
        x = ev.args[0]
        ctx.ok('range', 'sample at %s of segment %s' % (show(x)[:80], show(idx)[:60] if idx else '?'))
        if idx is None or not ev.loops:
            ctx.bad('range', 'which', ev.where(), 'evaluateRange does not sample its segments one after the other')
            continue
        lid = ev.loops[-1]
        if not in_bounds(I, evs, facts, C, idx):
            ctx.bad('bounds', 'range', ev.where(), 'evaluateRange may access segment %s of a trajectory that has no such segment' % show(idx)[:80])
        T = seg_time(I, I.proj(C, ('e', idx)))
        if not holds_norm(I, evs, facts, padd(poly(T), poly(x), -1), C):
            ctx.bad('inside', 'range:late', ev.where(), 'evaluateRange may sample a segment after its end')
        if ev.args[1] != order:
            ctx.bad('range', 'order', ev.where(), 'evaluateRange samples another derivative than asked for')
        # sample times recorded along
        S = None
        for ev2, _, st2 in evs:
            if ev2.kind == 'w' and ev2.loops and ev2.loops[-1] == lid and ev2.val is not None and ev2.val[0] == 'push' and ev2.loc is not None \
                    and contains(mk(('x', ev2.loc)), lambda y: y == mk(ps[5])):
                S = ev2.val[2]
        if S is None:
            ctx.bad('range', 'times', ev.where(), 'evaluateRange does not record the times of its samples')
            continue
        # base: the first sample is at t_start, in the segment that contains it
        lvs = [y for y in dict.fromkeys(list(walk(x)) + list(walk(idx)) + list(walk(S))) if y and y[0] == 'lv' and len(y) == 3 and y[1] == lid]
        folds = {y: fold_of(I, y) for y in lvs}
        if any(v is None for v in folds.values()):
            ctx.bad('range', 'loop', ev.where(), 'the loop of evaluateRange cannot be summarised')
            continue
        base = {y: folds[y][3] for y in lvs}
        base[mk(('ix', lid))] = c(0)
        for sb in unphi(subst(S, base)) or [subst(S, base)]:
            if not peq(prefix_norm(I, evs, sb, C), poly(t0)):
                ctx.bad('range', 'start', ev.where(), 'the first sample of evaluateRange is recorded at %s, not at the start of the range' % show(sb)[:120])
        ib = unphi(subst(idx, base)) or []
        for xb in unphi(subst(x, base)) or [subst(x, base)]:
            if not any(prefix(I, C, i) is not None and peq(padd(padd(prefix_norm(I, evs, xb, C), poly(t0), -1), prefix(I, C, i)), {}) for i in ib):
                ctx.bad('range', 'local', ev.where(), 'the first sample of evaluateRange is taken at %s, which does not correspond to the start of the range' % show(xb)[:160])
        # step
        on, _ = iter_states(evs, lid)
        for s in on:
            new = {y: I.value(s, y[2]) for y in lvs}
            new[mk(('ix', lid))] = op('+', mk(('ix', lid)), c(1))
            dS = padd(poly(subst(S, new)), poly(S), -1)
            dX = padd(poly(subst(x, new)), poly(x), -1)
            di = pconst(padd(poly(subst(idx, new)), poly(idx), -1))
            ok = di in (0, 1) and (peq(dX, dS) if di == 0 else peq(padd(dX, poly(T)), dS)) and (peq(dS, {}) or peq(dS, poly(dt)))
            ctx.ok('range', 'step')
            if not ok:
                ctx.bad('range', 'step', '%s:%s' % (I.loops[lid]['file'], I.loops[lid]['line']),
                        'an iteration of evaluateRange moves the recorded time by %s and the time in the segment by %s while the segment changes by %s: they no longer belong together' % (
                            showp(dS), showp(dX), di))
        # nothing is sampled at or past the end of the range
        if not holds(facts, padd(poly(t1), poly(S), -1)):
            ctx.bad('range', 'end', ev.where(), 'evaluateRange may sample past the end of the range')
    if not n:
        ctx.bad('range', 'none', f['name'], 'evaluateRange samples nothing')


def showp(p):
    return ' + '.join('%s%s' % ('' if v == 1 else '%s*' % v, '*'.join(show(a) for a, _ in m)[:60] if m else '1') for m, v in p.items()) or '0'


def samplers(ctx):
    from rules_motion import norm_span, END, MAXT, WORLD
    Lb = lib(ctx, [SRC + 'trajectory_sampling.cpp'])
    for sn in ('sampleTrajectoryAtTime', 'sampleTrajectoryInRange', 'sampleTrajectoryStartDuration', 'sampleWholeTrajectory', 'sampleSegmentAtTime'):
        f = Lb.fn(sn)
        evs, ends, thrown, I = Lb.run(f, opaque=['Trajectory::evaluate', 'Segment::evaluate', 'Trajectory::evaluateRange', 'Trajectory::getMaxTime', 'Trajectory::getMinTime'], probe=snap)
        n = 0
        seen = set()
        for ev, tags, st in evs:
            if ev.kind != 'call' or not ev.name.endswith(('Trajectory::evaluate', 'Segment::evaluate', 'Trajectory::evaluateRange')):
                continue
            obj = mk(('init', ev.obj))

            def norm(t):
                t = norm_span(t, obj)
                return subst(t, {seg_time(I, obj): END, mk(('fn', NS + 'Segment::getTime', obj)): END})
            a = norm(ev.args[0])
            b = norm(ev.args[1]) if ev.name.endswith('Range') else a
            facts = {norm(t): v for t, v in ev.p.facts.items()}
            k = (ev.where(), a, b, tuple(sorted(map(repr, facts.items()))))
            if k in seen:
                continue
            seen.add(k)
            n += 1
            qs = [('end', poly(END), (MAXT,))]
            for nm, x in (('a', a), ('b', b)):
                if pconst(poly(x)) is None and not any(peq(poly(x), q) for _, q, _ in qs):
                    qs.append((nm, poly(x), WORLD))
            O = Order(qs)
            for w in O.worlds():
                if O.consistent(facts, w):
                    va, vb = O.val(a, w), O.val(b, w)
                    if va is None or vb is None or va < 0 or vb > MAXT:
                        ctx.bad('sampler', sn, ev.where(), '%s evaluates outside the time span of what it samples' % sn)
                        break
            ctx.ok('sampler', '%s at %s' % (sn, ev.where()))
        if not n:
            ctx.bad('sampler', sn + ':none', f['name'], '%s evaluates nothing' % sn)


# ------------------------------------------------------------------------------------------ C17
HASH = mk(('s', '#'))
SEGS, MAXT = 'segments_', 'max_time_'


def strip(S):
    """container that says how many elements there are"""
    while S[0] in ('with',):
        S = S[1]
    return S


def hash_ix(t, lid):
    return subst(t, {mk(('ix', lid)): HASH})


def sum_over(p, key, dep):
    """sum of polynomial p over the elements of key; dep(atom): the atom depends on the element"""
    out = {}
    for m, v in p.items():
        d = tuple(x for x in m if dep(x[0]))
        i = tuple(x for x in m if not dep(x[0]))
        a = mk(('s', '#sum', key, d))
        q = {tuple(sorted(i + ((a, 1),), key=lambda z: serial(z[0]))): v}
        out = padd(out, q)
    return out


def has(t, x):
    return t == x or any(y == x for y in walk(t))


def plain_total(I, S):
    el = seg_time(I, I.proj(S, ('e', HASH)))
    return sum_over(poly(el), strip(S), lambda a: has(a, HASH))


class Dur:
    """sums of durations, of containers of segments and of running sums"""

    def __init__(self, I):
        self.I = I
        self.pair = {}

    def total(self, T, d=0):
        I = self.I
        if d > 12:
            return None
        if T in self.pair:
            return {((self.pair[T], 1),): 1}
        h = T[0]
        if h in ('empty', 'fresh') or h == 'ilist' and len(T) == 1:
            return {}
        if h == 'push':
            a = self.total(T[1], d + 1)
            return None if a is None else padd(a, poly(seg_time(I, T[2])))
        if h == 'append':
            a, b = self.total(T[1], d + 1), self.total(T[2], d + 1)
            return None if a is None or b is None else padd(a, b)
        if h == 'with':
            base = T[1]
            times = [(k, v) for k, v in T[2] if k and k[-1] == ('f', 'time_')]
            whole = [(k, v) for k, v in T[2] if len(k) == 1 and k[0][0] == 'e']
            if not times and not whole:
                return self.total(base, d + 1)
            if len(times) == 1 and not whole and times[0][0][0][1][0] == 'all':
                lid = times[0][0][0][1][1]
                return sum_over(poly(hash_ix(times[0][1], lid)), strip(base), lambda a: has(a, HASH))
            return None
        if h == 'cases' or h == 'phi':
            return None
        return plain_total(I, T)

    def dur(self, M, d=0):
        I = self.I

        def atom(x):
            if x in self.pair:
                return {((self.pair[x], 1),): 1}
            if x[0] == 'init' and x[1][2] and x[1][2][-1] == ('f', MAXT):
                return plain_total(I, mk(('init', L(x[1][1], x[1][2][:-1] + (('f', SEGS),)))))
            if x[0] == 'fld' and x[2] == MAXT:
                return plain_total(I, I.proj(x[1], ('f', SEGS)))
            if x[0] == 'fold':
                lid, m, base, step = x[1:5]
                p = padd(poly(step, atom), {((mk(('lv', lid, m)), 1),): 1}, -1)
                if any(has(a, mk(('lv', lid, m))) for q in p for a, k in q):
                    return None
                info = I.loops.get(lid) or {}
                trips = [t for t in info.get('trips', ()) if t is not None]
                key = None
                if info.get('breaks') or info.get('returns'):
                    return None
                for t in trips:
                    if t[0] == 'size':
                        key = strip(t[1])
                if key is None:
                    rv = info.get('rangeval')
                    if rv is not None and loop_full(I, lid):
                        key = strip(rv)
                if key is None:
                    return None
                q = {}
                for mm, v in p.items():
                    nm = tuple((hash_ix(a, lid), k) for a, k in mm)
                    q = padd(q, {nm: v})
                return padd(poly(base, atom), sum_over(q, key, lambda a: has(a, HASH)))
            return None
        return poly(M, atom)

    def equal(self, T, M, d=0):
        if d > 6:
            return False
        if T[0] == 'fld' and M[0] == 'fld' and T[1] == M[1] and T[1][0] == 'out' and (T[2], M[2]) == (SEGS, MAXT):
            return True
        for t in (self.total(T), plain_total(self.I, T) if T[0] not in ('empty',) else {}):
            if t is not None and peq(t, self.dur(M)):
                return True
        if T[0] == 'fold' and M[0] == 'fold' and T[1] == M[1]:
            if not self.equal(T[3], M[3], d + 1):
                return False
            return self.step(T[1], T[2], M[2], T[4], M[4], d)
        if T[0] == 'lv' and M[0] == 'lv' and T[1] == M[1]:
            f = (self.I.loops.get(T[1]) or {}).get('folds') or {}
            a, b = f.get(T[2]), f.get(M[2])
            return a is not None and b is not None and self.equal(mk(a), mk(b), d + 1)
        if T[0] in ('phi',) and M[0] == 'phi' and len(T[1]) == len(M[1]):
            return all(any(self.equal(x, y, d + 1) for y in M[1]) for x in T[1])
        if T[0] == 'cases' and M[0] == 'cases':
            try:
                return all(self.equal(x[1], y[1], d + 1) for x, y in zip(T[1:], M[1:])) if len(T) == len(M) else False
            except Exception:
                return False
        return False

    def step(self, lid, lt, lm, st, sm, d):
        a = mk(('s', '#run', lid, lt))
        k1, k2 = mk(('lv', lid, lt)), mk(('lv', lid, lm))
        old = dict(self.pair)
        self.pair[k1] = a
        self.pair[k2] = a
        r = self.equal(st, sm, d + 1)
        self.pair = old
        return r


def reaches(prog, pred):
    """functions from which a function satisfying pred can be called"""
    if not hasattr(prog, '_cg'):
        cg = {}
        for f in prog.fns.values():
            out = set()
            for n in loader.nodes(f.get('body') or {}):
                for k in ('fn', 'id', 'callee', 'ctor'):
                    v = n.get(k)
                    if isinstance(v, str) and v in prog.fns:
                        out.add(v)
            cg[f['id']] = out
        prog._cg = cg
    bad = {f['id'] for f in prog.fns.values() if pred(f)}
    while True:
        more = {a for a, s in prog._cg.items() if a not in bad and s & bad}
        if not more:
            return bad
        bad |= more


def traj_inline(Lb):
    heavy = reaches(Lb.prog, lambda f: '/rpoly/' in f['file'])
    return lambda g: g['id'] not in heavy and '/rpoly/' not in g['file']


def objects(f, st, I):
    """trajectories a function can have changed at its end: (name, location, returned value)"""
    out = []
    cls = NS + 'Trajectory'
    if f.get('cls') == cls and not f.get('const') and not f.get('static') and f.get('kind') != 'dtor':
        out.append(('this', L(('this',)), None))
    for p in f['params']:
        t = p['t'].replace(' ', '')
        if t.startswith('const') or 'Trajectory' not in t or 'vector' in t or 'Safe' in t:
            continue
        if t.endswith('Trajectory*'):
            out.append((p['name'], L(('*', ('init', L(('p', p['name']))))), None))
        elif t.endswith('Trajectory&'):
            out.append((p['name'], L(('p', p['name'])), None))
    if (f.get('ret') or '').replace('const ', '').endswith('Trajectory') and st.ret is not None:
        out.append(('result', None, st.ret))
    return out


def check_C17(ctx):
    Lb = lib(ctx)
    P = Lb.prog
    cls = NS + 'Trajectory'
    r = P.record(cls)
    for w in (SEGS, MAXT, 'D_', 'N_'):
        fl = [x for x in r['fields'] if x['name'] == w]
        if not fl:
            raise AnalysisError('anchor vanished: Trajectory::%s' % w)
        if fl[0].get('acc') == 'public':
            ctx.bad('encapsulated', w, '%s:%s' % (r['file'], fl[0].get('l', '')), 'anyone can change Trajectory::%s' % w)
        else:
            ctx.ok('encapsulated', w)
    inl = traj_inline(Lb)
    for f in P.methods(cls):
        if f.get('copy') or f.get('move') or f.get('defaulted') or f.get('implicit') or f.get('kind') == 'dtor' or not f.get('body'):
            continue
        t = (f.get('ret') or '').replace(' ', '')
        if 'Segment' in t and (t.endswith('&') or t.endswith('*')) and not t.startswith('const'):
            ctx.bad('encapsulated', f['sn'], '%s:%s' % (f['file'], f['l']), 'Trajectory::%s hands out its segments for modification' % f['sn'])
        if f.get('const') and not objects(f, type('S', (), {'ret': ('s', '?')})(), None):
            continue
        method(ctx, Lb, P, f, inl)
    times(ctx, Lb, P, cls)
    ctx.require(7, 'duration', 'operations that build or change trajectories')
    ctx.require(2, 'refused', 'operations that combine trajectories')
    ctx.assume.append('Trajectories handed in as arguments satisfy the property (induction over the operations of the class).')


def method(ctx, Lb, P, f, inl):
    """first with everything inlined; where that is not conclusive, with the operations of the class as units that keep
    the property when they find it"""
    class Tmp:
        def __init__(self):
            self.good, self.wrong = [], []

        def ok(self, *a):
            self.good.append(a)

        def bad(self, *a):
            self.wrong.append(a)
    tmp = Tmp()
    method1(tmp, Lb, P, f, inl, None)
    if tmp.wrong:
        t2 = Tmp()
        units = {g['id'] for g in P.methods(NS + 'Trajectory') if not g.get('const') and g.get('kind') == 'method' and g['id'] != f['id']
                 and g.get('acc') == 'public'}
        method1(t2, Lb, P, f, lambda g: inl(g) and g['id'] not in units, units)
        if not t2.wrong:
            tmp = t2
    for a in tmp.good:
        ctx.ok(*a)
    for a in tmp.wrong:
        ctx.bad(*a)


def method1(ctx, Lb, P, f, inl, units):
    names = {P.fns[u]['name'] for u in units or ()}

    def probe(I, ev, st):
        return st.copy() if ev.kind == 'iterend' or ev.kind == 'call' and ev.name in names else None
    evs, ends, thrown, I = Lb.run(f, inline=inl, probe=probe, rounds=2)
    D = Dur(I)
    for ev, tags, s in evs:
        if ev.kind == 'call' and ev.name in names and ev.obj is not None and ev.obj[0] == 'L':
            T, M = (I.value(ev.p, L(ev.obj[1], ev.obj[2] + (('f', w),))) for w in (SEGS, MAXT))
            if not D.equal(T, M):
                ctx.bad('duration', '%s:call' % f['sn'], ev.where(), 'Trajectory::%s works on a trajectory whose duration is not the sum of its segments' % f['sn'])
    where = '%s:%s' % (f['file'], f['l'])
    out = [o for o in objects(f, type('S', (), {'ret': None})(), I) if o[0] != 'this']
    for st in ends:
        for n, loc, val in objects(f, st, I):
            get = (lambda w: I.value(st, L(loc[1], loc[2] + (('f', w),)))) if loc is not None else (lambda w: I.proj(val, ('f', w)))
            T, M = get(SEGS), get(MAXT)
            what = '%s: %s' % (f['sn'], n)
            if D.equal(T, M):
                ctx.ok('duration', what)
            else:
                ctx.bad('duration', '%s:%s' % (f['sn'], n), where, 'Trajectory::%s leaves %s with a duration that is not the sum of the durations of its segments' % (f['sn'], n))
            shape(ctx, I, evs, st, f, n, loc, get, where)
            failed = st.ret == c(0) and f.get('ret') == 'bool'
            if failed and loc is not None and n != 'this':
                for w in (SEGS, MAXT, 'D_', 'N_'):
                    if get(w) != ('init', L(loc[1], loc[2] + (('f', w),))):
                        ctx.bad('partial', '%s:%s:%s' % (f['sn'], n, w), where, 'Trajectory::%s fails but leaves %s partially updated (%s)' % (f['sn'], n, w))
                    else:
                        ctx.ok('partial', '%s leaves %s alone when it fails' % (f['sn'], n))
    if out and f.get('ret') == 'bool':
        refused(ctx, I, evs, ends, f, where)


def init_of(loc, w):
    return ('init', L(loc[1], loc[2] + (('f', w),)))


def sources(I, T, d=0):
    """containers the segments come from"""
    if d == 0:
        from shapes import segs
        ss = segs(I, T)
        if ss and all(x[0] == 'each' for x in ss):
            return [x[1] for x in ss]
    if d > 10 or T[0] in ('empty', 'fresh') or T[0] == 'ilist' and len(T) == 1:
        return []
    if T[0] == 'append':
        return sources(I, T[1], d + 1) + sources(I, T[2], d + 1)
    if T[0] == 'with':
        return sources(I, T[1], d + 1)
    return [T]


def shape(ctx, I, evs, st, f, n, loc, get, where):
    """dimension and degree are those of the segments"""
    T = get(SEGS)
    for w in ('D_', 'N_'):
        v = get(w)
        src = sources(I, T)
        if not src:
            if T[0] in ('empty', 'fresh') and v not in (c(0),) and f['sn'] == 'clear':
                ctx.bad('shape', '%s:%s:%s' % (f['sn'], n, w), where, 'Trajectory::%s leaves %s of an empty trajectory' % (f['sn'], w))
            continue
        for S in src:
            if agrees(I, evs, st, S, v, w):
                ctx.ok('shape', '%s: %s of %s' % (f['sn'], w, n))
            else:
                ctx.bad('shape', '%s:%s:%s' % (f['sn'], n, w), where,
                        'Trajectory::%s leaves %s of %s different from (or unchecked against) its segments' % (f['sn'], w, n))


def agrees(I, evs, st, S, v, w, d=0):
    if d > 4:
        return False
    if S[0] == 'init' and S[1][2] and S[1][2][-1] == ('f', SEGS):
        own = mk(('init', L(S[1][1], S[1][2][:-1] + (('f', w),))))
        if v == own or st.facts.get(op('==', own, v)) is True:
            return True
    if S[0] == 'fld' and S[2] == SEGS and v == I.proj(S[1], ('f', w)):
        return True
    if S[0] == 'fld' and S[1][0] == 'out' and v[0] == 'fld' and v[1] == S[1]:
        return True
    if S[0] == 'out' and v[0] == 'out' and v[1:3] == S[1:3]:
        return True
    if S[0] == 'lv':
        f = (I.loops.get(S[1]) or {}).get('folds') or {}
        g = f.get(S[2])
        if g is not None and agrees(I, evs, st, mk(g), v, w, d + 1):
            return True
    if S[0] == 'fold':
        lv = mk(('lv', S[1], S[2]))
        inner = [x for x in sources(I, S[4]) if x != lv]
        if all(agrees(I, evs, st, x, v, w, d + 1) for x in sources(I, S[3]) + inner if x[0] != 'push'):
            if all(x[0] != 'push' for x in inner):
                return True
    for ev, tags, s in evs:
        if ev.kind != 'iterend' or ev.val is not None:
            continue
        lid = ev.extra
        on = [e.p for e, _, _ in evs if e.kind == 'iterend' and e.extra == lid and e.val is None]
        info = I.loops.get(lid) or {}
        if not (size(S) in (info.get('trips') or ()) or loop_full(I, lid, S)):
            continue
        el = I.proj(I.proj(S, ('e', mk(('ix', lid)))), ('f', w))
        if on and all(s2.facts.get(op('==', el, v)) is True or s2.facts.get(op('==', v, el)) is True or el == v for s2 in on):
            return True
    return False


def refused(ctx, I, evs, ends, f, where):
    """combining refuses what does not fit: every success has compared dimension and degree, or handed the result of a
    segment-wise combination on"""
    bad = [st for st in ends if st.ret == c(0)]
    if bad:
        ctx.ok('refused', '%s can refuse' % f['sn'])
    else:
        ctx.bad('refused', f['sn'], where, 'Trajectory::%s never refuses incompatible trajectories' % f['sn'])
    if any('vector' in p['t'] and 'Trajectory' in p['t'] for p in f['params']):
        for w in ('D_', 'N_'):
            if any(t[0] == 'op' and t[1] == '==' and v is False and any(y[0] == 'init' and y[1][2][-1:] == (('f', w),) for y in t[2:])
                   for st in bad for t, v in st.facts.items()):
                ctx.ok('refused', '%s compares %s' % (f['sn'], w))
            else:
                ctx.bad('refused', '%s:%s' % (f['sn'], w), where, 'Trajectory::%s does not refuse trajectories whose %s differs' % (f['sn'], w))


def times(ctx, Lb, P, cls):
    f = P.method(cls, 'getMaxTime')
    evs, ends, thrown, I = Lb.run(f)
    ok = all(st.ret == ('init', L(('this',), (('f', MAXT),))) for st in ends) and ends
    (ctx.ok('reported', 'getMaxTime') if ok else
     ctx.bad('reported', 'getMaxTime', '%s:%s' % (f['file'], f['l']), 'Trajectory::getMaxTime does not report the duration'))
    f = P.method(cls, 'getMinTime')
    evs, ends, thrown, I = Lb.run(f)
    (ctx.ok('reported', 'getMinTime') if all(st.ret == c(0) for st in ends) else
     ctx.bad('reported', 'getMinTime', '%s:%s' % (f['file'], f['l']), 'Trajectory::getMinTime is not 0'))
    f = P.method(cls, 'getSegmentTimes')
    evs, ends, thrown, I = Lb.run(f)
    S = ('init', L(('this',), (('f', SEGS),)))
    for st in ends:
        if mapped(I, st.ret, S):
            ctx.ok('reported', 'getSegmentTimes')
        else:
            ctx.bad('reported', 'getSegmentTimes', '%s:%s' % (f['file'], f['l']), 'Trajectory::getSegmentTimes is not the list of the durations of its segments')


def mapped(I, v, S):
    """v lists the durations of S in order"""
    el = lambda lid: seg_time(I, I.proj(S, ('e', mk(('ix', lid)))))
    if v is None:
        return False
    if v[0] == 'with' and len(v[2]) == 1:
        (k, y), = v[2]
        if len(k) == 1 and k[0][0] == 'e' and k[0][1][0] == 'all' and y == el(k[0][1][1]):
            n = v[1]
            return full_range(I, k[0][1][1], S) or n[0] == 'resized' and size(S) in n
    from shapes import segs
    ss = segs(I, v)
    return len(ss) == 1 and ss[0][0] in ('each', 'map') and any(el(lid) in ss[0][1:] for lid in I.loops)


def full_range(I, lid, S):
    info = I.loops.get(lid) or {}
    return not info.get('breaks') and not info.get('returns') and (size(S) in (info.get('trips') or ()) or loop_full(I, lid, S))
