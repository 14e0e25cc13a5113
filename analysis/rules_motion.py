"""C09-C14: what is evaluated when, how references are made of it, what the planned trajectories are made of."""
from planner import *
from rules_planner import planner, roots
from rules_life import start_of
from algebra import *
from shapes import segs, loop_full
import loader
from loader import AnalysisError

EV = 'Trajectory::evaluate'
WORLD = (-5, 0, 5, 10, 15)
MAXT = 10


def comp_fn(P):
    return P.prog.method(P.wpcls, 'trajectoryCompensation')


def inl_motion(P):
    keep = comp_fn(P)['id']
    return lambda f: P.full_inline(f) and f['id'] != keep


def evaluators(P):
    """planner functions that evaluate a trajectory, directly or through others"""
    if 'evaluators' not in P.runs:
        calls = {}
        for f in P.prog.fns.values():
            if f.get('body') is not None and P.is_project(f):
                calls[f['id']] = (f, [n for n in loader.nodes(f['body']) if n.get('k') == 'call'])
        hit = set()
        grow = True
        while grow:
            grow = False
            for i, (f, cs) in calls.items():
                if i not in hit and any((n.get('name') or '').endswith(EV) or n.get('fn') in hit for n in cs):
                    hit.add(i)
                    grow = True
        P.runs['evaluators'] = hit
    return P.runs['evaluators']


def adopters(P):
    """functions that take the result of the computation"""
    if 'adopters' not in P.runs:
        out = set()
        for f in P.prog.fns.values():
            if f.get('body') is not None and P.is_project(f) and any(n.get('k') == 'call' and (n.get('name') or '').startswith('std::future') and n.get('sn') == 'get' for n in loader.nodes(f['body'])):
                out.add(f['id'])
        P.runs['adopters'] = out
    return P.runs['adopters']


def apart(P):
    """functions the adoption calls to evaluate trajectories: analysed on their own"""
    ad = adopters(P)
    ids = set()
    for f in P.prog.fns.values():
        if f['id'] in ad:
            for n in loader.nodes(f['body']):
                if n.get('k') == 'call' and n.get('fn') in evaluators(P):
                    ids.add(n['fn'])
    return ids


def motion_inline(P):
    base = inl_motion(P)
    ids, ad = apart(P), adopters(P)
    return lambda f: base(f) and not (f['id'] in ids and any(fr.fn['id'] in ad for fr in P.cur.frames))


def is_eval(t):
    return t and t[0] == 'fn' and t[1].endswith(EV) and len(t) >= 4


def span_term(name, obj):
    return lambda t: t[0] == 'fn' and t[1].endswith(name) and len(t) == 3 and t[2] == obj


def norm_span(t, obj):
    """the end of the evaluated trajectory becomes one symbol, its start 0"""
    m = {}
    for y in walk(t):
        if y and y[0] == 'fn' and len(y) == 3 and y[2] == obj:
            if y[1].endswith('Trajectory::getMaxTime'):
                m[y] = ('s', '#end')
            elif y[1].endswith('Trajectory::getMinTime'):
                m[y] = c(0)
    return subst(mk(t), m) if m else mk(t)


END = mk(('s', '#end'))


def lower_bound(I, x):
    """a running value that starts at a constant and only ever grows is at least that constant"""
    if x[0] == 'lv' and len(x) == 3:
        f = (I.loops.get(x[1]) or {}).get('folds') or {}
        for m, v in f.items():
            if m == x[2]:
                v = mk(v)
                base, step = v[3], v[4]
                cs = [y for _, y in step[1:]] if step[0] == 'cases' else list(step[1]) if step[0] == 'phi' else [step]
                lo = pconst(poly(base))
                if lo is None:
                    return None
                for y in cs:
                    p = poly(y)
                    k = ((x, 1),)
                    if p.get(k) != 1:
                        return None
                    q = dict(p)
                    del q[k]
                    q = pconst(q)
                    if q is None or q < 0:
                        return None
                return lo
    return None


def eval_order(I, x, obj, facts, want=None):
    """Problems with evaluating at x a trajectory that lasts #end: with want, x must be want clamped to the span;
    without, x must lie inside. A pair (want or quantity, value evaluated) is returned for the first bad case."""
    x = norm_span(x, obj)
    facts = {norm_span(t, obj): v for t, v in facts.items()}
    q = want if want is not None else x
    q = norm_span(q, obj)
    pq = poly(q)
    names = [('end', poly(END), (MAXT,))]

    def leaf(y):
        if y[0] == 'fn' and y[1] in ('min', 'max') and len(y) == 4:
            leaf(y[2])
            leaf(y[3])
            return
        py = poly(y)
        if pconst(py) is not None or any(peq(py, p) for _, p, _ in names):
            return
        qs = WORLD
        lo = lower_bound(I, y)
        if lo is not None:
            qs = tuple(v for v in WORLD if v > 0 or v == 0 and lo == 0 or lo < 0)
        names.append(('at%s' % (len(names) - 1 or ''), py, qs))
    leaf(q)
    O = Order(names)
    n = 0
    for w in O.worlds():
        if not O.consistent(facts, w):
            continue
        n += 1
        v = O.val(x, w)
        if v is None:
            # an argument built from something else than the time asked for
            return ('?', None)
        if want is not None:
            a = O.val(q, w)
            a = 0 if a is None else a
            ref = min(max(a, 0), MAXT)
            if v != ref:
                return (a, v)
        elif not 0 <= v <= MAXT:
            return (v, v)
    return None


PLACE = {-5: 'before the start', 0: 'at the start', 5: 'inside', 10: 'at the end', 15: 'after the end'}


def par(f, i):
    return L(('p', f['params'][i]['name']))


def asked_local(P, I, st, t):
    """time of the trajectory in use that stands for the global time t"""
    R = P.roles
    return op('+', op('-', t, I.value(st, R['start'])), I.value(st, R['offset']))


def asked_global(P, I, st, t):
    return op('+', t, I.value(st, P.roles['offset']))


def motion_run(P):
    k = ('motion',)
    if k in P.runs:
        return P.runs[k]
    f = P.method('evaluateTrajectory')
    if len(f['params']) != 4:
        raise AnalysisError('anchor vanished: evaluateTrajectory with four parameters')
    t = ('init', par(f, 0))

    def probe(I, ev, st):
        if ev.kind == 'call' and ev.name.endswith(EV):
            return (dict(st.facts), asked_local(P, I, st, t), 'adopting' not in st.tags and in_use(P, I, st, mk(('init', ev.obj))))

    def tagger(ev, st):
        R = P.roles
        if ev.kind == 'fut_get':
            return (st.tags | {'adopting'}) - {'w:traj', 'w:params'}
        if ev.kind == 'w' and 'adopting' in st.tags and ev.loc is not None:
            u = st.tags
            for r in ('traj', 'params'):
                if is_prefix(R[r], ev.loc):
                    u = u | {'w:' + r}
            return u - {'adopting', 'w:traj', 'w:params'} if {'w:traj', 'w:params'} <= u else u
        if ev.kind == 'branch':
            # does the path leave room for a positive time?
            g = asked_global(P, P.cur, st, t)
            r = Order([('g', poly(g), (5,))]).test(ev.val, {'g': 5})
            if r is not None and bool(ev.extra) != r:
                return st.tags | {'past'}
        return None
    P.runs[k] = P.run(f, inline=motion_inline(P), precise=True, cap=64, args=[None, None, c(0), c(0)], probe=probe, tagger=tagger)
    return P.runs[k]


FIELDS = ('position', 'velocity', 'acceleration')


def reading(P, I, st, k):
    """alternatives of what evaluateTrajectory returns for the k-th derivative"""
    f = P.method('evaluateTrajectory')
    v = I.value(st, fld(par(f, 1), FIELDS[k]))
    return readings(v)


def clamped(ctx, P, others=True):
    """every reference is evaluated at the time asked for, confined to the span of the trajectory"""
    evs, ends, thrown, I = motion_run(P)
    final = set()
    for st in ends:
        for k in range(3):
            for a in reading(P, I, st, k) or ():
                for y in walk(a):
                    if is_eval(y):
                        final.add((y[2], y[3]))
    seen = 0
    done = set()
    for ev, tags, st in evs:
        if ev.kind == 'call' and ev.name.endswith(EV) and len(ev.args) >= 2:
            facts, want, use = ev.p
            obj = mk(('init', ev.obj))
            isfin = use and (obj, ev.args[0]) in final
            key = (ev.where(), obj, ev.args, tuple(sorted(map(repr, facts.items()))), want)
            if key in done:
                continue
            done.add(key)
            r = eval_order(I, ev.args[0], obj, facts, want if isfin else None)
            if isfin:
                seen += 1
            if isfin or others:
                ctx.ok('clamped' if isfin else 'inside', '%s at %s' % (show(ev.args[0])[:80], ev.where()))
            if isfin or others:
                report(ctx, r, isfin, ev, 'evaluateTrajectory')
    if not seen:
        ctx.bad('clamped', 'none', P.method('evaluateTrajectory')['name'], 'evaluateTrajectory never evaluates the trajectory in use')


def check_C09(ctx):
    P = planner(ctx)
    clamped(ctx, P)
    rest = [(f['sn'], f) for lab, c_, f in roots(P) if f['sn'] != 'evaluateTrajectory'] + [(P.prog.fns[i]['sn'], P.prog.fns[i]) for i in sorted(apart(P))]
    for lab, f in rest:
        evs2, ends2, thrown2, I2 = P.run(f, inline=motion_inline(P), precise=True, cap=48,
                                         probe=lambda I, ev, st: dict(st.facts) if ev.kind == 'call' and ev.name.endswith(EV) else None)
        done = set()
        for ev, tags, st in evs2:
            if ev.kind == 'call' and ev.name.endswith(EV) and len(ev.args) >= 2:
                obj = mk(('init', ev.obj))
                key = (ev.where(), obj, ev.args, tuple(sorted(map(repr, ev.p.items()))))
                if key in done:
                    continue
                done.add(key)
                r = eval_order(I2, ev.args[0], obj, ev.p, None)
                ctx.ok('inside', '%s: %s at %s' % (lab, show(ev.args[0])[:80], ev.where()))
                report(ctx, r, False, ev, lab)
    ctx.require(1, 'clamped', 'evaluations of the trajectory in use')
    ctx.require(1, 'inside', 'evaluations of trajectories')
    from rules_traj import container_spans
    container_spans(ctx)


def report(ctx, r, isfin, ev, lab):
    if r is None:
        return
    if r[0] == '?':
        ctx.bad('clamped' if isfin else 'inside', '%s:%s' % (lab, ev.fn.split('::')[-1]), ev.where(),
                'the trajectory is evaluated at %s, which is not the time asked for confined to its span' % show(ev.args[0])[:160])
    elif isfin:
        ctx.bad('clamped', '%s:%s:%s' % (lab, ev.fn.split('::')[-1], PLACE[r[0]]), ev.where(),
                'when the time asked for lies %s, the trajectory is evaluated %s (at %s)' % (PLACE[r[0]], PLACE[r[1]], show(ev.args[0])[:120]))
    else:
        ctx.bad('inside', '%s:%s' % (lab, ev.fn.split('::')[-1]), ev.where(),
                'a trajectory may be evaluated %s (at %s)' % (PLACE[r[0]], show(ev.args[0])[:120]))


def in_use(P, I, st, obj):
    """obj is what the trajectory in use points at"""
    v = I.value(st, P.roles['traj'])
    if obj[0] != 'init' or obj[1][1][0] != '*' or obj[1][2]:
        return False
    p = obj[1][1][1]
    if p[0] == 'fld':
        return p[1] == v or any(I.proj(v, ('f', n)) == p for n in (p[2],))
    if p[0] == 'init' and p[1][2] and p[1][2][-1][0] == 'f':
        return I.proj(v, p[1][2][-1]) == p
    return p == v


# ------------------------------------------------------------------ C10
def loop_fact(t):
    """facts that only say the loop runs"""
    return t[0] == 'op' and (t[1] == '<' and t[2][0] == 'ix' or t[1] == '==' and t[2] == c(0) and t[3][0] == 'size')


def compensation_of(P, I, y):
    """(waypoint, time, order) of a compensation term"""
    if y and y[0] in ('ret', 'fn') and y[1].endswith('trajectoryCompensation'):
        a = y[3:] if y[0] == 'ret' else y[2:]
        if len(a) >= 2:
            return a[0], a[1], (a[2] if len(a) > 2 else c(0))
    return None


def names_of(P, el, I):
    """terms that stand for the name of a waypoint"""
    return {I.proj(el, ('f', 'name_'))} | {mk(('fn', P.wpcls + '::getName', el))}


def skip_ok(P, I, el, facts):
    """the waypoint has no name, or nothing to add"""
    for t, v in facts:
        if t[0] == 'op' and t[1] == '==' and v:
            if ('s', '') in (t[2], t[3]) and (names_of(P, el, I) & {t[2], t[3]}):
                return True
            if c(0) in (t[2], t[3]):
                o = t[3] if t[2] == c(0) else t[2]
                if o[0] == 'size' and (o[1] in names_of(P, el, I) or is_mods(P, I, el, o[1])):
                    return True
    return False


def is_mods(P, I, el, x):
    return any(x == I.proj(el, ('f', n)) for n, t in fields_of(P.prog, P.wpcls) if 'Modifier' in t and ('vector' in t or 'deque' in t or 'list' in t))


def fields_of(prog, cls):
    r = prog.record(cls)
    return [(f['name'], f['t']) for f in r['fields']]


def add_ok(P, I, el, facts):
    """facts under which the compensation is added: nothing but a non-empty name (or having modifiers)"""
    for t, v in facts:
        if loop_fact(t) or not contains(t, lambda y: y == el or y[0] == 'init' and el[0] == 'init' and len(y) == 2 and is_prefix(el[1], y[1])):
            continue
        if t[0] == 'op' and t[1] == '==' and not v:
            if ('s', '') in (t[2], t[3]) and (names_of(P, el, I) & {t[2], t[3]}):
                continue
            if c(0) in (t[2], t[3]):
                o = t[3] if t[2] == c(0) else t[2]
                if o[0] == 'size' and (o[1] in names_of(P, el, I) or is_mods(P, I, el, o[1])):
                    continue
        if t[0] == 'op' and t[1] == '<' and t[2] == c(0) and v and t[3][0] == 'size':
            continue
        return t, v
    return None


def check_C10(ctx):
    P = planner(ctx)
    R = P.roles
    f = P.method('evaluateTrajectory')
    evs, ends, thrown, I = motion_run(P)
    t = ('init', par(f, 0))
    bad = {}
    n = 0
    memo = set()
    for st in ends:
        active = I.value(st, R['active'])
        lt, gt = asked_local(P, I, st, t), asked_global(P, I, st, t)
        past = 'past' in st.tags
        for k in range(3):
            v = I.value(st, fld(par(f, 1), FIELDS[k]))
            key = (v, active, lt, past, k)
            if key in memo:
                continue
            memo.add(key)
            rs = readings(v)
            for a in rs:
                n += 1
                r = reading_problem(P, I, st, a, active, gt, past, k)
                if r:
                    bad.setdefault((k, r[0]), r[1])
                else:
                    ctx.ok('reference', '%s: %s' % (FIELDS[k], show(a)[:160]))
    for (k, key), msg in bad.items():
        ctx.bad('reference', FIELDS[k] + ':' + key, f['name'], 'the %s returned by evaluateTrajectory %s' % (FIELDS[k], msg))
    if not n:
        ctx.bad('reference', 'none', f['name'], 'evaluateTrajectory returns no references')
    # one time for all of them
    clamped(ctx, P, others=False)
    check_compensation(ctx, P)
    check_modifier(ctx, P)
    ctx.require(3, 'reference', 'references')
    ctx.require(1, 'compensation', 'compensation of a waypoint')
    ctx.require(3, 'derivative', 'modifier derivatives')
    ctx.assume.append('that a segment evaluates its derivatives is decided by C23/C27; the time is decided by C09')


def reading_problem(P, I, st, a, active, gt, past, k):
    s = sumform(I, a)
    nev, sums = 0, []
    for m, co in s.items():
        if len(m) != 1 or m[0][1] != 1 or abs(co - 1) > 1e-12:
            return ('form', 'is not the trajectory plus compensations: %s' % show(a)[:200])
        x = m[0][0]
        if is_eval(x):
            nev += 1
            if not in_use(P, I, st, x[2]):
                return ('which', 'is taken from another trajectory than the one in use')
            if len(x) < 5 and k != 0 or len(x) >= 5 and x[4] != c(k):
                return ('order', 'is derivative %s of the trajectory instead of %d' % (show(x[4]) if len(x) > 4 else '0', k))
        elif x[0] == 'sum':
            sums.append(x)
        else:
            return ('form', 'contains %s' % show(x)[:160])
    if nev != 1:
        return ('form', 'contains the trajectory %d times' % nev)
    if not sums:
        if past or I.known(st, op('==', size(active), c(0))) is True:
            return None
        return ('missing', 'does not include the compensation of the waypoints')
    if len(sums) > 1:
        return ('twice', 'includes the compensation of the waypoints %d times' % len(sums))
    _, lid, m, adds = sums[0]
    if not loop_full(I, lid, active):
        return ('partial', 'does not include the compensation of every active waypoint')
    some = False
    el = None
    for facts, items in adds:
        if items:
            if len(items) != 1 or len(items[0][0]) != 1 or abs(items[0][1] - 1) > 1e-12:
                return ('form', 'adds something else than the compensation of a waypoint')
            cp = compensation_of(P, I, items[0][0][0][0])
            if cp is None:
                return ('form', 'adds %s' % show(items[0][0][0][0])[:120])
            el, tt, kk = cp
            ix = ('e', mk(('ix', lid)))
            if el != I.proj(active, ix):
                return ('elem', 'adds the compensation of something else than the active waypoint at hand: %s' % show(el)[:100])
            if kk != c(k):
                return ('comp-order', 'includes the compensation of derivative order %s instead of %d' % (show(kk), k))
            if not peq(poly(tt), poly(gt)):
                return ('comp-time', 'includes compensations taken at %s instead of the time asked for (with the time offset)' % show(tt)[:160])
            w = add_ok(P, I, el, facts)
            if w:
                return ('cond', 'includes the compensation of a waypoint only if %s%s' % ('' if w[1] else 'not ', show(w[0])[:120]))
            some = True
    if not some:
        return ('missing', 'does not include the compensation of the waypoints')
    for facts, items in adds:
        if not items and not skip_ok(P, I, el, facts):
            return ('skipped', 'leaves out the compensation of some named waypoint')
    return None


def check_compensation(ctx, P):
    """a waypoint's compensation is the sum of all its modifiers, axis by axis, of the order and time asked for"""
    f = comp_fn(P)
    opname = 'GaussianModifier::operator()'
    evs, ends, thrown, I = P.run(f, inline=lambda g: P.full_inline(g) and not g['name'].endswith(opname))
    t, k = [('init', L(('p', p['name']))) for p in f['params'][:2]]
    lst = [n for n, ty in fields_of(P.prog, P.wpcls) if 'Modifier' in ty]
    if not lst:
        raise AnalysisError('anchor vanished: modifiers of a waypoint')
    mods = ('init', L(('this',), (('f', lst[0]),)))
    n = 0
    for st in ends:
        for rv in returned(I, st):
            for ax in range(3):
                x = I.proj(rv, ('e', c(ax)))
                n += 1
                s = sumform(I, x)
                why = None
                if not s and I.known(st, op('==', size(mods), c(0))) is True:
                    continue
                items = list(s.items())
                if len(items) != 1 or items[0][1] != 1 or items[0][0][0][0][0] != 'sum':
                    why = 'is %s' % show(x)[:160]
                else:
                    _, lid, m, adds = items[0][0][0][0]
                    if not loop_full(I, lid, mods):
                        why = 'does not add up every modifier'
                    for facts, its in adds:
                        if len(its) != 1 or its[0][1] != 1 or len(its[0][0]) != 1:
                            why = why or 'leaves out modifiers'
                            continue
                        y = its[0][0][0][0]
                        if not (y[0] in ('fn', 'ret') and y[1].endswith(opname)):
                            why = why or 'adds %s' % show(y)[:100]
                            continue
                        a = y[2:] if y[0] == 'fn' else y[3:]
                        if a[0] != I.proj(I.proj(mods, ('e', mk(('ix', lid)))), ('e', c(ax))):
                            why = why or 'takes the modifier of another axis: %s' % show(a[0])[:100]
                        elif a[1] != t:
                            why = why or 'takes the modifiers at another time'
                        elif a[2] != k:
                            why = why or 'takes the modifiers of another derivative order: %s' % show(a[2])[:60]
                ctx.ok('compensation', 'axis %d: %s' % (ax, show(x)[:120]))
                if why:
                    ctx.bad('compensation', 'axis%d' % ax, f['name'], 'the compensation of a waypoint along axis %d %s' % (ax, why))
    if not n:
        ctx.bad('compensation', 'none', f['name'], 'a waypoint returns no compensation')


def returned(I, st):
    v = getattr(st, 'ret', None)
    if v is None or v == ('void',):
        return []
    return unphi(v, 64) or [v]


def check_modifier(ctx, P):
    """velocity and acceleration of a modifier are the derivatives of its position"""
    f = P.prog.method('GaussianModifier', 'operator()')
    t = ('init', L(('p', f['params'][0]['name'])))
    forms = []
    for k in range(3):
        evs, ends, thrown, I = P.run(f, inline=P.full_inline, args=[None, c(k)])
        cs = {}
        for st in ends:
            fs = frozenset((x, v) for x, v in st.facts.items())
            for r in returned(I, st):
                cs.setdefault(fs, []).append(r)
        forms.append(cs)
    sp = sympy()
    syms = {}
    T = to_sympy(t, syms)
    where = '%s (%s)' % (f['file'], f['name'])
    ex = []
    for k in range(3):
        ex.append({fs: [to_sympy(r, syms) for r in rs] for fs, rs in forms[k].items()})
    some = False
    for fs, rs in ex[0].items():
        for r in rs:
            if sp.simplify(r) != 0:
                some = True
                if not r.has(T):
                    ctx.bad('derivative', 'constant', where, 'the compensation of a modifier does not depend on time')
    if not some:
        ctx.bad('derivative', 'zero', where, 'a modifier never compensates anything')
    for k in (0, 1, 2):
        ctx.ok('derivative', 'order %d: %d path(s)' % (k, len(ex[k])))
    for k in (1, 2):
        for fs, rs in ex[k].items():
            lows = [(gs, x) for gs, xs in ex[k - 1].items() if not conflict(fs, gs) for x in xs]
            for r in rs:
                for gs, x in lows:
                    d = sp.diff(x, T) - r
                    if d != 0 and sp.simplify(d) != 0:
                        ctx.bad('derivative', 'order%d' % k, where, 'the compensation of order %d is not the time derivative of the one of order %d: %s against %s' % (k, k - 1, str(sp.simplify(r))[:120], str(sp.simplify(sp.diff(x, T)))[:120]))
                        break


def conflict(fs, gs):
    g = dict(gs)
    return any(t in g and g[t] != v for t, v in fs)


# ------------------------------------------------------------------ C11
def constraints(I, v):
    """what a vertex is built on, and the value of each constraint put on it"""
    out = {}
    v = mk(v)
    while v[0] == 'mut' and v[1].endswith('Vertex::addConstraint') and len(v) >= 6:
        out.setdefault(v[4], v[5])
        v = v[3]
    return v, out


def is_zero(t):
    return t == ZERO or t == c(0)


def vehicle_loc(P):
    f = P.method('updateVehiclePosition')
    evs, ends, thrown, I = P.run(f)
    v = ('init', L(('p', f['params'][0]['name'])))
    for ev, _, st in evs:
        if ev.kind == 'w' and ev.val == v and ev.loc[1] == ('this',):
            return ev.loc
    raise AnalysisError('anchor vanished: the reported vehicle position')


def worker_launch(P):
    """states in which the worker launches the computation"""
    k = ('launches',)
    if k not in P.runs:
        evs, ends, thrown, I = P.run(P.roles['worker'], inline=motion_inline(P), precise=True, cap=64,
                                     probe=lambda I, ev, st: st.copy() if ev.kind == 'launch' and ev.name == 'async' else None)
        P.runs[k] = ([ev for ev, _, _ in evs if ev.kind == 'launch' and ev.name == 'async'], I)
    return P.runs[k]


def check_C11(ctx):
    P = planner(ctx)
    R = P.roles
    veh = ('init', vehicle_loc(P))
    evs, I = worker_launch(P)
    from rules_life import local_fields
    loc = local_fields(P)
    kinds = set()
    seen = set()
    for ev in evs:
        v = I.value(ev.p, R['next'])
        for a in alts(v):
            s = segs(I, a)
            if not s or s[0][0] != 'one':
                ctx.bad('start', 'front', ev.where(), 'a trajectory is computed whose first waypoint is neither the vehicle position nor a point of the trajectory in use: %s' % (show(s[0][1])[:120] if s else 'nothing'))
                continue
            el = s[0][1]
            if el in seen:
                continue
            seen.add(el)
            starts = [constraints(I, w)[1] for e in alts(el) for w in alts(I.proj(e, ('f', 'vertex_')))]
            groups = {}
            for cons in starts:
                p0 = cons.get(c(0))
                groups.setdefault(None if p0 is None else any(is_eval(y) for y in walk(p0)), []).append(cons)
            for moving, cs in groups.items():
                if moving is None:
                    ctx.bad('start', 'position', ev.where(), 'the first waypoint of a computed trajectory has no position')
                    continue
                kinds.add(moving)
                if not moving:
                    for cons in cs:
                        p0 = cons[c(0)]
                        ctx.ok('start', 'from scratch: %s' % show(p0)[:100])
                        if p0 != veh:
                            ctx.bad('start', 'vehicle', ev.where(), 'a trajectory planned from scratch starts at %s instead of the last reported vehicle position' % show(p0)[:120])
                        for k, nm in ((1, 'velocity'), (2, 'acceleration')):
                            if not is_zero(cons.get(c(k), c(1))):
                                ctx.bad('start', 'scratch-' + nm, ev.where(), 'a trajectory planned from scratch does not start with zero %s' % nm)
                    continue
                ctx.ok('start', 'stitched')
                for k in range(3):
                    if any(c(k) not in cons for cons in cs):
                        ctx.bad('start', 'stitched-' + FIELDS[k], ev.where(), 'a stitched trajectory does not start with the %s of the trajectory in use' % FIELDS[k])
                        continue
                    r = stitched_problem(P, I, ev.p, phi([cons[c(k)] for cons in cs]), k, loc)
                    if r:
                        ctx.bad('start', 'stitched-%s:%s' % (FIELDS[k], r[0]), ev.where(), 'the %s at the start of a stitched trajectory %s' % (FIELDS[k], r[1]))
    if False not in kinds:
        ctx.bad('start', 'no-scratch', R['worker']['name'], 'no trajectory is ever planned from the vehicle position')
    if True not in kinds:
        ctx.bad('start', 'no-stitch', R['worker']['name'], 'no trajectory is ever stitched to the one in use')
    # the end
    ends_at_rest(ctx, P)
    ctx.require(2, 'start', 'kinds of trajectories')
    ctx.require(1, 'end', 'last waypoints')
    ctx.require(1, 'vertices', 'vertices given to the optimiser')


def stitched_problem(P, I, st, x, k, locs):
    R = P.roles
    off = ('init', R['offset'])
    start = ('init', R['start'])
    comp = False
    inside = False
    for a in readings(x):
        s = sumform(I, a)
        nev = 0
        for m, co in s.items():
            if len(m) != 1 or m[0][1] != 1 or abs(co - 1) > 1e-12:
                return ('form', 'is %s' % show(a)[:160])
            y = m[0][0]
            if is_eval(y):
                nev += 1
                if not in_use(P, I, st, y[2]):
                    return ('which', 'is taken from another trajectory than the one in use')
                if (y[4] if len(y) > 4 else c(0)) != c(k):
                    return ('order', 'is derivative %s of the trajectory' % show(y[4] if len(y) > 4 else c(0)))
                at = norm_span(y[3], y[2])
                if at in (END, c(0)):
                    continue
                inside = True
                if not any(peq(time_leaf(at), padd(poly(('init', l)), poly(off))) for l in locs):
                    return ('time', 'is taken at %s instead of the compensated time of the last evaluation' % show(y[3])[:160])
            elif y[0] == 'sum':
                comp = True
                for facts, items in y[3]:
                    for mm, cc in items:
                        cp = compensation_of(P, I, mm[0][0]) if len(mm) == 1 else None
                        if cp is None or cc != 1:
                            return ('form', 'contains %s' % show(mm[0][0])[:120])
                        if cp[2] != c(k):
                            return ('comp-order', 'contains compensations of order %s' % show(cp[2]))
                        if not any(peq(poly(cp[1]), padd(padd(poly(('init', l)), poly(off)), poly(start))) for l in locs):
                            return ('comp-time', 'contains compensations taken at %s' % show(cp[1])[:120])
            else:
                return ('form', 'contains %s' % show(y)[:160])
        if nev != 1:
            return ('form', 'contains the trajectory %d times' % nev)
    if not inside:
        return ('time', 'is never taken at the time of the last evaluation')
    if not comp:
        return ('uncompensated', 'leaves out the compensation of the waypoints')
    return None


def time_leaf(at):
    """the time inside min/max with the span"""
    if at[0] == 'fn' and at[1] in ('min', 'max') and len(at) == 4:
        for a, b in ((at[2], at[3]), (at[3], at[2])):
            if a in (END, c(0)):
                return time_leaf(b)
    return poly(at)


def task_run(P):
    """the computation with the arguments the worker launches it with"""
    k = ('task',)
    if k not in P.runs:
        evs, I0 = worker_launch(P)
        f = P.roles['task']
        consts = {}
        for ev in evs:
            args = list(ev.args or ())[-len(f['params']):] if f['params'] else []
            for i, a in enumerate(args):
                consts.setdefault(i, set()).add(a)
        args = []
        for i, p in enumerate(f['params']):
            a = consts.get(i) or set()
            x = next(iter(a)) if len(a) == 1 else None
            args.append(x if x is not None and (isc(x) or x[0] == 'init' and x[1][1] == ('this',) and 'parameters' in show(x)) else None)
        P.runs[k] = P.run(f, inline=P.full_inline, cap=64, args=args, probe=lambda I, ev, st: st.copy() if ev.kind in ('call', 'iterend') or ev.kind == 'w' and ev.loc is not None and ev.loc[2][-1:] == (('f', 'mu_'),) else None)
    return P.runs[k]


OPTC = 'PolynomialOptimizationNonLinear<10>::'


def opt_call(ev, n):
    return ev.kind == 'call' and 'PolynomialOptimization' in ev.name and ev.name.endswith('::' + n)


def ends_at_rest(ctx, P, only_list=False):
    R = P.roles
    evs, ends, thrown, I = task_run(P)
    nxt = ('init', R['next'])
    done = set()
    for ev, tags, st in evs:
        if not opt_call(ev, 'setupFromVertices'):
            continue
        v = ev.args[0]
        if v in done:
            continue
        done.add(v)
        vb = v
        while vb[0] == 'with':
            vb = vb[1]
        src, lid, plain, last = vertex_list(P, I, vb, nxt)
        ctx.ok('vertices', show(vb)[:160])
        if src is None:
            ctx.bad('vertices', 'list', ev.where(), 'the vertices given to the optimiser are not one vertex per waypoint of the next trajectory in their order: %s' % show(vb)[:200])
            continue
        if only_list:
            continue
        el = I.proj(v, ('e', op('-', size(vb), c(1)))) if v[0] == 'with' else last
        base, cons = constraints(I, el)
        if last is not None and v[0] == 'with':
            pass
        ctx.ok('end', show(el)[:120])
        for k, nm in ((1, 'velocity'), (2, 'acceleration')):
            if not is_zero(cons.get(c(k), c(1))):
                ctx.bad('end', nm, ev.where(), 'the computed trajectory does not end with zero %s' % nm)
        if c(0) in cons:
            ctx.bad('end', 'position', ev.where(), 'the position of the last waypoint is replaced by %s' % show(cons[c(0)])[:100])
        # nothing else is changed on the way
        if v[0] == 'with':
            x = v
            while x[0] == 'with':
                for steps, y in x[2]:
                    if steps[0] != ('e', op('-', size(vb), c(1))) and not c(0) == steps[0][1]:
                        ctx.bad('vertices', 'changed', ev.where(), 'a vertex in the middle of the trajectory is changed: %s' % show(y)[:120])
                    elif steps[0][1] == c(0) and not (steps[0] == ('e', op('-', size(vb), c(1)))):
                        b0, c0 = constraints(I, y)
                        if set(c0) & {c(0), c(1), c(2)}:
                            ctx.bad('vertices', 'first-changed', ev.where(), 'the first vertex, which carries the current state, is changed: %s' % show(y)[:120])
                x = x[1]


def vertex_list(P, I, v, nxt):
    """(source, loop, vertex of an ordinary waypoint, vertex of the last one) of the list of vertices"""
    if v[0] != 'fold' or v[3][0] not in ('empty', 'fresh') and v[3] != ('empty',):
        return None, None, None, None
    lid, m, base, step = v[1:5]
    lv = mk(('lv', lid, m))
    if not loop_full(I, lid, nxt):
        return None, None, None, None
    ix = mk(('ix', lid))
    want = I.proj(I.proj(nxt, ('e', ix)), ('f', 'vertex_'))
    cs = list(step[1:]) if step[0] == 'cases' else [((), x) for x in step[1]] if step[0] == 'phi' else [((), step)]
    plain = last = None
    for facts, x in cs:
        if x[0] != 'push' or x[1] != lv:
            return None, None, None, None
        b, cons = constraints(I, x[2])
        if b != want and not (b[0] == 'fn' and b[1].endswith('getVertex') and b[2] == I.proj(nxt, ('e', ix))):
            return None, None, None, None
        if cons:
            if not any(t[0] == 'op' and t[1] == '==' and vv and peq(padd(poly(t[2]), poly(t[3]), -1), padd(poly(ix), poly(op('-', size(nxt), c(1))), -1)) or
                       t[0] == 'op' and t[1] == '==' and vv and peq(padd(poly(t[3]), poly(t[2]), -1), padd(poly(ix), poly(op('-', size(nxt), c(1))), -1)) or
                       t[0] == 'op' and t[1] == '<' and not vv and peq(padd(poly(t[2]), poly(t[3]), -1), padd(padd(poly(ix), {(): 1}), poly(size(nxt)), -1))
                       for t, vv in facts):
                return None, None, None, None
            last = x[2]
        else:
            plain = x[2]
    return nxt, lid, plain, last if last is not None else plain


# ------------------------------------------------------------------ C12
def check_C12(ctx):
    P = planner(ctx)
    R = P.roles
    evs, ends, thrown, I = task_run(P)
    sp = ('init', R['speed'])
    amax = None
    order = {}
    n = 0
    est = {}
    for ev, tags, st in evs:
        if ev.kind == 'call' and ev.name.endswith('::estimateSegmentTimes') and len(ev.args) >= 3:
            n += 1
            est[mk(('fn', ev.name) + tuple(ev.args))] = ev
            ctx.ok('allocation', 'at %s' % ev.where())
            if ev.args[1] != sp:
                ctx.bad('allocation', 'speed', ev.where(), 'the segment times are allocated with the speed %s instead of the commanded one' % show(ev.args[1])[:100])
            if not accel(ev.args[2]):
                ctx.bad('allocation', 'acceleration', ev.where(), 'the segment times are allocated with the acceleration %s instead of the acceleration limit' % show(ev.args[2])[:100])
            amax = ev.args[2]
    if not n:
        ctx.bad('allocation', 'none', R['task']['name'], 'the segment times are not allocated from the speed and acceleration limits')
    # on every path to optimize()
    for key, e in opt_paths(evs).items():
        obj, cons, setup, ev = e['obj'], e['cons'], e['setup'], e['ev']
        ctx.ok('limits', 'before optimize at %s: %s' % (ev.where(), ', '.join('%s<=%s' % (show(a), show(b)[:60]) for a, b in sorted(cons, key=repr))))
        vs = {b for a, b in cons if a == c(1)}
        as_ = {b for a, b in cons if a == c(2)}
        if not vs:
            ctx.bad('limits', 'no-speed', ev.where(), 'a trajectory is optimised without the commanded speed as maximum velocity')
        elif vs != {sp}:
            ctx.bad('limits', 'speed', ev.where(), 'a trajectory is optimised with the maximum velocity %s instead of the commanded speed' % ', '.join(show(x)[:80] for x in vs))
        if not as_:
            ctx.bad('limits', 'no-acceleration', ev.where(), 'a trajectory is optimised without the acceleration limit')
        elif amax is not None and as_ != {amax}:
            ctx.bad('limits', 'acceleration', ev.where(), 'a trajectory is optimised with the maximum acceleration %s instead of the acceleration limit' % ', '.join(show(x)[:80] for x in as_))
        if setup is None:
            ctx.bad('limits', 'setup', ev.where(), 'a trajectory is optimised without having been set up')
        elif setup[1] not in est:
            ctx.bad('limits', 'times', ev.where(), 'the optimiser is set up with segment times that were not allocated from the limits: %s' % show(setup[1])[:120])
        elif est[setup[1]].args[0] != setup[0]:
            ctx.bad('limits', 'vertices', ev.where(), 'the segment times were allocated for other vertices than those optimised')
    # solutions that bypass the limits
    for ev, tags, st in evs:
        if opt_call(ev, 'solveLinear') and 'NonLinear' not in ev.name:
            ctx.bad('limits', 'linear', ev.where(), 'the computation the planner launches solves without imposing the speed and acceleration limits')
        if opt_call(ev, 'getTrajectory'):
            o = [e for e in opt_paths(evs).values() if e['obj'] == ev.obj]
            ctx.ok('result', 'at %s' % ev.where())
            if not o:
                ctx.bad('result', 'object', ev.where(), 'the trajectory is taken from an optimiser that was not run')
    speed_writes(ctx, P)
    ctx.require(1, 'allocation', 'time allocation')
    ctx.require(1, 'limits', 'optimisation')
    ctx.require(1, 'result', 'results')
    ctx.require(2, 'speed', 'writes of the commanded speed')


def accel(t):
    """a plain member of the planner that is not one of the mutable parameters"""
    return t[0] == 'init' and t[1][1] == ('this',) and len(t[1][2]) == 1


def opt_paths(evs):
    """for each optimize call of each path: the constraints imposed before it on the same object.
    Events of one path are recognised by the program order of the exploration (states are forked depth first),
    so constraints are taken from the abstract value of the optimiser object itself"""
    out = {}
    for ev, tags, st in evs:
        if opt_call(ev, 'optimize') and ev.p is not None:
            v = mk(('x', ev.p.store.get(ev.obj) or ('none',)))[1]
            cons, setup = set(), None
            x = v
            while x[0] == 'mut':
                if x[1].endswith('::addMaximumMagnitudeConstraint') and len(x) >= 6:
                    cons.add((x[4], x[5]))
                elif x[1].endswith('::setupFromVertices') and setup is None and len(x) >= 6:
                    setup = (x[4], x[5])
                x = x[3]
            out[(ev.where(), v)] = {'obj': ev.obj, 'cons': cons, 'setup': setup, 'ev': ev}
    return out


def speed_writes(ctx, P):
    R = P.roles
    field = R['speed'][2][len(R['params'][2]):]
    locs = {'parameters': L(('this',), R['params'][2] + field), 'new': L(('this',), R['nparams'][2] + field)}
    # setSpeed sets both in one critical section
    f = P.method('setSpeed')
    v = ('init', L(('p', f['params'][0]['name'])))

    def tag(ev, st):
        if ev.kind == 'w' and ev.loc in locs.values():
            return st.tags | {'w%d' % list(locs.values()).index(ev.loc)}
        if ev.kind == 'unlock' and len({'w0', 'w1'} & st.tags) == 1:
            return st.tags | {'split'}
        return None
    evs, ends, thrown, I = P.run(f, tagger=tag)
    for st in ends:
        for n, l in locs.items():
            ctx.ok('speed', 'setSpeed: %s' % show_loc(l))
            if I.value(st, l) != v:
                ctx.bad('speed', 'set:' + n, f['name'], 'setSpeed does not set %s: %s' % (show_loc(l), 'the adoption of the trajectory being generated reverts it' if n == 'new' else 'the speed has no effect'))
        if 'split' in st.tags:
            ctx.bad('speed', 'set:split', f['name'], 'setSpeed sets the speed in use and the one of the next trajectory in separate critical sections')
    # elsewhere they are only copied from one another
    inits = {('init', l) for l in locs.values()}
    for lab, c_, g in roots(P):
        if g['sn'] == 'setSpeed':
            continue

        def tag2(ev, st):
            u = st.tags
            if ev.kind == 'r' and ev.loc is not None and any(is_prefix(ev.loc, l) for l in locs.values()) and ev.held:
                u = u | {'rd'}
            elif ev.kind == 'unlock':
                u = u - {'rd'}
            return u if u != st.tags else None
        evs, ends, thrown, I = P.run(g, inline=motion_inline(P), precise=True, tagger=tag2, probe=lambda I, ev, st: (I.value(st, locs['parameters']), I.value(st, locs['new'])) if ev.kind == 'w' and on_speed(ev.loc, locs) else None)
        for ev, tags, st in evs:
            if ev.kind == 'w' and on_speed(ev.loc, locs):
                ctx.ok('speed', '%s at %s' % (lab, ev.where()))
                for x in ev.p:
                    if not (set(alts(x)) <= inits or copied(x, locs)):
                        ctx.bad('speed', '%s:%s' % (lab, ev.fn.split('::')[-1]), ev.where(), 'the commanded speed is overwritten with %s' % show(x)[:120])
                if 'rd' not in (ev.pre or ()) and ev.extra != 'out':
                    ctx.bad('speed', '%s:%s:stale' % (lab, ev.fn.split('::')[-1]), ev.where(), 'the speed is copied from a value that was read in an earlier critical section: a speed set meanwhile is lost')


def on_speed(loc, locs):
    return loc is not None and any(is_prefix(loc, l) for l in locs.values())


def copied(x, locs):
    return all(a[0] in ('lv', 'fld', 'out') and any(contains(a, lambda y: y == ('init', l) or y == ('init', ('L', l[1], l[2][:-1]))) or a[0] == 'lv' and len(a) == 3 and (is_prefix(a[2], l) or is_prefix(l, a[2])) for l in locs.values()) for a in alts(x))


# ------------------------------------------------------------------ C13
def segment_list(P, I, st):
    """(pointer, value) of the trajectory a computation returns"""
    r = st.ret
    if r is None:
        return None, None
    ptr = I.proj(r, ('f', 'trajectory_ptr_'))
    while ptr[0] in ('ptr', 'moved', 'own') and len(ptr) > 1:
        ptr = ptr[1]
    return ptr, I.value(st, ('L', ('*', ptr), ()))


def seg_index(I, x):
    """(segments, index) if x is the duration of an element of a list of segments"""
    y = None
    if x[0] == 'fn' and x[1].endswith('Segment::getTime') and len(x) == 3:
        y = x[2]
    elif x[0] in ('fld', 'at') and x[-1] in (('f', 'time_'), 'time_'):
        y = x[1]
    if y is not None and y[0] == 'at':
        return y[1], y[2]
    return None


def preceding(I, evs, x, ix, lid, facts, lists):
    """what is missing for x to be init + the durations of the first ix segments: (rest polynomial, error)"""
    PRE = mk(('s', '#preceding'))

    def term_of(items):
        """the single duration a loop adds"""
        if len(items) != 1 or items[0][1] != 1:
            return None
        m = items[0][0]
        if len(m) != 1 or m[0][1] != 1:
            return None
        return seg_index(I, m[0][0])

    def upto(seg, k):
        """sum of the durations in front of index k"""
        d = padd(poly(k), poly(ix), -1)
        n = pconst(d)
        lists.add(seg)
        if n == 0:
            return {((PRE, 1),): 1}
        if n == -1:
            e = mk(('fn', 'mav_trajectory_generation::Segment::getTime', I.proj(seg, ('e', k))))
            return {((PRE, 1),): 1, ((e, 1),): -1}
        if pconst(poly(k)) == 0:
            return {}
        return None

    def atom(t):
        if t[0] == 'fold':
            l2, m, base, step = t[1:5]
            lv = mk(('lv', l2, m))
            cs = list(step[1:]) if step[0] == 'cases' else [((), step)]
            if len(cs) == 1 or all(v == cs[0][1] for _, v in cs):
                p = poly(cs[0][1])
                if p.get(((lv, 1),)) == 1:
                    rest = [(m2, v) for m2, v in p.items() if m2 != ((lv, 1),)]
                    si = term_of(rest)
                    trip = (I.loops.get(l2) or {}).get('trip')
                    i2 = mk(('ix', l2))
                    L2 = I.loops.get(l2) or {}
                    if si and trip is not None and not L2.get('breaks') and not L2.get('returns'):
                        seg, k = si
                        if peq(poly(k), poly(i2)) or peq(poly(k), padd(padd(poly(trip), poly(i2), -1), {(): 1}, -1)):
                            u = upto(seg, trip)
                            if u is not None:
                                return padd(poly(base, atom), u)
            return None
        if t[0] == 'fn' and t[1] in ('accumulate',) and False:
            return None
        if t[0] == 'lv' and len(t) == 3 and t[1] == lid:
            f = ((I.loops.get(lid) or {}).get('folds') or {}).get(t[2])
            if not f or f[0] != 'fold':
                return None
            base = f[3]
            # what each round adds to it, path by path
            shift = None
            for ev, _, _ in evs:
                if ev.kind != 'iterend' or ev.extra != lid or ev.val is not None:
                    continue
                p = padd(poly(I.value(ev.p, t[2])), {((t, 1),): 1}, -1)
                si = term_of(list(p.items()))
                if si:
                    n = pconst(padd(poly(si[1]), poly(ix), -1))
                    if n not in (0, -1) or shift not in (None, n):
                        return None
                    shift = n
                    lists.add(si[0])
            if shift is None:
                return None
            for ev, _, _ in evs:
                if ev.kind != 'iterend' or ev.extra != lid or ev.val is not None:
                    continue
                p = padd(poly(I.value(ev.p, t[2])), {((t, 1),): 1}, -1)
                if p:
                    continue
                # a round that adds nothing: the first one (shift -1) or the one behind the last segment
                fs = ev.p.facts
                if shift == -1 and first_round(fs, ix):
                    continue
                if shift == 0 and any(past_last(fs, ix, sg) for sg in lists):
                    continue
                return None
            k = op('+', ix, c(shift)) if shift else ix
            if shift == -1:
                # sum over rounds 1..ix-1 of the durations in front of each
                e = mk(('fn', 'mav_trajectory_generation::Segment::getTime', I.proj(next(iter(lists)), ('e', op('-', ix, c(1))))))
                if first_round(facts, ix):
                    return padd(poly(base, atom), {((PRE, 1),): 1})
                return padd(padd(poly(base, atom), {((PRE, 1),): 1}), {((e, 1),): 1}, -1)
            return padd(poly(base, atom), {((PRE, 1),): 1})
        return None
    p = poly(x, atom)
    if ((PRE, 1),) not in p and (first_round(facts, ix)):
        p = dict(p)
        p[((PRE, 1),)] = 1
    return p, {((PRE, 1),): 1}


def first_round(facts, ix):
    return any(t[0] == 'op' and (t[1] == '==' and v and peq(padd(poly(t[2]), poly(t[3]), -1), poly(ix)) or
                                 t[1] == '==' and v and peq(padd(poly(t[3]), poly(t[2]), -1), poly(ix)) or
                                 t[1] == '<' and not v and isc(t[2]) and t[2][1] in (0, 0.0) and peq(poly(t[3]), poly(ix)) or
                                 t[1] == '<' and v and isc(t[3]) and t[3][1] == 1 and peq(poly(t[2]), poly(ix)))
               for t, v in facts.items())


def past_last(facts, ix, seg):
    n = size(seg)
    return any(t[0] == 'op' and t[1] == '<' and not v and peq(padd(poly(t[2]), poly(t[3]), -1), padd(poly(ix), poly(n), -1)) or
               t[0] == 'op' and t[1] == '==' and v and (peq(padd(poly(t[2]), poly(t[3]), -1), padd(poly(ix), poly(n), -1)) or peq(padd(poly(t[3]), poly(t[2]), -1), padd(poly(ix), poly(n), -1)))
               for t, v in facts.items())


def check_C13(ctx):
    P = planner(ctx)
    R = P.roles
    evs, ends, thrown, I = task_run(P)
    nxt = ('init', R['next'])
    start = poly(('init', L(('this',), R['nparams'][2] + R['start'][2][1:])))
    ends_at_rest(ctx, P, only_list=True)
    good = {}
    for st in ends:
        ptr, val = segment_list(P, I, st)
        if ptr is None:
            continue
        v = I.value(st, R['next'])
        entries = {}
        x = v
        while x[0] == 'with':
            for steps, y in x[2]:
                entries.setdefault(steps, y)
            x = x[1]
        if x != nxt:
            ctx.bad('waypoints', 'replaced', R['task']['name'], 'the waypoints of the next trajectory are replaced while it is computed: %s' % show(x)[:160])
            continue
        for what in ('index_', 't_assigned_'):
            lids = {s[0][1][1] for s in entries if s[0][0] == 'e' and s[0][1][0] == 'all' and s[1:] == (('f', what),)}
            nm = {'index_': 'index', 't_assigned_': 'arrival time'}[what]
            ctx.ok('waypoints', '%s: %s' % (nm, ', '.join(show(entries[s])[:80] for s in entries if s[-1] == ('f', what))))
            if not lids:
                ctx.bad('waypoints', 'no-' + what, R['task']['name'], 'the computation of a trajectory does not give every waypoint its %s' % nm)
                continue
            if any(s[-1] == ('f', what) and not (s[0][0] == 'e' and s[0][1][0] == 'all') for s in entries):
                ctx.bad('waypoints', 'one-' + what, R['task']['name'], 'the %s of a single waypoint is changed on the way' % nm)
            for lid in lids:
                if not loop_full(I, lid, nxt):
                    ctx.bad('waypoints', 'partial-' + what, where_loop(I, lid), 'not every waypoint is given its %s' % nm)
                else:
                    good.setdefault(what, {})[lid] = (ptr, val)
        mus = {s for s in entries if s[-1] == ('f', 'mu_')}
        axes = {}
        for s in mus:
            if len(s) >= 5 and s[0][0] == 'e' and s[0][1][0] == 'all' and s[2][0] == 'e' and s[2][1][0] == 'all':
                axes.setdefault((s[0][1][1], s[2][1][1]), set()).add(s[3])
        ok = [k for k, a in axes.items() if a == {('e', c(0)), ('e', c(1)), ('e', c(2))} or any(y[1][0] == 'all' for y in a)]
        ctx.ok('waypoints', 'modifiers: %d writes' % len(mus))
        if not ok:
            ctx.bad('waypoints', 'mu', R['task']['name'], 'the modifiers of the waypoints are not centred on their arrival time along the three axes')
        for l1, l2 in ok:
            if not loop_full(I, l1, nxt) or not loop_full(I, l2, I.proj(I.proj(nxt, ('e', mk(('ix', l1)))), ('f', 'modifiers_'))):
                ctx.bad('waypoints', 'mu-partial', where_loop(I, l2), 'not every modifier of every waypoint is centred on the arrival time')
            else:
                good.setdefault('mu', {})[(l1, l2)] = (ptr, val)
    done = set()
    # the modifiers: along each path the value written
    for ev, tags, st in evs:
        if ev.kind == 'w' and ev.loc is not None and is_prefix(R['next'], ev.loc) and ev.loc[2] and ev.loc[2][-1] == ('f', 'mu_'):
            for (l1, l2), (ptr, val) in good.get('mu', {}).items():
                if ev.loc[2][len(R['next'][2])] == ('e', mk(('ix', l1))):
                    arrival(ctx, I, evs, ev.val, l1, ev.p.facts if ev.p is not None else {}, start, ptr, val, 'mu', 'a modifier is centred', ev.where(), done)
    for what, d in good.items():
        if what == 'mu':
            continue
        for lid, (ptr, val) in d.items():
            ix = mk(('ix', lid))
            loc = ('L', R['next'][1], R['next'][2] + (('e', ix), ('f', what)))
            n = 0
            for ev, tags, st in evs:
                if ev.kind != 'iterend' or ev.extra != lid:
                    continue
                n += 1
                y = I.value(ev.p, loc)
                if what == 'index_':
                    if not all(peq(poly(a), poly(index_of(I, a, lid))) and peq(poly(index_of(I, a, lid)), poly(ix)) for a in readings(y)):
                        ctx.bad('waypoints', 'index', where_loop(I, lid), 'a waypoint is given the index %s instead of its position in the sequence' % show(y)[:120])
                else:
                    arrival(ctx, I, evs, y, lid, ev.p.facts, start, ptr, val, what, 'a waypoint is given the arrival time', where_loop(I, lid), done)
            if not n:
                raise AnalysisError('the loop over the waypoints is not seen')
    adopted_whole(ctx, P)
    ctx.require(3, 'waypoints', 'fields of the waypoints')
    ctx.require(1, 'vertices', 'vertices given to the optimiser')


def index_of(I, a, lid):
    return a


def where_loop(I, lid):
    L_ = I.loops.get(lid) or {}
    return '%s:%s (%s)' % (L_.get('file'), L_.get('line'), L_.get('fn'))


def arrival(ctx, I, evs, y, lid, facts, start, ptr, val, what, text, where, done):
    ix = mk(('ix', lid))
    for a in readings(y):
        key = (what, lid, a, tuple(sorted(facts.items(), key=repr)))
        if key in done:
            continue
        done.add(key)
        lists = set()
        p, want = preceding(I, evs, a, ix, lid, facts, lists)
        ctx.ok('arrival', '%s: %s' % (what, show(a)[:160]))
        if not peq(p, padd(want, start)):
            ctx.bad('arrival', what, where, '%s %s instead of the start of its trajectory plus the durations of the segments in front of it' % (text, show(a)[:240]))
            continue
        for seg in lists:
            if not from_trajectory(seg, ptr, val):
                ctx.bad('arrival', what + '-list', where, '%s from the durations of %s, not of the trajectory that is returned' % (text, show(seg)[:160]))


def from_trajectory(seg, ptr, val):
    """seg is the list of segments of the trajectory val behind ptr"""
    if seg[0] == 'out' and seg[1].endswith('Trajectory::getSegments') and len(seg) > 4:
        return seg[4] == val
    if seg[0] == 'fn' and seg[1].endswith('Trajectory::segments') and len(seg) == 3:
        return seg[2] == val
    if seg[0] in ('fld',) and seg[1] == val:
        return True
    return contains(seg, lambda y: y == val) and seg[0] in ('init', 'at', 'fld')


def adopted_whole(ctx, P):
    """the adopted waypoints are those of the computation, with the start time they were given"""
    R = P.roles
    evs, ends, thrown, I = motion_run(P)
    n = 0
    for ev, tags, st in evs:
        if ev.kind == 'w' and ev.loc == R['active'] and 'applying' not in tags:
            n += 1
            ctx.ok('adopted', 'at %s' % ev.where())
            for a in alts(ev.val):
                if a != ('init', R['next']):
                    ctx.bad('adopted', 'waypoints', ev.where(), 'the waypoints adopted with a trajectory are %s, not those it was computed from' % show(a)[:160])
    ctx.require(1, 'adopted', 'adoptions of the waypoints')



# ------------------------------------------------------------------ C14
WP = 'DynamicWaypoint'


def wp_method(P, n, arity=None):
    fs = [f for f in P.prog.fns.values() if f['sn'] == n and (f.get('cls') or '').endswith('::' + WP) and f.get('body') is not None and (arity is None or len(f['params']) == arity)]
    if not fs:
        raise AnalysisError('anchor vanished: %s::%s' % (WP, n))
    return fs[0]


def wp_loc(field):
    return L(('this',), (('f', field),))


def same_vec(I, a, b):
    return a == b or all(peq(spread(I, I.proj(a, ('e', c(i)))), spread(I, I.proj(b, ('e', c(i))))) for i in range(3))


OTHERS = ('name_', 'index_', 't_assigned_')


def spread(I, t):
    """polynomial of a component of a vector expression, sums and differences taken component by component"""
    def atom(x):
        if x[0] == 'at' and x[1][0] == 'op' and x[1][1] in ('+', '-'):
            a, b = (atom2(I.proj(y, ('e', x[2]))) for y in x[1][2:4])
            return padd(a, b, 1 if x[1][1] == '+' else -1)
        return None

    def atom2(x):
        return poly(x, atom)
    return poly(t, atom)


def wp_unchanged(ctx, P, I, st, f, rule, extra=()):
    for n in OTHERS + tuple(extra):
        l = wp_loc(n)
        if I.value(st, l) != ('init', l):
            ctx.bad(rule, '%s:%s' % (f['sn'], n), f['name'], '%s changes the %s of the waypoint' % (f['sn'], n.strip('_')))


def rebase_ok(ctx, P, f, args, pos, rule='rebase', sub=''):
    evs, ends, thrown, I = P.run(f, inline=P.full_inline, args=args)
    if not ends:
        raise AnalysisError('%s never returns' % f['name'])
    for st in ends:
        ctx.ok(rule, '%s%s' % (f['sn'], sub))
        for n, nm in (('current_position_', 'current position'), ('original_position_', 'original position')):
            v = I.value(st, wp_loc(n))
            if not all(same_vec(I, a, pos) for a in alts(v)):
                ctx.bad(rule, '%s%s:%s' % (f['sn'], sub, n), f['name'], '%s%s leaves the %s at %s instead of %s' % (f['sn'], sub, nm, show(v)[:100], show(pos)[:60]))
        vertex_ok(ctx, I, st, f, rule, sub, pos, 0)
        m = I.value(st, wp_loc('modifiers_'))
        if not is_empty_list(I, st, m):
            ctx.bad(rule, '%s%s:modifiers' % (f['sn'], sub), f['name'], '%s%s keeps the compensations of the waypoint: %s' % (f['sn'], sub, show(m)[:100]))
        wp_unchanged(ctx, P, I, st, f, rule)


def is_empty_list(I, st, m):
    return m in (('empty',), ('ilist',)) or m[0] == 'fresh' or I.known(st, op('==', size(m), c(0))) is True


def vertex_ok(ctx, I, st, f, rule, sub, pos, order):
    v = I.value(st, wp_loc('vertex_'))
    for a in alts(v):
        base, cons = constraints(I, a)
        if base != ('init', wp_loc('vertex_')):
            ctx.bad(rule, '%s%s:vertex' % (f['sn'], sub), f['name'], '%s%s drops the other constraints of the vertex: %s' % (f['sn'], sub, show(a)[:120]))
        elif set(cons) != {c(order)} or not same_vec(I, cons[c(order)], pos):
            ctx.bad(rule, '%s%s:constraint' % (f['sn'], sub), f['name'], '%s%s leaves the constraint of order %d of the vertex at %s instead of %s' %
                    (f['sn'], sub, order, ', '.join('%s:%s' % (show(k), show(x)[:60]) for k, x in cons.items()) or 'its old value', show(pos)[:60]))


def check_C14(ctx):
    P = planner(ctx)
    R = P.roles
    # re-basing
    f = wp_method(P, 'resetWaypoint')
    rebase_ok(ctx, P, f, [None], ('init', L(('p', f['params'][0]['name']))))
    f = wp_method(P, 'resetWaypointWithCurrentPosition')
    rebase_ok(ctx, P, f, [], ('init', wp_loc('current_position_')))
    f = wp_method(P, 'setConstraint')
    v = ('init', L(('p', f['params'][1]['name'])))
    rebase_ok(ctx, P, f, [c(0), None], v, sub='(0)')
    for k in (1, 2, 3, 4):
        evs, ends, thrown, I = P.run(f, inline=P.full_inline, args=[c(k), None])
        for st in ends:
            ctx.ok('constrain', 'setConstraint(%d)' % k)
            vertex_ok(ctx, I, st, f, 'constrain', '(%d)' % k, v, k)
            wp_unchanged(ctx, P, I, st, f, 'constrain', ('current_position_', 'original_position_', 'modifiers_'))
    # a live modification
    f = wp_method(P, 'setCurrentPosition')
    evs, ends, thrown, I = P.run(f, inline=P.full_inline, cap=64)
    p = ('init', L(('p', f['params'][0]['name'])))
    cur = ('init', wp_loc('current_position_'))
    mods = ('init', wp_loc('modifiers_'))
    if not ends:
        raise AnalysisError('setCurrentPosition never returns')
    for st in ends:
        ctx.ok('modify', 'setCurrentPosition')
        v = I.value(st, wp_loc('current_position_'))
        if not all(same_vec(I, a, p) for a in alts(v)):
            ctx.bad('modify', 'current', f['name'], 'setCurrentPosition leaves the current position at %s' % show(v)[:120])
        vertex_ok(ctx, I, st, f, 'modify', '', p, 0)
        wp_unchanged(ctx, P, I, st, f, 'modify', ('original_position_',))
        m = I.value(st, wp_loc('modifiers_'))
        for a in alts(m):
            b = a
            while b[0] == 'with' and all(steps[0] == ('e', size(mods)) for steps, _ in b[2]):
                b = b[1]
            if b[0] != 'push' or b[1] != mods:
                if a == mods:
                    # nothing is added: right only where nothing moves
                    if not all(still(st, I, p, cur, i) for i in range(3)):
                        ctx.bad('modify', 'none', f['name'], 'setCurrentPosition adds no compensation for the new position')
                else:
                    ctx.bad('modify', 'list', f['name'], 'setCurrentPosition does not add exactly one compensation to those of the waypoint: %s' % show(a)[:160])
                continue
            for i in range(3):
                ax = I.proj(I.proj(a, ('e', size(mods))) if b is not a else a[2], ('e', c(i)))
                ctx.ok('modify', 'axis %d' % i)
                inc = I.proj(ax, ('f', 'increment_'))
                want = padd(poly(I.proj(p, ('e', c(i)))), poly(I.proj(cur, ('e', c(i)))), -1)
                if not all(peq(spread(I, x), want) for x in readings(inc)):
                    ctx.bad('modify', 'increment', f['name'], 'the compensation along axis %d is %s instead of the new position minus the previous current position' % (i, show(inc)[:120]))
                mu = I.proj(ax, ('f', 'mu_'))
                if not all(peq(poly(x), poly(('init', wp_loc('t_assigned_')))) for x in readings(mu)):
                    ctx.bad('modify', 'centre', f['name'], 'the compensation along axis %d is centred on %s instead of the time of the waypoint' % (i, show(mu)[:120]))
    # the constructor that takes a vertex
    for g in P.prog.fns.values():
        if g.get('kind') == 'ctor' and (g.get('cls') or '').endswith('::' + WP) and any('Vertex' in str(q.get('t')) for q in g['params']) and g.get('body') is not None:
            evs, ends, thrown, I = P.run(g, inline=P.full_inline)
            for st in ends:
                ctx.ok('build', '%d parameters' % len(g['params']))
                o, k = I.value(st, wp_loc('original_position_')), I.value(st, wp_loc('current_position_'))
                if not all(any(y[0] == 'out' and y[1].endswith('Vertex::getConstraint') and any(z == c(0) for z in y[3:]) for y in walk(I.proj(o, ('e', c(i))))) and
                           element_index(I, I.proj(o, ('e', c(i))), i) for i in range(3)):
                    ctx.bad('build', 'original', g['name'], 'a waypoint built from a vertex does not take its position constraint as original position: %s' % show(o)[:160])
                if not same_vec(I, o, k):
                    ctx.bad('build', 'current', g['name'], 'a waypoint built from a vertex starts with a current position that differs from the original one')
    # who is changed
    from rules_queue import applications, worker_tagger, check_app
    evs, ends, thrown, I = P.run(R['worker'], tagger=worker_tagger(R))
    apps = applications(P, I, evs, R['modq'])
    live = []
    for a in apps:
        ev, lst, li, mi, st, meth, first = a
        ctx.ok('applied', '%s on %s at %s' % (meth, show_loc(lst)[:60], ev.where()))
        r = check_app(P, I, a, ('init', R['modq']))
        if r:
            ctx.bad('applied', 'name:%s' % show_loc(lst)[:40], ev.where(), 'a modification does not reach exactly the waypoints of its name: ' + r)
        if not named(st, first, li):
            ctx.bad('applied', 'unnamed:%s' % show_loc(lst)[:40], ev.where(), 'a modification without a name changes waypoints that have none')
        if lst == R['active']:
            live.append(a)
            if meth != 'setCurrentPosition':
                ctx.bad('applied', 'live', ev.where(), 'an active waypoint is modified with %s: the trajectory in use is not compensated towards the new position' % meth)
        elif meth == 'setCurrentPosition':
            ctx.bad('applied', 'pending', ev.where(), 'a waypoint that is still to be planned is modified with a compensation: the trajectory computed through the new position is shifted again')
    # positions of waypoints are changed in no other way
    for ev, tags, st in evs:
        if ev.kind == 'w' and ev.extra == 'mut' and ev.val[0] == 'mut' and ev.val[1].split('::')[-1] in ('setCurrentPosition', 'resetWaypoint', 'setConstraint') and ev.loc[2] and ev.loc[2][-1][0] == 'e':
            if not any(a[0] is ev for a in apps):
                vals = ev.val[4:]
                if not own_position(vals, ev.loc):
                    ctx.bad('applied', 'other:%s' % ev.fn.split('::')[-1], ev.where(), 'a waypoint is moved to %s by something else than a modification of its name' % ', '.join(show(x)[:80] for x in vals))
    if not live:
        ctx.ok('applied', 'no live application')
    ctx.require(3, 'rebase', 'ways of re-basing')
    ctx.require(1, 'modify', 'live modification')
    ctx.require(2, 'applied', 'applications')


def element_index(I, t, i):
    """the component taken out of the constraint is the i-th one"""
    for y in walk(t):
        if y[0] in ('at', 'elem') and len(y) > 2 and y[1][0] == 'out':
            return y[2] == c(i)
        if y[0] == 'out':
            return True
    return True


def own_position(vals, loc):
    return any(contains(x, lambda y: y[0] == 'fn' and (y[1].endswith('getCurrentPosition') or y[1].endswith('getOriginalPosition'))) for x in vals if isinstance(x, tuple))


def still(st, I, p, cur, i):
    a, b = I.proj(p, ('e', c(i))), I.proj(cur, ('e', c(i)))
    for t, v in st.facts.items():
        if v and t[0] == 'op' and t[1] == '==' and ({t[2], t[3]} == {a, b} or {t[2], t[3]} == {p, cur}):
            return True
    return False


def named(st, first, li):
    """the path says that the name is not empty"""
    names = {first}
    for t, v in st.facts.items():
        if v and t[0] == 'op' and t[1] == '==' and first in (t[2], t[3]):
            names.add(t[3] if t[2] == first else t[2])
    for t, v in st.facts.items():
        if t[0] == 'op' and t[1] == '==' and not v:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a in names and b in (('c', ''), ('s', ''), ('empty',)):
                    return True
                if a[0] == 'size' and a[1] in names and b == c(0):
                    return True
        if t[0] == 'op' and t[1] == '<' and v and t[2] == c(0) and t[3][0] == 'size' and t[3][1] in names:
            return True
    return False
