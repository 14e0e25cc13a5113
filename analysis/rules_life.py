"""C05-C08: adoption protocol, regeneration notice, destruction, evaluation clock."""
from planner import *
from rules_planner import planner, roots, phase_tagger, Throws
from loader import AnalysisError


def under(loc, role):
    return loc is not None and role is not None and is_prefix(role, loc)


def start_of(P, I, st):
    R = P.roles
    return I.value(st, L(('this',), R['nparams'][2] + R['start'][2][1:]))


def recorded_fields(P):
    """parameters an evaluation records: global = exactly the time handed in, local = that minus the start time"""
    R = P.roles
    f = P.method('evaluateTrajectory')
    evs, ends, thrown, I = eval_run(P, False)
    t = ('init', L(('p', f['params'][0]['name'])))
    glob = set()
    for ev, _, st in evs:
        if ev.kind == 'w' and under(ev.loc, R['params']) and ev.val == t:
            glob.add(ev.loc)
    return glob


def eval_run(P, plotting):
    k = ('eval', plotting)
    if k not in P.runs:
        f = P.method('evaluateTrajectory')
        ps = f['params']
        if len(ps) != 4:
            raise AnalysisError('anchor vanished: evaluateTrajectory with four parameters')
        args = [('init', L(('p', ps[0]['name']))), None, ('init', L(('p', ps[2]['name']))), c(1 if plotting else 0)]
        P.runs[k] = P.run(f, tagger=phase_tagger(P.roles), args=args)
    return P.runs[k]


def adopt_tagger(P, worker):
    R = P.roles
    base = phase_tagger(R)

    def tag(ev, st):
        t = base(ev, st)
        u = st.tags if t is None else t
        k = ev.kind
        if k == 'fut_get' and ev.loc == R['future']:
            u = (u | {'got'}) - {'released', 'raised', 'w:traj', 'w:params', 'w:active'}
        elif k == 'w' and ev.loc is not None and ev.extra != 'reserve':
            for r in ('traj', 'params', 'active'):
                if under(ev.loc, R[r]):
                    u = u | {'w:' + r}
                    if r != 'params' or ev.loc == R[r] or ev.loc == R['start']:
                        u = u - {'raised'}
            for r in ('next', 'nparams'):
                if ev.loc == R[r] or under(ev.loc, R[r]):
                    u = u | {'w:' + r}
            if under(ev.loc, R['active']):
                u = u | {'changed'}
        elif k in ('astore', 'aexch') and ev.loc == R['regen'] and not maybe_false(ev.val):
            u = u | {'raised'}
        elif k in ('astore', 'aexch') and ev.loc == R['computing']:
            if not maybe_true(ev.val):
                u = u | {'released'}
            elif not maybe_false(ev.val):
                u = u | {'marked'}
        elif k == 'throw' and ev.name == 'std::future::get':
            u = u | {'failed'}
        elif k == 'launch' and ev.name == 'async':
            u = (u | {'launched'}) - {'marked', 'w:next', 'w:nparams'}
        elif k == 'iterend' and worker and not ev.loops:
            u = u - {'launched', 'marked', 'w:next', 'w:nparams', 'changed', 'raised'}
        return u if u != st.tags else t
    return tag


def fields_of(P, role):
    r = P.prog.records.get(P.field_of(P.roles[role])['bt'] or '')
    if r is None:
        r = P.prog.records.get(P.field_of(P.roles[role])['t'])
    if r is None:
        return None
    return [f['name'] for f in r['fields']]


def check_C05(ctx):
    P = planner(ctx)
    R = P.roles
    for r in ('next', 'nparams', 'start', 'traj', 'active'):
        if R[r] is None:
            raise AnalysisError('anchor vanished: %s' % r)
    # fields an evaluation may carry over from the parameters in use
    clock = recorded_fields(P)
    TH = Throws(P)

    def th_get(e, st):
        r = TH.direct(e)
        return r if r == 'std::future::get' else None
    pf = fields_of(P, 'params') or []
    for lab, c_, f in roots(P):
        throwing = th_get if c_ == 'E' else None
        evs, ends, thrown, I = P.run(f, tagger=adopt_tagger(P, c_ == 'T'), throwing=throwing)
        for ev, tags, st in evs:
            fn = ev.fn.split('::')[-1]
            if ev.kind == 'fut_get' and ev.loc == R['future']:
                ctx.ok('ready', '%s at %s' % (lab, ev.where()))
                if c_ != 'E':
                    ctx.bad('ready', 'who:' + fn, ev.where(), '%s takes the result of the computation although it is no evaluation' % lab)
                if 'done' not in ev.pre:
                    ctx.bad('ready', fn, ev.where(), '%s takes the result of the computation on a path where nothing has shown that it has finished' % lab)
                if 'got' in ev.pre and 'released' not in ev.pre:
                    ctx.bad('ready', 'twice:' + fn, ev.where(), '%s takes the result of one computation twice' % lab)
            if ev.kind == 'w' and ev.loc is not None and ev.extra != 'reserve':
                for r, what in (('traj', 'trajectory'), ('active', 'active waypoints')):
                    if under(ev.loc, R[r]) and c_ == 'E':
                        ctx.ok('installed', '%s writes the %s at %s' % (lab, what, ev.where()))
                        if 'got' not in ev.pre or 'released' in ev.pre:
                            ctx.bad('installed', 'outside:%s:%s' % (r, fn), ev.where(),
                                    '%s changes the %s %s' % (lab, what, 'after it has let the worker start another generation' if 'released' in ev.pre else 'without having taken a finished computation'))
                if under(ev.loc, R['traj']) and c_ in ('C', 'T', 'A'):
                    ctx.bad('installed', 'who:traj:' + fn, ev.where(), '%s replaces the trajectory in use outside an adoption' % lab)
                if ev.loc == R['active'] and c_ in ('C', 'T', 'A'):
                    ctx.bad('installed', 'who:active:' + fn, ev.where(), '%s replaces the active waypoints outside an adoption' % lab)
                if c_ == 'E' and 'released' in ev.pre and (ev.loc == R['params'] or under(ev.loc, R['start'])):
                    ctx.bad('installed', 'late:params:' + fn, ev.where(), '%s installs parameters after it has let the worker start another generation' % lab)
                if c_ == 'T' and 'launched' in ev.pre and (under(ev.loc, R['next']) or under(ev.loc, R['nparams'])):
                    ctx.bad('launch', 'after:%s:%s' % (show_loc(ev.loc), fn), ev.where(),
                            'the worker changes %s after it has launched the computation that uses it' % show_loc(ev.loc))
            if ev.kind in ('astore', 'aexch') and ev.loc == R['computing']:
                ctx.ok('flag', '%s at %s' % (lab, ev.where()))
                if maybe_true(ev.val) and (c_ != 'T' or 'idle' not in ev.pre):
                    ctx.bad('flag', 'set:' + fn, ev.where(), '%s marks a computation in progress %s' %
                            (lab, 'without having seen that none is' if c_ == 'T' else 'although only the worker starts one'))
                if maybe_false(ev.val):
                    if c_ != 'E':
                        ctx.bad('flag', 'clear:' + fn, ev.where(), '%s lets the worker start another generation although it adopts nothing' % lab)
                    elif 'failed' in ev.pre:
                        for r, what in (('traj', 'trajectory'), ('active', 'active waypoints'), ('params', 'parameters')):
                            if 'w:' + r in ev.pre:
                                ctx.bad('flag', 'partial:%s:%s' % (r, fn), ev.where(), '%s has changed the %s although the computation failed' % (lab, what))
                    elif 'got' in ev.pre:
                        adopted(P, ctx, I, ev, st, lab, pf, clock)
                    else:
                        ctx.bad('flag', 'clear-early:' + fn, ev.where(),
                                '%s lets the worker start another generation without having adopted the finished one' % lab)
            if ev.kind == 'launch' and ev.name == 'async':
                ctx.ok('launch', 'at ' + ev.where())
                if 'idle' not in ev.pre:
                    ctx.bad('launch', 'busy:' + fn, ev.where(), 'a computation is launched without having seen that none is in progress')
                if 'marked' not in ev.pre:
                    ctx.bad('launch', 'unmarked:' + fn, ev.where(), 'a computation is launched before it is marked in progress')
                if 'launched' in ev.pre:
                    ctx.bad('launch', 'twice:' + fn, ev.where(), 'two computations are launched in one iteration')
                for r, what in (('next', 'waypoints'), ('nparams', 'parameters')):
                    if 'w:' + r not in ev.pre:
                        ctx.bad('launch', 'stale:%s:%s' % (r, fn), ev.where(), 'a computation is launched on a path where its %s were not stored' % what)
                s = start_of(P, I, st)
                ctx.ok('launch', 'start time ' + show(s)[:80])
                if not (s[0] == 'init' and len(s) == 2 and (s[1] in clock or not clock)):
                    ctx.bad('launch', 'start:' + fn, ev.where(), 'a computation is launched with start time %s instead of the time of the last evaluation' % show(s)[:120])
                # parameters of the generation come from the parameters in use
                for n in pf:
                    v = I.value(st, L(('this',), R['nparams'][2] + (('f', n),)))
                    want = ('init', L(('this',), R['params'][2] + (('f', n),)))
                    if L(('this',), R['params'][2] + (('f', n),)) == R['start']:
                        continue
                    if any(a != want for a in alts(v)):
                        ctx.bad('launch', 'param:%s' % n, ev.where(), 'a computation is launched with %s = %s instead of the value in use' % (n, show(v)[:100]))
            if ev.kind == 'async_policy':
                ctx.ok('launch', 'policy %s' % show(ev.val))
                if ev.val == ('none',) or not (isc(ev.val) and ev.val[1] == 1):
                    ctx.bad('launch', 'policy:' + fn, ev.where(), 'the computation may be deferred: it would run inside an evaluation instead of on its own thread')
        for st in ends:
            if 'got' in st.tags:
                ctx.ok('released', '%s, end of an adopting path' % lab)
                if 'released' not in st.tags:
                    ctx.bad('released', lab, f['name'], '%s can return after taking a finished computation without letting the worker start the next one' % lab)
    for r in ('ready', 'installed', 'flag', 'launch', 'released'):
        ctx.require(1, r, 'the planner adopts computed trajectories')


def adopted(P, ctx, I, ev, st, lab, pf, clock):
    """at the moment another generation is allowed, everything of the finished one is in place"""
    R = P.roles
    fn = ev.fn.split('::')[-1]
    v = I.value(st, R['traj'])
    ctx.ok('whole', '%s: trajectory at %s' % (lab, ev.where()))
    if not all(contains(a, lambda t: t[0] == 'futval') for a in alts(v)):
        ctx.bad('whole', 'traj:' + fn, ev.where(), '%s allows the next generation on a path where the computed trajectory is not installed' % lab)
    v = I.value(st, R['active'])
    ctx.ok('whole', '%s: waypoints at %s' % (lab, ev.where()))
    if not all(a == ('init', R['next']) for a in alts(v)):
        ctx.bad('whole', 'active:' + fn, ev.where(), '%s allows the next generation on a path where the active waypoints are not those of the computed trajectory' % lab)
    for n in pf:
        loc = L(('this',), R['params'][2] + (('f', n),))
        v = I.value(st, loc)
        ctx.ok('whole', '%s: parameter %s' % (lab, n))
        want = ('init', L(('this',), R['nparams'][2] + (('f', n),)))
        if loc == R['start']:
            if not all(a == want for a in alts(v)):
                ctx.bad('whole', 'start:' + fn, ev.where(), '%s allows the next generation on a path where the start time of the computed trajectory is not installed (it is %s)' % (lab, show(v)[:100]))
            continue
        if loc in clock or loc == R['offset'] or n_is_local(P, clock, loc):
            continue
        if loc == R['speed']:
            continue        # written to both by setSpeed (C12)
        if not all(a == want for a in alts(v)):
            ctx.bad('whole', 'param:%s:%s' % (n, fn), ev.where(), '%s allows the next generation on a path where parameter %s of the computed trajectory is not installed' % (lab, n))


def n_is_local(P, clock, loc):
    return loc in P.runs.setdefault('localclock', local_fields(P))


def local_fields(P):
    R = P.roles
    f = P.method('evaluateTrajectory')
    t = ('init', L(('p', f['params'][0]['name'])))
    out = set()
    evs, ends, thrown, I = eval_run(P, False)
    for ev, _, st in evs:
        if ev.kind == 'w' and under(ev.loc, R['params']) and ev.val != t and ev.val is not None and contains(ev.val, lambda y: y == t) and ev.loc != R['params']:
            out.add(ev.loc)
    return out


# ------------------------------------------------------------------ C06
def flag_witness(I, evs, t):
    """boolean accumulated by a loop that is only true after an iteration which changed something"""
    while t[0] == 'not':
        t = t[1]
    if t[0] == 'op' and t[1] == '==':
        t = t[3] if isc(t[2]) else t[2]
    if t[0] != 'fold':
        return False
    lid, m = t[1], t[2]
    if maybe_true(t[3]) and t[3] != c(0):
        return False
    seen = False
    for ev, tags, st in evs:
        if ev.kind == 'iterend' and ev.extra == lid:
            v = I.value(st, m)
            if v == TRUE or isc(v) and v[1]:
                seen = True
                if 'changed' not in ev.pre:
                    return False
            elif v != ('lv', lid, m):
                return False
    return seen


def check_C06(ctx):
    P = planner(ctx)
    R = P.roles
    G = show_loc(R['regen'])
    getter = P.method('getWasTrajectoryRegenerated')
    evs, ends, thrown, I = P.run(getter)
    for ev, tags, st in evs:
        if ev.kind in ('astore', 'aexch') and ev.loc == R['regen']:
            ctx.ok('read-once', '%s at %s' % (ev.kind, ev.where()))
            if ev.kind == 'astore':
                ctx.bad('read-once', 'store', ev.where(), 'reporting the notice lowers %s with a plain store: a notice raised since it was read is lost, and two readers can both get it' % G)
            elif maybe_true(ev.val):
                ctx.bad('read-once', 'raises', ev.where(), 'reporting the notice may raise it')
    for st in ends:
        xs = [(ev, s) for ev, tg, s in evs if ev.kind == 'aexch' and ev.loc == R['regen']]
        ctx.ok('read-once', 'end of %s' % getter['sn'])
        r = st.ret
        cas = any(ev.extra == 'cas' for ev, _ in xs)
        if not xs:
            ctx.bad('read-once', 'kept', getter['name'], '%s does not lower the notice it reports' % getter['sn'])
        elif cas:
            pass
        elif len(set(ev.line for ev, _ in xs)) > 1 or r is None or r not in [ev.args[0] for ev, _ in xs]:
            if not (isc(r) and r in (c(0), c(1), TRUE, FALSE) and any(flag_test(t, v)[0] == R['regen'] and bool(r[1]) == flag_test(t, v)[1] for t, v in st.facts.items())):
                ctx.bad('read-once', 'value', getter['name'], '%s returns %s instead of the notice it lowered' % (getter['sn'], show(r)[:100] if r else None))
    for lab, c_, f in roots(P):
        evs, ends, thrown, I = P.run(f, tagger=adopt_tagger(P, c_ == 'T'))
        for ev, tags, st in evs:
            fn = ev.fn.split('::')[-1]
            if ev.kind in ('astore', 'aexch') and ev.loc == R['regen']:
                if f['id'] == getter['id']:
                    continue
                low = maybe_false(ev.val) and I.known(st, ev.val) is not True
                ctx.ok('raise', '%s at %s' % (lab, ev.where()))
                if low:
                    ctx.bad('raise', 'lower:' + fn, ev.where(), '%s may lower the notice %s without reporting it' % (lab, G))
                    continue
                if c_ in ('C', 'A'):
                    ctx.bad('raise', 'who:' + fn, ev.where(), '%s raises the notice although nothing was changed' % lab)
                elif c_ == 'E' and ('got' not in ev.pre):
                    ctx.bad('raise', 'idle:' + fn, ev.where(), '%s raises the notice on a path where nothing was adopted' % lab)
                elif c_ == 'T' and 'changed' not in ev.pre and not any(v and flag_witness(I, evs, t) for t, v in st.facts.items()):
                    ctx.bad('raise', 'idle:' + fn, ev.where(), 'the worker raises the notice on a path where no active waypoint was changed')
            # an iteration of the worker that changed active waypoints
            if c_ == 'T' and ev.kind == 'iterend' and not ev.loops:
                ctx.ok('live', 'iteration of %s' % ev.fn)
                if 'changed' in ev.pre and 'raised' not in ev.pre:
                    ctx.bad('live', fn, ev.where(), 'an iteration of the worker changes active waypoints and ends without raising the notice after the change')
            if c_ == 'T' and ev.kind == 'w' and under(ev.loc, R['active']):
                ctx.ok('live', 'change at %s' % ev.where())
        for st in ends:
            if 'got' in st.tags:
                ctx.ok('adopt', '%s, end of an adopting path' % lab)
                if 'raised' not in st.tags:
                    ctx.bad('adopt', lab, f['name'], '%s adopts a trajectory on a path that does not raise the notice after everything is in place' % lab)
    for r in ('read-once', 'raise', 'live', 'adopt'):
        ctx.require(1, r, 'the regeneration notice')


# ------------------------------------------------------------------ C07
def check_C07(ctx):
    P = planner(ctx)
    R = P.roles
    d = P.dtor()
    if d is None:
        ctx.bad('destroy', 'none', P.cls, 'the planner has no destructor that stops and joins its worker')
        return
    thr = [f['name'] for f in P.rec['fields'] if f['t'].startswith(('std::thread', 'std::jthread'))]

    def tag(ev, st):
        u = st.tags
        k = ev.kind
        if k in ('astore', 'aexch') and on_this(ev.loc) and R['stop'] is not None and ev.loc == R['stop'] and not maybe_false(ev.val):
            u = u | {'stopping'}
        elif k == 'join':
            u = u | {'joined'}
            u = u - {'waited'}
        elif k in ('fut_wait', 'fut_get') and ev.loc == R['future']:
            u = u | {'waited'}
        elif k == 'branch':
            t, v = ev.val, ev.extra
            while t[0] == 'not':
                t, v = t[1], not v
            if t[0] == 'fn' and t[1] == 'joinable' and not v:
                u = u | {'joined'}
            elif t[0] == 'fn' and t[1] == 'future.valid' and not v:
                u = u | {'waited'}
        return u if u != st.tags else None
    evs, ends, thrown, I = P.run(d, tagger=tag)
    if R['stop'] is None:
        ctx.bad('destroy', 'stop', d['name'], 'the destructor does not ask the worker to stop')
    for ev, tags, st in evs:
        if ev.kind == 'join':
            ctx.ok('destroy', 'join at ' + ev.where())
            if 'stopping' not in ev.pre and R['stop'] is not None:
                ctx.bad('destroy', 'order', ev.where(), 'the destructor waits for the worker before it has asked it to stop')
    task_last = None
    for st in ends:
        ctx.ok('destroy', 'path with ' + (', '.join(sorted('%s%s' % ('' if v else 'not ', show(t)[:60]) for t, v in st.facts.items())) or 'no branch'))
        if 'joined' not in st.tags:
            ctx.bad('destroy', 'join', d['name'], 'the destructor can finish without waiting for the worker')
        if 'waited' not in st.tags:
            if task_last is None:
                task_last = future_destroyed_first(P)
            if not task_last:
                ctx.bad('destroy', 'future', d['name'], 'the destructor can finish without waiting (after the worker has ended) for the computation in progress, whose state is then released under it')
    # nothing is ever detached, the stop flag is never withdrawn
    jobs = list(roots(P)) + [('constructor', 'D', x) for x in P.ctor()] + [('destructor', 'D', d)]
    stop = R['stop']

    def loop_tag(ev, st):
        u = st.tags
        if ev.kind == 'loop':
            u = frozenset(x for x in u if x not in ('sr:%d' % len(ev.loops), 'slow:%d' % len(ev.loops), 'told:%d' % len(ev.loops)))
        elif ev.kind == 'branch' and flag_test(ev.val, ev.extra) == (stop, True):
            u = u | frozenset('told:%d' % i for i in range(len(ev.loops) + 1))
        elif ev.kind in ('aload', 'aexch') and ev.loc == stop:
            u = u | frozenset('sr:%d' % i for i in range(len(ev.loops) + 1))
        elif ev.kind in ('time', 'fut_wait', 'join', 'cv_wait'):
            u = u | frozenset('slow:%d' % i for i in range(len(ev.loops)))
        return u if u != st.tags else None
    for lab, c_, f in jobs:
        evs, ends, thrown, I = P.run(f, tagger=loop_tag)
        ctx.ok('detached', lab)
        for ev, tags, st in evs:
            fn = ev.fn.split('::')[-1]
            if ev.kind == 'detach':
                ctx.bad('detached', fn, ev.where(), '%s detaches a thread: it outlives the planner it uses' % lab)
            if ev.kind in ('astore', 'aexch') and stop is not None and ev.loc == stop and maybe_false(ev.val) and lab != 'constructor':
                ctx.bad('detached', 'withdraw:' + fn, ev.where(), '%s may withdraw the request to stop' % lab)
            if c_ == 'T' and ev.kind == 'iterend' and stop is not None and ev.val != ('break',):
                info = I.loops.get(ev.extra) or {}
                d_ = len(ev.loops)
                waits = 'slow:%d' % d_ in ev.pre or d_ == 0 and f['id'] == R['worker']['id'] and len(ev.chain) == 1
                endless = info.get('cond_const')
                if not waits and not endless:
                    continue
                ctx.ok('prompt', 'loop at %s' % ev.where())
                if 'sr:%d' % d_ not in ev.pre:
                    ctx.bad('prompt', '%s:%s' % (fn, d_), ev.where(), 'an iteration of a waiting loop of the worker never looks at the request to stop')
                if 'told:%d' % d_ in ev.pre:
                    ctx.bad('prompt', 'ignored:%s:%s' % (fn, d_), ev.where(), 'the worker goes on looping although it has seen the request to stop')
    # the worker starts only when the planner is complete
    for x in P.ctor():
        evs, ends, thrown, I = P.run(x, tagger=lambda ev, st: (st.tags | {'started'}) if ev.kind == 'launch' else None)
        for ev, tags, st in evs:
            if ev.kind == 'launch' and ev.name == 'thread':
                ctx.ok('start', 'at ' + ev.where())
            if ev.kind == 'w' and on_this(ev.loc) and 'started' in ev.pre and ev.loc[2] and ev.loc[2][0][1] not in thr:
                ctx.bad('start', show_loc(ev.loc), ev.where(), 'the constructor initialises %s after it has started the worker' % show_loc(ev.loc))
    ctx.require(1, 'prompt', 'waiting loops of the worker')
    ctx.require(1, 'start', 'worker started by the constructor')


def future_destroyed_first(P):
    """members the computation uses are all declared before the future, whose destructor waits for it"""
    R = P.roles
    evs, ends, thrown, I = P.run(R['task'])
    names = [f['name'] for f in P.rec['fields']]
    fi = names.index(R['future'][2][0][1])
    for ev, tags, st in evs:
        if ev.kind in ('r', 'w', 'lock', 'aload', 'astore', 'aexch') and on_this(ev.loc) and ev.loc[2]:
            n = ev.loc[2][0][1]
            if n in names and names.index(n) > fi:
                return False
    return True


# ------------------------------------------------------------------ C08
def check_C08(ctx):
    P = planner(ctx)
    R = P.roles
    f = P.method('evaluateTrajectory')
    t = ('init', L(('p', f['params'][0]['name'])))
    glob = recorded_fields(P)
    if len(glob) != 1:
        ctx.bad('control', 'global', f['name'], 'a control evaluation does not record exactly the time it was given as the global time of the last evaluation')
        return
    g = next(iter(glob))
    loc_ = set(local_fields(P))
    if len(loc_) != 1:
        ctx.bad('control', 'local', f['name'], 'a control evaluation does not record one local time derived from the time it was given (%d members)' % len(loc_))
        return
    l = next(iter(loc_))

    def tag(ev, st):
        u = st.tags
        if ev.kind == 'w' and ev.loc in (g, l):
            if ev.val is not None and contains(ev.val, lambda y: y == t):
                u = u | {'G' if ev.loc == g else 'L'}
            else:
                u = u - {'G' if ev.loc == g else 'L'}
        elif ev.kind == 'w' and ev.loc == R['params']:
            u = u - {'G', 'L'}
        elif ev.kind == 'fut_get':
            u = u | {'got'}
        return u if u != st.tags else None
    args = lambda pl: [t, None, ('init', L(('p', f['params'][2]['name']))), c(pl)]
    evs, ends, thrown, I = P.run(f, tagger=tag, args=args(0))
    for ev, tags, st in evs:
        fn = ev.fn.split('::')[-1]
        if ev.kind == 'w' and ev.loc == l and contains(ev.val, lambda y: y == t):
            ctx.ok('control', 'local time at ' + ev.where())
            want = op('-', t, I.value(st, R['start']))
            if ev.val != want:
                ctx.bad('control', 'local-value', ev.where(), 'the local time recorded is %s instead of the given time minus the start of the trajectory in use' % show(ev.val)[:150])
        if ev.kind == 'w' and ev.loc == g and contains(ev.val, lambda y: y == t):
            ctx.ok('control', 'global time at ' + ev.where())
            if ev.val != t:
                ctx.bad('control', 'global-value', ev.where(), 'the global time recorded is %s instead of the given time' % show(ev.val)[:150])
        if ev.kind == 'unlock' and ('G' in ev.pre) != ('L' in ev.pre) and 'mutex' in str(ev.loc):
            if any(e2.kind == 'w' and e2.loc in (g, l) and ev.loc in [h[0] for h in e2.held] and contains(e2.val, lambda y: y == t) for e2, _, _ in evs):
                ctx.bad('control', 'together', ev.where(), 'the global and the local time of an evaluation are not recorded in one critical section')
    for st in ends:
        ctx.ok('control', 'path with tags %s' % sorted(st.tags))
        for x, what in (('G', 'global'), ('L', 'local')):
            if x not in st.tags:
                ctx.bad('control', 'missing:' + what, f['name'], 'a control evaluation can return without recording its %s time' % what)
    evs, ends, thrown, I = P.run(f, tagger=tag, args=args(1))
    gi = ('init', g)
    for st in ends:
        ctx.ok('plotting', 'path with tags %s' % sorted(st.tags))
        unchanged(ctx, P, I, st, g, l, 'plotting', f['name'], 'a plotting evaluation', t)
    # nobody else moves the clock
    for lab, c_, fn_ in roots(P):
        if fn_['id'] == f['id']:
            continue
        evs, ends, thrown, I = P.run(fn_)
        ctx.ok('others', lab)
        for ev, tags, st in evs:
            if ev.kind == 'w' and (ev.loc in (g, l) or ev.loc == R['params']):
                unchanged(ctx, P, I, st, g, l, 'others', ev.where(), lab, t)
    ctx.require(3, 'control', 'times recorded by an evaluation')


def unchanged(ctx, P, I, st, g, l, rule, where, who, t):
    R = P.roles
    gi = ('init', g)
    gn = ('init', L(('this',), R['nparams'][2] + g[2][1:]))
    for a in alts(I.value(st, g)):
        if a != gi:
            ctx.bad(rule, 'global:%s' % who, where, '%s changes the time of the last evaluation to %s' % (who, show(a)[:120]))
    for a in alts(I.value(st, l)):
        if a == ('init', l):
            continue
        if a[0] == 'op' and a[1] == '-' and a[2] == gi and a[3][0] == 'init' and a[3][1] in (R['start'], L(('this',), R['nparams'][2] + R['start'][2][1:])):
            continue
        ctx.bad(rule, 'local:%s' % who, where, '%s changes the local time of the last evaluation to %s' % (who, show(a)[:120]))
