"""C03, C04: the command queues and the regeneration request."""
from rules_planner import *
from shapes import *

QN = ('setq', 'addq', 'modq')
QLABEL = {'setq': 'set waypoints', 'addq': 'appended waypoints', 'modq': 'modifications'}


def commands(P):
    return [P.method(n) for n in ('setWaypoints', 'appendWaypoint', 'modifyWaypoint', 'modifyWaypoints')]


def queue_of_loc(R, loc):
    if loc is None:
        return None
    for q in QN:
        if is_prefix(R[q], loc):
            return q
    return None


def is_empty(v):
    return v == ('empty',) or v[0] == 'fresh' or (v[0] == 'ilist' and len(v) == 1) or (v[0] == 'sized' and v[2] == c(0)) or \
        (v[0] == 'resized' and v[2] == c(0))


def queue_empty(P, I, st, q):
    """the queue is known to be empty in this state"""
    v = I.value(st, P.roles[q])
    if is_empty(v):
        return True
    return I.known(st, op('==', size(v), c(0))) is True


def cmd_tagger(R):
    """dirty: a queue was changed and the request has not been raised after it; csraise: raised in this critical section"""
    def tag(ev, st):
        k, t = ev.kind, st.tags
        if k == 'w' and queue_of_loc(R, ev.loc) and ev.extra != 'reserve':
            if 'csraise' not in t:
                return t | {'dirty'}
        elif k in ('astore', 'aexch') and ev.loc == R['request']:
            if not maybe_false(ev.val):
                t = t - {'dirty', 'maybe'}
                if any(l[0] == R['todo'] for l in ev.held):
                    t = t | {'csraise'}
                return t
        elif k == 'unlock' and ev.loc == R['todo']:
            return t - {'csraise'}
        return None
    return tag


def worker_tagger(R):
    base = phase_tagger(R)

    def tag(ev, st):
        t = base(ev, st)
        u = st.tags if t is None else t
        k = ev.kind
        if k == 'lock' and ev.loc == R['todo']:
            u = frozenset(x for x in u if not x.startswith(('clr:', 'rd:'))) - {'withdrawn'}
        elif k == 'unlock' and ev.loc == R['todo']:
            if 'withdrawn' in u:
                u = u | {'drained'}
            u = frozenset(x for x in u if not x.startswith(('clr:', 'rd:'))) - {'withdrawn'}
        elif k in ('astore', 'aexch') and ev.loc == R['request'] and maybe_false(ev.val):
            u = u | {'withdrawn'}
        elif k == 'w' and ev.extra != 'reserve' and ev.loc is not None:
            q = queue_of_loc(R, ev.loc)
            if q and ev.loc == R[q]:
                u = u | {'clr:' + q} if is_empty(ev.val) else u - {'clr:' + q}
        elif k == 'r':
            q = queue_of_loc(R, ev.loc)
            if q and (ev.node or {}).get('sn') not in ('size', 'empty', 'length', 'end', 'cend'):
                u = u | {'rd:' + q}
        elif k == 'branch':
            x = ev.val
            if ev.extra and x[0] == 'op' and x[1] == '==' and ('c', 0) in (x[2], x[3]) and 'drained' in u:
                y = x[3] if isc(x[2]) else x[2]
                if size_sum(R, y):
                    u = u | {'emptylist'}
        elif k == 'launch' and ev.name == 'async':
            u = u - {'drained'}
        elif k == 'iterend' and len(ev.loops) == 0:
            u = u - {'drained', 'emptylist'}
        return u if u != st.tags else t
    return tag


def size_sum(R, y):
    """the length of a list other than the queues themselves"""
    if y[0] == 'op' and y[1] == '+':
        return any(size_sum(R, x) for x in y[2:4])
    return y[0] == 'size' and not (y[1][0] == 'init' and queue_of_loc(R, y[1][1]))


def bool_param_off(f, st):
    """a boolean parameter of the command asks for no regeneration"""
    for p in f['params']:
        if p['t'] in ('bool', 'const bool', 'const bool &'):
            t = ('init', L(('p', p['name'])))
            if st.facts.get(t) is False:
                return True
    return False


def queue_facts(R, st):
    out = set()
    for t, v in st.facts.items():
        if contains(t, lambda y: y[0] == 'init' and len(y) == 2 and queue_of_loc(R, y[1]) is not None):
            out.add((t, v))
    return out


def check_C03(ctx):
    P = planner(ctx)
    R = P.roles
    RQ = show_loc(R['request'])
    # commands raise the request after the last change of a queue
    for f in commands(P):
        evs, ends, thrown, I = P.run(f, tagger=cmd_tagger(R))
        changed = [ev for ev, _, _ in evs if ev.kind == 'w' and queue_of_loc(R, ev.loc)]
        if not changed:
            ctx.bad('raise', f['sn'] + ':no-effect', f['name'], '%s queues nothing' % f['sn'])
        for st in ends:
            ctx.ok('raise', '%s, path with %s' % (f['sn'], ', '.join(sorted('%s%s' % ('' if v else 'not ', show(t)[:80]) for t, v in st.facts.items())) or 'no branch'))
            if 'dirty' in st.tags and not bool_param_off(f, st):
                w = changed[-1].where()
                ctx.bad('raise', f['sn'], w, '%s returns on a path where it changed a command queue (%s) and did not raise %s afterwards' % (f['sn'], w, RQ))
    # who may lower it
    lowers = 0
    for lab, c_, f in roots(P):
        tg = worker_tagger(R)
        evs, ends, thrown, I = P.run(f, tagger=tg)
        drain_facts = []
        for ev, tags, st in evs:
            if ev.kind in ('astore', 'aexch') and ev.loc == R['request']:
                if not maybe_false(ev.val):
                    ctx.ok('store', '%s raises it at %s' % (lab, ev.where()))
                    continue
                lowers += 1
                ctx.ok('lower', '%s lowers it at %s' % (lab, ev.where()))
                key = '%s:%s' % (lab, ev.fn.split('::')[-1])
                if c_ != 'T':
                    ctx.bad('lower', key, ev.where(), '%s may lower %s: only the worker that takes the commands may' % (lab, RQ))
                elif not any(l[0] == R['todo'] for l in ev.held):
                    ctx.bad('lower', key, ev.where(), 'the worker lowers %s without holding %s, so a command queued meanwhile loses its request' % (RQ, show_loc(R['todo'])))
                else:
                    drain_facts.append((ev, queue_facts(R, st)))
            elif ev.kind == 'unlock' and ev.loc == R['todo'] and 'withdrawn' in ev.pre:
                ctx.ok('drain', '%s at %s' % (lab, ev.where()))
                for q in QN:
                    if 'clr:' + q not in ev.pre and not queue_empty(P, I, st, q):
                        ctx.bad('drain', '%s:%s' % (q, ev.fn.split('::')[-1]), ev.where(),
                                'the worker lowers %s but leaves queued %s behind in the same critical section' % (RQ, QLABEL[q]))
            elif ev.kind == 'iterend' and c_ == 'T' and 'drained' in ev.pre and not ev.loops:
                ctx.ok('launch', 'iteration of %s' % ev.fn)
                if 'emptylist' not in ev.pre:
                    ctx.bad('launch', ev.fn.split('::')[-1], ev.where(),
                            'an iteration of the worker takes the queued commands and ends without launching a computation, although waypoints were taken')
        if drain_facts and c_ == 'T':
            common = set.intersection(*[fs for _, fs in drain_facts])
            # facts established inside the critical section itself are about what is taken, not about whether
            pre = set(common)
            for t, v in pre:
                ctx.bad('guard', show(t)[:80], drain_facts[0][0].where(),
                        'the worker serves the request only if %s%s' % ('' if v else 'not ', show(t)[:160]))
    if lowers == 0:
        ctx.bad('lower', 'never', R['worker']['name'], '%s is never lowered' % RQ)
    ctx.require(4, 'raise', 'commands')
    ctx.require(1, 'drain', 'critical section that takes the commands')
    ctx.require(1, 'launch', 'worker iteration that takes the commands')
    ctx.assume.append('whether the worker is scheduled, and how long the security zone around a waypoint lasts, is not decided')


# ------------------------------------------------------------------ C04
def describe(items):
    return '[%s]' % ', '.join('%s %s%s' % (i[0], show(i[1])[:60], ' filtered' if len(i) > 2 and i[2] else '') for i in items)


def pair_of(I, v):
    """(first, second) of a pair value"""
    return I.proj(v, ('f', 'first')), I.proj(v, ('f', 'second'))


def mod_update(I, st, base, v, name, pos):
    """v is base with the pair (name, pos) appended, or with the entry of that name set to pos"""
    if v[0] == 'push' and v[1] == base:
        a, b = pair_of(I, v[2])
        return a == name and b == pos
    if v[0] == 'with' and v[1] == base:
        ent = {}
        for steps, x in v[2]:
            if steps[0][0] != 'e':
                return False
            ent.setdefault(steps[0][1], {})['.'.join(s[1] for s in steps[1:])] = x
        if len(ent) != 1:
            return False
        idx, d = next(iter(ent.items()))
        if d.get('second', d.get('')) != pos and not ('' in d and pair_of(I, d['']) == (name, pos)):
            return False
        if 'first' in d and d['first'] != name:
            return False
        if idx == name:      # associative container
            return True
        el = I.proj(base, ('e', idx))
        first = I.proj(el, ('f', 'first'))
        return any(v2 and t[0] == 'op' and t[1] == '==' and set((t[2], t[3])) == set((first, name)) for t, v2 in st.facts.items()) or \
            ('' in d)
    return False


def name_only(t, names, ixs):
    """index terms occur in t only inside name terms"""
    m = {n: ('s', '#name') for n in names}
    u = subst(t, m)
    return not contains(u, lambda y: y[0] == 'ix' and y in ixs)


def applications(P, I, evs, modq):
    """events that apply a queued modification to an element of a container: (event, list loc, list loop, mod loop, state, method)"""
    out = []
    for ev, tags, st in evs:
        if ev.kind != 'w' or ev.extra != 'mut' or not ev.loc[2] or ev.loc[2][-1][0] != 'e' or ev.val[0] != 'mut':
            continue
        for a in ev.val[4:]:
            if a and a[0] == 'init' and len(a) == 2 and is_prefix(modq, a[1]) and a[1][2] and a[1][2][-1] == ('f', 'second'):
                mi = a[1][2][len(modq[2])]
                if mi[0] == 'e' and mi[1][0] == 'ix':
                    out.append((ev, ('L', ev.loc[1], ev.loc[2][:-1]), ev.loc[2][-1][1], mi[1], st, ev.val[1].split('::')[-1], ('init', ('L', a[1][1], a[1][2][:-1] + (('f', 'first'),)))))
    return out


def check_app(P, I, app, modval):
    """None if the application covers every element of that name and every queued modification, else the reason"""
    ev, lst, li, mi, st, meth, first = app
    if not loop_full(I, mi[1], modval):
        return 'not every queued modification is visited in order'
    if li[0] != 'ix':
        return 'only one waypoint is changed, not every one of that name'
    info = I.loops.get(li[1], {})
    cont = None
    if info.get('range') is not None:
        full = loop_full(I, li[1])
    else:
        cont = I.value(st, lst)
        full = loop_full(I, li[1], cont) or any(t is not None and t[0] == 'size' for t in info.get('trips', ())) and not info.get('breaks') and not info.get('returns')
    if not full:
        return 'the search stops before the end: not every waypoint of that name is changed'
    names = [first]
    eq = False
    for t, v in st.facts.items():
        if v and t[0] == 'op' and t[1] == '==' and first in (t[2], t[3]):
            o = t[3] if t[2] == first else t[2]
            if contains(o, lambda y: y == li):
                eq = True
                names.append(o)
    if not eq:
        return 'it is not compared with the name of the modification'
    ixs = (li, mi)
    for t, v in st.facts.items():
        if not contains(t, lambda y: y[0] == 'ix' and y in ixs):
            continue
        if t[0] == 'op' and t[1] == '<' and t[2] in ixs:
            continue
        if t[0] == 'op' and t[1] == '==' and (t[2] in ixs or t[3] in ixs):
            continue
        if not name_only(t, names, ixs):
            return 'it is applied only if %s%s' % ('' if v else 'not ', show(t)[:120])
    return None


def time_filter_ok(P, how, last):
    """filters on the way to the next trajectory may only drop waypoints whose time has passed"""
    def is_time(t):
        """the time of the waypoint at hand"""
        if t[0] == 'op' and t[1] in ('+', '-'):
            return is_time(t[2])
        if t[0] == 'fn':
            return t[1].endswith('getTime')
        if t[0] == 'init' and len(t) == 2 and len(t[1][2]) > 1:
            return t[1][2][-1][0] == 'f' and 'time' in str(t[1][2][-1][1]) and any(x[0] == 'e' for x in t[1][2])
        if t[0] == 'fld':
            return 'time' in str(t[2])
        return False

    def early(t, v):
        """the time is below (or at) the bound"""
        if t[0] != 'op' or t[1] not in ('<', '<='):
            return False
        return v and is_time(t[2]) and not is_time(t[3]) or not v and is_time(t[3]) and not is_time(t[2])

    def late(t, v):
        if t[0] != 'op' or t[1] not in ('<', '<='):
            return False
        return early(t, not v)
    if how[0] == 'erased' and len(how) == 3:
        return all(any(early(t, v) for t, v in facts) for facts, _ in how[2])
    if how[0] == 'erased':
        return False
    if how[0] == 'kept':
        # some way of keeping an element asks for nothing more than a late time
        def plain(t, v):
            return late(t, v) or t[0] == 'op' and t[1] in ('<', '<=', '==') and not is_time(t[2]) and not is_time(t[3]) and \
                contains(t, lambda y: y[0] == 'ix' or y[0] == 'lv' and len(y) == 3) and (t[2][0] in ('ix', 'lv') or t[3][0] in ('ix', 'lv'))
        return any(any(late(t, v) for t, v in facts) and all(plain(t, v) for t, v in facts) for facts in how[2])
    if how[0] == 'filtered':
        keep, drop = how[1]
        return all(any(early(t, v) for t, v in facts) for facts in drop)
    return False


def check_C04(ctx):
    P = planner(ctx)
    R = P.roles
    I0 = {q: ('init', R[q]) for q in QN}

    def runcmd(n):
        f = P.method(n)
        evs, ends, thrown, I = P.run(f)
        return f, evs, ends, I
    # setWaypoints
    f, evs, ends, I = runcmd('setWaypoints')
    par = ('init', L(('p', f['params'][0]['name'])))
    for st in ends:
        v = I.value(st, R['setq'])
        s = segs(I, v)
        ctx.ok('set', describe(s))
        empty = I.known(st, op('==', size(par), c(0))) is True
        if s != [('each', par, None)] and not (empty and s == []):
            ctx.bad('set', 'content', f['name'], 'setWaypoints leaves %s in the queue instead of every given waypoint in order' % describe(s))
        for q in ('addq', 'modq'):
            ctx.ok('set', QLABEL[q] + ' replaced')
            if not is_empty(I.value(st, R[q])) and not queue_empty(P, I, st, q):
                ctx.bad('set', q, f['name'], 'setWaypoints does not replace the queued %s' % QLABEL[q])
    # appendWaypoint
    f, evs, ends, I = runcmd('appendWaypoint')
    par = ('init', L(('p', f['params'][0]['name'])))
    for st in ends:
        s = segs(I, I.value(st, R['addq']))
        ctx.ok('append', describe(s))
        if s != [('each', I0['addq'], None), ('one', par)]:
            ctx.bad('append', 'content', f['name'], 'appendWaypoint leaves %s instead of the queue followed by the given waypoint' % describe(s))
        for q in ('setq', 'modq'):
            if I.value(st, R[q]) != I0[q]:
                ctx.bad('append', q, f['name'], 'appendWaypoint changes the queued %s' % QLABEL[q])
    # modifyWaypoint
    f, evs, ends, I = runcmd('modifyWaypoint')
    nm, ps = [('init', L(('p', p['name']))) for p in f['params'][:2]]
    for st in ends:
        v = I.value(st, R['modq'])
        ctx.ok('modify', 'path with ' + ', '.join(sorted('%s%s' % ('' if x else 'not ', show(t)[:60]) for t, x in st.facts.items())))
        if not all(mod_update(I, st, I0['modq'], a, nm, ps) for a in alts(v)):
            ctx.bad('modify', 'content', f['name'], 'modifyWaypoint leaves %s: the given position is not recorded for the given name' % show(v)[:200])
        for q in ('setq', 'addq'):
            if I.value(st, R[q]) != I0[q]:
                ctx.bad('modify', q, f['name'], 'modifyWaypoint changes the queued %s' % QLABEL[q])
    # modifyWaypoints: every entry
    f, evs, ends, I = runcmd('modifyWaypoints')
    par = L(('p', f['params'][0]['name']))
    lids = set()
    for ev, tags, st in evs:
        if ev.kind == 'w' and ev.loc and is_prefix(R['modq'], ev.loc):
            for l in ev.loops:
                if contains(ev.val, lambda y: y[0] == 'init' and len(y) == 2 and is_prefix(par, y[1]) and any(s == ('e', ('ix', l)) for s in y[1][2])):
                    lids.add(l)
    whole = any(I.value(st, R['modq'])[0] in ('append',) for st in ends)
    if not lids and not whole:
        ctx.bad('modify-all', 'loop', f['name'], 'modifyWaypoints does not visit the given modifications')
    for l in lids:
        ctx.ok('modify-all', 'loop at %s:%s' % (I.loops[l]['file'], I.loops[l]['line']))
        if not loop_full(I, l, ('init', par)):
            ctx.bad('modify-all', 'partial', '%s:%s' % (I.loops[l]['file'], I.loops[l]['line']), 'modifyWaypoints does not visit every given modification in order')
        el = I.proj(('init', par), ('e', ('ix', l)))
        nm, ps = pair_of(I, el)
        for ev, tags, st in evs:
            if ev.kind == 'iterend' and ev.extra == l:
                v = I.value(st, R['modq'])
                ctx.ok('modify-all', 'iteration')
                base = None
                for b in walk(v):
                    if b and b[0] in ('lv', 'init') and (b == I0['modq'] or b[0] == 'lv' and len(b) == 3 and b[2] == R['modq']):
                        base = b
                        break
                if base is None or not all(mod_update(I, st, base, a, nm, ps) for a in alts(v)):
                    ctx.bad('modify-all', 'content', ev.where(), 'an entry given to modifyWaypoints is not recorded: %s' % show(v)[:200])
    # the worker: what becomes the next trajectory
    evs, ends, thrown, I = P.run(R['worker'], tagger=worker_tagger(R))
    active = ('init', R['active'])
    apps = applications(P, I, evs, R['modq'])
    drainapps, liveapps = [], []
    for a in apps:
        (drainapps if a[1][1][0] in ('v', 't') or is_prefix(R['next'], a[1]) else liveapps).append(a)
    nl = 0
    for ev, tags, st in evs:
        if ev.kind == 'launch' and ev.name == 'async':
            nl += 1
            v = I.value(st, R['next'])
            for a in alts(v):
                s = segs(I, a)
                ctx.ok('taken', describe(s))
                core = [i for i in s if i[0] != 'one']
                # the fixed waypoints in front stand for the vehicle or the trajectory in use
                i = 0
                while i < len(s) and s[i][0] == 'one':
                    i += 1
                tail = s[i:]
                good = False
                if len(tail) == 2 and all(t[0] == 'each' for t in tail):
                    a0, a1 = tail
                    if a1[1] == I0['addq'] and (a0[1] == I0['setq'] or a0[1] == active):
                        good = True
                        if a0[1] == active and not any(h[0] in ('erased', 'filtered', 'kept') for h in (a0[2] or ())):
                            ctx.bad('taken', 'passed', ev.where(), 'waypoints already passed are planned again')
                        for t in tail:
                            for h in t[2] or ():
                                if not time_filter_ok(P, h, None):
                                    good = False
                if not good:
                    ctx.bad('taken', 'content', ev.where(), 'the next trajectory is made of %s instead of the set waypoints (or the active ones not yet passed) followed by the appended ones' % describe(s))
                elif tail[0][1] == active:
                    if not I_known_empty(I, st, evs, R):
                        ctx.bad('taken', 'set-ignored', ev.where(), 'the active waypoints are used although waypoints were set')
                    # re-based on their current positions
                    if not rebased(P, I, a):
                        ctx.bad('taken', 'rebase', ev.where(), 'active waypoints enter the next trajectory without being re-based on their current positions')
    # modifications in the taken list
    why = None
    okd = False
    for a in drainapps:
        r = check_app(P, I, a, I0['modq'])
        ctx.ok('mods-taken', '%s at %s' % (a[5], a[0].where()))
        # elements already hold every waypoint when it runs
        cont = I.value(a[4], a[1])
        has_add = any(i[0] == 'each' and i[1] == I0['addq'] for i in segs(I, cont))
        if r is None and not has_add and I.known(a[4], op('==', size(I0['addq']), c(0))) is not True:
            r = 'the appended waypoints are added after it'
        if r is None:
            okd = True
        else:
            why = (a, r)
    if not okd:
        ctx.bad('mods-taken', 'applied', why[0][0].where() if why else R['worker']['name'],
                'queued modifications are not applied to every waypoint of the next trajectory%s' % (': ' + why[1] if why else ''))
    elif why:
        ctx.bad('mods-taken', 'applied-some', why[0][0].where(), 'a queued modification is not applied as it should: ' + why[1])
    # live modifications reach the active waypoints and whatever is still queued
    if liveapps:
        need = {'active': R['active'], 'setq': R['setq'], 'addq': R['addq']}
        for n, loc in need.items():
            mine = [a for a in liveapps if a[1] == loc]
            if not mine:
                ctx.bad('live', n, liveapps[0][0].where(), 'a live modification is removed from the queue without reaching %s' %
                        ('the active waypoints' if n == 'active' else 'the queued ' + QLABEL[n]))
            for a in mine:
                r = check_app(P, I, a, I0['modq'])
                ctx.ok('live', '%s of %s at %s' % (a[5], n, a[0].where()))
                if r:
                    ctx.bad('live', n + ':' + a[5], a[0].where(), 'a live modification does not reach every waypoint of its name: ' + r)
    # queues are emptied only where they were read
    for ev, tags, st in evs:
        if ev.kind == 'w' and ev.extra != 'reserve':
            q = queue_of_loc(R, ev.loc)
            if q and ev.loc == R[q]:
                ctx.ok('emptied', '%s at %s' % (show_loc(ev.loc), ev.where()))
                if not any(l[0] == R['todo'] for l in ev.held):
                    ctx.bad('emptied', q + ':lock', ev.where(), 'the worker changes the queued %s without holding %s' % (QLABEL[q], show_loc(R['todo'])))
                elif 'rd:' + q not in ev.pre and not queue_empty_pre(I, st, q, R) and is_empty(ev.val):
                    ctx.bad('emptied', q, ev.where(), 'the queued %s are thrown away in a critical section that did not take them' % QLABEL[q])
                elif q == 'modq' and is_empty(ev.val) and 'withdrawn' not in ev.pre and not liveapps:
                    ctx.bad('emptied', q + ':unused', ev.where(), 'the queued modifications are thrown away without being applied')
            elif q and ev.extra != 'mut' and c(0):
                pass
    ctx.require(2, 'set', 'setWaypoints')
    ctx.require(1, 'append', 'appendWaypoint')
    ctx.require(1, 'modify', 'modifyWaypoint')
    ctx.require(1, 'taken', 'launches')
    ctx.require(2, 'emptied', 'queues emptied')
    ctx.assume.append('copying a waypoint preserves its state (decided by C15); resetting and modifying a waypoint is decided by C14')


def queue_empty_pre(I, st, q, R):
    return I.known(st, op('==', size(('init', R[q])), c(0))) is True


def I_known_empty(I, st, evs, R):
    """the set queue was tested to be empty: the fact holds on the path"""
    t = op('==', size(('init', R['setq'])), c(0))
    if I.known(st, t) is True:
        return True
    # facts are dropped when paths are joined: look for the decision itself
    return any(ev.kind == 'branch' and ev.val == t and ev.extra for ev, _, _ in evs)


def rebased(P, I, v):
    """every active waypoint of the list is re-based on its own current position"""
    for t in walk(v):
        if t and t[0] == 'with' and len(t) == 3:
            for steps, x in t[2]:
                if steps[0][0] == 'e' and steps[0][1][0] == 'all':
                    for a in (y for _, y in x[1:]) if x[0] == 'cases' else (x,):
                        for y in walk(a):
                            if y and y[0] == 'mut' and (y[1].endswith('resetWaypointWithCurrentPosition') or
                                                        y[1].endswith('resetWaypoint') and contains(y, lambda z: z[0] == 'fn' and z[1].endswith('getCurrentPosition'))):
                                return True
    return False
