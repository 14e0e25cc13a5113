"""C15: user-written copies carry every member over, equality takes every member into account.
C16: constructors leave no scalar or fixed-size member undefined, nothing reads an undefined value."""
import re
from lib import *
from loader import AnalysisError, nodes

# class -> members that define the value (None: every member)
VALUES = {'Polynomial': ('coefficients_',), 'Segment': ('time_', 'polynomials_'), 'Trajectory': ('segments_',), 'Constraint': ('vertex_idx', 'constraint_idx'),
          'ThreadSafeTrajectory': ('trajectory_ptr_',), 'Vertex': ('constraints_',)}
COPIED = ('DynamicWaypoint', 'Vertex', 'Segment', 'Polynomial', 'Trajectory', 'ThreadSafeTrajectory', 'GaussianModifier', 'TrajModifier',
          'References', 'NumericParameters', 'Constraint', 'Extremum', 'NonlinearOptimizationParameters')
MUTEX = ('mutex', 'atomic_flag', 'condition_variable', 'once_flag')


def project_records(prog):
    return [r for r in prog.records.values() if not (r.get('file') or '/').startswith('/')]


def all_fields(prog, r, seen=()):
    out = list(r['fields'])
    for b in r.get('bases', ()):
        br = prog.records.get(b) or prog.records.get(b.replace('class ', '').replace('struct ', ''))
        if br is not None and br['name'] not in seen:
            out = all_fields(prog, br, seen + (r['name'],)) + out
    return out


def is_lock(f):
    return any(m in f['t'] for m in MUTEX)


def sub(base, f):
    return L(base, (('f', f),))


def check_C15(ctx):
    Lb = lib(ctx)
    P = Lb.prog
    n = 0
    for r in project_records(P):
        if r['sn'] not in COPIED:
            continue
        for m in r['methods']:
            what = [k for k in ('copy', 'move', 'copyasg', 'moveasg') if m.get(k)]
            if not what:
                continue
            if m.get('implicit') or m.get('defaulted') or m.get('deleted'):
                ctx.ok('memberwise', '%s: compiler-generated %s' % (r['sn'], what[0]))
                n += 1
                continue
            f = P.fns.get(m['id'])
            if f is None or 'body' not in f:
                raise AnalysisError('no body of the user-written %s of %s' % (what[0], r['name']))
            copied(ctx, Lb, r, f, what[0])
            n += 1
    for r in project_records(P):
        for f in P.methods(r['name']):
            if f['sn'] in ('operator==', 'operator!=') and len(f['params']) == 1 and r['sn'] in VALUES:
                equality(ctx, Lb, r, f)
    ctx.require(8, 'memberwise', 'copy operations of the value classes')
    ctx.require(4, 'equality', 'comparison operators')
    ctx.assume.append('Compiler-generated copies are memberwise (language rule); standard containers and Eigen types copy their whole value.')


def copied(ctx, Lb, r, f, what):
    P = Lb.prog
    evs, ends, thrown, I = Lb.run(f)
    src = ('p', f['params'][0]['name'])
    fields = [x for x in all_fields(P, r) if not is_lock(x)]
    if not ends:
        return
    for st in ends:
        if what in ('copyasg', 'moveasg') and any(t[0] == 'op' and t[1] == '==' and v and mentions_this(t) and ('addr', L(src)) in t[2:]
                                                  for t, v in st.facts.items()):
            continue        # self-assignment
        for x in fields:
            v = I.value(st, sub(('this',), x['name']))
            want = I.value(st, sub(src, x['name'])) if what.startswith('copy') else ('init', sub(src, x['name']))
            if same(I, st, v, ('init', sub(src, x['name'])), x, P) or (what.startswith('copy') and same(I, st, v, want, x, P)):
                ctx.ok('memberwise', '%s %s: %s' % (r['sn'], what, x['name']))
            else:
                ctx.bad('memberwise', '%s:%s:%s' % (r['sn'], what, x['name']), '%s:%s' % (f['file'], f.get('l', '')),
                        'the %s of %s leaves %s with %s instead of the value of its source' % (
                            {'copy': 'copy constructor', 'move': 'move constructor', 'copyasg': 'copy assignment', 'moveasg': 'move assignment'}[what],
                            r['sn'], x['name'], show(v)))


def mentions_this(t):
    return any(x == ('addr', L(('this',))) or x == ('this',) for x in t[2:])


def show(v):
    return {'undef': 'nothing (uninitialised)', 'c': 'a constant', 'empty': 'an empty value', 'dflt': 'a default value'}.get(v[0], 'a different value')


def same(I, st, v, want, x, P):
    if v == want:
        return True
    if v[0] == 'phi':
        return all(same(I, st, y, want, x, P) for y in v[1])
    # element-wise copies of fixed arrays and vectors
    from shapes import segs
    try:
        s = segs(I, v)
    except Exception:
        s = []
    n = fixed_size(x)
    if v[0] == 'with' and n and {k[0] for k, y in v[2]} >= {('e', c(i)) for i in range(n)} and all(
            len(k) == 1 and y == I.proj(want, k[0]) for k, y in v[2]):
        return True
    if len(s) == 1 and s[0][0] == 'each' and s[0][1] == want and not s[0][2]:
        return True
    return False


def fixed_size(f):
    m = re.search(r'Matrix<\w+, (\d+), (\d+)', f.get('ct') or f['t']) or re.search(r'Vector(\d)[dfi]()\b', f['t'])
    if m:
        return int(m.group(1)) * int(m.group(2) or 1)
    if 'Quaternion' in f['t']:
        return 4
    return None


def claims_of(t, want, out):
    """what is known when the boolean t has the value want"""
    if t[0] == 'not':
        return claims_of(t[1], not want, out)
    if t[0] == 'op' and t[1] in ('&', '&&') and want or t[0] == 'op' and t[1] in ('|', '||') and not want:
        claims_of(t[2], want, out)
        claims_of(t[3], want, out)
        return out
    out[t] = want
    if t[0] == 'op' and t[1] == '!=':
        out[op('==', t[2], t[3])] = not want
    return out


def norm(t, v, out):
    """facts about equality operators of analysed classes as facts about =="""
    out[t] = v
    if t[0] == 'fn' and len(t) == 4:
        n = t[1].split('::')[-1]
        if n in ('operator==', 'operator!='):
            x, y = t[2], t[3]
            x, y = [('init', z[1]) if z[0] == 'addr' else z for z in (x, y)]
            k = v if n == 'operator==' else (not v if isinstance(v, bool) else v)
            out[op('==', x, y)] = k
            out[op('==', y, x)] = k


def normed(facts):
    out = {}
    for t, v in facts.items():
        norm(t, v, out)
    return out


def equality(ctx, Lb, r, f):
    P = Lb.prog
    eq = f['sn'] == 'operator=='

    def probe(I, ev, st):
        return st.copy() if ev.kind == 'iterend' else None
    own = f['name']
    evs, ends, thrown, I = Lb.run(f, probe=probe, inline=lambda g: g['sn'] not in ('operator==', 'operator!='))
    p = f['params'][0]
    null = 'nullptr' in (p.get('t') or '')
    me, it = ('init', L(('this',))), ('init', L(('p', p['name'])))
    want = VALUES[r['sn']] or [x['name'] for x in all_fields(P, r)]
    have = {x['name']: x for x in all_fields(P, r)}
    for w in want:
        if w not in have:
            raise AnalysisError('anchor vanished: %s::%s' % (r['name'], w))
    for st in ends:
        ret = st.ret
        if ret is None or ret == c(0 if eq else 1):
            continue
        claims = dict(st.facts)
        if ret[0] != 'c':
            claims_of(ret, eq, claims)
        claims = normed(claims)
        if not eq and (claims.get(op('==', me, it)) is True or claims.get(op('==', it, me)) is True):
            ctx.ok('equality', '%s::operator!= is the negation of operator==' % r['sn'])
            continue
        for w in want:
            a = ('init', sub(('this',), w))
            b = NULL if null else ('init', sub(('p', p['name']), w))
            e = established(I, P, evs, claims, a, b, have[w], ret)
            if e is False and ret[0] != 'c' and any(x[0] in ('fold', 'phi', 'cases', 'lv') for x in walk(ret)) and twice(P, f, w):
                e = None
            if e is None:
                ctx.notes.append('%s::%s: the comparison of %s has a form that is only checked for naming both sides' % (r['sn'], f['sn'], w))
            if e is not False:
                ctx.ok('equality', '%s::%s compares %s' % (r['sn'], f['sn'], w))
            else:
                ctx.bad('equality', '%s:%s:%s' % (r['sn'], f['sn'], w), '%s:%s' % (f['file'], f.get('l', '')),
                        '%s of %s can call two objects equal that differ in %s' % (f['sn'], r['sn'], w))


NULL = ('null',)


def begins(x, a):
    return x[0] == 'iter' and ('init', x[1]) == a and x[2] == c(0)


def ends_(x, a):
    return x[0] == 'iter' and ('init', x[1]) == a and x[2] == size(a)


def established(I, P, evs, claims, a, b, fld, ret):
    """True / False / None (the form of the comparison is not understood, but it names both sides)"""
    if claims.get(op('==', a, b)) is True or claims.get(op('==', b, a)) is True:
        return True
    for t, v in claims.items():
        if v is True and t[0] == 'fn' and t[1].split('::')[-1] == 'equal':
            for x, y in ((a, b), (b, a)):
                if begins(t[2], x) and ends_(t[3], x) and begins(t[4], y):
                    if len(t) > 5 and ends_(t[5], y) or same_dim(a, b, claims) or claims.get(op('==', size(a), size(b))) is True:
                        return True
                    return False
    # element by element
    r = elem_record(P, fld)
    unclear = ret[0] != 'c' and any(x[0] in ('fold', 'phi', 'cases', 'lv', 'fn') for x in walk(ret))
    for lid, info in I.loops.items():
        on = [ev.p for ev, _, s in evs if ev.kind == 'iterend' and ev.extra == lid and ev.val is None]
        if not on:
            continue
        ix = mk(('ix', lid))
        trips = {x for x in info.get('trips', ()) if x is not None}
        full = [t for t in trips if full_trip(t, a, b, claims)]
        for n in full:
            for k in (ix, op('-', op('-', n, ix), c(1)), op('-', op('-', n, c(1)), ix)):
                if all_equal(P, I, on, a, b, k, r):
                    return True
        for n in {size(a), size(b)} | {t for t, v in counts(a, b)}:
            k = op('-', op('-', n, c(1)), ix)
            if all(s.facts.get(op('<', k, c(0))) is False for s in on) and all_equal(P, I, on, a, b, k, r):
                return True
        # the loop compares elements of both sides: which of them is not understood
        if not trips and any(mentions(s.facts, a, b) for s in on):
            unclear = True
    if not unclear:
        return False
    for ev, _, s in evs:
        if ev.kind == 'iterend' and mentions(ev.p.facts, a, b):
            return None
    if mentions(claims, a, b) or mentions({ret: True}, a, b):
        return None
    return False


def twice(P, f, w):
    """the body names the member of both objects"""
    return sum(1 for n in nodes(f['body']) if n['k'] == 'mem' and n.get('f') == w) >= 2


def counts(a, b):
    return [(mk(('init', ('L', x[1][1], x[1][2][:-1] + (('f', 'D_'),)))), x) for x in (a, b) if x[0] == 'init']


def mentions(facts, a, b):
    for t in facts:
        h = [False, False]
        for x in walk(t):
            if len(x) > 1 and x[0] in ('init', 'iter', 'addr') and isinstance(x[1], tuple) and x[1][0] == 'L':
                for i, y in enumerate((a, b)):
                    if y[0] == 'init' and is_prefix(y[1], x[1]) and (x[1] != y[1] or x[0] != 'iter' or True):
                        h[i] = True
        if all(h) and not (t[0] == 'op' and t[1] == '==' and t[2][0] == 'size'):
            return True
    return False


def all_equal(P, I, on, a, b, k, r):
    ea, eb = I.proj(a, ('e', k)), I.proj(b, ('e', k))
    return all(elem_equal(P, I, normed(s.facts), ea, eb, r) for s in on)


def full_trip(t, a, b, claims):
    """t is the number of elements of a and of b"""
    if t in (size(a), size(b)):
        return claims.get(op('==', size(a), size(b))) is True or same_dim(a, b, claims)
    return count_of(t, a, b) and (same_dim(a, b, claims) or claims.get(op('==', size(a), size(b))) is True)


def count_of(t, a, b):
    return t[0] == 'init' and t[1][2] and t[1][2][-1] in (('f', 'D_'), ('f', 'N_')) and t[1][2][:-1] in (a[1][2][:-1], b[1][2][:-1])


def same_dim(a, b, claims):
    for n in ('D_',):
        x = ('init', ('L', a[1][1], a[1][2][:-1] + (('f', n),)))
        y = ('init', ('L', b[1][1], b[1][2][:-1] + (('f', n),)))
        if claims.get(op('==', mk(x), mk(y))) is True:
            return True
    return False


def elem_record(P, fld):
    best = None
    for n, r in P.records.items():
        if n in fld['t'] and (best is None or len(n) > len(best['name'])):
            best = r
    return best


def elem_equal(P, I, facts, ea, eb, r):
    if facts.get(op('==', ea, eb)) is True:
        return True
    if r is None or r['sn'] not in VALUES:
        return False
    for w in VALUES[r['sn']] or [x['name'] for x in r['fields']]:
        if facts.get(op('==', I.proj(ea, ('f', w)), I.proj(eb, ('f', w)))) is not True:
            return False
    return True


# ---------------------------------------------------------------------------------------------- C16
STATE = ('DynamicTrajectory', 'NumericParameters', 'DynamicWaypoint', 'References', 'GaussianModifier', 'ThreadSafeTrajectory', 'Segment',
         'Trajectory', 'Vertex', 'Polynomial', 'Extremum', 'PolynomialOptimization', 'PolynomialOptimizationNonLinear', 'OptimizationInfo',
         'NonlinearOptimizationParameters', 'EigenTrajectoryPoint', 'EigenMavState')
# plain records whose instances are filled right after their declaration (every use is followed by rule 'read')
FILLED = ('Constraint', 'ConstraintData')


def hidden(x, own):
    """parts of a value that nothing has defined; own: the object under construction"""
    h = x[0] if x else None
    if h == 'undef':
        return x
    if h == 'init':
        return x if own is not None and is_prefix(own, x[1]) else None
    if h == 'fld':
        if x[1][0] in ('fresh', 'undef'):
            return x
        if x[1][0] == 'with' and x[1][1][0] == 'fresh' and not any(k[0] == ('f', x[2]) for k, y in x[1][2]):
            return x
        return hidden(x[1], own) if x[1][0] in ('undef',) else None
    if h == 'with':
        for k, y in x[2]:
            z = hidden(y, own)
            if z is not None:
                return z
        b = x[1]
        if b[0] == 'obj':
            over = {k[0] for k, y in x[2] if len(k) == 1}
            for n, y in b[2]:
                if ('f', n) not in over:
                    z = hidden(y, own)
                    if z is not None:
                        return z
            return None
        if b[0] == 'undef' and isinstance(b[1], str):
            n = fixed_size({'t': b[1]})
            ks = {k[0] for k, y in x[2] if len(k) == 1}
            if n and all(k[0] == 'e' and isc(k[1]) for k in ks) and len(ks) < n:
                return b
            return None
        if b[0] == 'undef':
            return None
        return hidden(b, own)
    if h == 'obj':
        for n, y in x[2]:
            z = hidden(y, own)
            if z is not None:
                return z
        return None
    if h in ('addr', 'iter', 'L', 's', 'c', 'lv', 'ix', 'new', 'ref', 'out', 'ret', 'fold', 'fresh', None):
        return None
    filled = h in ('eig', 'fn') and x[1] == 'operator<<'        # comma initialiser: Eigen requires every coefficient
    for i, y in enumerate(x[1:]):
        if filled and i == 1 and isinstance(y, tuple) and y and y[0] == 'undef':
            continue
        if isinstance(y, tuple) and y and isinstance(y[0], str):
            z = hidden(y, own)
            if z is not None:
                return z
        elif isinstance(y, tuple):
            for w in y:
                if isinstance(w, tuple) and w and isinstance(w[0], str):
                    z = hidden(w, own)
                    if z is not None:
                        return z
    return None


def short(r):
    return r['sn'].split('<')[0]


def defined_field(f):
    """fields whose default construction leaves them undefined"""
    return f.get('scalar') or 'atomic' in f['t'] or fixed_size(f) is not None and 'Quaternion' not in f['t'] or 'Quaternion' in f['t']


def check_C16(ctx):
    Lb = lib(ctx)
    P = Lb.prog
    seen = set()
    for r in project_records(P):
        if short(r) not in STATE and short(r) not in FILLED:
            continue
        ctors = [m for m in r['methods'] if m.get('ctor') and not m.get('copy') and not m.get('move') and not m.get('implicit') and not m.get('deleted')]
        bodies = [P.fns[m['id']] for m in ctors if m['id'] in P.fns and not m.get('defaulted')]
        if not bodies:
            if short(r) in FILLED:
                continue
            for f in r['fields']:
                if not defined_field(f) or is_lock(f):
                    continue
                if f.get('hasinit'):
                    ctx.ok('constructed', '%s.%s has an initialiser' % (short(r), f['name']))
                else:
                    ctx.bad('constructed', '%s:%s' % (short(r), f['name']), '%s:%s' % (r['file'], f.get('l', r.get('l', ''))),
                            '%s::%s has no initialiser and no constructor defines it' % (short(r), f['name']))
            seen.add(short(r))
            continue
        seen.add(short(r))
        for f in bodies:
            evs, ends, thrown, I = Lb.run(f)
            if not ends and not thrown:
                raise AnalysisError('no path through %s' % f['name'])
            for st in ends:
                for x in r['fields']:
                    if is_lock(x):
                        continue
                    v = I.value(st, sub(('this',), x['name']))
                    own = L(('this',))
                    h = hidden(v, own)
                    if h is not None and not (defined_field(x) or r_fixed(P, x)):
                        h = None
                    if h is None:
                        ctx.ok('constructed', '%s/%d leaves %s defined' % (short(r), len(f['params']), x['name']))
                    else:
                        ctx.bad('constructed', '%s/%d:%s' % (short(r), len(f['params']), x['name']), '%s:%s' % (f['file'], f.get('l', '')),
                                'the constructor of %s with %d parameter(s) leaves %s undefined' % (short(r), len(f['params']), x['name']))
    for s in ('DynamicTrajectory', 'DynamicWaypoint', 'References', 'GaussianModifier', 'Segment', 'Trajectory', 'Extremum'):
        if s not in seen:
            raise AnalysisError('anchor vanished: class %s' % s)
    for f in P.fns.values():
        if '/rpoly/' in f['file'] or not f.get('body') or f['file'].startswith('/') or 'timing' in f['file']:
            continue
        undefined_reads(ctx, Lb, f)
    ctx.require(40, 'constructed', 'members defined by constructors')
    ctx.require(60, 'read', 'functions without reads of undefined locals')
    ctx.assume.append('Standard containers, strings and smart pointers define themselves; dynamic Eigen matrices are sized and filled by the code checked elsewhere.')
    ctx.assume.append('Values handed to functions by reference are defined by them (conditional outputs are C22).')


def r_fixed(P, x):
    """members of a record type: judged by what is inside"""
    return elem_record(P, x) is not None


def undefined_reads(ctx, Lb, f):
    evs, ends, thrown, I = Lb.run(f, inline=lambda g: False)
    bad = []
    for ev, tags, st in evs:
        if ev.kind == 'w' and ev.loc is not None and ev.loc[1][0] not in ('v', 'tmp', 't') and ev.val is not None and not f.get('implicit'):
            if f.get('kind') == 'ctor':
                continue
            h = hidden(ev.val, None)
            if h is not None:
                bad.append((ev.where(), 'stores', h))
        elif ev.kind == 'branch' and ev.val is not None:
            h = hidden(ev.val, None)
            if h is not None:
                bad.append((ev.where(), 'branches on', h))
        elif ev.kind == 'call':
            for a in ev.args or ():
                if isinstance(a, tuple) and a and a[0] in ('undef', 'op', 'phi', 'not'):
                    h = hidden(a, None)
                    if h is not None and isinstance(h[1], tuple):
                        bad.append((ev.where(), 'passes', h))
    for st in ends:
        if st.ret is not None:
            h = hidden(st.ret, None)
            if h is not None:
                bad.append(('%s:%s' % (f['file'], f.get('l', '')), 'returns', h))
    if not bad:
        ctx.ok('read', f['name'])
    for w, what, h in bad:
        ctx.bad('read', '%s:%s' % (f['name'].split('::')[-1], what), w, '%s %s a value that depends on %s, which nothing has defined' % (f['name'], what, show_h(h)))


def show_h(h):
    import terms
    return terms.show(h)[:120]
