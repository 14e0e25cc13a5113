"""What a container value is made of: sequences recognised in the terms that loops and container
operations build, however they are written (push loops, range inserts, algorithms, moves)."""
from terms import *


def loop_full(I, lid, src=None):
    """the loop visits every element of src in ascending order and cannot stop early"""
    info = I.loops.get(lid)
    if info is None or info.get('breaks') or info.get('returns'):
        return False
    rng = info.get('range')
    if rng is not None and 'lo' not in info:
        return True
    if 'lo' in info:
        return info['lo'] == c(0) and info['trip'] == size(info['rangeval'])
    return src is not None and size(src) in info.get('trips', ())


def source(I, lid, x):
    """container whose element at the loop's index is x"""
    ix = ('ix', lid)
    info = I.loops.get(lid) or {}
    for rv in info.get('rangevals') or [info.get('rangeval')]:
        if rv is not None and x == I.proj(rv, ('e', ix)):
            return rv
    if x[0] == 'init' and x[1][2] and x[1][2][-1] == ('e', ix):
        return ('init', ('L', x[1][1], x[1][2][:-1]))
    if x[0] == 'at' and x[2] == ix:
        return x[1]
    return None


def filt(items, how):
    return [(i[0], i[1], (i[2] or ()) + (how,)) if i[0] == 'each' else i for i in items]


def segs(I, t, d=0):
    h = t[0]
    if d > 12:
        return [('?', t)]
    if h == 'empty' or (h == 'fresh') or (h == 'ilist' and len(t) == 1):
        return []
    if h in ('init', 'lv', 'at', 'fld', 'futval', 'ret', 'fn', 'out'):
        return [('each', t, None)]
    if h == 'ilist':
        return [('one', x) for x in t[1:]]
    if h == 'push':
        return segs(I, t[1], d + 1) + [('one', t[2])]
    if h == 'pushf':
        return [('one', t[2])] + segs(I, t[1], d + 1)
    if h == 'append':
        return segs(I, t[1], d + 1) + segs(I, t[2], d + 1)
    if h == 'with':
        return segs(I, t[1], d + 1)
    if h == 'erased':
        return filt(segs(I, t[1], d + 1), ('erased', t[2:]))
    if h == 'filtered':
        return filt(segs(I, t[2], d + 1), ('filtered', t[3:]))
    if h in ('phi',):
        ss = [segs(I, x, d + 1) for x in t[1]]
        if all(s == ss[0] for s in ss):
            return ss[0]
        if all(len(s) == len(ss[0]) for s in ss) and all(len({x[0] for x in col}) == 1 and (col[0][0] == 'one' or all(x == col[0] for x in col)) for col in zip(*ss)):
            # lists of the same shape whose single elements differ
            return [col[0] if all(x == col[0] for x in col) else ('one', phi([x[1] for x in col])) for col in zip(*ss)]
        return [('?', t)]
    if h == 'fold':
        lid, m, base, step = t[1], t[2], t[3], t[4]
        lv = ('lv', lid, m)
        alts_ = [(f, v) for f, v in step[1:]] if step[0] == 'cases' else [((), step)]
        if step[0] == 'phi':
            alts_ = [((), v) for v in step[1]]
        pushed = []
        fronts = []
        skip = False
        erased = []
        for f, v in alts_:
            while v[0] == 'with' and v[1][0] in ('push', 'pushf', 'lv', 'erased'):
                v = v[1]
            if v == lv:
                skip = True
            elif v[0] == 'push' and v[1] == lv:
                pushed.append((f, v[2]))
            elif v[0] == 'pushf' and v[1] == lv:
                fronts.append((f, v[2]))
            elif v[0] == 'erased' and v[1] == lv:
                erased.append((f, v[2:]))
            else:
                return [('?', t)]
        b = segs(I, base, d + 1)
        if erased and not pushed and not fronts:
            return filt(b, ('erased', lid, tuple(erased)))
        if pushed and not fronts and not erased:
            xs = set(x for _, x in pushed)
            src = None
            if len(xs) == 1:
                src = source(I, lid, pushed[0][1])
            if src is not None and loop_full(I, lid, src):
                it = segs(I, src, d + 1)
                if skip:
                    it = filt(it, ('kept', lid, tuple(f for f, _ in pushed)))
                return b + it
            if len(xs) == 1:
                return b + [('map', lid, pushed[0][1], skip)]
            return b + [('?', t)]
        if not pushed and not fronts and not erased:
            return b
        return [('?', t)]
    return [('?', t)]
