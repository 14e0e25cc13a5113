"""Value terms (value numbers) and memory locations of the abstract interpreter.

A term is a tuple whose head says what it is:
  ('c', v)            constant            ('s', str)         string constant
  ('init', loc)       value a location had when the analysed function was entered
  ('op', o, a, b)     arithmetic / comparison (comparisons only as '<' and '==')
  ('not', a)
  ('fn', name, ...)   value of a pure function of its arguments
  ('ret', name, site, ...) value returned by one execution of an impure call
  ('addr', loc)       pointer            ('iter', loc, idx) iterator into a container
  ('obj', cls, ((field, term)...))       constructed aggregate
  ('with', t, ((steps, term)...))        t with some parts replaced
  ('empty',) ('push', c, v) ('pushf', c, v) ('append', c, d)   container values
  ('size', t) ('at', t, idx) ('fld', t, name)
  ('ix', loop)        index of an arbitrary iteration of a loop
  ('lv', loop, loc)   unknown value of loc at the start of an arbitrary iteration
  ('fold', loop, loc, init, step)  value after the loop; step is in terms of ('lv', loop, loc)
  ('phi', (t...))     one of several values
A location is ('L', root, steps); steps are ('f', field) or ('e', index-term)."""



class T(tuple):
    """interned (hash-consed) term: cached hash, creation serial"""

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is T:
            return self.h == o.h and tuple.__eq__(self, o)
        return isinstance(o, tuple) and tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)


_table = {}
_serial = [0]


def mk(t):
    """interned version of a tuple (recursively)"""
    if type(t) is T or not isinstance(t, tuple):
        return t
    e = tuple([mk(x) if isinstance(x, tuple) else x for x in t])
    key = (e, type(e[1])) if len(e) == 2 and e[0] == 'c' else e
    r = _table.get(key)
    if r is None:
        r = T(e)
        r.h = tuple.__hash__(r)
        _serial[0] += 1
        r.sn = _serial[0]
        _table[key] = r
    return r


def serial(t):
    return mk(t).sn


class Store(dict):
    """dict that interns keys and values"""
    __slots__ = ()

    def __setitem__(self, k, v):
        dict.__setitem__(self, mk(k), mk(v))


TRUE = mk(('c', 1))
FALSE = mk(('c', 0))
ZERO = mk(('zero',))
NULL = mk(('null',))


def c(v):
    if isinstance(v, bool):
        v = int(v)
    return mk(('c', v))


def isc(t):
    return t[0] == 'c'


def L(root, steps=()):
    return mk(('L', root, tuple(steps)))


def sub(loc, *steps):
    return mk(('L', loc[1], loc[2] + tuple(steps)))


def fld(loc, name):
    return mk(('L', loc[1], loc[2] + (('f', name),)))


def elem(loc, idx):
    return mk(('L', loc[1], loc[2] + (('e', idx),)))


def is_prefix(a, b):
    return a[1] == b[1] and len(a[2]) <= len(b[2]) and b[2][:len(a[2])] == a[2]


def phi(ts):
    alts = []
    for t in ts:
        for x in (t[1] if t[0] == 'phi' else (t,)):
            if x not in alts:
                alts.append(x)
    if len(alts) == 1:
        return alts[0]
    alts.sort(key=serial)
    if len(alts) > 8:
        return ('top', 'phi')
    return mk(('phi', tuple(alts)))


def neg(t):
    if t[0] == 'not':
        return t[1]
    if isc(t):
        return FALSE if t[1] else TRUE
    return mk(('not', t))


def size(t):
    h = t[0]
    if h == 'empty':
        return c(0)
    if h in ('push', 'pushf'):
        return op('+', size(t[1]), c(1))
    if h == 'with':
        return size(t[1])
    if h == 'append':
        return op('+', size(t[1]), size(t[2]))
    if h == 'resized':
        return t[2]
    if h == 'sized':
        return t[2]
    if h == 's':
        return c(len(t[1]))
    if h == 'ilist':
        return c(len(t) - 1)
    if h == 'phi':
        return phi([size(x) for x in t[1]])
    return mk(('size', t))


def lin_split(t):
    """t as (base, const): t == base + const"""
    if t[0] == 'c' and isinstance(t[1], (int, float)):
        return None, t[1]
    if t[0] == 'op' and t[1] == '+' and isc(t[3]):
        return t[2], t[3][1]
    if t[0] == 'op' and t[1] == '-' and isc(t[3]):
        return t[2], -t[3][1]
    return t, 0


def op(o, a, b):
    a, b = mk(a), mk(b)
    if isc(a) and isc(b) and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
        x, y = a[1], b[1]
        try:
            if o == '+': return c(x + y)
            if o == '-': return c(x - y)
            if o == '*': return c(x * y)
            if o == '/':
                if y == 0: return mk(('op', o, a, b))
                if isinstance(x, int) and isinstance(y, int):
                    q = abs(x) // abs(y)
                    return c(q if (x < 0) == (y < 0) else -q)
                return c(x / y)
            if o == '%' and y: return c(int(x - y * int(x / y)))
            if o == '<': return c(x < y)
            if o == '==': return c(x == y)
            if o == '&&': return c(bool(x) and bool(y))
            if o == '||': return c(bool(x) or bool(y))
            if o == '<<': return c(x << y)
            if o == '>>': return c(x >> y)
            if o == '&': return c(x & y)
            if o == '|': return c(x | y)
        except Exception:
            pass
    if o in ('+', '-'):
        # keep constants at the right end so that i+1+1 == i+2
        if o == '+' and isc(a) and not isc(b):
            a, b = b, a
        if isc(b) and isinstance(b[1], int) and not isinstance(b[1], bool):
            base, k = lin_split(a)
            k2 = k + (b[1] if o == '+' else -b[1])
            if base is None:
                return c(k2)
            if k2 == 0:
                return base
            if isinstance(k2, int):
                return mk(('op', '+', base, c(k2)) if k2 > 0 else ('op', '-', base, c(-k2)))
        if o == '-' and a == b:
            return c(0)
        if isc(b) and b[1] == 0:
            return a
        if b == ZERO:
            return a
        if a == ZERO and o == '+':
            return b
    if o == '*':
        if isc(a) and a[1] == 1: return b
        if isc(b) and b[1] == 1: return a
    if o == '/' and isc(b) and b[1] == 1:
        return a
    if o == '==':
        if a == b: return TRUE
        if a[0] == 's' and b[0] == 's': return c(a[1] == b[1])
        if a == NULL and b[0] in ('addr', 'new', 'str'): return FALSE
        if b == NULL and a[0] in ('addr', 'new', 'str'): return FALSE
        if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1]:
            return op('==', a[2], b[2])
        for x, y in ((a, b), (b, a)):
            if isc(x) and isc(y) is False and y[0] == 'not':
                return y if x[1] else neg(y)
        if serial(b) < serial(a):
            a, b = b, a
    if o == '<':
        if a == b: return FALSE
        if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1]:
            return op('<', a[2], b[2])
        # unsigned idioms: 0 < size  ==  !(size == 0);  size < 1  ==  size == 0
        if a == c(0) and is_unsigned(b):
            return neg(op('==', b, c(0)))
        if b == c(1) and is_unsigned(a):
            return op('==', a, c(0))
        if b == c(0) and is_unsigned(a):
            return FALSE
        if isc(b) != isc(a):
            for x, k, lo in ((a, b, True), (b, a, False)):
                if isc(k) and isinstance(k[1], (int, float)) and x[0] == 'fn' and x[1] in ('max', 'min') and len(x) == 4:
                    g = limit(x, 'max')       # at least
                    if g is not None and (g >= k[1] if lo else g > k[1]):
                        return FALSE if lo else TRUE
                    g = limit(x, 'min')       # at most
                    if g is not None and (g < k[1] if lo else g <= k[1]):
                        return TRUE if lo else FALSE
    return mk(('op', o, a, b))


def limit(t, side):
    """constant below (side max) or above (side min) which a nest of max/min cannot lie"""
    if isc(t):
        return t[1] if isinstance(t[1], (int, float)) and t[1] == t[1] else None
    if t[0] == 'fn' and len(t) == 4 and t[1] in ('max', 'min'):
        # std::max(a, b) is a unless a < b: with b not a number it is a, so only the first operand is certain
        a, b = limit(t[2], side), limit(t[3], side)
        if t[1] == side:
            return a if b is None or a is None else (max if side == 'max' else min)(a, b)
        if a is not None and b is not None:
            return (min if side == 'max' else max)(a, b)
    return None


def is_unsigned(t):
    return t[0] == 'size' or (t[0] == 'op' and t[1] == '+' and is_unsigned(t[2]) and isc(t[3]) and t[3][1] >= 0)


def compare(o, a, b):
    if o == '<': return op('<', a, b)
    if o == '>': return op('<', b, a)
    if o == '<=': return neg(op('<', b, a))
    if o == '>=': return neg(op('<', a, b))
    if o == '==': return op('==', a, b)
    if o == '!=': return neg(op('==', a, b))
    raise KeyError(o)


def subst(t, m, its=None):
    """replace subterms (m: dict term->term), rebuilding with simplification; its: loop -> iteration at which the
    running values of that loop are meant"""
    m = {mk(k): mk(v) for k, v in m.items()}
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x in m:
            return m[x]
        if its and len(x) == 3 and x[0] == 'lv' and x[1] in its:
            return mk(('lvat', x[1], x[2], its[x[1]]))
        if x in memo:
            return memo[x]
        if its and x and x[0] == 'fold' and x[1] in its:
            return x
        y = tuple(go(e) if isinstance(e, tuple) else e for e in x)
        if y != x and y:
            if y[0] == 'op' and len(y) == 4:
                y = op(y[1], y[2], y[3])
            elif y[0] == 'not':
                y = neg(y[1])
            elif y[0] == 'size' and len(y) == 2:
                y = size(y[1])
        y = mk(y)
        memo[x] = y
        return y
    return go(mk(t))


def walk(t):
    """all tuples inside t"""
    st = [mk(t)]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        for e in x:
            if isinstance(e, tuple):
                st.append(e)


def contains(t, pred):
    for x in walk(t):
        if x and pred(x):
            return True
    return False


def alts(t):
    return t[1] if t[0] == 'phi' else (t,)


def show_loc(l):
    r = l[1]
    if r[0] == 'v':
        s = r[3] if len(r) > 3 else '%v'
    elif r[0] == 'p':
        s = r[1]
    elif r[0] == 'g':
        s = r[1]
    elif r[0] == '*':
        s = '*(' + show(r[1]) + ')'
    elif r[0] == 'this':
        s = 'this'
    else:
        s = '%tmp'
    for st in l[2]:
        if st[0] == 'f':
            s += '.' + st[1]
        else:
            s += '[' + show(st[1]) + ']'
    return s


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if d > 8:
        return '...'
    h = t[0]
    if h == 'c': return str(t[1])
    if h == 's': return repr(t[1])
    if h == 'init': return show_loc(t[1])
    if h == 'L': return show_loc(t)
    if h == 'op': return '(%s %s %s)' % (show(t[2], d + 1), t[1], show(t[3], d + 1))
    if h == 'not': return '!' + show(t[1], d + 1)
    if h == 'fn': return '%s(%s)' % (t[1].split('::')[-1], ', '.join(show(x, d + 1) for x in t[2:]))
    if h == 'ret': return '%s(%s)' % (t[1].split('::')[-1], ', '.join(show(x, d + 1) for x in t[3:]))
    if h == 'addr': return '&' + show_loc(t[1])
    if h == 'iter': return '%s@%s' % (show_loc(t[1]), show(t[2], d + 1))
    if h == 'size': return 'size(%s)' % show(t[1], d + 1)
    if h == 'at': return '%s[%s]' % (show(t[1], d + 1), show(t[2], d + 1))
    if h == 'fld': return '%s.%s' % (show(t[1], d + 1), t[2])
    if h == 'ix': return 'i'
    if h == 'lv': return 'prev(%s)' % show_loc(t[2])
    if h == 'fold': return 'fold(%s; %s)' % (show(t[3], d + 1), show(t[4], d + 1))
    if h == 'phi': return 'phi{%s}' % ' | '.join(show(x, d + 1) for x in t[1])
    if h == 'obj': return '%s{%s}' % (t[1].split('::')[-1], ', '.join('%s=%s' % (k, show(v, d + 1)) for k, v in t[2]))
    if h == 'with': return '%s+{%s}' % (show(t[1], d + 1), ', '.join('%s=%s' % (''.join(('.' + s[1]) if s[0] == 'f' else '[%s]' % show(s[1], d + 1) for s in k), show(v, d + 1)) for k, v in t[2]))
    if h == 'cases': return 'cases{%s}' % ' | '.join(show(v, d + 1) for _, v in t[1:])
    if not isinstance(h, str): return '?'
    return '%s(%s)' % (h, ', '.join(show(x, d + 1) for x in t[1:]))
