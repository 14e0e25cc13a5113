"""Polynomial normal form of terms, sums hidden in folds, symbolic derivatives, small order model."""
from terms import *


def padd(p, q, k=1):
    r = dict(p)
    for m, v in q.items():
        r[m] = r.get(m, 0) + k * v
        if r[m] == 0:
            del r[m]
    return r


def pmul(p, q):
    r = {}
    for m, v in p.items():
        for n, w in q.items():
            e = dict(m)
            for a, k in n:
                e[a] = e.get(a, 0) + k
                if e[a] == 0:
                    del e[a]
            key = tuple(sorted(e.items(), key=lambda x: serial(x[0])))
            r[key] = r.get(key, 0) + v * w
            if r[key] == 0:
                del r[key]
    return r


def poly(t, atom=None, d=0):
    """t as a polynomial over atoms: {((atom, exponent), ...): coefficient}"""
    t = mk(t)
    if d > 60:
        return {((t, 1),): 1}
    if isc(t) and isinstance(t[1], (int, float)):
        return {(): t[1]} if t[1] else {}
    if t == ZERO:
        return {}
    if atom is not None:
        x = atom(t)
        if x is not None:
            return x
    if t[0] == 'op' and t[1] in ('+', '-'):
        return padd(poly(t[2], atom, d + 1), poly(t[3], atom, d + 1), 1 if t[1] == '+' else -1)
    if t[0] == 'op' and t[1] == '*':
        return pmul(poly(t[2], atom, d + 1), poly(t[3], atom, d + 1))
    if t[0] == 'op' and t[1] == '/':
        q = poly(t[3], atom, d + 1)
        p = poly(t[2], atom, d + 1)
        if len(q) == 1:
            (m, v), = q.items()
            inv = {tuple((a, -k) for a, k in m): (1.0 / v if v not in (1, -1) else v)}
            return pmul(p, inv)
        return pmul(p, {((mk(('op', '/', c(1), t[3])), 1),): 1})
    if t[0] == 'fn' and t[1] == 'pow' and len(t) == 4 and isc(t[3]) and isinstance(t[3][1], (int, float)) and t[3][1] == int(t[3][1]) and 0 <= t[3][1] <= 12:
        r = {(): 1}
        b = poly(t[2], atom, d + 1)
        for _ in range(int(t[3][1])):
            r = pmul(r, b)
        return r
    if t[0] == 'neg' and len(t) == 2:
        return padd({}, poly(t[1], atom, d + 1), -1)
    return {((t, 1),): 1}


def peq(a, b, tol=1e-9):
    """equal polynomials up to rounding of the constants"""
    p, q = (x if isinstance(x, dict) else poly(x) for x in (a, b))
    for m in set(p) | set(q):
        if abs(p.get(m, 0) - q.get(m, 0)) > tol * max(1, abs(p.get(m, 0))):
            return False
    return True


def scaled(p, k):
    return {m: v * k for m, v in p.items()}


def pconst(p):
    """value of a constant polynomial, None otherwise"""
    if not p:
        return 0
    if set(p) == {()}:
        return p[()]
    return None


class Order:
    """Decides comparisons between few quantities (polynomials) by trying every relative order of them.

    quantities: list of (name, polynomial, tuple of candidate values); values are chosen so that
    all orders and coincidences appear. A comparison that mentions anything else is undecided."""

    def __init__(self, quantities):
        self.q = quantities

    def worlds(self):
        ws = [{}]
        for n, p, vs in self.q:
            ws = [dict(w, **{n: v}) for w in ws for v in vs]
        return ws

    def num(self, p, w):
        """number a polynomial has in world w: multiple of one quantity plus multiples of others, else None"""
        c0 = pconst(p)
        if c0 is not None:
            return c0 if c0 == 0 else None
        for n, q, _ in self.q:
            for k in (1, -1):
                if peq(p, scaled(q, k)):
                    return k * w[n]
        for n, q, _ in self.q:
            for m, r, _ in self.q:
                if n != m and peq(p, padd(q, r, -1)):
                    return w[n] - w[m]
        return None

    def val(self, t, w):
        """value of a term in world w (min/max/abs of known quantities included); None if unknown"""
        v = self.num(poly(t), w)
        if v is not None:
            return v
        if t[0] == 'fn' and t[1] in ('min', 'max') and len(t) == 4:
            a, b = self.val(t[2], w), self.val(t[3], w)
            if a is None or b is None:
                return None
            return min(a, b) if t[1] == 'min' else max(a, b)
        return None

    def test(self, t, w):
        """truth of a comparison in world w, None if undecided"""
        if t[0] == 'not':
            r = self.test(t[1], w)
            return None if r is None else not r
        if t[0] == 'op' and t[1] in ('<', '=='):
            v = self.num(padd(poly(t[2]), poly(t[3]), -1), w)
            if v is None:
                a, b = self.val(t[2], w), self.val(t[3], w)
                if a is None or b is None:
                    return None
                v = a - b
            return v < 0 if t[1] == '<' else v == 0
        return None

    def consistent(self, facts, w):
        for t, b in facts.items():
            r = self.test(t, w)
            if r is not None and r != b:
                return False
        return True


def sumform(I, t):
    """t as linear combination: [(coefficient, atom)] where a fold that only ever adds to its running value
    contributes its start and an atom ('sum', loop, location, ((facts, added term), ...))"""
    def atom(x):
        if x[0] == 'fold':
            lid, m, base, step = x[1], x[2], x[3], x[4]
            lv = mk(('lv', lid, m))
            cs = [(f, v) for f, v in step[1:]] if step[0] == 'cases' else \
                [((), v) for v in step[1]] if step[0] == 'phi' else [((), step)]
            add = []
            for f, v in cs:
                p = poly(v)
                k = ((lv, 1),)
                if p.get(k) != 1 or any(contains(a, lambda y: y == lv) for mm in p if mm != k for a, _ in mm):
                    return None
                del p[k]
                add.append((f, tuple(sorted(p.items(), key=repr))))
            s = mk(('sum', lid, m, tuple(add)))
            return padd(poly(base, atom), {((s, 1),): 1})
        return None
    return poly(t, atom)


def unphi(t, limit=64):
    """all single-valued readings of a term: phi nodes expanded (the same phi takes the same value everywhere)"""
    out = [mk(t)]
    res = []
    while out:
        x = out.pop()
        ph = None
        for y in walk(x):
            if y and y[0] == 'phi':
                ph = y
                break
        if ph is None:
            res.append(x)
            continue
        if len(out) + len(res) > limit:
            return None
        for a in ph[1]:
            out.append(subst(x, {ph: a}))
    return res


def sympy():
    import glob, sys
    try:
        import sympy as sp
    except ImportError:
        sys.path += glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages')
        import sympy as sp
    return sp


def to_sympy(t, syms):
    """sympy expression of a term; unknown subterms become symbols"""
    sp = sympy()

    def go(x):
        if isc(x):
            v = x[1]
            if isinstance(v, float):
                return sp.nsimplify(v, rational=True)
            return sp.Integer(int(v))
        if x == ZERO:
            return sp.Integer(0)
        if x[0] == 'op' and x[1] in '+-*/':
            a, b = go(x[2]), go(x[3])
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[x[1]]()
        if x[0] == 'neg':
            return -go(x[1])
        if x[0] == 'fn' and x[1] in ('exp', 'sqrt', 'sin', 'cos', 'log'):
            return getattr(sp, x[1])(go(x[2]))
        if x[0] == 'fn' and x[1] == 'pow':
            return go(x[2]) ** go(x[3])
        if x[0] == 'fn' and x[1] in ('abs', 'fabs'):
            return sp.Abs(go(x[2]))
        if x not in syms:
            syms[x] = sp.Symbol('x%d' % len(syms), real=True)
        return syms[x]
    return go(mk(t))


def readings(t, limit=512):
    """alternatives of a value: phi nodes in arithmetic positions and in the start of folds, nothing deeper"""
    t = mk(t)
    if t[0] == 'phi':
        out = []
        for a in t[1]:
            out += readings(a, limit)
        return list(dict.fromkeys(out))[:limit]
    if t[0] == 'op' and t[1] in ('+', '-', '*', '/'):
        xs, ys = readings(t[2], limit), readings(t[3], limit)
        if len(xs) * len(ys) == 1:
            return [t]
        return [op(t[1], a, b) for a in xs for b in ys][:limit]
    if t[0] == 'fold':
        bs = readings(t[3], limit)
        return [t] if len(bs) == 1 else [mk(('fold', t[1], t[2], b, t[4])) for b in bs]
    return [t]
