"""Canonical symbolic terms and the light-weight fact domain.

Terms are hashable tuples:
  ('c', n)                     integer constant
  ('L', const, ((t, k), ...))  linear combination
  ('s', name, uid)             opaque symbol
  ('ld', path, stamp)          value of a location as of log stamp
  ('app', f, a1, ...)          uninterpreted application
  ('ge0', lin) ('eq0', lin) ('ne0', lin)    integer comparisons
  ('not', b) ('and', a, b) ('or', a, b) ('true',) ('false',)
"""
from functools import lru_cache
from math import gcd

TRUE = ('true',)
FALSE = ('false',)


def C(n):
    return ('c', n)


ZERO = C(0)
ONE = C(1)


def parts(t):
    if t[0] == 'c':
        return t[1], {}
    if t[0] == 'L':
        return t[1], dict(t[2])
    return 0, {t: 1}


def _key(t):
    return repr(t)


_kc = {}


def skey(t):
    k = _kc.get(t)
    if k is None:
        k = _kc[t] = repr(t)
    return k


def mklin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ('L', c, tuple(sorted(d.items(), key=lambda x: skey(x[0]))))


def is_num(t):
    return t[0] not in ('true', 'false', 'ge0', 'eq0', 'ne0', 'not', 'and', 'or')


def add(a, b, kb=1):
    a, b = num(a), num(b)
    ca, da = parts(a)
    cb, db = parts(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + kb * k
    return mklin(ca + kb * cb, da)


def sub(a, b):
    return add(a, b, -1)


def num(t):
    if is_num(t):
        return t
    if t == TRUE:
        return ONE
    if t == FALSE:
        return ZERO
    return ('app', 'b2i', t)


def mul(a, b):
    a, b = num(a), num(b)
    if b[0] == 'c':
        a, b = b, a
    if a[0] == 'c':
        c, d = parts(b)
        return mklin(c * a[1], {t: k * a[1] for t, k in d.items()})
    x = sorted((a, b), key=skey)
    return ('app', '*', x[0], x[1])


def app(f, *a):
    return ('app', f) + tuple(a)


def ge0(t):
    c, d = parts(num(t))
    if not d:
        return TRUE if c >= 0 else FALSE
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        d = {t: k // g for t, k in d.items()}
        c = c // g  # floor
    return ('ge0', mklin(c, d))


def eq0(t):
    c, d = parts(num(t))
    if not d:
        return TRUE if c == 0 else FALSE
    items = sorted(d.items(), key=lambda x: skey(x[0]))
    if items[0][1] < 0:
        d = {t: -k for t, k in d.items()}
        c = -c
    return ('eq0', mklin(c, d))


def ne0(t):
    return neg(eq0(t))


def GE(a, b):
    return ge0(sub(a, b))


def GT(a, b):
    return ge0(add(sub(a, b), C(-1)))


def EQ(a, b):
    if a == b:
        return TRUE
    if not is_num(a) or not is_num(b):
        if a == TRUE:
            return tobool(b)
        if b == TRUE:
            return tobool(a)
        if a == FALSE:
            return neg(tobool(b))
        if b == FALSE:
            return neg(tobool(a))
    return eq0(sub(a, b))


def NE(a, b):
    return neg(EQ(a, b))


def neg(b):
    k = b[0]
    if b == TRUE:
        return FALSE
    if b == FALSE:
        return TRUE
    if k == 'ge0':
        c, d = parts(b[1])
        return ge0(mklin(-c - 1, {t: -v for t, v in d.items()}))
    if k == 'eq0':
        return ('ne0', b[1])
    if k == 'ne0':
        return ('eq0', b[1])
    if k == 'not':
        return b[1]
    if k == 'and':
        return OR(neg(b[1]), neg(b[2]))
    if k == 'or':
        return AND(neg(b[1]), neg(b[2]))
    return ('not', b)


def AND(a, b):
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    if a == FALSE or b == FALSE:
        return FALSE
    return ('and', a, b)


def OR(a, b):
    if a == FALSE:
        return b
    if b == FALSE:
        return a
    if a == TRUE or b == TRUE:
        return TRUE
    return ('or', a, b)


def tobool(t):
    """Truth value of a term used as a condition."""
    if t[0] == 'c':
        return TRUE if t[1] else FALSE
    if not is_num(t):
        return t
    if t[0] == 'app' and t[1] == 'b2i':
        return t[2]
    return ne0(t)


# ---------------------------------------------------------------- facts
class Facts:
    """A conjunction of atoms with a small closed decision procedure: linear
    atoms are compared by their canonical form, at most two known atoms are
    added up, terms known to be unsigned count as non-negative."""

    __slots__ = ('atoms', '_eq')

    def __init__(self, atoms=frozenset()):
        self.atoms = atoms
        self._eq = None

    def add(self, a):
        if a == TRUE or a in self.atoms:
            return self
        if a[0] == 'and':
            return self.add(a[1]).add(a[2])
        return Facts(self.atoms | {a})

    def inter(self, o):
        if self.atoms == o.atoms:
            return self
        keep = self.atoms & o.atoms
        # atoms of one side the other side implies
        for x in self.atoms - keep:
            if o.implies(x, depth=1):
                keep = keep | {x}
        for x in o.atoms - keep:
            if self.implies(x, depth=1):
                keep = keep | {x}
        return Facts(frozenset(keep))

    def implies(self, a, nonneg=None, depth=2):
        if a == TRUE or a in self.atoms:
            return True
        if a == FALSE:
            return self.contradictory()
        k = a[0]
        if k == 'and':
            return self.implies(a[1]) and self.implies(a[2])
        if k == 'or':
            return self.implies(a[1]) or self.implies(a[2])
        if k == 'ge0':
            return self._ge(a[1], depth)
        if k == 'eq0':
            # equal when both directions hold
            if self._ge(a[1], depth):
                c, d = parts(a[1])
                return self._ge(mklin(-c, {t: -v for t, v in d.items()}), depth)
            return False
        if k == 'ne0':
            c, d = parts(a[1])
            m = mklin(-c, {t: -v for t, v in d.items()})
            return self._ge(add(a[1], C(-1)), depth) or self._ge(add(m, C(-1)), depth)
        return False

    def _lins(self):
        r = []
        for x in self.atoms:
            if x[0] == 'ge0':
                r.append(x[1])
            elif x[0] == 'eq0':
                r.append(x[1])
                c, d = parts(x[1])
                r.append(mklin(-c, {t: -v for t, v in d.items()}))
            elif x[0] == 'ne0':
                # x != 0 with x >= 0 gives x >= 1
                c, d = parts(x[1])
                if nonneg_lin(c, d):
                    r.append(add(x[1], C(-1)))
                m = {t: -v for t, v in d.items()}
                if nonneg_lin(-c, m):
                    r.append(mklin(-c - 1, m))
        return r

    def _ge(self, l, depth):
        c, d = parts(l)
        if nonneg_lin(c, d):
            return True
        if depth <= 0:
            return False
        ls = self._lins()
        for f in ls:
            c2, d2 = parts(sub(l, f))
            if nonneg_lin(c2, d2):
                return True
        if depth >= 2 and len(ls) <= 60:
            vs = set(d)
            for i, f in enumerate(ls):
                fd = parts(f)[1]
                if not (vs & set(fd)):
                    continue
                r = sub(l, f)
                for g in ls[:]:
                    c2, d2 = parts(sub(r, g))
                    if nonneg_lin(c2, d2):
                        return True
        if depth >= 3 and len(ls) <= 60:
            return self._cancel(l, ls, depth)
        return False

    def _cancel(self, l, ls, depth):
        """subtract facts, each of which removes a negative term"""
        c, d = parts(l)
        if nonneg_lin(c, d):
            return True
        if depth <= 0:
            return False
        bad = {t for t, k in d.items() if k < 0}
        for f in ls:
            fd = parts(f)[1]
            if (any(fd.get(t, 0) < 0 for t in bad) or not bad) and self._cancel(sub(l, f), ls, depth - 1):
                return True
        return False

    def contradictory(self):
        for x in self.atoms:
            if x[0] in ('ge0', 'eq0', 'ne0', 'not') or True:
                if neg(x) in self.atoms:
                    return True
        for x in self.atoms:
            if x[0] == 'ge0' and self.implies(neg(x), depth=1):
                return True
            if x[0] == 'eq0':
                c, d = parts(x[1])
                if nonneg_lin(c - 1, d) or nonneg_lin(-c - 1, {t: -v for t, v in d.items()}):
                    return True
        return False


_unsigned = set()


def mark_unsigned(t):
    _unsigned.add(t)
    return t


def nonneg_lin(c, d):
    if c < 0:
        return False
    for t, k in d.items():
        if k < 0 or not nonneg(t):
            return False
    return True


def nonneg(t):
    return t in _unsigned or (t[0] == 'app' and t[1] in ('b2i', 'size', 'count', 'deg', 'wgt', 'tgt', '|V|', '|E|')) or \
        (t[0] == 'ld' and t[1][1] and t[1][1][-1] == ('f', '#size'))


def subterms(t):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def show(t):
    """Short human readable rendering."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'c':
        return str(t[1])
    if k == 'L':
        s = []
        for x, c in t[2]:
            s.append(('' if c == 1 else '-' if c == -1 else '%d*' % c) + show(x))
        if t[1]:
            s.append(str(t[1]))
        return '(' + ' + '.join(s) + ')'
    if k == 's':
        return '%s' % t[1]
    if k == 'ld':
        return showpath(t[1])
    if k == 'app':
        return '%s(%s)' % (t[1], ', '.join(show(x) for x in t[2:]))
    if k == 'ge0':
        return show(t[1]) + '>=0'
    if k == 'eq0':
        return show(t[1]) + '==0'
    if k == 'ne0':
        return show(t[1]) + '!=0'
    if k == 'not':
        return '!' + show(t[1])
    if k in ('and', 'or'):
        return '(%s %s %s)' % (show(t[1]), k, show(t[2]))
    if k == 'obj':
        return '{%s}' % ', '.join('%s=%s' % (f, show(v)) for f, v in t[2])
    if k == 'ptr':
        return '&' + showpath(t[1])
    return str(t[0])


def showpath(p):
    root, steps = p
    s = root[2] if root[0] == 'v' and len(root) > 2 and isinstance(root[2], str) else (
        show(root[1]) if root[0] == 'p' else str(root[0]))
    for st in steps:
        if st[0] == 'f':
            s += '.' + st[1]
        else:
            s += '[' + (show(st[1]) if isinstance(st[1], tuple) else str(st[1])) + ']'
    return s
