"""Graph and union-find operations as symbolic terms for the abstract
interpreter, and the evidence under which two vertices may be merged."""
from .absint import Interp, mark_unsigned
from .terms import *

GRAPHS = ('graph_access', 'mutable_graph')


def isgraph(q):
    return q.split('::')[0].split('<')[0] in GRAPHS


def graph_prims(self, e, st, fr, ov, op, args):
    q, n = e['q'], e.get('n')
    if q.split('::')[0].split('<')[0] == 'union_find':
        vals = [num(self.argval(st, a)) for a in args]
        if n == 'Find':
            r = app('find', vals[0])
            mark_unsigned(r)
            return [(st, r)]
        if n == 'Union':
            self.emit(st, fr, e, 'union', q, obj=op, args=vals)
            return [(st, fresh_bool(n))]
        if n == 'SameSet':
            return [(st, app('same', *vals))]
        if n == 'n':
            r = app('blocks', num(self.argval(st, (None, op))) if False else ('c', 0))
            return [(st, fresh_num('blocks'))]
        return None
    if not isgraph(q):
        return None
    vals = [self.argval(st, a) for a in args]

    def un(t):
        mark_unsigned(t)
        return [(st, t)]
    if n == 'nodes':
        return [(st, ('range', 'nodes'))]
    if n == 'edges_of':
        return [(st, ('range', 'edges', num(vals[0])))]
    if n in ('edges', 'edges_of_nodes'):
        return [(st, ('range', 'alledges'))]
    if n == 'getEdgeTarget':
        return un(app('tgt', *owner(st, vals)))
    if n == 'getEdgeWeight':
        return un(app('wgt', *owner(st, vals)))
    if n == 'getEdge':
        t, w = app('tgt', *owner(st, vals)), app('wgt', *owner(st, vals))
        mark_unsigned(t)
        mark_unsigned(w)
        return [(st, ('obj', 'pair', (('first', t), ('second', w))))]
    if n == 'getWeightedNodeDegree':
        return un(app('deg', num(vals[0])))
    if n == 'getUnweightedNodeDegree':
        return un(app('udeg', num(vals[0])))
    if n == 'getMinDegree':
        return un(app('mindeg'))
    if n == 'getMaxDegree':
        return un(app('maxdeg'))
    if n in ('number_of_nodes', 'n'):
        return un(app('numnodes'))
    if n in ('number_of_edges', 'm'):
        return un(app('numedges'))
    if n in ('get_first_edge', 'get_first_invalid_edge'):
        return un(app(n, num(vals[0])))
    if n == 'getReverseEdge':
        return un(app('rev', *owner(st, vals)))
    if n == 'computeDegrees':
        return [(st, None)]
    return None


def fresh_bool(n):
    from .absint import fresh
    return fresh(n)


def fresh_num(n):
    from .absint import fresh
    r = fresh(n)
    mark_unsigned(r)
    return r


def owner(st, vals):
    """(vertex, edge): the vertex an edge number was enumerated at, when the edge alone is given"""
    vals = [num(v) for v in vals]
    if len(vals) == 1:
        e = vals[0]
        for a in st.facts.atoms:
            if a[0] == 'app' and a[1] == 'in' and a[2] == e and a[3][:2] == ('range', 'edges'):
                return [a[3][2], e]
        if e[0] == 'app' and e[1] == 'rev':
            return [app('tgt', e[2], e[3]), e]
        return [app('src', e), e]
    return vals


def unfind(t):
    while t[0] == 'app' and t[1] == 'find':
        t = t[2]
    return t


def same(a, b, F):
    return a == b or F.implies(EQ(a, b), depth=1)


class Marks:
    """arrays that remember, per target vertex, the edge of the current vertex"""

    def __init__(self):
        self.writes = {}        # array root -> [(index, value, facts)]
        self.fill = {}

    @staticmethod
    def leafs(v):
        if v[0] == 'obj':
            d = dict(v[2])
            return d.get('first'), d.get('second')
        return None, v

    def add(self, path, val, F):
        if path[1] and path[1][-1][0] == 'i' and len(path[1]) == 1:
            self.writes.setdefault(path[0], []).append((num(path[1][0][1]), val, F))

    def ok(self, root):
        """-> erased value when all writes keep the meaning of the array"""
        erased = set()
        for i, v, F in self.writes.get(root, []):
            f, e = self.leafs(v)
            if e is None:
                return None
            if e[0] == 'c' and (f is None or f[0] == 'c'):
                erased.add((f, e))
                continue
            if i[0] == 'app' and i[1] == 'tgt' and i[3] == e and (f is None or f == i[2]):
                continue
            return None
        fill = self.fill.get(root)
        if fill is not None:
            f, e = self.leafs(fill)
            if e is None or e[0] != 'c':
                return None
            erased.add((f, e))
        return erased


class Evidence:
    """K: cuts of value below K have to survive; allcuts: single vertices are not known from elsewhere"""

    def __init__(self, I, marks, K, allcuts):
        self.I, self.marks, self.K, self.all = I, marks, K, allcuts
        self.stale = set()
        self.caches = set()
        self.incs = {}          # loop symbol -> [(value at the end of an iteration, facts)]

    # ---- terms
    def wterms(self, F, extra=()):
        out = set()
        for a in F.atoms:
            for s in subterms(a):
                if s[0] == 'app' and s[1] == 'wgt':
                    out.add(s)
        for x in extra:
            for s in subterms(x):
                if s[0] == 'app' and s[1] == 'wgt':
                    out.add(s)
        return out

    def ends(self, w, F):
        """ends of the edge a weight term belongs to"""
        n, e = w[2], w[3]
        if e[0] == 'ld':
            root, steps = e[1]
            steps = tuple(steps)
            if not steps or steps[0][0] != 'i':
                return None
            idx = num(steps[0][1])
            erased = self.marks.ok(root)
            if erased is None:
                return None
            pair = len(steps) == 2 and steps[1] == ('f', 'second')
            if len(steps) == 1 and any(f is not None for f, _ in erased):
                return None
            if pair:
                first = ('ld', (root, steps[:1] + (('f', 'first'),)), e[2])
                if not same(first, n, F):
                    return None
                return n, idx
            if root not in self.stale and all(F.implies(NE(e, c)) for _, c in erased):
                return n, idx
            return None
        return n, app('tgt', n, e)

    def touching(self, F, extra=()):
        r = []
        for w in self.wterms(F, extra):
            x = self.ends(w, F)
            if x is not None:
                r.append((w, x[0], x[1]))
        return r

    @staticmethod
    def joins(x, y, a, b, F):
        return same(x, a, F) and same(y, b, F) or same(x, b, F) and same(y, a, F)

    def third(self, E, a, b, F):
        """pairs of edges a-x, b-x"""
        for p, p1, p2 in E:
            for s, x in ((p1, p2), (p2, p1)):
                if not same(s, a, F) or same(x, b, F):
                    continue
                for q, q1, q2 in E:
                    if q != p and self.joins(q1, q2, b, x, F):
                        yield p, q, x

    def loops(self, F):
        out = set()
        for a in F.atoms:
            for s in subterms(a):
                if s in self.I.loopvars:
                    out.add(s)
        return out

    # ---- certificates
    def uncache(self, F):
        """with the degrees themselves in place of array elements that hold them"""
        if not self.caches:
            return F
        lds = {s for a in F.atoms for s in subterms(a) if s[0] == 'ld' and s[1][0] in self.caches and len(s[1][1]) == 1}
        G = F
        for t in lds:
            G = G.add(EQ(t, app('deg', num(t[1][1][0][1]))))
        for t in lds:
            d = app('deg', num(t[1][1][0][1]))
            for a in F.atoms:
                if t in set(subterms(a)) and a[0] in ('ge0', 'eq0', 'ne0'):
                    c, p = parts(a[1])
                    k = p.pop(t, 0)
                    if k:
                        p[d] = p.get(d, 0) + k
                        G = G.add((a[0], mklin(c, p)))
        return G

    @staticmethod
    def flagged(v, F, flags):
        """v was not merged before"""
        for idx, path, later in flags:
            if same(idx, v, F):
                return path, later
        return None

    def certify(self, a, b, F, flags=()):
        """-> (kind of evidence, paths of flags that must be set) or None; flags: (vertex, path, still to be set)"""
        K = self.K
        F = self.uncache(F)
        a, b = unfind(a), unfind(b)
        E = self.touching(F)
        direct = [(w, x, y) for w, x, y in E if self.joins(x, y, a, b, F)]
        for w, u, v in direct:
            if F.implies(GE(w, K)):
                return 'heavy edge', ()
        for w, u, v in direct:
            for x in (u, v):
                if F.implies(GT(mul(C(2), w), app('deg', x))) and (not self.all or F.implies(GE(app('deg', x), K))):
                    return 'edge of more than half a degree', ()
        for w, u, v in direct:
            for p, q, x in self.third(E, u, v, F):
                if F.implies(GE(add(w, p), K), depth=3) and F.implies(GE(add(w, q), K), depth=3):
                    return 'triangle', ()
                du, dv = app('deg', u), app('deg', v)
                if self.all and not (F.implies(GE(du, K)) and F.implies(GE(dv, K))):
                    continue
                A, B = mul(C(2), add(w, p)), mul(C(2), add(w, q))
                if F.implies(GT(A, du)) and F.implies(GT(B, dv)):
                    return 'triangle of more than half of two degrees', ()
                if not self.all and F.implies(GE(A, du)) and F.implies(GE(B, dv)):
                    fu, fv = self.flagged(u, F, flags), self.flagged(v, F, flags)
                    if fu and fv:
                        return 'triangle of half of two degrees', tuple(x[0] for x in (fu, fv) if x[1])
        if not self.all:
            for w, u, v in direct:
                for x in (u, v):
                    if F.implies(GE(mul(C(2), w), app('deg', x))):
                        fu, fv = self.flagged(u, F, flags), self.flagged(v, F, flags)
                        if fu and fv:
                            return 'edge of half a degree', tuple(y[0] for y in (fu, fv) if y[1])
        for s in self.loops(F):
            for d in [ZERO] + [sub(v, s) for v, _ in self.incs.get(s, [])]:
                if F.implies(GE(add(s, d), K)) and self.accumulates(s, a, b, F):
                    return 'common neighbours', ()
        return None

    def accumulates(self, s, a, b, F, depth=0):
        """loop symbol s never exceeds the connectivity of a and b"""
        key, entry, loop = self.I.loopvars[s]
        if depth > 3:
            return False
        if entry in self.I.loopvars:
            if not self.accumulates(entry, a, b, F, depth + 1):
                return False
        elif entry != ZERO:
            if not (entry[0] == 'app' and entry[1] == 'wgt'):
                return False
            x = self.ends(entry, F)
            if x is None or not self.joins(x[0], x[1], a, b, F):
                return False
        for v, G in self.incs.get(s, []):
            d = sub(v, s)
            if d == ZERO:
                continue
            E = [(w, x, y) for w, x, y in self.touching(G, (d,))]
            good = False
            for w, u, t in E:
                if not self.joins(u, t, a, b, G):
                    continue
                for p, q, x in self.third(E, u, t, G):
                    if self.younger(s, p) or self.younger(s, q):
                        if self.below(d, p, G) and self.below(d, q, G):
                            good = True
                            break
                if good:
                    break
            if not good:
                # the direct edge need not be mentioned
                for p, q, x in self.third(E, a, b, G):
                    if (self.younger(s, p) or self.younger(s, q)) and self.below(d, p, G) and self.below(d, q, G):
                        good = True
                        break
            if not good:
                return False
        return True

    @staticmethod
    def below(d, p, G):
        if d == p or G.implies(GE(p, d)):
            return True
        return d[0] == 'app' and d[1] == 'min' and p in d[2:]

    @staticmethod
    def younger(s, w):
        """the edge was chosen inside the loop s belongs to"""
        return any(x[0] == 's' and x[2] > s[2] for x in subterms(w))
