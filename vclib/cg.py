"""Call graph helpers."""
from .program import walk


class CallGraph:
    def __init__(self, P):
        self.P = P
        self.callees = {}
        self.sites = {}        # callee key -> [(caller, call node)]
        over = {}
        for f in P.functions.values():
            if f.get('cls'):
                over.setdefault((f['n'], len(f['params'])), []).append(f)
        self.over = over
        for f in P.functions.values():
            cs = set()
            for x in self.nodes(f):
                if x['k'] in ('call', 'ctor', 'lambda', 'fref', 'copy') and 'f' in x:
                    for g in self.targets(x, f):
                        cs.add(g['key'])
                        self.sites.setdefault(g['key'], []).append((f, x))
            self.callees[f['key']] = cs
        self.callers = {}
        for k, cs in self.callees.items():
            for c in cs:
                self.callers.setdefault(c, set()).add(k)

    @staticmethod
    def nodes(f):
        if f.get('b') is not None:
            yield from walk(f['b'])
        for I in f.get('inits') or []:
            if isinstance(I.get('e'), dict):
                yield from walk(I['e'])

    def targets(self, x, f):
        P = self.P
        r = []
        for v in sorted(f['variants']):
            g = P.lookup(x['f'], v)
            if g is not None and g not in r:
                r.append(g)
        if x['k'] == 'call' and x.get('virt'):
            for g in self.over.get((x.get('n'), len(x.get('args', []))), []):
                if g not in r:
                    r.append(g)
        return r

    def closure(self, keys):
        """everything that transitively calls one of keys"""
        T, st = set(keys), list(keys)
        while st:
            for c in self.callers.get(st.pop(), ()):
                if c not in T:
                    T.add(c)
                    st.append(c)
        return T

    def reach(self, keys):
        T, st = set(keys), list(keys)
        while st:
            for c in self.callees.get(st.pop(), ()):
                if c not in T:
                    T.add(c)
                    st.append(c)
        return T
