"""Operations on the mutable graph keep its redundant representation consistent."""
from copy import copy

from ..absint import Interp, fresh, mark_unsigned
from ..ast import strip
from ..program import walk, AnalysisBroken
from ..terms import *
from ..ctx import short

RULE = ('Symbolic execution of every operation of the adjacency-list graph that changes its structure. Every path through the operation, and every path through one iteration of each of its loops, '
        'is turned into the list of changes it makes to adjacency entries, weights, weighted degrees, edge count, per-vertex records and vertex sets; the changes of one such path must balance: '
        'both directions of an edge are added, removed, re-weighted and re-addressed together, a moved entry is announced to its reverse entry, the weighted degree follows the weights of the list, '
        'the edge count follows the number of entries, all per-vertex records grow, shrink and move together, and vertex sets and positions are inverse to each other.')
ASSUMPTIONS = ['the graph handed to an operation is consistent', 'vertices and edges named differently on a path are different ones unless the path says otherwise', 'no self loops; no parallel edges before a contraction']

ADJ = 'vertices'
PERV = None
TGT, WGT, REV = 'target', 'weight', 'reverse_edge'


class GI(Interp):
    """optimistic about aliasing, records the changes of each path segment"""

    def same_index(self, a, b, st):
        r = super().same_index(a, b, st)
        return 'no' if r == 'may' else r

    def havoc_mods(self, n, st, fr):
        vars_, fields, derefs = self.mods(n, fr.fn)
        keep = {v: st.env[(fr.id, v)] for v in vars_ if (fr.id, v) in st.env and self.leaving(n, v)}
        super().havoc_mods(n, st, fr)
        for v, x in keep.items():
            st.env[(fr.id, v)] = x

    def leaving(self, n, vid):
        """every assignment of the variable in loop n ends the loop"""
        ok = [False, True]

        def go(x, tail):
            if isinstance(x, list):
                for y in x:
                    go(y, False)
                return
            if not isinstance(x, dict):
                return
            k = x.get('k')
            if k == 'block':
                for i, s in enumerate(x['b']):
                    leaves = any(isinstance(y, dict) and y.get('k') in ('break', 'return') for y in x['b'][i:])
                    go(s, tail or leaves and not (isinstance(s, dict) and s.get('k') in ('for', 'while', 'do', 'forrange', 'switch')))
                return
            if k in ('for', 'while', 'do', 'forrange', 'switch') and x is not n:
                tail = False
            w = None
            if k == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                w = strip(x['a'])
            elif k == 'un' and x['op'][:2] in ('++', '--'):
                w = strip(x['e'])
            if w is not None and w.get('k') == 'ref' and w.get('id') == vid:
                ok[0] = True
                if not tail:
                    ok[1] = False
            for v in x.values():
                if isinstance(v, (dict, list)):
                    go(v, tail)
        for key in ('b', 'inc', 'c'):
            if n.get(key):
                go(n[key], False)
        return ok[0] and ok[1]

    def read_log(self, path, log, st=None):
        if path[0][0] == 'v' and len(path[1]) == 1 and path[1][0][0] == 'f':
            n = log
            while n is not None:      # a member of a local object is not what other objects' members are
                if n.kind == 'havocf':
                    n = n.parent
                    continue
                if n.kind in ('store', 'havocp') and n.path[0] == path[0]:
                    break
                n = n.parent
            if n is not None and n.kind == 'store' and (n.path == path or not n.path[1]):
                return n.val if n.path == path else self.proj(n.val, path[1], st)
        return super().read_log(path, log, st)

    def note(self, st, *fx):
        g = st.aux.get('fx')
        if g is not None:
            st.aux['fx'] = g[:-1] + (g[-1] + (fx,),)


def prims(self, e, st, fr, ov, op, args):
    q, n = e['q'], e.get('n')
    if q == self.CLS + '::edges_of' and len(args) == 1:
        x = num(self.argval(st, args[0]))
        touch(self, st, x, e.get('l'))
        return [(st, ('range', 'edges', x))]
    if q == self.CLS + '::nodes':
        return [(st, ('range', 'nodes'))]
    if n == 'swap' and e.get('k') == 'call':
        ps = []
        if q == 'std::swap':
            ps = [a[1] if a[1] is not None else (self.deref(a[0]) if a[0][0] == 'ptr' else None) for a in args]
        elif e.get('obj') is not None and len(args) == 1:
            a = op if op is not None else (self.deref(ov) if ov is not None and ov[0] == 'ptr' else None)
            b = args[0][1] if args[0][1] is not None else (self.deref(args[0][0]) if args[0][0][0] == 'ptr' else None)
            ps = [a, b]
        if len(ps) == 2 and None not in ps:
            i = [k for k, p in enumerate(ps) if isadj(self, p)]
            if len(i) == 1:
                self.note(st, 'swap', ps[i[0]][1][1][1], ps[1 - i[0]], e.get('l'))
                st.log = type(st.log)(st.log, 'havocp', ps[0], None)
                st.log = type(st.log)(st.log, 'havocp', ps[1], None)
                return [(st, None)]
    return None


def touch(I, st, x, line):
    """the list of x is used: is it known to be there after vertices were dropped?"""
    g = st.aux.get('fx')
    if g is not None and any(y[0] == 'vpop' and y[1] == ADJ for fr in g for y in fr):
        sz = I.vsize(st, (I.ROOT, (('f', ADJ),)))
        I.note(st, 'touch', x, st.facts.implies(GT(num(sz), x)), line)


def isadj(I, p):
    return p is not None and p[0] == I.ROOT and len(p[1]) == 2 and p[1][0] == ('f', ADJ) and p[1][1][0] == 'i'


def before(g):
    """vertices whose list was replaced by the last one before this iteration"""
    return tuple(x[2] for fr in (g or ())[:-1] for x in fr if x[0] == 'mv' and x[1] == ADJ)


def onevent(I, segs):
    RV = 'std::vector<%s>' % I.REC

    def local_entries(p):
        return p is not None and not p[1] and p[0][0] == 'v' and I.vartypes.get(p[0][1][1]) == RV

    def on(e, st):
        k = e.kind
        if k == 'loop-body':
            if st.aux.get('fx') is not None:
                st.aux['fx'] = st.aux['fx'] + ((),)
                st.aux['depth'] = len(st.loops)
            return
        if k == 'loop-next':
            g = st.aux.get('fx')
            segs.append(('loop', e.loops, g[-1] if g else None, st.facts, e, dict(st.env), before(g)))
            return
        if k == 'loop-exit':
            g = st.aux.get('fx')
            if g is not None:
                want = len(st.loops) + 1
                while len(g) > want:
                    g = g[:-2] + (g[-2] + (('broke',),) + g[-1],)
                st.aux['fx'] = g
            return
        if k == 'exit':
            g = st.aux.get('fx')
            while g is not None and len(g) > 1:
                g = g[:-2] + (g[-2] + g[-1],)
            segs.append(('body', (), g[-1] if g else None, st.facts, e, dict(st.env), ()))
            return
        p = e.obj
        if p is None:
            return
        ln = e.line
        for fq, l in reversed(e.stack):
            if l is not None and not fq['n'].startswith('operator'):
                ln = l
                break
        if p[0] == I.ROOT and p[1] and p[1][0][0] == 'f':
            f, s = p[1][0][1], p[1][1:]
            if k == 'write':
                if f == ADJ and len(s) == 3 and s[0][0] == s[1][0] == 'i' and s[2][1] in (TGT, WGT, REV):
                    I.note(st, 'e', s[2][1], num(s[0][1]), num(s[1][1]), num(e.args[0]), num(e.args[1]), ln)
                elif f == ADJ and len(s) == 2:
                    v = e.args[0]
                    for fld in (TGT, WGT, REV):
                        x = I.proj(v, (('f', fld),), st) if v[0] in ('obj', 'snap') else ('ld', (('p', v), (('f', fld),)), 0)
                        I.note(st, 'e', fld, num(s[0][1]), num(s[1][1]), num(x), ZERO, ln)
                elif f in I.PERV and len(s) == 1 and s[0][0] == 'i':
                    v = e.args[0]
                    src = None
                    if v[0] == 'snap' or v[0] == 'ld':
                        src = v[1]
                    back = src is not None and src[0] == I.ROOT and src[1][0] == ('f', f) and len(src[1]) == 2
                    if back:
                        I.note(st, 'mv', f, num(s[0][1]), num(src[1][1][1]), ln)
                    elif f == 'weighted_degree':
                        I.note(st, 'deg', num(s[0][1]), sub(num(e.args[0]), num(e.args[1])), ln)
                    elif f == 'contained_in_this':
                        I.note(st, 'cset', num(s[0][1]), v, ln)
                elif f == 'num_edges' and not s:
                    I.note(st, 'num', sub(num(e.args[0]), num(e.args[1])), ln)
                elif f == 'last_node' and not s:
                    I.note(st, 'last', sub(num(e.args[0]), num(e.args[1])), num(e.args[0]), ln)
                elif f == 'current_position' and len(s) == 1 and s[0][0] == 'i':
                    I.note(st, 'pos', num(s[0][1]), num(e.args[0]), ln)
            elif k == 'index' and f == ADJ and not s:
                touch(I, st, num(e.args[0]), ln)
            elif k == 'vec.push':
                v = e.args[0]
                if f == ADJ and len(s) == 1:
                    if v[0] not in ('obj', 'snap'):
                        I.note(st, 'unk', 'push', ln)
                        return
                    g = [num(I.proj(v, (('f', fld),), st)) for fld in (TGT, WGT, REV)]
                    I.note(st, 'push', num(s[0][1]), g[0], g[1], g[2], num(e.args[1]), ln)
                elif not s:
                    I.note(st, 'vpush', f, v, ln)
                elif f == 'contained_in_this' and len(s) == 1:
                    I.note(st, 'cpush', num(s[0][1]), num(v), ln)
            elif k == 'vec.pop':
                if f == ADJ and len(s) == 1:
                    I.note(st, 'pop', num(s[0][1]), num(e.args[0]), ln)
                elif not s:
                    I.note(st, 'vpop', f, ln)
            elif k == 'vec.clear':
                if f == 'contained_in_this' and len(s) == 1:
                    I.note(st, 'cclear', num(s[0][1]), ln)
                elif f == ADJ:
                    I.note(st, 'unk', 'clear', ln)
            elif k == 'vec.resize' and not s:
                I.note(st, 'resize', f, num(e.args[0]), ln)
            elif k in ('vec.insert', 'vec.erase') and f == ADJ:
                I.note(st, 'unk', k, ln)
        elif k == 'vec.push' and local_entries(p):
            v = e.args[0]
            if v[0] in ('obj', 'snap'):
                g = [num(I.proj(v, (('f', fld),), st)) for fld in (TGT, WGT, REV)]
                I.note(st, 'lpush', p, g[0], g[1], g[2], num(e.args[1]), ln)
        elif k == 'set.add' and not p[1] and p[0][0] == 'v' and len(e.args) == 2 and e.args[1][0] == 'obj':
            I.note(st, 'map', p, num(e.args[0]), tuple(num(x) for _, x in e.args[1][2]), ln)
        elif k == 'write' and p[0][0] == 'v' and len(p[1]) == 1 and p[1][0][0] == 'i' and e.args[0][0] == 'obj':
            I.note(st, 'map', (p[0], ()), num(p[1][0][1]), tuple(num(x) for _, x in e.args[0][2]), ln, True)
    return on


def mapterm(t, f):
    """rebuild a term bottom-up"""
    k = t[0]
    if k == 'c' or k == 's':
        return f(t)
    if k == 'L':
        r = C(t[1])
        for x, c in t[2]:
            r = add(r, mul(mapterm(x, f), C(c)))
        return r
    if k == 'ld':
        p = t[1]
        st = tuple((s[0], mapterm(s[1], f)) if s[0] == 'i' and isinstance(s[1], tuple) else s for s in p[1])
        return f(('ld', (p[0], st), t[2]))
    if k == 'app':
        return f(('app', t[1]) + tuple(mapterm(x, f) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[2:]))
    if k in ('ge0', 'eq0', 'ne0'):
        x = mapterm(t[1], f)
        return {'ge0': ge0, 'eq0': eq0, 'ne0': ne0}[k](x)
    return f(t)


class Op:
    """one operation"""

    def __init__(self, P, c, f, cls, rec, perv, ops=()):
        self.P, self.c, self.f = P, c, f
        self.funcs = [f] + [g for g in P.functions.values() if g.get('cls') == cls and g.get('b') is not None and g is not f]
        I = GI(P, sorted(f['variants'])[0], prims=[prims], maxstates=600, budget=3000000, forkret=64)
        I.CLS, I.REC, I.PERV = cls, rec, perv
        drop = set(ops) - {f['key']}
        I.noinline = lambda g, e: g['key'] in drop
        I.vartypes = {x['id']: x['t'] for x in walk(f['b']) if x['k'] == 'var'}
        for g in P.functions.values():
            if g.get('cls') == cls and g.get('b') is not None:
                I.vartypes.update({x['id']: x['t'] for x in walk(g['b']) if x['k'] == 'var'})
        self.I = I
        self.segs = []

        def setup(fr, st):
            pass
        root = ('p', ('s', 'arg:this:' + cls, 0))
        I.ROOT = root
        from ..absint import State
        st = State()
        st.aux['fx'] = ((),)
        I.on_event = onevent(I, self.segs)
        args = []
        for i, p in enumerate(f['params']):
            args.append(None)
        I.run(f, this=(root, ()), state=st)
        self.finish()

    def finish(self):
        self.subst = {}
        self.maps = {}
        self.conflict = None
        self.find_subst()
        self.collect()

    def views(self, depth=0):
        """the operation, or its halves where a table is about another vertex depending on a condition"""
        if self.conflict is None or depth > 2:
            return [self]
        out = []
        for a in (self.conflict, neg(self.conflict)):
            o = copy(self)
            o.segs = [s for s in self.segs if neg(a) not in s[3].atoms]
            o.finish()
            out += o.views(depth + 1)
        return out

    # -------------------------------------------------- canonical terms
    def canon(self, t):
        return mapterm(t, self.step)

    def step(self, t):
        R = self.I.ROOT
        if t in self.subst:
            return self.subst[t]
        if t[0] == 'ld':
            p = t[1]
            s = p[1]
            if p[0] == R and s and s[0] == ('f', ADJ):
                if len(s) == 4 and s[1][0] == 'i' and s[2][0] == 'i' and s[3][0] == 'f':
                    return self.fld(s[3][1], s[1][1], s[2][1])
                if len(s) == 3 and s[2] == ('f', '#size'):
                    return ('app', 'size', s[1][1])
                if len(s) == 2 and s[1] == ('f', '#size'):
                    return ('app', 'nverts')
            if p[0] == R and len(s) == 2 and s[1] == ('f', '#size') and s[0][1] in self.I.PERV:
                return ('app', 'nverts')
            if p[0][0] == 'v' and len(s) == 2 and s[0][0] == 'i' and s[1][0] == 'f' and (p[0], ()) in self.maps:
                m = self.maps[(p[0], ())]
                role = m['role'].get(s[1][1])
                if role == 'E':
                    return ('app', 'mE', m['id'], s[0][1])
                if role == 'T':
                    return self.fld(TGT, m['base'], ('app', 'mE', m['id'], s[0][1]))
                if role == 'R':
                    return self.fld(REV, m['base'], ('app', 'mE', m['id'], s[0][1]))
            if p[0][0] == 'v' and len(s) == 1 and s[0][0] == 'i':
                return ('app', 'elem', ('s', 'list', p[0][1][1]))
            if p[0][0] in ('v', 't') or p[0] == R:
                return ('ld', p, 0)
        return t

    def fld(self, f, x, e):
        A = lambda g, a, b: ('app', g, a, b)  # noqa: E731
        if x[0] == 'app' and x[1] == TGT and e == A(REV, x[2], x[3]):
            a, b = x[2], x[3]        # the reverse of entry (a, b)
            if f == TGT:
                return a
            if f == REV:
                return b
            if f == WGT:
                return A(WGT, a, b)
        if f == TGT and e[0] == 'app' and e[1] == 'mE':
            for m in self.maps.values():
                if m['id'] == e[2] and m['base'] == x and m['key']:
                    return e[3]
        # reverse of an entry known through a table
        if f in (REV, WGT, TGT) and e[0] == 'app' and e[1] == REV and e[3][0] == 'app' and e[3][1] == 'mE' and e[3][3] == x and e[2] != x:
            if f == TGT:
                return e[2]
            if f == REV:
                return e[3]
            return A(WGT, e[2], e[3])
        return A(f, x, e)

    def rev(self, x, e):
        return self.fld(TGT, x, e), self.fld(REV, x, e)

    def find_subst(self):
        """a variable set in a loop when its loop variable meets a condition stands for what the condition names"""
        I = self.I
        cand = {}
        for kind, loops, fx, F, e, env, bef in self.segs:
            if kind != 'loop':
                continue
            here = loops[-1][0] if loops else None
            for sym, (key, entry, lid) in I.loopvars.items():
                if lid != here or key not in env:
                    continue
                v = env[key]
                if v == sym or not (isinstance(v, tuple) and is_num(v)):
                    continue
                cand.setdefault(sym, []).append((v, F))
        for sym, l in cand.items():
            vals = set()
            for v, F in l:
                v = self.canon(v)
                sub_ = {}
                for a in F.atoms:
                    if a[0] == 'eq0':
                        c, d = parts(self.canon(a[1]))
                        if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
                            x, y = d
                            for p, q in ((x, y), (y, x)):
                                if p[0] == 's' and p[1] in ('#ed', 'ed', 'e') or p[0] == 's':
                                    if q[0] != 's' or q[2] == 0:
                                        sub_[p] = q
                if sub_:
                    v = mapterm(v, lambda t: sub_.get(t, t))
                    v = self.canon(v)
                vals.add(v)
            if len(vals) == 1:
                v, = vals
                if not any(s in cand for s in subterms(v)) and sym not in set(subterms(v)):
                    self.subst[sym] = v

    # -------------------------------------------------- collect
    def effects(self, fx):
        out = []
        for x in fx:
            out.append(tuple(self.canon(y) if isinstance(y, tuple) and y and y[0] in ('c', 's', 'L', 'ld', 'app', 'eq0', 'ge0', 'ne0') else y for y in x))
        return out

    def collect(self):
        """lists that are replaced, tables of entries"""
        self.replaced = {}
        for kind, loops, fx, F, e, env, bef in self.segs:
            for x in self.effects(fx or ()):
                if x[0] == 'swap':
                    self.replaced[x[1]] = x[2]
        # tables: positions of the entries of one vertex by neighbour
        raw = {}
        for kind, loops, fx, F, e, env, bef in self.segs:
            fxs = self.effects(fx or ())
            for x in fxs:
                if x[0] == 'map':
                    raw.setdefault(x[1], []).append((x, fxs, F))
        for m, l in raw.items():
            roles, base, key = {}, None, True
            at = []
            built = any(len(x) <= 5 for x, fxs, F in l)      # by insertion; assignments then are updates
            for x, fxs, F in l:
                if len(x) > 5 and built:
                    continue
                comps = [self.canon(y) for y in x[3]]
                for i, v in enumerate(comps):
                    r = None
                    if v[0] == 'app' and v[1] == TGT:
                        r = 'T'
                    elif v[0] == 'app' and v[1] == REV:
                        r = 'R'
                    elif v[0] == 's':
                        r = 'E'
                    for y in fxs:
                        if y[0] in ('push', 'lpush') and v == self.canon(y[5]):
                            r = 'E'
                    if r is None and v == x[2]:
                        r = 'T'
                    if r:
                        if roles.setdefault(str(i), r) != r:
                            roles[str(i)] = '?'
                t = [v for v in comps if v[0] == 'app' and v[1] == REV]
                for v in t:
                    b = None
                    for y in fxs:
                        if y[0] == 'push' and y[4] == v:
                            b = y[1]
                        if y[0] == 'lpush' and y[4] == v:
                            b = next((z for z, q in self.replaced.items() if q == y[1]), None)
                    if b is None:
                        b = v[2]
                    base = b if base is None or base == b else '?'
                    at.append((b, F))
                if not any(x[2] == v for v in comps):
                    key = False
            for b, F in at:
                for b2, F2 in at:
                    if b != b2 and self.conflict is None:
                        self.conflict = next((a for a in sorted(F.atoms, key=repr) if a[0] in ('ge0', 'eq0', 'ne0') and neg(a) in F2.atoms), None)
            if base not in (None, '?') and sorted(roles.values()) == ['E', 'R', 'T']:
                self.maps[m] = {'role': roles, 'base': base, 'key': key, 'id': ('s', 'table', len(self.maps)), 'templates': raw[m]}

    # -------------------------------------------------- one segment
    def prepare(self):
        """segments in canonical terms; which vertices are given up on the paths they belong to"""
        out = []
        seen = {}
        for kind, loops, fx, F, e, env, bef in self.segs:
            if fx is None:
                raise AnalysisBroken('P07: paths of %s are too many to tell apart' % self.f['q'])
            fxs = tuple(self.effects(fx))
            atoms = frozenset(self.canon_atom(a) for a in F.atoms)
            bef = tuple(self.canon(x) for x in bef)
            key = (kind, loops[-1][0] if loops else None, fxs, atoms, bef)
            if key in seen:
                continue
            seen[key] = True
            s = Seg(kind, loops, fxs, atoms, F, e, env)
            s.before = bef
            out.append(s)
        for s in out:
            s.dying = []
            for b in out:
                if b is s or self.compatible(s, b):
                    for x in b.fx:
                        if x[0] == 'mv' and x[1] == ADJ and x[2] not in s.dying:
                            s.dying.append(x[2])
        return out

    def canon_atom(self, a):
        if a[0] in ('ge0', 'eq0', 'ne0'):
            return {'ge0': ge0, 'eq0': eq0, 'ne0': ne0}[a[0]](self.canon(a[1]))
        if a[0] == 'app' and a[1] == 'in':
            r = a[3]
            return ('app', 'in', self.canon(a[2]), tuple(self.canon(x) if isinstance(x, tuple) else x for x in r))
        return a

    def compatible(self, s, b):
        return not any(neg(a) in b.atoms for a in s.atoms if a[0] in ('ge0', 'eq0', 'ne0') and not any(t in self.I.loopvars for t in subterms(a)))

    def processed(self, s):
        """entry (vertex, index) the innermost loop is at, when it runs over the list of a vertex"""
        if not s.loops:
            return None
        for a in s.atoms:
            if a[0] == 'app' and a[1] == 'in' and a[3][:2] == ('range', 'edges') and self.inner(s, a[2]):
                return a[3][2], a[2]
        for a in s.atoms:       # for (const auto& entry : vertices[x])
            if a[0] == 'app' and a[1] == 'elem' and len(a) == 4 and a[3][0] == 'ptr' and isadj(self.I, a[3][1]) and self.inner(s, a[2]):
                return self.canon(num(a[3][1][1][1][1])), a[2]
        for sym, (key, entry, lid) in self.I.loopvars.items():
            if lid != s.loops[-1][0]:
                continue
            for a in s.atoms:
                if a[0] == 'ge0':
                    c, d = parts(a[1])
                    if c == -1 and len(d) == 2 and d.get(sym) == -1:
                        z, = [t for t in d if t != sym]
                        if z[0] == 'app' and z[1] == 'size' and d[z] == 1:
                            return z[2], sym
        return None

    def inner(self, s, sym):
        """sym belongs to the innermost loop of the segment"""
        n = s.e.node
        v = n.get('var') if isinstance(n, dict) else None
        return v is None or s.env.get(next((k for k in s.env if k[1] == v.get('id')), None)) == sym or sym[0] == 's' and sym[1] in (v.get('n'), '#%s' % v.get('n'))

    def same(self, a, b, s):
        return a == b or eq0(sub(a, b)) in s.atoms

    def isrev(self, p, q, s):
        """entries p and q are the two directions of one edge"""
        for (x, e), (y, f) in ((p, q), (q, p)):
            if f == self.fld(REV, x, e) and self.same(y, self.fld(TGT, x, e), s):
                return True
        return False


class Seg:
    def __init__(self, kind, loops, fx, atoms, F, e, env):
        self.kind, self.loops, self.fx, self.atoms, self.F, self.e, self.env = kind, loops, fx, atoms, F, e, env
        self.dying = []
        self.CF = Facts()
        for a in atoms:
            self.CF = self.CF.add(a)

    def last(self, x):
        return self.CF.implies(GE(x, add(('app', 'nverts'), C(-1))))


def fxcanon(o, s):
    return [w[:3] + (tuple(o.canon(v) for v in w[3]),) + w[4:] if w[0] == 'map' else w for w in s.fx]


def moved(o, s, x):
    """the list of x is the one that was the last before"""
    return any(o.same(x, b, s) for b in s.before)


def entry_changes(o, s):
    """adjacency changes of a segment: moves within a list, single writes, removed entries, new entries"""
    mv, single, removed, pushed, lpushed = [], [], [], [], []
    fx = s.fx
    i = 0
    while i < len(fx):
        x = fx[i]
        if x[0] == 'e':
            grp = {x[1]: x[4]}
            j = i + 1
            while j < len(fx) and fx[j][0] == 'e' and fx[j][2:4] == x[2:4] and fx[j][1] not in grp:
                grp[fx[j][1]] = fx[j][4]
                j += 1
            if set(grp) == {TGT, WGT, REV}:
                src = set()
                for fld, v in grp.items():
                    src.add(v[2:4] if v[0] == 'app' and v[1] == fld else None)
                # the weight may be known under the name of the other direction
                src.discard(None)
                src = {q for q in src if o.fld(TGT, *q) == grp[TGT] and o.fld(REV, *q) == grp[REV] and o.fld(WGT, *q) == grp[WGT]}
                if len(src) >= 1:
                    q = sorted(src, key=repr)[0]
                    mv.append(((x[2], x[3]), q, x[6]))
                    i = j
                    continue
            single.append((x[1], (x[2], x[3]), x[4], x[5], x[6]))
        elif x[0] == 'pop':
            last = (x[1], add(x[2], C(-1)))
            hit = [m for m in mv if m[1] == last and m[0][0] == x[1]]
            if hit:
                removed.append((hit[-1][0], x[3]))
            else:
                # other names of the last place: not (size > i + 1)
                z = ('app', 'size', x[1])
                alias = []
                for a in sorted(s.atoms, key=repr):
                    if a[0] == 'ge0':
                        c, d = parts(a[1])
                        if d.get(z) == -1 and c == 1:
                            alias.append((0, add(a[1], add(z, C(-1)))))
                    if a[0] == 'eq0':
                        c, d = parts(a[1])
                        if abs(d.get(z, 0)) == 1:
                            t = mul(a[1], C(-d[z]))
                            alias.append((1, add(t, add(z, C(-1)))))
                alias = [i for _, i in sorted(alias, key=lambda t: (t[0], repr(t[1])))] or [last[1]]
                P = o.processed(s)
                idx = next((i for i in alias if P is not None and o.isrev((x[1], i), P, s)), alias[0])
                removed.append(((x[1], idx), x[3]))
        elif x[0] == 'push':
            pushed.append(x)
        elif x[0] == 'lpush':
            lpushed.append(x)
        i += 1
    return mv, single, removed, pushed, lpushed


def check_segment(o, s, c, report):
    mv, single, removed, pushed, lpushed = entry_changes(o, s)
    f = o.f
    P = o.processed(s)
    dying = lambda x: any(o.same(x, d, s) for d in s.dying)  # noqa: E731
    repl = o.replaced
    Pd = P is not None and dying(P[0]) and not moved(o, s, P[0])
    Pr = P is not None and P[0] in repl and not Pd
    # which list of which vertex is handled: only where the loop changes something or the lists are given up
    ln = s.e.line

    def ob(ok, rule, line, what, tag):
        report(rule, line or ln, ok, what, tag)

    used = set()
    # --- moved within a list: the reverse entry learns the new place
    for (x, e), (y, l), line in mv:
        if x != y:
            ob(False, 'reverse entries', line, 'an entry of another vertex is copied over', 'copy')
            continue
        hit = [k for k, w in enumerate(single) if w[0] == REV and o.isrev(w[1], (y, l), s) and w[2] == e]
        used.update(hit)
        ob(bool(hit), 'reverse entries', line, 'an entry is moved within its list and its reverse entry keeps the old place', 'moved')
        # a table of reverse places that outlives the list being worked off
        if Pd and P[0][0] == 'app' and P[0][1] == 'elem':
            for m, t in o.maps.items():
                place = o.fld(REV, t['base'], ('app', 'mE', t['id'], x))
                if ne0(sub(place, l)) in s.atoms:
                    continue
                good = any(w[0] == 'map' and w[1] == m and w[2] == x and any(v == e for v in w[3]) for w in fxcanon(o, s))
                ob(good, 'reverse entries', line, 'an entry is moved within its list and the table of reverse places may still name the old place', 'table')
    # --- new entries
    seen = set()
    for k, x in enumerate(pushed):
        _, v, t, w, r, sz, line = x
        good = False
        for k2, y in enumerate(pushed):
            if k2 != k and y[1] == t and y[2] == v:
                good = y[3] == w and y[4] == sz and r == y[5]
        wr = [j for j, q in enumerate(single) if q[1] == (t, r)]
        tv = [j for j in wr if single[j][0] == TGT and single[j][2] == v]
        rv = [j for j in wr if single[j][0] == REV and single[j][2] == sz]
        if tv and rv and w == o.fld(WGT, t, r):
            good = True
            used.update(tv + rv)
        elif rv and o.fld(TGT, t, r) == v and w == o.fld(WGT, t, r):
            good = True
            used.update(rv)
        ob(good, 'reverse entries', line, 'a new entry and the entry of the other direction do not point at each other with one weight', 'push')
    for x in lpushed:
        _, p, t, w, r, pos, line = x
        base = [b for b, q in repl.items() if q == p]
        if not base:
            continue
        rv = [j for j, q in enumerate(single) if q[1] == (t, r) and q[0] == REV and q[2] == pos]
        used.update(rv)
        good = bool(rv) and P is not None and P[0] in base and (t, r) == o.rev(*P) and w == o.fld(WGT, *P)
        ob(good, 'reverse entries', line, 'an entry kept in the new list and its reverse entry do not point at each other', 'kept')
    # --- weights of both directions
    ws = [(k, w) for k, w in enumerate(single) if w[0] == WGT]
    for k, w in ws:
        d = sub(w[2], w[3])
        ok = any(k2 != k and o.isrev(w[1], w2[1], s) and sub(w2[2], w2[3]) == d for k2, w2 in ws)
        ok = ok or any(k2 != k and o.isrev(w[1], w2[1], s) and w2[2] == w[2] for k2, w2 in ws)
        used.add(k)
        ob(ok, 'weights', w[4], 'the weight of one direction of an edge changes without the other', 'wgt')
    # --- other rewrites of targets and reverse places
    for k, w in enumerate(single):
        if k in used:
            continue
        good = False
        if w[0] == TGT and P is not None:
            # addresses of a vertex that was moved
            q = P
            good = o.rev(*q) == w[1] or remapped(o, s, w, q)
        ob(good, 'reverse entries', w[4], 'an entry is re-addressed without the edge being moved', 'readdress')
    # --- removed entries
    rem = [r for r, _ in removed]
    conn = 0
    for (x, e), line in removed:
        y, g = o.rev(x, e)
        ok = any(o.isrev((x, e), q, s) for q in rem if q != (x, e))
        if not ok and P is not None and Pd and o.isrev((x, e), P, s):
            ok = True
        if not ok and dying(y):
            ok = True
            if not (Pd and o.isrev((x, e), P, s)):
                conn += 1
        ob(ok, 'reverse entries', line, 'one direction of an edge is removed and the other one stays', 'remove')
    s.removed = rem
    # --- entries of a list that is given up
    skip = False
    if Pd:
        y, g = o.rev(*P)
        handled = any(o.same(q[0], y, s) and q[1] == g for q in rem) or any(w[1] == (y, g) and w[0] == TGT for w in single)
        if not handled and not any(x[0] in ('touch', 'broke') or True for x in ()):
            pass
        tested = any(o.fld(TGT, *P) in set(subterms(a)) for a in s.atoms if a[0] in ('eq0', 'ne0', 'ge0'))
        skip = not handled
        s.skip = skip and not s.fx
        s.dropped = skip and bool(s.fx)
        if skip and s.fx:
            ob(tested or not relevant(s), 'list of a removed vertex', ln, 'an edge of a removed vertex is neither removed nor handed over', 'drop')
    # --- degrees and number of edges
    dW, dD, dn, ds = {}, {}, ZERO, 0

    def key(x):
        for y in list(dW) + list(dD):
            if o.same(x, y, s):
                return y
        return x

    def addto(d, x, v):
        x = key(x)
        d[x] = add(d.get(x, ZERO), v)
    for w in single:
        if w[0] == WGT:
            addto(dW, w[1][0], sub(w[2], w[3]))
    for x in pushed:
        addto(dW, x[1], x[3])
        ds += 1
    for (x, e), line in removed:
        addto(dW, x, mul(o.fld(WGT, x, e), C(-1)))
        ds -= 1
    for x in lpushed:
        for b, q in repl.items():
            if q == x[1]:
                addto(dW, b, x[3])
                ds += 1
    if Pr:
        addto(dW, P[0], mul(o.fld(WGT, *P), C(-1)))
    for x in s.fx:
        if x[0] == 'deg':
            addto(dD, x[1], x[2])
        if x[0] == 'num':
            dn = add(dn, x[1])
    if (Pd or Pr) and not getattr(s, 'skip', False):
        if s.kind == 'loop' and (relevant(s) or Pr):
            ds -= 1
    ds -= conn
    touched = {k for k in list(dW) + list(dD)}
    for x in sorted(touched, key=repr):
        if dying(x):
            continue
        a, b = eqweights(o, s, sub(dW.get(x, ZERO), dD.get(x, ZERO)))
        ob(a, 'weighted degree', next((y[3] for y in s.fx if y[0] == 'deg'), ln), 'the weighted degree does not follow the weights of the list', 'deg')
    if ds != 0 or dn != ZERO:
        ob(dn == C(ds), 'number of edges', next((y[2] for y in s.fx if y[0] == 'num'), ln), 'the number of edges changes by %s, the number of entries by %d' % (show(dn), ds), 'num')
    # --- vertex sets and positions
    pos = [(x[1], x[2]) for x in s.fx if x[0] == 'pos']
    for x in s.fx:
        if x[0] == 'cpush' and not o.single:
            ob((x[2], x[1]) in pos, 'vertex sets', x[3], 'a vertex is put into a set and its position is not set to it', 'pos')
        if x[0] == 'touch' and any(o.same(x[1], d, s) for d in s.dying):
            ob(x[2], 'removed vertices', x[3], 'the list of a vertex is read that may just have been removed', 'gone')
        if x[0] == 'unk':
            ob(False, 'reverse entries', x[2], 'entries are changed in a way that is not followed (%s)' % x[1], 'unk')


def relevant(s):
    return any(x[0] in ('e', 'push', 'pop', 'deg', 'num', 'lpush', 'map') for x in s.fx)


def remapped(o, s, w, q):
    """w re-addresses the reverse of entry q of a vertex whose list came from the end"""
    names = {q[0], add(('app', 'nverts'), C(-1))}
    names |= {b for b in s.before if b == w[2]}
    (y, g) = w[1]
    return any(y == o.fld(TGT, a, q[1]) for a in names) and any(g == o.fld(REV, a, q[1]) for a in names)


def eqweights(o, s, t):
    """is a sum of weights zero, up to equalities known on the path"""
    if t == ZERO:
        return True, t
    c, d = parts(t)
    if c:
        return False, t
    items = list(d.items())
    while items:
        x, k = items.pop()
        hit = None
        for j, (y, m) in enumerate(items):
            if m == -k and x[0] == y[0] == 'app' and x[1] == y[1] == WGT and (o.isrev(x[2:4], y[2:4], s) or o.same(x[2], y[2], s) and o.same(x[3], y[3], s)):
                hit = j
        if hit is None:
            return False, t
        items.pop(hit)
    return True, t


def perv_changes(o, s):
    d = {}
    for x in s.fx:
        if x[0] == 'vpush':
            d[x[1]] = d.get(x[1], 0) + 1
        if x[0] == 'vpop':
            d[x[1]] = d.get(x[1], 0) - 1
    return d


def check_op(o, c, report):
    segs = o.prepare()
    f = o.f
    for s in segs:
        check_segment(o, s, c, report)
    loops = [s for s in segs if s.kind == 'loop']
    # --- skipped connecting edge
    for s in loops:
        if not getattr(s, 'skip', False):
            continue
        d, i = o.processed(s)
        # is it the loop that works the list off?
        mates = [t for t in loops if t.loops[-1][0] == s.loops[-1][0]]
        if not any(relevant(t) for t in mates) or all(remap_only(t) for t in mates if relevant(t)):
            continue
        good = False
        for b in segs:
            if any(x[0] == s.loops[-1][0] for x in b.loops):
                continue
            for r in getattr(b, 'removed', ()):
                if not o.same(o.fld(TGT, *r), d, s) and o.fld(TGT, *r) != d:
                    continue
                if o.same(i, o.fld(REV, *r), s):
                    good = True
        report('list of a removed vertex', s.e.line, good, 'an edge of a removed vertex is passed over', 'skip')
    # --- sets that are replaced
    for s in segs:
        for x in s.fx:
            if x[0] == 'cset' and x[2][0] == 'vecl' and len(x[2][1]) == 1:
                el = o.canon(num(x[2][1][0]))
                report('vertex sets', x[3], any(y[0] == 'pos' and y[1] == el and y[2] == x[1] for y in s.fx), 'a vertex becomes the set of a vertex and its position is not set to it', 'setpos')
    # --- vertices taken out of the middle
    perv = o.I.PERV
    for s in segs:
        ch = perv_changes(o, s)
        n = [x for x in s.fx if x[0] == 'mv']
        for x in {m[2] for m in n}:
            if s.last(x):
                continue        # it is the last one itself
            got = {m[1] for m in n if m[2] == x}
            fromback = all(m[3] in (add(('app', 'nverts'), C(-1)),) for m in n if m[2] == x)
            for v in perv:
                if v in got:
                    continue
                if v == 'contained_in_this':
                    inn = [t for t in loops if any(y[0] == 'cpush' and y[1] == x and lastset(y[2]) for y in t.fx)]
                    report('per-vertex records', n[0][4], bool(inn), 'the vertex set of the vertex that moved is not moved with it', 'mvset')
                else:
                    report('per-vertex records', n[0][4], False, 'record %s is not moved with the vertex' % v, 'mv ' + v)
            report('per-vertex records', n[0][4], fromback, 'a record other than the last one is moved', 'back')
            if 'contained_in_this' in got:
                g = [y[2] for t in loops for y in t.fx if y[0] == 'pos' and lastset(y[1]) and not moved(o, t, x)]
                ok = bool(g) and all(y == x for y in g)
                report('vertex sets', n[0][4], ok, 'positions of the vertices of the vertex that moved are not updated', 'mvpos')
            if ADJ in got:
                rm = {}
                for t in loops:
                    q = o.processed(t)
                    if q is None or not o.compatible(s, t):
                        continue
                    ok = any(w[0] == 'e' and w[1] == TGT and w[4] == x for w in t.fx) and (q[0] == x or q[0] == add(('app', 'nverts'), C(-1)))
                    rm.setdefault(t.loops[-1][0], []).append(ok)
                report('reverse entries', n[0][4], any(all(v) for v in rm.values()), 'edges of the vertex that moved still carry its old number', 'remap')
                work = {}
                for t in loops:
                    q = o.processed(t)
                    if q is not None and q[0] == x and relevant(t) and not moved(o, t, x):
                        work[t.loops[-1][0]] = 1
                if x[0] == 'app' and x[1] == 'elem':
                    report('removed vertices', n[0][4], descending(o, x, s), 'vertices of a list are taken out one after the other and the last vertex, which moves, may be one of them', 'order')
                report('list of a removed vertex', n[0][4], bool(work), 'the edges of the removed vertex stay in the lists of its neighbours', 'nolist')
                # handed over to another vertex: so is the vertex set
                into = set()
                for t in loops:
                    q = o.processed(t)
                    if q is not None and q[0] == x and not moved(o, t, x):
                        for y in t.fx:
                            if y[0] == 'push':
                                into.add(y[1])
                for b in into:
                    ok = any(any(y[0] == 'cpush' and o.canon(y[1]) == b and setof(y[2], x) for y in t.fx) for t in loops)
                    report('vertex sets', n[0][4], ok, 'the vertices of the contracted vertex are lost', 'lost')
        if ch or n:
            if s.kind == 'body' or len(s.loops) >= 1:
                vals = {ch.get(v, 0) for v in perv}
                grow = [x for x in s.fx if x[0] == 'resize']
                if not grow and not (s.kind == 'loop' and set(ch) <= {'contained_in_this', 'current_position'}):
                    report('per-vertex records', s.e.line, len(vals) == 1, 'records per vertex do not change together: ' + ', '.join('%s %+d' % (v, ch.get(v, 0)) for v in perv), 'lockstep')
        dv = ch.get(ADJ, 0)
        dl = ZERO
        for x in s.fx:
            if x[0] == 'last':
                dl = add(dl, x[1])
        if dv < 0 or dl != ZERO and dv == 0 and dl[0] == 'c' and dl[1] < 0:
            report('number of vertices', s.e.line, dl == C(dv), 'the running vertex number does not follow the number of vertices', 'last')
        if dv > 0:
            report('number of vertices', s.e.line, dl == C(dv), 'the running vertex number does not follow the number of vertices', 'last')
        for x in s.fx:
            if x[0] == 'vpush' and x[1] == 'contained_in_this':
                v = x[2]
                ok = v is None or v[0] == 'vec' and (v[1] == ZERO or v[1] == ONE and v[2] is not None) or v[0] == 'vecl' and len(v[1]) <= 1 or v[0] == 'obj'
                report('vertex sets', x[3], ok, 'a new vertex starts with a set of %s vertices' % (show(o.canon(v[1])) if v and v[0] == 'vec' else 'unknown many'), 'newset')
                if ok and v is not None and v[0] in ('vec', 'vecl') and v[1] not in (ZERO, ()):
                    el = num(v[2]) if v[0] == 'vec' else num(v[1][0])
                    ok = any(y[0] == 'pos' and y[1] == o.canon(el) and y[2] == o.canon(el) or y[0] == 'pos' and o.same(y[1], o.canon(el), s) and o.same(y[2], y[1], s) or
                             y[0] == 'pos' and y[1] == o.canon(el) and y[2] == ('app', 'nverts') for y in s.fx)
                    ok = ok or el in o.I.loopvars and any(y[0] == 'pos' and y[1] == y[2] and y[1] in o.I.loopvars for t in loops for y in t.fx)
                    report('vertex sets', x[3], ok, 'a new vertex is in its own set and its position is not set to it', 'newpos')
        g = [x for x in s.fx if x[0] == 'resize' and x[1] in perv]
        if any(x[1] == ADJ for x in g):
            n0 = [x[2] for x in g if x[1] == ADJ][0]
            for v in perv:
                r = [x[2] for x in g if x[1] == v]
                ok = bool(r) and r[-1] == n0
                if not r:
                    ok = any(perv_changes(o, t).get(v) == 1 and any(a[0] == 'ge0' and n0 in parts(a[1])[1] for a in t.atoms) for t in loops)
                report('per-vertex records', s.e.line, ok, 'record %s is not sized like the others' % v, 'size ' + v)


def descending(o, x, s):
    """the list whose elements are taken out is worked off from the largest number to the smallest"""
    vid = x[2][2]
    for f in o.funcs:
        for y in walk(f['b']):
            if y['k'] != 'call' or y.get('q') not in ('std::sort', 'std::stable_sort') or len(y['args']) not in (2, 3):
                continue
            a = strip(y['args'][0])
            if a.get('k') != 'call' or a.get('obj') is None or strip(a['obj']).get('id') != vid or vid is None:
                continue
            down = a['n'] in ('rbegin', 'crbegin')
            if len(y['args']) == 3:
                c = strip(y['args'][2])
                if c.get('rec') == 'std::greater' or 'greater' in c.get('t', ''):
                    down = not down
                elif c.get('k') == 'lambda':
                    g = [h for h in o.P.functions.values() if h['n'] == 'operator()' and h['file'] == f['file'] and h['l'] == c['l'] and h.get('b')]
                    r = [strip(z['e']) for h in g for z in walk(h['b']) if z['k'] == 'return' and z.get('e')]
                    ids = [q['id'] for q in g[0]['params']] if g else []
                    if len(r) == 1 and r[0].get('k') == 'bin' and r[0]['op'] in '<>' and len(ids) == 2:
                        l = [strip(r[0]['a']).get('id'), strip(r[0]['b']).get('id')]
                        gt = (r[0]['op'] == '>') == (l == ids)
                        if gt:
                            down = not down
                    else:
                        return True     # some other order
            it = s.e.node
            if isinstance(it, dict) and it.get('k') == 'for' and it.get('inc') and any(z['k'] == 'un' and z['op'].startswith('--') for z in walk(it['inc'])):
                down = not down
            return down
    v = next((y for f in o.funcs for y in walk(f['b']) if y['k'] == 'var' and y['id'] == vid), None)
    return v is not None and 'greater' in v['t']


def remap_only(t):
    fl = [x for x in t.fx if x[0] in ('e', 'push', 'pop', 'deg', 'num', 'lpush')]
    return bool(fl) and all(x[0] == 'e' and x[1] == TGT for x in fl)


def setof(t, x):
    """t is an element of the vertex set of x"""
    return t[0] == 'ld' and len(t[1][1]) == 3 and t[1][1][0] == ('f', 'contained_in_this') and t[1][1][1][1] == x


def lastset(t):
    return setof(t, add(('app', 'nverts'), C(-1)))


PERVERTEX = [ADJ, 'weighted_degree', 'partition_index', 'node_in_cut', 'contained_in_this']


def run(P, c, tier):
    R = [(q, r) for q, r in P.records.items() if any(x['t'] == 'std::vector<std::vector<RevEdge>>' for x in r['fields'])]
    if len(R) != 1:
        raise AnalysisBroken('P07: the adjacency list graph is not found')
    cls, rec = R[0]
    names = {x['n'] for x in rec['fields']}
    if not set(PERVERTEX) | {'current_position', 'num_edges', 'last_node'} <= names:
        raise AnalysisBroken('P07: members of %s not recognised' % cls)
    from ..cg import CallGraph
    G = CallGraph(P)
    ms = [f for f in sorted(P.functions.values(), key=lambda f: f['key']) if f.get('cls') == cls and f.get('b') is not None and not f.get('ctor') and not f['n'].startswith('~') and
          not f.get('static') and not f['n'].startswith('operator')]
    outside = set()
    for f in ms:
        callers = {g.get('cls') for g, x in G.sites.get(f['key'], ())}
        if any(k != cls for k in callers) or not callers:
            outside.add(f['key'])
    struct = set()
    INTEREST = {'push', 'pop', 'e', 'vpush', 'vpop', 'mv', 'resize', 'cpush', 'cset', 'swap', 'num', 'deg', 'last'}
    todo = []
    for f in ms:
        if f['key'] not in outside:
            continue
        w = set()
        for g in [f['key']] + sorted(G.reach({f['key']})):
            h = P.functions.get(g)
            if h is not None and h.get('cls') == cls and h.get('b') is not None:
                w |= writes(h, names)
        if w & (set(PERVERTEX) | {'num_edges', 'last_node'}):
            todo.append(f)
    # operations that take a vertex out are not looked into from each other
    ops = {f['key'] for f in todo if drops(f)}
    for f in todo:
        c.saw(f)
        o = Op(P, c, f, cls, 'RevEdge', PERVERTEX, ops)
        allfx = [x for s in o.segs for x in (s[2] or ())]
        o.single = len({x[0] for x in allfx}) <= 1

        def report(rule, line, ok, what, tag):
            if ok:
                c.ok(rule, '%s:%s %s' % (f['file'], line, f['q']))
            else:
                c.violation(rule, f, line, what, tag='%s %s' % (f['n'], tag))
        for v in o.views():
            check_op(v, c, report)
    outside_fills(P, c, G, cls)
    for r, n in (('reverse entries', 20), ('weights', 6), ('weighted degree', 10), ('number of edges', 7), ('per-vertex records', 8), ('vertex sets', 8), ('list of a removed vertex', 4),
                 ('number of vertices', 4)):
        c.floor(r, n)


def drops(f):
    return any(x['k'] == 'call' and x.get('n') == 'pop_back' and x.get('obj') is not None and strip(x['obj']).get('k') == 'mem' and strip(x['obj'])['n'] == ADJ for x in walk(f['b']))


def writes(f, names):
    """members the function may change"""
    out = set()
    for x in walk(f['b']):
        if x['k'] == 'mem' and x['n'] in names:
            out.add(x['n'])
    if f.get('const'):
        return set()
    return out


# ---------------------------------------------------------------- callers that fill vertex sets
class Keys:
    """printable form of expressions of one function, variables assigned once stand for what they are initialised with"""

    def __init__(self, f, bind=None):
        self.f, self.bind = f, bind or {}
        self.vars, self.range, assigned = {}, {}, set()
        for x in walk(f['b']):
            if x['k'] == 'var':
                self.vars[x['id']] = x
            if x['k'] == 'forrange' and isinstance(x.get('var'), dict):
                self.range[x['var'].get('id')] = x['range']
            w = None
            if x['k'] == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                w = strip(x['a'])
            if x['k'] == 'un' and x['op'][:2] in ('++', '--'):
                w = strip(x['e'])
            if w is not None and w.get('k') == 'ref':
                assigned.add(w.get('id'))
        self.assigned = assigned

    def key(self, e, depth=0):
        e = strip(e)
        k = e.get('k')
        if k == 'ref':
            i = e.get('id')
            if i in self.bind:
                return self.bind[i]
            v = self.vars.get(i)
            if v is not None and v.get('init') is not None and i not in self.assigned and i not in self.range and depth < 6 and self.plain(v['init']):
                return self.key(v['init'], depth + 1)
            return '%s#%s' % (e['n'], i)
        if k == 'call':
            r = self.key(e['obj'], depth + 1) + '.' if e.get('obj') is not None else ''
            return '%s%s(%s)' % (r, e.get('n') or e.get('q'), ','.join(self.key(a, depth + 1) for a in e['args'] if a))
        if k == 'ctor':
            a = [x for x in e['args'] if x]
            if len(a) == 1:
                return self.key(a[0], depth + 1)
            return '%s(%s)' % (e.get('rec'), ','.join(self.key(x, depth + 1) for x in a))
        if k == 'mem':
            return self.key(e['base'], depth + 1) + '.' + e['n']
        if k == 'idx':
            return '%s[%s]' % (self.key(e['a'] if 'a' in e else e['base'], depth + 1), self.key(e['i'], depth + 1))
        if k == 'bin':
            return '(%s%s%s)' % (self.key(e['a'], depth + 1), e['op'], self.key(e['b'], depth + 1))
        if k in ('int', 'lit', 'bool'):
            return str(e.get('v'))
        return '%s:%s' % (k, e.get('v', e.get('n', e.get('l'))))

    def plain(self, e):
        """reading it again gives the same as long as nothing else happened"""
        for x in walk(e):
            if x['k'] == 'call' and not x.get('const') and x.get('oper') not in ('[]', '->', '*'):
                return False
            if x['k'] in ('lambda', 'new'):
                return False
        return True

    def source(self, e):
        """the container an expression is an element of"""
        e = strip(e)
        if e.get('k') == 'ref' and e.get('id') in self.range:
            return self.key(self.range[e['id']])
        if e.get('k') == 'ref' and e.get('id') in self.vars and self.vars[e['id']].get('init') is not None:
            return self.source(self.vars[e['id']]['init'])
        if e.get('k') == 'idx':
            return self.key(e.get('a') or e.get('base'))
        if e.get('k') == 'call' and (e.get('oper') == '[]' or e.get('n') == 'at') and e.get('obj') is not None:
            return self.key(e['obj'])
        return None


def fills(P, G, f, cls, bind=None, depth=0):
    """-> [(kind, receiver, args..., line, f)]: vertex sets and positions that f and the helpers it calls set"""
    K = Keys(f, bind)
    out = []
    for x in walk(f['b']):
        if x['k'] != 'call':
            continue
        q, a = x.get('q'), x['args']
        if q == cls + '::setContainedVertices' and x.get('obj') is not None:
            out.append(('set', K.key(x['obj']), K.key(a[0]), K.key(a[1]), empty(K, a[1]), x['l'], f))
        elif q == cls + '::addContainedVertex' and x.get('obj') is not None:
            out.append(('add', K.key(x['obj']), K.key(a[0]), K.key(a[1]), K.source(a[1]), x['l'], f))
        elif q == cls + '::setCurrentPosition' and x.get('obj') is not None:
            out.append(('pos', K.key(x['obj']), K.key(a[1]), K.key(a[0]), K.source(a[0]), x['l'], f))
        elif depth < 2 and x.get('f'):
            for t in G.targets(x, f) if hasattr(G, 'targets') else ():
                h = t if isinstance(t, dict) else P.functions.get(t)
                if h is None or h.get('b') is None or h is f or h.get('cls') == cls or len(h['params']) != len(a):
                    continue
                if not any(y['k'] == 'call' and y.get('q') in (cls + '::setContainedVertices', cls + '::addContainedVertex', cls + '::setCurrentPosition') for y in walk(h['b'])):
                    continue
                b = {p['id']: K.key(v) for p, v in zip(h['params'], a) if v}
                out += fills(P, G, h, cls, b, depth + 1)
    return out


def empty(K, e):
    """the expression is a container without elements"""
    e = strip(e)
    if e.get('k') == 'ctor':
        a = [x for x in e['args'] if x]
        return not a or len(a) == 1 and empty(K, a[0])
    if e.get('k') in ('ilist', 'initlist', 'list'):
        return not any(isinstance(v, list) and v for v in e.values())
    if e.get('k') == 'ref' and e.get('id') in K.vars:
        i = e['id']
        v = K.vars[i]
        if v.get('init') is not None and not empty(K, v['init']):
            return False
        return not any(x['k'] == 'call' and x.get('n') in ('push_back', 'emplace_back', 'insert', 'resize', 'assign', 'swap') and x.get('obj') is not None and strip(x['obj']).get('id') == i
                       for x in walk(K.f['b']))
    return False


def outside_fills(P, c, G, cls):
    seen = set()
    good, bad = {}, {}
    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        if f.get('b') is None or f.get('cls') == cls and not f.get('static'):
            continue
        l = fills(P, G, f, cls)
        for x in l:
            if x[0] == 'pos':
                continue
            at = (x[6]['file'], x[5])
            kind, g, p, v = x[:4]
            if kind == 'set' and x[4]:
                continue
            pos = [y for y in l if y[0] == 'pos' and y[1] == g and y[2] == p]
            if kind == 'add':
                ok = any(y[3] == v or y[4] is not None and y[4] == x[4] for y in pos)
            else:
                ok = any(y[4] == v or y[4] == '%s.containedVertices(%s)' % (g, p) for y in pos)
            (good if ok else bad).setdefault(at, (f, x))
            c.saw(f)
    for at, (f, x) in sorted(good.items()):
        c.ok('sets filled from outside', '%s:%s %s' % (at[0], at[1], x[6]['q']))
    for at, (f, x) in sorted(bad.items()):
        if at in good:      # right in the callers that set the positions
            continue
        c.violation('sets filled from outside', x[6], at[1], 'vertices are put into a vertex set and the position of each is not set to that vertex', tag='outside %s' % x[6]['n'])
    c.floor('sets filled from outside', 6)
