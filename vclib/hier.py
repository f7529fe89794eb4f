"""Path-sensitive walk over the algorithms that shrink a graph level by level.

The state follows the best cut value known, which of the recorded cut flags belong to it, whether the newest graph of
the hierarchy has been judged, and for which value edges were recorded as certain.  Numbers are named by the value they
hold (two names for one number are merged when a branch shows them equal), graphs by their place in the hierarchy.
Functions of the repository that take part (hold the hierarchy, the records or the value) are followed in the caller's
context, the others leave an unknown result."""
from .ast import strip, is_assign, assign_parts, int_const
from .program import walk, children

JUDGE, INIT, PROJECT, UNPACK, RETRIEVE = 'updateCut', 'setInitialCutValues', 'projectCut', 'setVertexLocations', 'retrieveMinimumCut'
ROLES = (JUDGE, INIT, PROJECT, UNPACK, RETRIEVE)
NESTED = ('perform_minimum_cut', 'findAllMincuts')
SHRINK = ('fromUnionFind', 'contractGraph')
CONSUMERS = {('setMincut', 'recursive_cactus'): 0, ('findCutFromCactus', 'most_balanced_minimum_cut'): 1}
MAXST = 600


def base(t):
    return t.lstrip('&').replace('const ', '').strip()


def is_hier(t):
    return base(t).startswith('std::vector<std::shared_ptr<') and base(t).endswith('>>') and '_graph' in t or base(t).startswith('std::vector<std::shared_ptr<graph_access')


def is_graph(t):
    return base(t).startswith(('std::shared_ptr<graph_access', 'std::shared_ptr<mutable_graph'))


class S:
    """one abstract state; env: variable -> ('n', id) | ('g', token) | ('h',) | ('r', which) | ('l', place) | ('fn', lambda)"""
    __slots__ = ('env', 'B', 'F', 'pend', 'le', 'lt', 'kind', 'marks', 'edges', 'lvl', 'backfl', 'started', 'size1', 'gfl', 'back', 'wgteq', 'aux', 'wide')

    def __init__(self):
        self.env, self.B, self.F = {}, None, None
        self.pend = False
        self.le, self.lt = frozenset(), frozenset()
        self.kind = {}
        self.marks, self.edges = None, None      # values the level numbers / recorded edges were made for (frozenset), None: no such record
        self.lvl = None                          # place of the level number recorded last
        self.backfl = None                       # value of the cut flagged in the newest graph
        self.gfl = {}
        self.started = False
        self.back = None
        self.wgteq = frozenset()
        self.wide = False
        self.size1 = False
        self.aux = None

    def copy(self):
        s = S()
        for k in S.__slots__:
            v = getattr(self, k)
            setattr(s, k, dict(v) if isinstance(v, dict) else v)
        return s

    def ids(self):
        r = []
        for k in sorted(self.env, key=str):
            numbers(self.env[k], r)
        for x in (self.B, self.F, self.backfl):
            if x is not None:
                r.append(x)
        for k in sorted(self.gfl, key=str):
            r.append(self.gfl[k])
        return r

    def canon(self):
        """rename ids by order of appearance and drop what nothing refers to"""
        live = self.ids()
        keep = set(live)
        le = closure(self.le)
        rec = set()
        for m in (self.marks, self.edges):
            for i in m or ():
                rec.add(i)
        m = {}
        for i in live:
            m.setdefault(i, len(m) + 1)
        for i in sorted(rec, key=str):
            if i not in m:
                # may later turn out equal to the best value only if something it is bounded by is still at hand
                below = tuple(sorted(m[j] for j in keep if (i, j) in le))
                above = tuple(sorted(m[j] for j in keep if (j, i) in le))
                m[i] = ('old', below, above) if below else ('stale',)
        s = self.copy()
        r = lambda i: None if i is None else m.get(i)
        s.env = {k: renumber(v, m) for k, v in s.env.items()}
        s.B, s.F, s.backfl = r(s.B), r(s.F), r(s.backfl)
        s.gfl = {k: m[v] for k, v in s.gfl.items()}
        s.kind = {m[i]: k for i, k in s.kind.items() if i in m}
        s.le = frozenset((m[a], m[b]) for a, b in le if a in m and b in m and m[a] != m[b])
        s.lt = frozenset((m[a], m[b]) for a, b in s.lt if a in m and b in m)
        s.wgteq = frozenset(m[a] for a in s.wgteq if a in m)
        s.marks = None if s.marks is None else frozenset(m[i] for i in s.marks)
        s.edges = None if s.edges is None else frozenset(m[i] for i in s.edges)
        return s

    def key(self):
        return (tuple(sorted(self.env.items(), key=str)), self.B, self.F, self.pend, self.le, self.lt, tuple(sorted(self.kind.items(), key=str)), self.marks, self.edges,
                self.lvl, self.backfl, self.started, self.back, tuple(sorted(self.gfl.items(), key=str)), self.wgteq, self.size1)


def closure(le):
    r = set(le)
    ch = True
    while ch:
        ch = False
        for a, b in list(r):
            for c, d in list(r):
                if b == c and (a, d) not in r:
                    r.add((a, d))
                    ch = True
    return r


class Walk:
    def __init__(self, P, variant, on_bad, on_ok):
        self.P, self.variant = P, variant
        self.bad, self.ok = on_bad, on_ok
        self.n = 0
        self.depth = 0
        self.reach = {}
        self.stack = []
        self.followed = set()

    def fresh(self, st, kind=''):
        self.n += 1
        i = 'x%d' % self.n
        if kind:
            st.kind[i] = kind
        return i

    # -- which functions take part --------------------------------------------
    def takes_part(self, g):
        if g is None or g.get('b') is None or g['n'] in ROLES + NESTED + SHRINK:
            return False
        k = g['key']
        if k not in self.reach:
            self.reach[k] = False
            r = any(is_hier(p['t']) or records(p['t']) and base(p['t']) != p['t'] and 'const' not in p['t'] for p in g['params'])
            for x in walk(g['b']):
                if r:
                    break
                if x['k'] == 'call':
                    if x.get('n') in (JUDGE, INIT, PROJECT, UNPACK):
                        r = True
                    elif 'f' in x:
                        h = self.P.lookup(x['f'], self.variant)
                        if h is not None and h['file'] == g['file'] and self.takes_part(h):
                            r = True
            self.reach[k] = r
        return self.reach[k]

    # -- state transitions -------------------------------------------------------
    def equate(self, st, a, b):
        """a and b name one number"""
        if a == b:
            return
        keep, drop = (a, b) if a == st.B or b != st.B else (b, a)
        m = lambda i: keep if i == drop else i
        st.env = {k: ((v[0], m(v[1])) + v[2:] if v[0] in ('n', 'p') else v) for k, v in st.env.items()}
        st.B, st.F, st.backfl = m(st.B), m(st.F), m(st.backfl)
        st.gfl = {k: m(v) for k, v in st.gfl.items()}
        kd = set(st.kind.pop(drop, '').split()) | set(st.kind.get(keep, '').split())
        st.kind[keep] = ' '.join(sorted(kd))
        st.le = frozenset((m(x), m(y)) for x, y in st.le if m(x) != m(y))
        st.lt = frozenset((m(x), m(y)) for x, y in st.lt)
        st.wgteq = frozenset(m(x) for x in st.wgteq)
        for f in ('marks', 'edges'):
            v = getattr(st, f)
            if v is not None:
                setattr(st, f, frozenset(m(x) for x in v))

    def add_le(self, st, a, b):
        if a == b:
            return
        st.le = st.le | {(a, b)}
        while True:
            le = closure(st.le)
            st.le = frozenset(le)
            c = sorted([p for p in le if p[0] != p[1] and (p[1], p[0]) in le], key=str)
            if not c:
                return
            self.equate(st, *c[0])

    def pushed(self, st, tok, e, fr):
        """a graph is put on the hierarchy"""
        if not st.started:
            st.started = True
            st.size1 = True
            if tok is not None:
                if tok in st.gfl:
                    st.F = st.backfl = st.gfl[tok]
                self.rename_back(st, tok)
            # the value known so far speaks about this graph
            return
        st.size1 = False
        if st.pend is True:
            self.bad('judged', fr['f'], e.get('l'), 'a graph joins the hierarchy before the one below it was compared with the best cut known', 'push')
        if tok is None or not (tok == 'new' or tok.startswith('new')):
            self.bad('levels', fr['f'], e.get('l'), 'the graph that joins the hierarchy is not shown to be a contraction of the newest one into a graph of its own', 'source')
        else:
            self.ok('levels', fr['f'], e.get('l'))
        self.rename_back(st, tok)
        st.pend = True
        st.backfl = None
        st.lvl = 'old' if st.lvl is not None else None
        st.env = {k: (('l', 'old') if v[0] == 'l' else v) for k, v in st.env.items()}

    def rename_back(self, st, tok):
        st.env = {k: (('uf', 'old') if v == ('uf', 'back') else ('g', 'old') if v == ('g', 'back') else v) for k, v in st.env.items()}
        st.env = {k: (('g', 'back') if v == ('g', tok) and tok is not None else ('g', 'old') if v[0] == 'g' and v[1].startswith('new') else v) for k, v in st.env.items()}
        if tok in st.gfl:
            st.gfl['back'] = st.gfl.pop(tok)
        else:
            st.gfl.pop('back', None)
        for k in list(st.kind):
            ks = st.kind[k].split()
            if 'deg:back' in ks:
                ks = [x for x in ks if x != 'deg:back']
            ks = ['deg:back' if tok is not None and x == 'deg:' + tok else x for x in ks]
            st.kind[k] = ' '.join(ks)

    def judge(self, st, x, e, fr):
        self.settle(st, x)
        if x != st.B:
            if (x, st.B) in st.lt or (x, st.B) in closure(st.le):
                pass
            self.bad('best value', fr['f'], e.get('l'), 'the newest graph is compared with a number that is not the best cut value known', 'judge')
        else:
            self.ok('best value', fr['f'], e.get('l'))
        if not st.pend:
            return x
        r = self.fresh(st, 'val')
        self.add_le(st, r, x)
        if st.F == st.B or self.given(st):
            st.F = r
        if 'given' in st.kind.get(x, ''):
            st.kind[r] = 'given val'
        st.B = r
        st.pend = False
        return r

    def given(self, st):
        return st.B is not None and 'given' in st.kind.get(st.B, '')

    def degree(self, st, tok):
        if tok is None:
            return self.fresh(st)
        for i, k in st.kind.items():
            if 'deg:' + tok in k.split():
                return i
        return self.fresh(st, 'deg:' + tok)

    def nested(self, st, tok, e, fr):
        x = self.fresh(st, 'nested')
        if tok is not None:
            if tok == 'old' or st.started and not st.size1 and tok == 'param':
                self.bad('levels', fr['f'], e.get('l'), 'a cut is computed on a graph below the newest one: its partition indices are overwritten', 'nested')
            st.gfl[tok] = x
            if tok == 'back':
                st.backfl = x
        return x

    def project(self, st, e, fr):
        x = st.backfl
        if x is None:
            self.bad('saved cut', fr['f'], e.get('l'), 'a cut is carried to the input graph that is not marked in the newest graph', 'project')
            return
        if st.B is not None and x != st.B and (x, st.B) not in st.lt and (x, st.B) not in closure(st.le):
            self.bad('saved cut', fr['f'], e.get('l'), 'the saved cut is replaced by one that is not shown to be smaller', 'project')
        else:
            self.ok('saved cut', fr['f'], e.get('l'))
        st.F = x
        st.B = x
        st.pend = False

    def unpack(self, st, x, e, fr):
        if st.pend is True:
            self.bad('judged', fr['f'], e.get('l'), 'the newest graph was not compared with the best cut known', 'end')
        if x != st.B and st.B is not None:
            self.bad('best value', fr['f'], e.get('l'), 'the certain edges get a weight that is not the best cut value', 'unpack')
        for nm, m in (('levels of the certain edges', st.marks), ('certain edges', st.edges)):
            if m is not None and not m <= {st.B}:
                self.bad('certain edges', fr['f'], e.get('l'), 'the %s may have been recorded for a larger cut value' % nm, 'stale')
            else:
                self.ok('certain edges', fr['f'], e.get('l'))

    def final(self, st, x, n, fr):
        if not st.started:
            return
        if x is None:
            return
        if st.pend is True:
            self.bad('judged', fr['f'], n.get('l'), 'the newest graph was not compared with the best cut known', 'end')
        else:
            self.ok('judged', fr['f'], n.get('l'))
        self.settle(st, x)
        if x != st.B:
            self.bad('best value', fr['f'], n.get('l'), 'the number returned is not shown to be the best cut value found', 'return')
        else:
            self.ok('best value', fr['f'], n.get('l'))
            if st.F != st.B and not self.given(st):
                self.bad('saved cut', fr['f'], n.get('l'), 'the cut saved in the input graph does not belong to the value returned', 'return')
            else:
                self.ok('saved cut', fr['f'], n.get('l'))

    # -- names -------------------------------------------------------------------
    def key(self, vid, fr):
        f = fr
        while f is not None:
            if vid in f['alias']:
                return f['alias'][vid]
            if vid in f['own']:
                return (f['tag'], vid)
            f = f['up']
        return (fr['tag'], vid)

    def setvar(self, st, key, v, t):
        if v is None and is_graph(t):
            v = ('g', 'g%s.%s' % key)
        if v is not None and v[0] in ('n', 'p') and not st.kind.get(v[1]):
            v = None        # not a number the value of a cut can come from
        if v is None:
            st.env.pop(key, None)
        else:
            st.env[key] = v

    def named(self, st, nm):
        for i in sorted(st.kind, key=str):
            if nm in st.kind[i].split():
                return i
        return self.fresh(st, nm)

    def num(self, v, st):
        return v[1] if v is not None and v[0] == 'n' else self.fresh(st)

    def like(self, st, x):
        return bool(set(st.kind.get(x, '').split()) & {'val', 'wgt', 'nested', 'given'} or 'deg:' in st.kind.get(x, ''))

    def settle(self, st, x):
        """the value the algorithm starts from"""
        if st.B is None:
            st.B = x
            if st.F is None and st.pend == 'soft' and 'nested' in st.kind.get(x, ''):     # a hierarchy handed in: its first graph is the caller's business
                st.F = x

    def best(self, st):
        if st.B is None and self.valuevar is not None:
            v = st.env.get(self.valuevar)
            if v is not None and v[0] == 'n':
                self.settle(st, v[1])
        return st.B if st.B is not None else 'none'

    # -- expressions: (state, value) for every way to evaluate ----------------------
    def evs(self, es, st, fr):
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def ev(self, e, st, fr):
        if e is None or 'k' not in e:
            return [(st, None)]
        k = e['k']
        if k in ('cast', 'copy'):
            return self.ev(e['e'], st, fr)
        if k == 'ref':
            if e.get('global') or 'cv' in e:
                return [(st, ('n', self.named(st, 'c:' + str(e.get('cv', e.get('q', e['n']))))))]
            return [(st, st.env.get(self.key(e['id'], fr)))]
        if k == 'int':
            return [(st, ('n', self.named(st, 'c:' + str(e['v']))))]
        if k == 'lambda':
            return [(st, ('fn', e['f'], e.get('l')))]
        if k in ('bin', 'call') and is_assign(e):
            a, b = assign_parts(e)
            op = e.get('op', e.get('oper'))
            out = []
            for s, v in self.ev(b, st, fr):
                out += [(x, v) for x in self.assign(a, op, v, s, fr, e)]
            return out
        if k == 'bin' and e['op'] in ('&&', '||', '<', '>', '<=', '>=', '==', '!=') or k == 'un' and e['op'] == '!' or k == 'bool':
            t, f = self.cond(e, st, fr)
            r = [(s, ('b', True)) for s in t] + [(s, ('b', False)) for s in f]
            if len(r) == 2 and r[0][1] != r[1][1] and r[0][0].key() == r[1][0].key():
                return [(r[0][0], None)]
            return r
        if k == 'bin':
            out = []
            for s, (a, b) in self.evs([e['a'], e['b']], st, fr):
                v = None
                if e['op'] == ',':
                    v = b
                elif e['op'] == '-' and a == ('l', 'size') and int_const(strip(e['b'])) == 1:
                    v = ('l', 'back')
                elif e['op'] in '+-' and int_const(strip(e['b'])) == 0 or e['op'] in '*/' and int_const(strip(e['b'])) == 1:
                    v = a
                elif e['op'] in '+-' and a is not None and a[0] in ('n', 'p') and int_const(strip(e['b'])) is not None and self.like(s, a[1]):
                    d = int_const(strip(e['b'])) * (1 if e['op'] == '+' else -1)
                    v = ('p', a[1], d + (a[2] if a[0] == 'p' else 0))
                elif e['op'] in ('+', '-', '*', '/', '%', '<<', '>>', '|', '&', '^') and numeric(e.get('t', '')):
                    v = ('n', self.fresh(s))
                out.append((s, v))
            return out
        if k == 'un':
            out = []
            for s, v in self.ev(e.get('e'), st, fr):
                if e['op'] in ('++', '--', 'post++', 'post--'):
                    t = strip(e.get('e'))
                    if t is not None and t['k'] == 'ref' and not t.get('global'):
                        self.setvar(s, self.key(t['id'], fr), None, t.get('t', ''))
                    v = None
                elif e['op'] not in ('*', '&', '+'):
                    v = None
                out.append((s, v))
            return out
        if k == 'cond':
            t, f = self.cond(e['c'], st, fr)
            out = []
            for s in t:
                out += self.ev(e['a'], s, fr)
            for s in f:
                out += self.ev(e['b'], s, fr)
            return out
        if k == 'idx':
            return [(s, self.index(a, b, s)) for s, (a, b) in self.evs([e['base'], e.get('i')], st, fr)]
        if k == 'mem':
            out = []
            for s, v in self.ev(e.get('base'), st, fr):
                w = None
                if v is not None and v[0] == 'tuple' and e['n'] in ('first', 'second') and len(v[1]) > (e['n'] == 'second'):
                    w = v[1][e['n'] == 'second']
                out.append((s, w))
            return out
        if k in ('ctor', 'init'):
            es = [a for a in (e.get('args') or e.get('e') or []) if isinstance(a, dict)] if not isinstance(e.get('e'), dict) else [e['e']]
            return [(s, vs[0] if len(vs) == 1 and vs[0] is not None and vs[0][0] in ('g', 'n', 'tuple', 'fn') else
                     ('tuple', tuple(vs)) if 'tuple<' in str(e.get('rec', '')) + str(e.get('t', '')) or 'pair<' in str(e.get('t', '')) else None)
                    for s, vs in self.evs(es, st, fr)]
        if k == 'call':
            return self.call(e, st, fr)
        out = [st]
        for c in children(e):
            out = [s2 for s in out for s2, _ in self.ev(c, s, fr)]
        return [(s, None) for s in out]

    def assign(self, a, op, v, st, fr, e):
        ta = strip(a) if a is not None else None
        if ta is not None and ta['k'] == 'ref' and not ta.get('global'):
            key = self.key(ta['id'], fr)
            old = st.env.get(key)
            if op != '=':
                v = None
            if old is not None and old[0] == 'h':
                self.bad('levels', fr['f'], e.get('l'), 'the hierarchy is replaced as a whole', 'assign')
            elif old is not None and old[0] == 'r':
                if ta.get('t') and op == '=':
                    setattr(st, old[1], None)
            else:
                self.setvar(st, key, v, ta.get('t', ''))
            return [st]
        if a is not None and a['k'] == 'call' and a.get('n') == 'tie':
            xs = a.get('args') or []
            vs = v[1] if v is not None and v[0] == 'tuple' else [None] * len(xs)
            for x, w in zip(xs, vs):
                x = strip(x)
                if x is not None and x['k'] == 'ref':
                    self.setvar(st, self.key(x['id'], fr), w, x.get('t', ''))
            return [st]
        return [s for s, _ in self.ev(a, st, fr)] if a is not None else [st]

    def index(self, b, i, st):
        if b is None:
            return None
        if b[0] == 'h':
            if i == ('l', 'back'):
                return ('g', 'back')
            return ('g', 'back') if st.size1 and i is not None and i[0] == 'n' and 'c:0' in st.kind.get(i[1], '').split() else ('g', 'old')
        if b[0] == 'r':
            return ('rb', b[1])
        return None

    def call(self, e, st, fr):
        n, op, ob = e.get('n'), e.get('oper'), e.get('obj')
        args = e.get('args') or []
        if n in ROLES and 'minimum_cut_helpers' in e.get('q', ''):
            return [(s, self.role(n, s, vs, e, fr)) for s, vs in self.evs(args, st, fr)]
        if n in NESTED:
            out = []
            for s, vs in self.evs(args, st, fr):
                tok = vs[0][1] if vs and vs[0] is not None and vs[0][0] == 'g' else 'back' if vs and vs[0] is not None and vs[0][0] == 'h' else None
                r = ('n', self.nested(s, tok, e, fr)) if tok is not None else ('n', self.fresh(s))
                out.append((s, r if n == NESTED[0] else ('tuple', (r,))))
            return out
        if n in SHRINK and 'contraction::' in e.get('q', ''):
            out = []
            for s, vs in self.evs(args, st, fr):
                tok = vs[0][1] if vs and vs[0] is not None and vs[0][0] == 'g' else None
                own = 'mutable_graph' not in str((e.get('pt') or [''])[0]) + str((args[0] or {}).get('t', ''))
                if not own and n == 'fromUnionFind':
                    c = args[2] if len(args) > 2 else None
                    while c is not None and c['k'] in ('defarg', 'cast', 'copy'):
                        c = c.get('e')
                    own = c is not None and (c['k'] == 'bool' and bool(c['v']) or str(c.get('cv', '')) in ('1', 'true'))
                elif not own:
                    own = True
                u = vs[1] if len(vs) > 1 else None
                if n == 'fromUnionFind' and u is not None and u[0] == 'uf' and tok is not None and u[1] != tok:
                    self.bad('levels', fr['f'], e.get('l'), 'a graph is contracted by blocks that were found in another one', 'blocks')
                s.gfl.pop('new', None)
                out.append((s, ('g', 'notback' if tok != 'back' else 'new' if own else 'inplace')))
            return out
        if ob is not None and op in ('->', '*') and not args:
            return self.ev(ob, st, fr)
        if e.get('q', '').startswith('std::') and ob is None:
            if n in ('move', 'forward', 'ref', 'cref') and len(args) == 1:
                return self.ev(args[0], st, fr)
            if n == 'min' and len(args) == 2:
                out = []
                for s, (a, b) in self.evs(args, st, fr):
                    if a is not None and b is not None and a[0] == b[0] == 'n':
                        le = closure(s.le) | s.lt
                        if a == b or (a[1], b[1]) in le:
                            out.append((s, a))
                            continue
                        if (b[1], a[1]) in le:
                            out.append((s, b))
                            continue
                    r = self.fresh(s, 'val')
                    for x in (a, b):
                        if x is not None and x[0] == 'n':
                            self.add_le(s, r, x[1])
                    out.append((s, ('n', r)))
                return out
            if n in ('make_tuple', 'make_pair', 'tie'):
                return [(s, ('tuple', tuple(vs))) for s, vs in self.evs(args, st, fr)]
            if n == 'get' and len(args) == 1:
                return [(s, v[1][0] if v is not None and v[0] == 'tuple' and v[1] else v if v is not None and v[0] == 'n' else None) for s, v in self.ev(args[0], st, fr)]
        if (n, e.get('q', '').split('::')[0].split('<')[0]) in CONSUMERS:
            out = []
            for s, vs in self.evs(args, st, fr):
                x = vs[CONSUMERS[n, e['q'].split('::')[0].split('<')[0]]]
                x = self.num(x, s)
                self.settle(s, x)
                if x != s.B:
                    self.bad('best value', fr['f'], e.get('l'), 'the cactus is built for a number that is not the best cut value', 'cactus')
                else:
                    self.ok('best value', fr['f'], e.get('l'))
                out.append((s, None))
            return out
        if base(e.get('t', '')) == 'union_find' and e['k'] == 'call' and len(args) >= 2 and is_graph(str((args[0] or {}).get('t', ''))):
            out = []
            for s, vs in self.evs(args, st, fr):
                self.threshold(s, vs[1], e, fr)
                out.append((s, ('uf', vs[0][1]) if vs[0] is not None and vs[0][0] == 'g' else None))
            return out
        out = []
        for s, o in (self.ev(ob, st, fr) if ob is not None else [(st, None)]):
            g = self.P.lookup(e['f'], self.variant) if 'f' in e else None
            if o is not None and o[0] == 'fn' and op == '()':
                g = self.lambda_(o, fr)
                if g is not None and len(self.stack) < 6 and g['key'] not in [x[0] for x in self.stack]:
                    out += self.inline(g, e, args, s, fr, fr)
                    continue
            if g is not None and not (o is not None and o[0] in ('h', 'r', 'rb', 'g')) and self.takes_part(g) and len(self.stack) < 6 and g['key'] not in [x[0] for x in self.stack]:
                out += self.inline(g, e, args, s, fr, None)
                continue
            for s2, vs in self.evs(args, s, fr):
                out.append((s2, self.method(e, n, op, o, vs, args, s2, fr, g)))
        return out

    def ends(self, e, args, fr):
        """the ends recorded are a vertex and the target of its edge, and are merged"""
        defs = {}
        body = fr['f']['b'] if fr['f'] is not self.top else self.top['b']
        for x in list(walk(self.top['b'])) + list(walk(body)):
            if x['k'] == 'var' and x.get('init') is not None:
                defs[x.get('id')] = x['init']
            elif x['k'] == 'decomp' and x.get('init') is not None:
                y = strip(x['init'])
                if y['k'] == 'call' and y.get('n') == 'getEdge' and len(x['b']) == 2:
                    for b, nm in zip(x['b'], ('getEdgeTarget', 'getEdgeWeight')):
                        for i in (b.get('id'), b.get('hid')):
                            if i is not None:
                                defs[i] = dict(y, n=nm)

        def show(x, d=0):
            x = strip(x) if x is not None else None
            if x is None:
                return '?'
            if x['k'] == 'ref':
                i = defs.get(x.get('id'))
                if i is not None and d < 5 and strip(i)['k'] == 'call' and strip(i).get('n') in ('getEdgeTarget', 'get_first_edge', 'back'):
                    return show(i, d + 1)
                return 'v%s' % x.get('id')
            if x['k'] == 'call':
                if x.get('oper') in ('->', '*') and not x.get('args'):
                    return show(x.get('obj'), d)
                return '%s(%s)' % (x.get('n'), ','.join(show(a, d + 1) for a in x.get('args') or []))
            if x['k'] in ('ctor', 'init'):
                a = [a for a in (x.get('args') or x.get('e') or []) if isinstance(a, dict)]
                return show(a[0], d) if len(a) == 1 else ','.join(show(y, d) for y in a)
            return x['k'] + str(x.get('v', x.get('n', x.get('l'))))
        a = ','.join(show(x) for x in args)
        if a.count('v') == 0 or fr['f'] is not self.top and any(strip(x)['k'] == 'ref' and strip(x).get('parm') for x in args if x is not None):
            return
        ws = [show(x) for x in walk(body) if x['k'] == 'call' and x.get('n') in ('getEdgeWeight', 'getEdge')]
        ws = [w.replace('getEdge(', 'getEdgeWeight(', 1) for w in ws]
        us = [show(x) for x in walk(body) if x['k'] == 'call' and x.get('n') == 'Union']
        first = a.split(',')[0]
        good = any(a == first + ',' + w.replace('getEdgeWeight', 'getEdgeTarget', 1) for w in ws) and any(u == 'Union(%s)' % a for u in us + ['Union(%s)' % ','.join(y) for y in [u[6:-1].split(',', 1)[::-1] for u in us]])
        if not good and 'getEdgeTarget' in ''.join(us):
            self.bad('certain edges', fr['f'], e.get('l'), 'the ends recorded are not a vertex and the target of the edge that is contracted', 'ends')

    def threshold(self, st, v, e, fr):
        """vertices are merged when no cut below the limit lies between them"""
        if not st.started or 'approx' in (self.top.get('cls') or ''):
            return
        b = self.best(st)
        i, c = (v[1], v[2] if v[0] == 'p' else 0) if v is not None and v[0] in ('n', 'p') else (None, 0)
        need = 1 if self.top['n'] == 'findAllMincuts' else 0
        if i is None or c < need or i != b and (b, i) not in closure(st.le) | st.lt:
            self.bad('limit', fr['f'], e.get('l'), 'vertices are merged up to a limit that is not shown to be at least the best cut value%s: smaller%s cuts are lost' % ((' plus one', ' or equal') if need else ('', '')), 'limit')
        else:
            self.ok('limit', fr['f'], e.get('l'))

    def lambda_(self, o, fr):
        g = self.P.lambda_of(o[1], self.variant, self.top)
        if g is not None:
            return g
        for f in self.P.functions.values():
            if f.get('lambda') and f.get('l') == o[2] and f['u'].split('F@operator()')[0] == o[1].split('F@operator()')[0] and f['u'].rsplit(':', 1)[-1] == o[1].rsplit(':', 1)[-1]:
                return f
        return None

    def method(self, e, n, op, o, vs, args, st, fr, g):
        if o is not None and o[0] == 'h':
            if n in ('push_back', 'emplace_back'):
                self.pushed(st, vs[0][1] if vs and vs[0] is not None and vs[0][0] == 'g' else None, e, fr)
                return ('g', 'back')
            if n == 'back':
                return ('g', 'back')
            if n == 'front':
                return ('g', 'back') if st.size1 else ('g', 'old')
            if n == 'size':
                return ('l', 'size')
            if op == '[]' or n == 'at':
                return self.index(o, vs[0], st)
            if n not in ('empty', 'begin', 'end', 'reserve', 'capacity', 'cbegin', 'cend'):
                self.bad('levels', fr['f'], e.get('l'), 'the hierarchy is changed by %s' % n, 'change')
            return None
        if o is not None and o[0] == 'r':
            w = o[1]
            if n in ('push_back', 'emplace_back'):
                b = self.best(st)
                if w == 'marks':
                    st.marks = (st.marks or frozenset()) | {b}
                    st.lvl = 'back' if vs and vs[0] == ('l', 'back') else 'old'
                else:
                    st.edges = (st.edges or frozenset()) | {b}
                return ('rb', w)
            if n == 'clear':
                setattr(st, w, None)
                if w == 'marks':
                    st.lvl = None
                return None
            if n in ('back', 'at') or op == '[]':
                return ('rb', w)
            return None
        if o is not None and o[0] == 'rb':
            if n in ('push_back', 'emplace_back') and o[1] == 'edges':
                b = self.best(st)
                if st.lvl != 'back':
                    self.bad('certain edges', fr['f'], e.get('l'), 'an edge is recorded although the level recorded last is not that of the newest graph', 'level')
                elif 'wgt' not in st.kind.get(b, '').split():
                    self.bad('certain edges', fr['f'], e.get('l'), 'an edge is recorded as certain that is not shown to weigh as much as the best cut', 'weight')
                else:
                    self.ok('certain edges', fr['f'], e.get('l'))
                self.ends(e, args, fr)
            return None
        if o is not None and o[0] == 'g':
            if n == 'getMinDegree':
                return ('n', self.degree(st, o[1]))
            if n == 'getEdgeWeight':
                return ('n', self.fresh(st, 'wgt' if o[1] == 'back' else ''))
            if n == 'getEdge':
                return ('tuple', (None, ('n', self.fresh(st, 'wgt' if o[1] == 'back' else ''))))
            return ('n', self.fresh(st)) if numeric(e.get('t', '')) else None
        pt = e.get('pt') or []
        for i, v in enumerate(vs):
            t = pt[i] if i < len(pt) else ''
            if v is None:
                continue
            out = t.startswith('&') and 'const' not in t and not t.startswith('&&')
            if v[0] in ('h', 'r') and out and not e.get('q', '').startswith('std::'):
                self.bad('levels', fr['f'], e.get('l'), 'the hierarchy or its records are handed to code that may change them', 'outside')
            a = strip(args[i]) if i < len(args) else None
            if v[0] == 'n' and out and a is not None and a['k'] == 'ref' and not a.get('global'):
                self.setvar(st, self.key(a['id'], fr), None, a.get('t', ''))
        return ('n', self.fresh(st)) if numeric(e.get('t', '')) else None

    def role(self, n, st, vs, e, fr):
        if n == JUDGE:
            return ('n', self.judge(st, self.num(vs[1], st), e, fr))
        if n == INIT:
            self.best(st)
            st.F = self.degree(st, 'back')
            if st.size1:
                st.backfl = st.F
        elif n == PROJECT:
            self.best(st)
            self.project(st, e, fr)
        elif n == UNPACK:
            self.unpack(st, self.num(vs[4], st), e, fr)
        return None

    # -- calls in the caller's context -------------------------------------------------
    def inline(self, g, e, args, st, fr, up):
        self.n += 1
        nf = {'f': g, 'tag': 't%d' % self.n, 'alias': {}, 'own': set(), 'up': up}
        self.followed.add(g['key'])
        outs = []
        for s, vs in self.evs(args, st, fr):
            for i, p in enumerate(g['params']):
                if p.get('id') is None:
                    continue
                v = vs[i] if i < len(vs) else None
                a = strip(args[i]) if i < len(args) and args[i] is not None else None
                if p['t'].startswith('&') and a is not None and a['k'] == 'ref' and not a.get('global'):
                    nf['alias'][p['id']] = self.key(a['id'], fr)
                    continue
                nf['own'].add(p['id'])
                self.setvar(s, (nf['tag'], p['id']), v, p['t'])
            self.stack.append((g['key'], nf['tag']))
            r = self.stmt(g['b'], [s], nf)
            self.stack.pop()
            for s2 in r['fall']:
                outs.append((s2, None))
            outs += r['ret']
        res = []
        for s, v in outs:
            s.env = {k: x for k, x in s.env.items() if k[0] != nf['tag']}
            res.append((s, v))
        return res

    # -- conditions ------------------------------------------------------------------
    def feasible(self, st):
        le = closure(st.le)
        return not any(a == b or (b, a) in le for a, b in st.lt)

    def cond(self, e, st, fr):
        """-> (states where it holds, states where it does not)"""
        if e is None:
            return [st], []
        k = e['k']
        if k in ('cast', 'copy'):
            return self.cond(e['e'], st, fr)
        if k == 'bool':
            return ([st], []) if e['v'] else ([], [st])
        if k == 'un' and e['op'] == '!':
            t, f = self.cond(e['e'], st, fr)
            return f, t
        if k == 'bin' and e['op'] in ('&&', '||'):
            a = e['op'] == '&&'
            T, F = [], []
            t, f = self.cond(e['a'], st, fr)
            (F if a else T).extend(f if a else t)
            for s in (t if a else f):
                t2, f2 = self.cond(e['b'], s, fr)
                T += t2
                F += f2
            return self.uniq(T), self.uniq(F)
        if k == 'bin' and e['op'] in ('<', '>', '<=', '>=', '==', '!='):
            T, F = [], []
            for s, (a, b) in self.evs([e['a'], e['b']], st, fr):
                if a is None or b is None or a[0] != 'n' or b[0] != 'n':
                    T.append(s)
                    F.append(s.copy())
                    continue
                x, y, op = a[1], b[1], e['op']
                if not self.like(s, x) or not self.like(s, y):
                    if not (op in ('==', '!=') and 'c:' in s.kind.get(x, '') + s.kind.get(y, '')):
                        T.append(s)
                        F.append(s.copy())
                        continue
                if op in ('>', '<='):
                    x, y, op = y, x, '<' if op == '>' else '>='
                t, f = s, s.copy()
                if op == '<':
                    self.less(t, x, y)
                    self.add_le(f, y, x)
                elif op == '>=':
                    self.less(f, x, y)
                    self.add_le(t, y, x)
                elif op == '==':
                    self.equate(t, x, y)
                else:
                    self.equate(f, x, y)
                T.append(t)
                F.append(f)
            return [s for s in T if self.feasible(s)], [s for s in F if self.feasible(s)]
        T, F = [], []
        for s, v in self.ev(e, st, fr):
            if v is None or v != ('b', False):
                T.append(s)
            if v is None or v != ('b', True):
                F.append(s.copy())
        return T, F

    def less(self, st, x, y):
        st.lt = st.lt | {(x, y)}
        self.add_le(st, x, y)

    # -- statements ------------------------------------------------------------------
    def uniq(self, l):
        seen, r = set(), []
        for s in l:
            s = s.canon()
            k = s.key()
            if k not in seen:
                seen.add(k)
                r.append(s)
        if len(r) > MAXST:
            raise Exception('too many states')
        return r

    def stmt(self, n, sts, fr):
        R = {'fall': [], 'ret': [], 'brk': [], 'cont': []}
        if n is None or not sts:
            R['fall'] = sts
            return R

        def add(r, *ks):
            for k in ks:
                R[k] += r[k]
        k = n['k']
        if k == 'block':
            cur = sts
            for c in n['b']:
                if c is None or not cur:
                    continue
                r = self.stmt(c, cur, fr)
                add(r, 'ret', 'brk', 'cont')
                cur = self.uniq(r['fall'])
            R['fall'] = cur
            gone = {(fr['tag'], v.get('id')) for c in n['b'] if c is not None and c['k'] == 'decl' for d in c['d'] for v in [d] + (d.get('b') or [])} if not (not self.stack and n is fr['f']['b']) else set()
            for w in ('fall', 'brk', 'cont'):
                for s in R[w]:
                    if gone & set(s.env):
                        s.env = {x: y for x, y in s.env.items() if x not in gone}
                R[w] = self.uniq(R[w])
        elif k == 'expr':
            R['fall'] = [s2 for s in sts for s2, _ in self.ev(n['e'], s, fr)]
        elif k == 'decl':
            for v in n['d']:
                sts = [x for s in sts for x in self.decl(v, s, fr)]
            R['fall'] = sts
        elif k == 'if':
            if n.get('init'):
                sts = self.stmt(n['init'], sts, fr)['fall']
            if n.get('cv'):
                sts = [x for s in sts for x in self.decl(n['cv'], s, fr)]
            T, F = [], []
            for s in sts:
                t, f = self.cond(n['c'], s, fr)
                T += t
                F += f
            for b, x in ((n['a'], T), (n.get('b'), F)):
                r = self.stmt(b, self.uniq(x), fr)
                add(r, 'fall', 'ret', 'brk', 'cont')
        elif k in ('for', 'while', 'do', 'forrange'):
            return self.loop(n, sts, fr)
        elif k == 'return':
            for s in sts:
                for s2, v in self.ev(n.get('e'), s, fr):
                    if not self.stack:
                        w = v[1][0] if v is not None and v[0] == 'tuple' and v[1] else v
                        self.final(s2, w[1] if w is not None and w[0] == 'n' else None, n, fr)
                    R['ret'].append((s2, v))
        elif k == 'break':
            R['brk'] = sts
        elif k == 'continue':
            R['cont'] = sts
        elif k == 'switch':
            body = n['b']['b'] if n['b']['k'] == 'block' else [n['b']]
            sts = [s2 for s in sts for s2, _ in self.ev(n['c'], s, fr)]
            cur, out, hasdef = [], [], False
            for c in body:
                while c is not None and c['k'] in ('case', 'default'):
                    hasdef |= c['k'] == 'default'
                    cur = self.uniq(cur + [s.copy() for s in sts])
                    c = c['b']
                if c is None:
                    continue
                r = self.stmt(c, cur, fr)
                add(r, 'ret', 'cont')
                out += r['brk']
                cur = self.uniq(r['fall'])
            R['fall'] = self.uniq(out + cur + ([] if hasdef else sts))
        elif k == 'try':
            r = self.stmt(n['b'], sts, fr)
            add(r, 'fall', 'ret', 'brk', 'cont')
        elif k in ('case', 'default', 'label', 'omp'):
            return self.stmt(n.get('b'), sts, fr)
        else:
            R['fall'] = sts
        return R

    def decl(self, v, st, fr):
        t, vid = v.get('t', ''), v.get('id')
        key = (fr['tag'], vid)
        out = []
        fr['own'].add(vid)
        init = v.get('init')
        if t.startswith('&') and init is not None:
            a = strip(init)
            if a is not None and a['k'] == 'ref' and not a.get('global'):
                fr['alias'][vid] = self.key(a['id'], fr)
                return [st]
        for s, w in self.ev(init, st, fr):
            if is_hier(t) and not (w is not None and w[0] == 'h' and t.startswith('&')):
                # the hierarchy itself, when it is the one the roles work on
                if vid in self.hiers:
                    s.env[key] = ('h',)
                    tok = None
                    if init is not None:
                        gs = self.initial(init, s, fr)
                        for g in gs:
                            self.pushed(s, g, v, fr)
            elif records(t) and not t.startswith('&'):
                s.env[key] = ('r', records(t))
            elif t.startswith('&') and w is None and is_hier(t):
                pass
            else:
                self.setvar(s, key, w, t)
            out.append(s)
        for i, b in enumerate(v.get('b') or []):
            bid = b.get('id') if isinstance(b, dict) else b
            fr['own'].add(bid)
            for s in out:
                w = s.env.get(key)
                x = w[1][i] if w is not None and w[0] == 'tuple' and i < len(w[1]) else None
                self.setvar(s, (fr['tag'], bid), x, b.get('t', '') if isinstance(b, dict) else '')
        if v.get('b'):
            for s in out:
                s.env.pop(key, None)
        return out

    def initial(self, init, st, fr):
        r = []
        for x in walk(init):
            if x['k'] == 'ref' and is_graph(x.get('t', '')):
                v = st.env.get(self.key(x['id'], fr))
                r.append(v[1] if v is not None and v[0] == 'g' else None)
        return r

    def loop(self, n, sts, fr):
        R = {'fall': [], 'ret': [], 'brk': [], 'cont': []}
        k = n['k']
        if n.get('init'):
            sts = self.stmt(n['init'], sts, fr)['fall']
        if k == 'forrange':
            sts = [s2 for s in sts for s2, _ in self.ev(n['range'], s, fr)]
        seen, out = set(), []
        work = [(s, k == 'do') for s in sts]
        rounds = 0
        while work:
            s, first = work.pop()
            s = s.copy()
            s.kind = {i: ' '.join(x for x in ks.split() if x != 'wgt') for i, ks in s.kind.items()}
            s = s.canon()
            kk = (s.key(), first)
            if kk in seen:
                continue
            seen.add(kk)
            rounds += 1
            if rounds > 600:
                raise Exception('loop does not settle')
            if first:
                body = [s]
            elif k == 'forrange':
                out.append(s.copy())
                body = self.decl(n['var'], s, fr)
                for x in body:
                    self.setvar(x, (fr['tag'], n['var'].get('id')), None, n['var'].get('t', ''))
            elif n.get('c') is not None:
                body, f = self.cond(n['c'], s, fr)
                out += f
            else:
                body = [s]
            r = self.stmt(n['b'], self.uniq(body), fr)
            R['ret'] += r['ret']
            out += r['brk']
            nxt = self.uniq(r['fall'] + r['cont'])
            if n.get('inc') is not None:
                nxt = [s2 for x in nxt for s2, _ in self.ev(n['inc'], x, fr)]
            work += [(x, False) for x in nxt]
        R['fall'] = self.uniq(out)
        return R

    # -- driver ----------------------------------------------------------------------
    def run(self, f):
        self.hiers = set()
        self.top = f
        for x in walk(f['b']):
            if x['k'] == 'call':
                for a in x.get('args') or []:
                    a = strip(a) if a is not None else None
                    if a is not None and a['k'] == 'ref' and is_hier(a.get('t', '')):
                        self.hiers.add(a.get('id'))
        fr = {'f': f, 'tag': 'r', 'alias': {}, 'own': set(), 'up': None}
        vv = None
        for x in walk(f['b']):
            if x['k'] == 'return' and x.get('e') is not None:
                e = strip(x['e'])
                while e is not None and (e['k'] in ('ctor', 'init') or e['k'] == 'call' and e.get('n') in ('make_tuple',)) and (e.get('args') or isinstance(e.get('e'), list)):
                    e = strip((e.get('args') or e.get('e'))[0])
                if e is not None and e['k'] == 'ref' and not e.get('global') and numeric(e.get('t', '')):
                    vv = e['id']
        self.valuevar = ('r', vv) if vv is not None else None
        starts = []
        for one in (True, False):
            st = S()
            h = False
            for p in f['params']:
                fr['own'].add(p['id'])
                k = ('r', p['id'])
                if is_hier(p['t']):
                    st.env[k] = ('h',)
                    st.started, st.size1, st.pend, h = True, one, 'soft', True
                elif is_graph(p['t']):
                    st.env[k] = ('g', 'param')
                elif numeric(p['t']):
                    st.env[k] = ('n', self.fresh(st, 'given'))
            starts.append(st)
            if not h:
                break
        r = self.stmt(f['b'], starts, fr)
        return len(r['ret'])


def records(t):
    t = base(t)
    if t.startswith('std::vector<std::vector<std::pair<unsigned int, unsigned int>'):
        return 'edges'
    return 'marks' if t == 'std::vector<unsigned long>' else ''


def numbers(v, r):
    if v is None:
        return
    if v[0] in ('n', 'p'):
        r.append(v[1])
    elif v[0] == 'tuple':
        for x in v[1]:
            numbers(x, r)


def renumber(v, m):
    if v is not None and v[0] in ('n', 'p'):
        return (v[0], m[v[1]]) + v[2:]
    if v is not None and v[0] == 'tuple':
        return ('tuple', tuple(renumber(x, m) for x in v[1]))
    return v


def numeric(t):
    t = base(t)
    return t[:1] in 'iu' and t[1:].isdigit()
