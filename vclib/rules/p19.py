"""The push-relabel flow routine keeps its bookkeeping: conservation, residual capacities, labels, active vertices, result."""
from ..absint import Interp, Budget, fresh, mark_unsigned
from ..ast import strip
from ..gmodel import graph_prims, isgraph, same
from ..program import walk, AnalysisBroken
from ..terms import *
from ..ctx import short
from .p03 import home, make_prims, pq_classes

RULE = ('Symbolic execution of every instantiation of the flow routine over a symbolic graph. Per path and loop iteration: what is added to an arc is taken from its reverse arc and moved from the '
        'excess of the tail to the excess of the head, is at most residual capacity and excess, and moves downhill; labels are only set by the search over residual arcs, the residual minimum of a '
        'relabel, or a raise that an empty level justifies; level counts never fall below the number of vertices on a level; a vertex that gained excess or was relabelled is queued or has '
        'no excess; all records start fresh; value and source set are taken from the final excess and residual graph.')
ASSUMPTIONS = ['edges_of enumerates every incident edge once; the reverse edge of an edge is its other direction (separate properties)', 'weights are not negative',
               'the queue returns what was inserted (separate property)']

FLOW = ('p', ('s', 'flow', 0))


def flow_prims(self, e, st, fr, ov, op, args):
    q, n = e['q'], e.get('n')
    if q.split('::')[0].split('<')[0] in ('mutable_graph', 'flow_graph') and n in ('getEdgeFlow', 'setEdgeFlow', 'addEdgeFlow'):
        vals = [num(self.argval(st, a)) for a in args]
        p = (FLOW, (('f', '#flow'), ('i', vals[0]), ('i', vals[1])))
        ids = vals[2:] if n == 'getEdgeFlow' else vals[3:]
        old = num(self.read(st, p))
        self.emit(st, fr, e, 'flowid', n, args=ids)
        if n == 'getEdgeFlow':
            return [(st, old)]
        new = vals[2] if n == 'setEdgeFlow' else add(old, vals[2])
        self.store(st, p, new)
        self.emit(st, fr, e, 'write', n, obj=p, args=[new, old])
        return [(st, None)]
    if n in ('reset', 'clear') and home(q) in self.pqs and e.get('obj') is not None:
        st.aux['qreset'] = True
        return [(st, None)]
    if n == 'getEdgeTarget' and isgraph(q):
        r = graph_prims(self, e, st, fr, ov, op, args)
        t = r[0][1]
        if len(t) == 4:
            st.facts = st.facts.add(NE(t, t[2]))
        return r
    if q == 'std::fill' or q == 'std::fill_n':
        vals = [self.argval(st, a) for a in args]
        whole = q == 'std::fill' and len(vals) == 3 and vals[0][0] == 'it' and vals[1][0] == 'it' and vals[0][1] == vals[1][1]
        if whole:
            p = vals[0][1]
            self.emit(st, fr, e, 'fill', n, obj=p, args=[num(vals[2])])
            self.havoc_elems(st, p)
            fills = dict(st.aux.get('fills') or ())
            fills[p] = num(vals[2])
            st.aux['fills'] = frozenset(fills.items())
            return [(st, None)]
    return None


class Flow:
    def __init__(self, P, c, f, variant, PQ):
        self.P, self.c, self.f = P, c, f
        R = P.records[f['cls']]
        pq = make_prims(P, PQ)[0]
        self.I = Interp(P, variant, prims=[flow_prims, pq, graph_prims], maxstates=200, budget=6000000, inline_depth=10, forkret=40)
        self.I.pqs = PQ
        self.I.on_event = self.on
        self.roles(R)
        self.bad = {}
        self.good = {}
        self.lines = {}
        self.act = {}           # node loop -> every vertex of it is left inactive only without excess
        self.folds = {}         # (loop, accumulator) -> [complete, v]
        self.cover = {}         # loop -> range
        self.sums = {}          # loop symbol -> increments are right
        self.pops = self.rets = 0
        self.raises = {}        # loop -> [every vertex ends at or above the number of vertices, [(event, has a gap, above it)]]
        self.touchloops = {}
        self.start_cleared = frozenset(x['n'] for x in R['fields'] if x['t'] == 'bool')
        self.start_event = None
        self.raised = {}
        self.seedloops = {}
        self.clearloops = {}
        self.ids = {}
        src = ('s', 'srcidx', 0)
        mark_unsigned(src)
        self.src = src
        args = [None] * len(f['params'])
        pv = [i for i, p in enumerate(f['params']) if p['t'].replace('const ', '').lstrip('&') == 'std::vector<unsigned int>']
        pi = [i for i, p in enumerate(f['params']) if p['t'].replace('const ', '').lstrip('&') in ('u32', 'u64')]
        if len(pv) != 1 or not pi:
            raise AnalysisBroken('P19: parameters of %s not understood' % f['q'])
        args[pi[0]] = src
        self.pi = pi
        self.srcname = f['params'][pv[0]]['n']
        try:
            self.I.run(f, args=args)
        except Budget:
            raise AnalysisBroken('P19: state budget exceeded in ' + f['q'])

    # ---- roles of the members
    def roles(self, R):
        t = {}
        for x in R['fields']:
            t.setdefault(x['t'], []).append(x['n'])

        def one(*ts):
            r = [n for y in ts for n in t.get(y, [])]
            return r[0] if len(r) == 1 else None
        self.X = one('std::vector<long>')
        self.D = one('std::vector<unsigned int>')
        self.N = one('std::vector<int>')
        self.FL = one('std::vector<std::vector<long>>')
        self.Q = one(*[y for y in t if y in ('maxNodeHeap', 'bucket_pq', 'fifo_node_bucket_pq', 'node_bucket_pq', 'vecMaxNodeHeap')])
        bools = t.get('std::vector<bool>', [])
        if None in (self.X, self.D, self.N) or len(bools) != 2:
            raise AnalysisBroken('P19: records of the flow routine not recognised')
        # the flags of queued vertices are cleared for the vertex taken from the queue
        meths = [f for f in self.P.functions.values() if f.get('cls') == self.f['cls'] and f.get('b') is not None]

        def flags(f):
            return {x['n'] for x in walk(f['b']) if x['k'] == 'mem' and x['n'] in bools}
        self.B = bools
        self.A = self.T = None
        self.meths = meths

    def field(self, p):
        """(member, subscripts)"""
        if p is None:
            return None, ()
        root, steps = p
        if root == FLOW:
            return '#flow', tuple(num(s[1]) for s in steps[1:] if s[0] == 'i')
        if not steps or steps[0][0] != 'f':
            return None, ()
        ix = tuple(num(s[1]) for s in steps[1:] if s[0] == 'i')
        n = steps[0][1]
        if n == self.FL:
            n = '#flow'
        return n, ix

    def rd(self, st, field, i):
        return num(self.I.read(st, (self.this, (('f', field), ('i', i)))))

    def flow(self, st, v, e):
        for p in self.flowroots:
            return num(self.I.read(st, (p[0], p[1] + (('i', v), ('i', e)))))
        return None

    flowroots = ((FLOW, (('f', '#flow'),)),)
    this = None
    mainloop = None

    # ---- reporting
    def fail(self, rule, e, what, tag):
        self.bad.setdefault((rule, tag, e.fn['key']), (rule, e, what, tag))

    def ok(self, rule, e):
        self.good.setdefault((rule, e.fn['file'], e.line), e)

    def finish(self):
        c = self.c
        for f, e in self.raised.items():
            if f not in self.start_cleared:
                self.fail('fresh start', e, 'the sign that the limit was reached may stay from the last run', 'reset:flag')
        for (rule, file, line), e in self.good.items():
            c.ok(rule, '%s:%s' % (file, line))
        for rule, e, what, tag in self.bad.values():
            c.violation(rule, e.fn, e.line, what, tag=tag, path=e.path())

    # ---- helpers
    def is_src(self, t, F):
        if self.src_term(t):
            return True
        return any(self.src_term(s) and F.implies(EQ(t, s), depth=1) for a in F.atoms if a[0] == 'eq0' for s in subterms(a))

    def src_term(self, t):
        return t[0] == 'ld' and len(t[1][1]) == 1 and t[1][1][0][0] == 'i' and num(t[1][1][0][1]) == self.src and self.is_sources(t[1][0])

    def is_sources(self, root):
        return ('arg:' + self.srcname) in str(root)

    def source_index(self, t):
        if t[0] == 'ld' and len(t[1][1]) == 1 and t[1][1][0][0] == 'i' and self.is_sources(t[1][0]):
            return num(t[1][1][0][1])
        return None

    def arcs(self, F, extra=()):
        out = set()
        for at in list(F.atoms) + list(extra):
            for s in subterms(at):
                if s[0] == 'app' and s[1] in ('tgt', 'wgt', 'rev') and len(s) == 4:
                    out.add((s[2], s[3]))
                if s[0] == 'app' and s[1] == 'in' and s[3][:2] == ('range', 'edges'):
                    out.add((s[3][2], s[2]))
        return out

    @staticmethod
    def back(v, e):
        return app('tgt', v, e), app('rev', v, e)

    def residual(self, st, v, e):
        w = app('wgt', v, e)
        alt = self.back(v, e)
        ws = [w]
        # an arc reached as the reverse of another one
        if e[0] == 'app' and e[1] == 'rev' and v == app('tgt', e[2], e[3]):
            ws.append(app('wgt', e[2], e[3]))
        f = self.flow(st, v, e)
        return [sub(x, f) for x in ws]

    def deltas(self, st, depth):
        return [d for d in st.aux.get('d') or () if d[0] >= depth]

    # ---- events
    def on(self, e, st):
        m = getattr(self, 'on_' + e.kind.replace('-', '_').replace('.', '_'), None)
        if m:
            m(e, st)

    def on_pq_pop(self, e, st):
        self.pops += 1
        cnt = st.aux.get('counted') or ()
        for v in st.aux.get('fillcount') or ():
            if v in cnt or any(st.facts.implies(EQ(v, x)) for x in cnt):
                self.ok('level counts', e)
            else:
                self.fail('level counts', e, 'the level all vertices start on is not counted with all of them', 'start')
        if st.loops:
            self.mainloop = st.loops[0][0]
        st.aux['main'] = True
        st.aux['cur'] = e.args[0]

    def on_flowid(self, e, st):
        t = [p for p in self.f['params'] if p['t'].replace('const ', '').lstrip('&') == 'u64']
        x = e.args[0] if e.args else None
        if x is not None and any(('arg:' + p['n']) in show(x) for p in t) and x[0] in ('s', 'ld'):
            self.ok('flow of this run', e)
        else:
            self.fail('flow of this run', e, 'flow values are read or written under another number than that of this run', 'id')

    def on_pq_insert(self, e, st):
        self.note(e, st, 'ins', e.args[0], None, None)

    def note(self, e, st, kind, at, new, old):
        st.aux['d'] = frozenset(st.aux.get('d') or ()) | {(len(st.loops), next(_seq), kind, at, new, old, e.line)}

    def on_loop_enter(self, e, st):
        pass

    def on_loop_exit(self, e, st):
        d = st.aux.get('d') or ()
        k = len(st.loops)
        st.aux['d'] = frozenset((min(x[0], k),) + x[1:] for x in d)
        n = id(e.node)
        if n == self.mainloop:
            st.aux['main'] = 'done'
            st.aux['cur'] = None
            if not self.raised_now(st, st.facts) and not any(a[0] == 'ne0' and a[1][0] == 's' and str(a[1][1]).startswith('empty') or a[0] == 'eq0' and a[1][0] == 's' and str(a[1][1]).startswith('size') for a in st.facts.atoms):
                self.fail('result', e, 'the routine may stop while vertices are queued', 'stop')
        if self.seedloops.get(n):
            st.aux['seeded'] = True
        if self.clearloops.get(n):
            st.aux['tclean'] = True
        if str(self.touchloops.get(n, '')).endswith('-outer'):
            if self.touchloops[n] != 'result-outer':
                st.aux['tclean'] = None
                st.aux['seeded'] = None
                st.aux['sinkside'] = True
        if n in self.raises:
            self.raised_loop(e, st, self.raises[n])
        if self.touchloops.get(n) == 'labels-outer':
            st.aux['needsearch'] = None
        if self.act.get(n):
            st.aux['allactive'] = True
        if (n, 'D') in self.folds and self.folds[(n, 'D')][0]:
            st.aux['open'] = frozenset(x for x in st.aux.get('open') or () if x not in self.folds[(n, 'D')][1])

    def on_fill(self, e, st):
        f, ix = self.field(e.obj)
        if f is not None:
            self.this = e.obj[0]
            st.aux['reset'] = frozenset(st.aux.get('reset') or ()) | {(f, num(e.args[0]))}
            if f == self.D:
                self.level_fill(e, st)
            self.active()
            if f == self.X:
                self.sizes(e, st)
            if f == self.T and num(e.args[0]) == ZERO:
                st.aux['tclean'] = True

    def level_fill(self, e, st):
        """labels all set to one value: that level must be counted full"""
        st.aux['fillcount'] = frozenset([num(e.args[0])])

    def on_vec_clear(self, e, st):
        f, ix = self.field(e.obj)
        if f == '#flow' and not ix:
            st.aux['reset'] = frozenset(st.aux.get('reset') or ()) | {('#flow', ZERO)}
            self.flowroots = (((e.obj[0]), tuple(e.obj[1])),)
            self.flowroots = ((e.obj[0], tuple(e.obj[1])),)

    def on_vec_push(self, e, st):
        f, ix = self.field(e.obj)
        root = e.obj[0] if e.obj else None
        if f is None and e.obj is not None and not e.obj[1]:
            self.note(e, st, 'push', (root, num(e.args[0]) if e.args and e.args[0] is not None else None), None, None)

    def on_enter(self, e, st):
        if e.name and e.name.split('::')[0].split('<')[0] in ('maxNodeHeap', 'bucket_pq') and e.name.endswith(('::reset', '::clear')):
            st.aux['qreset'] = True

    def on_write(self, e, st):
        f, ix = self.field(e.obj)
        if f is None or len(e.args) < 2 or e.args[0] is None:
            return
        new = e.args[0]
        old = e.args[1]
        F = e.facts
        if f != '#flow' and ix:
            self.this = e.obj[0]
        if f == '#flow' and len(ix) == 2:
            self.flow_write(e, st, ix, num(new), num(old))
        elif f == self.X and len(ix) == 1:
            self.note(e, st, 'X', ix[0], num(new), num(old))
        elif f == self.D and len(ix) == 1:
            self.label_write(e, st, ix[0], num(new), num(old))
        elif f == self.N and len(ix) == 1:
            self.count_write(e, st, ix[0], num(new), num(old))
        elif f in self.B and len(ix) == 1:
            self.note(e, st, 'B:' + f, ix[0], new, old)
        elif not ix and new in (TRUE, FALSE):
            self.flag_write(e, st, f, new)

    def flag_write(self, e, st, f, new):
        if new == FALSE:
            st.aux['cleared'] = frozenset(st.aux.get('cleared') or ()) | {f}
            return
        F = e.facts
        # raised only when the excess of the sink reaches the limit
        good = False
        for a in F.atoms:
            if a[0] != 'ge0':
                continue
            cst, p = parts(a[1])
            for s, k in p.items():
                if k > 0 and s[0] == 'ld':
                    fn, ix = self.field(s[1])
                    if fn == self.X and len(ix) == 1:
                        pass
        for x in self.candidates(F):
            v = self.rd(st, self.X, x)
            for lim in self.limits(st):
                if F.implies(GE(v, lim)) and self.is_sink(st, x, F):
                    good = True
        if good:
            self.ok('early end', e)
        else:
            self.fail('early end', e, 'the flow is cut short without the excess of the sink having reached the limit', 'raise')
        self.raised.setdefault(f, e)
        st.aux['raised'] = frozenset(st.aux.get('raised') or ()) | {f}

    def candidates(self, F):
        out = set()
        for a in F.atoms:
            for s in subterms(a):
                if s[0] == 'ld':
                    fn, ix = self.field(s[1])
                    if fn in (self.X, self.D) and len(ix) == 1:
                        out.add(ix[0])
                if s[0] == 'app' and s[1] == 'tgt':
                    out.add(s)
                if s[0] == 'ld' and self.source_index(s) is not None:
                    out.add(s)
        return out

    def limits(self, st):
        out = []
        i = [p for p in self.f['params'] if p['t'].replace('const ', '').lstrip('&') == 'i64']
        for p in i:
            for a in list(st.facts.atoms):
                for s in subterms(a):
                    if s[0] in ('s', 'ld') and ('arg:' + p['n']) in str(s):
                        out.append(s)
        return out

    def is_sink(self, st, x, F):
        """x is an entry of the terminal list other than the source"""
        xs = [x] + [s for a in F.atoms if a[0] == 'eq0' for s in subterms(a[1]) if s != x and F.implies(EQ(s, x), depth=1)]
        for y in xs:
            i = self.source_index(y)
            if i is not None and (F.implies(NE(i, self.src)) or i[0] == 'c' and F.implies(NE(self.src, i))):
                return True
        return False

    def not_src(self, t, F):
        i = self.source_index(t)
        if i is not None and F.implies(NE(i, self.src)):
            return True
        s = [x for a in F.atoms for x in subterms(a) if x[0] == 'ld' and self.source_index(x) == self.src]
        return any(F.implies(NE(t, x)) for x in s)

    # ---- flow
    def flow_write(self, e, st, ix, new, old):
        F = e.facts
        self.note(e, st, 'F', ix, new, old)
        if not st.aux.get('main') and not st.aux.get('started'):
            st.aux['started'] = True
            self.at_start(e, st)
        d = sub(new, old)
        n, ed = ix
        # an arc (n, ed) gains d: the direction of a push is the one bounded by residual and excess
        other = None
        for x in self.deltas(st, len(st.loops)):
            if x[2] == 'F' and x[3] != ix and (x[3] == self.back(n, ed) or ix == self.back(*x[3])):
                other = x
        if other is not None:
            dn = sub(other[4], other[5])
            if d == mul(C(-1), dn) or F.implies(EQ(add(d, dn), ZERO)):
                self.ok('antisymmetry', e)
            else:
                self.fail('antisymmetry', e, 'the reverse arc does not change by the opposite amount', 'amount')
            return

    def at_start(self, e, st):
        r = st.aux.get('reset') or ()
        names = {f for f, v in r if v == ZERO or v == FALSE}
        for f, what in ((self.X, 'excess'), (self.D, 'labels'), (self.N, 'level counts')):
            if f in names:
                self.ok('fresh start', e)
            else:
                self.fail('fresh start', e, 'the %s of the last run are still there when the first flow is sent' % what, 'reset:' + what)
        if self.flowroots[0][0] != FLOW:
            if '#flow' in names:
                self.ok('fresh start', e)
            else:
                self.fail('fresh start', e, 'the flow of the last run is still there when the first flow is sent', 'reset:flow')
        if self.Q is not None:
            if st.aux.get('qreset'):
                self.ok('fresh start', e)
            else:
                self.fail('fresh start', e, 'the queue of the last run is not emptied', 'reset:queue')
        A = self.active()[0]
        if A in names:
            self.ok('fresh start', e)
        else:
            self.fail('fresh start', e, 'vertices may still be marked queued from the last run', 'reset:active')
        self.start_cleared &= st.aux.get('cleared') or frozenset()
        self.start_event = e

    def sizes(self, e, st):
        A = self.active()[0]
        n = app('numnodes')
        F = st.facts
        sz = {}
        for f in (self.X, self.D, self.N, A, self.T):
            t = num(self.I.read(st, (self.this, (('f', f), ('f', '#size')))))
            need = mul(C(2), n) if f == self.N else n
            sz[f] = (t, F.implies(GE(t, need)), t[0] == 'ld')
        if all(g for t, g, u in sz.values()) or any(g for t, g, u in sz.values()) and all(u for t, g, u in sz.values()):
            self.ok('records large enough', e)
        else:
            self.fail('records large enough', e, 'a record of the vertices may be shorter than the graph has vertices', 'size')

    # ---- labels
    def label_write(self, e, st, v, new, old):
        F = e.facts
        n = app('numnodes')
        self.note(e, st, 'D', v, new, old)
        main = st.aux.get('main')
        cur = st.aux.get('cur')
        if self.is_src(v, F) and not (cur is not None and v == cur):
            if new == n or F.implies(EQ(new, n)):
                self.ok('labels', e)
            else:
                self.fail('labels', e, 'the label of the source is not the number of vertices', 'source')
            return
        if new == ZERO:
            if self.source_index(v) is not None and self.not_src(v, F):
                self.ok('labels', e)
            else:
                self.fail('labels', e, 'a vertex that is not known to be a sink gets label 0', 'zero')
            return
        if new == old or F.implies(EQ(new, old)):
            return
        # raise of everything to the number of vertices
        if new == app('max', old, n) or new == app('max', n, old) or new == n and F.implies(GE(n, old)):
            self.raise_(e, st, v, old)
            return
        # relabel: from a value no label exceeds, then down to the residual minimum
        if cur is not None and same(v, cur, F):
            if new == mul(C(2), n) or F.implies(GE(new, mul(C(2), n))):
                st.aux['open'] = frozenset(st.aux.get('open') or ()) | {v}
                self.ok('labels', e)
                return
            for (key, what) in list(self.folds.items()):
                if new in self.I.loopvars and key == (self.I.loopvars[new][2], self.I.loopvars[new][0]):
                    entry = self.I.loopvars[new][1]
                    if what[0] and v in what[1] and (entry == mul(C(2), n) or F.implies(GE(entry, mul(C(2), n)))):
                        self.ok('labels', e)
                        return
                    self.fail('labels', e, 'the new label is not the minimum over all residual arcs of the vertex', 'fold')
                    return
            if self.step(st, v, new, F):
                self.ok('labels', e)
                return
            self.fail('labels', e, 'a relabelled vertex gets another label than one more than that of a residual neighbour', 'relabel')
            return
        # search backwards from the sinks
        for y, ed in self.arcs(F, (v, new)):
            if same(app('tgt', y, ed), v, F):
                ly = self.rd(st, self.D, y)
                if new == add(ly, ONE) or F.implies(EQ(new, add(ly, ONE))):
                    if not self.is_front(y):
                        self.fail('labels', e, 'the search does not take the vertices in the order they were found', 'order')
                        return
                    b = self.back(y, ed)
                    if not main or any(F.implies(GT(r, ZERO)) for r in self.residual(st, *b)):
                        self.ok('labels', e)
                        st.aux['searched'] = True
                    else:
                        self.fail('labels', e, 'the search labels a vertex over an arc without residual capacity towards the sinks', 'search')
                    return
        self.fail('labels', e, 'a label is set that no rule of the algorithm gives', 'other')

    @staticmethod
    def is_front(y):
        return y[0] == 'ld' and len(y[1][1]) == 1 and y[1][1][0][0] == 'i' and num(y[1][1][0][1]) == ZERO

    def raise_(self, e, st, v, old):
        """either every vertex (before a search), or the vertices above a level that has just become empty"""
        F = e.facts
        if not st.loops or not self.every_vertex(v, F):
            self.fail('labels', e, 'a single vertex is raised out of reach', 'raise')
            return
        gap = self.gap_level(st, F)
        self.raises.setdefault(st.loops[-1][0], [True, []])[1].append((e, gap is not None and F.implies(GT(app('numnodes'), gap)), gap is not None and F.implies(GE(old, gap))))

    def raised_loop(self, e, st, r):
        if r[0]:
            # every vertex: the labels below come from the search that follows
            st.aux['needsearch'] = True
            for x, gap, above in r[1]:
                self.ok('labels', x)
            return
        for x, gap, above in r[1]:
            if not gap:
                self.fail('labels', x, 'vertices are raised out of reach although their level is not known to be empty otherwise', 'gap')
            elif not above:
                self.fail('labels', x, 'a vertex below the empty level is raised out of reach', 'gap-low')
            else:
                self.ok('labels', x)

    def gap_level(self, st, F):
        """the label of the vertex just discharged, if that level holds this vertex alone and is below the number of vertices"""
        cur = st.aux.get('cur')
        if cur is None:
            return None
        for a in F.atoms:
            if a[0] != 'eq0':
                continue
            for s in subterms(a[1]):
                if s[0] == 'ld':
                    fn, ix = self.field(s[1])
                    if fn == self.N and len(ix) == 1 and F.implies(EQ(s, ONE)):
                        return ix[0]
        return None

    def step(self, st, v, new, F):
        for a, ed in self.arcs(F, (new,)):
            if a == v or same(a, v, F):
                lt = self.rd(st, self.D, app('tgt', a, ed))
                if (new == add(lt, ONE) or F.implies(EQ(new, add(lt, ONE)))) and any(F.implies(GT(r, ZERO)) for r in self.residual(st, a, ed)):
                    return True
        return False

    # ---- counts
    def count_write(self, e, st, i, new, old):
        F = e.facts
        d = sub(new, old)
        n = app('numnodes')
        if d == C(-1):
            self.note(e, st, 'N-', i, new, old)
        elif d == ONE:
            self.note(e, st, 'N+', i, new, old)
            for v in {x[3] for x in st.aux.get('d') or () if x[2] == 'D'} | {st.aux.get('cur')} - {None}:
                l = self.rd(st, self.D, v)
                if l == i or F.implies(EQ(l, i)):
                    self.note(e, st, 'NV', v, new, old)
        elif new == sub(n, ONE):
            st.aux['counted'] = frozenset(st.aux.get('counted') or ()) | {i}
            self.ok('level counts', e)
        elif new[0] == 'c' and new != ZERO:
            self.ok('level counts', e)
        elif new == ZERO:
            fl = {v for f, v in st.aux.get('reset') or () if f == self.D}
            cur = st.aux.get('fillcount') or frozenset()
            if any(F.implies(NE(i, v)) or parts(sub(i, v))[0] != 0 and not parts(sub(i, v))[1] or self.differ(i, v) for v in cur):
                self.ok('level counts', e)
            else:
                self.fail('level counts', e, 'a level that holds vertices is counted empty', 'zero')
        else:
            self.ok('level counts', e)

    @staticmethod
    def differ(i, v):
        c, p = parts(sub(v, i))
        return c > 0 and all(k > 0 for k in p.values())

    # ---- end of an iteration
    def on_loop_next(self, e, st):
        depth = len(st.loops)
        F = st.facts
        D = sorted(self.deltas(st, depth), key=lambda x: x[1])
        if any(x[2] in ('F', 'X') for x in D):
            self.conserve(e, st, D)
        if any(x[2] in ('D', 'N-', 'N+') for x in D):
            self.levels(e, st, D)
        self.activation(e, st, D)
        self.foldcheck(e, st)
        self.saturation(e, st, D)
        self.seeds(e, st, D)
        if id(e.node) in self.raises:
            v = self.nodevar(F, e)
            if v is not None:
                l, n = self.rd(st, self.D, v), app('numnodes')
                if not (F.implies(GE(l, n)) or l[0] == 'app' and l[1] == 'max' and n in l[2:]):
                    self.raises[id(e.node)][0] = False
        self.search(e, st, D)
        self.sumcheck(e, st)

    def conserve(self, e, st, D):
        F = st.facts
        fl, ex = {}, {}
        for x in D:
            if x[2] == 'F':
                fl[x[3]] = add(fl.get(x[3], ZERO), sub(x[4], x[5]))
            elif x[2] == 'X':
                ex[x[3]] = add(ex.get(x[3], ZERO), sub(x[4], x[5]))
        want, done = {}, set()
        for (n, ed), d in fl.items():
            if (n, ed) in done:
                continue
            b = self.back(n, ed)
            if b not in fl:
                cand = [k for k in fl if self.back(*k) == (n, ed)]
                if cand:
                    continue
                self.fail('antisymmetry', e, 'flow is added to an arc without taking it from the reverse arc', 'missing')
                return
            if not (add(d, fl[b]) == ZERO or F.implies(EQ(add(d, fl[b]), ZERO))):
                self.fail('antisymmetry', e, 'the reverse arc does not change by the opposite amount', 'amount')
                return
            done |= {(n, ed), b}
            self.direction(e, st, D, n, ed, d, b)
            want[n] = sub(want.get(n, ZERO), d)
            t = app('tgt', n, ed)
            want[t] = add(want.get(t, ZERO), d)
        for v in set(want) | set(ex):
            r = sub(ex.get(v, ZERO), want.get(v, ZERO))
            if r == ZERO or F.implies(EQ(r, ZERO)):
                continue
            if self.is_src(v, F) and not st.aux.get('main'):
                arcs = [(n, ed) for n, ed in self.arcs(F, list(ex.values())) if n == v]
                if any(r == app('wgt', n, ed) or F.implies(EQ(r, app('wgt', n, ed))) for n, ed in arcs):
                    continue
            self.fail('conservation', e, 'the excess of a vertex does not change by the flow that enters or leaves it', 'balance')
            return
        self.ok('conservation', e)
        # arcs out of the source are saturated
        if not st.aux.get('main'):
            pass

    def direction(self, e, st, D, n, ed, d, b):
        """one of the two arcs carried a push its tail could afford"""
        F = st.facts

        def bound(x, d, F):
            return x == d or F.implies(GE(x, d)) or d[0] == 'app' and d[1] == 'min' and x in d[2:]

        def before(kind, at, now):
            for x in D:
                if x[2] == kind and x[3] == at:
                    return x[5]
            return now

        def problems(n, ed, d):
            t = app('tgt', n, ed)
            old = before('F', (n, ed), self.flow(st, n, ed))
            if not any(bound(sub(w, old), d, F) for w in self.weights(n, ed)):
                yield 'residual capacity', 'more flow is sent over an arc than its residual capacity', 'cap'
            # the excess just before the push, after what was put into the source
            xs = [add(x[4], d) for x in D if x[2] == 'X' and x[3] == n and (sub(x[5], x[4]) == d or F.implies(EQ(sub(x[5], x[4]), d)))] + \
                 [before('X', n, self.rd(st, self.X, n))]
            if not any(bound(x, d, F) for x in xs):
                yield 'excess bound', 'more flow leaves a vertex than its excess', 'excess'
            lv, lt = before('D', n, self.rd(st, self.D, n)), before('D', t, self.rd(st, self.D, t))
            if not (F.implies(GT(lv, lt)) or self.is_src(n, F) and F.implies(GT(app('numnodes'), lt))):
                yield 'downhill', 'flow is pushed to a vertex whose label is not smaller', 'label'
        r1 = list(problems(n, ed, d))
        r2 = list(problems(b[0], b[1], mul(C(-1), d))) if r1 else []
        if r1 and r2:
            for rule, what, tag in min(r1, r2, key=len):
                self.fail(rule, e, what, tag)
        else:
            for rule in ('residual capacity', 'excess bound', 'downhill'):
                self.ok(rule, e)

    def weights(self, v, e):
        r = [app('wgt', v, e)]
        if e[0] == 'app' and e[1] == 'rev' and v == app('tgt', e[2], e[3]):
            r.append(app('wgt', e[2], e[3]))
        return r

    def levels(self, e, st, D):
        F = st.facts
        n = app('numnodes')
        lab = {}
        for x in D:
            if x[2] == 'D':
                if x[3] in lab:
                    lab[x[3]] = (lab[x[3]][0], x[4])
                else:
                    lab[x[3]] = (x[5], x[4])
        minus = [x for x in D if x[2] == 'N-']
        plus = [x for x in D if x[2] == 'N+']
        cur = st.aux.get('cur')
        for x in minus:
            if any(x[3] == o or F.implies(EQ(x[3], o)) for o, w in lab.values()):
                self.ok('level counts', e)
                continue
            self.fail('level counts', e, 'a level is counted down although no vertex leaves it', 'down')
            return
        for v, (o, w) in lab.items():
            if w == o or F.implies(EQ(w, o)) or F.implies(GE(w, n)) and w != mul(C(2), n):
                continue
            at = max(x[1] for x in D if x[2] == 'D' and x[3] == v)
            if any(x[2] == 'NV' and x[3] == v and x[1] > at for x in D):
                self.ok('level counts', e)
                continue
            # the final value, after a minimum was folded in
            now = self.rd(st, self.D, v)
            if F.implies(GE(now, n)):
                continue
            if any(x[3] == w or x[3] == now or F.implies(EQ(x[3], w)) or F.implies(EQ(x[3], now)) for x in plus):
                self.ok('level counts', e)
                continue
            if v in (st.aux.get('open') or ()):
                continue
            if now in (app('max', o, n), app('max', n, o)):
                continue
            self.fail('level counts', e, 'a vertex moves to a level that is not counted up', 'up')
            return

    def flagged(self, st, v, F):
        """queued"""
        return any(self.I.read(st, (self.this, (('f', f), ('i', v)))) == TRUE or F.implies(ne0(num(self.I.read(st, (self.this, (('f', f), ('i', v)))))))
                   for f in self.active()) if self.this is not None else False

    def active(self):
        if self.A is None:
            # the flag written together with queue operations
            for f in self.meths:
                names = [x['n'] for x in walk(f['b']) if x['k'] == 'mem' and x['n'] in self.B]
                if any(x['k'] == 'call' and x.get('n') in ('insert',) and x.get('obj') is not None and x['obj'].get('n') == self.Q for x in walk(f['b'])) and len(set(names)) == 1:
                    self.A = names[0]
            if self.A is None:
                raise AnalysisBroken('P19: no record of queued vertices recognised')
            self.T = [b for b in self.B if b != self.A][0]
        return (self.A,)

    def activation(self, e, st, D):
        F = st.facts
        if not any(x[2] in ('X', 'ins') or x[2].startswith('B:') for x in D) and st.aux.get('cur') is None:
            return
        A = self.active()[0]
        ins = {x[3]: x for x in D if x[2] == 'ins'}
        setA = {x[3]: x for x in D if x[2] == 'B:' + A and x[4] == TRUE}
        for v, x in ins.items():
            if v in setA and not (setA[v][5] == TRUE or F.implies(ne0(num(setA[v][5])))):
                # must have been inactive
                o = num(setA[v][5])
                if o == FALSE or o == ZERO or F.implies(EQ(o, ZERO)):
                    self.ok('queued once', e)
                    continue
                self.fail('queued once', e, 'a vertex may be queued twice', 'twice')
                return
            else:
                self.fail('queued once', e, 'a vertex is queued without being marked queued', 'mark')
                return
        for v, x in setA.items():
            if v not in ins:
                if self.source_index(v) is not None and not st.aux.get('main'):
                    continue        # terminals never enter
                self.fail('queued once', e, 'a vertex is marked queued but does not enter the queue', 'enter')
                return
        # who gained excess
        for x in D:
            if x[2] != 'X':
                continue
            d = sub(x[4], x[5])
            v = x[3]
            if not self.gains(d, F, D, v):
                continue
            if v in ins or self.flagged(st, v, F) or self.no_excess(st, v, F) or self.is_src(v, F):
                self.ok('vertices with excess are queued', e)
            elif st.aux.get('raised'):
                self.ok('vertices with excess are queued', e)
            else:
                self.fail('vertices with excess are queued', e, 'a vertex that received flow is neither queued nor marked queued', 'gain')
                return
        cur = st.aux.get('cur')
        vs = self.nodevar(F, e)
        if cur is not None and vs is not None:
            # loop over all vertices that puts those with excess into the queue
            v = vs
            if any(x[2] == 'D' and x[3] == v for x in D) or ins:
                good = v in ins or self.flagged(st, v, F) or self.no_excess(st, v, F) or self.below_level(st, v, F)
                k = id(e.node)
                self.act[k] = self.act.get(k, True) and good
            else:
                k = id(e.node)
                if not self.below_level(st, v, F) and not any(x[2] in ('D', 'ins') for x in D) and k in self.act and not self.flagged(st, v, F) and not self.no_excess(st, v, F):
                    self.act[k] = False
        if cur is not None and len(st.loops) == 1:
            # the vertex just taken
            if cur in ins or self.flagged(st, cur, F) or self.no_excess(st, cur, F) or st.aux.get('allactive') or st.aux.get('raised') or self.raised_now(st, F):
                self.ok('vertices with excess are queued', e)
            else:
                self.fail('vertices with excess are queued', e, 'a vertex may leave the queue with excess left', 'rest')
            if st.aux.get('needsearch'):
                self.fail('labels', e, 'all vertices are raised out of reach, but no search from the sinks gives the others their labels', 'nosearch')
            if st.aux.get('open'):
                self.fail('labels', e, 'a relabelled vertex keeps a label that was not brought down to its residual neighbours', 'open')

    def raised_now(self, st, F):
        for f in self.raiseflags():
            for root in ([self.this] if self.this else []):
                v = self.I.read(st, (root, (('f', f),)))
                if v == TRUE or F.implies(ne0(num(v))):
                    return True
        return False

    def raiseflags(self):
        return [x['n'] for x in self.P.records[self.f['cls']]['fields'] if x['t'] == 'bool']

    def gains(self, d, F, D, v):
        """not a loss: the amount moved is what an arc from elsewhere to v gained"""
        for x in D:
            if x[2] == 'F' and app('tgt', *x[3]) == v and sub(x[4], x[5]) == d:
                return True
        return False

    def no_excess(self, st, v, F):
        x = self.rd(st, self.X, v)
        return x == ZERO or F.implies(GE(ZERO, x))

    def below_level(self, st, v, F):
        g = self.gap_level(st, F)
        l = self.rd(st, self.D, v)
        if g is None:
            return False
        olds = {l} | {x[5] for x in st.aux.get('d') or () if x[2] == 'D' and x[3] == v}
        return any(F.implies(GT(g, o)) for o in olds)

    def every_vertex(self, v, F):
        """v takes the number of every vertex in turn"""
        if any(a[0] == 'app' and a[1] == 'in' and a[2] == v and a[3][:2] == ('range', 'nodes') for a in F.atoms):
            return True
        lv = self.I.loopvars.get(v)
        return lv is not None and lv[1] == ZERO and F.implies(GT(app('numnodes'), v))

    def nodevar(self, F, e):
        """the vertex a loop over all vertices is at"""
        if e.node.get('k') == 'for':
            for v, (key, init, nid) in self.I.loopvars.items():
                if nid == id(e.node) and v in {t for a in F.atoms for t in subterms(a)} and self.every_vertex(v, F) and any(x.get('id') == key[1] for x in walk(e.node.get('inc') or {}) if 'k' in x):
                    return v
        if e.node.get('k') != 'forrange':
            return None
        for a in F.atoms:
            if a[0] == 'app' and a[1] == 'in' and a[3][:2] == ('range', 'nodes') and self.loopvar(e, a[2]):
                return a[2]
        return None

    @staticmethod
    def loopvar(e, s):
        return s[0] == 's' and s[1] == e.node['var'].get('n')

    # ---- relabel minimum
    def foldcheck(self, e, st):
        F = st.facts
        cur = st.aux.get('cur')
        if cur is None or e.node.get('k') != 'forrange':
            return
        at = [a for a in F.atoms if a[0] == 'app' and a[1] == 'in' and a[3] == ('range', 'edges', cur) and self.loopvar(e, a[2])]
        if not at:
            return
        ed = at[0][2]
        lt = self.rd(st, self.D, app('tgt', cur, ed))
        dead = any(F.implies(GE(ZERO, r)) for r in self.residual(st, cur, ed))
        accs = [('D', self.rd(st, self.D, cur))]
        for s, key, entry in self.carried(e, st):
            accs.append((key, num(st.env[key])))
        if not self.whole(e, st):
            dead, lt = False, sub(lt, C(5))
        for name, val in accs:
            k = (id(e.node), name)
            good = dead or F.implies(GE(add(lt, ONE), val)) or val == add(lt, ONE)
            r = self.folds.setdefault(k, [True, set()])
            r[1].add(cur)
            if not good:
                r[0] = False

    def saturation(self, e, st, D):
        """before the first vertex is taken from the queue every arc of the source is filled"""
        F = st.facts
        if st.aux.get('main') or e.node.get('k') != 'forrange':
            return
        at = [a for a in F.atoms if a[0] == 'app' and a[1] == 'in' and a[3][:2] == ('range', 'edges') and self.loopvar(e, a[2]) and self.is_src(a[3][2], F)]
        if not at:
            return
        v, ed = at[0][3][2], at[0][2]
        now = self.flow(st, v, ed)
        w = app('wgt', v, ed)
        if now == w or F.implies(EQ(now, w)):
            self.ok('source saturated', e)
            return
        # paths that cannot be taken: no flow yet, no excess below zero, labels as filled
        G = F
        old = now
        for x in D:
            if x[2] == 'F' and x[3] == (v, ed):
                old = x[5]
                break
        G = G.add(EQ(old, ZERO)).add(GT(w, ZERO)).add(GT(app('numnodes'), ZERO))
        xs = self.rd(st, self.X, v)
        for x in D:
            if x[2] == 'X' and x[3] == v:
                xs = x[5]
                break
        G = G.add(GE(xs, ZERO))
        t = app('tgt', v, ed)
        fl = [val for f, val in st.aux.get('reset') or () if f == self.D]
        lt = {s for a in G.atoms for s in subterms(a) if s[0] == 'ld' and self.field(s[1]) == (self.D, (t,))}
        for s in lt:
            for val in fl[:1]:
                G = G.add(EQ(s, val))
        if G.implies(GE(now, w)) and G.implies(GE(w, now)) or G.contradictory() or any(a[0] == 'ge0' and Facts(G.atoms - {a}).implies(GE(C(-1), a[1])) for a in G.atoms):
            self.ok('source saturated', e)
        else:
            self.fail('source saturated', e, 'an arc out of the source is not filled at the start', 'sat')

    def whole(self, e, st):
        """the loop visits everything it runs over"""
        n = e.node
        if n['k'] == 'forrange':
            return not leaves(n['b'])
        if n['k'] not in ('for', 'while') or leaves(n['b']):
            return False
        c = strip(n['c']) if n.get('c') else None
        if c is None or c['k'] != 'bin' or c['op'] not in ('<', '!=', '>'):
            return False
        return any(entry == ZERO and sub(num(st.env[key]), s) == ONE for s, key, entry in self.carried(e, st))

    def seeds(self, e, st, D):
        F = st.facts
        if not self.whole(e, st):
            self.seedloops[id(e.node)] = self.clearloops[id(e.node)] = False
            return
        self.active()
        n = id(e.node)
        v = self.nodevar(F, e)
        if v is not None and self.this is not None:
            t = self.I.read(st, (self.this, (('f', self.T), ('i', v))))
            self.clearloops[n] = self.clearloops.get(n, True) and (t == FALSE or num(t) == ZERO)
        if e.node['k'] == 'forrange':
            el = {a[2] for a in F.atoms if a[0] == 'app' and a[1] == 'elem' and str(a[2][1]).startswith('#' + str(e.node['var'].get('n')))}
        else:
            el = {s for s, key, entry in self.carried(e, st)}
        ts = {t for a in F.atoms for t in subterms(a)} | {t for x in D for y in ((x[3],) if isinstance(x[3][0], str) else x[3]) if isinstance(y, tuple) for t in subterms(y)}
        if not any(t[0] == 'ld' and self.source_index(t) in el for t in ts):
            return
        push = [x for x in D if x[2] == 'push']
        mark = [x for x in D if x[2] == 'B:' + self.T and x[4] == TRUE]
        if not push and not mark and n not in self.seedloops:
            # left out: only the source
            self.seedloops.setdefault(('skip', n), []).append((e, self.left_out(F)))
            return
        if not push and not mark:
            good = self.left_out(F)
        else:
            good = bool(push) and bool(mark) and all(self.source_index(x[3][1]) is not None and self.not_src(x[3][1], F) for x in push if x[3][1] is not None)
            for x, g in self.seedloops.get(('skip', n), ()):
                good = good and g
        self.seedloops[n] = self.seedloops.get(n, True) and good

    def left_out(self, F):
        cands = {t for a in F.atoms for t in subterms(a) if t[0] == 'ld' and self.source_index(t) is not None}
        return any(self.is_src(u, F) and self.source_index(t) != self.src and F.implies(EQ(t, u)) for t in cands for u in cands if self.src_term(u) and u != t)

    # ---- searches
    def search(self, e, st, D):
        """every step of a search looks at all arcs of the vertex taken from the front"""
        F = st.facts
        if e.node.get('k') != 'forrange':
            return
        at = [a for a in F.atoms if a[0] == 'app' and a[1] == 'in' and a[3][:2] == ('range', 'edges') and self.loopvar(e, a[2])]
        if not at:
            return
        y, ed = at[0][3][2], at[0][2]
        if not self.is_front(y):
            return
        self.active()
        x = app('tgt', y, ed)
        t = self.I.read(st, (self.this, (('f', self.T), ('i', x)))) if self.this else None
        touched = t is not None and (t == TRUE or F.implies(ne0(num(t))))
        pushed = [d for d in D if d[2] == 'push' and d[3][1] == x]
        marked = [d for d in D if d[2] == 'B:' + self.T and d[3] == x and d[4] == TRUE]
        lab = [d for d in D if d[2] == 'D' and d[3] == x]
        b = self.back(y, ed)
        dead = any(F.implies(GE(ZERO, r)) for r in self.residual(st, *b))
        live = any(F.implies(GT(r, ZERO)) for r in self.residual(st, *b))
        q = {r[3][0] for r in D if r[2] == 'push'}
        if lab:
            self.touchloops[id(e.node)] = 'labels'
            if len(st.loops) > 1:
                self.touchloops[st.loops[-2][0]] = 'labels-outer'
        if len(st.loops) > 1 and marked and len(q) > 1:
            self.touchloops[st.loops[-2][0]] = 'result-outer'
            if not st.aux.get('sinkside'):
                self.fail('search', e, 'the source side is collected before the sink side is known', 'order')
                return
            sd = [x for x in st.aux.get('d') or () if x[0] < len(st.loops) - 1 and x[2] == 'push' and x[3][1] is not None and self.is_src(x[3][1], F)]
            if len({x[3][0] for x in sd}) < 2:
                self.fail('search', e, 'the source itself does not belong to the source side', 'seed')
                return
        elif len(st.loops) > 1 and (marked or lab):
            self.touchloops.setdefault(st.loops[-2][0], 'sink-outer')
            if not st.aux.get('tclean'):
                self.fail('search', e, 'marks of an earlier search are still there', 'clean')
                return
            if not st.aux.get('seeded'):
                self.fail('search', e, 'the search does not start from all sinks', 'seed')
                return
            if lab and not self.not_src(x, F) and not any(d[2] == 'B:' + self.T and d[4] == TRUE and self.is_src(d[3], F) for d in st.aux.get('d') or ()):
                self.fail('labels', e, 'the search may give the source a label', 'search-source')
                return
        if marked:
            o = num(marked[0][5])
            fresh_ = o == ZERO or F.implies(EQ(o, ZERO))
            if not fresh_:
                self.fail('search', e, 'a vertex is reached a second time', 'again')
                return
            if not pushed and not (lab and self.depth_limited(st, lab[-1][4], F)):
                self.fail('search', e, 'a vertex that was reached is not searched from', 'push')
                return
            if len(q) == 1 and not lab and not live:
                self.fail('search', e, 'the search crosses an arc without residual capacity', 'residual')
                return
            self.ok('search', e)
            return
        if pushed or lab:
            self.fail('search', e, 'a vertex is reached without being marked', 'mark')
            return
        if leaves(e.node['b']):
            self.fail('search', e, 'the search does not look at all arcs of a vertex', 'break')
            return
        if touched:
            self.ok('search', e)
            return
        if dead and st.aux.get('main'):
            self.ok('search', e)
            return
        self.fail('search', e, 'the search passes over an arc that leads to a vertex not reached before', 'skip')

    def depth_limited(self, st, label, F):
        fl = {v for v in st.aux.get('fillcount') or ()}
        return any(F.implies(GE(add(label, ONE), v)) for v in fl) and not st.aux.get('cur')

    def carried(self, e, st):
        """locals this run of the loop carries: (symbol at the start of the iteration, local, value at entry)"""
        last = {}
        for s, (key, entry, loop) in self.I.loopvars.items():
            if loop == id(e.node) and key in st.env:
                last[key] = (s, key, entry)
        return last.values()

    # ---- result
    def sumcheck(self, e, st):
        F = st.facts
        if not self.whole(e, st):
            for s, key, entry in self.carried(e, st):
                self.sums.setdefault(s, [True, entry])[0] = False
            return
        for s, key, entry in self.carried(e, st):
            v = num(st.env[key])
            d = sub(v, s)
            cands = [t for a in F.atoms for t in subterms(a) if t[0] == 'ld' and self.source_index(t) is not None]
            r = self.sums.setdefault(s, [True, entry])
            if d == ZERO:
                # left out: only the source
                if not any(self.source_index(t) is not None and any(self.is_src(u, F) and F.implies(EQ(t, u)) for u in cands if u != t) for t in cands):
                    r[0] = False
            else:
                good = False
                if d[0] == 'ld':
                    fn, ix = self.field(d[1])
                    if fn == self.X and len(ix) == 1 and self.source_index(ix[0]) is not None and self.not_src(ix[0], F):
                        good = True
                if not good:
                    r[0] = False

    def on_return(self, e, st):
        if e.fn is not self.f or len(e.stack) != 1 or not e.args or e.args[0] is None:
            return
        v = e.args[0]
        F = st.facts
        self.rets += 1
        d = dict(v[2]) if v[0] == 'obj' else {}
        val = d.get('first')
        if val is None:
            self.fail('result', e, 'the value returned is not understood', 'shape')
            return
        val = num(val)
        if not st.aux.get('started') and not st.aux.get('cur') and val[0] == 'c':
            # refused input
            self.ok('result', e)
            return
        if val in self.sums:
            r = self.sums[val]
            if r[0] and r[1] == ZERO:
                self.ok('result', e)
            else:
                self.fail('result', e, 'the value returned is not the sum of what arrived at the sinks', 'sum')
            return
        if val in self.limits(st) or 'limit' in str(val) and val[0] in ('s', 'ld'):
            if self.raised_now(st, F):
                self.ok('result', e)
            else:
                self.fail('result', e, 'the limit is returned although it was not reached', 'limit')
            return
        self.fail('result', e, 'the value returned is neither the flow into the sinks nor the limit that was reached', 'value')


def leaves(n, top=True):
    """a break or return that ends this loop"""
    if isinstance(n, list):
        return any(leaves(x, top) for x in n)
    if not isinstance(n, dict):
        return False
    k = n.get('k')
    if k == 'return':
        return True
    if k == 'break':
        return top
    if k == 'lambda':
        return False
    inner = top and k not in ('for', 'while', 'do', 'forrange', 'switch')
    return any(leaves(x, inner) for key, x in n.items() if isinstance(x, (dict, list)))


class _C:
    def __init__(self):
        self.n = 0

    def __next__(self):
        self.n += 1
        return self.n


_seq = _C()


def entries(P):
    out = []
    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        if f.get('b') is None or not f.get('cls') or not f['ret'].startswith('std::pair<'):
            continue
        if not any(x['k'] == 'call' and x.get('n') == 'deleteMax' for x in walk(f['b'])):
            # the queue may be emptied in a helper
            pass
        R = P.records.get(f['cls'])
        if R is None or not any(x['t'] == 'std::vector<std::vector<long>>' for x in R['fields']):
            continue
        out.append(f)
    return out


def run(P, c, tier):
    PQ = pq_classes(P)
    fs = entries(P)
    if not fs:
        raise AnalysisBroken('P19: flow routine not found')
    seen = set()
    for f in fs:
        k = (f['key'].split('@F@')[0], tuple(sorted(f['variants'])))
        if f['key'].split('@F@')[0] in seen:
            continue
        seen.add(f['key'].split('@F@')[0])
        c.saw(f)
        variant = sorted(f['variants'])[-1]
        S = Flow(P, c, f, variant, PQ)
        if not S.pops or not S.rets:
            raise AnalysisBroken('P19: no vertex taken from the queue or no result in ' + f['q'])
        S.finish()
    stores(P, c)
    numbers(P, c)
    for r, n in (('flow of one run', 3), ('number of a run is new', 3), ('antisymmetry', 1), ('residual capacity', 1), ('excess bound', 1), ('downhill', 1), ('conservation', 2), ('labels', 6), ('level counts', 6), ('queued once', 2),
                 ('vertices with excess are queued', 3), ('search', 3), ('result', 2), ('fresh start', 1)):
        c.floor(r, n)


def stores(P, c):
    """flow kept in the graph belongs to one run: another number reads as no flow"""
    rule = 'flow of one run'
    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        if f.get('b') is None or f.get('cls') != 'mutable_graph' or f['n'] not in ('addEdgeFlow', 'getEdgeFlow', 'setEdgeFlow'):
            continue
        if f['n'] == 'getEdgeFlow' and len(f['params']) == 2:
            continue
        c.saw(f)
        I = Interp(P, sorted(f['variants'])[0])
        a = [('s', 'p%d' % i, 0) for i in range(len(f['params']))]
        ends = []

        def on(e, st):
            if e.kind == 'exit':
                ends.append((e, st.copy()))
        I.on_event = on
        R = P.records['RevEdge']
        fl = [x['n'] for x in R['fields'] if x['t'] == 'i64']
        idn = None
        for x in walk(f['b']):
            if x['k'] == 'mem' and x.get('rec', '').endswith('RevEdge') or x['k'] == 'mem' and x['n'] in {y['n'] for y in R['fields']}:
                if x['n'] not in fl and x['n'] in [y['n'] for y in R['fields'] if y['t'] == 'u64']:
                    idn = x['n']
        if len(fl) != 1:
            raise AnalysisBroken('P19: flow field of an edge not recognised')
        if idn is None:
            c.violation(rule, f, f['l'], 'the flow of another run is taken for that of this run', tag='noid')
            continue
        I.run(f, args=a)
        if not ends:
            raise AnalysisBroken('P19: no way out of ' + f['q'])
        for e, st in ends:
            base = [s for at in I.events for s in subterms(at.obj) if False]
            w = [ev.obj for ev in I.events if ev.obj is not None and ev.obj[1] and ev.obj[1][-1] in (('f', fl[0]), ('f', idn))]
            if not w:
                c.violation(rule, f, f['l'], 'the flow of another run is taken for that of this run', tag='nowrite')
                break
            root, steps = w[0][0], w[0][1][:-1]
            if [num(s[1]) for s in steps if s[0] == 'i'] != [a[0], a[1]]:
                c.violation(rule, f, f['l'], 'another edge than the one named is changed', tag='edge')
                break
            pf, pi = (root, steps + (('f', fl[0]),)), (root, steps + (('f', idn),))
            of, oi = ('ld', pf, 0), ('ld', pi, 0)
            nf, ni = num(I.read(st, pf)), num(I.read(st, pi))
            F = st.facts
            me = a[-1]
            o = [s for at in F.atoms for s in subterms(at) if s[0] == 'ld' and s[1] == pi] or [oi]
            same_ = F.implies(EQ(o[0], me))
            other = F.implies(NE(o[0], me))
            oldf = [ev.args[1] for ev in I.events if ev.kind == 'write' and ev.obj == pf and len(ev.args) > 1]
            old = num(oldf[0]) if oldf else of
            if f['n'] == 'setEdgeFlow':
                good = nf == a[2] and ni == me
            else:
                extra = a[2] if f['n'] == 'addEdgeFlow' else ZERO
                good = same_ and (nf == add(old, extra)) or other and nf == extra and ni == me
                if f['n'] == 'getEdgeFlow':
                    r = num(e.args[0]) if e.args and e.args[0] is not None else None
                    good = (same_ and r == nf and nf == old) or (other and r == ZERO and (nf == ZERO and ni == me or nf[0] == 'ld' and ni[0] == 'ld'))
            c.check(good, rule, f, f['l'], 'the flow of another run is taken for that of this run', tag='stale')


def numbers(P, c):
    """callers that name the run use a number they have not used before"""
    rule = 'number of a run is new'
    keys = {f['key'] for f in entries(P)}
    from ..cg import CallGraph
    G = CallGraph(P)
    STRUCT = ('block', 'if', 'for', 'while', 'do', 'forrange', 'switch', 'try', 'lambda', 'omp')

    def random(z):
        return any(y['k'] == 'call' and 'random' in y.get('q', '') for y in walk(z))

    def above(root, pred):
        """[(node, structural ancestors)] of the nodes selected by pred"""
        out = []

        def go(n, anc):
            if isinstance(n, list):
                for y in n:
                    go(y, anc)
                return
            if not isinstance(n, dict):
                return
            if 'k' in n:
                if pred(n):
                    out.append((n, anc))
                if n['k'] in STRUCT:
                    anc = anc + (id(n),)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    go(v, anc)
        go(root, ())
        return out

    def bump(y, n=None):
        if y['k'] == 'un' and y['op'].startswith('++'):
            t = strip(y['e'])
            return t is not None and t['k'] == 'mem' and n in (None, t['n'])
        if y['k'] == 'bin' and y['op'] in ('+=', '='):
            t = strip(y['a'])
            if t is None or t['k'] != 'mem' or n not in (None, t['n']):
                return False
            return y['op'] == '+=' or random(y['b']) or any(z['k'] == 'mem' and z['n'] == t['n'] for z in walk(y['b'])) and any(z['k'] == 'bin' and z['op'] == '+' for z in walk(y['b']))
        return False

    def bumps(g, y, n=None):
        """the call y in g of one of the repository's functions advances a number"""
        return any(h.get('b') is not None and any(bump(z, n) for z in walk(h['b'])) for h in G.targets(y, g))

    def fresh(g, e, at):
        """the value of e, at a place inside the structures `at`, is new in every run of the function"""
        if e is None:
            return False
        if random(e) or any(bump(y) for y in walk(e)):
            return True
        if any(y['k'] == 'call' and 'f' in y and bumps(g, y) for y in walk(e)):
            return True
        for z in walk(e):
            if z['k'] == 'mem':
                for y, anc in above(g['b'], lambda y: bump(y, z['n'])):
                    if not anc or anc[-1] in at:
                        return True
                for y, anc in above(g['b'], lambda y: y['k'] == 'call' and 'f' in y and bumps(g, y, z['n'])):
                    if not anc or anc[-1] in at:
                        return True
            if z['k'] == 'ref' and 'id' in z:
                for y, anc in above(g['b'], lambda y: y['k'] == 'var' and y.get('id') == z['id'] and y.get('init') is not None):
                    if fresh(g, y['init'], anc):
                        return True
        return False
    for k in sorted(keys):
        f = P.functions[k]
        pos = [i for i, p in enumerate(f['params']) if p['t'].replace('const ', '') == 'u64']
        if not pos:
            continue
        for g, x in G.sites.get(k, ()):
            if len(x.get('args', [])) <= pos[-1]:
                c.ok(rule, g.where(x.get('l')))
                continue
            e = strip(x['args'][pos[-1]])
            if e is None or e['k'] == 'default':
                c.ok(rule, g.where(x.get('l')))
                continue
            at = ()
            for y, anc in above(g['b'], lambda y: y is x):
                at = anc
            c.check(fresh(g, e, at), rule, g, x.get('l'), 'a second run on the same graph gets the number of an earlier one and finds its flow', tag='reuse')
