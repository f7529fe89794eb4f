"""The scan that finds contractible edges (CAPFOREST) keeps the invariants its merges rely on."""
from ..absint import Interp, Budget, fresh, mark_unsigned
from ..ast import int_const, strip
from ..cg import CallGraph
from ..gmodel import graph_prims, unfind, same
from ..program import walk, AnalysisBroken
from ..terms import *
from ..ctx import short
from .p02 import base_offset

RULE = ('Symbolic execution of every scan that merges vertices while it takes them from a priority queue: at every merge one of the two is the vertex just taken, the other one is '
        'unscanned and joined to it by an edge whose weight plus the attachment recorded so far reaches the bound; every write to the attachments adds that edge once to an unscanned vertex, '
        'every change is passed on to the queue in the same step (as the value itself or the bound), every vertex enters the queue once, and the records are private to one scan and one thread. '
        'Callers hand over a bound that excludes the cuts they want to keep.')
ASSUMPTIONS = ['the queue returns a vertex of greatest key (separate property)', 'edges_of enumerates every incident edge once']


def pq_classes(P):
    return {short(f['cls']) for f in P.functions.values() if f.get('cls') and f['n'] == 'deleteMax'}


def home(q):
    return short(q).rsplit('::', 1)[0] if '::' in q else ''


def make_prims(P, PQ):
    def pq(self, e, st, fr, ov, op, args):
        q, n = e['q'], e.get('n')
        g = self.P.lookup(e['f'], self.variant) if 'f' in e else None
        if home(q) in PQ and not e.get('oper'):
            where = op if op is not None else (self.deref(ov) if ov is not None and ov[0] == 'ptr' else None)
            if e.get('k') != 'call':
                return [(st, ('obj', 'queue', ()))]
            if e.get('obj') is None or e['obj'].get('k') == 'this':
                return None
            vals = [num(self.argval(st, a)) for a in args]
            if n == 'deleteMax':
                s = ('s', 'popped#%d' % next(_n), 0)
                mark_unsigned(s)
                st.aux['popped'] = s
                self.emit(st, fr, e, 'pq.pop', n, obj=where, args=[s])
                return [(st, s)]
            if n in ('insert', 'increaseKey', 'changeKey', 'decreaseKey'):
                self.emit(st, fr, e, 'pq.insert' if n == 'insert' else 'pq.key', n, obj=where, args=vals)
                return [(st, None)]
            if n == 'contains':
                return [(st, app('contains', ('ptr', where) if where else C(0), vals[0]))]
            r = fresh(n)
            mark_unsigned(r)
            return [(st, r)]
        if g is not None and g['ret'].rstrip(' *') in PQ and g['ret'].endswith('*'):
            return [(st, ('ptr', (('p', fresh('queue')), ())))]
        return None
    return [pq, graph_prims]


class _Counter:
    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return self.n


_n = _Counter()


class Scan:
    """one function, one configuration"""

    def __init__(self, P, c, f, variant, K, args, PQ):
        self.P, self.c, self.f, self.K = P, c, f, K
        self.I = Interp(P, variant, prims=make_prims(P, PQ), maxstates=200, budget=6000000)
        self.unions, self.boolw, self.bad = [], {}, []
        self.used = set()          # attachment arrays evidence relied on
        self.visit = []            # (merge, scanned-marks any of which it may rely on)
        self.fills = {}
        self.rwrites = []
        self.I.on_event = self.on
        try:
            self.I.run(f, args=args)
        except Budget:
            raise AnalysisBroken('P03: state budget exceeded in ' + f['q'])

    def edge(self, a, b, F, cur):
        """edge weight terms joining the vertex just taken and the other one"""
        for x, y in ((a, b), (b, a)):
            if x != cur:
                continue
            for e in {s for at in F.atoms for s in subterms(at) if s[0] == 'app' and s[1] in ('tgt', 'wgt')}:
                if e[2] == cur and same(app('tgt', cur, e[3]), y, F):
                    if any(at[0] == 'app' and at[1] == 'in' and at[2] == e[3] and at[3][:1] == ('range',) for at in F.atoms) or True:
                        yield y, e[3], app('wgt', cur, e[3])

    def unscanned(self, st, F, y, cur):
        """arrays in which y reads unscanned and the vertex just taken scanned"""
        out = set()
        for a in F.atoms:
            if a[0] == 'eq0' and a[1][0] == 'ld' and len(a[1][1][1]) == 1 and a[1][1][1][0][0] == 'i':
                root, steps = a[1][1]
                if not same(num(steps[0][1]), y, F):
                    continue
                if self.I.read(st, (root, tuple(steps))) != a[1]:
                    continue
                m = self.I.read(st, (root, (('i', cur),)))
                if m == TRUE or m[0] == 'c' and m[1] != 0:
                    out.add(root)
        return out

    def on(self, e, st):
        cur = st.aux.get('popped')
        F = e.facts
        if e.kind == 'loop-body':
            st.aux['rw'] = st.aux['keyed'] = frozenset()
        if e.kind == 'vec.ctor':
            self.fills.setdefault(e.line, e)
        if e.kind == 'union':
            a, b = [unfind(x) for x in e.args]
            self.unions.append(e)
            if cur is None or cur not in (a, b):
                self.bad.append((e, 'neither of the merged vertices is the one just taken from the queue', 'taken'))
                return
            for y, ed, w in self.edge(a, b, F, cur):
                V = self.unscanned(st, F, y, cur)
                for r in {s for at in F.atoms for s in subterms(at) if s[0] == 'ld' and len(s[1][1]) == 1 and s[1][1][0][0] == 'i'}:
                    if not same(num(r[1][1][0][1]), y, F):
                        continue
                    if F.implies(GE(add(r, w), self.K)):
                        if not V:
                            self.bad.append((e, 'the other vertex may have been scanned before: its recorded attachment does not refer to this edge', 'scanned'))
                            return
                        self.used.add(r[1][0])
                        self.visit.append((e, V))
                        return
                if F.implies(GE(w, self.K)):
                    return
            self.bad.append((e, 'attachment and edge weight are not shown to reach the bound here', 'bound'))
        elif e.kind == 'write' and e.obj is not None and len(e.obj[1]) == 1 and e.obj[1][0][0] == 'i' and e.args:
            v = e.args[0]
            root, i = e.obj[0], num(e.obj[1][0][1])
            if v in (TRUE, FALSE) or v[0] == 'c':
                self.boolw.setdefault(root, []).append((e, i, v, cur))
            else:
                V = self.unscanned(st, F, i, cur) if cur is not None else set()
                old = e.args[1] if len(e.args) > 1 else None
                self.rwrites.append((e, root, i, num(v), old, cur, V))
                rw = dict((x[0], x) for x in st.aux.get('rw') or ())
                first = rw.get((root, i))
                rw[(root, i)] = ((root, i), num(v), first[2] if first else old)
                st.aux['rw'] = frozenset(rw.values())
        elif e.kind in ('pq.insert', 'pq.key'):
            if cur is None:
                return
            st.aux['keyed'] = frozenset(x for x in st.aux.get('keyed') or () if x[0] != e.args[0]) | {(e.args[0], e.args[1] if len(e.args) > 1 else None)}
            V = self.unscanned(st, F, e.args[0], cur)
            if not V:
                self.bad.append((e, 'a vertex that may have been scanned enters the queue or changes its key', 'rescan'))
            elif e.kind == 'pq.key':
                present = any(a[0] == 'ne0' and a[1][0] == 'ld' and len(a[1][1][1]) == 1 and same(num(a[1][1][1][0][1]), e.args[0], F) for a in F.atoms) or \
                    any(a[0] in ('ne0', 'app') and (a[1] if a[0] == 'ne0' else a)[:2] == ('app', 'contains') and same(num((a[1] if a[0] == 'ne0' else a)[3]), e.args[0], F) for a in F.atoms)
                if not present:
                    self.bad.append((e, 'the key of a vertex is changed that may not be in the queue', 'absent'))
            else:
                absent = any(a[0] == 'eq0' and a[1][0] == 'ld' and len(a[1][1][1]) == 1 and same(num(a[1][1][1][0][1]), e.args[0], F) and a[1][1][0] not in V for a in F.atoms) or \
                    any(a[0] in ('eq0', 'not') and a[1][0] == 'app' and a[1][1] == 'contains' and same(num(a[1][3]), e.args[0], F) for a in F.atoms)
                if not absent:
                    self.bad.append((e, 'a vertex may enter the queue twice', 'twice'))
        elif e.kind == 'loop-next':
            for (root, i), v, old in st.aux.get('rw') or ():
                if not (i[0] == 'app' and i[1] == 'tgt'):
                    continue
                st.aux['rw'] = frozenset()
                self.pending = (root, i)
                K = self.K
                ks = [k for t, k in st.aux.get('keyed') or () if t == i or same(t, i, F)]
                good = any(k is not None and (k == v or F.implies(EQ(k, v)) or F.implies(GE(k, K)) and F.implies(GE(v, K)) or self.clip(k, v, F)) for k in ks)
                if not good and old is not None and F.implies(GE(num(old), K)) and not ks:
                    good = True
                if not good:
                    self.bad.append((e, 'the attachment of a vertex changes but its key in the queue is not set to it (or to the bound)', 'key', root))

    def clip(self, k, v, F):
        return k[0] == 'app' and k[1] == 'min' and v in k[2:] and any(x == v or F.implies(GE(x, self.K)) for x in k[2:])

    def finish(self):
        c = self.c
        for e in self.unions:
            c.ok('merge', '%s:%s' % (e.fn['file'], e.line))
        seen = set()
        for b in self.bad:
            e, what, tag = b[:3]
            if tag == 'key' and b[3] not in self.used:
                continue
            if tag in seen:
                continue
            seen.add(tag)
            c.violation('scan', e.fn, e.line, what, tag=tag)
        for e, root, i, v, old, cur, V in self.rwrites:
            if root not in self.used:
                continue
            good = False
            what = 'the attachment of a vertex grows by something else than the edge to the vertex just taken'
            if cur is not None:
                for s in {x for x in subterms(v)} | {x for a in e.facts.atoms for x in subterms(a)}:
                    if s[0] == 'app' and s[1] == 'wgt' and s[2] == cur and same(app('tgt', cur, s[3]), i, e.facts):
                        base = ('ld', (root, (('i', i),)))
                        olds = [x for x in ({y for y in subterms(v)} | {y for a in e.facts.atoms for y in subterms(a)}) if x[0] == 'ld' and x[1] == base[1]]
                        for o in olds:
                            if v == add(o, s) or e.facts.implies(EQ(add(o, s), v)) or e.facts.implies(GE(add(o, s), v)) and e.facts.implies(GE(v, self.K)) or \
                                    self.clip(v, add(o, s), e.facts):
                                good = True
                if good and not V:
                    good, what = False, 'the attachment of a vertex that may have been scanned is changed'
            if not good:
                c.violation('attachment', e.fn, e.line, what, tag='grow')
            else:
                c.ok('attachment', '%s:%s' % (e.fn['file'], e.line))
        done = set()
        for e, V in self.visit:
            res = {root: self.marks(root) for root in sorted(V, key=str)}
            good = [r for r in res if not res[r]]
            if not good:
                rule, fn, line, what, tag = res[min(res, key=str)][0]
                c.violation(rule, fn, line, what, tag=tag)
            for root in good:
                if root not in done:
                    done.add(root)
                    for w, i, v, cur in self.boolw.get(root, []):
                        c.ok('scanned marks', '%s:%s' % (w.fn['file'], w.line))
        for root in self.used:
            self.report(self.private(root))

    def marks(self, root):
        bad = []
        for e, i, v, cur in self.boolw.get(root, []):
            if v in (FALSE,) or v == C(0):
                bad.append(('scanned marks', e.fn, e.line, 'a vertex is marked unscanned again', 'unmark'))
            elif cur is None or not same(i, cur, e.facts):
                bad.append(('scanned marks', e.fn, e.line, 'a vertex that was not taken from the queue is marked scanned', 'mark'))
        x = self.private(root)
        return bad + ([x] if x[4] else [])

    def report(self, x):
        if x[4]:
            self.c.violation(*x[:4], tag=x[4])
        else:
            self.c.ok(x[0], '%s:%s %s' % (x[1]['file'], x[2], x[3]))

    def private(self, root):
        """declared in this function, zero at the start, and inside the parallel region if there is one"""
        rule, f = 'private records', self.f
        if root[0] != 'v':
            return rule, f, f['l'], 'attachments or scanned marks are not local to one scan', 'local'
        vid = root[1][1]
        omp = []

        def find(n, path):
            if isinstance(n, dict):
                if n.get('k') == 'var' and n.get('id') == vid:
                    return n, path
                for ch in n.values():
                    r = find(ch, path + [n] if n.get('k') == 'omp' else path)
                    if r:
                        return r
            elif isinstance(n, list):
                for ch in n:
                    r = find(ch, path)
                    if r:
                        return r
            return None
        r = find(self.f['b'], [])
        if r is None:
            return rule, f, f['l'], 'a reference', ''
        var, regions = r
        parallel = any(x['k'] == 'omp' and 'parallel' in x['kind'] for x in walk(f['b']))
        if parallel and not any('parallel' in x['kind'] for x in regions):
            return rule, f, var.get('l'), 'threads share the attachments or scanned marks %s' % var.get('n'), 'shared'
        if var.get('st') == 'static' or var.get('static'):
            return rule, f, var.get('l'), 'attachments or scanned marks survive a scan', 'static'
        i = var.get('init')
        fill = None
        if i is not None and i.get('k') == 'ctor' and len(i.get('args', [])) > 1:
            x = strip(i['args'][1])
            fill = int_const(x) if x is not None else None
            if x is not None and x.get('k') == 'bool':
                fill = int(bool(x['v']))
        if fill not in (0, None):
            return rule, f, var.get('l'), '%s does not start at zero' % var.get('n'), 'zero'
        return rule, f, var.get('l'), str(var.get('n')), ''


def run(P, c, tier):
    G = CallGraph(P)
    PQ = pq_classes(P)
    base = {'priority_queue_interface'}
    PQ |= base
    funcs = []
    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        if f.get('b') is None or f.get('lambda'):
            continue
        pop = merge = False
        for x in walk(f['b']):
            if x['k'] == 'call' and x.get('n') == 'deleteMax' and home(x.get('q', '')) in PQ:
                pop = True
        if not pop or home(f['q']) in PQ:
            continue
        for k in G.reach([f['key']]):
            g = P.functions.get(k) if k in P.functions else None
            if k in P.functions and short(P.functions[k]['q']) == 'union_find::Union':
                merge = True
        weights = [p for p in f['params'] if p['t'].replace('const ', '').lstrip('&') in ('u64', 'i64')]
        if not merge or not weights:
            continue
        funcs.append((f, weights[0]))
    for f, lim in funcs:
        c.saw(f)
        for variant in sorted(f['variants']):
            L = ('s', 'bound', 0)
            mark_unsigned(L)
            args = [None] * len(f['params'])
            args[f['params'].index(lim)] = L
            S = Scan(P, c, f, variant, L, args, PQ)
            if S.unions and not any(e.loops for e in S.unions):
                break       # merges once, after the scan: no edge test
            if not S.unions:
                raise AnalysisBroken('P03: no merge reached in ' + f['q'])
            S.finish()
            break
        for g, x in G.sites.get(f['key'], ()):
            bo = base_offset(x['args'][f['params'].index(lim)], g)
            allc = 'cactus' in g['file'] or 'cactus' in g['q']
            what = 'bound handed to the scan'
            if allc and (bo is None or bo[1] < 1):
                c.violation(what, g, x.get('l'), 'all minimum cuts are wanted, but the bound handed to %s does not exclude them' % short(f['q']), tag=short(f['q']))
            elif bo is not None and bo[1] < 0:
                c.violation(what, g, x.get('l'), 'the bound handed to %s is below the best cut known' % short(f['q']), tag=short(f['q']))
            else:
                c.ok(what, g.where(x.get('l')))
    c.floor('merge', 3)
    c.floor('attachment', 2)
    c.floor('scanned marks', 2)
    c.floor('private records', 2)
    c.floor('bound handed to the scan', 5)
