"""Contracted and copied graphs: every edge between two blocks counts exactly once, with its weight, and nothing else does."""
from ..absint import Interp, Budget
from ..ast import strip
from ..gmodel import graph_prims, isgraph
from ..program import walk, AnalysisBroken
from ..terms import *
from ..ctx import short

RULE = ('Symbolic execution of every routine that builds a graph from the edges of another one. Per path through the loop over the edges of a vertex: the weight of the edge is added exactly once to a '
        'record kept for its two blocks, or both ends lie in one block, or it weighs nothing, or its other direction is the one that counts; a record is overwritten only when it does not belong to this '
        'pair yet. Keys of pairs are evaluated: different pairs have different keys. Each record becomes one edge between these blocks with that weight; each vertex gets the block of its set.')
ASSUMPTIONS = ['edges_of enumerates every incident edge once (separate property)', 'the concurrent hash table adds up what is inserted for a key with the function given to it',
               'weights are not negative']

NEWEDGE = ('new_edge', 'new_edge_order', 'new_edge_and_reverse')
BUILD = NEWEDGE + ('new_node', 'new_node_hacky', 'start_construction', 'finish_construction', 'resize_m')
QUIET = ('restart', 'elapsed', 'timestamp', 'checkGraphValidity', 'computeDegrees', 'resetContainedvertices')


def prims(self, e, st, fr, ov, op, args):
    q, n = e['q'], e.get('n')
    if isgraph(q) and n in BUILD + ('setEdgeWeight', 'setPartitionIndex', 'getPartitionIndex', 'containedVertices', 'getNodeInCut', 'setNodeInCut', 'isTerminal'):
        vals = [self.argval(st, a) for a in args]
        vals = [num(v) if v is not None and is_num(v) else v for v in vals]
        g = ('ptr', op) if op is not None else ov
        if n in ('getPartitionIndex', 'getNodeInCut'):
            return [(st, app(n, *vals))]
        if n == 'containedVertices':
            return [(st, ('ptr', (('p', app('contained', *vals)), ())))]
        self.emit(st, fr, e, 'g.' + n, n, obj=op, args=vals)
        if n in ('new_edge', 'new_node', 'new_node_hacky'):
            from ..gmodel import fresh_num
            return [(st, fresh_num(n))]
        return [(st, None)]
    return graph_prims(self, e, st, fr, ov, op, args)


def noinline(f, e):
    return f['n'] in QUIET + ('contractVertexSet',) or f.get('ctor') or (f.get('cls') or '') == 'contraction' and (f['n'].startswith(('contractGraph', 'fromUnionFind')))


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        r = tuple(subst(x, m) for x in t)
        if r != t and r and r[0] == 'L':
            s = C(r[1])
            for x, c in r[2]:
                s = add(s, mul(C(c), x))
            return s
        return r
    return t


def value(t, m):
    """the number a term stands for when its leaves have the values m; None when it is not determined"""
    if t in m:
        return m[t]
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'L':
        s = t[1]
        for x, c in t[2]:
            v = value(x, m)
            if v is None:
                return None
            s += c * v
        return s
    if k in ('ge0', 'eq0', 'ne0'):
        v = value(t[1], m)
        return None if v is None else int(v >= 0 if k == 'ge0' else v == 0 if k == 'eq0' else v != 0)
    if k == 'app':
        vs = [value(x, m) if isinstance(x, tuple) else None for x in t[2:]]
        if any(v is None for v in vs):
            return None
        op = t[1]
        if op == 'b2i':
            return int(bool(vs[0]))
        if op == '*':
            return vs[0] * vs[1]
        if op == '|':
            return vs[0] | vs[1]
        if op == '^':
            return vs[0] ^ vs[1]
        if op == '&':
            return vs[0] & vs[1]
        if op == '<<':
            return (vs[0] << vs[1]) & (2 ** 64 - 1)
        if op == '>>':
            return vs[0] >> vs[1]
        if op in ('min', 'max'):
            return min(vs) if op == 'min' else max(vs)
        if op in ('/', '%') and vs[1]:
            return vs[0] // vs[1] if op == '/' else vs[0] % vs[1]
    if k in ('true', 'false'):
        return int(k == 'true')
    if k in ('and', 'or'):
        a, b = value(t[1], m), value(t[2], m)
        return None if a is None or b is None else int(bool(a and b) if k == 'and' else bool(a or b))
    return None


def rootname(p):
    r = p[0]
    return r


class Build:
    def __init__(self, P, c, f, variant):
        self.P, self.c, self.f = P, c, f
        self.I = Interp(P, variant, prims=[prims], maxstates=240, budget=4000000, noinline=noinline, forkret=12)
        self.I.on_event = self.on
        self.iters = []         # (loop node, body event, events, facts, next event) per path through a loop body
        self.exits = []         # (loop node, facts, event)
        self.ends = []          # (events, facts, event) per path to a return
        self.seen = set()
        self.prefix, self.prefkeys = {}, []
        self.tops = []

    def on(self, ev, st):
        k = ev.kind
        tr = st.aux.get('tr') or ()
        if k == 'index' and ev.fn is self.f and ev.obj[0][0] == 'v' and ev.args and ev.args[0] is not None and num(ev.args[0])[0] == 'c' and num(ev.args[0])[1] > 0:
            self.tops.append((ev, self.built(ev.obj, tr)))
        if k == 'loop-body':
            st.aux = dict(st.aux)
            st.aux['tr'] = tr + (('body', id(ev.node), ev),)
        elif k == 'loop-next':
            j = max([i for i, x in enumerate(tr) if x[0] == 'body' and x[1] == id(ev.node)], default=None)
            if j is not None:
                self.prefix[id(ev.facts)] = tuple(id(x[2]) for x in tr[:min(i for i, x in enumerate(tr) if x[0] == 'body')])
                self.iters.append((ev.node, tr[j][2], [x[2] for x in tr[j + 1:]], ev.facts, ev))
                st.aux = dict(st.aux)
                st.aux['tr'] = tr[:j]
        elif k == 'return' and ev.fn is self.f:
            self.ends.append(([x[2] for x in tr if x[0] == 'ev'], ev.facts, ev))
        else:
            if k == 'loop-exit':
                self.exits.append((ev.node, ev.facts, ev))
            if k in ('write', 'set.add', 'set.clear', 'vec.push', 'vec.clear', 'vec.grow', 'call', 'loop-exit') or k.startswith(('g.', 'vec.')):
                st.aux = dict(st.aux)
                st.aux['tr'] = tr + (('ev', 0, ev),)

    def bad(self, rule, ev, what, tag):
        fn = ev.fn if ev is not None and ev.fn is not None else self.f
        self.c.violation(rule, fn, ev.line if ev is not None and ev.line else self.f['l'], what, tag=tag)

    def ok(self, rule, what=''):
        if (rule, what) not in self.seen:
            self.seen.add((rule, what))
            self.c.ok(rule, '%s:%s %s %s' % (self.f['file'], self.f['l'], short(self.f['q']) + '|' + (self.f['params'] or [{'t': ''}])[0]['t'][-14:], what))

    def built(self, obj, tr):
        """the number of entries a local vector was made with"""
        if any(x[0] == 'ev' and x[2].kind in ('vec.push', 'vec.clear', 'vec.grow', 'vec.pop', 'vec.resize', 'vec.erase', 'vec.assign') and x[2].obj == obj for x in tr):
            return None
        decl = [x for x in walk(self.f['b']) if x['k'] == 'var' and x.get('id') == obj[0][1][1] and x.get('init')]
        for x in tr:
            if x[0] == 'ev' and x[2].kind == 'vec.ctor' and decl and any(y is x[2].node for y in walk(decl[0]['init'])):
                return x[2].args[0] if x[2].args and x[2].args[0] is not None and is_num(x[2].args[0]) else None
        return None

    def inside(self):
        """an entry named by a constant exists"""
        for ev, size in self.tops:
            k = num(ev.args[0])[1]
            if size is not None and not (ev.facts.implies(GE(size, C(k + 1))) or k == 1 and ev.facts.implies(NE(size, ONE)) and ev.facts.implies(NE(size, ZERO))):
                self.bad('entry exists', ev, 'the number of another block is read although there may be only one block', 'inside')
                return
        if self.tops:
            self.ok('entry exists')

    def run(self):
        self.I.run(self.f)
        self.inside()
        self.its = {}
        for x in self.iters:
            self.its.setdefault(id(x[0]), []).append(x)
        for k, its in self.its.items():
            es = [edge_of(x[1]) for x in its]
            if not all(es):
                continue
            n, e = es[0][-1]
            if not any(has(ev, n, e) for x in its for ev in x[2]) and not any(
                    ev.kind[2:] in NEWEDGE and any(a is not None and app('tgt', *edge_of(x[1])[-1]) in set(subterms(a)) for a in ev.args) for x in its for ev in x[2] if ev.kind.startswith('g.')):
                continue
            if any(ev.kind[2:] in NEWEDGE for x in its for ev in x[2] if ev.kind.startswith('g.')):
                self.direct(its)
            elif not any(edge_of(x[1])[-1:] != es[0][-1:] for x in its):
                self.records(its)
            else:
                self.records(its)
        return self

    # -- one iteration: what the edge contributes --------------------------------
    def blocks(self, its):
        """terms of the blocks of both ends"""
        for node, body, evs, F, nx in its:
            n, e = edge_of(body)[-1]
            T = app('tgt', n, e)
            cands = set()
            for t in list(F.atoms) + [a for ev in evs for a in ev.args if a is not None] + [s for ev in evs if ev.obj for s in ev.obj[1]]:
                for x in subterms(t):
                    if x[0] == 'ld' and len(x) > 2 and x[1][1] == (('i', T),):
                        cands.add(x)
            if len(cands) == 1:
                b2 = cands.pop()
                root = b2[1][0]
                if n[0] == 'ld' and len(n[1][1]) == 2 and n[1][1][0][0] == 'i' == n[1][1][1][0]:
                    return n[1][1][0][1], b2, n
                b1 = ('ld', (root, (('i', n),)), b2[2])
                return b1, b2, n
        return None

    def infeasible(self, F, m):
        """no pair of block numbers satisfies the facts that speak about nothing else"""
        B1, B2, orders = m
        at = [a for a in F.atoms if a[0] in ('ge0', 'eq0', 'ne0')]
        for i in range(5):
            for j in range(5):
                env = {B1: i, B2: j}
                if all(value(a, env) in (None, 1) for a in at):
                    return False
        return True

    def orders(self, F, B1, B2):
        r = set()
        at = [a for a in F.atoms if a[0] in ('ge0', 'eq0', 'ne0')]
        for i in range(4):
            for j in range(4):
                env = {B1: i, B2: j}
                if all(value(a, env) in (None, 1) for a in at):
                    r.add('eq' if i == j else 'down' if j < i else 'up')
        return r

    def records(self, its):
        bl = self.blocks(its)
        if bl is None:
            self.bad('edge counted once', its[0][4], 'the block of the other end of an edge is not looked up', 'block')
            return
        B1, B2, N = bl
        paths = []
        for node, body, evs, F, nx in its:
            n, e = edge_of(body)[-1]
            if n != N:
                N = n
            W, T = app('wgt', n, e), app('tgt', n, e)
            b2 = subst(B2, {B2[1][1][0][1]: T})
            b1 = subst(B1, {B1[1][1][0][1]: n}) if B1[0] == 'ld' and B1[1][1] and B1[1][0] == B2[1][0] else (n[1][1][0][1] if n[0] == 'ld' and len(n[1][1]) == 2 else B1)
            o = self.orders(F, b1, b2)
            if not o:
                continue
            cs = []
            for ev in evs:
                if ev.kind == 'write' and ev.args and ev.args[0] is not None and W in set(subterms(ev.args[0])):
                    new, old = ev.args[0], ev.args[1]
                    if not is_num(new):
                        continue
                    zeroed = new == W and any(y.kind == 'write' and y.obj == ev.obj and y.args and y.args[0] == ZERO for y in evs[:evs.index(ev)])
                    if old is not None and is_num(old) and sub(new, old) == W and not zeroed:
                        cs.append(('add', ev))
                    elif new == W:
                        if ev.obj[1]:
                            cs.append(('set', ev))
                    else:
                        cs.append(('odd', ev))
                elif ev.kind == 'call' and any(a == W for a in ev.args):
                    cs.append(('ins', ev))
                elif ev.kind in ('call', 'vec.push') and any(a is not None and W in set(subterms(a)) for a in ev.args):
                    cs.append(('odd', ev))
            paths.append((n, e, b1, b2, W, T, o, cs, evs, F, nx, body))
        C, D = set(), set()
        fine = True
        for n, e, b1, b2, W, T, o, cs, evs, F, nx, body in paths:
            odd = [x for x in cs if x[0] == 'odd']
            if odd:
                self.bad('edge counted once', odd[0][1], 'what is recorded for an edge is not its weight', 'amount')
                fine = False
            elif len(cs) > 1:
                self.bad('edge counted once', cs[1][1], 'the weight of an edge is recorded twice on one path', 'twice')
                fine = False
            elif cs:
                C |= o
            elif not F.implies(EQ(W, ZERO)) and not F.implies(GE(ZERO, W)):
                D |= o
        node = its[0][0]
        one = its[0][4]
        if 'eq' in C:
            self.bad('edge counted once', one, 'an edge inside one block is recorded', 'loop')
            fine = False
        for d in ('up', 'down'):
            if d in C and d in D:
                self.bad('edge counted once', one, 'an edge between two blocks is left out on some path, although edges between such blocks are recorded on others', 'lost')
                fine = False
        if not C & {'up', 'down'}:
            self.bad('edge counted once', one, 'no edge between two blocks is recorded', 'none')
            fine = False
        if any(x['k'] in ('break', 'return') for x in own(node['b'])):
            self.bad('edge counted once', one, 'the loop over the edges of a vertex is left early', 'break')
            fine = False
        if fine:
            self.ok('edge counted once', 'line %s' % node.get('l'))
        self.C = C & {'up', 'down'}
        self.sinks(its, paths)

    # -- records and what becomes of them ---------------------------------------
    def keyof(self, kind, ev):
        if kind == 'ins':
            return ev.args[0]
        ix = [s[1] for s in ev.obj[1] if s[0] == 'i']
        return ix[0] if len(ix) == 1 else None

    def sinks(self, its, paths):
        rowroots, pairroots, scalars, hashes = {}, {}, {}, {}
        for n, e, b1, b2, W, T, o, cs, evs, F, nx, body in paths:
            for kind, ev in cs:
                if kind in ('add', 'set') and not ev.obj[1]:
                    scalars.setdefault(ev.obj[0], []).append((kind, ev, b1, b2, F, evs))
                    continue
                K = self.keyof(kind, ev)
                if K is None:
                    self.bad('record of a pair', ev, 'the record an edge is added to is not kept per pair of blocks', 'key')
                    continue
                K = num(K)
                if kind == 'ins':
                    hashes.setdefault(ev.obj[0], []).append((ev, K, b1, b2, F, evs, o, nx))
                elif K == b2:
                    rowroots.setdefault(ev.obj[0], []).append((kind, ev, K, b1, b2, F, evs))
                else:
                    pairroots.setdefault(ev.obj[0], []).append((kind, ev, K, b1, b2, F, evs))
        for r, xs in rowroots.items():
            self.rows(r, xs)
        for r, xs in pairroots.items():
            self.pairs(r, xs)
        for r, xs in hashes.items():
            self.hashes(r, xs, scalars)
        if scalars and not hashes:
            self.bad('record of a pair', next(iter(scalars.values()))[0][1], 'the weights of edges between different blocks are added up in one number', 'scalar')

    def rows(self, root, xs):
        """an array with one entry per other block, used for one block at a time"""
        marks = set()
        good = True
        for kind, ev, K, b1, b2, F, evs in xs:
            found = None
            for a in F.atoms:
                for x in subterms(a):
                    if x[0] != 'ld' or ('i', K) not in x[1][1]:
                        continue
                    if x[1][1][-1] == ('f', '#has'):
                        if kind == 'set' and F.implies(EQ(x, ZERO)) and any(y.kind == 'set.add' and y.obj == (x[1][0], x[1][1][:-2]) and y.args and num(y.args[0]) == K for y in evs) or \
                                kind == 'add' and F.implies(GE(x, ONE)):
                            found = ('set', x[1][0])
                    elif x[1][1] != ev.obj[1] or x[1][0] != ev.obj[0]:
                        if kind == 'set' and F.implies(NE(x, b1)) and any(y.kind == 'write' and y.obj == x[1] and num(y.args[0]) == b1 for y in evs) or \
                                kind == 'add' and F.implies(EQ(x, b1)):
                            found = ('stamp', x[1][0])
            if found is None:
                self.bad('record of a pair', ev, ('a record is overwritten although it may hold edges of this pair already, or is not marked as used' if kind == 'set' else
                                                  'an edge is added to a record that may still hold edges of another block'), 'stale')
                good = False
            else:
                marks.add(found)
        if not any(x[0] == 'set' for x in xs) and good:
            self.bad('record of a pair', xs[0][1], 'a record is never started for a new block', 'start')
            good = False
        if len(marks) > 1:
            self.bad('record of a pair', xs[0][1], 'records are marked as used in two different places', 'marks')
            good = False
        if good:
            self.ok('record of a pair', xs[0][1].obj[0][2] if len(xs[0][1].obj[0]) > 2 else '')
        if not good:
            return
        kind, mroot = next(iter(marks))
        b1 = xs[0][3]
        if kind == 'set' and not self.renewed(mroot, b1):
            self.bad('record of a pair', xs[0][1], 'the marks of one block are still set when the next block is handled', 'reset')
        # flush
        best = None
        for k, its in self.its.items():
            hits = 0
            for node, body, evs, F, nx in its:
                es = [ev for ev in evs if ev.kind.startswith('g.') and ev.kind[2:] in NEWEDGE or ev.kind == 'vec.push' and any(
                    a is not None and any(x[0] == 'ld' and x[1][0] == root for x in subterms(a)) for a in ev.args)]
                if es and not edge_of(body) or es and node['k'] == 'forrange' and not any(has(ev, *edge_of(body)[-1]) for ev in es if edge_of(body)):
                    for ev in es:
                        if any(a is not None and any(x[0] == 'ld' and x[1][0] == root for x in subterms(a)) for a in list(ev.args) + weights_after(evs, ev)):
                            hits += 1
            if hits:
                best = its
        if best is None:
            self.bad('record becomes an edge', xs[0][1], 'no edge is made from the records of a block', 'flush')
            return
        fine = True
        for node, body, evs, F, nx in best:
            es = [(ev, a, b, w) for ev in evs for a, b, w in made(evs, ev)]
            if not es and kind != 'set':
                self.staged(root, mroot, b1, xs, best)
                return
            if len(es) != 1:
                if not es and any(F.implies(EQ(x, ZERO)) or F.implies(GE(ZERO, x)) for a in F.atoms for x in subterms(a) if x[0] == 'ld' and x[1][0] == root):
                    continue
                self.bad('record becomes an edge', nx, 'a record does not become exactly one edge', 'count')
                fine = False
                continue
            ev, a, b, w = es[0]
            if not (w is not None and w[0] == 'ld' and w[1][0] == root and w[1][1] and w[1][1][0] == ('i', b)):
                self.bad('record becomes an edge', ev, 'the weight of a new edge is not the one recorded for its other end', 'weight')
                fine = False
            elif num(a) != b1:
                self.bad('record becomes an edge', ev, 'a new edge does not start at the block the records were made for', 'from')
                fine = False
            elif not (b[0] == 'ld' and b[1][0] == mroot):
                self.bad('record becomes an edge', ev, 'the other end of a new edge is not one of the marked blocks', 'to')
                fine = False
        self.sides(best)
        fnode = best[0][0]
        self.complete(fnode, best[0][4])
        if fine:
            self.ok('record becomes an edge', 'line %s' % fnode.get('l'))
        self.coverage(b1)

    def staged(self, root, mroot, b1, xs, best):
        """the records of a block are listed, and edges are made from the lists"""
        R = 'record becomes an edge'
        used = set()
        for kind, ev, K, _, b2, F, evs in xs:
            ps = [y for y in evs if y.kind == 'vec.push' and y.args and y.args[0] is not None]
            if len(ps) != (1 if kind == 'set' else 0) or ps and num(ps[0].args[0]) != K:
                self.bad(R, ev, 'a record is not listed exactly once, when it is started', 'list')
                return
            used |= {y.obj for y in ps}
        if len(used) != 1:
            self.bad(R, xs[0][1], 'records are not kept in one list', 'list')
            return
        L = used.pop()
        lists = set()
        for node, body, evs, F, nx in best:
            ps = [y for y in evs if y.kind == 'vec.push']
            x = ps[0].args[0] if len(ps) == 1 else None
            v = [z[1] for z in x[2]] if x is not None and x[0] == 'obj' and len(x[2]) == 2 else None
            if v is None:
                self.bad(R, nx, 'a record does not become exactly one edge', 'count')
                return
            to, w = num(v[0]), v[1]
            if not (to[0] == 'ld' and to[1][0] == L[0] and w[0] == 'ld' and w[1][0] == root and w[1][1][:1] == (('i', to),) and w[1][1] == xs[0][1].obj[1][:0] + (('i', to),) + xs[0][1].obj[1][1:]):
                self.bad(R, ps[0], 'the weight of a new edge is not the one recorded for its other end', 'weight')
                return
            if not (ps[0].obj[1] and ps[0].obj[1][-1] == ('i', b1)) and not (ps[0].obj[1] and self.loopvars_same(ps[0].obj[1][-1][1], b1)):
                self.bad(R, ps[0], 'a new edge is not listed for the block the records were made for', 'from')
                return
            lists.add(ps[0].obj[0])
        if not self.renewed(L[0], b1):
            self.bad(R, xs[0][1], 'the list of records of one block is not empty when the next block is handled', 'reset')
            return
        M = lists.pop()
        done = False
        for its in self.its.values():
            for node, body, evs, F, nx in its:
                for w in evs:
                    for a, b, wt in made(evs, w):
                        done = True
                        if not (b[0] == 'ld' and b[1][0] == M and wt is not None and wt[0] == 'ld' and wt[1][0] == M and b[1][1][:-1] == wt[1][1][:-1] and b[1][1][-1] == ('f', 'first') and wt[1][1][-1] == ('f', 'second')):
                            self.bad(R, w, 'a new edge is not one that is listed', 'listed')
                            return
                        at = b[1][1][0][1]
                        if not (a[0] == 's' and str(a[1]).startswith('new_node')) and num(a) != num(at):
                            self.bad(R, w, 'a new edge does not start at the block the records were made for', 'from')
                            return
        if not done:
            self.bad(R, xs[0][1], 'no edge is made from the records of a block', 'flush')
            return
        # the lists of vertices, when made here
        N = xs[0][6]
        self.ok(R, 'through a list')

    def loopvars_same(self, a, b):
        return a in self.I.loopvars and b in self.I.loopvars and self.I.loopvars[a][2] == self.I.loopvars[b][2]

    def renewed(self, mroot, b1):
        """the set starts empty for every block"""
        loops = [its for its in self.its.values() if self.loop_of(its[0][0]) is not None and self.loop_of(its[0][0])[0] == b1]
        for its in loops:
            node = its[0][0]
            vid = mroot[1][1] if mroot[0] == 'v' else None
            if any(x['k'] == 'var' and x.get('id') == vid for x in walk(node['b'])):
                return True
            if all(any(ev.kind in ('set.clear', 'vec.clear') and ev.obj is not None and ev.obj[0] == mroot for ev in evs) for _, _, evs, F, nx in its):
                return True
        return False

    def loop_of(self, node):
        for sym, (var, init, nid) in self.I.loopvars.items():
            if nid == id(node) and node['k'] == 'for':
                inc = node.get('inc') or {}
                if any(x.get('id') == var[1] for x in walk(inc) if 'k' in x):
                    return sym, init, var
        return None

    def coverage(self, b1):
        """the loops over blocks and vertices run over all of them"""
        for its in self.its.values():
            node = its[0][0]
            if node['k'] != 'for':
                continue
            self.covered(node)

    def covered(self, node):
        lv = [(s, i, v) for s, (v, i, nid) in self.I.loopvars.items() if nid == id(node)]
        steps = [(s, i, v) for s, i, v in lv if any(x.get('id') == v[1] for x in walk(node.get('inc') or {}) if 'k' in x)]
        for s, init, v in steps:
            bounds = set()
            for nd, F, ev in self.exits:
                if nd is node:
                    for a in F.atoms:
                        if a[0] == 'ge0':
                            c, d = parts(a[1])
                            if d.get(s) == 1 and len(d) == 2:
                                bounds.add((c, [t for t in d if t != s][0], d[[t for t in d if t != s][0]]))
            if init != ZERO:
                self.bad('everything visited', self.its[id(node)][0][4], 'a loop over blocks or vertices does not start at the first', 'first')
            elif bounds and not any(c >= 0 and k == -1 and (t[0] == 'app' and t[1] == 'numnodes' or t[0] == 's' and t[1].startswith('arg:') or t[0] == 'ld') for c, t, k in bounds if True) or \
                    any(c > 0 for c, t, k in bounds if k == -1 and (t[0] == 'app' or t[0] == 's' and t[1].startswith('arg:') or t[0] == 'ld')):
                self.bad('everything visited', self.its[id(node)][0][4], 'a loop over blocks or vertices ends before the last', 'last')
            else:
                self.ok('everything visited', 'line %s' % node.get('l'))

    def complete(self, fnode, ev):
        """the loop that makes the edges runs on every path around it"""
        inner = fnode
        for _ in range(4):
            outer = None
            for its in self.its.values():
                if any(x is inner for x in walk(its[0][0]['b'])) and its[0][0] is not inner:
                    if outer is None or any(x is its[0][0] for x in walk(outer['b'])):
                        outer = its[0][0]
            if outer is None:
                break
            for node, body, evs, F, nx in self.its[id(outer)]:
                if not any(x.kind == 'loop-exit' and x.node is inner for x in evs):
                    self.bad('everything visited', nx, 'some blocks are passed over', 'skip')
                    return
            inner = outer
        for evs, F, r in self.ends:
            if not any(x.kind == 'loop-exit' and x.node is inner for x in evs):
                self.bad('everything visited', r, 'the graph is returned without its edges on some path', 'return')
                return
        self.ok('everything visited', 'line %s reached' % fnode.get('l'))

    def sides(self, its):
        """edges that are stored in both directions are recorded for one of them, others for both"""
        for node, body, evs, F, nx in its:
            for ev in evs:
                if not ev.kind.startswith('g.') or ev.kind[2:] not in NEWEDGE:
                    continue
                n = ev.kind[2:]
                mut = 'mutable' in str(ev.obj) or 'mutable' in (ev.node.get('q') or '')
                want = {'up', 'down'} if n == 'new_edge' and not mut else {'up'} if n == 'new_edge' else None
                if want is None and len(self.C) != 1 or want is not None and self.C != want:
                    self.bad('direction', ev, 'an edge that is %s is recorded for %s' % (
                        'stored for one end only' if want and len(want) == 2 else 'stored for both ends',
                        'both directions' if len(self.C) == 2 else 'one direction' if self.C != {'down'} else 'the direction that is not stored' if want else 'one direction'), 'sides')
                else:
                    self.ok('direction', 'line %s' % ev.line)

    def leaves(self, K, env, N):
        given = list(env)
        for x in subterms(K):
            if x[0] in ('s', 'ld') and x not in env and not any(x in set(subterms(y)) for y in given):
                env[x] = N
        return env

    def injective(self, K, b1, b2, ev, C=None):
        for N in (2, 3, 5):
            seen = {}
            for i in range(N):
                for j in range(N):
                    if i == j or ('down' if j < i else 'up') not in (C or self.C):
                        continue
                    env = {b1: i, b2: j}
                    for x in subterms(K):
                        if x[0] in ('s', 'ld') and x not in env and not any(x in set(subterms(y)) for y in (b1, b2)):
                            env[x] = N
                    v = value(K, env)
                    if v is None:
                        return None
                    if v in seen:
                        return False
                    seen[v] = (i, j)
        return True

    def pairs(self, root, xs):
        """an array with one entry per pair of blocks"""
        N = 5
        table = {}
        for kind, ev, K, b1, b2, F, evs in xs:
            if kind == 'set':
                self.bad('record of a pair', ev, 'a record is overwritten although it may hold edges of this pair already, or is not marked as used', 'stale')
                return
            o = self.orders(F, b1, b2)
            for i in range(N):
                for j in range(N):
                    if i == j or ('down' if j < i else 'up') not in o:
                        continue
                    v = value(K, self.leaves(K, {b1: i, b2: j}, N))
                    if v is None:
                        self.bad('record of a pair', ev, 'the record an edge is added to is not determined by its two blocks', 'key')
                        return
                    if table.setdefault((i, j), v) != v:
                        self.bad('record of a pair', ev, 'edges of one pair are added to two records', 'share')
                        return
        if len(set(table.values())) < len(table):
            self.bad('record of a pair', xs[0][1], 'two pairs of blocks share one record', 'share')
            return
        self.ok('record of a pair', str(root[2] if len(root) > 2 else root[0]))
        kind, ev, K, b1, b2, F, evs = xs[0]
        # private records are added to shared ones
        shared = root
        for k, its in self.its.items():
            for node, body, evs2, F2, nx in its:
                for w in evs2:
                    if w.kind == 'write' and w.obj[0] != root and w.obj[1] and w.args[0] is not None and is_num(w.args[0]) and any(x[0] == 'ld' and x[1][0] == root for x in subterms(w.args[0])):
                        d = sub(w.args[0], w.args[1]) if w.args[1] is not None and is_num(w.args[1]) else None
                        if d is None or not (d[0] == 'ld' and d[1] == (root, w.obj[1])):
                            self.bad('record of a pair', w, 'the records of one thread are not added to those of the others pair by pair', 'merge')
                            return
                        shared = w.obj[0]
                        self.covered(node)
        fine, made_any = True, False
        for k, its in self.its.items():
            if not any(made(evs2, w) for _, _, evs2, _, _ in its for w in evs2):
                continue
            for node, body, evs2, F2, nx in its:
                ms = [(w,) + m for w in evs2 for m in made(evs2, w)]
                if not ms:
                    # left out: no weight, or one block
                    ok = any(F2.implies(GE(ZERO, x)) or F2.implies(EQ(x, ZERO)) for a in F2.atoms for x in subterms(a) if x[0] == 'ld' and x[1][0] == shared) or any(
                        a[0] == 'eq0' for a in F2.atoms)
                    if not ok:
                        self.bad('record becomes an edge', nx, 'a record does not become exactly one edge', 'count')
                        fine = False
                    continue
                made_any = True
                w, a, b, wt = ms[0]
                ix = num(wt[1][1][0][1]) if wt is not None and wt[0] == 'ld' and len(wt[1][1]) == 1 else None
                o2 = self.orders(F2, num(a), num(b))
                same = ix is not None and all(value(ix, self.leaves(ix, {num(a): i, num(b): j}, N)) == v for (i, j), v in table.items() if ('down' if j < i else 'up') in o2)
                if len(ms) > 1:
                    self.bad('record becomes an edge', w, 'a record does not become exactly one edge', 'count')
                    fine = False
                elif not (wt is not None and wt[0] == 'ld' and wt[1][0] == shared and same):
                    self.bad('record becomes an edge', w, 'the weight of a new edge is not the one recorded for its two blocks', 'weight')
                    fine = False
            self.sides(its)
            self.complete(its[0][0], its[0][4])
        if not made_any:
            self.bad('record becomes an edge', ev, 'no edge is made from the records', 'flush')
        elif fine:
            self.ok('record becomes an edge')
        self.coverage(None)

    def hashes(self, root, xs, scalars):
        """a table with one entry per pair of blocks"""
        lists = set()
        good = True
        for ev, K, b1, b2, F, evs, o, nx in xs:
            inj = self.injective(K, b1, b2, ev, o & {'up', 'down'})
            if not inj:
                self.bad('record of a pair', ev, 'the record an edge is added to is not determined by its two blocks' if inj is None else 'two pairs of blocks share one record', 'key')
                good = False
            new = [a for a in F.atoms if a[0] in ('ne0', 'eq0') and any(x[0] == 's' and str(x[1]).startswith(ev.name.split('::')[-1] if ev.name else '?') for x in subterms(a))]
            pushes = [y for y in evs if y.kind == 'vec.push' and y.args and y.args[0] is not None and is_num(y.args[0]) and num(y.args[0]) == K]
            others = [y for y in evs if y.kind == 'vec.push' and y not in pushes]
            isnew = any(a[0] == 'ne0' for a in new)
            if len(pushes) != (1 if isnew else 0) or others:
                self.bad('record becomes an edge', ev, 'the key of a pair is not listed exactly when its first edge is inserted', 'list')
                good = False
            lists |= {y.obj for y in pushes}
            ups = [y for y in evs if y.kind == 'write' and y.name == '++' and y.obj[1]]
            if ups or isnew:
                at = sorted(str(num(y.obj[1][-1][1])) for y in ups)
                self.updown = True
                if ups and (not isnew or at != sorted([str(b1), str(b2)])):
                    self.bad('number of edges of a block', ups[0], 'a new edge is not counted once at each of its blocks', 'degree')
                    good = False
        for a in {id(ev.node): ev for ev, *r in xs}.values():
            if not self.adds(a):
                self.bad('record of a pair', a, 'a second edge of a pair does not add its weight', 'update')
                good = False
        if good:
            self.ok('record of a pair', 'table')
        # the pair that is kept apart
        for r, ys in scalars.items():
            allks, last = [], None
            for kind, ev, b1, b2, F, evs in ys:
                if kind != 'add':
                    self.bad('record of a pair', ev, 'the number kept for one pair is overwritten', 'scalar')
                    continue
                ks = [x for a in F.atoms if a[0] == 'eq0' for x in self.eqs(a, xs)]
                if not ks:
                    self.bad('record of a pair', ev, 'edges of different pairs are added up in one number', 'scalar')
                    continue
                allks += ks
                self.prefkeys.append((self.prefix.get(id(F), ()), ks))
                last = ev
            if last is not None:
                self.forward(r, allks, root, lists, last)
        # edges from keys
        done = False
        for k, its in self.its.items():
            if not any(made(evs2, w) for _, _, evs2, _, _ in its for w in evs2):
                continue
            done = True
            for node, body, evs2, F2, nx in its:
                ms = [(w,) + m for w in evs2 for m in made(evs2, w)]
                if len(ms) != 1:
                    self.bad('record becomes an edge', nx, 'a record does not become exactly one edge', 'count')
                    continue
                w, a, b, wt = ms[0]
                X = [x for t in (a, b) for x in subterms(t) if x[0] == 'ld' and any(x[1][0] == l[0] for l in lists)]
                if not X:
                    self.bad('record becomes an edge', w, 'the ends of a new edge are not taken from a listed key', 'ends')
                    continue
                X = X[0]
                ev, K, b1, b2, F, evs, o, _ = xs[0]
                fine = True
                for ev, K, b1, b2, F, evs, o, _ in xs:
                    for i in range(5):
                        for j in range(5):
                            if i != j and ('down' if j < i else 'up') in o:
                                kv = value(K, {b1: i, b2: j})
                                va, vb = value(a, {X: kv}), value(b, {X: kv})
                                va, vb = (None if va is None else va & 0xffffffff), (None if vb is None else vb & 0xffffffff)
                                if {va, vb} != {i, j}:
                                    fine = False
                if not fine:
                    self.bad('record becomes an edge', w, 'the ends of a new edge are not the blocks its key stands for', 'ends')
                finds = [y for y in evs2 if y.kind == 'call' and y.name and y.name.split('::')[-1] in ('find', 'at', 'operator[]')]
                if not (finds and num(finds[-1].args[0]) == X and wt is not None and 'second' in show(wt)):
                    self.bad('record becomes an edge', w, 'the weight of a new edge is not the one found for its key', 'weight')
                else:
                    self.ok('record becomes an edge', 'table')
                if w.kind == 'g.new_edge_and_reverse':
                    self.slots(w, a, b, evs2)
            self.sides(its)
        if not done:
            self.bad('record becomes an edge', xs[0][0], 'no edge is made from the records', 'flush')
        self.coverage(None)

    def adds(self, ev):
        lam = [a for a in ev.args if a is not None and a[0] == 'lam']
        if not lam:
            return False
        g = self.P.lambda_of(lam[0][1], sorted(self.f['variants'])[0], self.f)
        if g is None or len(g['params']) != 2:
            return False
        a, b = g['params'][0]['id'], g['params'][1]['id']
        I = Interp(self.P, sorted(self.f['variants'])[0])
        ws = []
        I.on_event = lambda e, st: ws.append(e) if e.kind == 'write' else None
        I.run(g)
        d = [sub(e.args[0], e.args[1]) for e in ws if is_num(e.args[0]) and e.args[1] is not None and is_num(e.args[1])]
        vals = [x for x in ev.args[1:] if x is not None and x[0] != 'lam']
        return len(ws) == 1 and len(d) == 1 and d[0][0] in ('s', 'ld') and ('arg:' + g['params'][1]['n']) in show(d[0]) and len(set(vals)) == 1

    def eqs(self, a, xs):
        """terms a key of a pair is equal to"""
        r = []
        for ev, K, b1, b2, F, evs, o, nx in xs:
            for k in {K} | {x for x in subterms(a[1]) if x[0] == 'app' and x[1] == '|' and {b1, b2} <= set(subterms(x))}:
                d = sub(a[1], k)
                c, ds = parts(d)
                m = mklin(-c, {t: -v for t, v in ds.items()})
                if k != a[1] and not any(b1 in set(subterms(t)) for t in ds):
                    r.append(num(m))
                d = add(a[1], k)
                if k != a[1] and not any(b1 in set(subterms(t)) for t in parts(d)[1]):
                    r.append(num(d))
        return r

    def keys_of(self, evs, ks):
        ids = tuple(id(y) for y in evs)
        return [k for pre, kk in self.prefkeys if ids[:len(pre)] == pre for k in kk]

    def forward(self, scalar, ks, root, lists, ev0):
        sid = scalar[1]
        syms = [s for s, (v, i, nid) in self.I.loopvars.items() if v == sid]
        pools = [evs for evs, F, r in self.ends]
        hit = False
        for evs, F, r in self.ends:
            ws = [w for w in evs if w.kind == 'write' and w.obj[0] != scalar and w.args[0] is not None and is_num(w.args[0]) and w.args[1] is not None and is_num(w.args[1]) and (sub(w.args[0], w.args[1]) in syms or w.args[0] in syms)]
            here = [y for y in evs if y.kind == 'call' and y.obj is not None and y.obj[0] == root and y.args and y.args[0] is not None and is_num(y.args[0]) and num(y.args[0]) in ks]
            for w in ws:
                if w.name == '=' and not any(x['k'] == 'var' and x.get('id') == w.obj[0][1][1] for x in walk(w.node.get('r') or w.node.get('b') or {})):
                    self.bad('record of a pair', w, 'what one thread has added up overwrites what others have', 'sum')
                    return
            mine = self.keys_of(evs, ks)
            if not mine or all(F.implies(EQ(k, ZERO)) for k in mine):
                continue
            tot = [w.args[0] for w in ws] + syms
            if not here:
                if tot and any(F.implies(GE(ZERO, t)) or F.implies(EQ(t, ZERO)) for t in tot):
                    continue
                if any(F.implies(EQ(k, ZERO)) for k in ks):
                    continue
                self.bad('record of a pair', ev0, 'the number kept for one pair is not handed on', 'dropped')
                return
            hit = True
            if here[0].args[1] not in tot or len(here) > 1:
                self.bad('record of a pair', here[0], 'what is handed on for the pair kept apart is not its sum', 'sum')
                return
            if not self.adds(here[0]):
                self.bad('record of a pair', here[0], 'a second edge of a pair does not add its weight', 'update')
            ps = [y for y in evs if y.kind == 'vec.push' and y.obj in lists and y.args and num(y.args[0]) in ks]
            if len(ps) != 1:
                self.bad('record becomes an edge', here[0], 'the key of the pair kept apart is not listed exactly once', 'list')
                return
            if getattr(self, 'updown', False):
                up = [y for y in evs if y.kind == 'write' and y.name == '++' and y.obj[1]]
                k = num(here[0].args[0])
                ends = sorted(set(x for x in subterms(k) if x[0] in ('s', 'ld')), key=str)
                got = sorted([num(y.obj[1][-1][1]) for y in up], key=str)
                if up and got != ends:
                    self.bad('number of edges of a block', up[0], 'a new edge is not counted once at each of its blocks', 'degree')
                    return
        if hit:
            self.ok('record of a pair', 'pair kept apart')
        elif not any(True for evs, F, r in self.ends if any(num(y.args[0]) in ks for y in evs if y.kind == 'call' and y.obj is not None and y.obj[0] == root and y.args and is_num(y.args[0]))) and not hit:
            self.bad('record of a pair', ev0, 'the number kept for one pair is not handed on', 'dropped')

    def slots(self, w, a, b, evs):
        """both directions get a place of their own among the edges of their vertex"""
        pa, pb = w.args[2], w.args[3]
        good = True
        for t, p in ((a, pa), (b, pb)):
            if not (p[0] == 'ld' and p[1][1] and num(p[1][1][-1][1]) == num(t)):
                good = False
                continue
            if not any(y.kind == 'write' and y.obj == p[1] and y.args[0] is not None and is_num(y.args[0]) and sub(y.args[0], p) == ONE for y in evs):
                good = False
        if not good:
            self.bad('place of an edge', w, 'the place of a new edge is not one taken from the next free places of its vertex', 'slot')
            return
        R = pa[1][0]
        for its in self.its.values():
            for node, body, es, F, nx in its:
                h = [y for y in es if y.kind == 'g.new_node_hacky']
                ws = [y for y in es if y.kind == 'write' and y.obj[0] == R]
                if not h and not ws or any(y.name == 'cas' for y in ws):
                    continue
                if not h or len(ws) != 1 or not is_num(ws[0].args[0]):
                    self.bad('place of an edge', nx, 'the places of the edges of a vertex do not follow those of the vertex before', 'first')
                    continue
                d = sub(h[0].args[0], ws[0].args[0])
                lv = self.I.loopvars.get(ws[0].args[0])
                if not (d[0] == 'ld' and d[1][1] == ws[0].obj[1] and lv is not None and lv[1] == ZERO):
                    self.bad('place of an edge', ws[0], 'the places of the edges of a vertex do not follow those of the vertex before', 'first')
                else:
                    self.ok('place of an edge')

    # -- graphs copied edge by edge ------------------------------------------------
    def direct(self, its):
        one = its[0][4]
        fine = True
        C, D, S, merged, stamps, news = set(), set(), set(), [], set(), []
        for node, body, evs, F, nx in its:
            n, e = edge_of(body)[-1]
            W, T = app('wgt', n, e), app('tgt', n, e)
            ms = [(w,) + m for w in evs for m in made(evs, w)]
            o = self.orders(F, n, T)
            if not o:
                continue
            if not ms:
                fresh_atoms = F.atoms - body.facts.atoms
                if F.implies(EQ(W, ZERO)) or F.implies(GE(ZERO, W)):
                    continue
                adds = [y for y in evs if y.kind == 'g.setEdgeWeight' and any(a is not None and W in set(subterms(a)) for a in y.args)]
                if adds:
                    merged += [(y, o, n, T, W, F) for y in adds]
                    continue
                if any(a[0] == 'eq0' and n in parts(a[1])[1] and any(t[0] == 'ld' and ('i', T) in t[1][1] for t in parts(a[1])[1]) for a in fresh_atoms):
                    S |= o
                    stamps |= {t[1][0] for a in fresh_atoms if a[0] == 'eq0' for t in parts(a[1])[1] if t[0] == 'ld' and ('i', T) in t[1][1]}
                if o <= o <= {'eq', 'down'}:
                    D |= o
                elif not any(T in set(subterms(a)) for a in fresh_atoms) or any(W in set(subterms(a)) for a in fresh_atoms):
                    self.bad('edge copied', nx, 'an edge is left out for another reason than where it leads', 'lost')
                    fine = False
                continue
            C |= o
            news.append((n, T, evs, ms[0][0]))
            if len(ms) > 1:
                self.bad('edge copied', ms[1][0], 'an edge is copied twice', 'twice')
                fine = False
                continue
            w, a, b, wt = ms[0]
            if wt != W:
                self.bad('edge copied', w, 'the weight of a copied edge is not that of the edge', 'weight')
                fine = False
            if T not in set(subterms(b)) and T not in set(subterms(a)):
                self.bad('edge copied', w, 'a copied edge does not lead to the target of the edge', 'target')
                fine = False
        mut = any('mutable' in (ev.node.get('q') or '') for node, body, evs, F, nx in its for ev in evs if ev.kind[2:] in NEWEDGE)
        D &= {'up', 'down'}
        M = set()
        for y, o, n, T, W, F in merged:
            M |= o & {'up', 'down'}
            e2 = num(y.args[-2]) if y.args[-2] is not None else None
            w2 = app('wgt', n, e2)
            if len(y.args) != 3 or num(y.args[0]) != n or sub(num(y.args[2]), w2) != W or not F.implies(EQ(app('tgt', n, e2), T)):
                self.bad('edge copied', y, 'the weight of a parallel edge is not added to the edge between its ends', 'merge')
                fine = False
        if len(M) > 1 and mut:
            self.bad('edge copied', merged[0][0], 'the weight of a parallel edge is added when it is seen from either end, to one edge', 'parallel')
            fine = False
        S &= {'up', 'down'}
        for n, T, evs, w in news:
            if any(not any(y.kind == 'write' and y.obj == (r, (('i', T),)) and y.args[0] is not None and num(y.args[0]) == n for y in evs) for r in stamps):
                self.bad('edge copied', w, 'it is not remembered which vertices an edge was copied for', 'stamp')
                fine = False
                break
        if S and (not mut or 'up' in S) and not M:
            self.bad('edge copied', one, 'the weight of a parallel edge is dropped', 'dropped')
            fine = False
        free = {'down'} if mut and all(ev.kind == 'g.new_edge' for x in its for ev in x[2] if ev.kind[2:] in NEWEDGE) else set()
        if len(D) == 2 or D - free and (not mut or D & C) or free and 'up' in D:
            self.bad('edge copied', one, 'edges between some vertices are not copied', 'half')
            fine = False
        node = its[0][0]
        if any(x['k'] in ('break', 'return') for x in own(node['b'])):
            self.bad('edge copied', one, 'the loop over the edges of a vertex is left early', 'break')
            fine = False
        if fine:
            self.ok('edge copied', 'line %s' % node.get('l'))

    # -- which block a vertex is in ------------------------------------------------
    def numbering(self):
        self.I.run(self.f)
        self.its = {}
        for x in self.iters:
            self.its.setdefault(id(x[0]), []).append(x)
        R = 'block of a vertex'
        hits = []
        for its in self.its.values():
            if any(ev.kind == 'vec.push' and ev.obj and ev.obj[1] and ev.obj[1][-1][0] == 'i' for _, _, evs, _, _ in its for ev in evs):
                hits.append(its)
        if len(hits) != 1:
            self.bad(R, None, 'vertices are not put into their blocks in one loop', 'loop')
            return self
        its = hits[0]
        node = its[0][0]
        one = its[0][4]
        if any(x['k'] in ('break', 'return', 'continue') for x in own(node['b'])) and any(x['k'] != 'continue' for x in own(node['b']) if x['k'] in ('break', 'return')):
            self.bad(R, one, 'the loop over the vertices is left early', 'break')
            return self
        good = True
        flags = {True: [], False: []}
        parts_, rootsM, rootsR = set(), set(), set()
        for node, body, evs, F, nx in its:
            n = None
            for a in body.facts.atoms:
                if a[0] == 'app' and a[1] == 'in' and a[3][:2] == ('range', 'nodes'):
                    n = a[2]
            if n is None:
                lv = self.loop_of(node)
                if lv is None or lv[1] != ZERO:
                    self.bad(R, one, 'the vertices are not visited one after the other', 'nodes')
                    return self
                n = lv[0]
            # the slot in which the number of the set of this vertex is kept
            slot = None
            for a in F.atoms:
                if a[0] not in ('eq0', 'ne0'):
                    continue
                c0, d = parts(a[1])
                for t in d:
                    if t[0] == 'ld' and len(d) == 1 and len(t[1][1]) == 1 and t[1][1][0][0] == 'i' and setof(t[1][1][0][1], n):
                        slot = (t, -c0 * d[t], a[0] == 'eq0')
            if slot is None:
                self.bad(R, nx, 'a vertex is given a block without looking whether its set has one', 'slot')
                return self
            t, undef, new = slot
            parts_.add((t[1][0], undef))
            ws = [y for y in evs if y.kind == 'write' and y.obj == t[1]]
            other = [y for y in evs if y.kind == 'write' and y.obj[0] == t[1][0] and y not in ws]
            if other or len(ws) != (1 if new else 0):
                self.bad(R, (other or ws or [nx])[0], 'the block of a set that has one is changed' if not new else 'a set without a block is not given one' if not ws and not other else 'the block of another set is changed', 'set')
                good = False
                continue
            v = num(ws[0].args[0]) if new else t
            ups = [y for y in evs if y.kind == 'write' and not y.obj[1] and y.args[0] is not None and is_num(y.args[0]) and y.args[1] in self.I.loopvars]
            ups = [y for y in ups if y.obj[0][:1] == ('v',) and not (self.loop_of(node) and y.args[1] == self.loop_of(node)[0])]
            rp = [y for y in evs if y.kind == 'vec.push' and y.obj and y.obj[1] and y.obj[1][-1][0] == 'i']
            grown = [y for y in evs if y.kind == 'vec.push' and y.obj and not y.obj[1] and rp and y.obj[0] == rp[0].obj[0]]
            if new:
                okc = v in self.I.loopvars and self.I.loopvars[v][1] == ZERO and len(ups) == 1 and ups[0].args[1] == v and sub(ups[0].args[0], v) == ONE
                okr = v[0] == 'ld' and v[1][1][-1:] == (('f', '#size'),) and len(grown) == 1 and grown[0].obj == (v[1][0], v[1][1][:-1])
                if not okc and not okr:
                    self.bad(R, ws[0], 'the blocks are not numbered one after the other', 'number')
                    good = False
                    continue
            elif ups:
                self.bad(R, ups[0], 'a block number is used up although no block starts', 'number')
                good = False
                continue
            mw = [y for y in evs if y.kind == 'write' and y.obj != t[1] and len(y.obj[1]) == 1 and y.obj[1][0] == ('i', n)]
            mp = [y for y in evs if y.kind == 'vec.push' and y.obj and not y.obj[1] and y not in grown]
            if len(mw) + len(mp) != 1 or num((mw + mp)[0].args[0]) != v:
                self.bad(R, (mw + mp + [nx])[0], 'a vertex is not mapped to the block of its set', 'map')
                good = False
                continue
            rootsM.add((mw + mp)[0].obj[0])
            if len(rp) != 1 or num(rp[0].obj[1][-1][1]) != v or not vertex(num(rp[0].args[0]), n):
                self.bad(R, (rp + [nx])[0], 'a vertex is not listed once in the block of its set', 'list')
                good = False
                continue
            rootsR.add((rp[0].obj[0], bool(grown) if new else None))
            if new and grown and grown[0].obj[0] != rp[0].obj[0] or not new and grown:
                self.bad(R, grown[0], 'a list of vertices is added although no block starts', 'grow')
                good = False
            sp = [y for y in evs if y.kind == 'g.setPartitionIndex']
            if any([num(a) for a in y.args] != [n, v] for y in sp) or len(sp) > 1:
                self.bad(R, sp[0], 'the block remembered for a vertex is not that of its set', 'index')
                good = False
            flags[bool(sp)].append(F)
        if good:
            for F in flags[False]:
                if not any('save_cut' in show(a) and a[0] == 'eq0' for a in F.atoms):
                    self.bad(R, one, 'the block of a vertex is not remembered although the cut is to be saved', 'save')
                    good = False
                    break
            if not flags[True]:
                self.bad(R, one, 'the block of a vertex is not remembered although the cut is to be saved', 'save')
                good = False
        if len(parts_) != 1 or len(rootsM) != 1 or len({r for r, g in rootsR}) != 1:
            if good:
                self.bad(R, one, 'blocks are kept in several places', 'places')
            good = False
        if not good:
            return self
        undef = next(iter(parts_))[1]
        fresh = {g for r, g in rootsR if g is not None}
        for evs, F, r in self.ends:
            if not any(x.kind == 'loop-exit' and x.node is node for x in evs):
                if any(F.implies(EQ(a, b)) for a in [x for t in F.atoms for x in subterms(t) if show(x) == 'blocks'] for b in [x for t in F.atoms for x in subterms(t) if show(x) == 'numnodes()']):
                    continue
                self.bad(R, r, 'the graph is returned without being contracted although sets were united', 'return')
                return self
            if not any(y.kind == 'vec.ctor' and len(y.args) > 1 and y.args[1] == C(undef) for y in evs):
                self.bad(R, r, 'sets have a block before the first vertex is looked at', 'init')
                return self
            if True in fresh and False not in fresh:
                pass
            elif not any(y.kind == 'vec.ctor' and y.args and y.args[0] is not None and show(y.args[0]) in ('blocks', 'numnodes()') for y in evs):
                self.bad(R, r, 'there is no list for every block', 'lists')
                return self
            if self.f['n'] == 'fromUnionFind' and not any(y.kind == 'call' and y.name == 'contraction::contractGraph' for y in evs):
                self.bad(R, r, 'the blocks found are not contracted', 'dispatch')
                return self
        self.ok(R)
        return self

    def dispatch(self):
        """every way out contracts the graph with these blocks"""
        self.I.run(self.f)
        G = self.f['params'][0]['n']
        for evs, F, r in self.ends:
            cs = [y for y in evs if y.kind == 'call' and y.name and y.name.startswith('contraction::contractGraph')]
            if len(cs) != 1:
                self.bad('block of a vertex', r, 'the blocks found are not contracted', 'dispatch')
                return self
            y = cs[0]
            last = y.args[2] if len(y.args) > 2 else None
            if last is not None and is_num(last) and last[0] != 'snap' and not (last[0] == 'ld' and last[1][1][-1:] == (('f', '#size'),) and 'std::vector<std::vector' in show(last)):
                self.bad('block of a vertex', y, 'the number of blocks handed on is not the number of lists', 'count')
                return self
        self.ok('block of a vertex', 'handed on')
        return self

    def vertexset(self):
        """every block with two vertices or more is contracted, and then the new numbers are remembered"""
        self.I.run(self.f)
        self.its = {}
        for x in self.iters:
            self.its.setdefault(id(x[0]), []).append(x)
        R = 'block contracted'
        did = None
        for its in self.its.values():
            if not any(y.kind == 'call' and y.name and y.name.endswith('::contractVertexSet') for _, _, evs, _, _ in its for y in evs):
                continue
            did = its
            for node, body, evs, F, nx in its:
                cs = [y for y in evs if y.kind == 'call' and y.name and y.name.endswith('::contractVertexSet')]
                if not cs:
                    at = {s for s, (v, i, nid) in self.I.loopvars.items() if nid == id(node)}
                    if node['k'] == 'forrange':
                        at |= {a[2] for a in body.facts.atoms if a[0] == 'app' and a[1] == 'elem'}
                    if not any(value1(a, s) for a in F.atoms for s in at):
                        self.bad(R, nx, 'a block with several vertices is not contracted', 'skip')
                        return self
                    continue
                if len(cs) != 1 or not any(x.kind == 'loop-exit' for x in evs):
                    self.bad(R, cs[0], 'a block is not contracted once, with all its vertices', 'once')
                    return self
                if any(x['k'] in ('break', 'return') for x in own(node['b'])):
                    self.bad(R, nx, 'the loop over the blocks is left early', 'break')
                    return self
            if did[0][0]['k'] == 'for':
                self.covered(did[0][0])
            elif did[0][0]['k'] != 'forrange':
                self.bad(R, did[0][4], 'the blocks are not visited one after the other', 'blocks')
                return self
        if did is None:
            self.bad(R, None, 'no block is contracted', 'none')
            return self
        inner = [its for its in self.its.values() if its[0][0] is not did[0][0] and any(x is its[0][0] for x in walk(did[0][0]['b']))]
        good = False
        for its in inner:
            good = True
            for node, body, evs, F, nx in its:
                ad = [y for y in evs if y.kind == 'set.add']
                if len(ad) != 1 or not position(ad[0].args[0]):
                    self.bad(R, nx, 'a vertex of a block is not contracted with the others', 'member')
                    return self
        if not good:
            self.bad(R, did[0][4], 'the vertices of a block are not collected', 'collect')
            return self
        for evs, F, r in self.ends:
            if not any(x.kind == 'loop-exit' and x.node is did[0][0] for x in evs):
                self.bad(R, r, 'the graph is returned without being contracted', 'return')
                return self
        # numbers remembered
        copied = [(evs, F, r) for evs, F, r in self.ends if any(a[0] == 'ne0' and 'copy' in show(a) for a in F.atoms)]
        sets = [(its, y) for its in self.its.values() for _, _, evs, _, _ in its for y in evs if y.kind == 'g.setPartitionIndex']
        for its, y in sets:
            if not (len(y.args) == 2 and position(y.args[1]) and y.args[1][1][1][-1] == ('i', num(y.args[0]))):
                self.bad(R, y, 'the number remembered for a vertex is not the one it has in the new graph', 'index')
                return self
            if any(len([z for z in evs if z.kind == 'g.setPartitionIndex']) != 1 for _, _, evs, _, _ in its):
                self.bad(R, y, 'the number of some vertex in the new graph is not remembered', 'index')
                return self
        for evs, F, r in copied:
            after = [x for x in evs if x.kind == 'loop-exit']
            if not sets or len(after) < 2 or not any(y.kind == 'call' and y.name and y.name.endswith('resetContainedvertices') for y in evs):
                self.bad(R, r, 'the numbers of the vertices in the new graph are not remembered', 'index')
                return self
            i = [j for j, y in enumerate(evs) if y.kind == 'call' and y.name and y.name.endswith('resetContainedvertices')]
            if i and max(j for j, x in enumerate(evs) if x.kind == 'loop-exit') > i[0]:
                self.bad(R, r, 'the numbers of the vertices in the new graph are remembered after they were given up', 'order')
                return self
        self.ok(R)
        return self


def value1(a, i):
    """the fact says that a list with index i has fewer than two members"""
    if a[0] != 'ge0':
        return False
    c0, d = parts(a[1])
    if len(d) != 1:
        return False
    t, k = next(iter(d.items()))
    return k == -1 and c0 <= 1 and t[0] == 'ld' and t[1][1][-1] == ('f', '#size') and t[1][1][-2:-1] == (('i', i),)


def position(t):
    return t is not None and t[0] == 'ld' and any(x == ('f', 'current_position') for x in t[1][1])


def setof(k, n):
    """k names the set vertex n is in"""
    k = num(k)
    return k == app('find', n) or k[0] == 'ld' and k[1][1] == (('i', n),)


def vertex(t, n):
    return t == n or t[0] == 'ld' and app('contained', n) in set(subterms(t[1][0])) and t[1][1] == (('i', ZERO),)


def own(b):
    """statements of a loop body that belong to this loop"""
    st = [b]
    while st:
        x = st.pop()
        if 'k' in x:
            yield x
        for y in children_of(x):
            if y.get('k') in ('for', 'while', 'do', 'forrange', 'switch', 'lambda'):
                st.extend(z for z in walk(y) if z.get('k') == 'return')
                continue
            st.append(y)


def children_of(n):
    for v in n.values():
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def has(ev, n, e):
    W = app('wgt', n, e)
    return any(a is not None and W in set(subterms(a)) for a in ev.args)


def weights_after(evs, ev):
    i = evs.index(ev)
    for y in evs[i + 1:]:
        if y.kind == 'g.setEdgeWeight':
            return [y.args[-1]]
    return []


def made(evs, ev):
    """[(from, to, weight)] when the event makes an edge"""
    if not ev.kind.startswith('g.') or ev.kind[2:] not in NEWEDGE:
        return []
    a = ev.args
    if ev.kind == 'g.new_edge_and_reverse':
        return [(a[0], a[1], a[4])]
    if len(a) >= 3:
        return [(a[0], a[1], a[2])]
    w = weights_after(evs, ev)
    return [(a[0], a[1], w[0] if w else None)]


def edge_of(body):
    """the vertex and edge a loop over edges stands at"""
    r = []
    for a in body.facts.atoms:
        if a[0] == 'app' and a[1] == 'in' and a[3][:2] == ('range', 'edges'):
            r.append((a[3][2], a[2]))
        elif a[0] == 'ge0':
            c, d = parts(a[1])
            inv = [t for t in d if t[0] == 'app' and t[1] == 'get_first_invalid_edge' and d[t] == 1]
            e = [t for t in d if t[0] == 's' and d[t] == -1]
            if len(d) == 2 and inv and e and c == -1:
                r.append((inv[0][2], e[0]))
    return r


def run(P, c, tier):
    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        how = OTHERS.get((f['n'], f['file'].rsplit('/', 1)[-1]))
        if how and f.get('b'):
            for v in sorted(f['variants']):
                c.saw(f)
                getattr(Build(P, c, f, v), how)()
    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        if not f.get('b'):
            continue
        ns = set(x.get('n') for x in walk(f['b']) if x['k'] == 'call')
        if not (ns & {'edges_of', 'get_first_invalid_edge'} and ns & set(NEWEDGE)):
            continue
        if (f['n'], f['file'].rsplit('/', 1)[-1]) not in SUBJECTS:
            continue
        for v in sorted(f['variants']):
            c.saw(f)
            Build(P, c, f, v).run()
    for r, n in (('block of a vertex', 10), ('block contracted', 2), ('edge counted once', 6), ('record of a pair', 8), ('record becomes an edge', 6), ('direction', 5), ('everything visited', 16), ('edge copied', 7)):
        c.floor(r, n)


SUBJECTS = {('contractGraphSparse', 'contract_graph.h'), ('contractGraphFullMesh', 'contract_graph.h'), ('contractGraphSparseNoHash', 'contract_graph.h'), ('extract_block', 'graph_extractor.h'),
            ('from_graph_access', 'mutable_graph.h'), ('to_graph_access', 'mutable_graph.h'), ('copy', 'graph_access.h'), ('createCoreGraph', 'core_decomposition.h')}
OTHERS = {('fromUnionFind', 'contract_graph.h'): 'numbering', ('remap_cluster', 'minimum_cut_helpers.h'): 'numbering', ('contractGraph', 'contract_graph.h'): 'dispatch',
          ('contractGraphVertexset', 'contract_graph.h'): 'vertexset', ('contractGraphVtxset', 'contract_graph.h'): 'vertexset'}
