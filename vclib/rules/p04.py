"""The cut value returned is the best one seen, and the cut saved belongs to it."""
from ..absint import Interp, Budget, fresh, mark_unsigned
from ..ast import strip
from ..ctx import short
from ..hier import Walk, NESTED, ROLES, is_graph, is_hier, numeric
from ..program import walk, AnalysisBroken
from ..terms import *

RULE = ('Typestate over every path of the algorithms that shrink a graph level by level (value names merged where a branch shows them equal): each graph that joins the hierarchy is a contraction '
        'of the newest one into a graph of its own and is compared with the best value before the next one joins; the number passed on, used and returned is the best value; the flags in the '
        'input graph are replaced exactly when it falls; edges recorded as certain weigh as much as it and are dropped when it falls. Symbolic execution of the helpers: they compose the '
        'partition indices of every level and mark exactly the side of the cut.')
ASSUMPTIONS = ['a nested minimum cut run marks the cut it returns in the graph it is given (this property, applied to it)', 'the first graph of a hierarchy handed in carries a cut of the known value']

GRAPHS = ('graph_access', 'mutable_graph')
HELPERS = ('updateCut', 'setInitialCutValues', 'projectCut', 'setVertexLocations', 'remap_cluster', 'fromUnionFind')


def minidx_roles(P):
    """functions that look for a vertex of minimum degree"""
    r = {}
    for f in P.functions.values():
        if f.get('b') is not None and not f.get('lambda') and len(f['params']) == 1 and is_graph(f['params'][0]['t']) and numeric(f['ret']) and 'minimum_cut_helpers' in f['q'] and \
                any(x['k'] == 'call' and x.get('n') == 'getWeightedNodeDegree' for x in walk(f['b'])):
            r[f['key']] = f
    return r


class Helper:
    def __init__(self, P, c, f, variant, roles, self_role=False):
        self.P, self.c, self.f, self.variant, self.roles = P, c, f, variant, roles
        self.self_role = self_role
        self.flagloops, self.part = {}, []
        self.order = []
        self.outs = {}          # loop -> facts behind it
        self.steps = {}         # loop -> list of ({loop symbol: next value}, facts)
        self.bodies = {}        # loop -> facts at the start of the body
        self.bad = []
        self.flags = []
        self.exits = []
        self.events = []
        self.I = Interp(P, variant, prims=[self.prim], maxstates=300, budget=3000000)
        self.I.on_event = self.on
        try:
            self.I.run(f)
        except Budget:
            raise AnalysisBroken('P04: state budget exceeded in ' + f['q'])

    # -- the graph model -----------------------------------------------------
    def prim(self, I, e, st, fr, ov, op, args):
        q, n = e['q'], e.get('n')
        g = self.P.lookup(e['f'], self.variant) if 'f' in e else None
        if g is not None and g['key'] in self.roles and not (self.self_role and g['key'] == self.f['key']):
            r = app('minidx', self.I.argval(st, args[0]))
            mark_unsigned(r)
            return [(st, r)]
        if n in ('Find',) and q.split('::')[0].split('<')[0] == 'union_find':
            r = app('find', num(I.argval(st, args[0])))
            mark_unsigned(r)
            return [(st, r)]
        if n == 'n' and q.split('::')[0].split('<')[0] == 'union_find':
            r = app('blocks')
            mark_unsigned(r)
            return [(st, r)]
        if q.split('::')[0].split('<')[0] == 'contraction' and n.startswith('contractGraph'):
            I.emit(st, fr, e, 'contract', n, obj=op, args=[I.argval(st, a) for a in args], extra=[a for a in args])
            return [(st, ('ptr', (('p', fresh('contracted')), ())))]
        if q.split('::')[0].split('<')[0] not in GRAPHS or e.get('k') != 'call':
            return None
        L = self.obj(op, ov)
        vals = [num(I.argval(st, a)) if n != 'setNodeInCut' or i == 0 else I.argval(st, a) for i, a in enumerate(args)]

        def un(t):
            mark_unsigned(t)
            return [(st, t)]
        if n == 'nodes':
            return [(st, ('range', 'nodes', L))]
        if n == 'getMinDegree':
            return un(app('mindeg', L))
        if n == 'getWeightedNodeDegree':
            return un(app('deg', L, vals[0]))
        if n in ('number_of_nodes', 'n'):
            return un(app('numnodes', L))
        if n in ('getPartitionIndex', 'getCurrentPosition'):
            return un(app('part' if n == 'getPartitionIndex' else 'pos', L, vals[0]))
        if n == 'getNodeInCut':
            return un(app('flag', L, vals[0]))
        if n in ('setPartitionIndex', 'setNodeInCut', 'setCurrentPosition', 'addContainedVertex', 'new_edge_order', 'new_edge', 'setContainedVertices', 'setOriginalNodes'):
            I.emit(st, fr, e, 'g.' + n, n, obj=None, args=[L] + vals)
            return [(st, fresh(n))]
        if n in ('resetContainedvertices', 'contractVertexSet', 'contractEdge', 'contractEdgeSparseTarget'):
            I.emit(st, fr, e, 'g.' + ('reset' if n.startswith('reset') else 'merge'), n, obj=None, args=[L])
            return [(st, fresh(n))]
        if n in ('new_empty_node', 'new_node'):
            r = fresh('newnode')
            mark_unsigned(r)
            I.emit(st, fr, e, 'g.newnode', n, args=[L, r])
            return [(st, r)]
        if n == 'containedVertices':
            return None
        return None

    def obj(self, op, ov):
        if op is not None and op[0][0] == 'p' and not op[1]:
            return op[0][1]
        if ov is not None:
            return ov[1][0][1] if ov[0] == 'ptr' and not ov[1][1] and ov[1][0][0] == 'p' else ov
        return ('ld', op, 0) if op is not None else C(0)

    def level(self, L):
        """index of the graph in the hierarchy"""
        if L[0] == 'ld' and L[1][1] and L[1][1][-1][0] == 'i':
            return num(L[1][1][-1][1])
        return None

    def size(self, L):
        """number of graphs in the hierarchy graph L is taken from"""
        root, steps = L[1]
        return ('ld', (root, steps[:-1] + (('f', '#size'),)), L[2])

    def isback(self, L, F):
        i = self.level(L)
        return i is not None and (add(i, C(1)) == self.size(L) or F.implies(EQ(add(i, C(1)), self.size(L))))

    def isfirst(self, L, F):
        i = self.level(L)
        return i is not None and (i == C(0) or F.implies(EQ(i, C(0))))

    # -- events ---------------------------------------------------------------
    def every(self, x, F, L):
        """x runs over all vertices of graph L"""
        for a in F.atoms:
            if a[0] == 'app' and a[1] == 'in' and a[2] == x and a[3][:2] == ('range', 'nodes'):
                return a[3][2] == L
        lv = self.I.loopvars.get(x)
        if lv is not None and lv[1] == C(0):
            for nxt, F2 in self.steps.get(lv[2], []) or [({x: add(x, C(1))}, None)]:
                if nxt.get(x) != add(x, C(1)):
                    return False
            Fb = self.bodies.get(lv[2])
            return Fb is not None and any(Fb.implies(GT(app('numnodes', L), x)) for _ in (0,))
        return False

    def on(self, e, st):
        k = e.kind
        aux = st.aux
        if k == 'loop-body':
            self.bodies[id(e.node)] = e.facts
            aux['mark%d' % id(e.node)] = frozenset()
        elif k == 'loop-next':
            nxt = {}
            for v, (key, init, lid) in self.I.loopvars.items():
                if lid == id(e.node):
                    w = st.env.get(key)
                    if w is not None:
                        nxt[v] = w
            self.steps.setdefault(id(e.node), []).append((nxt, e.facts))
            self.events.append((e, dict(aux), e.facts))
        elif k == 'loop-exit':
            self.outs.setdefault(id(e.node), []).append(e.facts)
            aux['done'] = aux.get('done', frozenset()) | {x for x, l in self.flagloops.items() if l == id(e.node)}
            outer = [l for l in e.loops if l[0] != id(e.node)]
            if outer:
                m = 'mark%d' % outer[-1][0]
                aux[m] = aux.get(m, frozenset()) | {x for x, l in self.flagloops.items() if l == id(e.node)}
        elif k in ('g.setNodeInCut', 'g.setPartitionIndex', 'g.setCurrentPosition', 'g.addContainedVertex', 'g.new_edge_order', 'g.new_edge', 'g.newnode'):
            self.flags.append((e, dict(aux)))
            what = self.kind(e)
            if e.loops:
                self.flagloops[what] = e.loops[-1][0]
                m = 'mark%d' % e.loops[-1][0]
                aux[m] = aux.get(m, frozenset()) | {what}
            if k == 'g.newnode':
                aux['newnode'] = e.args[1]
        elif k in ('g.reset', 'g.merge'):
            aux[k] = aux.get(k, frozenset()) | {e.args[0]}
            self.order.append((e, dict(aux)))
        elif k in ('vec.push',):
            self.flags.append((e, dict(aux)))
            if e.loops and e.args:
                m = 'mark%d' % e.loops[-1][0]
                aux[m] = aux.get(m, frozenset()) | {('push', e.obj, e.args[0])}
                aux['lastpush'] = (e.obj, e.args[0])
        elif k == 'write' and e.obj is not None and e.obj[1]:
            self.flags.append((e, dict(aux)))
        elif k == 'contract':
            self.flags.append((e, dict(aux)))
        elif k == 'exit':
            self.exits.append((e, dict(aux)))

    def kind(self, e):
        if e.kind == 'g.setPartitionIndex':
            v = e.args[3 - 1]
            return 'part:' + (v[1] if v[0] == 'app' else 'new' if v[0] == 's' and v[1] == 'newnode' else 'other')
        return e.kind

    def viol(self, rule, e, what, tag):
        self.c.violation(rule, e.fn, e.line, what, tag=tag)

    # -- shared facts -----------------------------------------------------------
    def composed(self, t, x, F, hier):
        """t is vertex x carried through the partition indices of every level below the newest"""
        lv = self.I.loopvars.get(t)
        if lv is None or lv[1] != x:
            return 'it does not start from the vertex itself'
        lid = lv[2]
        sts = self.steps.get(lid)
        if not sts:
            return 'no step is taken'
        idx = None
        for nxt, F2 in sts:
            w = nxt.get(t)
            if w is None or not (w[0] == 'app' and w[1] == 'part' and w[3] == t):
                return 'a step is not the partition index of the vertex reached so far'
            L = w[2]
            if L[0] != 'ld' or (L[1][0], L[1][1][:-1]) != hier:
                return 'a step uses another graph'
            i = self.level(L)
            cands = [v for v, (key, init, l2) in self.I.loopvars.items() if l2 == lid and v in nxt and v == i]
            if not cands:
                return 'the level does not advance with the steps'
            i = cands[0]
            if self.I.loopvars[i][1] != C(0) or nxt[i] != add(i, C(1)):
                return 'not every level from the first on is used once'
            Fb = self.bodies.get(lid)
            sz = self.size(L)
            if Fb is None or not Fb.implies(GT(sz, add(i, C(1)))):
                return 'the newest graph is passed through as well'
            idx = i, sz
        if not F.implies(GE(add(idx[0], C(1)), idx[1])):
            return 'the newest graph may not be reached'
        return ''

    def saved(self, F):
        """configuration says the cut is saved / not saved / unknown"""
        for a in F.atoms:
            for s in subterms(a):
                if s[0] == 'ld' and s[1][1] and s[1][1][-1] == ('f', 'save_cut'):
                    if a[0] == 'ne0':
                        return True
                    if a[0] == 'eq0':
                        return False
        return None

    def hier(self, L):
        return (L[1][0], L[1][1][:-1]) if L[0] == 'ld' and L[1][1] else None


def side(e, t, m, F):
    """the flag written is 'vertex t is m'"""
    v = e.args[2]
    eq = EQ(t, m)
    if v in (TRUE, FALSE) or v[0] == 'c':
        tv = v == TRUE or v[0] == 'c' and v[1] != 0
        return F.implies(eq if tv else NE(t, m))
    return v == eq or v == tobool(eq)


def flags_rule(H, want, c):
    """every flag.set event marks vertex x of the first graph iff its place in the newest graph is on the cut's side"""
    n = 0
    for e, aux in H.flags:
        if e.kind != 'g.setNodeInCut':
            continue
        n += 1
        F = e.facts
        L, x = e.args[0], e.args[1]
        if not H.isfirst(L, F):
            H.viol('cut flags', e, 'flags are set in another graph than the first of the hierarchy', 'graph')
            continue
        if not H.every(x, F, L):
            H.viol('cut flags', e, 'the vertex flagged is not every vertex of the first graph in turn', 'vertex')
            continue
        h = H.hier(L)
        v = e.args[2]
        if want == 'initial':
            ms = [s for a in list(F.atoms) + [v] for s in subterms(a) if s[0] == 'app' and s[1] == 'minidx']
            good = any(side(e, x, m, F) and (H.isback(m[2], F) or H.isfirst(m[2], F)) for m in ms)
            if not good:
                H.viol('cut flags', e, 'the vertices flagged at the start are not one vertex of minimum degree', 'initial')
                continue
        elif want == 'project':
            if not (v[0] == 'app' and v[1] == 'flag' or v[0] in ('ne0',) and v[1][0] == 'app' and v[1][1] == 'flag' or v in (TRUE, FALSE)):
                H.viol('cut flags', e, 'a vertex does not take over the flag it has in the newest graph', 'project')
                continue
            fl = v if v[0] == 'app' else v[1] if v not in (TRUE, FALSE) else None
            if fl is None:
                c0 = [s for a in F.atoms for s in subterms(a) if s[0] == 'app' and s[1] == 'flag']
                fl = next((s for s in c0 if F.implies(NE(s, C(0)) if v == TRUE else EQ(s, C(0)))), None)
            if fl is None or not H.isback(fl[2], F) or H.hier(fl[2]) != h:
                H.viol('cut flags', e, 'a vertex does not take over the flag it has in the newest graph', 'project')
                continue
            w = H.composed(fl[3], x, F, h)
            if w:
                H.viol('cut flags', e, 'the place of a vertex in the newest graph is not its partition index through all levels: ' + w, 'compose')
                continue
        else:
            ms = [s for a in list(F.atoms) + [v] for s in subterms(a) if s[0] == 'app' and s[1] == 'minidx']
            ts = [s for a in list(F.atoms) + [v] for s in subterms(a) if s in H.I.loopvars or s == x]
            hit = [(t, m) for m in ms for t in ts if side(e, t, m, F)]
            if not hit:
                H.viol('cut flags', e, 'the vertices flagged are not those that became the vertex of minimum degree', 'side')
                continue
            t, m = hit[0]
            if not H.isback(m[2], F):
                H.viol('cut flags', e, 'the vertex of minimum degree is not taken from the newest graph', 'side')
                continue
            w = H.composed(t, x, F, h)
            if w:
                H.viol('cut flags', e, 'the place of a vertex in the newest graph is not its partition index through all levels: ' + w, 'compose')
                continue
            md = app('mindeg', m[2])
            mark_unsigned(md)
            prev = want[1]
            if not F.implies(GT(app('numnodes', m[2]), C(1))) or not F.implies(GT(prev, md)):
                H.viol('cut flags', e, 'the flags are replaced although the newest graph has no smaller cut', 'guard')
                continue
        c.ok('cut flags', '%s:%s' % (e.fn['file'], e.line))
    # no vertex is left out
    lids = {H.flagloops.get('g.setNodeInCut')}
    for e, aux, F in H.events:
        if id(e.node) in lids and 'g.setNodeInCut' not in aux.get('mark%d' % id(e.node), ()):
            H.viol('cut flags', e, 'some vertices keep the flag of an earlier cut', 'skipped')
    return n


def check_update(P, c, f, variant, roles):
    H = Helper(P, c, f, variant, roles)
    if H.self_role:
        return
    prev = next((('s', 'arg:%s:%s' % (p['n'], p['t'].replace('const ', '')), 0) for p in f['params'] if numeric(p['t'])), None)
    flags_rule(H, ('update', prev), c)
    for e, aux in H.exits:
        F = e.facts
        v = num(e.args[0]) if e.args else None
        bs = {s[2] for a in list(F.atoms) + ([v] if v else []) for s in subterms(a) if s[0] == 'app' and s[1] in ('numnodes', 'mindeg') and H.isback(s[2], F)}
        if not bs or v is None:
            H.viol('value', e, 'the value returned does not depend on the newest graph', 'value')
            continue
        L = sorted(bs, key=str)[0]
        md, nn = app('mindeg', L), app('numnodes', L)
        mark_unsigned(md)
        mark_unsigned(nn)
        small, big = F.implies(GE(C(1), nn)), F.implies(GT(nn, C(1)))
        ismin = v[0] == 'app' and v[1] == 'min' and set(v[2:]) == {prev, md}
        if small and v == prev or big and (ismin or v == md and F.implies(GE(prev, md)) or v == prev and F.implies(GE(md, prev))):
            c.ok('value', e.where())
        else:
            H.viol('value', e, 'the value returned is not the smaller one of the value so far and the minimum degree of the newest graph (if that has two vertices)', 'value')
        if H.saved(F) is not False and big and F.implies(GT(prev, md)) and 'g.setNodeInCut' not in aux.get('done', ()):
            if H.saved(F):
                H.viol('cut flags', e, 'the value falls but the flags are not replaced', 'stale')


def check_flags(P, c, f, variant, roles, want):
    H = Helper(P, c, f, variant, roles)
    n = flags_rule(H, want, c)
    for e, aux in H.exits:
        if H.saved(e.facts) and 'g.setNodeInCut' not in aux.get('done', ()):
            H.viol('cut flags', e, 'the cut is wanted but no flags are set', 'stale')
    if not n:
        c.violation('cut flags', f, f['l'], 'no flags are set', tag='none')


def check_minidx(P, c, f, variant, roles):
    """the vertex returned attains the minimum degree"""
    H = Helper(P, c, f, variant, roles, self_role=True)
    G = ('s', 'arg:%s:%s' % (f['params'][0]['n'], f['params'][0]['t'].lstrip('&').replace('const ', '')), 0)
    steps = 0

    def attains(v, F):
        return any(F.implies(EQ(s, app('mindeg', s[2]))) for a in F.atoms for s in subterms(a) if s[0] == 'app' and s[1] == 'deg' and s[3] == v)
    for e, aux, F in H.events:
        for nxt, F2 in H.steps.get(id(e.node), []):
            for v, w in nxt.items():
                steps += w != v
                if w != v and not attains(w, F2) and w != add(v, C(1)):
                    H.viol('minimum vertex', e, 'a vertex is taken that does not attain the minimum degree', 'min')
    for e, aux in H.exits:
        v = num(e.args[0])
        if attains(v, e.facts):
            c.ok('minimum vertex', e.where())
        elif v in H.I.loopvars:
            c.ok('minimum vertex', e.where())
        else:
            H.viol('minimum vertex', e, 'the vertex returned is not shown to attain the minimum degree', 'min')


def check_locations(P, c, f, variant, roles):
    """unpacking: every vertex of every level learns its place in the cactus"""
    H = Helper(P, c, f, variant, roles)
    par = {p['n']: ('s', 'arg:%s:%s' % (p['n'], p['t'].lstrip('&').replace('const ', '')), 0) for p in f['params']}
    ps = f['params']
    out = ('s', 'arg:%s:%s' % (ps[0]['n'], ps[0]['t']), 0)
    ids = (('p', par[ps[2]['n']]), ())
    edges = ('p', par[ps[3]['n']])
    cut = par[ps[4]['n']]
    rule = 'unpacking'

    def rec(v, fld):
        """v is .fld of a recorded edge -> index of the record"""
        if v[0] == 'ld' and v[1][0] == edges and v[1][1] and v[1][1][-1] == ('f', fld) and v[1][1][0][0] == 'i':
            return num(v[1][1][0][1])
        return None

    def atlevel(i, g, F):
        return any(a[0] in ('eq0', 'ne0', 'ge0') for a in F.atoms) and F.implies(EQ(i, ('ld', (ids[0], (('i', g),)), 0)))
    seen = set()
    for e, aux in H.flags:
        F = e.facts
        if e.kind == 'g.setPartitionIndex':
            L, x, v = e.args
            i = H.level(L)
            if H.isback(L, F) and v[0] == 'app' and v[1] == 'pos' and v[2] == out and v[3] == x and H.every(x, F, L):
                seen.add('start')
            elif v[0] == 'app' and v[1] == 'part' and v[3][0] == 'app' and v[3][1] == 'part' and v[3][2] == L and v[3][3] == x and i is not None and \
                    H.level(v[2]) == add(i, C(1)) and H.hier(v[2]) == H.hier(L) and H.every(x, F, L):
                seen.add('step')
            elif v[0] == 's' and v[1] == 'newnode' and v == aux.get('newnode') and rec(x, 'first') is not None and i is not None:
                if not atlevel(i, rec(x, 'first'), F):
                    H.viol(rule, e, 'a certain edge is put back at another level than the one it was recorded for', 'level')
                    continue
                if rec(x, 'first') not in H.I.loopvars:
                    H.viol(rule, e, 'a record stays the next one after it was used', 'records')
                    continue
                seen.add('edge')
            else:
                H.viol(rule, e, 'the place of a vertex is neither that of the vertex it was contracted into nor a vertex put back for a certain edge', 'place')
                continue
            c.ok(rule, '%s:%s' % (e.fn['file'], e.line))
        elif e.kind in ('g.new_edge_order', 'g.new_edge'):
            a, b = e.args[1], e.args[2]
            if b[0] == 's':
                a, b = b, a
            if not (a[0] == 's' and a == aux.get('newnode') and b[0] == 'app' and b[1] == 'part' and rec(b[3], 'second') is not None):
                H.viol(rule, e, 'the vertex put back is not joined to the place of the other end of its edge', 'join')
            elif not atlevel(H.level(b[2]), rec(b[3], 'second'), F):
                H.viol(rule, e, 'a certain edge is put back at another level than the one it was recorded for', 'level')
            elif len(e.args) < 4 or e.args[3] != cut:
                H.viol(rule, e, 'a certain edge does not get the value of the cut as weight', 'weight')
            else:
                c.ok(rule, '%s:%s' % (e.fn['file'], e.line))
                seen.add('join')
        elif e.kind == 'g.setCurrentPosition':
            x, v = e.args[1], e.args[2]
            if v[0] == 'app' and v[1] == 'part' and H.isfirst(v[2], F) and v[3] == x and H.every(x, F, v[2]) and e.args[0] == out:
                c.ok(rule, '%s:%s' % (e.fn['file'], e.line))
                seen.add('position')
            else:
                H.viol(rule, e, 'the position of an input vertex is not the place found for it', 'position')
        elif e.kind == 'g.addContainedVertex':
            v, x = e.args[1], e.args[2]
            if v[0] == 'app' and v[1] == 'part' and H.isfirst(v[2], F) and v[3] == x and H.every(x, F, v[2]) and e.args[0] == out:
                c.ok(rule, '%s:%s' % (e.fn['file'], e.line))
                seen.add('contained')
            else:
                H.viol(rule, e, 'an input vertex is not listed at the place found for it', 'contained')
    for w, t in (('start', 'the newest graph does not take over the positions of the cactus'), ('step', 'the places are not carried down a level'),
                 ('edge', 'certain edges are not put back'), ('join', 'certain edges are not put back'), ('position', 'input vertices do not get their position'),
                 ('contained', 'input vertices are not listed in the cactus')):
        if w not in seen:
            c.violation(rule, f, f['l'], t, tag='no ' + w)
    # the levels are gone through one by one, downwards, and records are used up one by one
    for e, aux, F in H.events:
        lid = id(e.node)
        marks = aux.get('mark%d' % lid, frozenset())
        inner = [l for l in e.loops]
        lvl = None
        for x, ax in H.flags:
            if x.kind == 'g.setPartitionIndex' and H.kind(x) == 'part:part' and len(x.loops) >= 2 and x.loops[-2][0] == lid:
                lvl = H.level(x.args[0])
        if lvl is None:
            continue
        for nxt, F2 in H.steps.get(lid, []):
            for v, w in nxt.items():
                if any(v == s for s in subterms(lvl)):
                    if w != sub(v, C(1)):
                        H.viol(rule, e, 'not every level is gone through, from the newest one down', 'order')
                    elif H.I.loopvars[v][1][0] != 'ld' and not (H.I.loopvars[v][1][0] == 'L'):
                        H.viol(rule, e, 'the levels do not start with the newest one', 'order')
        for Fo in H.outs.get(lid, []):
            sz = [s for a in Fo.atoms for s in subterms(a) if s[0] == 'ld' and s[1][1] and s[1][1][-1] == ('f', '#size') and s[1][0] not in (ids[0], edges)]
            if not (Fo.implies(GE(C(-1), lvl)) or any(Fo.implies(GE(C(1), s)) for s in sz)):
                H.viol(rule, e, 'the levels are not gone through down to the first one', 'bottom')
        if 'part:part' not in marks:
            L = lvl
            sz = [s for a in F.atoms for s in subterms(a) if s[0] == 'ld' and s[1][1] and s[1][1][-1] == ('f', '#size') and s[1][0] not in (ids[0], edges)]
            if not any(F.implies(GE(add(L, C(1)), s)) for s in sz):
                H.viol(rule, e, 'a level keeps the places of an earlier step', 'skip')
        gs = [(v, init) for v, (key, init, l2) in H.I.loopvars.items() if l2 == lid and not any(v == s for s in subterms(lvl))]
        for v, init in gs:
            if not any(rec(x.args[1], 'first') == v for x, ax in H.flags if x.kind == 'g.setPartitionIndex'):
                continue
            if init != sub(('ld', (ids[0], (('f', '#size'),)), 0), C(1)):
                H.viol(rule, e, 'the certain edges recorded last are not put back first', 'records')
            for nxt, F2 in H.steps.get(lid, []):
                w = nxt.get(v, v)
                if w == v and atlevel(lvl, v, F2) and F2.implies(NE(v, C(-1))):
                    H.viol(rule, e, 'a record stays the next one after it was used', 'records')
                if w != v and (w != sub(v, C(1)) or not atlevel(lvl, v, F2)):
                    H.viol(rule, e, 'a record is passed over', 'records')
    for e, aux in H.exits:
        if H.saved(e.facts) and 'g.addContainedVertex' not in aux.get('done', ()):
            H.viol(rule, e, 'the cut is wanted but the input vertices are not listed in the cactus', 'contained')


def check_mapping(P, c, f, variant, roles):
    """partition index of a vertex = number of the block it is contracted into"""
    H = Helper(P, c, f, variant, roles)
    rule = 'partition index'
    sets = [(e, aux) for e, aux in H.flags if e.kind == 'g.setPartitionIndex']
    maps = {}
    for e, aux in H.flags:
        if e.kind == 'write' and len(e.obj[1]) == 1 and e.obj[1][0][0] == 'i' and e.args:
            maps.setdefault((num(e.obj[1][0][1]), num(e.args[0])), []).append(e)
    lid = H.flagloops.get('part:ld') or next((v for k, v in H.flagloops.items() if k.startswith('part:')), None)
    if not sets:
        c.violation(rule, f, f['l'], 'no partition index is set', tag='none')
        return
    G = ('s', 'arg:%s:%s' % (f['params'][0]['n'], f['params'][0]['t'].lstrip('&').replace('const ', '')), 0)
    for e, aux in sets:
        L, x, v = e.args
        F = e.facts
        if L != G or not H.every(x, F, L):
            H.viol(rule, e, 'partition indices are not set for every vertex of the graph that is contracted', 'vertex')
            continue
        pushed = aux.get('lastpush')
        ok = (num(x), num(v)) in maps
        if not ok:
            ok = any(F.implies(EQ(b, v)) for (a, b) in maps if a == x)
        if not ok and pushed is not None:
            ms = {y for l in e.loops for y in aux.get('mark%d' % l[0], ())}
            ok = any(y[0] == 'push' and (num(y[2]) == num(v) or F.implies(EQ(num(y[2]), num(v)))) for y in ms if isinstance(y, tuple))
        if ok:
            c.ok(rule, '%s:%s' % (e.fn['file'], e.line))
        else:
            H.viol(rule, e, 'the partition index of a vertex is not the block it is contracted into', 'block')
    for e, aux, F in H.events:
        if id(e.node) == lid and H.saved(F) and not any(isinstance(m, str) and m.startswith('part:') for m in aux.get('mark%d' % lid, ())):
            H.viol(rule, e, 'a vertex keeps an old partition index', 'skipped')


def check_copied(P, c, f, variant, roles):
    """vertex sets merged in a copy of the graph: the partition index is the position in the copy after merging, before positions start anew"""
    rule = 'partition index'
    H = Helper(P, c, f, variant, roles)
    rets = {num(e.args[0]) if e.args else None for e, aux in H.exits}
    for e, aux in H.flags:
        if e.kind != 'g.setPartitionIndex':
            continue
        L, x, v = e.args
        if L[0] != 's' or not L[1].startswith('arg:'):
            H.viol(rule, e, 'partition indices are set in another graph than the one that is contracted', 'graph')
        elif not (v[0] == 'app' and v[1] == 'pos' and num(v[3]) == num(x) and v[2] != L):
            H.viol(rule, e, 'the partition index of a vertex is not its position in the contracted copy', 'position')
        elif v[2] in aux.get('g.reset', ()):
            H.viol(rule, e, 'positions are read after they started anew', 'reset')
        else:
            c.ok(rule, '%s:%s' % (e.fn['file'], e.line))
    for e, aux in H.order:
        if e.kind == 'g.merge' and any(x.kind == 'g.setPartitionIndex' for x, a in H.flags if x.line < e.line and any('pos' == s[1] for s in subterms(x.args[2]) if s[0] == 'app') and a.get('g.merge', frozenset()) < aux['g.merge']):
            H.viol(rule, e, 'vertices are merged after their positions were taken', 'late')


def moves(f):
    """function that regroups vertices of a graph: takes the graph, the block of each vertex and the vertices of each block"""
    t = [p['t'].replace('&', '').rstrip(' *') for p in f['params'] if not p['t'].startswith('&const')]
    return f['ret'] == 'void' and any(is_graph(p['t']) for p in f['params']) and 'std::vector<unsigned int>' in t and 'std::vector<std::vector<unsigned int>>' in t


def check_moves(P, c, f, variant, roles):
    """a vertex that changes its block after the partition indices were set takes its partition index along"""
    rule = 'partition index'
    H = Helper(P, c, f, variant, roles)
    G = next(p for p in f['params'] if is_graph(p['t']))
    m = next(p for p in f['params'] if p['t'].replace('&', '').rstrip(' *') == 'std::vector<unsigned int>')
    rm = next(p for p in f['params'] if p['t'].replace('&', '').rstrip(' *') == 'std::vector<std::vector<unsigned int>>')

    def root(o, p):
        return o is not None and any(x[0] == 's' and x[1].startswith('arg:%s:' % p['n']) for x in o[0][1:])
    evs = [(e, aux) for e, aux in H.flags]
    for e, aux in evs:
        if e.kind == 'g.setPartitionIndex':
            if e.args[0][0] != 's' or not e.args[0][1].startswith('arg:%s:' % G['n']):
                H.viol(rule, e, 'partition indices are set in another graph', 'graph')
            continue
        if not (e.kind == 'write' and root(e.obj, m) and len(e.obj[1]) == 1 and e.obj[1][0][0] == 'i'):
            continue
        x, v = num(e.obj[1][0][1]), num(e.args[0])
        same = [y for y, a in evs if [l[0] for l in y.loops] == [l[0] for l in e.loops]]
        sets = [y for y in same if y.kind == 'g.setPartitionIndex' and num(y.args[1]) == x and (num(y.args[2]) == v or y.facts.implies(EQ(y.args[2], v)))]
        pushed = [y for y in same if y.kind == 'vec.push' and root(y.obj, rm) and y.args and y.args[0] == ('vecl', (x,)) and num(y.args[1]) == v]
        # the index is set on every path of the write on which the cut is wanted
        own = lambda F: frozenset(a for a in F.atoms if not any(s[0] == 'ld' and s[1][1] and s[1][1][-1] == ('f', 'save_cut') for s in subterms(a)))
        good = any(own(y.facts) <= own(e.facts) and H.saved(y.facts) is not False for y in sets)
        c.check(good, rule, e.fn, e.line, 'a vertex changes its block but keeps the partition index of the block it was in', tag='moved')
        c.check(bool(pushed), rule, e.fn, e.line, 'the block a vertex is moved to is not one that holds it', tag='moved block')


def run(P, c, tier):
    roles = minidx_roles(P)
    for k, f in sorted(roles.items()):
        c.saw(f)
        check_minidx(P, c, f, sorted(f['variants'])[0], roles)
    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        if f.get('b') is None or f.get('lambda'):
            continue
        n = f['n']
        if n in HELPERS and ('minimum_cut_helpers' in f['q'] or 'contraction' in f['q']):
            for v in sorted(f['variants'])[:1]:
                c.saw(f)
                if n == 'updateCut':
                    check_update(P, c, f, v, roles)
                elif n == 'setInitialCutValues':
                    check_flags(P, c, f, v, roles, 'initial')
                elif n == 'projectCut':
                    check_flags(P, c, f, v, roles, 'project')
                elif n == 'setVertexLocations':
                    check_locations(P, c, f, v, roles)
                else:
                    check_mapping(P, c, f, v, roles)
        elif 'contraction' in f['q'] and is_graph(f['ret']) and any(x['k'] == 'call' and x.get('n') == 'contractVertexSet' for x in walk(f['b'])) and \
                any(x['k'] == 'call' and x.get('n') == 'setPartitionIndex' for x in walk(f['b'])):
            for v in sorted(f['variants'])[:1]:
                c.saw(f)
                check_copied(P, c, f, v, roles)
        elif 'contraction' in f['q'] and moves(f):
            for v in sorted(f['variants'])[:1]:
                c.saw(f)
                check_moves(P, c, f, v, roles)
        elif n in NESTED:
            for v in sorted(f['variants']):
                W = Walk(P, v, lambda r, fn, l, w, t: c.violation(r, fn, l, w, tag=t), lambda r, fn, l: c.ok(r, '%s:%s' % (fn['file'], l)))
                if any(x['k'] == 'call' and (x.get('n') in ROLES or 'f' in x and W.takes_part(P.lookup(x['f'], v))) for x in walk(f['b'])):
                    c.saw(f)
                    W.run(f)
    for r, k in (('levels', 8), ('judged', 5), ('best value', 12), ('saved cut', 6), ('certain edges', 2), ('cut flags', 3), ('value', 1), ('minimum vertex', 1), ('unpacking', 4),
                 ('partition index', 4)):
        c.floor(r, k)
