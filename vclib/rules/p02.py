"""Vertices are merged by a local test only on evidence that keeps the minimum cuts apart from them."""
from ..absint import Interp, Budget
from ..ast import strip, int_const
from ..cg import CallGraph
from ..gmodel import graph_prims, Marks, Evidence
from ..program import walk, AnalysisBroken
from ..terms import *
from ..ctx import short

RULE = ('Symbolic execution of every local contraction test over all paths (loops by havoc and induction on what one iteration adds): at every merge the path condition must '
        'imply one of the accepted pieces of evidence (an edge as heavy as the bound, more than half of a weighted degree, a triangle, accumulated common neighbours), '
        'stated for the bound the callers pass; for tests that must keep every minimum cut, only evidence that keeps all of them.')
ASSUMPTIONS = ['weights and degrees of an undirected graph without self loops', 'the bound handed over by a caller is the value of a cut known to it (separate property)']

CLASSES = ('tests', 'all_cut_local_red')


def home(q):
    return short(q).split('::')[0]


class Run(Interp):
    def join_aux(self, k, a, b):
        if k == 'pend':
            return (a or frozenset()) | (b or frozenset())
        return super().join_aux(k, a, b)


def base_offset(e, f, depth=0):
    """(description of the value, constant added to it)"""
    e = strip(e)
    if e is None:
        return None
    c = int_const(e)
    if c is not None:
        return None
    if e['k'] == 'bin' and e['op'] in ('+', '-'):
        a, b = int_const(e['a']), int_const(e['b'])
        if b is not None:
            r = base_offset(e['a'], f, depth)
            return r and (r[0], r[1] + (b if e['op'] == '+' else -b))
        if a is not None and e['op'] == '+':
            r = base_offset(e['b'], f, depth)
            return r and (r[0], r[1] + a)
        return None
    if e['k'] == 'ref':
        vid = e.get('id')
        init, writes, addr = None, 0, False
        for x in walk(f['b']):
            if x['k'] == 'var' and x.get('id') == vid:
                init = x.get('init')
            if x['k'] == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '<=', '>=', '!=') and strip(x['a']) and strip(x['a']).get('id') == vid:
                writes += 1
            if x['k'] == 'un' and x['op'] in ('++', '--', '&', '++p', 'p++') and strip(x['e']) and strip(x['e']).get('id') == vid:
                writes += 1
        if init is not None and writes == 0 and depth < 4:
            i = strip(init)
            if i['k'] in ('ref', 'mem', 'bin'):
                r = base_offset(init, f, depth + 1)
                if r:
                    return r
        return (e.get('n'), 0)
    if e['k'] == 'mem':
        return (e.get('n'), 0)
    if e['k'] == 'call':
        return (e.get('n'), 0)
    return None


def mode_of(q):
    return 'cactus' in q


def configs(P, G, f, c):
    """(find_all_cuts value or None, constant d with K = limit + d, all cuts?, caller)"""
    lim = [i for i, p in enumerate(f['params']) if p['t'].replace('const ', '').lstrip('&') in ('u64', 'i64', 'u32', 'i32')]
    flag = [i for i, p in enumerate(f['params']) if p['t'].replace('const ', '').lstrip('&') == 'bool']
    if len(lim) != 1:
        raise AnalysisBroken('P02: no single bound among the parameters of ' + f['q'])
    out = []
    for g, x in G.sites.get(f['key'], ()):
        if home(g['q']) in CLASSES:
            continue
        allc = 'cactus' in g['file'] or 'cactus' in g['q']
        bo = base_offset(x['args'][lim[0]], g)
        if bo is None or bo[1] < 0 and False:
            c.violation('bound handed to a test', g, x.get('l'), 'the bound handed to %s is not the value of a cut plus a constant' % short(f['q']), tag=short(f['q']))
            continue
        c.ok('bound handed to a test', g.where(x.get('l')))
        fl = None
        if flag:
            v = strip(x['args'][flag[0]]) if flag[0] < len(x['args']) else None
            if v is not None and v['k'] == 'bool':
                fl = bool(v['v'])
        out.append((fl, -bo[1] + (1 if allc else 0), allc, g, x, flag, lim))
    if not out:
        out.append((False if flag else None, 0, False, None, None, flag, lim))
    uniq = {}
    for o in out:
        uniq.setdefault(o[:3], o)
    return list(uniq.values())


def analyse(P, c, f, variant, conf):
    fl, d, allc, g, site, flag, lim = conf
    args = [None] * len(f['params'])
    L = ('s', 'bound', 0)
    from ..absint import mark_unsigned
    mark_unsigned(L)
    args[lim[0]] = L
    if flag and fl is not None:
        args[flag[0]] = ('true',) if fl else ('false',)
    return L, args


def truth(v):
    return v == ('true',) or v[0] == 'c' and v[1] != 0


def run_one(P, c, f, variant, conf):
    L, args = analyse(P, c, f, variant, conf)
    fl, d, allc, g = conf[:4]
    I = Run(P, variant, prims=[graph_prims], maxstates=200, budget=6000000)
    marks = Marks()
    ev = Evidence(I, marks, add(L, C(d)), allc)
    unions, missing, resets = [], set(), set()
    markw = {}            # root -> [(event)]
    nexts = []

    caches = {}           # array root -> holds the degree of the vertex at every index read

    def cache(e):
        p, v = e.obj, e.args[0] if e.args else None
        if p is None or v is None:
            return
        if e.kind == 'write' and len(p[1]) == 1 and p[1][0][0] == 'i':
            caches[p[0]] = caches.get(p[0], True) and num(v) == app('deg', num(p[1][0][1]))
        elif e.kind == 'vec.push' and not p[1]:
            # one element per vertex, in the order of the vertices
            x = num(v)
            inl = x[0] == 'app' and x[1] == 'deg' and len(e.loops) == 1 and ('app', 'in', x[2], ('range', 'nodes')) in e.facts.atoms
            only = len([a for a in e.facts.atoms if x in set(subterms(a)) or x[0] == 'app' and len(x) > 2 and x[2] in set(subterms(a))]) == 1
            caches[p[0]] = caches.get(p[0], True) and inl and only

    def on(e, st):
        cache(e)
        if e.kind == 'write' and e.obj is not None and e.args:
            marks.add(e.obj, e.args[0], e.facts)
            steps = e.obj[1]
            if len(steps) == 1 and steps[0][0] == 'i':
                markw.setdefault(e.obj[0], []).append(e)
                st.aux['erased'] = (st.aux.get('erased') or frozenset()) | {(e.obj[0], num(steps[0][1]), Marks.leafs(e.args[0])[1])}
                if not (e.args[0] == ('true',) or e.args[0][0] == 'c' and e.args[0][1] != 0):
                    resets.add(e.obj[0])
                else:
                    st.aux['setin'] = (st.aux.get('setin') or frozenset()) | {(e.obj[0], num(steps[0][1]), e.name == 'cas')}
                    p = st.aux.get('pend') or frozenset()
                    st.aux['pend'] = frozenset(x for x in p if not (x[1][0] == e.obj[0] and len(x[1][1]) == 1 and same_i(x[1][1][0], steps[0], e.facts)))
        elif e.kind == 'vec.ctor':
            pass
        elif e.kind == 'union':
            unions.append(e)
            p = set(st.aux.get('pend') or ())
            e.flags = []
            setin = st.aux.get('setin') or ()
            for a in e.facts.atoms:
                if a[0] == 'eq0' and a[1][0] == 'ld' and len(a[1][1][1]) == 1 and a[1][1][1][0][0] == 'i':
                    path = (a[1][1][0], tuple(a[1][1][1]))
                    i = num(path[1][0][1])
                    how = [x for x in setin if x[0] == path[0] and (x[1] == i or e.facts.implies(EQ(x[1], i), depth=1))]
                    if how and (not e.omp or any(x[2] for x in how)):
                        e.flags.append((i, path, False))
                    elif not how and not e.omp and I.read(st, path) == a[1]:
                        e.flags.append((i, path, True))
                        p.add((e.seq, path))
            st.aux['pend'] = frozenset(p)
        elif e.kind in ('loop-next', 'exit', 'return'):
            for x in st.aux.get('pend') or ():
                missing.add(x)
            if e.kind == 'loop-next':
                lid = e.loops[-1][0] if e.loops else None
                for sym, (key, entry, loop) in list(I.loopvars.items()):
                    if loop == lid and key in st.env:
                        v = st.env[key]
                        ev.incs.setdefault(sym, [])
                        t = (num(v), e.facts)
                        if t not in ev.incs[sym]:
                            ev.incs[sym].append(t)
                nexts.append((e, st.aux.get('erased') or frozenset()))
        elif e.kind == 'loop-body':
            st.aux['erased'] = st.aux['setin'] = frozenset()
    I.on_event = on
    try:
        I.run(f, args=args)
    except Budget:
        raise AnalysisBroken('P02: state budget exceeded in ' + f['q'])
    for x in walk(f['b']):
        if x['k'] == 'omp' and False:
            pass
    ev.caches = {r for r, ok in caches.items() if ok}
    ev.stale = stale_roots(marks, markw, nexts)
    return I, ev, unions, missing, resets


def same_i(a, b, F):
    return a == b or F.implies(EQ(num(a[1]), num(b[1])), depth=1)


def stale_roots(marks, markw, nexts):
    """arrays of edge marks that need not be erased again before the next vertex"""
    stale = set()
    for root, ws in markw.items():
        sets = []
        for e in ws:
            i, v = num(e.obj[1][0][1]), e.args[0]
            f, ed = Marks.leafs(v)
            if ed is None or ed[0] == 'c' or v[0] == 'obj':
                continue
            sets.append((e, i, ed))
        for e, i, ed in sets:
            if not (i[0] == 'app' and i[1] == 'tgt' and i[3] == ed):
                continue
            n = i[2]
            conds = [a for a in e.facts.atoms if ed in set(subterms(a)) and not (a[0] == 'app' and a[1] == 'in')]
            # a later loop over the edges of n after which the mark is gone
            good = {}
            for ne, er in nexts:
                if len(ne.loops) != len(e.loops) or ne.seq < e.seq or ne.loops[:-1] != e.loops[:-1]:
                    continue
                if e.loops and ne.loops[-1] == e.loops[-1]:
                    continue
                x = [a[2] for a in ne.facts.atoms if a[0] == 'app' and a[1] == 'in' and a[3] == ('range', 'edges', n)]
                ok = False
                for y in x:
                    t = app('tgt', n, y)
                    if any(r == root and (j == t or ne.facts.implies(EQ(j, t), depth=1)) and w is not None and w[0] == 'c' for r, j, w in er):
                        ok = True
                    if any(ne.facts.implies(neg(subst(a, ed, y))) for a in conds if a[0] != 'app'):
                        ok = True
                good.setdefault(ne.loops[-1], []).append(ok)
            if not any(all(v) for v in good.values()):
                stale.add(root)
    return stale


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def run(P, c, tier):
    G = CallGraph(P)
    uf = {f['key'] for f in P.functions.values() if short(f['q']) == 'union_find::Union'}
    reach = G.closure(uf)
    roots = {}
    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        if home(f['q']) not in CLASSES or f['key'] not in reach or f.get('b') is None or f.get('lambda'):
            continue
        callers = [g for g, x in G.sites.get(f['key'], ())]
        if callers and all(home(g['q']) in CLASSES for g in callers):
            continue
        roots[f['key']] = f
    if len(roots) < 8:
        raise AnalysisBroken('P02: only %d local tests found' % len(roots))
    for f in roots.values():
        c.saw(f)
        for conf in configs(P, G, f, c):
            for variant in sorted(f['variants']):
                I, ev, unions, missing, resets = run_one(P, c, f, variant, conf)
                if not unions:
                    raise AnalysisBroken('P02: no merge reached in ' + f['q'])
                for e in unions:
                    judge(c, f, e, ev, missing, resets, conf)
                break
    c.floor('merge', 16)
    c.floor('bound handed to a test', 6)


def judge(c, f, e, ev, missing, resets, conf):
    a, b = e.args
    r = ev.certify(a, b, e.facts, e.flags)
    where = '%s:%s (%s)' % (e.fn['file'], e.line, 'all cuts' if conf[2] else 'one cut')
    if r is None:
        c.violation('merge', e.fn, e.line, 'vertices are merged although nothing on this path shows that %s may be kept apart from a cut below the bound'
                    % 'the two' + (' (every minimum cut has to survive: %s)' % short(conf[3]['q']) if conf[2] and conf[3] else ''), tag='evidence' + (' all' if conf[2] else ''))
        return
    kind, flags = r
    for p in flags:
        if (e.seq, (p[0], tuple(p[1]))) in missing or p[0] in resets:
            c.violation('merge', e.fn, e.line, 'the vertices are not remembered as merged, a later test would rely on their old degrees', tag='remember')
            return
    c.ok('merge', where + ' ' + kind)
