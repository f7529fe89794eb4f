"""Lock discipline of the multi-threaded solver."""
import re
from ..locks import Locks, St, show, base_t, NOTPLAIN, LOCKT
from ..program import walk, AnalysisBroken
from ..ctx import short

RULE = ('Path-sensitive lock-state analysis over every function that (transitively) operates on a lock, followed through calls from every call-graph root and '
        'from every std::thread entry: (pairing) no path releases a lock it does not hold, takes one it already holds or leaves its thread with one held; '
        '(order) the acquired-while-holding relation is acyclic and never nests two elements of one lock array; (lockset) every field of the objects shared by the '
        'worker threads that is written while they run is atomic, indexed by the worker\'s own id, or accessed under one common lock everywhere; '
        '(check-then-act) a shared field that is overwritten under a lock is overwritten only after shared state was examined under that lock; '
        '(atomic update) a shared integer atomic is never stored to with a value computed from an earlier load of it unless the lock of its other updates is held.')
ASSUMPTIONS = ['objects reached through shared_ptr problems belong to the thread that pulled them from the queue',
               'two locks with the same access path are the same lock', 'MPI routines are opaque']


def norm(m):
    return re.sub(r'\[.*?\]', '[]', m)


def owner(P, path, fr, e):
    """class and field an access path ends in (stable under renaming of variables)"""
    return norm(path).replace('this.', '')


def run(P, c, tier):
    acquired = {}

    def viol(kind, fn, line, what, tag):
        c.violation('pairing: ' + kind, fn, line, what, tag=norm(show(tag)))

    def acq(m, held, fn, line, tr):
        c.ok('lock acquisition', '%s:%s' % (fn['file'], line))
        for h in held:
            acquired.setdefault((h, m, tr), (fn, line))

    acc, atoms = {}, {}
    over = []
    stores = atomic_stores(P)

    def access(n, w, s, fr, e, plain):
        m = n.lstrip('&')
        if '*' in m.replace('[*]', '') or not m.startswith(('this.', '::')):
            return
        if L.ctx == 'main' and not s.live:
            return
        t = base_t(e.get('t', ''))
        held = frozenset(h for h in s.held)
        if w and plain and held and m.startswith('this.') and not t.startswith(LOCKT):
            key = (norm(m), fr['f']['q'])
            c.ok('check-then-act', '%s:%s' % (fr['f']['file'], e['l']))
            over.append((key, fr['f'], e['l'], m, guards(m, held), guards(m, held & s.csr)))
        if t.startswith(NOTPLAIN) or 'std::atomic' in t.split('<')[0]:
            if w and id(e) in stores and 'f64' not in t and 'double' not in t and 'float' not in t:     # clock values only pace status output
                atoms.setdefault(norm(m), []).append((stores[id(e)], L.ctx, held, fr['f'], e['l'], m))
            return
        acc.setdefault(norm(m), []).append((w, L.ctx, held, fr['f'], e['l'], m))

    # -- pairing over all roots
    L = Locks(P, viol, None, acq)
    direct, T, calls = L.lock_functions()
    called = set()
    for k in T:
        called |= {x for x in calls[k] if x != k}
    roots = [k for k in T if k not in called]
    entries = []
    L.on_spawn = lambda e, fr, sts: entries.append((e, fr['f']))
    for k in sorted(roots):
        f = P.functions[k]
        for s in L.run(f):
            for m in sorted(s.held):
                c.violation('pairing: leak', f, f['endl'], 'lock `%s` is still held on a path on which %s returns' % (show(m), short(f['q'])),
                            tag=norm(show(m)))
        c.ok('root without a lock left', f['key'])
    for k in sorted(direct):
        if k not in L.visited and '(lambda' not in P.functions[k]['q']:
            f = P.functions[k]
            for s in L.run(f):
                for m in s.held:
                    c.violation('pairing: leak', f, f['endl'], 'lock `%s` is still held on a path on which %s returns' % (show(m), short(f['q'])), tag=norm(show(m)))
    for k in L.visited:
        c.saw(P.functions[k])
    # -- thread entries: std::thread(&C::m, this, i)
    spawns = {}
    for f in P.functions.values():
        for x in walk(f['b']):
            if x['k'] in ('ctor', 'call') and (x.get('q') == 'std::thread::thread' or (x.get('n') in ('emplace_back', 'push_back') and
                                               base_t((x.get('obj') or {}).get('t', '')).startswith('std::vector<std::thread'))):
                for y in walk(x):
                    if y['k'] == 'fref':
                        for g in P.q(y['q']):
                            spawns[g['key']] = (g, f)
                    elif y['k'] == 'lambda':
                        g = P.lookup(y['f'], 'seq')
                        if g:
                            spawns[g['key']] = (g, f)
    c.notes.append('thread entries: ' + ', '.join(sorted(g['q'] for g, _ in spawns.values())))
    glob = global_users(P, calls)
    for g, f in spawns.values():
        acc.clear()
        atoms.clear()
        L = Locks(P, lambda *a: None, access, acq)
        L.lock_functions()
        L.touch_all = True
        L.glob = glob
        if '(lambda' in g['q'] or g['n'] == 'operator()':
            L.ctx = 'worker'
        bind = {p['id']: '=TID' for p in g['params'] if base_t(p['t']) in ('u64', 'u32', 'i32', 'i64')}
        L.run(g, bind=bind, ctx='worker')
        L.run(f, ctx='main')
        for k in L.visited:
            c.saw(P.functions[k])
        judge(P, c, acc)
        judge_atoms(c, atoms)
    common = {}
    for key, fn, line, m, g, r in over:
        common[key[0]] = common[key[0]] & g if key[0] in common else g
    for key, fn, line, m, g, r in over:
        if r & (common[key[0]] or g):
            continue
        c.violation('check-then-act', fn, line, '`%s` is overwritten under a lock, but nothing shared was examined since the lock was taken' % show(m),
                    tag=key[0])
    # -- order
    edges = {}
    for (h, m, tr), (fn, line) in acquired.items():
        if tr:
            continue
        a, b = norm(h), norm(m)
        a, b = a.split('.')[-1], b.split('.')[-1]
        edges.setdefault(a, {})[b] = (fn, line)
        c.ok('lock order edge', '%s -> %s' % (a, b))
    for a in edges:
        for b in edges[a]:
            path = reach(edges, b, a)
            if path is not None:
                fn, line = edges[a][b]
                c.violation('lock order', fn, line, 'lock `%s` is taken while `%s` is held, and elsewhere the other way round' % (b, a),
                            tag=' '.join(sorted((a, b))))
    c.floor('lock acquisition', 8)
    c.floor('shared location', 15)
    c.floor('check-then-act', 5)
    c.floor('root without a lock left', 2)
    if not spawns:
        raise AnalysisBroken('no thread entry found')


def global_users(P, calls):
    """functions that transitively touch a mutable global"""
    T = set()
    for f in P.functions.values():
        for x in walk(f['b']):
            if x['k'] == 'ref' and x.get('global') and 'cv' not in x and 'const ' not in x['t'] and not x.get('q', '').startswith('std::'):
                g = P.globals.get(x.get('q'))
                T.add(f['key'])
                break
    ch = True
    while ch:
        ch = False
        for k, cs in calls.items():
            if k not in T and cs & T:
                T.add(k)
                ch = True
    return T


def reach(edges, a, b):
    seen, st = set(), [(a, [a])]
    while st:
        x, p = st.pop()
        if x == b:
            return p
        if x in seen:
            continue
        seen.add(x)
        for y in edges.get(x, {}):
            st.append((y, p + [y]))
    return None


def idx(h):
    return re.findall(r'\[(.*?)\]', h)


def guards(m, held):
    """the locks among `held` that can protect location m, by kind"""
    hs = set()
    for h in held:
        ih = idx(h)
        if ih:
            if idx(m) and ih[0] == idx(m)[0]:
                hs.add(norm(h))
        else:
            hs.add(h)
    return hs


def path(e):
    """field path of an lvalue, and of the reads in an expression"""
    while e is not None and e['k'] in ('cast', 'copy'):
        e = e['e']
    if e is None:
        return None
    if e['k'] == 'this':
        return 'this'
    if e['k'] == 'ref':
        return str(e.get('q') or e['id'])
    if e['k'] == 'mem':
        b = path(e.get('base'))
        return b and b + '.' + e['n']
    if e['k'] == 'idx':
        b = path(e.get('base'))
        return b and b + '[]'
    if e['k'] == 'call' and (e.get('oper') in ('[]', '->', '*') or e.get('n') == 'at') and e.get('obj') is not None:
        b = path(e['obj'])
        return b and b + '[]'
    return None


def atomic_stores(P):
    """plain stores into atomics: id of the stored-to expression -> 'rmw' when the value is computed from the location's own
    value, 'cond' when the store is made because of its value, 'const' for a constant, 'plain' otherwise"""
    out = {}

    def reads(e, p):
        return any(x['k'] in ('mem', 'ref', 'idx') and path(x) == p for x in walk(e))

    def visit(n, conds, body, copies):
        if isinstance(n, list):
            for x in n:
                visit(x, conds, body, copies)
            return
        if not isinstance(n, dict):
            return
        if n.get('k') == 'call' and n.get('obj') is not None and (n.get('oper') == '=' or n.get('n') == 'store') and \
                base_t(n['obj'].get('t', '')).startswith('std::atomic') and n.get('args'):
            p = path(n['obj'])
            a = n['args'][0]
            if p is not None and a is not None:
                def own(e):
                    return reads(e, p) or any(x['k'] == 'ref' and x.get('id') in copies and reads(copies[x['id']], p) for x in walk(e))
                kind = 'plain'
                if all(x['k'] not in ('mem', 'ref', 'call', 'idx') or 'cv' in x for x in walk(a)):
                    kind = 'const'
                elif own(a):
                    kind = 'rmw'
                elif any(own(x) for x in conds):
                    kind = 'cond'
                out[id(n['obj'])] = kind
        if n.get('k') == 'if':
            visit(n.get('init'), conds, body, copies)
            visit(n.get('c'), conds, body, copies)
            visit(n.get('a'), conds + [n['c']], body, copies)
            visit(n.get('b'), conds + [n['c']], body, copies)
            return
        for k, v in n.items():
            if isinstance(v, (dict, list)) and k not in ('pt', 'ta'):
                visit(v, conds, body, copies)

    for f in P.functions.values():
        copies = {}
        for x in walk(f['b']):
            if x['k'] == 'var' and x.get('init') is not None and not x['t'].startswith('&'):
                copies[x['id']] = x['init']
        visit(f['b'], [], f['b'], copies)
    return out


def judge_atoms(c, atoms):
    """an atomic makes each access indivisible, not a load followed by a store"""
    for loc, l in sorted(atoms.items()):
        if all(a[1] == 'worker' and idx(a[5]) and idx(a[5])[0] == 'TID' for a in l):
            continue
        c.ok('atomic location', loc)
        locked = set()
        for kind, ctx, held, fn, line, m in l:
            if kind != 'const':
                locked |= guards(m, held)
        for kind, ctx, held, fn, line, m in l:
            if kind == 'rmw' and not guards(m, held) or kind == 'cond' and locked and not guards(m, held) & locked:
                c.violation('atomic update', fn, line, 'the value stored into shared atomic `%s` depends on a value loaded from it earlier, and %s: another '
                            'thread\'s update in between is lost' % (show(norm(m)), 'the lock that protects its other updates is not held'
                                                                    if locked else 'no lock is held'), tag=norm(m).split('.')[-1])


def judge(P, c, acc):
    for loc, l in sorted(acc.items()):
        c.ok('shared location', loc)
        if not any(a[0] for a in l):
            continue
        if loc.startswith('::std::'):
            continue
        if loc.startswith('::'):
            g = P.globals.get(loc[2:])
            if g and g.get('tls'):
                continue
        # every element access through the worker's own index?
        if all(a[1] == 'worker' and idx(a[5]) and idx(a[5])[0] == 'TID' for a in l):
            continue
        # lock elements: pop_mutex[i] protects pq[i]
        common = None
        for w, ctx, held, fn, line, m in l:
            hs = guards(m, held)
            common = hs if common is None else common & hs
        if common:
            c.ok('lockset', loc + ' under ' + ', '.join(sorted(common)))
            continue
        # report where the discipline is broken: the access with the fewest locks
        locked = [a for a in l if a[2]]
        cand = [a for a in l if not a[2]] or l
        cand.sort(key=lambda a: (not a[0], a[3]['q'], a[4]))
        w, ctx, held, fn, line, m = cand[0]
        c.violation('lockset', fn, line, 'shared `%s` is %s without %s while other threads may access it' % (
            show(norm(m)), 'written' if w else 'read', 'a lock' if not held else 'the lock that protects it elsewhere'), tag=norm(m).split('.')[-1])
