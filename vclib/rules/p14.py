"""Messages and serialized graphs arrive as they were sent."""
from ..ast import strip, int_const, std_method, body_nodes, root_var, index_parts
from ..cg import CallGraph
from ..codec import Encoder, Decoder, is_wordvec, Tok, strip_addr
from ..program import walk
from ..ctx import short

RULE = ('(layout) encoder and decoder of graphs and of subproblems are turned into trees of values and loops (helpers and locals followed); value by value, the '
        'member the decoder puts a value in is the member the encoder took it from, and each repetition runs over the count the encoder wrote for that container; '
        'in the marked edge list, markers start at the number of vertices on both sides and the end mark is the same constant; the encoder reserves at least as many '
        'words as it writes. (members) every member of a subproblem that the receiving side reads, except discardable hints, and every vertex-indexed '
        'member of the graph is filled from the message. (messages) per message tag all sends and receives use one element type of the width of the buffer elements, '
        'counts equal the size of the buffer, buffers of sends that are not waited for do not live on the stack, and each tag sent is received somewhere.')
ASSUMPTIONS = ['MPI delivers messages of one tag between two processes in order', 'encoder and decoder run on machines with the same integer representation']

WIDTH = {'int': 4, 'unsigned': 4, 'long': 8, 'unsigned_long': 8, 'uint64_t': 8, 'int64_t': 8, 'uint32_t': 4, 'int32_t': 4, 'long_long_int': 8, 'long_long': 8,
         'unsigned_long_long': 8, 'char': 1, 'byte': 1, 'signed_char': 1, 'unsigned_char': 1, 'short': 2, 'unsigned_short': 2, 'double': 8, 'float': 4, 'cxx_bool': 1, 'c_bool': 1,
         'uint8_t': 1, 'int8_t': 1, 'uint16_t': 2, 'int16_t': 2, 'c_bool_t': 1}


def twidth(t):
    t = t.replace('const ', '').strip('& ')
    if t in ('bool',):
        return 1
    if t[:1] in 'iuf' and t[1:].isdigit():
        return int(t[1:]) // 8
    return {'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'unsigned long long': 8, 'long long': 8, 'double': 8, 'float': 4, 'char': 1, 'unsigned char': 1}.get(t)


def pair_functions(P, G):
    """[(encoder, buffer id, decoder, buffer id, what)]"""
    r = []
    enc = {}
    for f in P.functions.values():
        if f.get('cls') and is_wordvec(f.get('ret', '')) and not f['params']:
            b = [x['id'] for x in body_nodes(f) if x['k'] == 'var' and is_wordvec(x['t']) and returns(f, x['id'])]
            if b:
                enc[f['cls']] = (f, b[0])
    for f in P.functions.values():
        if f.get('cls') in enc and len(f['params']) == 1 and is_wordvec(f['params'][0]['t']) and f['cls'] in f.get('ret', ''):
            e, b = enc[f['cls']]
            r.append((e, b, f, f['params'][0]['id'], 'graph'))
    send, recv = {}, {}
    for f in P.functions.values():
        for x in body_nodes(f):
            if x['k'] == 'call' and x.get('q') in ('MPI_Send', 'MPI_Isend', 'MPI_Ssend', 'MPI_Recv') and x.get('args'):
                v = wordbuf(f, x['args'][0])
                if v is not None:
                    (recv if x['q'] == 'MPI_Recv' else send)[int_const(x['args'][4])] = (f, v)
    for tag in send:
        if tag in recv:
            r.append(send[tag] + recv[tag] + ('problem',))
    return r


def wordbuf(f, a):
    a = strip(a)
    if a['k'] == 'un' and a['op'] == '&':
        a = strip(a['e'])
    c, i = index_parts(a)
    if c is not None:
        a = strip(c)
    elif a['k'] == 'call' and a.get('n') in ('front', 'data') and a.get('obj') is not None:
        a = strip(a['obj'])
    if a['k'] == 'ref' and is_wordvec(a.get('t', '')):
        return a.get('id')
    return None


def returns(f, vid):
    for x in body_nodes(f):
        if x['k'] == 'return' and x.get('e') is not None:
            v = strip(x['e'])
            if v['k'] == 'ref' and v.get('id') == vid:
                return True
            if v['k'] == 'ctor' and any(y['k'] == 'ref' and y.get('id') == vid for y in walk(v)):
                return True
    return False


class Layout:
    def __init__(self, P, c, G, E, D, what):
        self.P, self.c, self.G, self.E, self.D, self.what = P, c, G, E, D, what
        self.pairs = {}        # decoder token id -> encoder token
        self.codec = {}

    def bad(self, f, line, msg, tag):
        self.c.violation('layout of the %s' % self.what, f, line, msg, tag=tag)

    def good(self, f, line, x):
        self.c.ok('layout of the %s' % self.what, '%s:%s %s' % (f['file'], line, x))

    def fmt(self, L):
        r = []
        for x in sorted(L, key=str):
            if x[0] == 'size':
                r.append('size of ' + x[-1])
            elif x[0] == 'codec':
                r.append('encoded ' + 'sub-object')
            elif x[0] not in ('count', 'tok', 'ctr', 'unread'):
                r.append(x[-1])
        return ', '.join(r) or 'nothing'

    def sequence(self, W, R, lvl=0):
        E, D = self.E, self.D
        i = j = 0
        while i < len(W) and j < len(R):
            w, r = W[i], R[j]
            if w.kind == 'val' and r.kind == 'val':
                self.value(w, r)
                i, j = i + 1, j + 1
            elif w.kind == 'loop' and r.kind == 'loop':
                if self.tagged(w, W[i + 1] if i + 1 < len(W) else None, r):
                    i, j = i + 2, j + 1
                else:
                    self.loop(w, r, lvl)
                    i, j = i + 1, j + 1
            else:
                a, b = ('a single value', 'a sequence')
                if w.kind == 'loop':
                    a, b = b, a
                self.bad(D.f, r.line, 'the encoder writes %s (%s) where the decoder reads %s (into %s)' % (a, self.fmt(w.leaves), b, self.fmt(r.sinks)), 'shape %d' % j)
                return
        if i < len(W):
            self.bad(E.f, W[i].line, 'the encoder writes %s but the decoder reads nothing there' % self.fmt(W[i].leaves), 'excess ' + self.fmt(W[i].leaves))
        if j < len(R):
            self.bad(D.f, R[j].line, 'the decoder reads %s but the encoder writes nothing there' % self.fmt(R[j].sinks), 'missing ' + self.fmt(R[j].sinks))

    def value(self, w, r):
        self.pairs[r.id] = w
        s = {x for x in r.sinks if x[0] not in ('count', 'tok', 'ctr')}
        if ('unread',) in s or not r.sinks and not r.tags:
            self.good(self.D.f, r.line or self.D.f['l'], 'value %s not used' % self.fmt(w.leaves))
            return
        wl = {x for x in w.leaves if x[0] not in ('ctr',)}
        if any(x[0] == 'size' for x in wl):
            if not s or any(x[0] == 'size' for x in s) and (s & wl) or (not any(x[0] == 'size' for x in s) and any(x[0] == 'count' for x in r.sinks)):
                self.good(self.D.f, r.line, self.fmt(wl))
                return
            self.bad(self.D.f, r.line, 'the decoder uses the %s as %s' % (self.fmt(wl), self.fmt(s)), 'count ' + self.fmt(wl))
            return
        if wl & s or (not s and any(x[0] == 'count' for x in r.sinks)):
            self.good(self.D.f, r.line, self.fmt(wl))
            return
        if any(x[0] == 'codec' for x in wl) and any(x[0] == 'codec' for x in s):
            self.good(self.D.f, r.line, 'nested')
            return
        if not s or not wl:
            self.good(self.D.f, r.line, self.fmt(wl))
            return
        self.bad(self.D.f, r.line, 'the decoder puts the value of %s into %s' % (self.fmt(wl), self.fmt(s)), 'value %s into %s' % (self.fmt(wl), self.fmt(s)))

    def container(self, w):
        """member a repeated item comes from"""
        c = [x for x in w.leaves if x[0] not in ('ctr', 'tok')]
        c = [x[1:] if x[0] == 'size' else x for x in c]
        return c[0] if c else None

    def loop(self, w, r, lvl):
        toks = [x[1] for x in r.leaves if x[0] == 'tok']
        cont = self.container(w)
        f = self.D.f
        if toks and cont is not None:
            srcs = [self.pairs.get(t) for t in toks]
            srcs = [s for s in srcs if s is not None]
            if not srcs:
                self.bad(f, r.line, 'the sequence of %s is read with a count that was not read before' % cont[-1], 'count of ' + cont[-1])
            else:
                best = self.best_count(cont)
                for s in srcs:
                    L = {x for x in s.leaves if x[0] not in ('ctr', 'tok')}
                    if not L or L & best or any(x[0] == 'codec' for x in L) and cont[0] == 'codec':
                        self.good(f, r.line, 'count of ' + cont[-1])
                    else:
                        self.bad(f, r.line, 'the sequence of %s is read %s times' % (cont[-1], self.fmt(L)), 'count of ' + cont[-1])
        self.sequence(w.items, r.items, lvl + 1)

    # which number written into the message counts container `cont`
    def best_count(self, cont):
        own = ('size',) + cont
        cands = set()

        def rec(items):
            for t in items:
                if t.kind == 'val':
                    cands.update(x for x in t.leaves if x[0] not in ('ctr', 'tok'))
                else:
                    rec(t.items)
        rec(self.E.items)
        if own in cands:
            return {own}
        rec_ = cont[0]
        A = self.resizers(cont)
        score = {}
        for x in cands:
            y = x[1:] if x[0] == 'size' else x
            if y[0] != rec_:
                continue
            B = self.resizers(y) if x[0] == 'size' else self.setters(y)
            if A and B:
                score[x] = len(A & B) / len(A | B)
        if not score:
            return cands
        m = max(score.values())
        return {x for x in score if score[x] == m}

    def members(self, rec):
        return [f for f in self.P.functions.values() if f.get('cls') == rec and not f.get('ctor')]

    def resizers(self, m):
        r = set()
        for f in self.members(m[0]):
            for x in body_nodes(f):
                o, n = std_method(x)
                if o is not None and n in ('resize', 'emplace_back', 'push_back', 'pop_back', 'clear'):
                    v = strip(o)
                    if v['k'] == 'mem' and v['n'] == m[1]:
                        r.add(f['key'])
        return r

    def setters(self, m):
        r = set()
        for f in self.members(m[0]):
            for x in body_nodes(f):
                if x['k'] == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                    v = strip(x['a'])
                    if v['k'] == 'mem' and v['n'] == m[1]:
                        r.add(f['key'])
        return r

    # marker-coded adjacency: per vertex a marker, then its payload, at the end a constant
    def tagged(self, w, nxt, r):
        if not (w.items and len(w.items) == 2 and w.items[0].kind == 'val' and w.items[1].kind == 'loop' and r.items and r.items[0].kind == 'val' and r.items[0].tags):
            return False
        if nxt is None or nxt.kind != 'val' or nxt.leaves:
            return False
        mark, body = w.items
        first = r.items[0]
        ge = [t for t in first.tags if t[0] in ('>=', '>', '<', '<=') and any(x[0] == 'tok' for x in t[2])]
        eq = [t for t in first.tags if t[0] in ('==', '!=') and not any(x[0] == 'tok' for x in t[2])]
        if not ge:
            return False
        f = self.D.f
        off = {x for x in mark.leaves if x[0] not in ('ctr', 'tok')}
        cont = self.container(w)
        want = ('size',) + cont if cont else None
        for op, b, L, cv in ge:
            srcs = [self.pairs[x[1]] for x in L if x[0] == 'tok' and x[1] in self.pairs]
            for s in srcs:
                roff = {x for x in s.leaves if x[0] not in ('ctr', 'tok')}
                if roff != off:
                    self.bad(f, first.line, 'vertex markers are written as offset %s but recognised by %s' % (self.fmt(off), self.fmt(roff)), 'marker offset')
                elif want is not None and want not in roff:
                    self.bad(f, first.line, 'vertex markers start at %s, which an edge target can reach: targets and markers cannot be told apart' % self.fmt(roff), 'marker range')
                elif op in ('>', '<='):
                    self.bad(f, first.line, 'the first vertex marker is taken for an edge target', 'marker comparison')
                else:
                    self.good(f, first.line, 'markers from %s' % self.fmt(roff))
        ends = {cv if cv is not None else const_name(b) for op, b, L, cv in eq}
        wend = int_const(nxt.expr) if int_const(nxt.expr) is not None else const_name(nxt.expr)
        if eq and wend not in ends:
            self.bad(f, first.line, 'the end mark written (%s) is not the one looked for (%s)' % (wend, ', '.join(map(str, ends))), 'end mark')
        elif eq:
            self.good(f, first.line, 'end mark')
        self.sequence(body.items, r.items, 1)
        self.guard(mark, body, r)
        return True

    def guard(self, mark, body, r):
        """every undirected edge once, in the direction the decoder inserts"""
        cond = body.items[0].cond if body.items else None
        f = self.E.f
        if cond is None:
            return
        ctr = {x for x in mark.leaves if x[0] == 'ctr'}
        rel = self.relation(self.E, cond, ctr)
        if rel is None:
            return
        ins = None
        for x in body_nodes(self.D.f):
            g = self.D.callee(x) if x['k'] == 'call' else None
            if g is not None and len(g['params']) >= 2 and g.get('cls'):
                ps = [p['id'] for p in g['params']]
                for h in self.chain(g):
                    hp = [p['id'] for p in h['params']]
                    for y in body_nodes(h):
                        if y['k'] == 'if' and y['c']['k'] == 'bin' and y['c']['op'] in ('<', '>', '<=', '>='):
                            a, b = strip(y['c']['a']), strip(y['c']['b'])
                            if a['k'] == 'ref' and b['k'] == 'ref' and a.get('id') in hp[:2] and b.get('id') in hp[:2] and \
                                    any(z['k'] == 'call' and z.get('n') in ('emplace_back', 'push_back') for z in walk(y['a'])):
                                op = y['c']['op']
                                ins = op if a['id'] == hp[0] else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
        if ins is not None and rel != ins:
            self.bad(f, body.items[0].line, 'edges are written when vertex %s target but the decoder only inserts those with vertex %s target' % (rel, ins), 'edge direction')
        elif ins is not None:
            self.good(f, body.items[0].line, 'edge direction')

    def chain(self, g):
        r = [g]
        for x in body_nodes(g):
            h = self.D.callee(x) if x['k'] == 'call' else None
            if h is not None and h.get('cls') == g.get('cls') and h['n'] == g['n'] and h not in r:
                r.append(h)
        return r

    def relation(self, E, cond, ctr):
        e, val = cond
        e = strip(e)
        if e['k'] != 'bin' or e['op'] not in ('<', '>', '<=', '>='):
            return None
        la, lb = E.leaves(e['a']), E.leaves(e['b'])
        op = e['op']
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
        if lb & ctr and not la & ctr:
            op = flip[op]
        elif not (la & ctr and not lb & ctr):
            return None
        if not val:
            op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
        return op

    # capacity of a preallocated buffer
    def capacity(self):
        E = self.E
        if E.sizeinit is None:
            return
        have = linear(E, E.sizeinit)
        if have is None:
            return
        need = {}

        def add(k, n):
            need[k] = need.get(k, 0) + n

        def rec(items, mult):
            for t in items:
                if t.kind == 'val':
                    add(mult, 1)
                else:
                    c = self.container(t)
                    rec(t.items, mult + (c,))
        rec(E.items, ())
        f = E.f
        tot = {}
        for mult, n in need.items():
            if not mult:
                tot['1'] = tot.get('1', 0) + n
            elif len(mult) == 1:
                k = self.best_count(mult[0]) if ('size',) + mult[0] not in have else {('size',) + mult[0]}
                k = [x for x in k if x in have] or list(k)
                tot[k[0]] = tot.get(k[0], 0) + n
            else:
                # edge payload: one direction of every edge
                e = [x for x in have if x[0] != 'size' and x != '1' and 'edge' in x[-1].lower()]
                if not e:
                    return
                tot[e[0]] = tot.get(e[0], 0) + n / 2
        for k, n in tot.items():
            if have.get(k, 0) < n:
                self.bad(f, E.f['l'], 'the buffer is allocated with %s word(s) per %s, %s are written' % (have.get(k, 0), k[-1] if k != '1' else 'message', n), 'capacity ' + str(k[-1]))
            else:
                self.good(f, f['l'], 'capacity %s' % (k[-1] if k != '1' else 'fixed part'))


def const_name(e):
    e = strip(e)
    if e is None:
        return None
    return e.get('q') or e.get('n') or e.get('k')


def linear(E, e):
    e = strip(e)
    v = int_const(e)
    if v is not None:
        return {'1': v}
    if e['k'] == 'bin' and e['op'] in ('+', '-'):
        a, b = linear(E, e['a']), linear(E, e['b'])
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if e['op'] == '+' else -v)
        return r
    if e['k'] == 'bin' and e['op'] == '*':
        a, b = linear(E, e['a']), linear(E, e['b'])
        if a is None or b is None:
            return None
        if set(a) <= {'1'}:
            return {k: v * a.get('1', 0) for k, v in b.items()}
        if set(b) <= {'1'}:
            return {k: v * b.get('1', 0) for k, v in a.items()}
        return None
    L = [x for x in E.leaves(e) if x[0] not in ('tok', 'ctr')]
    if len(L) == 1:
        return {L[0]: 1}
    if e['k'] == 'ref' and e.get('id') in E.vals:
        return linear(E, E.vals[e['id']])
    return None


def read_members(P, G, rec, start):
    """members of rec that code reachable from `start` reads"""
    r = set()
    for k in G.reach(start):
        f = P.functions.get(k)
        if f is None:
            continue
        from ..ast import parents
        if f.get('b') is None or f.get('ctor'):
            continue
        pm = None
        for x in walk(f['b']):
            if x['k'] == 'mem' and x.get('rec') == rec:
                if pm is None:
                    pm = parents(f['b'])
                p = pm.get(id(x))
                if p is not None and p['k'] == 'bin' and p['op'] == '=' and p['a'] is x:
                    continue
                if p is not None and p['k'] == 'call' and p.get('obj') is x and p.get('n') in ('insert', 'emplace', 'extract', 'erase', 'clear', 'emplace_back', 'push_back', 'operator='):
                    continue
                if p is not None and p['k'] == 'call' and p.get('oper') == '=' and p.get('obj') is x:
                    continue
                if G_copy_self(p, x, pm):
                    continue
                r.add(x['n'])
    return r


def G_copy_self(p, x, pm):
    """a = b.x only moves the member between two objects: assigned to the same member of another object"""
    n = p
    for _ in range(3):
        if n is None:
            return False
        if n['k'] == 'bin' and n['op'] == '=' or n['k'] == 'call' and n.get('oper') == '=':
            a = n['a'] if n['k'] == 'bin' else n.get('obj')
            a = strip(a) if a is not None else None
            return a is not None and a['k'] == 'mem' and a['n'] == x['n'] and a.get('rec') == x.get('rec') and a is not x
        n = pm.get(id(n))
    return False


def hints(P, rec):
    """members reset to a constant outside of constructors"""
    r = set()
    for f in P.functions.values():
        if f.get('ctor') or f.get('b') is None:
            continue
        for x in walk(f['b']):
            a = b = None
            if x['k'] == 'bin' and x['op'] == '=':
                a, b = x['a'], x['b']
            elif x['k'] == 'call' and x.get('oper') == '=' and x.get('obj') is not None and x.get('args'):
                a, b = x['obj'], x['args'][0]
            if a is None:
                continue
            a = strip(a)
            if a['k'] == 'mem' and a.get('rec') == rec and constant(b):
                r.add(a['n'])
    return r


def constant(e):
    e = strip(e)
    if e['k'] in ('int', 'bool', 'enum', 'float', 'nullptr'):
        return True
    if e['k'] == 'ref':
        return bool(e.get('global'))
    if e['k'] in ('ctor', 'init'):
        xs = e.get('args') or e.get('e') or e.get('b') or []
        return bool(xs) and all(constant(a) for a in xs if isinstance(a, dict))
    if e['k'] == 'call' and e.get('q', '').startswith('std::numeric_limits'):
        return True
    return False


def run(P, c, tier):
    G = CallGraph(P)
    pairs = pair_functions(P, G)
    covered = {}
    for e, eb, d, db, what in pairs:
        c.saw(e)
        c.saw(d)
        E = Encoder(P, e, eb)
        D = Decoder(P, d, db)
        L = Layout(P, c, G, E, D, what)
        if not E.items or not D.items:
            c.notes.append('layout of %s not recognised' % short(e['q']))
            continue
        L.sequence(E.items, D.items)
        L.capacity()
        c.ok('encoder/decoder pair', '%s / %s' % (short(e['q']), short(d['q'])))
        members(P, c, G, E, D, d, what)
    mpi(P, c, G)
    c.floor('encoder/decoder pair', 2)
    c.floor('message', 8)


def members(P, c, G, E, D, d, what):
    if what == 'problem':
        rec = None
        for x in sorted(D.touched, key=str):
            n = sum(1 for y in D.touched if y[0] == x[0])
            if rec is None or n > sum(1 for y in D.touched if y[0] == rec):
                rec = x[0]
        R = P.records.get(rec)
        if R is None:
            return
        starts = {f['key'] for f in P.functions.values() for x in body_nodes(f) if x['k'] == 'call' and 'f' in x and D.P.lookup(x['f'], 'seq') is not None and D.P.lookup(x['f'], 'seq')['key'] == d['key']}
        used = read_members(P, G, rec, starts)
        hint = hints(P, rec)
        for fl in R['fields']:
            n = fl['n']
            if n not in used:
                c.ok('member of the problem not read by the receiver', n)
            elif (rec, n) in D.touched:
                c.ok('member of the problem transferred', n)
            elif n in hint:
                c.ok('member of the problem that may be discarded', n)
            else:
                c.violation('member transferred', d, d['l'], 'the received problem does not get member %s of the one sent, although the receiver uses it' % n, tag=n)
        return
    rec = d['cls']
    R = P.records.get(rec)
    if R is None:
        return
    copied = set()
    for f in P.functions.values():
        if f.get('cls') == rec and f.get('ctor') and len(f['params']) == 1 and rec in f['params'][0]['t'] and f.get('inits'):
            copied |= {I.get('fld') for I in f['inits'] if I.get('written')}
    # members the encoder reads must be restored
    want = set()

    def rec_(items):
        for t in items:
            want.update(x[1:] if x[0] == 'size' else x for x in t.leaves if x[0] not in ('ctr', 'tok'))
            if t.items:
                rec_(t.items)
    rec_(E.items)
    for x in sorted(want, key=str):
        if x[0] in (rec, 'RevEdge') or x[0] in P.records:
            if x in D.touched or x in D.sized:
                c.ok('member of the graph restored', x[-1])
            else:
                c.violation('member transferred', d, d['l'], 'member %s of the graph is sent but not restored' % x[-1], tag=x[-1])


# ------------------------------------------------------------------- messages
P2P = {'MPI_Send': ('s', 0, 1, 2, 4), 'MPI_Ssend': ('s', 0, 1, 2, 4), 'MPI_Isend': ('s', 0, 1, 2, 4), 'MPI_Issend': ('s', 0, 1, 2, 4), 'MPI_Recv': ('r', 0, 1, 2, 4),
       'MPI_Irecv': ('r', 0, 1, 2, 4), 'MPI_Bcast': ('c', 0, 1, 2, None), 'MPI_Allreduce': ('c', 0, 2, 3, None), 'MPI_Reduce': ('c', 0, 2, 3, None)}


def dtype(e):
    for x in walk(e):
        if x['k'] == 'ref' and x.get('n', '').startswith('ompi_mpi_'):
            return x['n'][len('ompi_mpi_'):]
        if x['k'] == 'ref' and x.get('n', '').startswith('MPI_'):
            return x['n'][4:].lower()
    return None


def mpi(P, c, G):
    tags = {}
    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        for x in body_nodes(f):
            if x['k'] == 'call' and x.get('q') in ('MPI_Iprobe', 'MPI_Probe'):
                tags.setdefault(int_const(x['args'][1]), []).append(('p', None, f, x))
            if x['k'] != 'call' or x.get('q') not in P2P:
                continue
            kind, bi, ci, di, ti = P2P[x['q']]
            args = x['args']
            c.saw(f)
            tag = int_const(args[ti]) if ti is not None else None
            dt = dtype(args[di])
            buf = args[bi]
            line = x['l']
            name = 'message of tag %s' % tag if tag is not None else x['q']
            c.ok('message', f.where(line))
            # element width
            bt = strip(buf)
            elem = elem_type(bt)
            w = twidth(elem) if elem else None
            if w is None and elem and P.typedefs is not None:
                w = 4 if 'MessageStatus' in elem or any(elem == q for q in ENUMS(P)) else None
            if dt in WIDTH and w is not None:
                if WIDTH[dt] != w:
                    c.violation('message element type', f, line, '%s: the buffer holds %d-byte values but the call transfers %s (%d bytes each)' % (name, w, dt, WIDTH[dt]),
                                tag='%s %s' % (x['q'], tag))
                else:
                    c.ok('message element type', f.where(line))
            if x['q'] == 'MPI_Allreduce' or x['q'] == 'MPI_Reduce':
                e2 = elem_type(strip(args[1]))
                w2 = twidth(e2) if e2 else None
                if dt in WIDTH and w2 is not None and WIDTH[dt] != w2:
                    c.violation('message element type', f, line, '%s: the result buffer holds %d-byte values but the call transfers %s' % (name, w2, dt), tag='%s result' % x['q'])
            # count
            cnt = int_const(args[ci])
            cont = container_of(bt)
            if cnt is not None:
                if cnt > 1 and cont is None:
                    c.violation('message length', f, line, '%s: %d elements are transferred from a single variable' % (name, cnt), tag='%s %s count' % (x['q'], tag))
                elif cnt == 1:
                    c.ok('message length', f.where(line))
            elif cont is not None:
                if counts(P, f, cont, args[ci]):
                    c.ok('message length', f.where(line))
                else:
                    c.violation('message length', f, line, '%s: the number of elements is not the size of the buffer' % name, tag='%s %s count' % (x['q'], tag))
            else:
                c.violation('message length', f, line, '%s: a variable number of elements for a single variable' % name, tag='%s %s count' % (x['q'], tag))
            # lifetime
            if x['q'] in ('MPI_Isend', 'MPI_Issend', 'MPI_Irecv'):
                v = root_var(bt)
                d = [y for y in body_nodes(f) if y['k'] == 'var' and y.get('id') == v]
                if d and not d[0].get('static') and not waited(f, x):
                    c.violation('message buffer lifetime', f, line, '%s is sent from local variable %s without waiting: the variable is gone before the message is' % (
                        name, d[0]['n']), tag='%s %s' % (x['q'], d[0]['n']))
                else:
                    c.ok('message buffer lifetime', f.where(line))
            if tag is not None:
                tags.setdefault(tag, []).append((kind, dt, f, x))
    for tag, us in sorted(tags.items(), key=str):
        if tag is None:
            continue
        dts = {}
        for kind, dt, f, x in us:
            if dt is not None:
                dts.setdefault(dt, []).append((kind, f, x))
        if len(dts) > 1:
            major = max(dts, key=lambda d: (sum(1 for k, _, _ in dts[d] if k == 's'), len(dts[d])))
            for dt, ls in dts.items():
                if dt != major:
                    for k, f, x in ls:
                        c.violation('one type per message', f, x['l'], 'message of tag %s is %s as %s here and transferred as %s elsewhere' % (
                            tag, 'sent' if k == 's' else 'received', dt, major), tag='%s %s' % (tag, k))
        else:
            c.ok('one type per message', 'tag %s' % tag)
        kinds = {u[0] for u in us}
        if 's' in kinds and 'r' not in kinds:
            u = [u for u in us if u[0] == 's'][0]
            c.violation('message received', u[2], u[3]['l'], 'messages of tag %s are sent but nothing receives them' % tag, tag='tag %s' % tag)
        elif ('r' in kinds or 'p' in kinds) and 's' not in kinds:
            u = [u for u in us if u[0] != 's'][0]
            c.violation('message received', u[2], u[3]['l'], 'messages of tag %s are awaited but nothing sends them' % tag, tag='tag %s' % tag)
        else:
            c.ok('message received', 'tag %s' % tag)


def ENUMS(P):
    return P.enums if hasattr(P, 'enums') else ()


def elem_type(b):
    if b['k'] == 'un' and b['op'] == '&':
        return b['e'].get('t')
    t = b.get('t', '')
    if t.startswith('std::vector<'):
        return t[len('std::vector<'):].split(',')[0].rstrip('>')
    if t.endswith('*'):
        return t[:-1].strip()
    if b['k'] == 'call' and b.get('n') == 'data':
        return b.get('ret', '').replace('*', '').strip()
    if t.endswith(']'):
        return t.split('[')[0].strip()
    return t or None


def container_of(b):
    """variable or member holding a sequence of elements"""
    if b['k'] == 'un' and b['op'] == '&':
        b = strip(b['e'])
    cont, ix = index_parts(b)
    if cont is not None:
        if int_const(ix) == 0:
            return strip(cont)
        return None
    if b['k'] == 'call' and b.get('n') in ('front', 'data') and b.get('obj') is not None:
        return strip(b['obj'])
    return None


def same(a, b):
    a, b = strip(a), strip(b)
    if a is None or b is None or a['k'] != b['k']:
        return False
    if a['k'] == 'ref':
        return a.get('id') == b.get('id') and a.get('id') is not None
    if a['k'] == 'mem':
        return a['n'] == b['n'] and a.get('rec') == b.get('rec') and same(a['base'], b['base'])
    if a['k'] == 'this':
        return True
    if a['k'] == 'call':
        if a.get('f') != b.get('f') or len(a.get('args', [])) != len(b.get('args', [])):
            return False
        return same(a['obj'], b['obj']) if a.get('obj') is not None and b.get('obj') is not None else a.get('obj') is b.get('obj')
    return False


def counts(P, f, cont, e, d=0):
    """e is the number of elements of cont"""
    e = strip(e)
    if e is None or d > 4:
        return False
    if e['k'] == 'call' and e.get('n') == 'size' and e.get('obj') is not None and same(e['obj'], cont):
        return True
    # the container was created with, or resized to, e elements
    for x in body_nodes(f):
        if x['k'] == 'var' and cont['k'] == 'ref' and x.get('id') == cont.get('id') and x.get('init') is not None and x['init']['k'] == 'ctor' and x['init'].get('args'):
            if same(x['init']['args'][0], e):
                return True
        if x['k'] == 'call' and x.get('n') == 'resize' and x.get('obj') is not None and same(x['obj'], cont) and x.get('args') and same(x['args'][0], e):
            return True
        if e['k'] == 'ref' and x['k'] == 'var' and x.get('id') == e.get('id') and x.get('init') is not None and counts(P, f, cont, x['init'], d + 1):
            return True
        if e['k'] == 'ref' and x['k'] == 'bin' and x['op'] == '=' and same(x['a'], e) and counts(P, f, cont, x['b'], d + 1):
            return True
    return False


def waited(f, call):
    rq = strip(call['args'][-1])
    v = root_var(rq['e'] if rq['k'] == 'un' else rq)
    for x in body_nodes(f):
        if x['k'] == 'call' and x.get('q') in ('MPI_Wait', 'MPI_Waitall', 'MPI_Request_free') and x['q'] != 'MPI_Request_free':
            for a in x['args']:
                if root_var(strip(a)['e'] if strip(a)['k'] == 'un' else a) == v and v is not None:
                    return True
    return False
