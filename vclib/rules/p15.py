"""Graph files: what a line says is what the graph gets, and what is written can be read back."""
from ..absint import Interp, Budget, fresh, mark_unsigned
from ..ast import strip
from ..gmodel import graph_prims, isgraph
from ..program import walk, AnalysisBroken
from ..terms import *

RULE = ('Symbolic execution of every reader and writer over a symbolic file. Per loop iteration: one line is consumed, a comment gives nothing, any other line gives exactly one vertex (element, edge); '
        'the numbers taken from it are one target, and one weight exactly when the header announces weights, and they become the edge to target - 1 with that weight, self-loops excepted; '
        'number parsing is decimal and stops behind one separator; the sequence of items written per vertex and edge, and the header, are those the reader takes.')
ASSUMPTIONS = ['numbers in a line are separated by one character', 'std::getline, operator>>, atof and operator<< do what the standard says', 'edges_of and nodes enumerate every edge and vertex once (separate property)']

COMMENT = C(37)
NUMERIC = ('atof', 'stod', 'strtod', 'atoi', 'atol', 'atoll', 'stoi', 'stol', 'stoll', 'stoul', 'stoull', 'strtoul', 'strtoull', 'strtol')


def isstring(t):
    return t.lstrip('&').replace('const ', '').startswith(('std::basic_string<', 'std::__cxx11::basic_string<', 'std::basic_string_view'))


def text(I, st, p):
    p = (p[0], p[1])
    cur = st.env.get(p[0][1]) if p[0][0] == 'v' and not p[1] else None
    while cur is not None and cur[0] == 'ref':
        p = cur[1]
        cur = st.env.get(p[0][1]) if p[0][0] == 'v' and not p[1] else None
    return p, I.read(st, (p[0], p[1] + (('f', '#txt'),)))


def stream_root(I, st, v, p):
    if p is None and v is not None and v[0] == 'ptr':
        p = v[1]
    if p is None:
        return None
    n = 0
    while p[0][0] == 'v' and not p[1] and n < 20:
        cur = st.env.get(p[0][1])
        if cur is None or cur[0] != 'ref':
            break
        p, n = cur[1], n + 1
    return p


def parser(f):
    """a function that takes a number out of a line at a position and moves the position"""
    ps = [p['t'] for p in f['params']]
    return len(ps) == 2 and isstring(ps[0]) and ps[1].replace('const ', '') in ('unsigned long *', 'u64 *', '&u64', '&unsigned long') and f['ret'].startswith('u') and f.get('file', '').endswith('graph_io.h')


def put(st, *xs):
    st.aux['items'] = st.aux.get('items', ()) + xs


def act(st, *xs):
    st.aux['acts'] = st.aux.get('acts', ()) + xs


def io_prims(self, e, st, fr, ov, op, args):
    q, n = e['q'], e.get('n')
    oper = e.get('oper')
    if n == 'getline' and q.startswith('std::') and len(args) >= 2:
        p, _ = text(self, st, args[1][1])
        g = fresh('line')
        self.store(st, (p[0], p[1] + (('f', '#txt'),)), g)
        st.aux['src'] = st.aux['cur'] = g
        st.aux['lines'] = st.aux.get('lines', 0) + 1
        self.emit(st, fr, e, 'getline', n)
        r = stream_root(self, st, *args[0])
        return [(st, ('ptr', r))] if r is not None else [(st, fresh('stream'))]
    if n in ('operator>>',) or oper == '>>':
        if q.startswith('std::') and 'stream' in e.get('ret', ''):
            a = args if e.get('obj') is None else [(ov, op)] + args
            if len(a) == 2 and a[1][1] is not None:
                x = fresh('token')
                mark_unsigned(x)
                self.store(st, a[1][1], x)
                st.aux['src'] = x
                st.aux['tokens'] = st.aux.get('tokens', ()) + (x,)
                r = stream_root(self, st, *a[0])
                return [(st, ('ptr', r))] if r is not None else [(st, fresh('stream'))]
    if q.startswith('std::') and (n == 'operator bool' or n == 'operator!' or oper == '!' or n in ('good', 'fail', 'bad', 'is_open', 'eof')) and e.get('obj') is not None and \
            any(w in q for w in ('ios', 'stream')):
        if n == 'eof':
            return [(st, fresh('eof'))]
        if st.aux.get('src') is None:
            st.aux['tested'] = True
        ok = app('ok', st.aux.get('src') or ('s', 'opened', 0))
        return [(st, neg(ok) if n in ('operator!', 'fail', 'bad') or oper == '!' else ok)]
    f = self.P.lookup(e['f'], self.variant) if 'f' in e else None
    if f is not None and f['key'] in self.readers:
        st.aux['handed'] = True
    if f is not None and parser(f) and fr.fn['key'] != f['key']:
        self.parsers.add(f['key'])
        x = fresh('token')
        mark_unsigned(x)
        p = args[1][1]
        if p is None and args[1][0] is not None and args[1][0][0] == 'ptr':
            p = args[1][0][1]
        if p is None:
            raise AnalysisBroken('P15: position handed to %s not understood' % f['q'])
        self.havoc_path(st, p)
        st.aux['tokens'] = st.aux.get('tokens', ()) + (x,)
        st.aux['src'] = None
        self.emit(st, fr, e, 'token', n)
        return [(st, x)]
    ot = e['obj'].get('t', '') if e.get('obj') is not None else ''
    if e.get('obj') is not None and isstring(ot) and op is not None:
        p, t = text(self, st, op)
        if oper == '[]' or n == 'at':
            return [(st, app('char', t, num(self.argval(st, args[0]))))]
        if n in ('front',):
            return [(st, app('char', t, ZERO))]
        if n in ('size', 'length'):
            r = app('len', t)
            mark_unsigned(r)
            return [(st, r)]
        if n == 'empty':
            return [(st, EQ(app('len', t), ZERO))]
        if n in ('c_str', 'data'):
            return [(st, app('cstr', t))]
    if n in NUMERIC and args:
        v = args[0][0]
        if v is not None and v[0] == 'app' and v[1] == 'cstr':
            return [(st, app('number', v[2]))]
        if args[0][1] is not None and e.get('pt') and isstring(e['pt'][0]):
            return [(st, app('number', text(self, st, args[0][1])[1]))]
    # ---- output
    if (n == 'operator<<' or oper == '<<') and 'ostream' in (e.get('ret', '') + q) and q.startswith('std::'):
        a = args if e.get('obj') is None else [(ov, op)] + args
        s = stream_root(self, st, *a[0])
        if s is None or len(a) < 2:
            return None
        if s[0][0] in ('v', 'p') and not (s[0][0] == 'v' and str(s[0][1]).startswith('g')):
            node = strip((e.get('args') or [None])[-1])
            put(st, *items(self, st, a[1], node, (e.get('pt') or [''])[-1]))
            st.aux['to'] = s
        return [(st, ('ptr', s))]
    if n in ('put',) and q.startswith('std::') and 'ostream' in q and op is not None:
        put(st, *items(self, st, args[0], None, 'char'))
        return [(st, ('ptr', op))]
    # ---- graphs
    c = q.split('::')[0].split('<')[0]
    if c in ('graph_access', 'mutable_graph', 'flow_graph'):
        if n == 'to_graph_access':
            return [(st, fresh('converted'))]
        if n == 'new_node' or n == 'new_empty_node':
            x = fresh('vertex')
            mark_unsigned(x)
            act(st, ('node', x))
            return [(st, x)]
        if n == 'new_edge' or n == 'new_edge_order':
            act(st, ('edge',) + tuple(num(self.argval(st, a)) for a in args[:3]))
            self.emit(st, fr, e, 'edge', n)
            return [(st, fresh('edge'))]
        if n == 'start_construction':
            st.aux['start'] = tuple(num(self.argval(st, a)) for a in args)
            return [(st, None)]
        if n == 'finish_construction':
            st.aux['finished'] = True
            return [(st, None)]
        if n in ('setPartitionIndex', 'computeDegrees', 'set_partition_count'):
            return [(st, None)]
        if n in ('getNodeInCut', 'getPartitionIndex'):
            return [(st, app('incut' if n == 'getNodeInCut' else 'part', num(self.argval(st, args[0]))))]
    if n in ('emplace_back', 'push_back') and ot.lstrip('&').replace('const ', '').startswith('std::vector') and op is not None:
        r = stream_root(self, st, None, op)
        st.aux['sorted'] = None
        if len(args) == 1 and args[0][0] is None or len(args) == 1 and args[0][0][0] in ('snap', 'obj'):
            v = self.argval(st, args[0])
            act(st, ('push', r, tuple(num(x) for x in parts_of(self, st, v, args[0][1]))))
        else:
            act(st, ('push', r, tuple(num(self.argval(st, a)) for a in args)))
        self.emit(st, fr, e, 'push', n)
        return [(st, ('ptr', (op[0], op[1] + (('i', fresh('new')),))))]
    if n == 'make_tuple' and q.startswith('std::') or n == 'make_pair' and q.startswith('std::'):
        if n == 'make_tuple':
            return [(st, ('obj', 'tuple', tuple(('#%d' % i, self.argval(st, a)) for i, a in enumerate(args))))]
    if n in ('sort', 'stable_sort') and q.startswith('std::'):
        vals = [self.argval(st, a) for a in args]
        if len(vals) == 3 and vals[0][0] == 'it' and vals[2][0] == 'lam':
            st.aux['sorted'] = (stream_root(self, st, None, vals[0][1]), vals[2][1] if len(vals[2]) > 1 else None)
            self.sorts.append((e, args[2], vals[2]))
        return [(st, None)]
    return None


def parts_of(I, st, v, p):
    if v is not None and v[0] == 'obj':
        return [x for _, x in v[2]]
    if p is None and v is not None and v[0] == 'snap':
        p = v[1]
    if p is not None:
        return [I.read(st, (p[0], p[1] + (('i', C(i)),))) for i in range(4)]
    return [v]


def items(I, st, a, node, t):
    """what one << adds to the file: numbers as terms, words, ' ' and newlines"""
    v, p = a
    if node is not None and node.get('k') == 'fref' and node.get('n') in ('endl',) or v is not None and v[0] in ('fn', 'fref') and 'endl' in str(v):
        return ['\n']
    if node is not None and node.get('k') == 'str':
        return chars(node['v'])
    if v is None:
        if isstring(t) and p is not None:
            return [('word', text(I, st, p)[1])]
        v = I.read(st, p)
    if v[0] == 'app' and v[1] == 'str':
        return chars(v[2][1])
    if 'char' in t or t in ('i8', '&const i8') or node is not None and node.get('t') == 'i8':
        if v[0] == 'c':
            return chars(chr(v[1]))
    if isstring(t):
        return [('word', text(I, st, p)[1] if p is not None else v)]
    if v[0] == 'app' and 'endl' in show(v):
        return ['\n']
    return [('n', num(v))]


def chars(s):
    out, w = [], ''
    for ch in s:
        if ch in ' \t\n':
            if w:
                out.append(('n', C(int(w))) if w.isdigit() else ('word', w))
                w = ''
            out.append('\n' if ch == '\n' else ' ')
        else:
            w += ch
    if w:
        out.append(('n', C(int(w))) if w.isdigit() else ('word', w))
    return out


def failed(t, F):
    o = app('ok', t)
    return neg(o) in F.atoms or EQ(o, ZERO) in F.atoms


def value(t, h, k):
    """the number t is when h is k, if that says it"""
    t = num(t)
    if t == h:
        return k
    if t[0] == 'c':
        return t[1]
    if t[0] == 'L':
        c, d = parts(t)
        for x, f in d.items():
            v = value(x, h, k)
            if v is None:
                return None
            c += f * v
        return c
    if t[0] == 'app' and t[1] in ('%', 'mod', '/', 'div', '&', '|', 'and', 'idiv') and len(t) == 4:
        a, b = value(t[2], h, k), value(t[3], h, k)
        if a is None or b is None:
            return None
        if t[1] in ('%', 'mod', '/', 'div', 'idiv'):
            return None if not b else a % b if t[1] in ('%', 'mod') else a // b
        return a & b if t[1] in ('&', 'and') else a | b
    return None


def excluded(F, h, k):
    """the facts leave out that h is k"""
    if F.implies(NE(h, C(k))):
        return True
    for at in F.atoms:
        if at[0] in ('ge0', 'eq0', 'ne0') and h in set(subterms(at)):
            v = value(at[1], h, k)
            if v is not None and not (v >= 0 if at[0] == 'ge0' else v == 0 if at[0] == 'eq0' else v != 0):
                return True
    return False


class Run:
    def __init__(self, P, c, f, variant, top):
        self.P, self.c, self.f, self.variant = P, c, f, variant
        self.I = I = Interp(P, variant, prims=[io_prims, graph_prims], maxstates=300, budget=3000000, inline_depth=6, forkret=40, noinline=lambda g, e: g['key'] in top)
        I.parsers, I.sorts, I.readers = set(), [], top
        I.on_event = self.on
        self.nexts = {}         # loop -> [(aux, facts, env, line)]
        self.enters = {}        # loop -> [aux]
        self.exits_ = {}        # loop -> [(aux, facts)]
        self.exits = []         # function ends
        self.names = {}
        self.stopped = []
        try:
            I.run(f)
        except Budget:
            raise AnalysisBroken('P15: state budget exceeded in ' + f['q'])

    def on(self, e, st):
        a = st.aux
        if e.kind == 'loop-enter':
            i = id(e.node)
            self.names[i] = e.node
            self.enters.setdefault(i, []).append((dict(a), st.facts))
            a[('pre', i)] = (a.get('tokens', ()), a.get('acts', ()), a.get('items', ()), a.get('lines', 0))
            a['tokens'] = a['acts'] = a['items'] = ()
            a['lines'] = 0
        elif e.kind == 'loop-next':
            self.nexts.setdefault(id(e.node), []).append((dict(a), st.facts, dict(st.env), e))
        elif e.kind == 'loop-exit':
            i = id(e.node)
            self.exits_.setdefault(i, []).append((dict(a), st.facts, e))
            if any(x[0] in ('node', 'edge', 'push') for x in a.get('acts', ())):
                # the last pass, left by break
                self.nexts.setdefault(i, []).append((dict(a), st.facts, dict(st.env), e))
            a[('end', i)] = (a.get('acts', ()), tuple({key: num(st.env[key]) for v, (key, init, nid) in self.I.loopvars.items() if nid == i and key in st.env and is_num(num(st.env[key]))}.items()))
            t, x, o, ln = a.get(('pre', i), ((), (), (), 0))
            a['tokens'], a['acts'], a['items'], a['lines'] = t, x + (('loop', i),), o + (('loop', i),), ln
        elif e.kind == 'exit':
            self.exits.append((dict(a), st.facts, dict(st.env), e))
        elif e.kind == 'call' and e.name.split('::')[-1] in ('exit', 'abort', '_Exit', 'quick_exit'):
            self.stopped.append((dict(a), st.facts))

    # -- helpers
    def bad(self, rule, e, what, tag):
        line = e.line if hasattr(e, 'line') else e
        self.c.violation(rule, self.f, line, what, tag=tag)

    def good(self, rule, line):
        self.c.ok(rule, '%s:%s:%s' % (self.f['q'] + str(self.f.get('targs') or ''), line, self.f['l']))

    def loops_with(self, kind):
        return [i for i, ns in self.nexts.items() if any(x[0] == kind for a, _, _, _ in ns for x in a.get('acts', ()))]

    def comment(self, F, a):
        """the line is a comment (True), is not (False), not known (None)"""
        r = False if a.get('cur') is not None and F.implies(EQ(app('len', a['cur']), ZERO), depth=1) else None
        for at in F.atoms:
            for t in subterms(at):
                if t[0] == 'app' and t[1] == 'char' and t[2] == a.get('cur') and t[3] == ZERO:
                    if at[0] == 'or' and any(x == NE(t, COMMENT) for x in at[1:]) and any(x == EQ(app('len', t[2]), ZERO) for x in at[1:]):
                        r = False
                    if F.implies(EQ(t, COMMENT), depth=1):
                        return True
                    if F.implies(NE(t, COMMENT), depth=1):
                        r = False
        return r

    def tokens(self, a, F):
        return [t for t in a.get('tokens', ()) if not failed(t, F)]

    def line_loop(self, rule, i, what, need):
        """every pass consumes one line; comments give nothing, other lines exactly one `need`"""
        some = False
        for a, F, env, e in self.nexts[i]:
            xs = [x for x in a.get('acts', ()) if x[0] in ('node', 'edge', 'push')]
            cm = self.comment(F, a)
            if a.get('lines') != 1:
                self.bad(rule, e, 'a pass of the loop over the lines does not read exactly one line', 'lines')
            elif cm is True and xs:
                self.bad(rule, e, 'a comment line gives %s' % what, 'comment')
            elif cm is True:
                self.good(rule, 'comment')
            elif sum(x[0] == need for x in xs) != 1 and not self.skip(a, F):
                self.bad(rule, e, 'a line that is no comment does not give exactly one %s' % what, 'one')
            elif cm is None and xs and not self.dimacs:
                self.bad(rule, e, 'comment lines are not left out', 'nocomment')
            else:
                some = True
                self.good(rule, 'content')
        if not some:
            self.bad(rule, self.names[i].get('l'), 'no line gives %s' % what, 'none')

    dimacs = False

    def skip(self, a, F):
        return False

    def whole(self, L):
        """no line that was read is dropped when the loop ends"""
        for a, F, e in self.exits_.get(L, ()):
            cur = a.get('cur')
            if a.get('lines') and not any(x[0] in ('node', 'push') for x in a.get('acts', ())) and not a.get('handed') and not failed(cur, F) and self.comment(F, a) is not True and not self.skip(a, F):
                self.bad('lines', e, 'a line that was read is dropped at the end of the file', 'dropped')

    def opened(self):
        for a, F, env, e in self.exits:
            if app('ok', ('s', 'opened', 0)) not in F.atoms:
                self.bad('opened', self.f['l'], 'a file that cannot be opened is read like an empty one', 'opened')
                return
        self.good('opened', 'exit')

    # -- METIS graphs
    def graph(self):
        self.opened()
        L = self.loops_with('node')
        T = self.loops_with('edge')
        if len(L) != 1 or len(T) != 1:
            self.bad('lines', self.f['l'], 'the loops over the lines and over the numbers of a line are not found', 'loops')
            return
        L, T = L[0], T[0]
        self.line_loop('lines', L, 'vertex', 'node')
        self.whole(L)
        head = [a.get('tokens', ()) for a, F in self.enters[L]]
        if any(len(h) != 3 for h in head) or len(set(head)) != 1:
            self.bad('header', self.names[L].get('l'), 'the header is not read as vertex count, edge count and format', 'three')
            return
        h = head[0]
        starts = {a.get('start') for a, F in self.enters[L]}
        if starts != {(h[0], mul(C(2), h[1]))}:
            self.bad('header', self.names[L].get('l'), 'the graph is not set up for the vertices and twice the edges the header announces', 'start')
        else:
            self.good('header', 'start')
        for a, F, env, e in self.nexts[L]:
            xs = [x for x in a.get('acts', ())]
            if any(x[0] == 'node' for x in xs):
                k = [j for j, x in enumerate(xs) if x[0] == 'node'][0]
                if ('loop', T) not in xs[k:]:
                    self.bad('lines', e, 'the neighbours of a vertex are not read', 'neighbours')
        for a, F, env, e in self.nexts[T]:
            ts = self.tokens(a, F)
            es = [x for x in a.get('acts', ()) if x[0] == 'edge']
            canu = not excluded(F, h[2], 0)
            canw = not excluded(F, h[2], 1)
            node = [x[1] for x in (a.get(('pre', T)) or ((), ()))[1] if x[0] == 'node']
            if len(ts) not in (1, 2):
                self.bad('numbers', e, 'a pass over a line does not take one neighbour from it', 'count')
                continue
            if len(ts) == 2 and canu:
                self.bad('numbers', e, 'a weight is taken from the line although the header announces none', 'unweighted')
                continue
            if len(ts) == 1 and canw:
                self.bad('numbers', e, 'the weight of a neighbour is not taken from the line although the header announces weights', 'weighted')
                continue
            self.good('numbers', '%d' % len(ts))
            if len(node) != 1:
                self.bad('edges', e, 'the numbers of a line do not belong to one new vertex', 'vertex')
                continue
            loop = EQ(sub(ts[0], C(1)), node[0])
            if not es:
                if not F.implies(loop):
                    self.bad('edges', e, 'a neighbour in the file gives no edge', 'lost')
                else:
                    self.good('edges', 'self-loop')
                continue
            if len(es) > 1:
                self.bad('edges', e, 'a neighbour in the file gives several edges', 'twice')
                continue
            _, s, t, w = (es[0] + (C(1),))[:4]
            if not self.eq(F, s, node[0]):
                self.bad('edges', e, 'the edge does not start at the vertex of the line', 'source')
            elif not self.eq(F, t, sub(ts[0], C(1))):
                self.bad('edges', e, 'the edge does not go to the neighbour in the file (numbered from one)', 'target')
            elif not self.eq(F, w, ts[1] if len(ts) == 2 else C(1)):
                self.bad('edges', e, 'the edge does not get the weight in the file, or one without weights', 'weight')
            elif not F.implies(GT(ts[0], ZERO)):
                self.bad('edges', e, 'what is no number is taken for a neighbour', 'zero')
            elif not F.implies(neg(loop)):
                self.bad('edges', e, 'a self-loop in the file becomes an edge', 'selfloop')
            else:
                self.good('edges', 'edge')
        for a, F, e in self.exits_[T]:
            if not self.tokens(a, F) and not a.get('acts') and self.more(F) is True:
                self.bad('edges', e, 'the numbers of a line are not all read', 'left')
            ts = self.tokens(a, F)
            if ts and len([x for x in a.get('acts', ()) if x[0] == 'edge']) == 0 and not F.implies(EQ(ts[0], ZERO)):
                self.bad('edges', e, 'the rest of a line is left out after a neighbour', 'break')
            if ts and any(x[0] == 'edge' for x in a.get('acts', ())) and not any(t[0] == 'app' and t[1] == 'len' for at in F.atoms for t in subterms(at)):
                self.bad('edges', e, 'the rest of a line is left out after an edge', 'break')
        for a, F, e in self.exits_[L]:
            if a.get('lines') and any(x[0] == 'node' for x in a.get('acts', ())) and not any(t[0] == 's' and t[1] == 'eof' and F.implies(NE(t, ZERO), depth=1) for at in F.atoms for t in subterms(at)):
                self.bad('lines', e, 'the rest of the file is left out after a vertex', 'break')
        for a, F, env, e in self.exits:
            if not a.get('finished'):
                self.bad('header', e, 'the graph that is returned is not finished', 'finish')
            elif not self.counted(L, h[0], F, a):
                self.bad('header', e, 'a file with another number of vertices than its header says is accepted', 'vertices')
            else:
                self.good('header', 'end')

    def eq(self, F, a, b):
        a, b = num(a), num(b)
        return a == b or F.implies(EQ(a, b), depth=1)

    def symbols(self, L, key):
        """the symbols of one local at the start of a pass, one per way the loop was entered"""
        return [v for v, lv in self.I.loopvars.items() if lv[2] == L and lv[0] == key]

    def counts(self, L, key, what):
        """the local starts at zero and grows by one with every vertex (edge) of the file"""
        vs = self.symbols(L, key)
        return all(self.I.loopvars[v][1] == ZERO for v in vs) and \
            all(any(self.eq(Fn, num(env[key]), add(v, C(sum(x[0] == what for x in a.get('acts', ()))))) for v in vs) for a, Fn, env, e in self.nexts[L] if key in env)

    def counted(self, L, h, F, a0):
        for key, end in dict(a0.get(('end', L), ((), ()))[1]).items():
            if F.implies(EQ(end, h), depth=1) and self.counts(L, key, 'node'):
                return True
        nn = app('numnodes')
        return F.implies(EQ(nn, h), depth=1)

    # -- edge lists
    def edgelist(self):
        self.opened()
        L = self.loops_with('push')
        if len(L) != 1:
            self.bad('lines', self.f['l'], 'the loop over the lines is not found', 'loops')
            return
        L = L[0]
        self.dimacs = not any(self.comment(F, a) is not None for a, F, env, e in self.nexts[L])
        if self.dimacs:
            self.skip = lambda a, F: len(self.tokens(a, F)) >= 2 and F.implies(GE(self.tokens(a, F)[0], self.tokens(a, F)[1]))
        self.line_loop('lines', L, 'edge', 'push')
        self.whole(L)
        roots = set()
        for a, F, env, e in self.nexts[L]:
            ps = [x for x in a.get('acts', ()) if x[0] == 'push']
            if len(ps) != 1:
                continue
            roots.add(ps[0][1])
            v = ps[0][2]
            ts = self.tokens(a, F)
            if len(v) != 4 or len(ts) not in (2, 3, 4):
                self.bad('edges', e, 'an edge is not recorded with ends, weight and time', 'four')
                continue
            if not self.eq(F, v[0], sub(ts[0], C(1))) or not self.eq(F, v[1], sub(ts[1], C(1))):
                self.bad('edges', e, 'the ends of an edge are not the first two numbers of the line (from one)', 'ends')
                continue
            if self.dimacs:
                if len(ts) != 2 or not self.eq(F, v[2], C(1)):
                    self.bad('edges', e, 'an edge without weight does not weigh one', 'weight')
                elif not F.implies(GT(ts[1], ts[0])):
                    self.bad('edges', e, 'an edge that is listed from both ends is recorded twice', 'both')
                elif not self.rising(L, v[3]):
                    self.bad('edges', e, 'edges without time do not get rising times', 'time')
                else:
                    self.good('edges', 'dimacs')
                continue
            sign = self.sign(F)
            if sign is not None and len(ts) == 4:
                ok = self.eq(F, v[2], ts[2] if sign > 0 else sub(ZERO, ts[2])) and self.eq(F, v[3], ts[3])
            elif sign is not None:
                ok = False
            elif len(ts) == 4:
                ok = self.eq(F, v[2], ts[2]) and self.eq(F, v[3], ts[3]) and self.more(F) is True
            else:
                ok = len(ts) == 3 and self.eq(F, v[2], C(1)) and self.eq(F, v[3], ts[2]) and self.more(F) is False
            if not ok:
                self.bad('edges', e, 'weight and time of an edge are not the numbers behind its ends (with their sign, weight one when it is missing)', 'rest')
            else:
                self.good('edges', '%s-%d' % (sign, len(ts)))
        head = [a.get('tokens', ()) for a, F in self.enters[L]]
        firsts = []
        for a, F, env, e in self.exits:
            r = e.args[0] if e.args else None
            d = dict(r[2]) if r is not None and r[0] == 'obj' else None
            first = d.get('first') if d else None
            if first is None:
                if r is not None and r[0] == 's' and r[1].startswith('read'):
                    continue        # another reader's result
                self.bad('vertices', e, 'the number of vertices returned is not understood', 'obj')
                continue
            if self.dimacs:
                if len(head[0]) < 1 or not self.eq(F, first, head[0][0]):
                    self.bad('vertices', e, 'the number of vertices returned is not that of the header', 'head')
                else:
                    self.good('vertices', 'head')
                continue
            firsts.append((dict(a.get(('end', L), ((), ()))[1]), num(first), e))
            s = a.get('sorted')
            if not (s and s[0] in roots):
                self.bad('order', e, 'the edges are not sorted by time', 'sort')
            elif not self.I.sorts or not all(self.by_time(x) for x in self.I.sorts):
                self.bad('order', e, 'the edges are not sorted by time', 'key')
            else:
                self.good('order', 'time')
        if firsts:
            self.vertices(L, firsts)

    def sign(self, F):
        for at in F.atoms:
            for t in subterms(at):
                if t[0] == 'app' and t[1] == 'char' and t[3] != ZERO:
                    if F.implies(EQ(t, C(45)), depth=1):
                        return -1
                    if F.implies(EQ(t, C(43)), depth=1):
                        return 1
        return None

    def more(self, F):
        """there is something left on the line"""
        for at in F.atoms:
            for t in subterms(at):
                if t[0] == 'app' and t[1] == 'len':
                    # a position against the length
                    for x in {y for b in F.atoms if t in set(subterms(b)) for y in subterms(b) if y[0] == 's'}:
                        if x == t[2]:
                            continue
                        if F.implies(GT(t, x), depth=1):
                            return True
                        if F.implies(GE(x, t), depth=1):
                            return False
        return None

    def rising(self, L, v):
        lv = [x for x in self.I.loopvars if self.I.loopvars[x][2] == L and x in set(subterms(v))]
        if len(lv) != 1:
            return False
        x = lv[0]
        key = self.I.loopvars[x][0]
        vs = self.symbols(L, key)
        for a, F, env, e in self.nexts[L]:
            y = num(env.get(key, x))
            one = any(z[0] == 'push' for z in a.get('acts', ()))
            if not any(F.implies(GT(y, z)) if one else F.implies(GE(y, z)) for z in vs):
                return False
        return parts(sub(num(v), x))[1] == parts(ZERO)[1]

    def vertices(self, L, firsts):
        for key in sorted({lv[0] for lv in self.I.loopvars.values() if lv[2] == L}, key=str):
            vs = self.symbols(L, key)
            if all(self.I.loopvars[v][1] == ZERO for v in vs) and all(end.get(key) == x for end, x, e in firsts):
                break
        else:
            self.bad('vertices', firsts[0][2], 'the number of vertices returned does not grow with the edges read', 'carried')
            return
        for a, F, env, e in self.nexts[L]:
            ps = [x for x in a.get('acts', ()) if x[0] == 'push']
            y = num(env.get(key, ZERO))
            if not ps:
                if y not in vs:
                    self.bad('vertices', e, 'the number of vertices changes without an edge', 'change')
                continue
            s, t = add(ps[0][2][0], C(1)), add(ps[0][2][1], C(1))
            old = [v for v in vs if F.implies(GE(y, v))]
            if not (F.implies(GE(y, s)) and F.implies(GE(y, t)) and old):
                self.bad('vertices', e, 'a vertex of an edge is not counted', 'count')
            elif not any(self.eq(F, y, z) for z in old + [s, t]):
                self.bad('vertices', e, 'the number of vertices is not the largest number used', 'largest')
            else:
                self.good('vertices', 'count')

    def by_time(self, s):
        e, arg, lam = s
        g = None
        for x in walk(e):
            if x['k'] == 'lambda':
                fs = [f for f in self.P.functions.values() if f.get('lambda') and f['l'] == x['l'] and f['q'].startswith(self.f['q'])]
                g = fs[0] if fs else None
        if g is None or len(g['params']) != 2:
            return False
        def elem(pr):
            def get(self_, e, st, fr, ov, op, args):
                if e.get('n') == 'get' and e['q'].startswith('std::'):
                    p = args[0][1]
                    r = stream_root(self_, st, None, p)
                    return [(st, app('get', ('ptr', r), C(int(''.join(ch for ch in str(e.get('ta') or '').split(',')[0] if ch.isdigit()) or -1))))]
                return None
            return get
        I = Interp(self.P, self.variant, prims=[elem(g)], maxstates=20, budget=100000)
        out = []
        for st, v in I.run(g):
            out.append((st.facts, v))
        a, b = [('ptr', (('p', ('s', 'arg:%s:%s' % (p['n'], p['t'].lstrip('&').replace('const ', '')), 0)), ())) for p in g['params']]
        return len(out) == 1 and tobool(out[0][1]) == tobool(GT(app('get', b, C(3)), app('get', a, C(3))))

    # -- vectors
    def vector(self):
        self.opened()
        L = self.loops_with('push')
        if len(L) != 1:
            self.bad('lines', self.f['l'], 'the loop over the lines is not found', 'loops')
            return
        L = L[0]
        self.line_loop('lines', L, 'element', 'push')
        self.whole(L)
        for a, F, env, e in self.nexts[L]:
            for x in a.get('acts', ()):
                if x[0] == 'push':
                    v = x[2][0] if x[2] else None
                    if len(x[2]) != 1 or not (v[0] == 'app' and any(t[0] == 'app' and t[1] == 'number' for t in subterms(v)) or any(t[0] == 'app' and t[1] == 'number' for t in subterms(v))):
                        self.bad('elements', e, 'the element is not the number on the line', 'value')
                    else:
                        self.good('elements', 'value')

    # -- writers
    def seq(self, its, e):
        """[items without separators, starts with one, ends with one], or None when two numbers run into each other"""
        out, last = [], None
        for x in its:
            if x == ' ':
                if last == ' ':
                    return None
                last = ' '
                continue
            if x == '\n':
                out.append('\n')
            else:
                if last == 'x' and x[0] != 'loop':
                    return None
                out.append(x)
            last = 'x' if x not in (' ', '\n') and x[0] != 'loop' else x
        return out

    def cover(self, i, F, what, n=None):
        """the vertex or edge variable the loop is at when it runs over all of them"""
        node = self.names[i]
        if node['k'] == 'forrange':
            for at in F.atoms:
                if at[0] == 'app' and at[1] == 'in' and at[2][0] == 's' and at[2][1] == node['var'].get('n'):
                    if what == 'nodes' and at[3][:2] == ('range', 'nodes') or what == 'edges' and at[3] == ('range', 'edges', n):
                        return at[2]
                if what == 'size' and at[0] == 'app' and at[1] == 'elem':
                    return at[2]
            return None
        for v, (key, init, nid) in self.I.loopvars.items():
            if nid != i:
                continue
            if not all(any(self.eq(Fn, num(env.get(key, v)), add(z, C(1))) for z in self.symbols(i, key)) for a, Fn, env, e in self.nexts[i]):
                continue
            if what == 'nodes' and init == ZERO and F.implies(GT(app('numnodes'), v)):
                return v
            if what == 'edges' and n is not None and num(init) == app('get_first_edge', n) and F.implies(GT(app('get_first_invalid_edge', n), v)):
                return v
            if what == 'size' and init == ZERO and any(F.implies(GT(t, v), depth=1) for at in F.atoms for t in subterms(at) if t != v and v in set(subterms(at)) and t[0] in ('ld', 'app', 's')):
                return v
        return None

    def writer(self):
        ends = {}
        for a, F, env, e in self.exits:
            its = self.seq(a.get('items', ()), e)
            ends.setdefault(None if its is None else tuple(its), (F, e))
        N, M = app('numnodes'), None
        for its, (F, e) in ends.items():
            if its is None:
                self.bad('written', e, 'two numbers in the header are not separated', 'separator')
                continue
            loops = [x for x in its if x[0] == 'loop']
            if len(loops) != 1 or its[-1] != loops[0]:
                self.bad('written', e, 'the file is not a header and one part for every vertex', 'shape')
                continue
            i = loops[0][1]
            head = [x for x in its if x is not loops[0]]
            self.body(i, head, e)

    def body(self, i, head, e0):
        N = app('numnodes')
        fn = self.f
        kind = None
        half = app('/', app('numedges'), C(2))
        if not head:
            kind = 'list'
        elif head[-1] == '\n' and head.count('\n') == 1:
            xs = head[:-1]
            if len(xs) == 4 and xs[0] == ('word', 'p') and xs[1][0] == 'word':
                kind, xs = 'dimacs', xs[2:]
            elif len(xs) == 2:
                kind = 'plain'
            elif len(xs) == 3 and xs[2][0] == 'n' and xs[2][1] in (ZERO, C(1)):
                kind = 'weighted' if xs[2][1] == C(1) else 'plain'
            if kind and not (xs[0] == ('n', N) and xs[1][0] == 'n' and self.halfm(xs[1][1])):
                self.bad('written', e0, 'the header does not give the numbers of vertices and of edges', 'counts')
                kind = None
                return
        if kind is None:
            self.bad('written', e0, 'the header is not one the reader takes', 'header')
            return
        self.good('written', 'header')
        done = False
        for a, F, env, e in self.nexts.get(i, ()):
            its = self.seq(a.get('items', ()), e)
            if its is None:
                self.bad('written', e, 'two numbers are not separated', 'separator')
                continue
            if kind == 'list':
                n = self.cover(i, F, 'nodes')
                v = self.cover(i, F, 'size') if n is None else None
                if n is None and v is None:
                    self.bad('written', e, 'not every vertex or element is written', 'cover')
                elif len(its) != 2 or its[1] != '\n' or its[0][0] != 'n':
                    self.bad('written', e, 'a vertex or element does not give one line with one number', 'line')
                elif n is not None and its[0][1] != app('incut', n) and num(its[0][1]) != num(app('incut', n)):
                    self.bad('written', e, 'what is written for a vertex is not its side of the cut', 'side')
                elif v is not None and not any(t == ('i', v) or t == v for t in subterms_(its[0][1])):
                    self.bad('written', e, 'what is written is not the element', 'element')
                else:
                    done = True
                    self.good('written', 'list')
                continue
            n = self.cover(i, F, 'nodes')
            if n is None:
                self.bad('written', e, 'not every vertex is written', 'cover')
                continue
            loops = [x for x in its if x[0] == 'loop']
            want = loops if kind == 'dimacs' else loops + ['\n']
            if len(loops) != 1 or its != want:
                self.bad('written', e, 'a vertex does not give one line with its edges' if kind != 'dimacs' else 'a vertex does not give its edges', 'line')
                continue
            done = True
            self.edges(loops[0][1], n, kind)
        if not done and kind:
            self.bad('written', e0, 'nothing is written for the vertices', 'none')

    def halfm(self, t):
        m = app('numedges')
        s = set(subterms(t))
        if m not in s:
            return False
        return t in (app('div', m, C(2)), app('/', m, C(2)), app('idiv', m, C(2)), app('>>', m, C(1)), app('shr', m, C(1)))

    def edges(self, i, n, kind):
        for a, F, env, e in self.nexts.get(i, ()):
            ed = self.cover(i, F, 'edges', n)
            if ed is None:
                self.bad('written', e, 'not every edge of a vertex is written', 'edges')
                continue
            its = self.seq(a.get('items', ()), e)
            raw = a.get('items', ())
            t, w = app('tgt', n, ed), app('wgt', n, ed)
            t1 = ('n', add(t, C(1)))
            if kind == 'dimacs' and not its and not raw:
                if not F.implies(GE(n, t)):
                    self.bad('written', e, 'an edge is left out', 'lost')
                else:
                    self.good('written', 'other end')
                continue
            want = {'weighted': [t1, ('n', w)], 'plain': [t1], 'dimacs': [('word', 'a'), ('n', add(n, C(1))), t1, ('n', w), '\n']}[kind]
            if its is None or its != want:
                self.bad('written', e, 'what is written for an edge is not its target (from one)%s' % (' and its weight' if kind != 'plain' else ''), 'edge')
            elif kind != 'dimacs' and (raw[-1] == ' ') == (raw[0] == ' '):
                self.bad('written', e, 'edges are not separated by one blank', 'separator')
            elif kind == 'dimacs' and not F.implies(GT(t, n)):
                self.bad('written', e, 'an edge is written from both ends', 'both')
            else:
                self.good('written', kind)

    # -- conversion
    def conversion(self):
        L = self.loops_with('edge')
        if len(L) != 1:
            self.bad('converted', self.f['l'], 'the loop over the edges is not found', 'loops')
            return
        L = L[0]
        for a, F, env, e in self.nexts[L]:
            es = [x for x in a.get('acts', ()) if x[0] == 'edge']
            n = [at[3][2] for at in F.atoms if at[0] == 'app' and at[1] == 'in' and at[3][:2] == ('range', 'edges')]
            if len(n) != 1:
                self.bad('converted', e, 'not every edge is taken over', 'cover')
                continue
            ed = self.cover(L, F, 'edges', n[0])
            if ed is None or len(es) != 1 or es[0][1:] != (n[0], app('tgt', n[0], ed), app('wgt', n[0], ed)):
                self.bad('converted', e, 'an edge is not taken over with its ends and its weight', 'edge')
            else:
                self.good('converted', 'edge')
        for a, F, env, e in self.exits:
            if not a.get('finished') or a.get('start', (None,))[0] != app('numnodes'):
                self.bad('converted', e, 'the flow graph is not set up for all vertices, or not finished', 'start')


def subterms_(t):
    out = []
    st = [t]
    while st:
        x = st.pop()
        out.append(x)
        if isinstance(x, tuple):
            st += [y for y in x if isinstance(y, tuple)]
    return out


def number_parser(P, c, f, variant):
    """decimal digits up to the first other character, which is skipped"""
    got = {}

    def on(e, st):
        if e.kind in ('loop-next', 'loop-exit', 'loop-body'):
            got.setdefault(e.kind, []).append((st.facts, dict(st.env), st, e))
    I = Interp(P, variant, prims=[io_prims], maxstates=40, budget=200000)
    I.parsers, I.sorts, I.readers = set(), [], ()
    I.on_event = on
    line, pos = f['params']
    pp = (('p', ('s', 'position', 0)), ())
    p0 = ('s', 'start', 0)
    mark_unsigned(p0)

    def setup(I, st, fr):
        st.env[(fr.id, pos['id'])] = ('ref', pp) if pos['t'].startswith('&') else ('ptr', pp)
        I.store(st, pp, p0)
    outs = I.run(f, setup=setup)
    ends = []
    for st, v in outs:
        ends.append((st, num(v)))
    nx = [(F, e, s2) for F, env, s2, e in got.get('loop-next', ())]

    def bad(what, tag):
        c.violation('parser', f, f['l'], what, tag=tag)
    chs = {t for F, e, s in nx for at in F.atoms for t in subterms(at) if t[0] == 'app' and t[1] == 'char'}
    accs = [v for v, (key, init, nid) in I.loopvars.items() if init == ZERO]
    ok = False
    for st, v in ends:
        if v not in accs:
            bad('the number returned is not the one accumulated from nothing', 'value')
            return
        key = I.loopvars[v][0]
        for F, e, s2 in nx:
            y = num(s2.env.get(key, v))
            c0 = [t for t in chs if y == add(mul(C(10), v), sub(t, C(48)))]
            if not c0:
                bad('the number is not built up decimal digit by digit', 'digit')
                return
            t = c0[0]
            if not (F.implies(GE(t, C(48))) and F.implies(GE(C(57), t))):
                bad('something that is no digit is taken for one', 'range')
                return
            lv = I.loopvars.get(t[3])
            if num(I.read(s2, pp)) != add(t[3], C(1)) and not (lv and lv[1] == p0 and num(s2.env.get(lv[0], ZERO)) == add(t[3], C(1))):
                bad('the position does not move by one with every digit', 'step')
                return
        F = st.facts
        here = [t for at in F.atoms for t in subterms(at) if t[0] == 'app' and t[1] == 'char']
        nd = [t for t in here if F.implies(GT(C(48), t), depth=1) or F.implies(GT(t, C(57)), depth=1) or OR(GT(C(48), t), GT(t, C(57))) in F.atoms]
        if not nd:
            bad('the number ends before its last digit', 'end')
            return
        if num(I.read(st, pp)) != add(nd[0][3], C(1)):
            bad('one separator is not skipped after the number', 'skip')
            return
        ok = True
        c.ok('parser', f['q'])
    if not ok or not nx:
        bad('the number parser is not understood', 'shape')


def run(P, c, tier):
    c.rule_text = RULE
    c.assumptions = ASSUMPTIONS
    fs = [f for f in P.functions.values() if (f.get('cls') or '') == 'graph_io' and f.get('b') is not None and not f.get('lambda') and f['n'] not in ('graph_io', '~graph_io')]
    if not fs:
        raise AnalysisBroken('P15: no readers and writers found')
    public = [f for f in fs if f.get('access', 'public') == 'public' and not any('stream' in p['t'] for p in f['params'])]
    readers = [f for f in public if f['ret'].startswith(('std::shared_ptr', 'std::pair', 'std::vector'))]
    writers = [f for f in public if f['n'].startswith('write')]
    top = {f['key'] for f in readers}
    pars = set()
    for f in sorted(readers + writers, key=lambda f: f['key']):
        variant = sorted(f['variants'])[-1]
        c.saw(f)
        R = Run(P, c, f, variant, top)
        pars |= R.I.parsers
        ret = f['ret']
        acts = {x[0] for ns in R.nexts.values() for a, _, _, _ in ns for x in a.get('acts', ())}
        if 'node' in acts:
            R.graph()
        elif 'flow_graph' in ret:
            R.conversion()
        elif ret.startswith('std::pair'):
            R.edgelist()
        elif ret.startswith('std::vector'):
            R.vector()
        else:
            R.writer()
    for k in sorted(pars):
        f = P.functions[k]
        c.saw(f)
        number_parser(P, c, f, sorted(f['variants'])[-1])
    for r, k in (('lines', 6), ('header', 2), ('numbers', 2), ('edges', 5), ('opened', 4), ('vertices', 2), ('order', 1), ('elements', 1), ('written', 10), ('converted', 1), ('parser', 1)):
        c.floor(r, k)
