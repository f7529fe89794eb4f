"""References and iterators into containers are not used after the container moved its elements; owned objects are freed once."""
from ..ast import strip, is_assign, assign_parts, index_parts
from ..flow import Flow
from ..program import walk, children, AnalysisBroken
from ..ctx import short
from .p12 import Walker, Analysis, Acc

RULE = ('Flow analysis of every function: each reference, pointer or iterator into a container and each range-based loop over one is followed with the container it points into; calls are '
        'summarised by the containers they reorganise (object path with subscript terms). After an operation that may move or remove the elements in question no path may use the reference, or '
        'take the next step of the loop, before it is bound again. Owning raw pointers: the class frees them once, is not copied member-wise, and does not replace them without freeing.')
ASSUMPTIONS = ['two differently named objects are different objects']


def kind(t):
    t = t.lstrip('&').replace('const ', '').replace('std::__cxx11::', 'std::')
    for p, k in (('std::vector', 'vector'), ('std::basic_string', 'vector'), ('std::string', 'vector'), ('std::deque', 'deque'), ('std::unordered_', 'hash'), ('std::map', 'tree'),
                 ('std::set', 'tree'), ('std::multi', 'tree'), ('std::list', 'list'), ('google::', 'dense'), ('std::queue', 'deque'), ('std::priority_queue', 'vector'), ('std::stack', 'deque')):
        if t.startswith(p):
            return k
    return 'other'


def breaks(k, m, what):
    """does operation m on a container of kind k end references (what='ref') or iterators ('iter')"""
    if what == 'range':
        return m in ('clear', 'assign', 'swap', 'operator=', 'resize', 'erase', 'pop_back', None)
    if m in ('clear', 'assign', 'swap', 'operator=', None, 'reset', 'merge', 'splice'):
        return True
    if k == 'vector':
        return m in ('push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'reserve', 'erase', 'shrink_to_fit', 'push', 'pop')
    if k == 'deque':
        if m in ('insert', 'emplace', 'erase', 'resize', 'shrink_to_fit'):
            return True
        return what == 'iter' and m in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push')
    if k == 'hash':
        if what == 'loop' and m == 'erase':
            return True
        return what in ('iter', 'loop') and m in ('insert', 'emplace', '[]', 'reserve', 'rehash', 'try_emplace', 'insert_or_assign')
    if k == 'dense':
        return m in ('insert', '[]', 'resize')
    if k in ('tree', 'list'):
        return what == 'loop' and m == 'erase'
    return False


class W(Walker):
    def __init__(self, A, f, v):
        Walker.__init__(self, A, f, v, 0, body=f['b'])
        self.params = {}
        self.local = set()
        self.inits_all = self.inits

    def term(self, e, d=0):
        e0 = strip(e)
        if e0 is not None and e0['k'] == 'ref' and 'id' in e0 and e0['id'] not in self.assigned and len(self.inits.get(e0['id'], [])) == 1 and d < 4:
            t = Walker.term(self, self.inits[e0['id']][0], d + 1)
            if '?' not in str(t):
                return t
        return Walker.term(self, e, d)

    def resolve(self, e, d=0):
        e0 = strip(e)
        if e0 is not None and e0['k'] == 'ref' and 'id' in e0 and e0['id'] not in self.alias and not e0.get('global'):
            return (('v', e0['id']), (), e0.get('t', ''))
        if e0 is not None and e0['k'] == 'call' and e0.get('f') and e0.get('ret', '').startswith('&') and d < 6:
            g = self.P.lookup(e0['f'], self.v)
            if g is not None and g.get('b') is not None and e0.get('obj') is not None:
                rs = [x for x in walk(g['b']) if x['k'] == 'return' and x.get('e') is not None]
                if len(rs) == 1:
                    pl = self.inner(g, rs[0]['e'], e0)
                    b = self.resolve(e0['obj'], d + 1)
                    if pl is not None and b is not None:
                        return (b[0], b[1] + pl, b[2])
        return Walker.resolve(self, e, d)

    def inner(self, g, e, call):
        """path below the receiver of what a getter returns"""
        e = strip(e)
        if e['k'] == 'this':
            return ()
        if e['k'] == 'mem':
            b = self.inner(g, e['base'], call)
            return None if b is None else b + (('.', e['n']),)
        c, i = index_parts(e)
        if c is not None:
            b = self.inner(g, c, call)
            if b is None:
                return None
            i = strip(i)
            t = ('?',)
            if i['k'] == 'ref' and 'id' in i:
                for n, p in enumerate(g['params']):
                    if p['id'] == i['id'] and n < len(call['args']):
                        t = self.term(call['args'][n])
            return b + (('[]', t),)
        return None


def graph_range(e):
    """(graph, vertex or None) of an index range over the vertices or the edges of one vertex of a graph"""
    e = strip(e)
    if e is not None and e['k'] == 'call' and e.get('obj') is not None and e.get('n') in ('edges_of', 'nodes', 'edges_of_starting_at') and 'mutable_graph' in e['obj'].get('t', ''):
        if e['n'] == 'nodes':
            return e['obj'], None
        return e['obj'], e['args'][0]
    return None


def known(t):
    return '?' not in str(t) and 'lv' not in str(t)


def covers(p, q):
    """the container at path p holds (directly or inside an element) what path q points to"""
    if len(p) >= len(q) and p != q:
        return False
    for x, y in zip(p, q):
        if x[0] != y[0]:
            return False
        if x[0] == '.' and x[1] != y[1]:
            return False
        if x[0] == '[]' and not (x[1] == y[1] and known(x[1])):
            return False
    return True


class Inval(Flow):
    """state: frozenset of (reference key, line of the operation that ended it)"""

    def __init__(self, P, ctx, A, f, variant):
        Flow.__init__(self, P)
        self.ctx, self.A, self.f, self.v = ctx, A, f, variant
        self.w = W(A, f, variant)
        self.refs = {}         # variable id -> [(root, path of the element, kind, flavour)]
        self.loops = {}
        self.names = {p['id']: p['n'] for p in f['params']}
        self.nodecall = {}
        for x in walk(f['b']):
            if x['k'] == 'var':
                self.names[x['id']] = x['n']
                if x.get('init') is not None:
                    self.bindref(x)
            if x['k'] == 'forrange':
                if x['var']['k'] == 'var':
                    self.names[x['var']['id']] = x['var']['n']
                r = self.w.resolve(x['range'])
                rt = x['range'].get('t', '')
                g = graph_range(x['range'])
                if g is not None:
                    gr = self.w.resolve(g[0])
                    if gr is not None:
                        p = gr[1] + (('.', 'vertices'),)
                        if g[1] is not None:
                            p = p + (('[]', self.w.term(g[1])),)
                        self.loops[id(x)] = (gr[0], p, 'range')
                if r is not None and kind(rt) != 'other' and strip(x['range'])['k'] in ('ref', 'mem', 'idx', 'call'):
                    self.loops[id(x)] = (r[0], r[1], kind(rt))
                    if x['var']['k'] == 'var' and x['var']['t'].startswith('&'):
                        self.refs.setdefault(x['var']['id'], []).append((r[0], r[1], kind(rt), 'ref'))
            if x['k'] in ('bin', 'call') and is_assign(x):
                a, b = assign_parts(x)
                a = strip(a) if a is not None else None
                if a is not None and a['k'] == 'ref' and 'id' in a and ('iterator' in a.get('t', '')) and b is not None:
                    c = self.container(b)
                    if c:
                        self.refs.setdefault(a['id'], []).append(c + ('iter',))
        self.target = {}
        for x in walk(f['b']):
            if x['k'] in ('bin', 'call') and is_assign(x) and (x.get('op') == '=' or x.get('oper') == '='):
                a, b = assign_parts(x)
                if a is not None and strip(a)['k'] == 'ref':
                    self.target[id(strip(a))] = x
            if x['k'] == 'call' and x.get('obj') is not None and x.get('n') in ('erase', 'insert', 'emplace', 'splice'):
                pass

    def container(self, e):
        e = strip(e)
        if e is None:
            return None
        if e['k'] == 'call' and e.get('obj') is not None and e.get('n') in ('begin', 'end', 'find', 'rbegin', 'cbegin', 'erase', 'lower_bound', 'upper_bound', 'insert'):
            r = self.w.resolve(e['obj'])
            k = kind(e['obj'].get('t', ''))
            if r is not None and k != 'other':
                return (r[0], r[1], k)
        if e['k'] == 'call' and e.get('oper') in ('+', '-'):
            return self.container(e['obj'] if e.get('obj') is not None else e['args'][0])
        if e['k'] in ('ctor', 'cast', 'copy') and e.get('args'):
            return self.container(e['args'][0])
        if e['k'] == 'call' and e.get('q', '').startswith('std::') and e.get('n') in ('find', 'find_if', 'lower_bound', 'upper_bound', 'max_element', 'min_element', 'next', 'prev', 'unique',
                                                                                     'remove', 'remove_if', 'partition') and e.get('args'):
            return self.container(e['args'][0])
        return None

    def bindref(self, x):
        i, init = x['id'], x['init']
        if 'iterator' in x['t']:
            c = self.container(init)
            if c:
                self.refs.setdefault(i, []).append(c + ('iter',))
            return
        if not (x['t'].startswith('&') or x['t'].endswith('*')):
            return
        e = strip(init)
        if x['t'].endswith('*') and e is not None and e.get('k') not in ('un', 'ref', 'call'):
            return
        if x['t'].endswith('*') and not any(y['k'] == 'un' and y['op'] == '&' for y in walk(init)) and not (e['k'] == 'call' and e.get('n') == 'data'):
            return
        r = self.w.resolve(init)
        if r is None:
            return
        # every container on the way
        e = strip(init)
        if e['k'] == 'un' and e['op'] == '&':
            e = strip(e['e'])
        node, path = e, r[1]
        depth = len(path)
        while node is not None and depth > 0:
            c, ix = index_parts(node)
            if c is None and node['k'] == 'call' and node.get('obj') is not None and node.get('n') in ('front', 'back', 'at', 'data') and node.get('q', '').startswith('std::'):
                c = node['obj']
            if c is not None:
                k = kind(c.get('t', ''))
                if k != 'other':
                    rr = self.w.resolve(c)
                    if rr is not None:
                        self.refs.setdefault(i, []).append((rr[0], rr[1], k, 'ref'))
                node = strip(c)
            elif node['k'] == 'mem':
                node = strip(node['base'])
            else:
                break
            depth -= 1

    # ---- effects
    def effects(self, e):
        if id(e) not in self.nodecall:
            w = self.w
            w.out = []
            if e['k'] in ('call', 'ctor'):
                w.nocallargs = True
                self.only(e)
            elif e['k'] in ('bin',) and is_assign(e):
                w.place(e['a'], 'w', e['l'])
            self.nodecall[id(e)] = [a for a in w.out if a.mode == 'sw']
        return self.nodecall[id(e)]

    def only(self, e):
        """effects of this call itself, not of its operands"""
        w = self.w
        if is_assign(e):
            a, b = assign_parts(e)
            r = w.resolve(a)
            if r is not None and kind(a.get('t', '')) != 'other' and (e.get('oper') == '='):
                w.emit(r, 'sw', e['l'], ('m', 'operator='), a.get('t', ''))
            return
        out = []
        w.out = []
        w.call(e)
        # operands' own effects are reported at their nodes
        own = w.out
        inner = set()
        for c in children(e):
            for y in walk(c):
                if y['k'] in ('call', 'ctor') and y is not e:
                    w.out = []
                    w.call(y)
                    inner |= {a.key()[:3] + (a.line, str(a.val)) for a in w.out if a.mode == 'sw'}
        w.out = [a for a in own if a.mode != 'sw' or a.key()[:3] + (a.line, str(a.val)) not in inner]

    def join(self, a, b):
        return a | b

    def kill(self, e, st):
        for a in self.effects(e):
            m = a.val[1] if a.val and a.val[0] == 'm' else None
            k = kind(a.typ)
            if k == 'other':
                continue
            erased = None
            if m == 'erase' and e['k'] == 'call' and e.get('args') and e.get('n') == 'erase':
                v = strip(e['args'][0])
                while v is not None and v['k'] in ('ctor', 'cast', 'copy') and (v.get('args') or v.get('e')):
                    v = strip(v['args'][0] if v.get('args') else v['e'])
                if v is not None and v['k'] == 'ref':
                    erased = v.get('id')
            for i, bs in self.refs.items():
                for (root, path, bk, fl) in bs:
                    if root != a.root:
                        continue
                    if path == a.path and known_path(path):
                        hit = breaks(k, m, fl) or fl == 'iter' and m == 'erase' and erased == i
                    elif covers(a.path, path) and len(a.path) < len(path):
                        hit = breaks(k, m, 'ref')
                    else:
                        hit = False
                    if hit:
                        st = st | {(i, e['l'])}
            for lid, (root, path, bk) in self.loops.items():
                if root == a.root and (path == a.path and known_path(path) and breaks(k, m, 'range' if bk == 'range' else 'loop' if bk in ('hash', 'tree', 'list', 'deque') else 'iter') or
                                       len(a.path) < len(path) and covers(a.path, path) and breaks(k, m, 'range' if bk == 'range' else 'ref')):
                    st = st | {(('loop', lid), e['l'])}
        return st

    def visit(self, e, st):
        if e['k'] == 'ref' and e.get('id') in self.refs and id(e) not in self.target:
            for (i, l) in st:
                if i == e['id']:
                    self.ctx.violation('reference used after its container changed', self.f, e['l'], '`%s` points into a container that may have moved or removed its elements at line %s' % (
                        self.names.get(i), l), tag=str(self.names.get(i)))
        if e['k'] in ('call', 'ctor') or e['k'] == 'bin' and is_assign(e):
            st = self.kill(e, st)
        if e['k'] in ('bin', 'call') and is_assign(e):
            a, b = assign_parts(e)
            if a is not None and strip(a)['k'] == 'ref' and strip(a).get('id') in self.refs and (e.get('op') == '=' or e.get('oper') == '='):
                st = frozenset(x for x in st if x[0] != strip(a)['id'])
        return st

    def enter(self, n, st):
        if n['k'] == 'forrange' and id(n) in self.loops and st is not None:
            self.ctx.ok('container stable while iterated', '%s:%s' % (self.f['file'], n['l']))
            st = frozenset(x for x in st if x[0] != ('loop', id(n)))
            self.cur = n
        return st

    def decl(self, v, st):
        for lid, n in self.loopnode.items():
            if n['var'] is v:
                for (i, l) in st:
                    if i == ('loop', lid):
                        self.ctx.violation('container stable while iterated', self.f, n['l'], 'the loop goes on although the container it runs over may have been reorganised at line %s' % l,
                                           tag='loop:%s' % v.get('n', ''))
        i = v.get('id')
        if i in self.refs:
            self.ctx.ok('reference used after its container changed', '%s:%s' % (self.f['file'], v.get('l')))
        # a new object: what pointed into the old one of this name is gone with it
        return frozenset(x for x in st if x[0] != i)

    def analyse(self):
        self.loopnode = {id(n): n for n in walk(self.f['b']) if n['k'] == 'forrange' and id(n) in self.loops}
        if not self.refs and not self.loops:
            return
        self.run(self.f['b'], frozenset())


def known_path(p):
    return all(c[0] == '.' or known(c[1]) for c in p)


def run(P, ctx, tier):
    A = Analysis(P)
    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        if f.get('b') is None:
            continue
        ctx.saw(f)
        for v in sorted(f['variants'])[:1]:
            Inval(P, ctx, A, f, v).analyse()
    owners(P, ctx)
    escapes(P, ctx)
    ctx.floor('local object not referred to from outside', 20)
    ctx.floor('container stable while iterated', 40)
    ctx.floor('reference used after its container changed', 30)


def inside_local(e, own):
    """the local object (by id) an lvalue lies in, if reaching it follows no pointer or reference"""
    e = strip(e) if e is not None else None
    while e is not None:
        if e['k'] == 'ref':
            return e['id'] if e.get('id') in own else None
        if e['k'] == 'mem' and not e.get('arrow'):
            if e.get('t', '').startswith('&') and not e.get('t', '').startswith('&&'):
                return None
            e = strip(e['base'])
            continue
        c, i = index_parts(e)
        if c is None and e['k'] == 'call' and e.get('obj') is not None and e.get('n') in ('front', 'back', 'at') and e.get('q', '').startswith('std::'):
            c = e['obj']
        if c is not None and (kind(c.get('t', '')) != 'other' or e['k'] == 'idx' and not c.get('t', '').endswith('*')):
            e = strip(c)
            continue
        return None
    return None


def escapes(P, ctx):
    """no address of a local object or by-value parameter is left behind when the function returns"""
    rule = 'local object not referred to from outside'
    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        if f.get('b') is None:
            continue
        own = {x['id']: x['n'] for x in walk(f['b']) if x['k'] == 'var' and not x.get('static') and not x['t'].startswith('&') and not x['t'].endswith('*')}
        own.update({p['id']: p['n'] for p in f['params'] if not p['t'].startswith('&') and not p['t'].endswith('*')})
        byref = {p['id'] for p in f['params'] if p['t'].startswith('&')}
        allv = {x['id'] for x in walk(f['b']) if x['k'] == 'var' and not x.get('static')} | {p['id'] for p in f['params']}

        def addr(e):
            e = strip(e) if e is not None else None
            while e is not None and e['k'] in ('cast', 'ctor', 'copy') and (e.get('e') is not None or len(e.get('args', [])) == 1):
                e = strip(e['e'] if e.get('e') is not None else e['args'][0])
            if e is None:
                return None
            if e['k'] == 'un' and e['op'] == '&':
                return inside_local(e['e'], own)
            if e['k'] == 'call' and e.get('n') == 'addressof' and e.get('args'):
                return inside_local(e['args'][0], own)
            if e['k'] == 'call' and e.get('n') in ('data', 'c_str', 'begin', 'end') and e.get('obj') is not None and kind(e['obj'].get('t', '')) != 'other':
                return inside_local(e['obj'], own)
            if e['k'] == 'cond':
                return addr(e['a']) or addr(e['b'])
            if e['k'] == 'ref' and e.get('id') in ptr:
                return ptr[e['id']]
            return None

        def outlives(e):
            e = strip(e)
            while True:
                if e['k'] == 'this':
                    return True
                if e['k'] == 'ref':
                    return bool(e.get('global')) or e.get('id') in byref or e.get('id') not in allv
                if e['k'] == 'mem':
                    e = strip(e['base'])
                    continue
                c, i = index_parts(e)
                if c is not None:
                    e = strip(c)
                    continue
                return False
        ptr = {}
        for x in walk(f['b']):
            if x['k'] == 'var' and x['t'].endswith('*') and x.get('init') is not None:
                a = addr(x['init'])
                if a is not None:
                    ptr[x['id']] = a
        lam = set()
        for x in walk(f['b']):
            if x['k'] == 'lambda':
                lam |= {id(y) for y in walk(x) if y is not x}
        for i in f.get('inits', []) or []:
            a = addr(i.get('e') if isinstance(i, dict) else None)
            if a is not None:
                ctx.violation(rule, f, f['l'], 'a member keeps the address of `%s`, which ends with the constructor' % own[a], tag=own[a])
        rr = f.get('ret', '')
        for x in walk(f['b']):
            if id(x) in lam:
                continue
            a = None
            if x['k'] == 'return' and x.get('e') is not None:
                if rr.startswith('&') or rr.endswith('*') or 'iterator' in rr:
                    a = addr(x['e']) if not rr.startswith('&') else inside_local(x['e'], own)
                    if a is None:
                        ctx.ok(rule, '%s:%s' % (f['file'], x['l']))
            elif x['k'] in ('bin', 'call') and is_assign(x):
                d, v = assign_parts(x)
                if d is not None and v is not None and (d.get('t', '').lstrip('&').endswith('*') or 'iterator' in d.get('t', '')):
                    a = addr(v)
                    if a is not None and not outlives(d):
                        a = None
                    if a is None:
                        ctx.ok(rule, '%s:%s' % (f['file'], x['l']))
            elif x['k'] == 'call' and x.get('obj') is not None and x.get('n') in ('push_back', 'emplace_back', 'insert', 'emplace', 'push') and outlives(x['obj']):
                for y in x.get('args', []):
                    if y.get('t', '').lstrip('&').endswith('*'):
                        a = a if a is not None else addr(y)
            if a is not None:
                ctx.violation(rule, f, x['l'], 'the address of `%s` is still in use after the function has returned' % own[a], tag=own[a])


def makes(P, e, d=0):
    """the value of e is an object made for the caller"""
    e = strip(e) if e is not None else None
    if e is None:
        return False
    if e['k'] == 'new':
        return True
    if e['k'] == 'call' and e.get('f') and e.get('ret', '').endswith('*') and d < 3:
        g = next((h for h in P.functions.values() if h['key'] == e['f'] or h.get('f') == e['f']), None) or P.lookup(e['f'], None)
        if g is None or g.get('b') is None or g.get('virt'):
            return False
        rs = [strip(x['e']) for x in walk(g['b']) if x['k'] == 'return' and x.get('e') is not None]
        if not rs:
            return False
        for r in rs:
            if makes(P, r, d + 1):
                continue
            if r['k'] != 'ref' or 'id' not in r or any(p['id'] == r['id'] for p in g['params']):
                return False
            vs = [x['init'] for x in walk(g['b']) if x['k'] == 'var' and x['id'] == r['id'] and x.get('init') is not None] + \
                 [x['b'] for x in walk(g['b']) if x['k'] == 'bin' and x['op'] == '=' and strip(x['a'])['k'] == 'ref' and strip(x['a']).get('id') == r['id']]
            if not vs or not all(makes(P, y, d + 1) for y in vs):
                return False
        return True
    return False


def fresh(P, f):
    """locals that receive a new object and do not hand it on"""
    got, out = {}, {}
    for x in walk(f['b']):
        if x['k'] == 'var' and x['t'].endswith('*') and not x.get('static') and x.get('init') is not None and makes(P, x['init']):
            got[x['id']] = {'n': x['n'], 'l': x['l']}
        if x['k'] == 'bin' and x['op'] == '=' and strip(x['a'])['k'] == 'ref' and 'id' in strip(x['a']) and not strip(x['a']).get('global') and strip(x['a'])['t'].endswith('*') and makes(P, x['b']):
            got[strip(x['a'])['id']] = {'n': strip(x['a'])['n'], 'l': x['l']}
    par = {p['id'] for p in f['params']}
    for i, r in got.items():
        esc = i in par

        def is_me(e):
            e = strip(e) if e is not None else None
            return e is not None and e['k'] == 'ref' and e.get('id') == i
        for x in walk(f['b']):
            if x['k'] == 'return' and is_me(x.get('e')) or x['k'] == 'bin' and x['op'] == '=' and is_me(x['b']) or x['k'] == 'ctor' and any(is_me(a) for a in x.get('args', [])) or \
                    x['k'] == 'var' and is_me(x.get('init')) or x['k'] == 'call' and any(is_me(a) for a in x.get('args', [])) and (
                        x.get('q', '').startswith('std::') or x.get('n') in ('push_back', 'reset')) or x['k'] == 'lambda':
                esc = True
        if not esc:
            out[i] = r
    return out


def owners(P, ctx):
    """raw owning members"""
    for q, R in sorted(P.records.items()):
        ms = [f for f in P.functions.values() if f.get('cls') == q and f.get('b') is not None]
        owned = {}
        for f in ms:
            for x in walk(f['b']):
                if x['k'] == 'delete':
                    e = strip(x['e'])
                    if e['k'] == 'mem' and strip(e['base'])['k'] == 'this':
                        owned.setdefault(e['n'], []).append((f, x))
        if not owned:
            continue
        for m, ds in owned.items():
            dt = [f for f, x in ds if f['n'].startswith('~')]
            anyf = ds[0][0]
            ctx.check(bool(dt), 'owned object freed', anyf, anyf['l'], 'the destructor does not free `%s`' % m, tag=m)
            for f in ms:
                ctor = f.get('ctor')
                asg = [x for x in walk(f['b']) if x['k'] == 'bin' and x['op'] == '=' and strip(x['a'])['k'] == 'mem' and strip(x['a'])['n'] == m and
                       any(y['k'] == 'new' for y in walk(x['b']))]
                dels = [x for f2, x in ds if f2 is f]
                for x in asg:
                    if ctor:
                        ctx.ok('owned object freed', '%s:%s' % (f['file'], x['l']))
                        continue
                    ctx.check(any(d['l'] < x['l'] for d in dels), 'owned object freed', f, x['l'], '`%s` is replaced without freeing the object it owned' % m, tag=m)
            cc = [k for k in R.get('ctors', []) if k.get('copy')]
            copied = None
            for f in P.functions.values():
                if f.get('b') is None or f.get('implicit'):
                    continue
                rets = [x for x in walk(f['b']) if x['k'] == 'return' and x.get('e') is not None]
                lv = {x['id'] for x in walk(f['b']) if x['k'] == 'var' and not x.get('static')}
                named = {strip(x['e']).get('id') if strip(x['e'])['k'] == 'ref' else None for x in rets}
                elided = {id(x['e']) for x in rets} if len(named) == 1 and named <= lv else set()
                for x in walk(f['b']):
                    # one named local returned on every path is constructed in place
                    if x['k'] == 'copy' and x.get('t') == q and not x.get('move') and id(x) not in elided:
                        copied = (f, x)
            if copied is not None:
                f, x = copied
                user = [g for g in ms if g.get('ctor') and not g.get('implicit') and len(g['params']) == 1 and g['params'][0]['t'].replace('const ', '').lstrip('&') == q]
                ctx.check(bool(user), 'owned object not shared by copies', f, x['l'], 'an object owning `%s` is copied member by member: both copies free it' % m, tag=m)
            else:
                ctx.ok('owned object not shared by copies', q)
    # local owners: freed on every way out
    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        if f.get('b') is None:
            continue
        loc = {}
        for x in walk(f['b']):
            if x['k'] == 'delete' and strip(x['e'])['k'] == 'ref' and 'id' in strip(x['e']):
                loc[strip(x['e'])['id']] = strip(x['e'])
        if f['file'].startswith('lib/'):
            loc.update(fresh(P, f))
        for i, r in loc.items():
            Own(P, ctx, f, i, r).analyse()
    # freeing through a base class
    for f in P.functions.values():
        if f.get('b') is None:
            continue
        for x in walk(f['b']):
            if x['k'] == 'delete':
                t = x['e'].get('t', '').rstrip(' *')
                derived = [R for R in P.records.values() if any((b if isinstance(b, str) else b.get('q', b.get('t', ''))) == t for b in R.get('bases') or [])]
                if derived:
                    d = [g for g in P.functions.values() if g.get('cls') == t and g['n'].startswith('~')]
                    ctx.check(any(g.get('virt') for g in d), 'freed through a virtual destructor', f, x['l'], 'an object is freed through its base class, whose destructor is not virtual', tag=t)


class Own(Flow):
    """state: 'none' | 'held' | 'freed' of one local owner"""

    def __init__(self, P, ctx, f, i, r):
        Flow.__init__(self, P)
        self.ctx, self.f, self.i, self.r = ctx, f, i, r

    def join(self, a, b):
        return a | b

    def is_me(self, e):
        e = strip(e)
        return e is not None and e['k'] == 'ref' and e.get('id') == self.i

    def visit(self, e, st):
        if e['k'] == 'bin' and e['op'] == '=' and self.is_me(e['a']):
            if makes(self.P, e['b']):
                self.ctx.check('held' not in st, 'owned object freed', self.f, e['l'], 'a new object is stored in `%s` before the old one is freed' % self.r['n'], tag=self.r['n'])
                return frozenset(['held'])
        if e['k'] == 'delete' and self.is_me(e['e']):
            self.ctx.check('freed' not in st, 'owned object freed', self.f, e['l'], '`%s` may be freed twice' % self.r['n'], tag='twice:' + self.r['n'])
            return frozenset(['freed'])
        if e['k'] == 'ref' and e.get('id') == self.i and 'freed' in st:
            pass
        if e['k'] in ('mem', 'call'):
            b = e.get('base') if e['k'] == 'mem' else e.get('obj')
            if b is not None and self.is_me(b) and 'freed' in st:
                self.ctx.violation('owned object freed', self.f, e['l'], '`%s` is used after it was freed' % self.r['n'], tag='use:' + self.r['n'])
        return st

    def decl(self, v, st):
        if v.get('id') == self.i:
            if v.get('init') is not None and any(y['k'] in ('new',) or y['k'] == 'call' and y.get('ret', '').endswith('*') for y in walk(v['init'])):
                return frozenset(['held'])
            return frozenset(['none'])
        return st

    def analyse(self):
        fall, ret = self.run(self.f['b'], frozenset(['none']))
        for s in (fall, ret):
            if s is not None:
                self.ctx.check('held' not in s, 'owned object freed', self.f, self.r['l'], '`%s` is not freed on every way out of the function' % self.r['n'], tag='leak:' + self.r['n'])
