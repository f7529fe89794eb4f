"""Threads of a parallel region touch shared data only in an ordered way."""
from ..ast import strip, is_assign, assign_parts, index_parts
from ..ast import int_const as _int_const
from ..program import walk, children

RULE = ('Every OpenMP region is walked with the calls made in it. Each read and write of data that lives outside the region is described by the object path, the '
        'terms used as subscripts, the barrier interval and the protection (critical, atomic, single, atomic intrinsic) it happens under. Two accesses of different '
        'threads in the same barrier interval, one of them a write, must be separated by a subscript that belongs to the thread, share a protection, or be stores of '
        'one constant to byte-sized flags; structural changes of containers and packed bit vectors get no exemption.')
ASSUMPTIONS = ['the concurrent hash table (growt) is correct', 'the concurrent union-find is decided separately (P10)',
               'an unordered read of one array element that fits a machine word while its owner rewrites it in a work-sharing loop is taken as tolerated by the heuristics that do it']

MUT = {'push_back', 'emplace_back', 'pop_back', 'clear', 'resize', 'reserve', 'insert', 'erase', 'assign', 'swap', 'emplace', 'push_front', 'pop_front',
       'emplace_front', 'push', 'pop', 'shrink_to_fit', 'operator=', 'merge', 'splice', 'reset', 'sort', 'remove', 'unique', 'reverse'}
ACC = {'at', 'front', 'back', 'begin', 'end', 'data', 'rbegin', 'rend', 'cbegin', 'cend', 'find'}
CONC = ('growt::',)
SAFE_FILES = ('lib/parallel/data_structure/union_find.h',)
CONSTALG = {'max_element', 'min_element', 'lower_bound', 'upper_bound', 'find', 'count', 'accumulate', 'distance', 'all_of', 'any_of', 'find_if', 'binary_search',
            'min', 'max', 'get', 'make_pair', 'make_tuple', 'log2', 'sqrt', 'ceil', 'floor', 'log', 'pow', 'abs', 'tie', 'forward', 'move', 'make_shared', 'to_string'}


def int_const(e):
    c = _int_const(e)
    if c is None and strip(e) is not None and strip(e)['k'] == 'bool':
        return 1 if strip(e)['v'] in (True, 1, 'true') else 0
    return c


class Acc:
    __slots__ = ('root', 'path', 'mode', 'val', 'typ', 'prot', 'ph', 'line', 'fn', 'rt')

    def __init__(self, root, path, mode, val, typ, prot, ph, line, fn, rt=''):
        self.root, self.path, self.mode, self.val, self.typ = root, path, mode, val, typ
        self.prot, self.ph, self.line, self.fn, self.rt = prot, ph, line, fn, rt

    def key(self):
        return (self.root, self.path, self.mode, self.val, self.prot, self.ph, self.line)


def is_tid(e):
    e = strip(e)
    return e is not None and e['k'] == 'call' and e.get('q') == 'omp_get_thread_num'


class Walker:
    """Accesses of one function body (or of one region in it)."""

    def __init__(self, A, f, variant, depth=0, body=None):
        self.A, self.P, self.f, self.v, self.depth = A, A.P, f, variant, depth
        self.out = []
        self.body = body if body is not None else f['b']
        self.local = set()
        self.inits, self.assigned, self.vart = {}, {}, {}
        whole = f['b']
        for x in walk(whole) if whole else []:
            if x['k'] == 'var':
                self.vart[x['id']] = x['t']
                if x.get('init') is not None:
                    self.inits.setdefault(x['id'], []).append(x['init'])
            if x['k'] in ('bin', 'call') and is_assign(x):
                a, b = assign_parts(x)
                a = strip(a) if a is not None else None
                if a is not None and a['k'] == 'ref':
                    self.assigned.setdefault(a['id'], []).append((x, b))
            if x['k'] == 'un' and x['op'] in ('++', '--'):
                a = strip(x['e'])
                if a['k'] == 'ref':
                    self.assigned.setdefault(a['id'], []).append((x, None))
            if x['k'] == 'forrange' and x['var']['k'] == 'var':
                self.assigned.setdefault(x['var']['id'], []).append((x, None))
        for x in walk(self.body) if self.body else []:
            if x['k'] == 'var' and not x.get('static'):
                self.local.add(x['id'])
            if x['k'] == 'decomp':
                for b in x['b']:
                    self.local.add(b['id'])
                    if 'hid' in b:
                        self.local.add(b['hid'])
                self.local.add(x['id'])
        self.params = {p['id']: i for i, p in enumerate(f['params'])} if body is None else {}
        for p in f['params']:
            self.vart[p['id']] = p['t']
        self.partvar = {}      # id -> key of the work-sharing loop it numbers
        self.slots = set()
        self.alias = {}
        for x in walk(self.body) if self.body else []:
            if x['k'] == 'var' and x['id'] in self.local and x.get('init') is not None and (x['t'].startswith('&') or x['t'].endswith('*')):
                self.alias[x['id']] = x['init']
            if x['k'] == 'forrange' and x['var']['k'] == 'var' and x['var']['t'].startswith('&'):
                self.alias[x['var']['id']] = ('elem', x['range'])
        if body is not None:
            for x in walk(whole):      # references declared before the region
                if x['k'] == 'var' and x['id'] not in self.local and x.get('init') is not None and x['t'].startswith('&'):
                    self.alias[x['id']] = x['init']
        for x in walk(self.body) if self.body else []:
            if x['k'] == 'if':
                self.find_slot(x)
            if x['k'] in ('do', 'while') and strip(x['c'])['k'] == 'un' and strip(x['c'])['op'] == '!':
                self.find_slot({'c': strip(x['c'])['e'], 'a': {'k': 'break'}})
        self.prot = []
        self.phases = frozenset([0])
        self.nph = 0

    # ---- terms
    def find_slot(self, x):
        """`v` after a successful compare-and-swap of X[k] from v to a larger value names a slot nobody else has"""
        c = strip(x['c'])
        if c is None or c['k'] != 'call' or not c.get('q', '').startswith('__sync_bool_compare_and_swap') and not c.get('q', '').startswith('__atomic_compare_exchange'):
            return
        a = strip(c['args'][1])
        if a['k'] == 'ref' and any(y['k'] in ('break', 'return') for y in walk(x['a'])):
            new = self.term(c['args'][2])
            old = self.term(c['args'][1])
            if new != old:
                self.slots.add(a['id'])

    def term(self, e, d=0):
        e = strip(e)
        if e is None or d > 6:
            return ('?',)
        if is_tid(e):
            return ('tid',)
        c = int_const(e)
        if c is not None:
            return ('c', c)
        if e['k'] == 'ref' and 'id' in e:
            i = e['id']
            if i in self.partvar:
                return ('part', self.partvar[i])
            if i in self.slots:
                return ('slot',)
            if i in self.local and i not in self.assigned and len(self.inits.get(i, [])) == 1:
                return self.term(self.inits[i][0], d + 1)
            if i in self.local and i in self.assigned and all(b is not None and a.get('op') == '=' for a, b in self.assigned[i]):
                ts = [self.term(b, d + 2) for a, b in self.assigned[i]] + [self.term(b, d + 2) for b in self.inits.get(i, [])]
                if all(t == ('slot',) for t in ts):
                    return ('slot',)
            if i in self.local:
                lm = self.owned_range(i)
                return ('own', lm) if lm else ('lv', i)
            return ('v', i)
        if e['k'] == 'bin' and e['op'] in '+-*/%':
            a, b = self.term(e['a'], d + 1), self.term(e['b'], d + 1)
            if e['op'] == '/' and a[0] == 'own' and a[1] == b:
                return ('tid',)
            return (e['op'], a, b)
        if e['k'] == 'call' and e.get('q') in ('std::min', 'std::max') and len(e['args']) == 2:
            return (e['q'],) + tuple(sorted((self.term(x, d + 1) for x in e['args']), key=str))
        if e['k'] == 'call' and (e.get('q', '').startswith(('__sync_fetch_and_add', '__atomic_fetch_add')) or
                                 e.get('n') in ('fetch_add', 'operator++') and e.get('q', '').startswith(('std::atomic', 'std::__atomic'))):
            return ('slot',)
        if e['k'] == 'call' and e.get('f') and d < 3:
            g = self.P.lookup(e['f'], self.v)
            if g is not None and g.get('b') is not None and self.A.returns_slot(g, self.v):
                return ('slot',)
        c, i = index_parts(e)
        if c is not None:
            r = self.resolve(c)
            ti = self.term(i, d + 1)
            if r and r[0] in self.A.perms and ti[0] in ('part', 'tid'):
                return ti
            return ('at', r[0] if r else None, ti)
        return ('?',)

    def owned_range(self, i):
        """loop counter running through the block [tid * X, (tid + 1) * X)"""
        for x in walk(self.body):
            if x['k'] == 'for' and x.get('init') and x['init']['k'] == 'decl' and x['init']['d'] and x['init']['d'][0]['k'] == 'var' and x['init']['d'][0]['id'] == i:
                t0 = self.term(x['init']['d'][0].get('init'))
                c = strip(x['c'])
                if t0[0] == '*' and ('tid',) in t0 and c is not None and c['k'] == 'bin' and c['op'] == '<':
                    X = t0[1] if t0[2] == ('tid',) else t0[2]
                    hi = self.term(c['b'])
                    ok = {('*', ('+', ('tid',), ('c', 1)), X), ('*', X, ('+', ('tid',), ('c', 1))), ('+', t0, X), ('*', ('+', ('c', 1), ('tid',)), X)}
                    if hi in ok or hi[0] == 'std::min' and any(h in ok for h in hi[1:]):
                        asg = [a for a, b in self.assigned.get(i, [])]
                        if all(a['k'] == 'un' for a in asg):
                            return X
        return None

    # ---- places
    def resolve(self, e, d=0):
        """(root, path, type of root) of a place; None for temporaries and private objects"""
        e = strip(e)
        if e is None or d > 12:
            return None
        k = e['k']
        if k == 'ref':
            if 'id' not in e:
                return None
            i = e['id']
            if e.get('global') or e.get('smem') or e.get('slocal'):
                if e.get('tls'):
                    return None
                return (('g', e.get('q') or e['n']), (), e['t'])
            if i in self.alias:
                a = self.alias[i]
                if isinstance(a, tuple):
                    r = self.resolve(a[1], d + 1)
                    return (r[0], r[1] + (('[]', ('?',)),), r[2]) if r else None
                return self.resolve(a, d + 1)
            if i in self.local:
                return None
            if i in self.params:
                p = self.f['params'][self.params[i]]
                if p['t'].startswith('&') or p['t'].endswith('*') or p['t'].startswith('std::shared_ptr'):
                    return (('p', self.params[i]), (), e['t'])
                return None
            return (('v', i), (), e['t'])
        if k == 'this':
            return (('this',), (), e['t'])
        if k == 'mem':
            r = self.resolve(e['base'], d + 1)
            return (r[0], r[1] + (('.', e['n']),), r[2]) if r else None
        if k == 'idx':
            r = self.resolve(e['base'], d + 1)
            return (r[0], r[1] + (('[]', self.term(e['i'])),), r[2]) if r else None
        if k == 'un' and e['op'] in ('&', '*'):
            return self.resolve(e['e'], d + 1)
        if k == 'bin' and e['op'] in '+-':
            r = self.resolve(e['a'], d + 1)
            if r and r[1] and r[1][-1][0] == '[]':
                return (r[0], r[1][:-1] + (('[]', self.term(e['b'])),), r[2])
            return r
        if k == 'call':
            o = e.get('obj')
            if o is None and e.get('oper') in ('+', '-') and e.get('args'):
                return self.resolve(e['args'][0], d + 1)
            if o is not None and e.get('oper') == '[]':
                r = self.resolve(o, d + 1)
                return (r[0], r[1] + (('[]', self.term(e['args'][0])),), r[2]) if r else None
            if o is not None and e.get('n') in ACC and e.get('q', '').startswith(('std::', 'google::', '__gnu_cxx')):
                r = self.resolve(o, d + 1)
                t = self.term(e['args'][0]) if e.get('args') and e['n'] in ('at', 'find') else ('?',)
                return (r[0], r[1] + (('[]', t),), r[2]) if r else None
            if o is not None and e.get('oper') in ('+', '-', '++', '--'):
                return self.resolve(o, d + 1)
            return None
        if k == 'cond':
            return self.resolve(e['a'], d + 1) or self.resolve(e['b'], d + 1)
        return None

    def emit(self, r, mode, line, val=None, typ=''):
        if r is None:
            return
        self.out.append(Acc(r[0], r[1], mode, val, typ, frozenset(self.prot), self.phases, line, self.f, r[2]))

    # ---- expressions
    def ev(self, e):
        if e is None or 'k' not in e:
            return
        k = e['k']
        if k == 'lambda':
            g = self.P.lookup(e.get('f'), self.v) if e.get('f') else None
            if g is not None and g.get('b') is not None and self.depth < 7:
                for x in walk(g['b']):
                    if x['k'] == 'var':
                        self.local.add(x['id'])
                        self.vart[x['id']] = x['t']
                        if x.get('init') is not None:
                            self.inits.setdefault(x['id'], []).append(x['init'])
                for p in g['params']:
                    self.local.add(p['id'])
                self.st(g['b'])
            return
        if k in ('bin', 'call') and is_assign(e):
            a, b = assign_parts(e)
            self.ev(b)
            op = e.get('op') or e.get('oper')
            self.place(a, 'w', e['l'], int_const(b) if op == '=' else None, rmw=op != '=', b=b)
            return
        if k == 'un' and e['op'] in ('++', '--'):
            self.place(e['e'], 'w', e['l'], None, rmw=True)
            return
        if k == 'call' and e.get('oper') in ('++', '--') and e.get('obj') is not None:
            self.place(e['obj'], 'w', e['l'], None, rmw=True)
            return
        if k == 'un' and e['op'] == '&':
            return self.sub(e['e'])
        if k == 'call':
            return self.call(e)
        if k in ('ctor', 'new', 'init', 'opaque'):
            if k == 'ctor':
                return self.call(e)
        if k in ('ref', 'mem', 'idx'):
            self.place(e, 'r', e['l'])
            return
        for c in children(e):
            self.ev(c)

    def sub(self, e):
        """the parts of a place that are evaluated to reach it"""
        e = strip(e)
        if e is None:
            return
        k = e['k']
        if k == 'mem':
            self.sub(e['base'])
        elif k == 'idx':
            self.ev(e['i'])
            self.sub(e['base'])
        elif k == 'call' and e.get('obj') is not None and (e.get('oper') == '[]' or e.get('n') in ACC) and not e.get('f', None) is None and self.P.lookup(e['f'], self.v) is not None:
            self.call(e)
        elif k == 'call' and e.get('obj') is not None and (e.get('oper') == '[]' or e.get('n') in ACC):
            for a in e.get('args', []):
                self.ev(a)
            r = self.resolve(e['obj'])
            if r:
                t = e['obj'].get('t', '')
                mapw = e.get('oper') == '[]' and ('map' in e.get('q', ''))
                self.emit(r, 'sw' if mapw else 'sr', e['l'], ('m', '[]') if mapw else None, typ=t)
            self.sub(e['obj'])
        elif k in ('ref', 'this'):
            pass
        else:
            self.ev(e)

    def place(self, e, mode, line, val=None, rmw=False, b=None):
        e0 = strip(e)
        self.sub(e0)
        r = self.resolve(e0)
        if r is None:
            if e0['k'] not in ('ref', 'mem', 'idx', 'this', 'call') or e0['k'] == 'call' and self.P.lookup(e0.get('f'), self.v) is not None:
                pass
            return
        typ = e0.get('t', '')
        base = ''
        c, _ = index_parts(e0)
        if c is not None:
            base = (c.get('t') or '')
        if 'vector<bool>' in base or typ.startswith('std::_Bit_reference'):
            typ = 'bit'
        if mode == 'w':
            big = typ.startswith('std::') or not (typ in ('bool', 'bit', 'char') or typ[:1] in 'uif' and typ[1:].isdigit() or typ.endswith('*'))
            self.emit(r, 'sw' if big and typ.startswith('std::') and not typ.startswith('std::pair') else 'w', line, ('c', val) if val is not None else ('rmw',) if rmw else None, typ)
            if rmw:
                self.emit(r, 'r', line, None, typ)
        else:
            self.emit(r, mode, line, None, typ)

    def call(self, e):
        q, n, o = e.get('q', '') or '', e.get('n', ''), e.get('obj')
        args = e.get('args', [])
        if q.startswith(('__sync_', '__atomic_')):
            r = self.resolve(args[0])
            self.sub(strip(args[0])['e'] if strip(args[0])['k'] == 'un' else args[0])
            for a in args[1:]:
                self.ev(a)
            v = int_const(args[2]) if 'compare' in q and len(args) > 2 else None
            t = strip(args[0]).get('t', '')
            self.prot.append('atomic')
            self.emit(r, 'w', e['l'], ('c', v) if v is not None else None, (e['pt'][0] if e.get('pt') else t).replace('volatile ', '').strip('* '))
            self.prot.pop()
            return
        g = self.P.lookup(e['f'], self.v) if e.get('f') else None
        ot = (o.get('t') or '').lstrip('&') if o is not None else ''
        if g is not None and g['file'] in SAFE_FILES:
            for a in args:
                self.ev(a)
            if o is not None:
                self.emit(self.resolve(o), 'sr', e['l'], typ=ot)
            return
        if q.startswith(CONC) or ot.startswith(CONC) or q.startswith('std::atomic') or ot.startswith(('std::atomic', 'std::__atomic')):
            for a in args:
                self.ev(a)
            return
        if g is not None and self.depth < 7:
            for a, p in zip(args, e.get('pt') or []):
                if p.startswith('&') or p.endswith('*'):
                    self.sub(a)
                else:
                    self.ev(a)
            if o is not None:
                self.sub(o)
            for s in self.A.summary(g, self.v, self.depth + 1):
                self.inherit(s, e, g, o, args)
            return
        # library code
        for i, a in enumerate(args):
            pt = (e.get('pt') or [])
            a0 = strip(a)
            r = self.resolve(a0) if a0 is not None and a0['k'] in ('ref', 'mem', 'idx', 'call', 'un', 'bin') else None
            p = pt[i] if i < len(pt) else ''
            constref = p.startswith('&const') or p.startswith('const') or not (p.startswith('&') or p.endswith('*'))
            if r is not None and a0['k'] == 'call' and a0.get('n') in ('begin', 'end', 'rbegin', 'rend') or r is not None and a0['k'] in ('bin', 'call') and 'iterator' in a0.get('t', ''):
                self.sub(a0)
                if n not in CONSTALG and o is None and q.startswith('std::'):
                    self.emit(r, 'w', e['l'], None, 'range')
                elif r[1]:
                    self.emit((r[0], r[1][:-1] + (('[]', ('?',)),), r[2]), 'r', e['l'], None, 'range')
            elif r is not None and p.startswith('&') and not constref and n not in CONSTALG and e.get('oper') not in ('<<', '>>'):
                self.place(a0, 'w', e['l'])
            else:
                self.ev(a)
        if o is not None:
            r = self.resolve(o)
            self.sub(o)
            if r is not None:
                if n in MUT and q.startswith(('std::', 'google::', '__gnu_cxx')):
                    self.emit(r, 'sw', e['l'], ('m', n), typ=ot)
                    if n in ('assign', 'swap', 'sort', 'reverse', 'unique'):
                        self.emit((r[0], r[1] + (('[]', ('?',)),), r[2]), 'w', e['l'], typ=ot)
                elif e.get('oper') == '()' and not e.get('const'):
                    self.emit(r, 'sw', e['l'], typ=ot)
                elif e.get('oper') == '[]' or n in ACC:
                    self.emit(r, 'sw' if e.get('oper') == '[]' and 'map' in q else 'sr', e['l'], ('m', '[]'), typ=ot)
                    if e.get('oper') == '[]' or n in ('at', 'front', 'back'):
                        rr = self.resolve(e)
                        self.emit(rr, 'r', e['l'], typ='bit' if 'vector<bool>' in ot else e.get('t', ''))
                else:
                    self.emit(r, 'sr', e['l'], typ=ot)

    def subst(self, t, e, args):
        if not isinstance(t, tuple):
            return t
        if t[0] == 'pv':
            return self.term(args[t[1]]) if t[1] < len(args) else ('?',)
        if t[0] in ('v', 'lv'):
            return ('?',) if t[0] == 'lv' else t
        return tuple(self.subst(x, e, args) if isinstance(x, tuple) else x for x in t)

    def inherit(self, s, e, g, o, args):
        if s.root[0] == 'this':
            if o is None:
                if e['k'] == 'ctor':
                    return
                base = (('this',), (), '')
            else:
                base = self.resolve(o)
        elif s.root[0] == 'p':
            base = self.resolve(args[s.root[1]]) if s.root[1] < len(args) else None
        else:
            base = (s.root, (), s.rt)
        if base is None:
            return
        path = tuple((c[0], self.subst(c[1], e, args)) if c[0] == '[]' else c for c in s.path)
        self.out.append(Acc(base[0], base[1] + path, s.mode, s.val, s.typ, s.prot | frozenset(self.prot), self.phases, e['l'] if self.depth == 0 else s.line,
                            self.f if self.depth == 0 else s.fn, base[2]))

    # ---- statements
    def barrier(self):
        self.nph += 1
        self.phases = frozenset([self.nph])

    def dead(self, c):
        """`v > x` for an unsigned v that is zero and only ever changed where it is already greater than something"""
        c = strip(c)
        if c is None:
            return False
        if c['k'] == 'bin' and c['op'] == '&&':
            return self.dead(c['a']) or self.dead(c['b'])
        if c['k'] == 'bin' and c['op'] in ('>', '<'):
            v, x = (c['a'], c['b']) if c['op'] == '>' else (c['b'], c['a'])
            v = strip(v)
            if v['k'] == 'ref' and v.get('id') in self.local and v['t'][:1] == 'u' and len(self.inits.get(v['id'], [])) == 1 and int_const(self.inits[v['id']][0]) == 0:
                sites = [a for a, b in self.assigned.get(v['id'], [])]
                guarded = set()
                for y in walk(self.body):
                    if y['k'] == 'if':
                        cc = strip(y['c'])
                        if cc['k'] == 'bin' and cc['op'] in ('>', '<'):
                            w = strip(cc['a'] if cc['op'] == '>' else cc['b'])
                            if w['k'] == 'ref' and w.get('id') == v['id']:
                                for z in walk(y['a']):
                                    guarded.add(id(z))
                return all(id(s) in guarded for s in sites)
        return False

    def st(self, s):
        if s is None or 'k' not in s:
            return
        k = s['k']
        if k == 'block':
            for x in s['b']:
                self.st(x)
        elif k == 'decl':
            for d in s['d']:
                if d.get('init') is not None:
                    if d['k'] == 'var' and (d['t'].startswith('&')):
                        self.sub(d['init'])
                    else:
                        self.ev(d['init'])
        elif k == 'expr':
            self.ev(s['e'])
        elif k == 'return':
            if s.get('e') is not None:
                self.ev(s['e'])
        elif k == 'if':
            if self.depth == 0 and self.dead(s['c']):
                self.ev(s['c'])
                self.A.dead.append((self.f, s['l']))
                if s.get('b') is not None:
                    self.st(s['b'])
                return
            self.ev(s['c'])
            ph = self.phases
            m = self.master(s['c'])
            if m is True:
                self.prot.append('master')
            self.st(s.get('a'))
            if m is True:
                self.prot.pop()
            p1 = self.phases
            self.phases = ph
            if m is False:
                self.prot.append('master')
            self.st(s.get('b'))
            if m is False:
                self.prot.pop()
            self.phases = self.phases | p1
        elif k in ('for', 'while', 'do', 'forrange'):
            if k == 'for':
                self.st(s.get('init'))
            if k == 'forrange':
                r = s['range']
                self.sub(r)
                rr = self.resolve(r)
                if rr is not None:
                    self.emit(rr, 'sr', s['l'], typ=r.get('t', ''))
                    if not s['var'].get('t', '').startswith('&'):
                        self.emit((rr[0], rr[1] + (('[]', ('?',)),), rr[2]), 'r', s['l'], typ=s['var'].get('t', ''))
                else:
                    self.ev(r)
            for rnd in range(2):
                ph, fr = self.phases, getattr(self, 'fresh', 0)
                if s.get('c') is not None:
                    self.ev(s['c'])
                self.st(s.get('b'))
                if s.get('inc') is not None:
                    self.ev(s['inc'])
                if self.phases == ph and getattr(self, 'fresh', 0) == fr:
                    break
                self.phases = self.phases | ph
        elif k == 'switch':
            self.ev(s['c'])
            self.st(s['b'])
        elif k in ('case', 'default'):
            self.st(s.get('b'))
        elif k == 'try':
            self.st(s['b'])
            for h in s.get('h') or []:
                self.st(h if 'k' in h else h.get('b'))
        elif k == 'omp':
            self.omp(s)
        elif k in ('break', 'continue', 'null'):
            pass
        else:
            self.ev(s)

    def master(self, c):
        """the branch only the first thread takes"""
        c = strip(c)
        if c['k'] == 'un' and c['op'] == '!':
            e = c['e']
            while e.get('k') == 'cast':
                e = e['e']
            if self.term(e) == ('tid',):
                return True
        if c['k'] == 'bin' and c['op'] in ('==', '!='):
            a, b = self.term(c['a']), self.term(c['b'])
            if {a, b} == {('tid',), ('c', 0)}:
                return c['op'] == '=='
        if self.term(c) == ('tid',):
            return False
        return None

    def omp(self, s):
        kd = s['kind']
        nowait = any(c.get('k') == 'nowait' for c in s.get('clauses') or [])
        for c in s.get('clauses') or []:
            if c.get('k') in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear'):
                for i in c.get('vars') or []:
                    self.local.add(i)
        if kd in ('for', 'parallel for', 'for simd', 'parallel for simd'):
            L = s['b']
            while L['k'] == 'block' and len(L['b']) == 1:
                L = L['b'][0]
            if L['k'] == 'for':
                self.loop(L, nowait)
            elif L['k'] == 'forrange':
                self.partvar[L['var']['id']] = L['var']['id']
            self.st(L)
            if not nowait and kd.startswith('for'):
                self.barrier()
        elif kd == 'critical':
            self.prot.append('crit:' + (s.get('name') or ''))
            self.st(s['b'])
            self.prot.pop()
        elif kd == 'atomic':
            for x in walk(s['b']):
                if x['k'] == 'bin' and x['op'] == '=' and strip(x['a'])['k'] == 'ref' and strip(x['b'])['k'] == 'un' and strip(x['b'])['op'] in ('++', '--'):
                    self.slots.add(strip(x['a'])['id'])
            self.prot.append('atomic')
            self.st(s['b'])
            self.prot.pop()
        elif kd in ('single', 'master', 'masked'):
            self.prot.append('master' if kd != 'single' else 'single:%s' % s['l'])
            self.st(s['b'])
            self.prot.pop()
            if kd == 'single' and not nowait:
                self.barrier()
        elif kd == 'barrier':
            self.barrier()
        elif kd == 'ordered':
            self.prot.append('crit:ordered')
            self.st(s['b'])
            self.prot.pop()
        elif kd in ('sections', 'section', 'task', 'taskloop', 'parallel sections'):
            self.st(s.get('b'))
            if kd == 'sections' and not nowait:
                self.barrier()
        else:
            self.st(s.get('b'))

    def loop(self, L, nowait=False):
        i = L.get('init')
        if nowait:      # the next instance of this loop may already run: its iterations are dealt anew
            self.fresh = getattr(self, 'fresh', 0) + 1
        if i is not None and i['k'] == 'decl' and i['d'] and i['d'][0]['k'] == 'var':
            self.partvar[i['d'][0]['id']] = (i['d'][0]['id'], self.fresh if nowait else 0)
        elif i is not None and i['k'] == 'expr' and is_assign(i['e']):
            a = strip(assign_parts(i['e'])[0])
            if a['k'] == 'ref':
                self.partvar[a['id']] = (a['id'], self.fresh if nowait else 0)
                self.local.add(a['id'])


class Analysis:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.perms = set()
        self.dead = []

    def returns_slot(self, g, v):
        k = ('slot', g['key'])
        if k not in self.memo:
            self.memo[k] = False
            rs = [x for x in walk(g['b']) if x['k'] == 'return' and x.get('e') is not None]
            if rs and any(x['k'] == 'call' and x.get('q', '').startswith(('__sync_', '__atomic_')) for x in walk(g['b'])):
                w = Walker(self, g, v, 5)
                self.memo[k] = all(w.term(x['e']) == ('slot',) for x in rs)
        return self.memo[k]

    def summary(self, g, v, depth):
        k = (g['key'], v)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = []
        if g.get('b') is None:
            return []
        w = Walker(self, g, v, depth)
        # parameters stand for the caller's terms
        ps = w.params
        old = w.term

        def term(e, d=0):
            e0 = strip(e)
            if e0 is not None and e0['k'] == 'ref' and e0.get('id') in ps and e0['id'] not in w.assigned:
                return ('pv', ps[e0['id']])
            return old(e, d)
        w.term = term
        w.st(g['b'])
        seen, r = set(), []
        for a in w.out:
            if a.root[0] in ('this', 'p', 'g'):
                a.ph = frozenset()
                kk = (a.root, a.path, a.mode, a.val, a.prot)
                if kk not in seen:
                    seen.add(kk)
                    r.append(a)
        self.memo[k] = r
        return r


def own(t):
    """the part of a subscript that belongs to one thread"""
    if t[0] in ('part', 'tid', 'slot'):
        return t
    return None


def affine(t):
    """(base, offset) of base or base +- constant"""
    if t[0] in '+-' and len(t) == 3 and t[2][0] == 'c':
        return t[1], t[2][1] if t[0] == '+' else -t[2][1]
    return t, 0


def apart(a, b):
    """different threads cannot mean the same element"""
    for x, y in zip(a.path, b.path):
        if x[0] != y[0]:
            return True
        if x[0] == '.' and x[1] != y[1]:
            return True
        if x[0] == '[]':
            tx, ty = x[1], y[1]
            if own(tx) and own(tx) == own(ty):
                return True
            ax, ay = affine(tx), affine(ty)
            if ax[0] == ay[0] and ax[0][0] in ('part', 'tid') and ax[1] == ay[1]:
                return True
            if ax[0] == ay[0] and ax[0][0] == 'v' and ax[1] != ay[1]:
                return True
            if tx[0] == 'c' and ty[0] == 'c' and tx != ty:
                return True
    return False


def shared_protection(a, b):
    for p in a.prot & b.prot:
        return p
    return None


def conflict(a, b):
    """why accesses a (a write) and b of two threads are not ordered; None when they are, or do not meet"""
    if a.root != b.root or not (a.ph & b.ph):
        return None
    pa, pb = a.path, b.path
    bits = a.typ == 'bit' and b.typ == 'bit' and a.mode == 'w'
    if bits and len(pa) == len(pb) and pa:
        # neighbours share a word
        x, y = Acc(a.root, pa[:-1], 'w', 0, '', a.prot, a.ph, 0, None), Acc(b.root, pb[:-1], 'w', 0, '', b.prot, b.ph, 0, None)
        if not apart(x, y) and not shared_protection(a, b):
            return 'several threads change bits of one word'
        return None
    if apart(a, b):
        return None
    if shared_protection(a, b):
        return None
    if a.mode == 'sw':
        # the object at path pa changes its structure
        if b.mode in ('sw', 'sr', 'w', 'r') and len(pb) >= len(pa):
            return 'the container is reorganised while another thread uses it'
        if b.mode == 'sw':
            return 'the container is reorganised by two threads'
        return None
    if a.mode == 'w':
        if len(pa) != len(pb):
            # a member of the written object, or an object the written place is part of
            if b.mode in ('w', 'r') and (len(pb) > len(pa) or b.mode == 'w'):
                return 'the object is overwritten while another thread uses it' if a.typ != 'range' else 'elements are moved while another thread uses them'
            return None
        if b.mode in ('sr', 'sw'):
            return None
        byte = a.typ in ('u8', 'i8', 'bool', 'char', 'u32', 'i32', 'u64', 'i64')
        if a.val is not None and a.val[0] == 'c' and byte:
            if b.mode == 'w' and b.val == a.val:
                return None
            if b.mode == 'r' and pa and pa[-1][0] == '[]':
                return None
        if b.mode == 'r':
            if pa and pa[-1][0] == '[]' and pa[-1][1][0] == 'part' and (a.typ[:1] in 'uif' and a.typ[1:].isdigit() or a.typ == 'bool'):
                return None
            if 'atomic' in a.prot and pa and pa[-1][0] == '[]' and (a.val is None or a.val[0] != 'c'):
                return None      # retried against the atomic operation that follows
            return 'the value is read while another thread changes it'
        return 'two threads change the value'
    return None


def run(P, ctx, tier):
    A = Analysis(P)
    nreg = 0
    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        if f.get('b') is None:
            continue
        regs = [x for x in walk(f['b']) if x['k'] == 'omp' and x['kind'].startswith('parallel')]
        if not regs:
            continue
        ctx.saw(f)
        variant = 'par' if 'par' in f['variants'] else 'seq'
        for x in walk(f['b']):
            if x['k'] == 'call' and x.get('args') and ('permut' in x.get('n', '') or x.get('q') in ('std::shuffle', 'std::iota')):
                a = strip(x['args'][0])
                while a['k'] in ('un',) or a['k'] == 'call' and a.get('obj') is not None:
                    a = strip(a['e'] if a['k'] == 'un' else a['obj'])
                if a['k'] == 'ref':
                    A.perms.add(('v', a.get('id')))
        for R in regs:
            nreg += 1
            w = Walker(A, f, variant, 0, body=R['b'] if R['kind'] == 'parallel' else R)
            if R['kind'] == 'parallel':
                for c in R.get('clauses') or []:
                    if c.get('k') in ('private', 'firstprivate', 'reduction'):
                        w.local |= set(c.get('vars') or [])
                w.st(R['b'])
            else:
                w.omp(R)
            seen = {}
            for a in w.out:
                seen.setdefault(a.key(), a)
            accs = list(seen.values())
            names = {}
            for x in walk(f['b']):
                if x['k'] == 'var':
                    names[x['id']] = x['n']
            for p in f['params']:
                names[p['id']] = p['n']
            for i, a in enumerate(accs):
                ctx.ok('access to shared data ordered', '%s:%s %s %s' % (f['file'], a.line, a.mode, a.root))
                if a.mode not in ('w', 'sw'):
                    continue
                if any(p.startswith('single:') or p == 'master' for p in a.prot):
                    pass
                for b in accs:
                    same = a is b
                    why = conflict(a, b)
                    if why:
                        nm = names.get(a.root[1]) if a.root[0] == 'v' else ''.join(map(str, a.root[1:])) or 'this'
                        what = '`%s%s` is written at line %s and accessed at line %s by another thread without ordering: %s' % (
                            nm, ''.join('.' + c[1] if c[0] == '.' else '[..]' for c in a.path), a.line, b.line, why)
                        ctx.violation('access to shared data ordered', f, a.line, what, tag='%s%s' % (nm, ''.join('.' + c[1] if c[0] == '.' else '[]' for c in a.path)))
                        break
            thread_arrays(ctx, A, w, f, R, accs, names)
    ctx.ok('regions', nreg)
    for i in range(nreg):
        ctx.ok('parallel regions', i)
    ctx.floor('parallel regions', 14)
    ctx.floor('access to shared data ordered', 100)


def thread_arrays(ctx, A, w, f, R, accs, names):
    inside = {id(x) for x in walk(R)}
    for a in accs:
        if a.root[0] != 'v' or len(a.path) < 1 or a.path[0] != ('[]', ('tid',)):
            continue
        ids = a.root[1]
        bad = sizes_ok(f, ids, inside)
        ctx.check(bad is None, 'one element per thread', f, a.line, 'the array `%s` has an element per thread number, but %s' % (names.get(ids), bad), tag=str(names.get(ids)))


def sizes_ok(f, vid, inside):
    exprs = []
    for x in walk(f['b']):
        if x['k'] == 'var' and x['id'] == vid and x.get('init') is not None:
            for y in walk(x['init']):
                if y['k'] == 'ctor' and y.get('args'):
                    exprs.append((y['args'][0], id(x) in inside))
        if x['k'] == 'call' and x.get('n') in ('resize', 'assign') and x.get('obj') is not None and strip(x['obj'])['k'] == 'ref' and strip(x['obj']).get('id') == vid:
            exprs.append((x['args'][0], id(x) in inside))
    for e, ins in exprs:
        r = threads(f, e, inside, 0, ins)
        if r is not None:
            return r
    return None if exprs else None


def threads(f, e, inside, d, ins):
    """does the expression reach the number of threads of the region; reason when it does not"""
    for y in walk(e):
        if y['k'] == 'call' and y.get('q') == 'omp_get_num_threads' and id(y) not in inside:
            return 'its size is the number of threads outside the parallel region, which is one'
        if y['k'] == 'ref' and 'id' in y and d < 4:
            asg = []
            for x in walk(f['b']):
                if x['k'] == 'var' and x['id'] == y['id'] and x.get('init') is not None:
                    asg.append(x['init'])
                if x['k'] in ('bin', 'call') and is_assign(x):
                    a, b = assign_parts(x)
                    if a is not None and strip(a)['k'] == 'ref' and strip(a).get('id') == y['id']:
                        asg.append(b)
            rs = [threads(f, b, inside, d + 1, ins) for b in asg]
            if rs and all(r is not None for r in rs):
                return rs[0]
    return None
