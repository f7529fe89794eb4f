"""Message layout of hand-written encoders and decoders.  Both are turned into
a tree of values and loops; a value is described by the members it is read
from (encoder) or ends up in (decoder), whatever helpers, locals or loop forms
carry it there."""
from .ast import strip, is_assign, assign_parts, int_const, index_parts, std_method, body_nodes
from .program import walk, children

GROW = ('emplace_back', 'push_back')


class Tok:
    def __init__(self, kind, line, leaves=frozenset(), items=None, expr=None, cond=None):
        self.kind, self.line, self.leaves, self.items, self.expr, self.cond = kind, line, leaves, items, expr, cond
        self.sinks = set()
        self.tags = []
        self.id = None

    def __repr__(self):
        if self.kind == 'loop':
            return 'loop(%s)%s' % (sorted(map(str, self.leaves)), self.items)
        return 'val(%s->%s%s)' % (sorted(map(str, self.leaves)), sorted(map(str, self.sinks)), ' TAG' if self.tags else '')


class Walk:
    """Common: environments, leaves of expressions, inlining."""

    def __init__(self, P, f):
        self.P, self.f, self.variant = P, f, sorted(f['variants'])[0]
        self.env = {}          # var id -> leaves
        self.vals = {}         # var id -> initialiser
        self.consts = {}       # counter id -> initial value
        self.depth = 0
        self.order = []

    def callee(self, e):
        return self.P.lookup(e['f'], self.variant) if e is not None and 'f' in e else None

    def single_return(self, g):
        b = [s for s in g['b']['b'] if s is not None] if g.get('b') is not None and g['b']['k'] == 'block' else []
        b = [s for s in b if not (s['k'] == 'expr' and s['e']['k'] == 'cast' and s['e']['t'] == 'void')]
        if len(b) == 1 and b[0]['k'] == 'return':
            return b[0].get('e')
        return None

    def leaves(self, e, d=0):
        e = strip(e)
        if e is None or d > 40:
            return frozenset()
        k = e['k']
        if k == 'ref':
            return frozenset(self.env.get(e.get('id'), ()))
        if k == 'mem':
            base = self.leaves(e['base'], d + 1)
            toks = frozenset(x for x in base if x[0] == 'tok')
            if e.get('rec', '').startswith('std::pair') or e['n'] in ('first', 'second'):
                return base
            return frozenset([(e.get('rec', '').split('<')[0], e['n'])]) | toks
        if k == 'call':
            o, m = std_method(e)
            if o is not None and m in ('size',):
                return frozenset(('size',) + x if x[0] != 'tok' else x for x in self.leaves(o, d + 1))
            g = self.callee(e)
            if g is not None:
                if id(e) in self.codecs(e):
                    return frozenset([('codec', g['key'])])
                r = self.single_return(g)
                if r is not None and self.depth < 4:
                    sub = self.bindparams(g, e)
                    old = {i: self.env.get(i) for i in sub}
                    self.env.update(sub)
                    self.depth += 1
                    L = self.leaves(r, d + 1)
                    self.depth -= 1
                    self.env.update({i: v for i, v in old.items() if v is not None})
                    return L
            r = set()
            if o is not None or e.get('obj') is not None:
                r |= self.leaves(e['obj'], d + 1)
            for a in e.get('args', []):
                if a is not None and m not in ('operator[]', 'at') and e.get('oper') != '[]':
                    r |= self.leaves(a, d + 1)
            return frozenset(r)
        if k == 'idx':
            return self.leaves(e['a'], d + 1)
        if k == 'lambda':
            return frozenset()
        r = set()
        for c in children(e):
            if 'k' in c:
                r |= self.leaves(c, d + 1)
        return frozenset(r)

    def codecs(self, e):
        """calls whose result is itself an encoded sequence"""
        g = self.callee(e)
        if g is not None and is_wordvec(g.get('ret', '')):
            return {id(e)}
        return set()

    def bindparams(self, g, e):
        r = {}
        for p, a in zip(g['params'], e.get('args', [])):
            if a is not None:
                r[p['id']] = self.leaves(a)
        return r


def is_wordvec(t):
    t = t.replace('const ', '').strip('& ')
    return t.startswith(('std::vector<unsigned long>', 'std::vector<long>', 'std::vector<unsigned long long>'))


class Encoder(Walk):
    """body -> token tree for the buffer variable `buf`"""

    def __init__(self, P, f, buf, env=None):
        super().__init__(P, f)
        self.buf = {buf}
        self.items = []
        self.pos = {}           # constant position -> token
        self.cur = self.items
        self.cond = None
        self.sizeinit = None
        if f.get('b') is not None:
            self.stmt(f['b'])
        self.items = [self.pos[i] for i in sorted(self.pos)] + self.items

    def emit(self, kind, line, leaves, expr=None, items=None, at=None):
        t = Tok(kind, line, leaves, items, expr, self.cond)
        if at is not None:
            self.pos[at] = t
        else:
            self.cur.append(t)
        return t

    def isbuf(self, e):
        e = strip(e)
        return e is not None and e['k'] == 'ref' and e.get('id') in self.buf

    def expr(self, e):
        if e is None or 'k' not in e or e['k'] == 'lambda':
            return
        if is_assign(e):
            a, b = assign_parts(e)
            if a is not None:
                cont, ix = index_parts(a)
                if cont is not None and self.isbuf(cont):
                    self.expr(b)
                    self.emit('val', e.get('l'), self.leaves(b), b, at=int_const(ix))
                    return
                v = strip(a)
                if v['k'] == 'ref' and 'id' in v:
                    self.env[v['id']] = self.leaves(b) | (self.env.get(v['id'], frozenset()) if e.get('op', e.get('oper')) != '=' else frozenset())
                    self.vals[v['id']] = b
        if e['k'] == 'call':
            o, m = std_method(e)
            if o is not None and self.isbuf(o):
                if m in GROW and e.get('args'):
                    self.emit('val', e['l'], self.leaves(e['args'][0]), e['args'][0])
                    return
                if m == 'insert' and len(e.get('args', [])) == 3:
                    L = self.leaves(e['args'][1])
                    self.emit('loop', e['l'], L, items=[Tok('val', e['l'], L)])
                    return
                if m == 'insert' and len(e.get('args', [])) == 2:
                    self.emit('val', e['l'], self.leaves(e['args'][1]), e['args'][1])
                    return
            g = self.callee(e)
            if g is not None and self.depth < 4 and any(self.isbuf(strip_addr(a)) for a in e.get('args', []) if a is not None):
                old = dict(self.env)
                bufs = set(self.buf)
                for p, a in zip(g['params'], e['args']):
                    if a is not None and self.isbuf(strip_addr(a)):
                        self.buf.add(p['id'])
                self.env.update(self.bindparams(g, e))
                for p, a in zip(g['params'], e['args']):
                    self.vals[p['id']] = a
                self.depth += 1
                self.stmt(g['b'])
                self.depth -= 1
                self.env, self.buf = old, bufs
                return
            if g is not None and self.depth < 4 and g.get('lambda'):
                pass
        for c in children(e):
            if 'k' in c:
                self.expr(c)

    def var(self, v):
        if v.get('init') is not None:
            self.expr(v['init'])
            L = self.leaves(v['init'])
            if v['k'] == 'decomp':
                for b in v.get('b', []):
                    src = strip(v['init'])
                    rec = v.get('st', '').split('<')[0]
                    self.env[b['id']] = frozenset([(rec, b['fld'])]) if b.get('fld') and not rec.startswith('std::') else L
                return
            self.env[v['id']] = L
            self.vals[v['id']] = v['init']
            if v['id'] in self.buf and v['init']['k'] == 'ctor' and v['init'].get('args'):
                self.sizeinit = v['init']['args'][0]

    def stmt(self, n):
        if n is None:
            return
        k = n['k']
        if k == 'block':
            for c in n['b']:
                self.stmt(c)
        elif k == 'expr':
            self.expr(n['e'])
        elif k == 'decl':
            for v in n['d']:
                self.var(v)
        elif k == 'if':
            if n.get('init'):
                self.stmt(n['init'])
            self.expr(n['c'])
            old = self.cond
            self.cond = (n['c'], True)
            self.stmt(n['a'])
            jump = self.jumps(n['a'])
            self.cond = (n['c'], False)
            if n.get('b'):
                self.stmt(n['b'])
            self.cond = (n['c'], False) if jump else old
        elif k in ('for', 'while', 'do', 'forrange'):
            self.loop(n)
        elif k == 'return':
            self.expr(n.get('e'))
        elif k in ('case', 'default', 'label', 'omp', 'try'):
            self.stmt(n.get('b'))

    def jumps(self, n):
        return any(x['k'] in ('continue', 'break', 'return') for x in walk(n))

    def loop(self, n):
        if n.get('init'):
            self.stmt(n['init'])
        if n['k'] == 'forrange':
            L = self.leaves(n['range'])
            v = n['var']
            if v['k'] == 'decomp' or v.get('b'):
                rec = v.get('st', '').split('<')[0]
                for b in v.get('b', []):
                    self.env[b['id']] = frozenset([(rec, b['fld'])]) if b.get('fld') and not rec.startswith('std::') else L
            else:
                scal = v.get('t', '').replace('const ', '').strip('&')[:1] in 'uib' and v.get('t', '').strip('&').replace('const ', '').rstrip()[1:].isdigit()
                self.env[v['id']] = L if not any(x[0] == 'size' for x in L) else frozenset()
                if scal and self.is_counter(n['range']):
                    self.env[v['id']] = frozenset([('ctr', v['id'])])
        else:
            L = self.leaves(n['c']) if n.get('c') is not None else frozenset()
        saved, savec = self.cur, self.cond
        self.cur, self.cond = [], None
        self.stmt(n['b'])
        if n.get('inc') is not None:
            self.expr(n['inc'])
        items, self.cur, self.cond = self.cur, saved, savec
        if items:
            self.emit('loop', n['l'], L, items=items)

    def is_counter(self, rng):
        """the range enumerates numbers (an index range), not the elements of a container"""
        e = strip(rng)
        g = self.callee(e) if e is not None and e['k'] == 'call' else None
        return g is not None


def strip_addr(e):
    e = strip(e)
    if e is not None and e['k'] == 'un' and e['op'] == '&':
        return strip(e['e'])
    return e


class Decoder(Walk):
    def __init__(self, P, f, buf):
        super().__init__(P, f)
        self.buf = {buf}
        self.toks = []
        self.pos = {}
        self.cur = []
        self.items = self.cur
        self.loops = []
        self.touched = set()     # members written with a value from the message
        self.sized = set()
        self.seen = {}
        self.pred = False
        if f.get('b') is not None:
            self.stmt(f['b'])
        if self.pos:
            n = max(self.pos) + 1
            pre = []
            for i in range(n):
                if i not in self.pos:
                    t = Tok('val', None)
                    t.sinks.add(('unread',))
                    pre.append(t)
                else:
                    pre.append(self.pos[i])
            self.items = pre + self.items
        self.cond = None

    def isbuf(self, e):
        e = strip(e)
        return e is not None and e['k'] == 'ref' and e.get('id') in self.buf

    def read(self, ix, line):
        at = int_const(ix)
        if at is not None and at in self.pos:
            return self.pos[at]
        t = Tok('val', line)
        t.id = len(self.toks)
        self.toks.append(t)
        if at is not None:
            self.pos[at] = t
        else:
            self.cur.append(t)
        return t

    # evaluation: reads of the buffer become tokens in evaluation order
    def leaves(self, e, d=0):
        e2 = strip(e)
        if e2 is not None and id(e2) in self.seen:
            return frozenset([('tok', self.seen[id(e2)].id)])
        return super().leaves(e, d)

    def expr(self, e):
        if e is None or 'k' not in e or e['k'] == 'lambda':
            return
        k = e['k']
        if k == 'call' and e.get('n') == 'insert' and len(e.get('args', [])) == 3 and any(self.buf_addr(a) for a in e['args'][1:]):
            o = e['obj']
            t = Tok('val', e['l'])
            t.id = len(self.toks)
            self.toks.append(t)
            bound = self.span([a for a in e['args'][1:]])
            self.loop_tok(e['l'], bound, [t])
            self.sink_container(o, [t.id], e)
            return
        if k == 'ctor' and len(e.get('args', [])) >= 2 and any(self.buf_addr(a) for a in e['args'][:2] if a is not None):
            t = Tok('val', e['l'])
            t.id = len(self.toks)
            self.toks.append(t)
            bound = self.span([a for a in e['args'][:2] if a is not None])
            self.loop_tok(e['l'], bound, [t])
            self.seen[id(e)] = t
            return
        cont, ix = index_parts(e) if k in ('call', 'idx') else (None, None)
        if cont is not None and self.isbuf(cont):
            self.seen[id(e)] = self.read(ix, e['l'])
            return
        if e['k'] == 'un' and e['op'] in ('++', '--') and self.depth:
            self.touched |= self.leaves_static(e['e'])
        if is_assign(e):
            a, b = assign_parts(e)
            self.expr(b)
            self.expr(a)
            if a is not None and b is not None:
                self.assign(a, b, e)
            return
        if k == 'call':
            if e.get('obj') is not None:
                self.expr(e['obj'])
            for a in e.get('args', []):
                self.expr(a)
            self.call(e)
            return
        if k == 'ctor':
            for a in e.get('args', []):
                self.expr(a)
            return
        if k == 'bin' and e['op'] in ('<', '>', '<=', '>=', '==', '!='):
            self.expr(e['a'])
            self.expr(e['b'])
            self.compare(e)
            return
        for c in children(e):
            if 'k' in c:
                self.expr(c)

    def span(self, ends):
        L = [self.leaves(self.buf_addr(a)) for a in ends if self.buf_addr(a) is not None]
        if len(L) == 2:
            return L[1] - L[0] or L[1]
        return frozenset().union(*L) if L else frozenset()

    def buf_addr(self, e):
        """index expression of &buf[i], buf.begin()+i"""
        e = strip(e)
        while e is not None and e['k'] == 'ctor' and e.get('args'):
            e = strip(e['args'][0])
        if e is None:
            return None
        if e['k'] == 'un' and e['op'] == '&':
            c, i = index_parts(e['e'])
            return i if c is not None and self.isbuf(c) else None
        if e['k'] == 'call' and e.get('oper') == '+':
            o = e.get('obj') if e.get('obj') is not None else e['args'][0]
            i = e['args'][0] if e.get('obj') is not None else e['args'][1]
            o = strip(o)
            if o['k'] == 'call' and o.get('n') in ('begin', 'cbegin') and self.isbuf(o.get('obj')):
                return i
            if self.buf_addr(o) is not None:
                return {'k': 'bin', 'op': '+', 'a': self.buf_addr(o), 'b': i, 't': 'u64'}
        if e['k'] == 'bin' and e['op'] == '+':
            for o, i in ((e['a'], e['b']), (e['b'], e['a'])):
                o = strip(o)
                if o['k'] == 'call' and o.get('n') == 'data' and self.isbuf(o.get('obj')):
                    return i
                b = self.buf_addr(o)
                if b is not None:
                    return {'k': 'bin', 'op': '+', 'a': b, 'b': i, 't': 'u64'}
        return None

    def tokids(self, L):
        return [x[1] for x in L if x[0] == 'tok']

    def assign(self, a, b, e):
        L = self.leaves(b)
        v = strip(a)
        if v['k'] == 'ref' and 'id' in v:
            comp = e.get('op', e.get('oper')) != '='
            self.env[v['id']] = L | (self.env.get(v['id'], frozenset()) if comp else frozenset())
            return
        ids = self.tokids(L)
        cont, ix = index_parts(a)
        tgt = self.leaves_static(a)
        if ids:
            for x in tgt:
                self.touched.add(x)
                for i in ids:
                    self.toks[i].sinks.add(x)
        elif cont is not None and self.tokids(self.leaves(ix)):
            self.touched |= tgt
        elif self.depth and (e.get('op', e.get('oper')) != '=' or tgt & self.leaves_static(b)):
            self.touched |= tgt
        elif any(x in self.sized or ('s',) + x in self.sized for x in self.leaves_static(b)) or \
                any(x[0] == 'size' and x[1:] in self.sized for x in self.leaves_static(b)):
            self.touched |= tgt

    def leaves_static(self, e):
        return frozenset(x for x in self.leaves(e) if x[0] not in ('tok', 'ctr'))

    def sink_container(self, o, ids, e, elem=None):
        v = strip(o)
        if v is not None and v['k'] == 'ref' and 'id' in v and v['id'] not in self.env_fields():
            self.env[v['id']] = self.env.get(v['id'], frozenset()) | frozenset(('tok', i) for i in ids)
            return
        for x in self.leaves_static(o):
            self.touched.add(x)
            for i in ids:
                self.toks[i].sinks.add(x)

    def env_fields(self):
        return {i for i, L in self.env.items() if any(x[0] not in ('tok', 'ctr') for x in L)}

    def call(self, e):
        o, m = std_method(e)
        if o is not None:
            args = [a for a in e.get('args', []) if a is not None]
            if m in GROW or m in ('insert', 'emplace', 'push', 'assign'):
                allids = [self.tokids(self.leaves(a)) for a in args]
                if any(allids):
                    rec = elem_record(self.P, o)
                    ct = self.ctor_of(rec, len(args)) if rec and m in ('emplace_back', 'emplace', 'push_back') else None
                    if m == 'push_back' and args and args[0]['k'] in ('ctor', 'init', 'copy'):
                        inner = strip(args[0])
                        if inner['k'] == 'ctor' and rec and inner.get('rec') == rec:
                            args = inner['args']
                            allids = [self.tokids(self.leaves(a)) for a in args]
                            ct = self.ctor_of(rec, len(args))
                    for i, ids in enumerate(allids):
                        for x in self.leaves_static(o):
                            self.touched.add(x)
                        if ct is not None and i < len(ct['params']):
                            for fld in ctor_fields(ct, ct['params'][i]['id']):
                                self.touched.add((rec, fld))
                                for t in ids:
                                    self.toks[t].sinks.add((rec, fld))
                        else:
                            self.sink_container(o, ids, e)
                return
            if m in ('resize', 'reserve'):
                for a in args[:1]:
                    for t in self.tokids(self.leaves(a)):
                        for x in self.leaves_static(o):
                            self.sized.add(x)
                            self.toks[t].sinks.add(('size',) + x)
                return
            return
        g = self.callee(e)
        if g is None:
            return
        args = e.get('args', [])
        if any(is_wordvec(p['t']) and self.tokids(self.leaves(a)) for p, a in zip(g['params'], args) if a is not None):
            for p, a in zip(g['params'], args):
                if a is not None and is_wordvec(p['t']):
                    for t in self.tokids(self.leaves(a)):
                        self.toks[t].sinks.add(('codec', g['key']))
            return
        if self.depth < 3:
            passbuf = any(self.isbuf(strip_addr(a)) for a in args if a is not None)
            anytok = any(self.tokids(self.leaves(a)) for a in args if a is not None)
            owner = g.get('cls') and g['cls'] in getattr(self, 'owners', ())
            if passbuf or anytok or owner:
                old, bufs = dict(self.env), set(self.buf)
                self.env.update(self.bindparams(g, e))
                for p, a in zip(g['params'], args):
                    if a is not None and self.isbuf(strip_addr(a)):
                        self.buf.add(p['id'])
                self.depth += 1
                self.ret = frozenset()
                sr, self.retL = getattr(self, 'retL', None), set()
                sp, self.pred = self.pred, g.get('ret') == 'bool'
                self.stmt(g['b'])
                r, self.retL = self.retL, sr
                self.depth -= 1
                self.pred = sp
                self.env, self.buf = old, bufs
                if passbuf and self.tokids(r):
                    self.seen[id(e)] = self.toks[self.tokids(r)[0]]

    def ctor_of(self, rec, n):
        for f in self.P.functions.values():
            if f.get('cls') == rec and f['n'] == rec.split('::')[-1] and len(f['params']) == n and f.get('inits'):
                return f
        return None

    def compare(self, e):
        if self.depth and not self.pred:
            return
        for a, b, op in ((e['a'], e['b'], e['op']), (e['b'], e['a'], {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(e['op'], e['op']))):
            for t in self.tokids(self.leaves(a)):
                self.toks[t].tags.append((op, b, self.leaves(b), int_const(b)))

    def var(self, v):
        if v.get('init') is not None:
            self.expr(v['init'])
            if v['id'] not in self.buf:
                self.env[v['id']] = self.leaves(v['init'])
                g = strip(v['init'])
                if g is not None and id(g) in self.seen:
                    self.env[v['id']] = frozenset([('tok', self.seen[id(g)].id)])

    def stmt(self, n):
        if n is None:
            return
        k = n['k']
        if k == 'block':
            for c in n['b']:
                self.stmt(c)
        elif k == 'expr':
            self.expr(n['e'])
        elif k == 'decl':
            for v in n['d']:
                self.var(v)
        elif k == 'if':
            if n.get('init'):
                self.stmt(n['init'])
            self.expr(n['c'])
            self.stmt(n['a'])
            self.stmt(n.get('b'))
        elif k in ('for', 'while', 'do', 'forrange'):
            self.loop(n)
        elif k == 'return':
            self.expr(n.get('e'))
            if self.depth and n.get('e') is not None:
                self.retL |= self.leaves(n['e'])
        elif k in ('case', 'default', 'label', 'omp', 'try', 'switch'):
            self.stmt(n.get('b'))

    def loop_tok(self, line, bound, items):
        t = Tok('loop', line, bound, items)
        self.cur.append(t)
        for i in self.tokids(bound):
            self.toks[i].sinks.add(('count', id(t)))
        return t

    def loop(self, n):
        if n.get('init'):
            self.stmt(n['init'])
        saved = self.cur
        self.cur = []
        bound = frozenset()
        if n['k'] == 'forrange':
            bound = self.leaves(n['range'])
            self.env[n['var']['id']] = frozenset()
        elif n.get('c') is not None:
            self.cur = saved
            pre = len(self.toks)
            ntags = {t.id: len(t.tags) for t in self.toks}
            self.expr(n['c'])
            for t in self.toks:
                if t.id in ntags:
                    del t.tags[ntags[t.id]:]
            self.cur = []
            bound = self.leaves(n['c'])
        self.stmt(n['b'])
        if n.get('inc') is not None:
            self.expr(n['inc'])
        items, self.cur = self.cur, saved
        if items:
            self.loop_tok(n['l'], frozenset(x for x in bound if x[0] != 'ctr'), items)


def elem_record(P, o):
    t = (strip(o) or {}).get('t', '').replace('const ', '').strip('& ')
    for _ in range(3):
        if not t.startswith('std::vector<'):
            break
        t = t[len('std::vector<'):-1].split(', std::allocator')[0]
        if t in P.records:
            return t
    return None


def ctor_fields(ct, pid):
    r = set()
    for I in ct.get('inits') or []:
        e = I.get('e')
        if isinstance(e, dict) and any(x['k'] == 'ref' and x.get('id') == pid for x in walk(e)):
            if I.get('n') or I.get('fld'):
                r.add(I.get('n') or I.get('fld'))
    return r
