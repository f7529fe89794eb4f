"""Variables and members have a value before they are read."""
from ..ast import strip, is_assign, assign_parts, int_const
from ..cg import CallGraph
from ..flow import Flow
from ..program import walk, children
from ..ctx import short

RULE = ('Definite assignment over all paths: a scalar local, and every scalar member (including members of member objects) of an object, must be assigned on every '
        'path before it is read. Constructors (initialisers, default initialisers, body) and methods are summarised by the members they need and the members '
        'they set; at every place an object is created in a variable the sequence of calls on it is followed, branch by branch. Members of the one '
        'configuration object count as set only when every program that reads them sets them whatever its options; a member no constructor sets must be '
        'set somewhere, and an atomic one by the constructor.')
ASSUMPTIONS = ['an object handed to code outside the creating function by pointer or reference is set up by then', 'elements of containers are outside']

TOP = None


def optional(e):
    """registration of a command line option: the variable is written only when the option is given"""
    return 'CmdlineParser::add_' in e.get('q', '') and not e.get('n', '').startswith('add_param_')


def scalar(t):
    t = t.replace('const ', '').replace('volatile ', '').strip()
    if t.startswith('std::atomic<'):
        return True
    return t[:1] in 'iuf' and t[1:].isdigit() or t in ('bool', 'double', 'float', 'char') or t.endswith('*')


class Model:
    def __init__(self, P, G):
        self.P, self.G = P, G
        self.leafmemo = {}
        self.sum = {}
        self.cls = {}
        for f in P.functions.values():
            if f.get('cls'):
                self.cls.setdefault(f['cls'], []).append(f)

    def record(self, t):
        t = t.replace('const ', '').strip('& *')
        return self.P.records.get(t) or (None if t.startswith('std::') else self.P.records.get(t.split('<')[0]))

    def leaves(self, q, depth=0):
        """scalar member paths of a class without default initialiser"""
        if q in self.leafmemo:
            return self.leafmemo[q]
        R = self.P.records.get(q)
        r = set()
        self.leafmemo[q] = r
        if R is None or depth > 4:
            return r
        for b in R.get('bases') or []:
            bq = b if isinstance(b, str) else b.get('q', b.get('t', ''))
            r |= self.leaves(bq, depth + 1)
        for fl in R['fields']:
            if fl.get('static'):
                continue
            if scalar(fl['t']):
                r.add((fl['n'],))
            elif not fl['t'].startswith(('&', 'std::')) and self.record(fl['t']) is not None:
                for x in self.leaves(self.record(fl['t'])['q'], depth + 1):
                    r.add((fl['n'],) + x)
        self.leafmemo[q] = r
        return r

    def defaults(self, q):
        """set by default member initialisers"""
        R = self.P.records.get(q)
        return {(fl['n'],) for fl in (R['fields'] if R else []) if fl.get('init')}

    def ctor_sets(self, q, f):
        """members set once the constructor f of q is done (all, when unknown)"""
        all_ = self.leaves(q)
        if f is None:
            R = self.P.records.get(q)
            if R is not None and any(k.get('def') and k.get('implicit') for k in R.get('ctors', [])):
                r = set(self.defaults(q))
                for fl in R['fields']:
                    S = self.record(fl['t']) if not scalar(fl['t']) and not fl['t'].startswith(('&', 'std::')) else None
                    if S is not None:
                        r |= {(fl['n'],) + x for x in self.ctor_sets(S['q'], self.default_ctor(S['q']))}
                return r
            return set(all_)
        k = ('ctor', f['key'])
        if k in self.sum:
            return self.sum[k]
        self.sum[k] = set(all_)
        if len(f['params']) == 1 and f.get('implicit'):
            return self.sum[k]
        need, sets = self.analyse(f, ctor=q)
        self.sum[k] = sets
        return sets

    def flag(self, q, n):
        """members set wherever the boolean member n is set to something but false"""
        k = ('flag', q, n)
        if k in self.sum:
            return self.sum[k]
        val = set(self.leaves(q))
        while True:                     # greatest fixpoint: the flag starts out false
            self.sum[k] = val
            for f in self.cls.get(q, []):
                self.sum.pop(('m', f['key']), None)
            r = None
            for f in self.cls.get(q, []):
                if f.get('b') is None:
                    continue
                for x in walk(f['b']):
                    if x['k'] in ('bin', 'call') and is_assign(x):
                        a, b = assign_parts(x)
                        a = strip(a) if a is not None else None
                        if a is not None and a['k'] == 'mem' and a['n'] == n and a.get('rec') == q:
                            v = strip(b)
                            if v is not None and v['k'] == 'bool' and not v['v']:
                                continue
                            s = self.method(f)[1]
                            r = s if r is None else r & s
            r = val & (r or set())
            if r == val:
                return val
            val = r

    def default_ctor(self, q):
        for f in self.cls.get(q, []):
            if f.get('ctor') and not f['params']:
                return f
        return None

    def method(self, f):
        """(needs, sets)"""
        k = ('m', f['key'])
        if k in self.sum:
            return self.sum[k]
        self.sum[k] = (frozenset(), set(self.leaves(f.get('cls', ''))))
        self.sum[k] = self.analyse(f)
        return self.sum[k]

    def analyse(self, f, ctor=None, report=None):
        A = Assigned(self, f, report)
        st = set()
        q = f.get('cls')
        if ctor is not None:
            for I in f.get('inits') or []:
                if I.get('delegating') or I.get('deleg'):
                    e = I['e']
                    g = self.P.lookup(e['f'], A.variant) if isinstance(e, dict) and 'f' in e else None
                    if g is not None:
                        st |= {('this',) + x for x in self.ctor_sets(q, g)}
                    else:
                        st |= {('this',) + x for x in self.leaves(q)}
            st |= {('this',) + x for x in self.defaults(q)}
            cur = frozenset(st)
            done = set()
            for I in f.get('inits') or []:
                fld = I.get('fld')
                e = I.get('e')
                if isinstance(e, dict):
                    cur = A.ev(e, cur) or cur
                if fld:
                    done.add(fld)
                    if not I.get('written') and self.field_type(q, fld).startswith('std::atomic<') and isinstance(e, dict) and not e.get('args'):
                        continue            # the default constructor of an atomic sets no value
                    cur = cur | {('this', fld)}
                    cur = cur | A.object_init(('this', fld), self.field_type(q, fld), e)
                elif I.get('base') and isinstance(e, dict):
                    b = self.P.lookup(e['f'], A.variant) if 'f' in e else None
                    if b is not None and b.get('cls'):
                        cur = cur | {('this',) + x for x in self.ctor_sets(b['cls'], b)}
            R = self.P.records.get(q)
            for fl in R['fields'] if R else []:
                S = self.record(fl['t']) if not scalar(fl['t']) and not fl['t'].startswith(('&', 'std::')) else None
                if S is not None and fl['n'] not in done:
                    cur = cur | {('this', fl['n']) + x for x in self.ctor_sets(S['q'], self.default_ctor(S['q']))}
            st = cur
        else:
            st = frozenset()
        A.isctor = ctor is not None
        if f.get('b') is not None:
            fall, ret = A.run(f['b'], st)
            end = A.j(fall, ret)
        else:
            end = st
        if end is None:
            sets = set(self.leaves(q or ''))
        else:
            sets = {p[1:] for p in end if p[0] == 'this'}
        return frozenset(A.needs), sets

    def field_type(self, q, n):
        R = self.P.records.get(q)
        for fl in (R['fields'] if R else []):
            if fl['n'] == n:
                return fl['t']
        return ''


class Assigned(Flow):
    def __init__(self, M, f, report):
        super().__init__(M.P)
        self.M, self.f, self.report = M, f, report
        self.variant = sorted(f['variants'])[0]
        self.tracked = {}        # var id -> None (scalar) or class
        self.names = {}
        self.needs = set()
        self.isctor = False
        self.wit, self.scopes = {}, None
        q = f.get('cls')
        self.own = {('this',) + x for x in M.leaves(q)} if q and not f.get('static') else set()

    def join(self, a, b):
        return a & b

    # ---- paths
    def path(self, e):
        e = strip(e)
        if e is None:
            return None
        if e['k'] == 'this':
            return ('this',)
        if e['k'] == 'ref':
            return (e['id'],) if e.get('id') in self.tracked else None
        if e['k'] == 'mem':
            p = self.path(e['base'])
            return p + (e['n'],) if p is not None else None
        return None

    def leaves_of(self, p):
        """tracked leaves at or below path p"""
        if p[0] == 'this':
            return {x for x in self.own if x[:len(p)] == p}
        q = self.tracked.get(p[0])
        if q is None:
            return {p} if p[0] in self.tracked and len(p) == 1 else set()
        return {(p[0],) + x for x in self.M.leaves(q) if ((p[0],) + x)[:len(p)] == p}

    def assigned(self, p, st):
        return st | self.leaves_of(p) if p is not None else st

    def read(self, p, st, e, via=''):
        L = self.leaves_of(p)
        if L != {p}:
            return
        self.need(p, st, e, via)

    def need(self, p, st, e, via=''):
        if p in st:
            return
        if p[0] == 'this':
            if self.isctor:
                self.rep(p, e, via)
            else:
                self.needs.add(p[1:])
            return
        self.rep(p, e, via)

    def rep(self, p, e, via):
        if self.report is not None:
            self.report(self.f, e.get('l', self.f['l']), '.'.join([self.names.get(p[0], 'this' if p[0] == 'this' else '?')] + [str(x) for x in p[1:]]), via)

    # ---- what a condition says about other variables
    def assume(self, e, val, st):
        e = strip(e)
        if e is None:
            return st
        if e['k'] == 'mem' and val and self.path(e) is not None and self.path(e)[0] == 'this' and len(self.path(e)) == 2 and e.get('t') == 'bool':
            return st | {('this',) + x for x in self.M.flag(self.f['cls'], e['n'])}
        if e['k'] == 'ref' and e.get('id') in self.tracked:
            e = {'k': 'bin', 'op': '!=' if val else '==', 'a': e, 'b': {'k': 'int', 'v': 0}}
            val = True
        if e['k'] == 'bin' and e['op'] in ('<', '>', '<=', '>=', '==', '!='):
            for v, o, side in ((e['a'], e['b'], 0), (e['b'], e['a'], 1)):
                v = strip(v)
                n = int_const(o)
                if v is None or n is None or v['k'] != 'ref' or v.get('id') not in self.tracked:
                    continue
                W = self.witness(v['id'])
                if W is None:
                    continue
                c0, with_ = W
                a, b = (c0, n) if side == 0 else (n, c0)
                if {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[e['op']] != val:
                    st = st | {(x,) for x in with_}
        return st

    def witness(self, vid):
        """(initial constant, variables assigned whenever v is) of a local v"""
        if vid in self.wit:
            return self.wit[vid]
        if self.scopes is None:
            self.scopes = {}
            self.scan(self.f['b'], None, None)
        self.wit[vid] = None
        ds = self.scopes.get(vid)
        if ds is None or ds['init'] is None or ds['other']:
            return None
        with_ = None
        for blk, loop in ds['assigned']:
            here = {x for x, d in self.scopes.items() if x != vid and d['loop'] is ds['loop'] and any(b is blk for b, _ in d['assigned'])}
            with_ = here if with_ is None else with_ & here
        self.wit[vid] = (ds['init'], with_ or set())
        return self.wit[vid]

    def scan(self, n, blk, loop):
        if isinstance(n, list):
            for x in n:
                self.scan(x, blk, loop)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'var' and n.get('id') is not None:
            self.scopes.setdefault(n['id'], {'init': int_const(n['init']) if n.get('init') is not None else None, 'assigned': [], 'other': False, 'loop': loop})
        if k in ('for', 'while', 'do', 'forrange', 'lambda'):
            loop = n
        if k == 'block':
            for x in n['b']:
                if x is not None and x['k'] == 'expr':
                    a, b = assign_parts(strip(x['e'])) if is_assign(strip(x['e'])) else (None, None)
                    a = strip(a) if a is not None else None
                    if a is not None and a['k'] == 'ref' and a.get('id') in self.scopes and strip(x['e']).get('op', '=') == '=':
                        self.scopes[a['id']]['assigned'].append((n, loop))
                        self.scan(b, n, loop)
                        continue
                self.scan(x, n, loop)
            return
        tgt = None
        if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            tgt = strip(n['a'])
        elif k == 'un' and n['op'] in ('++', '--', '&', '++post', '--post'):
            tgt = strip(n['e'])
        if tgt is not None and tgt['k'] == 'ref' and tgt.get('id') in self.scopes:
            self.scopes[tgt['id']]['other'] = True
        if k in ('call', 'ctor'):
            for a, t in zip(n.get('args', []), n.get('pt', [])):
                a = strip(a) if a is not None else None
                if a is not None and a['k'] == 'ref' and a.get('id') in self.scopes and t.startswith('&') and 'const' not in t:
                    self.scopes[a['id']]['other'] = True
        for v in n.values():
            if isinstance(v, (dict, list)):
                self.scan(v, blk, loop)

    # ---- events
    def decl(self, v, st):
        if v['k'] == 'decomp' or v.get('static'):
            return st
        t = v.get('t', '')
        self.names[v['id']] = v.get('n', '?')
        if scalar(t):
            self.tracked[v['id']] = None
            if t.startswith('std::atomic<') and v.get('init') is not None and v['init']['k'] == 'ctor' and not v['init'].get('args') and not v['init'].get('list'):
                return frozenset(x for x in st if x != (v['id'],))
            if v.get('init') is not None or self.inloopvar(v):
                return st | {(v['id'],)} if not self.pointer_object(v) else self.point(v, st)
            return frozenset(x for x in st if x != (v['id'],))
        R = self.M.record(t) if not t.startswith(('&', 'std::')) and '*' not in t else None
        if R is not None and v.get('init') is not None:
            self.tracked[v['id']] = R['q']
            st = frozenset(x for x in st if x[0] != v['id'])
            return st | self.object_init((v['id'],), t, v['init'])
        if t.startswith('std::shared_ptr<') or t.startswith('std::unique_ptr<'):
            return self.point(v, st)
        return st

    def inloopvar(self, v):
        return v.get('is') == 'range'

    def pointer_object(self, v):
        i = strip(v['init']) if v.get('init') is not None else None
        return i is not None and i['k'] == 'new'

    def point(self, v, st):
        i = v.get('init')
        while i is not None and i['k'] in ('cast', 'copy'):
            i = i['e']
        if i is not None and i['k'] == 'call' and i.get('q') in ('std::make_shared', 'std::make_unique'):
            q = (i.get('ta') or [''])[0]
            if q in self.P.records and not i.get('args'):
                g = self.M.default_ctor(q)
                self.tracked[v['id']] = q
                st = frozenset(x for x in st if x[0] != v['id'])
                R = self.P.records[q]
                if g is not None and g.get('implicit') or g is None:
                    return st | self.leaves_of((v['id'],))       # value-initialised
                return st | {(v['id'],) + x for x in self.M.ctor_sets(q, g)}
            if q in self.P.records:
                g = self.ctor_by_args(q, i.get('args', []))
                if g is not None:
                    self.tracked[v['id']] = q
                    st = frozenset(x for x in st if x[0] != v['id'])
                    return st | {(v['id'],) + x for x in self.M.ctor_sets(q, g)}
        return st | {(v['id'],)}

    def ctor_by_args(self, q, args):
        c = [f for f in self.M.cls.get(q, []) if f.get('ctor') and len(f['params']) == len(args) and not f.get('implicit')]
        if len(args) == 1 and q in args[0].get('t', ''):
            return None
        return c[0] if len(c) == 1 else None

    def object_init(self, p, t, e):
        """leaves set by initialising an object of type t at p with e"""
        R = self.M.record(t) if not scalar(t) else None
        if R is None:
            return frozenset()
        L = frozenset(p + x for x in self.M.leaves(R['q']))
        while isinstance(e, dict) and e['k'] == 'cast':
            e = e['e']
        if isinstance(e, dict) and e['k'] == 'ctor' and e.get('rec', '').split('<')[0] == R['q'].split('<')[0]:
            g = self.P.lookup(e['f'], self.variant) if 'f' in e else None
            if e.get('args') and g is None:
                return L
            if g is None and e.get('list'):
                return L
            if g is not None and len(g['params']) == 1 and R['q'] in g['params'][0]['t']:
                return L
            return frozenset(p + x for x in self.M.ctor_sets(R['q'], g))
        return L

    def escape(self, e, st):
        p = self.path(e)
        return self.assigned(p, st) if p is not None and p != ('this',) else (st | self.own if p == ('this',) and not self.isctor else st)

    def ev(self, e, st):
        if e is None or st is None or 'k' not in e:
            return st
        k = e['k']
        if k == 'cast' and e.get('t') == 'void':
            return st
        if k == 'bin' and e['op'] == '=' or k == 'call' and e.get('oper') == '=':
            a, b = assign_parts(e)
            if a is not None:
                p = self.path(a)
                st = self.ev(b, st)
                if st is None:
                    return None
                if p is not None and self.leaves_of(p):
                    R = self.leaves_of(p)
                    return self.assigned(p, st)
                return self.ev(a, st)
        if k == 'un' and e['op'] == '&':
            p = self.path(e['e'])
            if p is not None:
                return self.escape(e['e'], st)
        if k in ('ref', 'mem'):
            p = self.path(e)
            if p is not None and self.leaves_of(p):
                self.read(p, st, e)
                return st
            if k == 'mem':
                return self.ev(e['base'], st)
            return st
        if k == 'lambda':
            for c in e.get('caps', []):
                if isinstance(c, dict):
                    st = self.assigned((c.get('id'),), st) if c.get('id') in self.tracked else st
            for x in walk(e):
                if x['k'] == 'ref' and x.get('id') in self.tracked:
                    st = self.assigned((x['id'],), st)
            return st
        if k == 'call':
            self.throws(e, st)
            st = self.call(e, st)
            self.throws(e, st)
            return st
        if k == 'ctor':
            self.throws(e, st)
            return self.args(e, st)
        return super().ev(e, st)

    def args(self, e, st):
        pts = e.get('pt', [])
        for i, a in enumerate(e.get('args', [])):
            if a is None:
                continue
            pt = pts[i] if i < len(pts) else ''
            p = self.path(a)
            if p is not None and self.leaves_of(p) and pt.startswith('&') and 'const' not in pt:
                std = e.get('q', '').startswith('std::') and e.get('n') in ('make_tuple', 'make_pair', 'make_shared', 'emplace_back', 'push_back', 'emplace', 'insert', 'max', 'min', 'operator<<', 'move', 'forward', 'swap', 'to_string')
                if std or pt.startswith('&&'):
                    self.read(p, st, a)
                st = self.assigned(p, st)
                continue
            if p is not None and len(self.leaves_of(p)) > 1 and p != ('this',):
                # whole object by value, const reference or pointer: set up elsewhere from here on
                st = self.assigned(p, st) if '*' in pt or pt.startswith('&') or 'ptr' in pt else st
                continue
            st = self.ev(a, st)
            if st is None:
                return None
        return st

    def call(self, e, st):
        o = e.get('obj')
        g = self.P.lookup(e['f'], self.variant) if 'f' in e else None
        if optional(e):
            return st
        st = self.args(e, st)
        if st is None:
            return None
        if o is not None and e.get('n') in ('store', 'exchange') and o.get('t', '').startswith('std::atomic<'):
            p = self.path(o)
            if p is not None and self.leaves_of(p) == {p}:
                return self.assigned(p, st)
        if o is not None and g is not None and g.get('cls'):
            p = self.path(o)
            if p is not None and (p == ('this',) or self.leaves_of(p) or (p[0] in self.tracked and self.tracked[p[0]])):
                needs, sets = self.M.method(g)
                for x in sorted(needs):
                    if p + x in self.leaves_of(p):
                        self.need(p + x, st, e, short(g['q']))
                return st | {p + x for x in sets if p + x in self.leaves_of(p)}
            return self.ev(o, st)
        if o is not None:
            p = self.path(o)
            if p is not None and self.leaves_of(p) and not e.get('const', False):
                if self.leaves_of(p) == {p}:
                    self.read(p, st, e)
                    return st
                return self.assigned(p, st)
            st = self.ev(o, st)
        elif e.get('fe') is not None:
            st = self.ev(e['fe'], st)
        elif g is not None and g.get('cls') == self.f.get('cls') and not g.get('static') and self.own and g.get('cls'):
            pass
        q = e.get('q')
        if q in ('exit', 'std::exit', 'abort', 'std::abort', 'std::terminate', '_exit'):
            return None
        return st

    def omp(self, n, st):
        return super().omp(n, st)


def run(P, c, tier):
    G = CallGraph(P)
    M = Model(P, G)

    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        c.saw(f)
        if f.get('b') is None:
            continue
        bad = []

        def report(fn, line, name, via):
            bad.append((fn, line, name, via))
        if f.get('ctor'):
            M.analyse(f, ctor=f['cls'], report=report)
        else:
            M.analyse(f, report=report)
        n = sum(1 for x in walk(f['b']) if x['k'] == 'var')
        for x in walk(f['b']):
            if x['k'] == 'var' and (scalar(x.get('t', '')) and x.get('init') is None or M.record(x.get('t', '')) is not None and not x.get('t', '').startswith('&')):
                c.ok('variable', f.where(x['l']) + ' ' + str(x.get('n')))
        for fn, line, name, via in bad:
            c.violation('read before assignment', fn, line, '%s is read%s although it has no value on some path' % (name, ' by %s' % via if via else ''), tag=name.split('.')[-1] + (' ' + via if via else ''))
        if f.get('ctor'):
            c.ok('constructor', f.where())
    singletons(P, c, G, M)
    never_set(P, c, M)
    c.floor('variable', 60)
    c.floor('constructor', 20)


def never_set(P, c, M):
    """members no constructor sets: something has to give them a value; an atomic one, read by other threads, must have it after construction"""
    taken, values, plainly = {}, {}, set()
    for h in P.functions.values():
        if h.get('b') is None or h['file'].startswith('drivers'):
            continue
        plain = set()
        for x in walk(h['b']):
            if x['k'] in ('bin', 'call') and is_assign(x):
                a, b = assign_parts(x)
                a = strip(a) if a is not None else None
                if a is not None and a['k'] == 'mem':
                    plain.add(id(a))
                    if x.get('op', x.get('oper')) == '=':
                        values.setdefault((a.get('rec'), a['n']), h)
            elif x['k'] == 'un' and x.get('op') in ('++', '--', 'post++', 'post--'):
                a = strip(x.get('e'))
                if a is not None and a['k'] == 'mem':
                    plain.add(id(a))
            elif x['k'] == 'un' and x.get('op') == '&':
                for a in walk(x.get('e')):
                    if a['k'] == 'mem':
                        taken.setdefault((a.get('rec'), a['n']), h)
            elif x['k'] in ('call', 'ctor'):
                pt = x.get('pt') or []
                for i, a in enumerate(x.get('args') or []):
                    t = pt[i] if i < len(pt) else '&'
                    a = strip(a) if a is not None else None
                    if t.startswith('&') and a is not None and a['k'] == 'mem' and not (x.get('oper') or t.startswith('&const')):
                        taken.setdefault((a.get('rec'), a['n']), h)
            elif x['k'] == 'var' and x.get('t', '').startswith('&'):
                a = strip(x['init']) if x.get('init') is not None else None
                if a is not None and a['k'] == 'mem':
                    taken.setdefault((a.get('rec'), a['n']), h)
        plainly |= plain
    used = {}
    for h in P.functions.values():
        if h.get('b') is None or h['file'].startswith('drivers'):
            continue
        for x in walk(h['b']):
            if x['k'] == 'mem' and id(x) not in plainly:
                used.setdefault((x.get('rec'), x['n']), (h, x['l']))
    for q, R in sorted(P.records.items()):
        if R.get('lambda') or not any(f.get('b') is not None for f in M.cls.get(q, [])):
            continue
        ct = [f for f in M.cls[q] if f.get('ctor') and f['file'] == R.get('file', f['file']) and not (len(f['params']) == 1 and f.get('implicit'))]
        sets = None
        for f in ct:
            if f.get('implicit') or f.get('b') is not None:
                s = M.ctor_sets(q, f)
                sets = s if sets is None else sets & s
        if sets is None:
            sets = M.ctor_sets(q, None) if not ct else None
        if sets is None:
            continue
        for fl in R['fields']:
            if fl.get('static') or not scalar(fl['t']):
                continue
            k = (q, fl['n'])
            c.ok('member', q + '.' + fl['n'])
            if (fl['n'],) in sets or k not in used or k in taken:
                continue
            h, l = used[k]
            if 'std::atomic<' in fl['t']:
                c.violation('read before assignment', h, l, '%s of %s is shared between threads and has no value after construction' % (fl['n'], q), tag=fl['n'])
            elif k not in values:
                c.violation('read before assignment', h, l, '%s of %s never gets a value' % (fl['n'], q), tag=fl['n'])
    c.floor('member', 60)


def singletons(P, c, G, M):
    """the one object a class hands out: members without a value after construction must be set by every program that reads them"""
    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        if not f.get('static') or not f.get('cls') or f.get('b') is None:
            continue
        q = f['cls']
        made = [y for x in walk(f['b']) if x['k'] == 'var' and x.get('static') and x.get('init') is not None
                for y in walk(x['init']) if y['k'] == 'ctor' and y.get('rec') == q]
        if not made:
            continue
        g = P.lookup(made[0]['f'], sorted(f['variants'])[0]) or M.default_ctor(q)
        unset = M.leaves(q) - M.ctor_sets(q, g)
        for x in sorted(M.leaves(q)):
            c.ok('singleton member', q + '.' + '.'.join(x))
        reads, writes, opts = {}, {}, {}
        for h in P.functions.values():
            if h.get('b') is None or h['file'].startswith('drivers'):
                continue
            w = set()
            for x in walk(h['b']):
                if x['k'] in ('bin', 'call') and is_assign(x) and x.get('op', x.get('oper')) == '=':
                    a = strip(assign_parts(x)[0])
                    if a is not None and a['k'] == 'mem' and a.get('rec') == q:
                        w.add(id(a))
                        writes.setdefault(a['n'], set()).add(h['key'])
                elif x['k'] == 'call' and 'CmdlineParser::add_' in x.get('q', ''):
                    for a in x.get('args', []):
                        a = strip(a) if a is not None else None
                        if a is not None and a['k'] == 'mem' and a.get('rec') == q:
                            w.add(id(a))
                            (opts if optional(x) else writes).setdefault(a['n'], set()).add(h['key'])
            for x in walk(h['b']):
                if x['k'] == 'mem' and x.get('rec') == q and id(x) not in w:
                    reads.setdefault(x['n'], []).append((h, x['l']))
        for x in sorted(unset):
            n = x[0]
            for m in sorted(P.functions.values(), key=lambda h: h['key']):
                if m['n'] != 'main' or m['file'].startswith('drivers'):
                    continue
                R = set(G.reach([m['key']])) | {m['key']}
                r = [(h, l) for h, l in reads.get(n, []) if h['key'] in R]
                if r and (m['key'] in opts.get(n, ()) or not writes.get(n, set()) & R):
                    c.violation('read before assignment', r[0][0], r[0][1], '%s of %s is read although neither its constructor nor the program in %s is sure to set it'
                                % (n, q, m['file']), tag=n)
                    break
    c.floor('singleton member', 20)
