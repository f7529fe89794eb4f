"""Forward abstract interpretation of the resolved program with a symbolic
value domain, a store log (read-over-write with may-alias stops) and guard
facts.  Branches partition the trace, merges above a bound join (facts are
intersected, differing values become unknown), loop bodies are analysed once
from a state in which everything the loop may write is unknown, calls to
functions of the repository are inlined, everything else is uninterpreted."""
import itertools
import re
from .terms import *
from .program import AnalysisBroken, children, walk

_uid = itertools.count(1)


def fresh(name):
    return ('s', name, next(_uid))


class Log:
    __slots__ = ('parent', 'kind', 'path', 'val', 'uid', 'depth')
    reg = {}

    def __init__(self, parent, kind, path, val):
        self.parent, self.kind, self.path, self.val = parent, kind, path, val
        self.uid = next(_uid)
        self.depth = 0 if parent is None else parent.depth + 1
        Log.reg[self.uid] = self


class State:
    __slots__ = ('env', 'log', 'facts', 'locks', 'loops', 'omp', 'aux')

    def __init__(self):
        self.env = {}
        self.log = Log(None, 'root', None, None)
        self.facts = Facts()
        self.locks = ()
        self.loops = ()
        self.omp = ()
        self.aux = {}

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.log = self.log
        s.facts = self.facts
        s.locks = self.locks
        s.loops = self.loops
        s.omp = self.omp
        s.aux = dict(self.aux)
        return s


def scalar_type(t):
    t = t.lstrip('&').replace('const ', '')
    if t == 'bool' or (t[:1] in 'iuf' and t[1:].isdigit()):
        return True
    if t.endswith('*') or t.startswith(('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr')):
        return True
    if '(lambda' in t or t.startswith(('__gnu_cxx::__normal_iterator', 'std::function', 'std::_')):
        return True
    return False


def is_ref(t):
    return t.startswith('&')


def unsigned_type(t):
    t = t.lstrip('&').replace('const ', '')
    return t == 'bool' or (t[:1] == 'u' and t[1:].isdigit())


class Event:
    __slots__ = ('kind', 'name', 'obj', 'args', 'facts', 'fn', 'line', 'stack', 'loops', 'omp', 'locks', 'log', 'node', 'extra', 'seq', 'state', 'flags')

    def __repr__(self):
        return '%s:%s %s %s(%s)' % (self.fn['file'], self.line, self.kind, self.name,
                                    ', '.join(show(a) for a in self.args if a is not None))

    def where(self):
        return '%s:%s (%s)' % (self.fn['file'], self.line, self.fn['q'])

    def path(self):
        return ' > '.join('%s:%s' % (f['q'], l) for f, l in self.stack)


class Frame:
    __slots__ = ('fn', 'id', 'this', 'stack', 'variant')

    def __init__(self, fn, this, stack, variant):
        self.fn, self.this, self.stack, self.variant = fn, this, stack, variant
        self.id = next(_uid)


READ_ARGS = {'make_pair', 'make_tuple', 'make_shared', 'make_unique', 'emplace', 'emplace_back', 'emplace_front', 'forward', 'ref', 'cref', 'async',
             'pair', 'tuple', 'min', 'max', 'to_string', 'try_emplace', 'thread'}


class Budget(Exception):
    pass


class Interp:
    def __init__(self, prog, variant='seq', prims=None, maxstates=40, inline_depth=8, budget=400000, noinline=None, forkret=6):
        self.P = prog
        self.variant = variant
        self.prims = prims or []
        self.maxstates = maxstates
        self.inline_depth = inline_depth
        self.budget = budget
        self.steps = 0
        self.events = []
        self.noinline = noinline or (lambda f, node: False)
        self.forkret = forkret
        self.seqno = itertools.count()
        self.on_event = None
        self.visited = set()
        self.loopvars = {}          # symbol of a loop-carried local -> (local, value at loop entry, loop)

    def varname(self, vid):
        m = self.P.__dict__.get('_varnames')
        if m is None:
            m = self.P._varnames = {}
            for f in self.P.functions.values():
                for p in f['params']:
                    m[p['id']] = p['n']
                if f.get('b') is None:
                    continue
                for x in walk(f['b']):
                    if x['k'] in ('var', 'decomp') and 'id' in x:
                        m[x['id']] = x.get('n', '?')
                    if x['k'] == 'forrange' and 'id' in x['var']:
                        m[x['var']['id']] = x['var'].get('n', '?')
        return m.get(vid, '?')

    # ------------------------------------------------------------ events
    def emit(self, st, fr, node, kind, name, obj=None, args=(), extra=None):
        e = Event()
        e.kind, e.name, e.obj, e.args = kind, name, obj, tuple(args)
        e.facts, e.fn, e.line = st.facts, fr.fn, node.get('l') if node else None
        e.stack, e.loops, e.omp, e.locks, e.log = fr.stack + ((fr.fn, e.line),), st.loops, st.omp, st.locks, st.log
        e.node, e.extra = node, extra
        e.seq = next(self.seqno)
        e.state = st.aux
        self.events.append(e)
        if self.on_event:
            self.on_event(e, st)
        return e

    # ------------------------------------------------------------ memory
    def same_index(self, a, b, st):
        if a == '*' or b == '*' or a == b:
            return 'eq'
        d = sub(num(a), num(b))
        c, r = parts(d)
        if not r:
            return 'no' if c else 'eq'
        if st is not None:
            e = eq0(d)
            if e in st.facts.atoms:
                return 'eq'
            if neg(e) in st.facts.atoms or st.facts.implies(neg(e), depth=1):
                return 'no'
        return 'may'

    def distinct_roots(self, a, b):
        if a == b:
            return False
        ka, kb = a[0], b[0]
        if ka in ('v', 't') or kb in ('v', 't'):
            return True
        if ka == 'g' or kb == 'g':
            return True
        if ka == 'p' and kb == 'p':
            ta, tb = a[1], b[1]
            if ta[0] == 's' and ta[1].startswith('new ') or tb[0] == 's' and tb[1].startswith('new '):
                return True
            if ta[0] == 's' and ta[1].startswith('arg:') and tb[0] == 's' and tb[1].startswith('arg:') and \
                    ta[1].rsplit(':', 1)[-1] != tb[1].rsplit(':', 1)[-1]:
                return True     # parameters of different pointee types
        return False

    def rel(self, sp, path, st):
        """relation of a stored path to a read path"""
        (r1, s1), (r2, s2) = sp, path
        if r1 != r2:
            if self.distinct_roots(r1, r2):
                return 'no'
            may = True
        else:
            may = False
        n = min(len(s1), len(s2))
        for x, y in zip(s1[:n], s2[:n]):
            if x[0] != y[0]:
                return 'no'
            if x[0] == 'f':
                if x[1] != y[1]:
                    return 'no'
            else:
                r = self.same_index(x[1], y[1], st)
                if r == 'no':
                    return 'no'
                if r == 'may':
                    may = True
        if may:
            if r1 != r2 and not (set(x for x in s1 if x[0] == 'f') & set(x for x in s2 if x[0] == 'f')):
                # objects reached through unrelated pointers, no common field
                if s1 and s2:
                    return 'no'
            return 'may'
        if len(s1) == len(s2):
            return 'eq'
        return 'prefix' if len(s1) < len(s2) else 'sub'

    def read_log(self, path, log, st=None):
        n = log
        while n is not None:
            k = n.kind
            if k == 'store':
                r = self.rel(n.path, path, st)
                if r == 'eq':
                    return n.val
                if r == 'prefix':
                    return self.proj(n.val, path[1][len(n.path[1]):], st)
                if r in ('may', 'sub'):
                    return ('ld', path, n.uid)
            elif k == 'havocf':
                if any(s[0] == 'f' and s[1] in n.val for s in path[1]):
                    return ('ld', path, n.uid)
            elif k == 'havocp':
                if self.rel(n.path, path, st) != 'no':
                    return ('ld', path, n.uid)
            elif k == 'havocelem':   # elements, not the size
                if self.rel(n.path, path, st) in ('prefix', 'may', 'eq') and not (path[1] and path[1][-1] == ('f', '#size') and len(path[1]) == len(n.path[1]) + 1):
                    return ('ld', path, n.uid)
            n = n.parent
        return ('ld', path, 0)

    def proj(self, v, steps, st=None):
        if not steps:
            return v
        k = v[0]
        s = steps[0]
        if k == 'obj':
            for f, x in v[2]:
                if s == ('f', f):
                    return self.proj(x, steps[1:], st)
        if k == 'snap':
            p = (v[1][0], v[1][1] + tuple(steps))
            return self.read_log(p, Log.reg[v[2]], st)
        if k == 'vec':
            if s == ('f', '#size'):
                return v[1]
            if s[0] == 'i' and v[2] is not None:
                return self.proj(v[2], steps[1:], st)
        if k == 'vecl':
            if s == ('f', '#size'):
                return C(len(v[1]))
            if s[0] == 'i' and isinstance(s[1], tuple) and s[1][0] == 'c' and 0 <= s[1][1] < len(v[1]):
                return self.proj(v[1][s[1][1]], steps[1:], st)
        return ('ld', (('p', v), tuple(steps)), 0)

    def read(self, st, path):
        root, steps = path
        if root[0] == 'v' and not steps:
            v = st.env.get(root[1])
            if v is not None and v[0] == 'ref':
                return self.read(st, v[1])
            if v is not None:
                return v
            return ('snap', path, st.log.uid)
        v = self.read_log(path, st.log, st)
        return v

    def typed_read(self, st, path, t):
        v = self.read(st, path)
        if v[0] == 'ld' and not scalar_type(t):
            return ('snap', path, st.log.uid)
        if unsigned_type(t) and v[0] in ('ld', 's'):
            mark_unsigned(v)
        return v

    def store(self, st, path, val):
        root, steps = path
        if root[0] == 'v' and not steps:
            cur = st.env.get(root[1])
            if cur is not None and cur[0] == 'ref':
                return self.store(st, cur[1], val)
            if root[1] in st.env:
                st.env[root[1]] = val
                return
        st.log = Log(st.log, 'store', path, val)

    def havoc_path(self, st, path):
        root, steps = path
        if root[0] == 'v' and not steps and root[1] in st.env:
            cur = st.env[root[1]]
            if cur[0] == 'ref':
                return self.havoc_path(st, cur[1])
            n = fresh(root[2] if len(root) > 2 else 'v')
            if cur in _unsigned_ref():
                mark_unsigned(n)
            st.env[root[1]] = n
            return
        st.log = Log(st.log, 'havocp', path, None)

    def havoc_elems(self, st, path):
        st.log = Log(st.log, 'havocelem', path, None)

    # ------------------------------------------------------------ joins
    def join(self, a, b):
        if a is b:
            return a
        s = State()
        s.locks = a.locks if a.locks == b.locks else tuple(x for x in a.locks if x in b.locks)
        s.loops, s.omp = a.loops, a.omp
        s.facts = a.facts.inter(b.facts)
        s.aux = a.aux if a.aux == b.aux else {k: a.aux.get(k) if a.aux.get(k) == b.aux.get(k) else self.join_aux(k, a.aux.get(k), b.aux.get(k)) for k in set(a.aux) | set(b.aux)}
        for k in a.env:
            if k in b.env:
                x, y = a.env[k], b.env[k]
                if x == y:
                    s.env[k] = x
                elif x[0] == 'ref' or y[0] == 'ref':
                    s.env[k] = fresh('refphi')
                else:
                    v = fresh('phi')
                    if (x in _unsigned_ref() or x[0] == 'c' and x[1] >= 0) and (y in _unsigned_ref() or y[0] == 'c' and y[1] >= 0):
                        mark_unsigned(v)
                    s.env[k] = v
            else:
                s.env[k] = a.env[k]
        for k in b.env:
            if k not in a.env:
                s.env[k] = b.env[k]
        # logs: common ancestor, then forget what either branch wrote
        x, y = a.log, b.log
        sx, sy = [], []
        while x is not y:
            if x.depth >= y.depth:
                sx.append(x)
                x = x.parent
            else:
                sy.append(y)
                y = y.parent
        log = x
        done = set()
        for n in reversed(sx + sy):
            key = (n.kind, n.path, frozenset(n.val) if n.kind == 'havocf' else None)
            if key in done:
                continue
            done.add(key)
            if n.kind == 'store':
                log = Log(log, 'havocp', n.path, None)
            else:
                log = Log(log, n.kind, n.path, n.val)
        # values both sides agree on survive
        if sx and sy:
            for n in sx:
                if n.kind == 'store' and any(m.kind == 'store' and m.path == n.path for m in sy):
                    va = self.read_log(n.path, a.log)
                    vb = self.read_log(n.path, b.log)
                    if va == vb:
                        log = Log(log, 'store', n.path, va)
        s.log = log
        return s

    def join_aux(self, k, a, b):
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            return a & b
        return None

    def limit(self, outs):
        """outs: list of (state, flow)"""
        if len(outs) <= self.maxstates:
            return outs
        groups = {}
        for st, fl in outs:
            groups.setdefault(fl if fl is None or isinstance(fl, str) else ('ret', fl[1]), []).append(st)
        # first merge states that differ in facts only
        res = []
        for fl, sts in groups.items():
            by = {}
            for s in sts:
                by.setdefault((s.log.uid, tuple(sorted(s.env.items(), key=lambda x: str(x[0]))), s.locks), []).append(s)
            ms = []
            for g in by.values():
                m = g[0]
                for o in g[1:]:
                    m = self.join(m, o)
                ms.append(m)
            res += [(m, fl) for m in ms]
        if len(res) <= self.maxstates:
            return res
        groups = {}
        for st, fl in res:
            groups.setdefault(fl if fl is None or isinstance(fl, str) else 'ret', []).append((st, fl))
        res = []
        per = max(2, self.maxstates // (2 * len(groups)))
        for k, l in groups.items():
            while len(l) > per:
                n = []
                for i in range(0, len(l), 2):
                    if i + 1 < len(l):
                        (a, fa), (b, fb) = l[i], l[i + 1]
                        fl = fa
                        if k == 'ret' and fa != fb:
                            fl = ('ret', self.joinval(fa[1], fb[1]))
                        n.append((self.join(a, b), fl))
                    else:
                        n.append(l[i])
                l = n
            res += l
        return res

    def joinval(self, a, b):
        if a == b:
            return a
        if a is not None and b is not None and a[0] == 'obj' and b[0] == 'obj' and len(a[2]) == len(b[2]):
            return ('obj', a[1], tuple((f, self.joinval(x, y)) for (f, x), (_, y) in zip(a[2], b[2])))
        return fresh('phi')

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('analysis budget exceeded')

    # ------------------------------------------------------------ running
    def run(self, fn, this=None, args=None, state=None, setup=None):
        st = state or State()
        fr = Frame(fn, None, (), self.variant)
        if fn.get('cls') and not fn.get('static') and not fn.get('lambda'):
            fr.this = this or (('p', ('s', 'arg:this:' + fn['cls'], 0)), ())
        for i, p in enumerate(fn['params']):
            key = (fr.id, p['id'])
            if args and i < len(args) and args[i] is not None:
                st.env[key] = args[i]
                continue
            nm = 'arg:%s:%s' % (p['n'], p['t'].lstrip('&').replace('const ', ''))
            sym = ('s', nm, 0)
            if unsigned_type(p['t']):
                mark_unsigned(sym)
            if is_ref(p['t']) or not scalar_type(p['t']):
                if scalar_type(p['t']):
                    # a reference to a scalar: a location of its own
                    st.env[key] = ('ref', (('p', sym), ()))
                else:
                    st.env[key] = ('ref', (('p', sym), ()))
            else:
                st.env[key] = sym
        if setup:
            setup(self, st, fr)
        outs = self.call_body(fn, fr, st)
        for s, v in outs:
            self.emit(s, fr, {'l': fn.get('endl')}, 'exit', fn['q'], args=[v] if v is not None else [])
        return outs

    def call_body(self, fn, fr, st):
        self.visited.add(fn['key'])
        sts = [st]
        if fn.get('inits') is not None:
            for I in fn['inits']:
                nxt = []
                for s in sts:
                    if 'fld' in I:
                        target = (fr.this[0], fr.this[1] + (('f', I['fld']),))
                        for s2, v in self.ev(I['e'], s, fr):
                            self.store(s2, target, v)
                            if I.get('written'):
                                self.emit(s2, fr, I['e'] if isinstance(I['e'], dict) else {}, 'init', I['fld'], obj=target, args=[v])
                            nxt.append(s2)
                    elif I.get('delegating') or 'base' in I:
                        nxt += self.base_init(I, s, fr)
                    else:
                        nxt.append(s)
                sts = nxt
        res = []
        for s in sts:
            for s2, fl in self.exec(fn['b'], s, fr):
                if isinstance(fl, tuple):
                    res.append((s2, fl[1]))
                else:
                    res.append((s2, None))
        return res

    def base_init(self, I, st, fr):
        e = I['e']
        if e and e.get('k') == 'ctor':
            f = self.P.lookup(e['f'], self.variant)
            if f and len(fr.stack) < self.inline_depth:
                outs = []
                for s, args in self.eval_args(e, st, fr):
                    nfr = Frame(f, fr.this, fr.stack + ((fr.fn, e['l']),), self.variant)
                    self.bind(f, nfr, s, args, e)
                    for s2, v in self.call_body(f, nfr, s):
                        outs.append(s2)
                return outs
        return [st]

    # ------------------------------------------------------------ statements
    def exec(self, n, st, fr):
        self.tick()
        if n is None:
            return [(st, None)]
        k = n['k']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise AnalysisBroken('statement kind %s' % k)
        return m(n, st, fr)

    def x_null(self, n, st, fr):
        return [(st, None)]

    def x_expr(self, n, st, fr):
        return [(s, None) for s, v in self.ev(n['e'], st, fr)] if n['e'] else [(st, None)]

    def x_block(self, n, st, fr):
        outs = []
        cur = [st]
        for c in n['b']:
            if c is None or c['k'] == 'null':
                continue
            nxt = []
            for s in cur:
                for s2, fl in self.exec(c, s, fr):
                    if fl is None:
                        nxt.append((s2, None))
                    else:
                        outs.append((s2, fl))
            nxt = self.limit(nxt)
            cur = [s for s, _ in nxt]
            if not cur:
                break
        return self.limit(outs + [(s, None) for s in cur])

    def x_decl(self, n, st, fr):
        sts = [st]
        for d in n['d']:
            nxt = []
            for s in sts:
                nxt += self.declare(d, s, fr)
            sts = nxt
        return [(s, None) for s in sts]

    def declare(self, d, st, fr):
        key = (fr.id, d['id'])
        root = ('v', key, d['n'])
        t = d['t']
        if d['k'] == 'decomp':
            outs = []
            init = d.get('init')
            for s, v, path in self.ev_either(init, st, fr):
                if is_ref(t) and path is not None:
                    base = path
                else:
                    base = (root, ())
                    if v is None:
                        v = self.read(s, path)
                    s.log = Log(s.log, 'store', base, v)
                for b in d['b']:
                    stp = self.decomp_step(b, t)
                    p = (base[0], base[1] + (stp,))
                    for bid in (b['id'], b.get('hid')):
                        if bid is None:
                            continue
                        s.env[(fr.id, bid)] = ('ref', p)
                    if unsigned_type(b['t']):
                        x = self.read(s, p)
                        if x[0] in ('ld', 's', 'app'):
                            mark_unsigned(x)
                outs.append(s)
            return outs
        init = d.get('init')
        if is_ref(t) and init is not None:
            outs = []
            for s, v, path in self.ev_either(init, st, fr):
                if path is None:
                    if scalar_type(t):
                        s.env[key] = v
                        outs.append(s)
                        continue
                    path = (('t', next(_uid)), ())
                    s.log = Log(s.log, 'store', path, v)
                s.env[key] = ('ref', path)
                outs.append(s)
            return outs
        if init is None:
            if scalar_type(t):
                v = fresh('uninit:' + d['n'])
                if unsigned_type(t):
                    mark_unsigned(v)
                st.env[key] = v
            return [st]
        outs = []
        for s, v in self.ev(init, st, fr):
            if scalar_type(t):
                s.env[key] = v
            else:
                s.env.pop(key, None)
                s.log = Log(s.log, 'store', (root, ()), v)
            outs.append(s)
        return outs

    def decomp_step(self, b, t):
        if b.get('fld'):
            return ('f', b['fld'])
        tt = t.lstrip('&').replace('const ', '')
        if tt.startswith('std::pair'):
            return ('f', ('first', 'second')[b['i']])
        return ('f', str(b['i']))

    def x_if(self, n, st, fr):
        sts = [st]
        if n.get('init'):
            sts = [s for s, fl in self.exec(n['init'], st, fr)]
        if n.get('cv'):
            nx = []
            for s in sts:
                nx += self.declare(n['cv'], s, fr)
            sts = nx
        outs = []
        for s in sts:
            for s2, b in self.cond(n['c'], s, fr):
                if b:
                    outs += self.exec(n['a'], s2, fr)
                else:
                    outs += self.exec(n.get('b'), s2, fr)
        return self.limit(outs)

    def x_return(self, n, st, fr):
        e = n.get('e')
        if e is None:
            return [(st, ('ret', None))]
        if is_ref(fr.fn['ret']):
            outs = []
            for s, v, path in self.ev_either(e, st, fr):
                outs.append((s, ('ret', ('ptr', path) if path is not None else v)))
            return outs
        outs = []
        for s, v in self.ev(e, st, fr):
            self.emit(s, fr, n, 'return', fr.fn['q'], args=[v])
            outs.append((s, ('ret', v)))
        return outs

    def x_break(self, n, st, fr):
        return [(st, 'break')]

    def x_continue(self, n, st, fr):
        return [(st, 'continue')]

    def x_for(self, n, st, fr):
        outs = []
        for s, fl in self.exec(n['init'], st, fr) if n.get('init') else [(st, None)]:
            outs += self.loop(n, s, fr, n.get('c'), n['b'], n.get('inc'))
        return self.limit(outs)

    def x_while(self, n, st, fr):
        return self.loop(n, st, fr, n['c'], n['b'], None)

    def x_do(self, n, st, fr):
        return self.loop(n, st, fr, n['c'], n['b'], None, post=True)

    def loop(self, n, st, fr, c, body, inc, post=False):
        st = st.copy()
        outer = st.loops
        self.emit(st, fr, n, 'loop-enter', n['k'])
        self.havoc_mods(n, st, fr)
        st.loops = outer + ((id(n), next(_uid)),)
        exits = []
        entry = [(st.copy(), True)] if post else (self.cond(c, st.copy(), fr) if c else [(st.copy(), True)])
        for s, b in entry:
            if not b:
                exits.append((s, None))
                continue
            self.emit(s, fr, n, 'loop-body', n['k'])
            for s2, fl in self.exec(body, s, fr):
                if fl == 'break':
                    exits.append((s2, None))
                elif isinstance(fl, tuple):
                    exits.append((s2, fl))
                else:
                    if inc:
                        for s3, v in self.ev(inc, s2, fr):
                            self.emit(s3, fr, n, 'loop-next', n['k'])
                            if c and not post:
                                for s4, b4 in self.cond(c, s3.copy(), fr):
                                    pass
                    else:
                        if post:
                            for s4, b4 in self.cond(c, s2, fr):
                                if not b4:
                                    exits.append((s4, None))
                        self.emit(s2, fr, n, 'loop-next', n['k'])
        res = []
        for s, fl in self.limit(exits):
            s.loops = outer
            res.append((s, fl))
            self.emit(s, fr, n, 'loop-exit', n['k'])
        return res

    def x_forrange(self, n, st, fr):
        outs = []
        sts = [st]
        if n.get('init'):
            sts = [s for s, fl in self.exec(n['init'], st, fr)]
        if n['range']['k'] == 'init' and n['var']['k'] == 'var' and 1 <= len(n['range'].get('args') or ()) <= 4:
            # a list written out: one pass per member
            for st in sts:
                live = [(st, None)]
                for a in n['range']['args']:
                    nxt = []
                    for s, fl in live:
                        if fl is not None:
                            nxt.append((s, fl))
                            continue
                        for s1, v, path in self.ev_either(a, s, fr):
                            s1 = s1.copy()
                            key = (fr.id, n['var']['id'])
                            if path is not None and is_ref(n['var']['t']):
                                s1.env[key] = ('ref', path)
                            else:
                                s1.env[key] = v if v is not None else self.read(s1, path)
                            for s2, f2 in self.exec(n['b'], s1, fr):
                                nxt.append((s2, None if f2 == 'continue' else f2))
                    live = self.limit(nxt)
                outs += [(s, None if fl == 'break' else fl) for s, fl in live]
            return self.limit(outs)
        for st in sts:
            for s, v, path in self.ev_either(n['range'], st, fr):
                s = s.copy()
                outer = s.loops
                self.emit(s, fr, n, 'loop-enter', 'forrange')
                self.havoc_mods(n, s, fr)
                s.loops = outer + ((id(n), next(_uid)),)
                exits = [(s.copy(), None)]
                var = n['var']
                b = s.copy()
                rv = v if v is not None else None
                if rv is None and path is not None:
                    r = self.read(b, path)
                    if r[0] in ('range',):
                        rv = r
                if rv is not None and rv[0] == 'range':
                    x = fresh(var['n'])
                    mark_unsigned(x)
                    b.facts = b.facts.add(('app', 'in', x, rv))
                    b.env[(fr.id, var['id'])] = x
                    bl = [b]
                else:
                    k = fresh('#' + var['n'])
                    mark_unsigned(k)
                    if path is None:
                        path = (('t', next(_uid)), ())
                        b.log = Log(b.log, 'store', path, v)
                    ep = (path[0], path[1] + (('i', k),))
                    sz = self.read(b, (path[0], path[1] + (('f', '#size'),)))
                    b.facts = b.facts.add(GT(sz, k))
                    b.facts = b.facts.add(('app', 'elem', k, ('ptr', path)))
                    if var['k'] == 'decomp':
                        for bd in var['b']:
                            stp = self.decomp_step(bd, var['t'])
                            p = (ep[0], ep[1] + (stp,))
                            if is_ref(var['t']):
                                val = ('ref', p)
                            else:
                                val = ('ref', p)
                            for bid in (bd['id'], bd.get('hid')):
                                if bid is not None:
                                    b.env[(fr.id, bid)] = val
                    elif is_ref(var['t']) or not scalar_type(var['t']):
                        if is_ref(var['t']):
                            b.env[(fr.id, var['id'])] = ('ref', ep)
                        else:
                            b.log = Log(b.log, 'store', (('v', (fr.id, var['id']), var['n']), ()), ('snap', ep, b.log.uid))
                    else:
                        x = self.read(b, ep)
                        if unsigned_type(var['t']) and x[0] in ('ld', 's'):
                            mark_unsigned(x)
                        b.env[(fr.id, var['id'])] = x
                    bl = [b]
                for b in bl:
                    self.emit(b, fr, n, 'loop-body', 'forrange')
                    for s2, fl in self.exec(n['b'], b, fr):
                        if fl == 'break':
                            exits.append((s2, None))
                        elif isinstance(fl, tuple):
                            exits.append((s2, fl))
                        else:
                            self.emit(s2, fr, n, 'loop-next', 'forrange')
                for s2, fl in self.limit(exits):
                    s2.loops = outer
                    outs.append((s2, fl))
                    self.emit(s2, fr, n, 'loop-exit', 'forrange')
        return self.limit(outs)

    def x_switch(self, n, st, fr):
        outs = []
        body = n['b']['b'] if n['b']['k'] == 'block' else [n['b']]
        flat = []
        for c in body:
            labels = []
            while c is not None and c['k'] in ('case', 'default'):
                labels.append(c)
                c = c['b']
            flat.append((labels, c))
        consts = []
        for labels, _ in flat:
            for l in labels:
                if l['k'] == 'case':
                    consts.append(l['c'])
        for s, v in self.ev(n['c'], st, fr):
            vals = [self.ev(c, s.copy(), fr)[0][1] for c in consts]
            has_default = False
            for i, (labels, _) in enumerate(flat):
                for l in labels:
                    s2 = s.copy()
                    if l['k'] == 'case':
                        cv = self.ev(l['c'], s2, fr)[0][1]
                        s2.facts = s2.facts.add(EQ(v, cv))
                    else:
                        has_default = True
                        for cv in vals:
                            s2.facts = s2.facts.add(NE(v, cv))
                    cur = [s2]
                    for _, stmt in flat[i:]:
                        nxt = []
                        for q in cur:
                            for q2, fl in self.exec(stmt, q, fr):
                                if fl is None:
                                    nxt.append(q2)
                                elif fl == 'break':
                                    outs.append((q2, None))
                                else:
                                    outs.append((q2, fl))
                        cur = nxt
                    outs += [(q, None) for q in cur]
            if not has_default:
                s2 = s.copy()
                for cv in vals:
                    s2.facts = s2.facts.add(NE(v, cv))
                outs.append((s2, None))
        return self.limit(outs)

    def x_case(self, n, st, fr):
        return self.exec(n['b'], st, fr)

    x_default = x_case
    x_label = x_case

    def x_goto(self, n, st, fr):
        return [(st, None)]

    def x_try(self, n, st, fr):
        outs = self.exec(n['b'], st.copy(), fr)
        for h in n['h']:
            s = st.copy()
            self.havoc_mods(n['b'], s, fr)
            self.emit(s, fr, n, 'catch', 'catch')
            outs += self.exec(h, s, fr)
        return self.limit(outs)

    def x_omp(self, n, st, fr):
        if not n.get('b'):
            self.emit(st, fr, n, 'omp', n['kind'])
            return [(st, None)]
        old = st.omp
        st.omp = old + ((n['kind'], id(n)),)
        if 'parallel' in n['kind']:
            # other threads run the region as well
            self.havoc_mods(n['b'], st, fr)
        self.emit(st, fr, n, 'omp', n['kind'])
        outs = []
        for s, fl in self.exec(n['b'], st, fr):
            s.omp = old
            outs.append((s, fl))
        if 'parallel' in n['kind']:
            pass
        elif n['kind'] in ('single', 'critical', 'master') and not any('critical' in k for k, _ in old):
            outs = [(s, fl) for s, fl in outs]
            s = st.copy()
            s.omp = old
            if n['kind'] in ('single', 'master'):
                self.havoc_mods(n['b'], s, fr)
                outs.append((s, None))
        return self.limit(outs)

    def x_unknown(self, n, st, fr):
        return [(st, None)]

    # ------------------------------------------------------------ loop effects
    def havoc_mods(self, n, st, fr):
        vars_, fields, derefs = self.mods(n, fr.fn)
        down = self.lowered(n)
        for vid in vars_:
            key = (fr.id, vid)
            if key in st.env:
                cur = st.env[key]
                if cur[0] == 'ref':
                    self.havoc_path(st, cur[1])
                elif cur[0] == 'lam':
                    continue
                else:
                    v = fresh('loop')
                    if (cur in _unsigned_ref() or cur[0] == 'c' and cur[1] >= 0) and vid not in down:
                        mark_unsigned(v)
                    st.env[key] = v
                    self.loopvars[v] = (key, cur, id(n))
            else:
                st.log = Log(st.log, 'havocp', (('v', key, self.varname(vid)), ()), None)
        for vid in derefs:
            key = (fr.id, vid)
            cur = st.env.get(key)
            if cur is not None and cur[0] != 'ref':
                st.log = Log(st.log, 'havocp', (cur[1] if cur[0] == 'ptr' else (('p', cur), ())), None)
        if fields:
            st.log = Log(st.log, 'havocf', None, frozenset(fields))

    def mods(self, n, fn):
        """(variables, fields, dereferenced pointers) a statement may write"""
        cache = self.P.__dict__.setdefault('_mods', {})
        key = (id(n), self.variant)
        if key in cache:
            return cache[key][0]
        res = (set(), set(), set())
        self._mods(n, res)
        self.through_refs(n, res)
        cache[key] = (res, n)
        return res

    def through_refs(self, n, res):
        """what is written through references and pointers made in the statement itself"""
        refs, ptrs, decl = {}, {}, set()
        for x in walk(n):
            k = x['k']
            if k == 'var' and 'id' in x:
                t = x.get('t', '')
                if isinstance(x.get('init'), dict):
                    if t.startswith('&') and not t.startswith('&const'):
                        refs[x['id']] = x['init']
                    elif t.endswith('*') and x['init']['k'] == 'un' and x['init'].get('op') == '&':
                        ptrs[x['id']] = x['init']['e']
                decl.add(x['id'])
            elif k == 'decomp':
                t = x.get('t', '')
                for b in x['b']:
                    decl.add(b['id'])
                    if t.startswith('&') and not t.startswith('&const') and isinstance(x.get('init'), dict):
                        refs[b['id']] = x['init']
            elif k == 'forrange' and isinstance(x.get('range'), dict):
                v = x['var']
                t = v.get('t', '')
                for b in [v] + [b for b in (v.get('b') if isinstance(v.get('b'), list) else []) if isinstance(b, dict) and 'id' in b]:
                    if 'id' in b:
                        decl.add(b['id'])
                        if t.startswith('&') and not t.startswith('&const'):
                            refs[b['id']] = x['range']
        if not refs and not ptrs:
            return
        # what is written, declarations aside
        w = (set(), set(), set())
        self._mods(n, w, decls=False)
        done = set()
        while True:
            todo = [i for i in refs if i in w[0] and i not in done] + [i for i in ptrs if i in w[2] and i not in done]
            if not todo:
                break
            for i in todo:
                done.add(i)
                self._lroot(refs[i] if i in refs else ptrs[i], w)
        for a, b in zip(res, w):
            a |= b

    def lowered(self, n):
        """signed variables that a statement does more to than count up"""
        cache = self.P.__dict__.setdefault('_lowered', {})
        if id(n) not in cache:
            r = set()
            for x in walk(n):
                t = x.get('a') if x['k'] == 'assign' or x['k'] == 'bin' and x.get('op', '').endswith('=') and x['op'] not in ('==', '<=', '>=', '!=') else x.get('e') if x['k'] == 'un' and x.get('op') in ('--', '++') else None
                while t is not None and t['k'] in ('cast', 'copy'):
                    t = t['e']
                if t is not None and t['k'] == 'ref' and x.get('op') not in ('++', '+=') and t.get('t', '').lstrip('&') in ('i32', 'i64', 'i16', 'i8'):
                    r.add(t['id'])
            cache[id(n)] = (r, n)
        return cache[id(n)][0]

    def fn_fields(self, f, seen=None):
        cache = self.P.__dict__.setdefault('_fnf', {})
        key = (f['key'], self.variant)
        if key in cache:
            return cache[key]
        cache[key] = set()
        res = (set(), set(), set())
        self._mods(f['b'], res)
        for I in f.get('inits') or []:
            if 'fld' in I:
                pass
            if isinstance(I.get('e'), dict):
                self._mods(I['e'], res)
        cache[key] = res[1]
        return res[1]

    def _lroot(self, e, res):
        """record the location an lvalue expression designates"""
        first = True
        while e is not None:
            k = e['k']
            if k == 'mem':
                res[1].add(e['n'])
                return
            if k == 'ref':
                res[0].add(e['id'])
                return
            if k == 'idx':
                e = e['base']
            elif k == 'un':
                if e['op'] == '*':
                    b = e['e']
                    while b and b['k'] in ('cast', 'copy'):
                        b = b['e']
                    if b and b['k'] == 'ref':
                        res[2].add(b['id'])
                        return
                    e = b
                else:
                    e = e['e']
            elif k in ('cast', 'copy'):
                e = e['e']
            elif k == 'call':
                if e.get('obj') is not None:
                    op = e.get('oper')
                    if op in ('*', '->') or e.get('n') == 'get':
                        b = e['obj']
                        while b and b['k'] in ('cast', 'copy'):
                            b = b['e']
                        if b['k'] == 'ref':
                            res[2].add(b['id'])
                            return
                    e = e['obj']
                elif e.get('args'):
                    for a in e['args']:
                        if a:
                            self._lroot(a, res)
                    return
                else:
                    return
            elif k == 'cond':
                self._lroot(e['a'], res)
                e = e['b']
            elif k == 'bin':
                e = e['a']
            else:
                return

    def _mods(self, n, res, decls=True):
        for x in walk(n):
            k = x['k']
            if k == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                self._lroot(x['a'], res)
            elif k == 'un' and x['op'] in ('++', '--'):
                self._lroot(x['e'], res)
            elif k in ('var', 'decomp'):
                if not decls:
                    continue
                if 'id' in x:
                    res[0].add(x['id'])
                if k == 'decomp':
                    for b in x['b']:
                        res[0].add(b['id'])
            elif k == 'forrange':
                if not decls:
                    continue
                res[0].add(x['var']['id'])
                for b in x['var'].get('b', []) if isinstance(x['var'].get('b'), list) else []:
                    if isinstance(b, dict) and 'id' in b:
                        res[0].add(b['id'])
            elif k == 'lambda':
                for f in self.P.versions(x['f'], self.variant):
                    self._mods(f['b'], res, decls)
            elif k in ('call', 'ctor'):
                f = self.P.lookup(x['f'], self.variant) if 'f' in x else None
                if f:
                    res[1].update(self.fn_fields(f))
                    for o in self.overriders(x, f):
                        res[1].update(self.fn_fields(o))
                pts = x.get('pt', [])
                if x.get('q', '').startswith('std::') and x.get('n') in READ_ARGS:
                    pts = []
                for a, t in zip(x.get('args', []), pts):
                    if a is not None and t.startswith('&') and not t.startswith('&const') and not t.startswith('&&'):
                        self._lroot(a, res)
                    elif a is not None and t.endswith('*') and 'const ' not in t:
                        b = a
                        while b['k'] in ('cast', 'copy'):
                            b = b['e']
                        if b['k'] == 'un' and b['op'] == '&':
                            self._lroot(b['e'], res)
                        elif b['k'] == 'ref':
                            res[2].add(b['id'])
                obj = x.get('obj')
                if obj is not None and not x.get('const') and not x.get('static'):
                    if f is None and x.get('oper') not in ('*', '->', '[]') and x.get('n') not in PURE_METHODS:
                        self._lroot(obj, res)
                if f is None and x.get('q', '').startswith('std::') and x.get('n') in MUT_ALGOS:
                    for a in x.get('args', []):
                        if a is not None:
                            self._lroot(a, res)

    def overriders(self, x, f):
        if not f.get('virt'):
            return []
        ov = self.P.__dict__.get('_ov')
        if ov is None:
            ov = {}
            for g in self.P.functions.values():
                for u in g.get('over', []):
                    ov.setdefault(u, []).append(g)
            self.P._ov = ov
        return ov.get(x['f'], [])

    # ------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        """-> [(state, bool)]"""
        self.tick()
        k = e['k']
        if k == 'un' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(e['e'], st, fr)]
        if k == 'bin' and e['op'] == '&&':
            outs = []
            for s, b in self.cond(e['a'], st, fr):
                if b:
                    outs += self.cond(e['b'], s, fr)
                else:
                    outs.append((s, False))
            return outs
        if k == 'bin' and e['op'] == '||':
            outs = []
            for s, b in self.cond(e['a'], st, fr):
                if b:
                    outs.append((s, True))
                else:
                    outs += self.cond(e['b'], s, fr)
            return outs
        if k == 'cast' and e.get('t') == 'bool':
            inner = e['e']
            if inner['k'] in ('bin', 'un', 'cast') and inner.get('t') == 'bool':
                return self.cond(inner, st, fr)
        outs = []
        for s, v in self.ev(e, st, fr):
            outs += self.assume(s, tobool(v))
        return outs

    def assume(self, st, b):
        """split on a boolean term -> [(state, truth)]"""
        if b == TRUE:
            return [(st, True)]
        if b == FALSE:
            return [(st, False)]
        if b[0] == 'and':
            outs = []
            for s, x in self.assume(st, b[1]):
                if x:
                    outs += self.assume(s, b[2])
                else:
                    outs.append((s, False))
            return outs
        if b[0] == 'or':
            outs = []
            for s, x in self.assume(st, b[1]):
                if x:
                    outs.append((s, True))
                else:
                    outs += self.assume(s, b[2])
            return outs
        nb = neg(b)
        if b in st.facts.atoms or st.facts.implies(b):
            return [(st, True)]
        if nb in st.facts.atoms or st.facts.implies(nb):
            return [(st, False)]
        f = st.copy()
        st.facts = st.facts.add(b)
        f.facts = f.facts.add(nb)
        return [(st, True), (f, False)]

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        """-> [(state, value)]"""
        self.tick()
        if e is None:
            return [(st, ('s', 'none', 0))]
        return getattr(self, 'e_' + e['k'], self.e_other)(e, st, fr)

    def ev_either(self, e, st, fr):
        """-> [(state, value or None, path or None)]: a path when e is an lvalue"""
        r = self.lval(e, st, fr)
        if r is not None:
            return [(s, None, p) if p is not None and not (isinstance(p, tuple) and p and p[0] == 'val') else (s, p[1], None) for s, p in r]
        return [(s, v, None) for s, v in self.ev(e, st, fr)]

    def e_int(self, e, st, fr):
        return [(st, C(int(e['v'])))]

    def e_enum(self, e, st, fr):
        return [(st, C(int(e['v'])))]

    def e_bool(self, e, st, fr):
        return [(st, TRUE if e['v'] else FALSE)]

    def e_float(self, e, st, fr):
        f = float(e['v'])
        if f == int(f):
            return [(st, C(int(f)))]
        return [(st, ('app', 'float', ('c', e['v'])))]

    def e_str(self, e, st, fr):
        return [(st, ('app', 'str', ('c', e['v'])))]

    def e_nullptr(self, e, st, fr):
        return [(st, C(0))]

    def e_zero(self, e, st, fr):
        if scalar_type(e['t']):
            return [(st, FALSE if e['t'] == 'bool' else C(0))]
        return [(st, ('obj', e['t'], ()))]

    def e_this(self, e, st, fr):
        return [(st, ('ptr', fr.this) if fr.this else fresh('this'))]

    def e_fref(self, e, st, fr):
        return [(st, ('fn', e['f'], e['q']))]

    def e_opaque(self, e, st, fr):
        sts = [st]
        for a in e.get('args', []):
            sts = [s2 for s in sts for s2, v in self.ev(a, s, fr)]
        return [(s, fresh('opaque')) for s in sts]

    def e_other(self, e, st, fr):
        raise AnalysisBroken('expression kind %s' % e['k'])

    def e_ref(self, e, st, fr):
        if 'cv' in e:
            return [(st, C(int(e['cv'])) if e['t'].replace('const ', '').lstrip('&') != 'bool' else (TRUE if int(e['cv']) else FALSE))]
        return [(st, self.typed_read(st, self.varpath(e, st, fr), e['t']))]

    def varpath(self, e, st, fr):
        if e.get('global'):
            return (('g', e.get('q', e['n']), e['n']), ())
        key = (fr.id, e['id'])
        v = st.env.get(key)
        if v is None and fr.fn.get('lambda'):
            # captured variable: same id in an enclosing frame
            cap = st.aux.get(('cap', fr.id))
            if cap is not None:
                key = (cap, e['id'])
                v = st.env.get(key)
        if v is not None and v[0] == 'ref':
            return v[1]
        return (('v', key, e['n']), ())

    def e_mem(self, e, st, fr):
        if 'f' in e:
            return [(st, fresh('bound-method'))]
        r = self.lval(e, st, fr)
        return [(s, p[1][-3][1] if p[1][-2:] == (('f', '#node'), ('f', 'first')) else self.typed_read(s, p, e['t'])) for s, p in r]

    def e_idx(self, e, st, fr):
        r = self.lval(e, st, fr)
        return [(s, self.typed_read(s, p, e['t'])) for s, p in r]

    def lval(self, e, st, fr):
        """-> [(state, path)] or None when e is not an lvalue expression.
        A path entry may be ('val', v) for calls that return by value."""
        k = e['k']
        if k == 'ref':
            if 'cv' in e:
                return None
            v = st.env.get((fr.id, e['id'])) if not e.get('global') else None
            return [(st, self.varpath(e, st, fr))]
        if k == 'mem':
            if 'f' in e:
                return None
            outs = []
            for s, p in self.base_path(e['base'], e.get('arrow'), st, fr):
                if p[1] and p[1][-1] == ('f', '#node') and e['n'] == 'second':
                    outs.append((s, (p[0], p[1][:-1])))
                else:
                    outs.append((s, (p[0], p[1] + (('f', e['n']),))))
            return outs
        if k == 'idx':
            outs = []
            b = e['base']
            for s, v, p in self.ev_either(b, st, fr):
                if p is None:
                    p = self.deref(v)
                elif b['t'].endswith('*'):
                    p = self.deref(self.read(s, p))
                for s2, i in self.ev(e['i'], s, fr):
                    outs.append((s2, (p[0], p[1] + (('i', num(i)),))))
            return outs
        if k == 'un':
            if e['op'] == '*':
                return [(s, self.deref(v)) for s, v in self.ev(e['e'], st, fr)]
            if e['op'] in ('++', '--') and not e['post']:
                outs = []
                for s, v in self.e_un(e, st, fr):
                    outs += self.lval(e['e'], s, fr)
                return outs
            return None
        if k == 'bin':
            if e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
                outs = []
                for s, v in self.e_bin(e, st, fr):
                    outs += self.lval(e['a'], s, fr)
                return outs
            return None
        if k in ('cast',):
            if scalar_type(e['t']) and e.get('from') != e.get('t') and not is_ref(e['t']):
                return None
            return self.lval(e['e'], st, fr)
        if k == 'copy':
            return None
        if k == 'this':
            return None
        if k == 'cond':
            outs = []
            for s, b in self.cond(e['c'], st, fr):
                r = self.ev_either(e['a'] if b else e['b'], s, fr)
                for s2, v, p in r:
                    outs.append((s2, p if p is not None else ('val', v)))
            return outs
        if k == 'call' and (is_ref(e.get('ret', '')) or e.get('oper') in ('[]', '*', '->')):
            outs = []
            for s, v in self.call(e, st, fr):
                if v is not None and v[0] == 'ptr':
                    outs.append((s, v[1]))
                elif v is not None and v[0] == 'lv':
                    outs.append((s, v[1]))
                else:
                    outs.append((s, ('val', v)))
            return outs
        return None

    def deref(self, v):
        if v is None:
            v = fresh('void')
        if v[0] == 'ptr':
            return v[1]
        if v[0] == 'it':
            return (v[1][0], v[1][1] + (('i', v[2]),))
        if v[0] == 'app' and v[1] == 'mfind':      # the pair a search in a table found
            op = v[2][1]
            return (op[0], op[1] + (('i', v[3]), ('f', '#node')))
        return (('p', v), ())

    def base_path(self, b, arrow, st, fr):
        """path of the object a member is selected from"""
        if arrow:
            return [(s, self.deref(v)) for s, v in self.ev(b, st, fr)]
        outs = []
        for s, v, p in self.ev_either(b, st, fr):
            if p is None:
                if v[0] == 'snap':
                    # a value: keep reading the snapshot
                    p = (('t', next(_uid)), ())
                    s.log = Log(s.log, 'store', p, v)
                elif v[0] == 'ptr':
                    p = v[1]
                else:
                    p = (('t', next(_uid)), ())
                    s.log = Log(s.log, 'store', p, v)
            outs.append((s, p))
        return outs

    def e_cast(self, e, st, fr):
        outs = []
        t = e['t']
        for s, v in self.ev(e['e'], st, fr):
            if t == 'bool' and e.get('from') != 'bool':
                outs.append((s, tobool(v)))
            elif t == 'void':
                outs.append((s, v))
            else:
                if e.get('from', '').startswith('f') and not t.startswith('f'):
                    if v[0] not in ('c',):
                        v = ('app', 'trunc', num(v))
                if not e.get('impl'):
                    self.emit(s, fr, e, 'cast', t, args=[v])
                outs.append((s, v if not (t != 'bool' and not is_num(v)) else num(v)))
        return outs

    def e_copy(self, e, st, fr):
        outs = []
        for s, v, p in self.ev_either(e['e'], st, fr):
            if p is not None:
                v = self.typed_read(s, p, e['t'])
                if e.get('move') and not scalar_type(e['t']) and False:
                    pass
            outs.append((s, v))
        return outs

    def e_un(self, e, st, fr):
        op = e['op']
        if op in ('++', '--'):
            outs = []
            for s, p in self.lval(e['e'], st, fr):
                old = self.typed_read(s, p, e['e']['t'])
                if old[0] == 'it':
                    new = ('it', old[1], add(old[2], C(1 if op == '++' else -1)))
                else:
                    new = add(old, C(1 if op == '++' else -1))
                self.emit(s, fr, e, 'write', op, obj=p, args=[new, old])
                self.store(s, p, new)
                outs.append((s, old if e['post'] else new))
            return outs
        if op == '&':
            outs = []
            for s, v, p in self.ev_either(e['e'], st, fr):
                if p is not None:
                    outs.append((s, ('ptr', p)))
                else:
                    outs.append((s, v))
            return outs
        if op == '*':
            return [(s, self.typed_read(s, p, e['t'])) for s, p in self.lval(e, st, fr)]
        outs = []
        for s, v in self.ev(e['e'], st, fr):
            if op == '!':
                outs.append((s, neg(tobool(v))))
            elif op == '-':
                outs.append((s, mul(C(-1), v)))
            elif op == '+':
                outs.append((s, v))
            else:
                outs.append((s, ('app', op, num(v))))
        return outs

    ARITH = {'+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'}

    def arith(self, op, a, b, t):
        if a[0] == 'it' or b[0] == 'it':
            if a[0] == 'it' and b[0] == 'it' and op == '-':
                return sub(a[2], b[2]) if a[1] == b[1] else fresh('itdiff')
            if a[0] == 'it' and op in '+-':
                return ('it', a[1], add(a[2], num(b), 1 if op == '+' else -1))
            if b[0] == 'it' and op == '+':
                return ('it', b[1], add(b[2], num(a)))
        a, b = num(a), num(b)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int):
            x, y = a[1], b[1]
            try:
                if op == '/' and not t.startswith('f'):
                    return C(x // y)
                if op == '%':
                    return C(x % y)
                if op == '<<':
                    return C(x << y)
                if op == '>>':
                    return C(x >> y)
                if op == '&':
                    return C(x & y)
                if op == '|':
                    return C(x | y)
            except (ZeroDivisionError, ValueError):
                pass
        if op == '<<' and b[0] == 'c':
            return mul(a, C(1 << b[1]))
        if op == '/' and b == ONE:
            return a
        r = ('app', ('f' if t.startswith('f') and op == '/' else '') + op, a, b)
        if unsigned_type(t) or (a in _unsigned_ref() and b in _unsigned_ref()):
            mark_unsigned(r)
        return r

    def compare(self, op, a, b):
        if a[0] == 'it' and b[0] == 'it':
            if a[1] == b[1]:
                a, b = a[2], b[2]
            else:
                return ne0(fresh('itcmp'))
        if op == '==':
            return EQ(a, b)
        if op == '!=':
            return NE(a, b)
        a, b = num(a), num(b)
        if op == '<':
            return GT(b, a)
        if op == '>':
            return GT(a, b)
        if op == '<=':
            return GE(b, a)
        return GE(a, b)

    def e_bin(self, e, st, fr):
        op = e['op']
        if op == ',':
            return [r for s, v in self.ev(e['a'], st, fr) for r in self.ev(e['b'], s, fr)]
        if op == '=':
            outs = []
            for s, v in self.ev(e['b'], st, fr):
                for s2, p in self.lval(e['a'], s, fr):
                    if p[0] == 'val':
                        outs.append((s2, v))
                        continue
                    if e['a'].get('t') == 'bool':
                        v = tobool(v)
                    old = self.read(s2, p)
                    self.emit(s2, fr, e, 'write', '=', obj=p, args=[v, old])
                    self.store(s2, p, v)
                    outs.append((s2, v))
            return outs
        if op.endswith('=') and op[:-1] in self.ARITH:
            outs = []
            for s, v in self.ev(e['b'], st, fr):
                for s2, p in self.lval(e['a'], s, fr):
                    if p[0] == 'val':
                        outs.append((s2, v))
                        continue
                    old = self.typed_read(s2, p, e['a']['t'])
                    if e['a'].get('t') == 'bool':
                        new = OR(tobool(old), tobool(v)) if op == '|=' else AND(tobool(old), tobool(v)) if op == '&=' else fresh('b')
                    else:
                        new = self.arith(op[:-1], old, v, e['t'])
                    self.emit(s2, fr, e, 'write', op, obj=p, args=[new, old, v])
                    self.store(s2, p, new)
                    outs.append((s2, new))
            return outs
        if op in ('&&', '||'):
            outs = []
            for s, a in self.ev(e['a'], st, fr):
                a = tobool(a)
                if op == '&&' and a == FALSE or op == '||' and a == TRUE:
                    outs.append((s, a))
                    continue
                for s2, b in self.ev(e['b'], s, fr):
                    outs.append((s2, AND(a, tobool(b)) if op == '&&' else OR(a, tobool(b))))
            return outs
        outs = []
        for s, a in self.ev(e['a'], st, fr):
            for s2, b in self.ev(e['b'], s, fr):
                if op in ('<', '>', '<=', '>=', '==', '!='):
                    outs.append((s2, self.compare(op, a, b)))
                else:
                    if op in ('/', '%'):
                        self.emit(s2, fr, e, 'div', op, args=[num(a), num(b)])
                    outs.append((s2, self.arith(op, a, b, e['t'])))
        return outs

    def e_cond(self, e, st, fr):
        if e['t'] == 'void':
            return [(st, fresh('void'))]     # logging macro
        outs = []
        for s, b in self.cond(e['c'], st, fr):
            outs += self.ev(e['a'] if b else e['b'], s, fr)
        return outs

    def e_lambda(self, e, st, fr):
        for c in e['caps']:
            pass
        return [(st, ('lam', e['f'], fr.id, fr))]

    def e_new(self, e, st, fr):
        outs = []
        p = ('s', 'new ' + e['nt'], next(_uid))
        i = e.get('e')
        for s, v in (self.ev(i, st, fr) if i else [(st, None)]):
            if v is not None:
                s.log = Log(s.log, 'store', (('p', p), ()), v)
            self.emit(s, fr, e, 'new', e['nt'], args=[p])
            outs.append((s, p))
        return outs

    def e_delete(self, e, st, fr):
        outs = []
        for s, v in self.ev(e['e'], st, fr):
            self.emit(s, fr, e, 'delete', 'delete', args=[v])
            outs.append((s, v))
        return outs

    def e_throw(self, e, st, fr):
        self.emit(st, fr, e, 'throw', 'throw')
        return []

    def e_init(self, e, st, fr):
        outs = [(st, ())]
        for a in e['args']:
            outs = [(s2, vs + (v,)) for s, vs in outs for s2, v in self.ev(a, s, fr)]
        t = e['t'].replace('const ', '')
        res = []
        rec = self.P.records.get(t)
        for s, vs in outs:
            if rec:
                names = [f['n'] for f in rec['fields']]
                res.append((s, ('obj', t, tuple(zip(names, vs)))))
            elif scalar_type(t) and len(vs) == 1:
                res.append((s, vs[0]))
            elif scalar_type(t) and not vs:
                res.append((s, C(0)))
            else:
                res.append((s, ('vecl', vs)))
        return res

    # ------------------------------------------------------------ calls
    def eval_args(self, e, st, fr, obj=False):
        """-> [(state, [(value, path)])]"""
        pts = e.get('pt', [])
        outs = [(st, [])]
        for i, a in enumerate(e.get('args', [])):
            nxt = []
            t = pts[i] if i < len(pts) else ''
            for s, vs in outs:
                if a is None:
                    nxt.append((s, vs + [(fresh('default'), None)]))
                    continue
                if is_ref(t) or not scalar_type(a.get('t', '')):
                    for s2, v, p in self.ev_either(a, s, fr):
                        if v is None and (scalar_type(a.get('t', ''))):
                            v = self.typed_read(s2, p, a['t'])
                        nxt.append((s2, vs + [(v, p)]))
                else:
                    for s2, v in self.ev(a, s, fr):
                        nxt.append((s2, vs + [(v, None)]))
            outs = nxt
        return outs

    def argval(self, s, a, t='x'):
        v, p = a
        if v is None:
            v = self.typed_read(s, p, t)
        return v

    def bind(self, f, nfr, s, args, e):
        for i, p in enumerate(f['params']):
            key = (nfr.id, p['id'])
            if i >= len(args):
                v = fresh('default:' + p['n'])
                s.env[key] = v
                continue
            v, path = args[i]
            if is_ref(p['t']):
                if path is not None:
                    s.env[key] = ('ref', path)
                elif scalar_type(p['t']):
                    s.env[key] = v
                else:
                    if v is not None and v[0] == 'ptr':
                        s.env[key] = ('ref', v[1])
                    else:
                        tp = (('t', next(_uid)), ())
                        s.log = Log(s.log, 'store', tp, v)
                        s.env[key] = ('ref', tp)
            else:
                if v is None:
                    v = self.typed_read(s, path, p['t'])
                if scalar_type(p['t']):
                    if p['t'] == 'bool':
                        v = tobool(v)
                    s.env[key] = v
                else:
                    root = ('v', key, p['n'])
                    s.log = Log(s.log, 'store', (root, ()), v)

    def e_call(self, e, st, fr):
        outs = []
        for s, v in self.call(e, st, fr):
            if v is None:
                v = fresh('void')
            elif is_ref(e.get('ret', '')) and v[0] == 'ptr':
                v = self.typed_read(s, v[1], e['t'])
            elif v[0] == 'lv':
                v = self.typed_read(s, v[1], e['t'])
            outs.append((s, v))
        return outs

    def call(self, e, st, fr):
        """returns by reference come back as ('ptr', path)"""
        self.tick()
        q = e.get('q')
        if q is None:
            # call through a value
            outs = []
            for s, fv in self.ev(e['fe'], st, fr):
                for s2, args in self.eval_args(e, s, fr):
                    outs += self.invoke_value(fv, e, s2, fr, args)
            return outs
        # object
        if e.get('obj') is not None:
            objs = []
            for s, v, p in self.ev_either(e['obj'], st, fr):
                objs.append((s, v, p))
        else:
            objs = [(st, None, None)]
        outs = []
        for s, ov, op in objs:
            # smart pointers, iterators and lambdas are values
            for s2, args in self.eval_args(e, s, fr):
                outs += self.dispatch(e, s2, fr, ov, op, args)
        return outs if len(outs) <= 2 * self.maxstates else self.join_vals(outs)

    def join_vals(self, outs):
        r = self.limit([(s, ('ret', v)) for s, v in outs])
        return [(s, fl[1]) for s, fl in r]

    def dispatch(self, e, st, fr, ov, op, args):
        q = e['q']
        for pr in self.prims:
            h = pr(self, e, st, fr, ov, op, args)
            if h is not None:
                return h
        h = self.builtin(e, st, fr, ov, op, args)
        if h is not None:
            return h
        f = self.P.lookup(e['f'], self.variant)
        if f is not None and e.get('virt') is True and self.overriders(e, f):
            f = None
        if f is not None and not self.noinline(f, e) and len(fr.stack) < self.inline_depth and \
                all(x['key'] != f['key'] for x, _ in fr.stack) and fr.fn['key'] != f['key']:
            this = None
            if f.get('lambda'):
                v = ov if ov is not None else self.read(st, op)
                return self.invoke_value(v, e, st, fr, args)
            if e.get('obj') is not None:
                if e.get('arrow') or (ov is not None and ov[0] == 'ptr') or (ov is None and op is not None and e['obj'].get('t', '').endswith('*')):
                    v = ov if ov is not None else self.read(st, op)
                    this = self.deref(v)
                elif op is not None:
                    this = op
                else:
                    this = (('t', next(_uid)), ())
                    st.log = Log(st.log, 'store', this, ov)
            return self.inline(f, this, e, st, fr, args)
        return self.unknown_call(e, st, fr, ov, op, args)

    def inline(self, f, this, e, st, fr, args):
        nfr = Frame(f, this, fr.stack + ((fr.fn, e.get('l')),), self.variant)
        self.bind(f, nfr, st, args, e)
        self.emit(st, fr, e, 'enter', f['q'], obj=this, args=[a[0] for a in args])
        loops = st.loops
        outs = self.call_body(f, nfr, st)
        for s, v in outs:
            s.loops = loops
            for k in [k for k in s.env if k[0] == nfr.id]:
                # locals die, unless the returned value still refers to them
                if v is None or v[0] not in ('lam',):
                    del s.env[k]
        if len(outs) > self.forkret:
            r = self.limit_to([(s, ('ret', v)) for s, v in outs], self.forkret)
            outs = [(s, fl[1]) for s, fl in r]
        self.emit(outs[0][0] if outs else st, fr, e, 'leave', f['q'], obj=this)
        return outs

    def limit_to(self, outs, n):
        old = self.maxstates
        self.maxstates = n
        try:
            return self.limit(outs)
        finally:
            self.maxstates = old

    def invoke_value(self, fv, e, st, fr, args):
        if fv is not None and fv[0] == 'lam':
            f = self.P.lambda_of(fv[1], self.variant, fv[3].fn)
            if f is None and e.get('f'):
                f = self.P.lookup(e['f'], self.variant)
            if f is not None and len(fr.stack) < self.inline_depth and all(x['key'] != f['key'] for x, _ in fr.stack):
                cfr = fv[3]
                nfr = Frame(f, cfr.this, fr.stack + ((fr.fn, e.get('l')),), self.variant)
                st.aux = dict(st.aux)
                st.aux[('cap', nfr.id)] = fv[2]
                self.bind(f, nfr, st, args, e)
                return self.call_body(f, nfr, st)
        return self.unknown_call(e, st, fr, None, None, args)

    def unknown_call(self, e, st, fr, ov, op, args):
        q = e.get('q', '?')
        n = e.get('n', '?')
        vals = [self.argval(st, a) for a in args]
        self.emit(st, fr, e, 'call', q, obj=op, args=vals, extra=(ov, args))
        if n in ('exit', 'abort', '_Exit', 'quick_exit', 'terminate'):
            return []
        pts = e.get('pt', [])
        f = self.P.lookup(e['f'], self.variant) if 'f' in e else None
        if f is not None:
            fields = set(self.fn_fields(f))
            for o in self.overriders(e, f):
                fields |= self.fn_fields(o)
            if fields:
                st.log = Log(st.log, 'havocf', None, frozenset(fields))
        for i, (v, p) in enumerate(args):
            t = pts[i] if i < len(pts) else ''
            if p is not None and t.startswith('&') and not t.startswith(('&const', '&&')):
                self.havoc_path(st, p)
            elif v is not None and v[0] == 'ptr' and 'const ' not in t and t.endswith('*'):
                self.havoc_path(st, v[1])
        if op is not None and f is None and not e.get('const') and e.get('n') not in PURE_METHODS and not e.get('static'):
            self.havoc_path(st, op)
        rt = e.get('ret', 'void')
        if rt == 'void':
            return [(st, None)]
        r = fresh(n)
        if unsigned_type(rt):
            mark_unsigned(r)
        if is_ref(rt):
            return [(st, ('ptr', (('p', r), ())))]
        return [(st, r)]

    # ------------------------------------------------------------ library model
    def e_ctor(self, e, st, fr):
        rec = e.get('rec', '')
        t = e['t'].replace('const ', '')
        outs = []
        for s, args in self.eval_args(e, st, fr):
            outs += self.construct(e, t, rec, s, fr, args)
        return outs

    def construct(self, e, t, rec, s, fr, args):
        for pr in self.prims:
            h = pr(self, e, s, fr, None, None, args)
            if h is not None:
                return h
        vals = [a[0] if a[0] is not None else self.typed_read(s, a[1], 'x') for a in args]
        if t.startswith(('std::pair', 'std::tuple')):
            if len(vals) == 2 and t.startswith('std::pair'):
                return [(s, ('obj', 'pair', (('first', vals[0]), ('second', vals[1]))))]
            if t.startswith('std::pair') and not vals:
                return [(s, ('obj', 'pair', (('first', C(0)), ('second', C(0)))))]
            if t.startswith('std::tuple') and len(vals) > 1:
                return [(s, ('obj', 'tuple', tuple((str(i), v) for i, v in enumerate(vals))))]
            if len(vals) == 1:
                v = vals[0]
                if t.startswith('std::tuple') and v[0] == 'obj' and v[1] == 'pair':
                    v = ('obj', 'tuple', (('0', v[2][0][1]), ('1', v[2][1][1])))
                return [(s, v)]
        if t.startswith('std::vector') or t.startswith('std::deque'):
            pt = e.get('pt', [])
            if not vals:
                return [(s, ('vec', C(0), None))]
            if pt and pt[0].startswith('std::initializer_list'):
                return [(s, vals[0])] if vals[0][0] == 'vecl' else [(s, ('vec', fresh('n'), None))]
            if pt and (pt[0] == 'u64'):
                self.emit(s, fr, e, 'vec.ctor', t, args=vals)
                inner = t[t.index('<') + 1:]
                fill = C(0) if scalar_type(inner.split(',')[0].strip().rstrip('>').strip()) or inner.startswith(('unsigned', 'int', 'long', 'bool')) else ('vec', C(0), None) if inner.startswith('std::vector') else None
                if len(vals) > 1 and len(pt) > 1 and not pt[1].startswith('&const std::allocator'):
                    fill = vals[1]
                return [(s, ('vec', num(vals[0]), fill))]
            if len(vals) >= 2 and vals[0][0] == 'it' and vals[1][0] == 'it' and vals[0][1] == vals[1][1] and vals[0][2] == ZERO:
                return [(s, ('snap', vals[0][1], s.log.uid))]
            return [(s, ('vec', fresh('n'), None))]
        if t.startswith('std::atomic') or t.startswith('std::optional'):
            return [(s, vals[0] if vals else C(0))]
        if t.startswith(('std::shared_ptr', 'std::unique_ptr')):
            return [(s, vals[0] if vals else C(0))]
        if t.startswith('std::'):
            if t.startswith(('std::unordered_', 'std::map', 'std::set', 'std::queue', 'std::stack', 'std::priority_queue', 'std::list')) and not vals:
                return [(s, ('vec', C(0), None))]
            if 'basic_string' in t:
                return [(s, vals[0] if vals else ('app', 'str', ('c', '')))]
            if t.startswith(('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')) and args:
                self.emit(s, fr, e, 'guard', t, obj=args[0][1], args=vals)
            return [(s, ('obj', t, tuple(('#%d' % i, v) for i, v in enumerate(vals))))]
        f = self.P.lookup(e['f'], self.variant)
        self.emit(s, fr, e, 'construct', rec or t, args=vals)
        if f is not None and not self.noinline(f, e) and len(fr.stack) < self.inline_depth and all(x['key'] != f['key'] for x, _ in fr.stack):
            this = (('t', next(_uid)), ())
            nfr = Frame(f, this, fr.stack + ((fr.fn, e.get('l')),), self.variant)
            self.bind(f, nfr, s, args, e)
            outs = []
            for s2, v in self.call_body(f, nfr, s):
                outs.append((s2, ('snap', this, s2.log.uid)))
            if len(outs) > self.forkret:
                outs = [(a, b[1]) for a, b in self.limit_to([(a, ('ret', b)) for a, b in outs], self.forkret)]
            return outs
        return [(s, ('obj', t, tuple(('#%d' % i, v) for i, v in enumerate(vals))))]

    def ctor_of(self, rec, nargs, copyarg=False):
        c = [f for f in self.P.functions.values() if f.get('ctor') and f.get('cls', '') == rec]
        return c

    def vsize(self, st, p):
        v = self.read(st, (p[0], p[1] + (('f', '#size'),)))
        return v

    def set_vsize(self, st, p, v):
        self.store(st, (p[0], p[1] + (('f', '#size'),)), v)

    def builtin(self, e, st, fr, ov, op, args):
        q, n = e['q'], e.get('n')
        oper = e.get('oper')
        ot = e['obj'].get('t', '').lstrip('&').replace('const ', '') if e.get('obj') is not None else ''
        if e.get('arrow') and e.get('obj') is not None and not oper:
            v = ov if ov is not None else self.read(st, op)
            op = self.deref(v)
            ov = None
        if not q.startswith(('std::', '__gnu', 'tlx')) and e.get('f', '').startswith('c:@N@std') is False:
            if n and re.sub(r'_(1|2|4|8|16)$', '', n) in ('__sync_bool_compare_and_swap', '__sync_fetch_and_add', '__sync_val_compare_and_swap', '__sync_add_and_fetch'):
                return self.sync(e, st, fr, args)
            if q in ('pow', 'log2', 'sqrt', 'ceil', 'floor'):
                return [(st, app(q, *[num(self.argval(st, a)) for a in args]))]
            return None
        if n == 'operator bool' and '_Bit_reference' in ot:
            if op is None and ov is not None and ov[0] == 'ptr':
                op = ov[1]
            if op is not None:
                return [(st, tobool(self.read(st, op)))]
            return [(st, tobool(ov))]
        # ---- smart pointers and iterators
        if oper in ('*', '->') and not args and e.get('obj') is not None:
            v = ov if ov is not None else self.read(st, op)
            if ot.startswith('std::optional'):
                return [(st, ('ptr', op) if op is not None else v)]
            if v[0] == 'it' or v[0] == 'app' and v[1] == 'mfind':
                return [(st, ('ptr', self.deref(v)))]
            if oper == '->':
                return [(st, v if v[0] == 'ptr' else ('ptr', (('p', v), ())))]
            return [(st, ('ptr', self.deref(v)))]
        if ot.startswith(('std::shared_ptr', 'std::__shared_ptr', 'std::unique_ptr')):
            if n == 'get':
                return [(st, ov if ov is not None else self.read(st, op))]
            if oper == '=':
                v = self.argval(st, args[0], ot)
                if op is not None:
                    self.emit(st, fr, e, 'write', '=', obj=op, args=[v, self.read(st, op)])
                    self.store(st, op, v)
                return [(st, ('ptr', op) if op is not None else v)]
            if n == 'operator bool' or e.get('conv'):
                return [(st, tobool(ov if ov is not None else self.read(st, op)))]
            if n == 'reset':
                if op is not None:
                    self.store(st, op, C(0))
                return [(st, None)]
        if n in ('move', 'forward') and q.startswith('std::') and len(args) == 1:
            v, p = args[0]
            if p is not None:
                return [(st, ('ptr', p))]
            return [(st, v)]
        if n in ('make_shared', 'make_unique') and q.startswith('std::'):
            ta = e.get('ta', ['?'])[0]
            t = ta.replace('const ', '')
            p = ('s', 'new ' + t, next(_uid))
            vals = [self.argval(st, a) for a in args]
            self.emit(st, fr, e, 'new', t, args=[p] + vals, extra=args)
            path = (('p', p), ())
            cands = [f for f in self.ctor_of(t, len(args)) if len(f['params']) == len(args)]
            if len(args) == 1 and e.get('args') and e['args'][0] and e['args'][0].get('t', '').replace('const ', '').lstrip('&') == t:
                cands = [f for f in cands if f.get('ctor') in ('copy',)]
            else:
                cands = [f for f in cands if f.get('ctor') == 'ctor']
                if len(cands) > 1:
                    at = [self._base(a['t']) if a else '' for a in e['args']]
                    c2 = [f for f in cands if all(self._base(p2['t']) == a for p2, a in zip(f['params'], at))]
                    cands = c2 or cands
            if len(cands) >= 1 and not self.noinline(cands[0], e) and len(fr.stack) < self.inline_depth:
                f = cands[0]
                nfr = Frame(f, path, fr.stack + ((fr.fn, e.get('l')),), self.variant)
                self.bind(f, nfr, st, args, e)
                return [(s, p) for s, v in self.call_body(f, nfr, st)]
            if t.startswith('std::vector') and not args:
                st.log = Log(st.log, 'store', path, ('vec', C(0), None))
            elif len(args) == 1 and vals[0][0] in ('snap', 'obj'):
                st.log = Log(st.log, 'store', path, vals[0])
            return [(st, p)]
        if q in ('std::make_pair', 'std::make_tuple', 'std::tie', 'std::forward_as_tuple'):
            vals = []
            for a, ae in zip(args, e['args']):
                v, p = a
                if v is None:
                    v = self.typed_read(st, p, ae.get('t', ''))
                if q == 'std::tie':
                    v = ('ptr', a[1]) if a[1] is not None else v
                vals.append(v)
            if q == 'std::make_pair':
                return [(st, ('obj', 'pair', (('first', vals[0]), ('second', vals[1]))))]
            return [(st, ('obj', 'tie' if q == 'std::tie' else 'tuple', tuple((str(i), v) for i, v in enumerate(vals))))]
        if q == 'std::get' and len(args) == 1:
            ta = e.get('ta', ['0'])[0].rstrip('UL')
            at = e['args'][0].get('t', '').lstrip('&').replace('const ', '')
            if ta.isdigit():
                i = int(ta)
                stp = ('f', ('first', 'second')[i]) if at.startswith('std::pair') else ('f', str(i))
                v, p = args[0]
                if p is not None:
                    return [(st, ('ptr', (p[0], p[1] + (stp,))))]
                return [(st, self.proj(v, (stp,), st))]
            return [(st, app('variant-get', self.argval(st, args[0])))]
        if q in ('std::min', 'std::max') and len(args) == 2:
            a = num(self.argval(st, args[0]))
            b = num(self.argval(st, args[1]))
            outs = []
            for s, x in self.assume(st, GE(b, a)):
                v = (a if x else b) if q == 'std::min' else (b if x else a)
                outs.append((s, v))
            return outs
        if q in ('std::abs', 'std::ceil', 'std::floor', 'std::sqrt', 'std::log2', 'std::pow', 'std::log', 'std::round', 'std::lround', 'tlx::div_ceil'):
            return [(st, app(n, *[num(self.argval(st, a)) for a in args]))]
        if q == 'std::swap' or (n == 'swap' and len(args) == 1 and op is not None):
            if q == 'std::swap':
                p1, p2 = args[0][1], args[1][1]
            else:
                p1, p2 = op, args[0][1]
            if p1 is not None and p2 is not None:
                v1, v2 = self.read(st, p1), self.read(st, p2)
                v1 = self.asval(st, v1, p1)
                v2 = self.asval(st, v2, p2)
                self.emit(st, fr, e, 'write', 'swap', obj=p1, args=[v2, v1])
                self.emit(st, fr, e, 'write', 'swap', obj=p2, args=[v1, v2])
                self.emit(st, fr, e, 'swap', 'swap', args=[('ptr', p1), ('ptr', p2)])
                self.store(st, p1, v2)
                self.store(st, p2, v1)
                return [(st, None)]
        if q in ('std::to_string',):
            return [(st, app('to_string', self.argval(st, args[0])))]
        if n in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend') and op is None and args and args[0][1] is not None:
            op = args[0][1]
        if op is not None and n in ('begin', 'cbegin'):
            return [(st, ('it', op, ZERO))]
        if op is not None and n in ('end', 'cend'):
            return [(st, ('it', op, self.vsize(st, op)))]
        if op is not None and n in ('rbegin', 'rend'):
            return [(st, fresh('rit'))]
        if oper in ('==', '!=', '<', '>', '<=', '>=') and (e.get('obj') is not None or len(args) == 2):
            if e.get('obj') is not None:
                a = ov if ov is not None else self.typed_read(st, op, ot)
                b = self.argval(st, args[0], e['args'][0].get('t', '') if e['args'][0] else '')
            else:
                a = self.argval(st, args[0], e['args'][0].get('t', ''))
                b = self.argval(st, args[1], e['args'][1].get('t', ''))
            if 'normal_iterator' in ot or a[0] == 'it' and b[0] == 'it':
                return [(st, self.compare(oper, a, b))]
            if oper in ('==', '!='):
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'app' and x[1] == 'mfind' and y[0] == 'it' and x[2][1] == y[1]:
                        has = self.read(st, (y[1][0], y[1][1] + (('i', x[3]), ('f', '#has'))))
                        mark_unsigned(has)
                        r = EQ(has, ZERO)
                        return [(st, r if oper == '==' else neg(r))]
            if oper in ('==', '!='):
                a, b = self.norm_obj(a), self.norm_obj(b)
                x, y = sorted((a, b), key=skey)
                r = ne0(('app', 'eqv', x, y)) if x != y else TRUE
                return [(st, r if oper == '==' else neg(r))]
            return [(st, ne0(('app', 'cmp' + oper, a, b)))]
        if oper in ('+', '-', '++', '--', '+=', '-=') and ('iterator' in ot or (ov is not None and ov[0] == 'it')):
            v = ov if ov is not None else self.read(st, op)
            if oper in ('++', '--'):
                nv = ('it', v[1], add(v[2], C(1 if oper == '++' else -1))) if v[0] == 'it' else fresh('it')
                if op is not None:
                    self.store(st, op, nv)
                return [(st, nv if not args else v)]
            b = self.argval(st, args[0])
            return [(st, self.arith(oper[0], v, b, 'i64') if v[0] == 'it' else fresh('it'))]
        if oper in ('+', '-') and len(args) == 2 and e.get('obj') is None:
            a, b = self.argval(st, args[0]), self.argval(st, args[1])
            if a[0] == 'it' and b[0] == 'it' and oper == '-':
                return [(st, self.arith('-', a, b, 'i64'))]
            return [(st, app('str+', a, b))]
        if ot.startswith('std::atomic') or q.startswith(('std::atomic', 'std::__atomic')):
            if op is not None:
                cur = self.read(st, op)
                if cur[0] == 'snap':
                    cur = ('ld', op, st.log.uid)
                    mark_unsigned(cur)
                if n in ('load',) or e.get('conv'):
                    self.emit(st, fr, e, 'atomic', 'load', obj=op, args=[cur])
                    return [(st, cur)]
                if oper in ('++', '--', '+=', '-=') or n in ('fetch_add', 'fetch_sub'):
                    d = num(self.argval(st, args[0])) if args and oper in ('+=', '-=') or n in ('fetch_add', 'fetch_sub') else ONE
                    neg_ = oper in ('--', '-=') or n == 'fetch_sub'
                    nv = add(cur, d, -1 if neg_ else 1)
                    self.emit(st, fr, e, 'atomic', oper or n, obj=op, args=[nv, cur])
                    self.emit(st, fr, e, 'write', (oper or n), obj=op, args=[nv, cur], extra='atomic')
                    self.store(st, op, nv)
                    return [(st, cur if n in ('fetch_add', 'fetch_sub') or (oper in ('++', '--') and args) else nv)]
                if n == 'store' or oper == '=':
                    v = self.argval(st, args[0])
                    self.emit(st, fr, e, 'write', '=', obj=op, args=[v, cur], extra='atomic')
                    self.store(st, op, v)
                    return [(st, v)]
        if ot.startswith(('std::mutex', 'std::recursive_mutex', 'std::unique_lock')) or q.startswith('std::mutex'):
            if n in ('lock', 'unlock', 'try_lock'):
                self.emit(st, fr, e, n, n, obj=op)
                if n == 'lock':
                    st.locks = st.locks + (op,)
                elif n == 'unlock':
                    l = list(st.locks)
                    if op in l:
                        l.remove(op)
                    st.locks = tuple(l)
                elif n == 'try_lock':
                    outs = []
                    r = fresh('try_lock')
                    for s, b in self.assume(st, ne0(r)):
                        if b:
                            s.locks = s.locks + (op,)
                        outs.append((s, TRUE if b else FALSE))
                    return outs
                return [(st, None)]
        if ot.startswith(('std::vector', 'std::deque', 'std::array', 'std::basic_string', 'std::queue', 'std::stack', 'std::priority_queue', 'std::list')) or \
                (op is not None and n in VEC_METHODS and ot.startswith('std::')):
            r = self.vector(e, st, fr, ov, op, args, ot)
            if r is not None:
                return r
        if ot.startswith(('std::unordered_', 'std::map', 'std::set', 'std::multi')):
            r = self.assoc(e, st, fr, ov, op, args, ot)
            if r is not None:
                return r
        if ot.startswith('std::tuple') and oper == '=':
            cur = ov if ov is not None else self.read(st, op)
            v = self.argval(st, args[0], ot)
            if cur[0] == 'obj' and cur[1] == 'tie':
                for i, (f, p) in enumerate(cur[2]):
                    stp = ('f', f)
                    x = self.proj(v, (stp,), st)
                    if v[0] == 'obj' and v[1] == 'pair':
                        x = v[2][i][1]
                    if p[0] == 'ptr':
                        self.emit(st, fr, e, 'write', '=', obj=p[1], args=[x, self.read(st, p[1])])
                        self.store(st, p[1], x)
                return [(st, cur)]
        if oper == '=' and op is not None:
            v = self.argval(st, args[0], ot)
            self.emit(st, fr, e, 'write', '=', obj=op, args=[v, self.read(st, op)])
            self.store(st, op, v)
            return [(st, ('ptr', op))]
        if q.startswith('std::optional') or ot.startswith('std::optional'):
            v = ov if ov is not None else self.read(st, op)
            if n == 'has_value' or e.get('conv'):
                return [(st, ne0(('app', 'has_value', v)))]
            if n == 'value':
                return [(st, ('ptr', op) if op is not None else v)]
        if q.startswith('std::') and n in ALGOS:
            vals = [self.argval(st, a) for a in args]
            self.emit(st, fr, e, 'call', q, args=vals, extra=(None, args))
            if n in MUT_ALGOS:
                for v in vals:
                    if v[0] == 'it':
                        self.havoc_elems(st, v[1])
                if n in ('remove', 'remove_if', 'unique') and vals and vals[0][0] == 'it':
                    return [(st, ('it', vals[0][1], fresh('newend')))]
                return [(st, None)]
            if n in ('find', 'find_if', 'min_element', 'max_element', 'lower_bound', 'upper_bound') and vals and vals[0][0] == 'it':
                k = fresh('at_' + n)
                mark_unsigned(k)
                st.facts = st.facts.add(('app', n + '@', k, ('ptr', vals[0][1])))
                return [(st, ('it', vals[0][1], k))]
            return [(st, fresh(n))]
        return None

    def _base(self, t):
        return t.lstrip('&').replace('const ', '')

    def asval(self, st, v, p):
        if v[0] == 'ld' and v[1] == p:
            # keep projections of the old content readable
            return ('snap', p, st.log.uid) if p[1] or p[0][0] != 'v' else v
        return v

    def norm_obj(self, v):
        if v[0] == 'snap':
            # identity of a value at a point: last write to it
            r = self.read_log(v[1], Log.reg[v[2]])
            return r if r[0] != 'snap' else v
        if v[0] == 'lam':
            return ('app', 'lam')
        return v

    def sync(self, e, st, fr, args):
        n = re.sub(r'_(1|2|4|8|16)$', '', e['n'])
        vals = [self.argval(st, a) for a in args]
        p = self.deref(vals[0])
        cur = self.read(st, p)
        if cur[0] == 'snap':
            cur = ('ld', p, st.log.uid)
        if n == '__sync_bool_compare_and_swap':
            outs = []
            # another thread may have written since the last read
            self.emit(st, fr, e, 'cas', n, obj=p, args=[vals[1], vals[2]])
            ok = st.copy()
            ok.facts = ok.facts.add(EQ(cur, num(vals[1])))
            self.emit(ok, fr, e, 'write', 'cas', obj=p, args=[vals[2], cur], extra='atomic')
            self.store(ok, p, vals[2])
            st.log = Log(st.log, 'havocp', p, None)
            return [(ok, TRUE), (st, FALSE)]
        nv = add(cur, num(vals[1]))
        self.emit(st, fr, e, 'write', n, obj=p, args=[nv, cur], extra='atomic')
        self.store(st, p, nv)
        return [(st, cur)]

    def mkelem(self, e, st, fr, args, elemt):
        """value built in place by emplace_back(args)"""
        vals = [a[0] if a[0] is not None else self.typed_read(st, a[1], e['args'][i].get('t', '') if e['args'][i] else '') for i, a in enumerate(args)]
        et = elemt.replace('const ', '').strip()
        if et in self.P.records:
            cands = [f for f in self.ctor_of(et, len(args)) if len(f['params']) == len(args) and f.get('ctor') == 'ctor']
            if len(args) == 1 and (e['args'][0] or {}).get('t', '').lstrip('&').replace('const ', '') == et:
                return [(st, vals[0])]
            if cands:
                f = cands[0]
                this = (('t', next(_uid)), ())
                nfr = Frame(f, this, fr.stack + ((fr.fn, e.get('l')),), self.variant)
                self.bind(f, nfr, st, args, e)
                return [(s, ('snap', this, s.log.uid)) for s, v in self.call_body(f, nfr, st)]
            return [(st, ('obj', et, tuple(('#%d' % i, v) for i, v in enumerate(vals))))]
        if et.startswith('std::pair') and len(vals) == 2:
            return [(st, ('obj', 'pair', (('first', vals[0]), ('second', vals[1]))))]
        if et.startswith('std::tuple') and len(vals) > 1:
            return [(st, ('obj', 'tuple', tuple((str(i), v) for i, v in enumerate(vals))))]
        if et.startswith('std::vector'):
            if not vals:
                return [(st, ('vec', C(0), None))]
            t0 = (e['args'][0] or {}).get('t', '') if e.get('args') else ''
            if scalar_type(t0):
                return [(st, ('vec', num(vals[0]), vals[1] if len(vals) > 1 else C(0)))]
        if len(vals) == 1:
            return [(st, vals[0])]
        if not vals:
            if scalar_type(et) or et in ('unsigned int', 'unsigned long', 'int', 'long', 'bool'):
                return [(st, C(0))]
            return [(st, ('obj', et, ()))]
        return [(st, ('obj', et, tuple(('#%d' % i, v) for i, v in enumerate(vals))))]

    def elem_type(self, t):
        if '<' not in t:
            return ''
        s = t[t.index('<') + 1:]
        d = 0
        for i, c in enumerate(s):
            if c in '<(':
                d += 1
            elif c in '>)':
                if d == 0:
                    return s[:i].strip()
                d -= 1
            elif c == ',' and d == 0:
                return s[:i].strip()
        return s

    def vector(self, e, st, fr, ov, op, args, ot):
        n, oper = e.get('n'), e.get('oper')
        if op is None:
            if ov is None:
                return None
            op = (('t', next(_uid)), ())
            st.log = Log(st.log, 'store', op, ov)
        sizep = (op[0], op[1] + (('f', '#size'),))

        def elem(i):
            return (op[0], op[1] + (('i', i),))
        if oper == '[]' or n == 'at':
            i = num(self.argval(st, args[0]))
            self.emit(st, fr, e, 'index', n, obj=op, args=[i])
            return [(st, ('ptr', elem(i)))]
        if n in ('size', 'length'):
            v = self.vsize(st, op)
            mark_unsigned(v)
            return [(st, v)]
        if n == 'empty':
            v = self.vsize(st, op)
            mark_unsigned(v)
            return [(st, EQ(v, ZERO))]
        if n in ('front', 'top'):
            if n == 'top':
                self.emit(st, fr, e, 'vec.peek', n, obj=op)
                return [(st, ('ptr', elem(add(self.vsize(st, op), C(-1)))))]
            self.emit(st, fr, e, 'vec.peek', n, obj=op)
            return [(st, ('ptr', elem(ZERO)))]
        if n == 'back':
            self.emit(st, fr, e, 'vec.peek', n, obj=op)
            return [(st, ('ptr', elem(add(self.vsize(st, op), C(-1)))))]
        if n in ('push_back', 'emplace_back', 'push', 'emplace', 'push_front', 'emplace_front') and not ot.startswith('std::priority_queue'):
            outs = []
            for s, v in self.mkelem(e, st, fr, args, self.elem_type(ot)):
                sz = self.vsize(s, op)
                self.emit(s, fr, e, 'vec.push', n, obj=op, args=[v, sz])
                if n.endswith('front'):
                    self.havoc_elems(s, op)
                else:
                    self.store(s, elem(sz), v)
                self.store(s, sizep, add(sz, ONE))
                outs.append((s, ('ptr', elem(sz))))
            return outs
        if n in ('push', 'emplace'):   # priority queue
            vals = [self.argval(st, a) for a in args]
            self.emit(st, fr, e, 'vec.push', n, obj=op, args=vals[:1])
            sz = self.vsize(st, op)
            self.havoc_elems(st, op)
            self.store(st, sizep, add(sz, ONE))
            return [(st, None)]
        if n in ('pop_back', 'pop', 'pop_front'):
            sz = self.vsize(st, op)
            self.emit(st, fr, e, 'vec.pop', n, obj=op, args=[sz])
            if n == 'pop_front' or (n == 'pop' and ot.startswith(('std::queue', 'std::priority_queue'))):
                self.havoc_elems(st, op)
            self.store(st, sizep, add(sz, C(-1)))
            return [(st, None)]
        if n == 'clear':
            self.emit(st, fr, e, 'vec.clear', n, obj=op, args=[self.vsize(st, op)])
            self.store(st, sizep, ZERO)
            return [(st, None)]
        if n in ('resize', 'assign'):
            vals = [self.argval(st, a) for a in args]
            self.emit(st, fr, e, 'vec.resize', n, obj=op, args=vals)
            if n == 'assign':
                self.havoc_path(st, op)
                return [(st, None)]
            self.store(st, sizep, num(vals[0]))
            return [(st, None)]
        if n in ('reserve', 'shrink_to_fit', 'capacity', 'data', 'c_str', 'max_size'):
            return [(st, fresh(n))]
        if n in ('insert', 'erase', 'append'):
            vals = [self.argval(st, a) for a in args]
            self.emit(st, fr, e, 'vec.' + n, n, obj=op, args=vals, extra=args)
            sz = self.vsize(st, op)
            if n == 'insert' and len(vals) == 3 and vals[1][0] == 'it' and vals[2][0] == 'it' and vals[1][1] == vals[2][1]:
                d = sub(vals[2][2], vals[1][2])
                self.havoc_elems(st, op)
                self.store(st, sizep, add(sz, d))
            elif n == 'insert' and len(vals) == 2:
                self.havoc_elems(st, op)
                self.store(st, sizep, add(sz, ONE))
            elif n == 'erase' and len(vals) == 1:
                self.havoc_elems(st, op)
                self.store(st, sizep, add(sz, C(-1)))
            else:
                self.havoc_path(st, op)
            return [(st, fresh(n))]
        if oper == '=':
            v = self.argval(st, args[0], ot)
            self.emit(st, fr, e, 'write', '=', obj=op, args=[v, self.asval(st, self.read(st, op), op)])
            self.store(st, op, v)
            return [(st, ('ptr', op))]
        if n in ('find', 'substr', 'find_first_of', 'compare'):
            return [(st, fresh(n))]
        if oper == '+=':
            self.havoc_path(st, op)
            return [(st, ('ptr', op))]
        return None

    def assoc(self, e, st, fr, ov, op, args, ot):
        n, oper = e.get('n'), e.get('oper')
        if op is None:
            op = (('t', next(_uid)), ())
            st.log = Log(st.log, 'store', op, ov)
        sizep = (op[0], op[1] + (('f', '#size'),))
        vals = []
        for i, a in enumerate(args):
            v = self.argval(st, a, e['args'][i].get('t', '') if e['args'][i] else '')
            vals.append(v)
        if oper == '[]' or n == 'at':
            self.emit(st, fr, e, 'index', n, obj=op, args=[vals[0]])
            return [(st, ('ptr', (op[0], op[1] + (('i', vals[0]),))))]
        if n in ('size',):
            v = self.vsize(st, op)
            mark_unsigned(v)
            return [(st, v)]
        if n == 'empty':
            v = self.vsize(st, op)
            mark_unsigned(v)
            return [(st, EQ(v, ZERO))]
        if n in ('count', 'contains'):
            v = self.read(st, (op[0], op[1] + (('i', vals[0]), ('f', '#has'))))
            mark_unsigned(v)
            return [(st, v)]
        if n in ('insert', 'emplace'):
            self.emit(st, fr, e, 'set.add', n, obj=op, args=vals)
            sz = self.vsize(st, op)
            fresh_entry = ne0(fresh('inserted'))
            if len(vals) == 1 and ot.startswith(('std::unordered_set<', 'std::set<')):
                had = self.read(st, (op[0], op[1] + (('i', vals[0]), ('f', '#has'))))
                mark_unsigned(had)
                fresh_entry = EQ(had, ZERO)
                self.store(st, (op[0], op[1] + (('i', vals[0]), ('f', '#has'))), ONE)
                ns = fresh('setsize')
                mark_unsigned(ns)
                self.store(st, sizep, ns)
            else:
                self.havoc_path(st, op)
            r = fresh('ins')
            return [(st, ('obj', 'pair', (('first', r), ('second', fresh_entry))))]
        if n in ('erase', 'extract', 'clear'):
            self.emit(st, fr, e, 'set.' + n, n, obj=op, args=vals)
            self.havoc_path(st, op)
            return [(st, fresh(n))]
        if n == 'find':
            return [(st, ('app', 'mfind', ('ptr', op), vals[0], ('c', st.log.uid)))]
        if oper == '=':
            self.emit(st, fr, e, 'write', '=', obj=op, args=[vals[0], self.read(st, op)])
            self.store(st, op, vals[0])
            return [(st, ('ptr', op))]
        return None


def _unsigned_ref():
    from . import terms
    return terms._unsigned


VEC_METHODS = {'push_back', 'emplace_back', 'pop_back', 'size', 'empty', 'clear', 'resize', 'front', 'back', 'at', 'reserve'}
PURE_METHODS = {'size', 'empty', 'begin', 'end', 'back', 'front', 'at', 'top', 'find', 'count', 'get', 'data', 'c_str', 'rbegin', 'rend',
                'has_value', 'value', 'load', 'cbegin', 'cend', 'capacity', 'length', 'substr', 'elapsed', 'reserve'}
MUT_ALGOS = {'sort', 'stable_sort', 'shuffle', 'random_shuffle', 'fill', 'iota', 'reverse', 'nth_element', 'partial_sort', 'swap', 'iter_swap',
             'transform', 'partial_sum', 'unique', 'remove', 'remove_if', 'copy', 'make_heap', 'push_heap', 'pop_heap', 'rotate', 'generate'}
ALGOS = MUT_ALGOS | {'find', 'find_if', 'min_element', 'max_element', 'accumulate', 'count', 'count_if', 'lower_bound', 'upper_bound',
                     'binary_search', 'any_of', 'all_of', 'none_of', 'for_each', 'distance', 'is_sorted', 'equal', 'set_intersection', 'set_difference'}
