"""Lock-state analysis: a path-sensitive walk over the statement tree with the
set of held locks, the guards that own them and the boolean locals that were
branched on.  Calls into the repository are followed in the caller's context;
objects and locks are named by their path from the root object."""
from .program import walk, children

CONT = ('std::vector', 'std::unordered_map', 'std::unordered_set', 'std::map', 'std::set', 'std::deque', 'std::queue', 'std::list', 'std::priority_queue')
LOCKT = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex')
GUARDT = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')
NOTPLAIN = ('std::atomic', 'std::mutex', 'std::condition_variable', 'std::recursive_mutex', 'std::shared_mutex')


def base_t(t):
    return t.lstrip('&').replace('const ', '').strip()


class St:
    __slots__ = ('held', 'guards', 'bools', 'live', 'csr')

    def __init__(self, held=frozenset(), guards=(), bools=frozenset(), live=False, csr=frozenset()):
        self.held, self.guards, self.bools, self.live, self.csr = held, guards, bools, live, csr

    def key(self):
        return (self.held, self.guards, self.bools, self.live, self.csr)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def w(self, **k):
        d = {s: getattr(self, s) for s in self.__slots__}
        d.update(k)
        return St(**d)


MAXST = 48


class Locks:
    """hooks: violation(kind, fn, line, what), access(path, write, held, fn, line, expr, ctx, st)"""

    def __init__(self, P, on_violation, on_access=None, on_acquire=None, on_spawn=None):
        self.P, self.viol, self.access, self.acquire = P, on_violation, on_access, on_acquire
        self.on_spawn = on_spawn
        self.memo = {}
        self.stack = []
        self.touch = None
        self.touch_all = False
        self.ctx = 'main'
        self.visited = set()

    # -- which functions matter ------------------------------------------
    def lock_functions(self):
        """functions that (transitively) operate on a lock"""
        P = self.P
        direct, calls = set(), {}
        for f in P.functions.values():
            cs = set()
            roots = [f['b']] + [I['e'] for I in f.get('inits') or [] if isinstance(I.get('e'), dict)]
            for r in roots:
                for x in walk(r):
                    if x['k'] == 'call':
                        o = x.get('obj')
                        if o is not None and base_t(o.get('t', '')).startswith(LOCKT + GUARDT) and x.get('n') in (
                                'lock', 'unlock', 'try_lock'):
                            direct.add(f['key'])
                        if 'f' in x:
                            for v in ('seq', 'par'):
                                g = P.res.get((x['f'], v))
                                if g:
                                    cs.add(g['key'])
                    elif x['k'] == 'var' and base_t(x['t']).startswith(GUARDT):
                        direct.add(f['key'])
                    elif x['k'] == 'lambda':
                        for v in ('seq', 'par'):
                            g = P.res.get((x['f'], v))
                            if g:
                                cs.add(g['key'])
            calls[f['key']] = cs
        T = set(direct)
        ch = True
        while ch:
            ch = False
            for k, cs in calls.items():
                if k not in T and cs & T:
                    T.add(k)
                    ch = True
        self.touch, self.calls = T, calls
        return direct, T, calls

    # -- naming -----------------------------------------------------------
    def name(self, e, fr):
        """path of an lvalue; None when it is not rooted in a known object"""
        if e is None:
            return None
        k = e['k']
        if k in ('cast', 'copy'):
            return self.name(e['e'], fr)
        if k == 'this':
            return fr['this']
        if k == 'ref':
            if e.get('global'):
                return '::' + e.get('q', e['n'])
            if e['id'] in fr['bind']:
                b = fr['bind'][e['id']]
                return 'v%d' % e['id'] if b[:1] == '=' else b
            return 'v%d' % e['id']
        if k == 'mem':
            b = self.name(e['base'], fr)
            if b is None:
                return None
            if e.get('arrow') and e['base']['k'] != 'this' and not b.endswith(')*') and b != fr['this']:
                b = '(%s)*' % b
            return b + '.' + e['n']
        if k == 'idx':
            b = self.name(e['base'], fr)
            return None if b is None else b + '[%s]' % self.val(e['i'], fr)
        if k == 'un' and e['op'] == '*':
            b = self.name(e['e'], fr)
            return None if b is None else (b[1:] if b.startswith('&') else '(%s)*' % b)
        if k == 'un' and e['op'] == '&':
            b = self.name(e['e'], fr)
            return None if b is None else '&' + b
        if k == 'call':
            op = e.get('oper')
            if op == '[]' or e.get('n') == 'at':
                b = self.name(e.get('obj'), fr)
                if b is None:
                    return None
                return b + '[%s]' % self.val(e['args'][0], fr)
            if op in ('->', '*') and e.get('obj') is not None:
                b = self.name(e['obj'], fr)
                return None if b is None else '(%s)*' % b
            if e.get('n') in ('back', 'front', 'top', 'value', 'get') and e.get('obj') is not None and e.get('q', '').startswith('std::'):
                b = self.name(e['obj'], fr)
                return None if b is None else b + '.#' + e['n']
            if e.get('q') in ('std::move', 'std::forward', 'std::ref'):
                return self.name(e['args'][0], fr)
            if e.get('n') in ('begin', 'end', 'rbegin', 'rend') and e.get('obj') is not None:
                b = self.name(e['obj'], fr)
                return None if b is None else b + '.#it'
            return None
        return None

    def val(self, e, fr):
        if e is None:
            return '?'
        k = e['k']
        if k in ('cast', 'copy'):
            return self.val(e['e'], fr)
        if k == 'int':
            return e['v']
        if k == 'bin':
            return '(%s%s%s)' % (self.val(e['a'], fr), e['op'], self.val(e['b'], fr))
        if k == 'ref' and 'cv' in e:
            return e['cv']
        if k == 'ref' and fr['bind'].get(e['id'], '')[:1] == '=':
            return fr['bind'][e['id']][1:]
        n = self.name(e, fr)
        if n is not None:
            return n
        if k == 'call':
            return '%s(%s)' % (e.get('n'), ','.join(self.val(a, fr) for a in e.get('args', [])))
        return '?'

    # -- driver -----------------------------------------------------------
    def run(self, f, this='this', bind=None, st=None, ctx=None):
        if ctx is not None:
            self.ctx = ctx
        fr = {'f': f, 'this': this, 'bind': dict(bind or {}), 'variant': sorted(f['variants'])[0]}
        return self.function(f, fr, st or St())

    def function(self, f, fr, st):
        """-> list of states at return"""
        self.visited.add(f['key'])
        key = (f['key'], fr['this'], tuple(sorted((i, v) for i, v in fr['bind'].items())), st, self.ctx)
        if key in self.memo:
            return self.memo[key]
        if f['key'] in self.stack or len(self.stack) > 30:
            return [st]
        self.memo[key] = [st]
        self.stack.append(f['key'])
        outs = []
        ng = len(st.guards)
        r = self.stmt(f['b'], [st], fr)
        for s in r['fall'] + r['ret']:
            outs.append(self.pop_guards(s, ng))
        self.stack.pop()
        outs = self.uniq(outs)
        outs = [s.w(bools=st.bools) for s in outs]
        outs = self.uniq(outs)
        self.memo[key] = outs
        return outs

    def uniq(self, l):
        r = []
        for s in l:
            if s not in r:
                r.append(s)
        if len(r) > MAXST:
            # forget correlations first
            q = []
            for s in r:
                t = s.w(bools=frozenset())
                if t not in q:
                    q.append(t)
            r = q[:MAXST]
        return r

    def pop_guards(self, s, n):
        while len(s.guards) > n:
            vid, locks, owned = s.guards[-1]
            held = s.held - frozenset(locks) if owned else s.held
            s = s.w(guards=s.guards[:-1], held=held, csr=s.csr & held)
        return s

    # -- statements ---------------------------------------------------------
    def stmt(self, n, sts, fr):
        R = {'fall': [], 'ret': [], 'brk': [], 'cont': []}

        def add(r, *ks):
            for k in ks:
                R[k] += r[k]
        if n is None or not sts:
            R['fall'] = sts
            return R
        k = n['k']
        if k == 'block':
            ng = {id(s): len(s.guards) for s in sts}
            base = len(sts[0].guards)
            cur = sts
            for c in n['b']:
                if not cur:
                    break
                r = self.stmt(c, cur, fr)
                add(r, 'ret', 'brk', 'cont')
                cur = self.uniq(r['fall'])
            R['fall'] = self.uniq([self.pop_guards(s, base) for s in cur])
            R['brk'] = self.uniq([self.pop_guards(s, base) for s in R['brk']])
            R['cont'] = self.uniq([self.pop_guards(s, base) for s in R['cont']])
            return R
        if k == 'expr':
            R['fall'] = self.ev(n['e'], sts, fr)
            return R
        if k == 'decl':
            for v in n['d']:
                sts = self.decl(v, sts, fr)
            R['fall'] = sts
            return R
        if k == 'if':
            if n.get('init'):
                sts = self.stmt(n['init'], sts, fr)['fall']
            if n.get('cv'):
                sts = self.decl(n['cv'], sts, fr)
            t, e = self.cond(n['c'], sts, fr)
            r = self.stmt(n['a'], t, fr)
            add(r, 'fall', 'ret', 'brk', 'cont')
            if n.get('b'):
                r = self.stmt(n['b'], e, fr)
                add(r, 'fall', 'ret', 'brk', 'cont')
            else:
                R['fall'] += e
            R['fall'] = self.uniq(R['fall'])
            return R
        if k in ('for', 'while', 'do', 'forrange'):
            joins = any(x['k'] == 'call' and x.get('n') == 'join' and base_t((x.get('obj') or {}).get('t', '')) == 'std::thread' for x in walk(n['b']))
            if n.get('init'):
                sts = self.stmt(n['init'], sts, fr)['fall']
            if k == 'forrange':
                sts = self.ev(n['range'], sts, fr)
                v = n['var']
                rn = self.name(n['range'], fr)
                if rn is not None and v['k'] == 'var' and v['t'].startswith('&'):
                    fr['bind'][v['id']] = rn + '[v%d]' % v['id']
            seen, work, out = [], list(sts), []
            first = k == 'do'
            it = 0
            while work and it < 40:
                it += 1
                cur = [s for s in self.uniq(work) if s not in seen]
                seen += cur
                if not cur:
                    break
                if first:
                    body, ex = cur, []
                elif n.get('c') is not None:
                    body, ex = self.cond(n['c'], cur, fr)
                elif k == 'forrange':
                    body, ex = cur, cur
                else:
                    body, ex = cur, []
                out += ex
                r = self.stmt(n['b'], body, fr)
                R['ret'] += r['ret']
                out += r['brk']
                nxt = self.uniq(r['fall'] + r['cont'])
                if k == 'do':
                    first = False
                    if n.get('c') is not None:
                        t, ex = self.cond(n['c'], nxt, fr)
                        out += ex
                        nxt = t
                        first = True
                if n.get('inc') is not None:
                    nxt = self.ev(n['inc'], nxt, fr)
                work = nxt
            if joins:
                out = [s.w(live=False) for s in out]
            R['fall'] = self.uniq(out)
            return R
        if k == 'return':
            if n.get('e') is not None:
                sts = self.ev(n['e'], sts, fr)
            R['ret'] = sts
            return R
        if k == 'break':
            R['brk'] = sts
            return R
        if k == 'continue':
            R['cont'] = sts
            return R
        if k == 'switch':
            sts = self.ev(n['c'], sts, fr)
            b = n['b']
            body = b['b'] if b['k'] == 'block' else [b]
            entries = [i for i, c in enumerate(body) if c['k'] in ('case', 'default')]
            cur = []
            hasdef = False
            for i, c in enumerate(body):
                while c['k'] in ('case', 'default'):
                    hasdef |= c['k'] == 'default'
                    cur = self.uniq(cur + sts)
                    c = c['b']
                r = self.stmt(c, cur, fr)
                R['ret'] += r['ret']
                R['cont'] += r['cont']
                R['fall'] += r['brk']
                cur = r['fall']
            R['fall'] = self.uniq(R['fall'] + cur + ([] if hasdef else sts))
            return R
        if k == 'try':
            r = self.stmt(n['b'], sts, fr)
            for q in R:
                R[q] += r[q]
            for h in n['h']:
                r = self.stmt(h, sts, fr)
                for q in R:
                    R[q] += r[q]
            return R
        if k in ('omp', 'label', 'case', 'default'):
            if n.get('b') is not None:
                return self.stmt(n['b'], sts, fr)
        R['fall'] = sts
        return R

    def decl(self, v, sts, fr):
        init = v.get('init')
        if v['k'] == 'decomp':
            if init is not None:
                sts = self.ev(init, sts, fr)
                rn = self.name(init, fr)
                if rn is not None and v['t'].startswith('&'):
                    for b in v['b']:
                        fr['bind'][b['id']] = rn + '.' + (b.get('fld') or '#%d' % b['i'])
            return sts
        t = base_t(v['t'])
        if t.startswith(GUARDT):
            args = (init or {}).get('args', []) if init else []
            locks, tag = [], None
            for a in args:
                if a is None:
                    continue
                at = base_t(a.get('t', ''))
                if at.startswith(LOCKT):
                    locks.append(self.name(a, fr) or '?')
                elif 'defer_lock' in at or 'try_to_lock' in at or 'adopt_lock' in at:
                    tag = at
            out = []
            for s in sts:
                if tag and 'defer' in tag:
                    out.append(s.w(guards=s.guards + ((v['id'], tuple(locks), False),)))
                elif tag and 'adopt' in tag:
                    out.append(s.w(guards=s.guards + ((v['id'], tuple(locks), True),)))
                elif tag:
                    out.append(s.w(guards=s.guards + ((v['id'], tuple(locks), False),)))
                    out.append(self.lock(s, locks, v['l'], fr).w(guards=s.guards + ((v['id'], tuple(locks), True),)))
                else:
                    out.append(self.lock(s, locks, v['l'], fr).w(guards=s.guards + ((v['id'], tuple(locks), True),)))
            return self.uniq(out)
        if init is not None:
            if base_t(v['t']) == 'bool':
                t_, e_ = self.cond(init, sts, fr, fork=self.has_trylock(init))
                if t_ is e_:
                    return [self.setbool(s, v['id'], None) for s in t_]
                return self.uniq([self.setbool(s, v['id'], True) for s in t_] + [self.setbool(s, v['id'], False) for s in e_])
            rn = None
            if v['t'].startswith('&') or v['t'].rstrip().endswith('*') or 'iterator' in v['t']:
                rn = self.name(init, fr)
            if rn is not None and v['t'].startswith('&'):
                sts = self.sub(init, sts, fr)       # only bound, not read
            else:
                sts = self.ev(init, sts, fr, ref=rn is not None)
            if rn is not None:
                fr['bind'][v['id']] = rn
        return sts

    def setbool(self, s, vid, val):
        b = frozenset(x for x in s.bools if x[0] != vid)
        if val is not None:
            b = b | {(vid, val)}
        return s.w(bools=b)

    def has_trylock(self, e):
        if e['k'] == 'bool':
            return True
        return any(x['k'] == 'call' and x.get('n') in ('try_lock', 'owns_lock') or (x['k'] == 'call' and x.get('conv')) for x in walk(e))

    # -- conditions ---------------------------------------------------------
    def cond(self, e, sts, fr, fork=True):
        """-> (true states, false states); the same list object when not forked"""
        if e is None:
            return sts, []
        k = e['k']
        if k == 'bool':
            return (sts, []) if e['v'] else ([], sts)
        if k == 'cast' and base_t(e['t']) == 'bool':
            return self.cond(e['e'], sts, fr, fork)
        if k == 'un' and e['op'] == '!':
            t, f = self.cond(e['e'], sts, fr, fork)
            return f, t
        if k == 'bin' and e['op'] == '&&':
            t, f = self.cond(e['a'], sts, fr)
            t2, f2 = self.cond(e['b'], t, fr)
            return self.uniq(t2), self.uniq(f + f2)
        if k == 'bin' and e['op'] == '||':
            t, f = self.cond(e['a'], sts, fr)
            t2, f2 = self.cond(e['b'], f, fr)
            return self.uniq(t + t2), self.uniq(f2)
        if k == 'ref' and not e.get('global') and base_t(e['t']) == 'bool':
            sts = self.ev(e, sts, fr)
            t, f = [], []
            for s in sts:
                kn = [v for i, v in s.bools if i == e['id']]
                if kn:
                    (t if kn[0] else f).append(s)
                elif not fork:
                    return sts, sts
                else:
                    t.append(self.setbool(s, e['id'], True))
                    f.append(self.setbool(s, e['id'], False))
            return t, f
        if k == 'call' and e.get('n') == 'try_lock' and e.get('obj') is not None:
            ot = base_t(e['obj'].get('t', ''))
            t = []
            if ot.startswith(LOCKT):
                m = self.name(e['obj'], fr) or '?'
                return [self.lock(s, [m], e['l'], fr, tr=True) for s in sts], sts
            if ot.startswith(GUARDT):
                return [self.guard_op(s, e, fr, 'lock') for s in sts], sts
        if k == 'call' and e.get('obj') is not None and base_t(e['obj'].get('t', '')).startswith(GUARDT) and (
                e.get('n') == 'owns_lock' or e.get('conv')):
            t, f = [], []
            for s in sts:
                g = [x for x in s.guards if x[0] == e['obj'].get('id')]
                (t if g and g[0][2] else f).append(s)
            return t, f
        sts = self.ev(e, sts, fr)
        return sts, sts

    # -- locks ---------------------------------------------------------------
    def lock(self, s, names, line, fr, tr=False):
        for m in names:
            if m in s.held and not tr:
                self.viol('double lock', fr['f'], line, 'lock `%s` is taken while it is already held' % show(m), m)
            if self.acquire:
                self.acquire(m, s.held, fr['f'], line, tr)
            s = s.w(held=s.held | {m})
        return s

    def unlock(self, s, names, line, fr):
        for m in names:
            if m not in s.held:
                self.viol('unlock', fr['f'], line, 'lock `%s` is released on a path on which it is not held' % show(m), m)
            s = s.w(held=s.held - {m}, csr=s.csr - {m})
        return s

    def guard_op(self, s, e, fr, op):
        gid = e['obj'].get('id')
        gs = list(s.guards)
        for i, g in enumerate(gs):
            if g[0] == gid:
                if op == 'lock':
                    if g[2]:
                        self.viol('double lock', fr['f'], e['l'], 'guard locks a mutex it already owns', 'guard')
                    s = self.lock(s, g[1], e['l'], fr)
                    gs[i] = (gid, g[1], True)
                elif op == 'unlock':
                    if not g[2]:
                        self.viol('unlock', fr['f'], e['l'], 'guard releases a mutex it does not own', 'guard')
                    s = self.unlock(s, g[1], e['l'], fr)
                    gs[i] = (gid, g[1], False)
                elif op == 'release':
                    gs[i] = (gid, g[1], False)
                return s.w(guards=tuple(gs))
        return s

    # -- expressions --------------------------------------------------------
    def acc(self, e, write, sts, fr, plain=False):
        n = self.name(e, fr)
        if n is None:
            return sts
        out = []
        for s in sts:
            if self.access is not None:
                self.access(n, write, s, fr, e, plain)
            if not write and self.relevant(n) and s.held and not s.held <= s.csr:
                s = s.w(csr=s.csr | s.held)
            out.append(s)
        return out

    def whole(self, e, write, sts, fr):
        """a whole container is copied or restructured: all its elements are touched"""
        n = self.name(e, fr)
        if n is None or self.access is None or not base_t(e.get('t', '')).startswith(CONT):
            return sts
        for s in sts:
            self.access(n + '[*]', write, s, fr, e, False)
        return sts

    def ev(self, e, sts, fr, write=False, ref=False, plain=False):
        """evaluate for effects; `write`: the value is stored to, `ref`: only bound"""
        if e is None or not sts:
            return sts
        k = e['k']
        if k in ('cast',):
            return self.ev(e['e'], sts, fr)
        if k == 'copy':
            sts = self.ev(e['e'], sts, fr)
            return self.whole(e['e'], False, sts, fr)
        if k in ('int', 'bool', 'float', 'str', 'nullptr', 'enum', 'this', 'fref', 'zero'):
            return sts
        if k in ('ref', 'mem', 'idx'):
            if k == 'mem' and 'rec' not in e:
                return self.ev(e['base'], sts, fr)
            if k == 'idx':
                sts = self.ev(e['i'], sts, fr)
            if not ref:
                sts = self.acc(e, write, sts, fr, plain)
            b = e.get('base')
            if b is not None:
                # the path below is only walked for its own calls
                sts = self.sub(b, sts, fr)
            if write and k == 'ref' and not e.get('global') and e['id'] not in fr['bind']:
                sts = self.assigned(e['id'], sts, fr)
            return sts
        if k == 'un':
            if e['op'] in ('++', '--'):
                sts = self.ev(e['e'], sts, fr)
                return self.ev(e['e'], sts, fr, write=True)
            if e['op'] == '&':
                return self.sub(e['e'], sts, fr)
            if e['op'] == '*' and write:
                sts = self.acc(e, True, sts, fr)
                return self.sub(e['e'], sts, fr)
            return self.ev(e['e'], sts, fr)
        if k == 'bin':
            op = e['op']
            if op in ('&&', '||'):
                t, f = self.cond(e, sts, fr)
                return self.uniq(t + f)
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                if op == '=' and base_t(e['a'].get('t', '')) == 'bool' and e['a']['k'] == 'ref' and not e['a'].get('global'):
                    vid = e['a']['id']
                    t, f = self.cond(e['b'], sts, fr, fork=self.has_trylock(e['b']))
                    if t is f:
                        return [self.setbool(s, vid, None) for s in t]
                    return self.uniq([self.setbool(s, vid, True) for s in t] + [self.setbool(s, vid, False) for s in f])
                sts = self.ev(e['b'], sts, fr)
                if op != '=':
                    sts = self.ev(e['a'], sts, fr)
                return self.ev(e['a'], sts, fr, write=True, plain=op == '=')
            sts = self.ev(e['a'], sts, fr)
            return self.ev(e['b'], sts, fr)
        if k == 'cond':
            t, f = self.cond(e['c'], sts, fr)
            t = self.ev(e['a'], t, fr) if t else []
            f = self.ev(e['b'], f, fr) if f else []
            return self.uniq(t + f)
        if k == 'lambda':
            return sts      # run where it is called
        if k == 'call':
            return self.call(e, sts, fr, write, plain)
        if k in ('ctor', 'init', 'opaque'):
            for a in e.get('args', []):
                sts = self.ev(a, sts, fr)
            if k == 'ctor' and e.get('q') == 'std::thread::thread' and e.get('args'):
                if self.on_spawn:
                    self.on_spawn(e, fr, sts)
                sts = [s.w(live=True) for s in sts]
            return sts
        for c in children(e):
            if 'k' in c:
                sts = self.ev(c, sts, fr)
        return sts

    def sub(self, e, sts, fr):
        """inner part of an lvalue path: index expressions and calls only"""
        if e is None:
            return sts
        k = e['k']
        if k in ('this', 'ref'):
            return sts
        if k in ('cast', 'copy'):
            return self.sub(e['e'], sts, fr)
        if k == 'mem':
            return self.sub(e.get('base'), sts, fr)
        if k == 'idx':
            sts = self.ev(e['i'], sts, fr)
            return self.sub(e['base'], sts, fr)
        if k == 'un' and e['op'] in ('*', '&'):
            return self.sub(e['e'], sts, fr)
        if k == 'call' and self.name(e, fr) is not None:
            for a in e.get('args', []):
                sts = self.ev(a, sts, fr)
            if e.get('oper') == '->' or (e.get('oper') == '*' and not e.get('args')):
                # the pointer itself is read
                return self.ev(e['obj'], sts, fr)
            return self.sub(e.get('obj'), sts, fr)
        return self.ev(e, sts, fr)

    def assigned(self, vid, sts, fr):
        v = 'v%d' % vid
        out = []
        for s in sts:
            if any(v in m for m in s.held):
                s = s.w(held=frozenset(m.replace('[' + v + ']', '[old ' + v + ']') for m in s.held))
            if any(b[0] == vid for b in s.bools):
                s = self.setbool(s, vid, None)
            out.append(s)
        return self.uniq(out)

    def lam(self, e, sts, fr):
        g = self.P.lambda_of(e['f'], fr['variant'], fr.get('fn') or fr.get('f')) if 'f' in e else None
        if g is None:
            for u in ('seq', 'par'):
                g = g or self.P.res.get((e.get('f'), u))
        if g is None:
            return sts
        # captured variables keep the ids of the enclosing function
        fr2 = {'f': g, 'this': fr['this'], 'bind': fr['bind'], 'variant': fr['variant']}
        out = []
        for s in sts:
            if g['key'] in self.stack:
                out.append(s)
                continue
            self.stack.append(g['key'])
            r = self.stmt(g['b'], [s], fr2)
            self.stack.pop()
            out += [self.pop_guards(x, len(s.guards)) for x in r['fall'] + r['ret']]
        return self.uniq(out)

    def call(self, e, sts, fr, write=False, plain=False):
        P = self.P
        o = e.get('obj')
        ot = base_t(o.get('t', '')) if o is not None else ''
        n = e.get('n')
        if o is not None and ot.startswith(LOCKT) and n in ('lock', 'unlock', 'try_lock', 'lock_shared', 'unlock_shared'):
            sts = self.sub(o, sts, fr)
            m = self.name(o, fr) or '?'
            if n == 'try_lock':
                return self.uniq(sts + [self.lock(s, [m], e['l'], fr, tr=True) for s in sts])
            if n.startswith('lock'):
                return self.uniq([self.lock(s, [m], e['l'], fr) for s in sts])
            return self.uniq([self.unlock(s, [m], e['l'], fr) for s in sts])
        if o is not None and ot.startswith(GUARDT) and n in ('lock', 'unlock', 'release'):
            return self.uniq([self.guard_op(s, e, fr, n) for s in sts])
        if e.get('q') in ('std::lock',):
            names = [self.name(a, fr) or '?' for a in e['args'] if base_t(a.get('t', '')).startswith(LOCKT)]
            return self.uniq([self.lock(s, names, e['l'], fr) for s in sts])
        if o is not None and ot.startswith('std::condition_variable') and n in ('wait', 'wait_for', 'wait_until'):
            a0 = e['args'][0]
            for s in sts:
                g = [x for x in s.guards if x[0] == a0.get('id')]
                if g and not g[0][2]:
                    self.viol('wait', fr['f'], e['l'], 'condition variable waits with a guard that does not own its mutex', 'wait')
            for a in e['args'][1:]:
                if a is not None and a['k'] == 'lambda':
                    sts = self.lam(a, sts, fr)
                else:
                    sts = self.ev(a, sts, fr)
            return sts
        if o is not None and ot == 'std::thread' and n in ('join', 'detach'):
            return [s.w(live=False) for s in sts] if n == 'join' else sts
        # a named lvalue through operator[] and friends
        nm = self.name(e, fr)
        if nm is not None and e.get('q') not in ('std::move', 'std::forward', 'std::ref'):
            for a in e.get('args', []):
                sts = self.ev(a, sts, fr)
            sts = self.acc(e, write, sts, fr, plain)
            return self.sub(o, sts, fr)
        g = None
        if 'f' in e:
            g = P.lookup(e['f'], fr['variant'])
        args = e.get('args', [])
        if g is None:
            # library call: mutating methods write the object
            lams = [a for a in args if a is not None and a['k'] == 'lambda']
            pts = e.get('pt', [])
            for i, a in enumerate(args):
                if a is None or a['k'] == 'lambda':
                    continue
                pt = pts[i] if i < len(pts) else ''
                if pt.startswith('&') and not pt.startswith('&const') and not pt.startswith('&&') and self.name(a, fr) is not None:
                    sts = self.ev(a, sts, fr, write=True)
                elif a['k'] == 'un' and a['op'] == '&' and e.get('n', '').startswith('__sync'):
                    sts = self.sub(a['e'], sts, fr)
                elif a['k'] == 'un' and a['op'] == '&':
                    sts = self.ev(a['e'], sts, fr, write=True)
                else:
                    sts = self.ev(a, sts, fr)
            if o is not None:
                mut = not e.get('const') and not e.get('conv')
                if e.get('oper') == '=':
                    # an overwrite does not look at the old value
                    for a in args:
                        if a is not None and a['k'] not in ('lambda', 'copy'):
                            sts = self.whole(a, False, sts, fr)
                    sts = self.whole(o, True, sts, fr)
                    return self.acc(o, True, self.sub(o, sts, fr), fr, True)
                if n in ('begin', 'end', 'find', 'size', 'empty', 'data', 'count', 'load'):
                    mut = False
                sts = self.ev(o, sts, fr)
                if mut:
                    sts = self.whole(o, True, sts, fr)
                    sts = self.acc(o, True, sts, fr, e.get('oper') == '=' and not (e.get('args') and e['args'][0] is not None and e['args'][0]['k'] == 'nullptr'))
            for a in lams:
                sts = self.lam(a, sts, fr)
            if 'fe' in e and e['fe'] is not None:
                sts = self.ev(e['fe'], sts, fr)
            return sts
        # repository call
        bind = {}
        if e.get('oper') == '()' and o is not None and o.get('t', '').find('(lambda') >= 0:
            pass
        for i, a in enumerate(args):
            p = g['params'][i] if i < len(g['params']) else None
            if a is None:
                continue
            if p is not None:
                isref = p['t'].startswith('&') or p['t'].rstrip().endswith('*')
                nm = self.name(a, fr) if isref else None
                if nm is not None:
                    bind[p['id']] = nm
                    sts = self.sub(a, sts, fr)
                    continue
                if p['t'] in ('u64', 'u32', 'i32', 'i64', 'const u64', 'const u32'):
                    v = self.val(a, fr)
                    if '?' not in v:
                        bind[p['id']] = '=' + v
            sts = self.ev(a, sts, fr)
        this = None
        if o is not None:
            sts = self.sub(o, sts, fr)
            this = self.name(o, fr)
            if e.get('arrow') and this is not None and o['k'] != 'this':
                this = this[1:] if this.startswith('&') else '(%s)*' % this
        interesting = g['key'] in self.touch or (self.touch_all and (self.relevant(this) or any(self.relevant(v) for v in bind.values())))
        if self.touch_all and not interesting and g['key'] in getattr(self, 'glob', ()):
            interesting = True
        if not interesting:
            for a in args:
                if a is not None and a['k'] == 'lambda':
                    sts = self.lam(a, sts, fr)
            return sts
        fr2 = {'f': g, 'this': this or '?', 'bind': bind, 'variant': fr['variant']}
        if e.get('oper') == '()' and g['n'] == 'operator()':
            fr2['this'] = fr['this']
            fr2['bind'] = dict(fr['bind'])
            fr2['bind'].update(bind)
        out = []
        for s in sts:
            out += self.function(g, fr2, s)
        return self.uniq(out)

    def relevant(self, n):
        return n is not None and n.lstrip('&').startswith('this') and '*' not in n


def show(m):
    import re
    m = m.replace('this.', '')
    return re.sub(r'v\d+', 'i', m)
