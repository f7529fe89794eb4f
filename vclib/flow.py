"""Structured forward dataflow over the statement tree.  A client gives the
join of two states and what an expression or declaration does to a state;
branches, loops (to a fixpoint), jumps, switches and handlers are followed
here.  `None` is the unreachable state."""

NORETURN = ('exit', 'abort', '_exit', 'terminate', '__assert_fail', 'quick_exit')


class Flow:
    def __init__(self, P):
        self.P = P
        self.hstack = []

    def throws(self, e, st):
        if self.hstack and st is not None and e['k'] in ('call', 'ctor', 'throw', 'new'):
            self.hstack[-1] = self.j(self.hstack[-1], st)

    # ---- client interface
    def join(self, a, b):
        raise NotImplementedError

    def visit(self, e, st):
        """effect of node e itself, after its operands"""
        return st

    def decl(self, v, st):
        """a variable comes into existence (after its initialiser)"""
        return st

    def assume(self, e, val, st):
        """e is known to be val"""
        return st

    def enter(self, n, st):
        return st

    # ---- joins
    def j(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a if a == b else self.join(a, b)

    # ---- expressions
    def ev(self, e, st):
        if e is None or st is None or 'k' not in e:
            return st
        k = e['k']
        if k == 'lambda':
            return self.visit(e, st)
        if k == 'bin' and e['op'] in ('&&', '||'):
            t, f = self.cond(e, st)
            return self.j(t, f)
        if k == 'cond':
            t, f = self.cond(e['c'], st)
            t = self.ev(e['a'], t)
            f = self.ev(e['b'], f)
            st = self.j(t, f)
            return None if st is None else self.visit(e, st)
        if k == 'bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            st = self.ev(e['b'], st)
            st = self.ev(e['a'], st)
            return None if st is None else self.visit(e, st)
        for c in self.operands(e):
            st = self.ev(c, st)
        if st is None:
            return None
        self.throws(e, st)
        st = self.visit(e, st)
        self.throws(e, st)
        if k == 'call' and e.get('q', '').split('::')[-1] in NORETURN and 'f' not in e or \
                (k == 'call' and e.get('q') in ('exit', 'std::exit', 'abort', 'std::abort', 'std::terminate')):
            return None
        if k == 'throw':
            return None
        return st

    def operands(self, e):
        if e['k'] == 'call':
            if e.get('oper') == '=':        # right operand first
                for a in e.get('args', []):
                    if a is not None:
                        yield a
                if e.get('obj') is not None:
                    yield e['obj']
                return
            if e.get('fe') is not None:
                yield e['fe']
            if e.get('obj') is not None:
                yield e['obj']
            for a in e.get('args', []):
                if a is not None:
                    yield a
            return
        for k, v in e.items():
            if isinstance(v, dict) and 'k' in v:
                yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and 'k' in x:
                        yield x

    def cond(self, e, st):
        if e is None:
            return st, None
        if st is None:
            return None, None
        k = e['k']
        if k == 'bool':
            return (st, None) if e['v'] else (None, st)
        if k == 'cast' and e['t'] == 'bool' and e['e']['k'] in ('bool', 'un', 'bin', 'cast'):
            inner = e['e']
            if not (inner['k'] == 'bin' and inner['op'] not in ('&&', '||', '==', '!=', '<', '>', '<=', '>=')):
                return self.cond(inner, st)
        if k == 'un' and e['op'] == '!':
            t, f = self.cond(e['e'], st)
            return f, t
        if k == 'bin' and e['op'] == '&&':
            t, f = self.cond(e['a'], st)
            t2, f2 = self.cond(e['b'], t)
            return t2, self.j(f, f2)
        if k == 'bin' and e['op'] == '||':
            t, f = self.cond(e['a'], st)
            t2, f2 = self.cond(e['b'], f)
            return self.j(t, t2), f2
        st = self.ev(e, st)
        if st is None:
            return None, None
        return self.assume(e, True, st), self.assume(e, False, st)

    # ---- statements
    def var(self, v, st):
        if v.get('init') is not None:
            st = self.ev(v['init'], st)
        return None if st is None else self.decl(v, st)

    def run(self, body, st):
        """-> (state falling off the end, state at returns)"""
        R = self.stmt(body, st)
        return R[0], R[1]

    def stmt(self, n, st):
        """-> [fall, ret, brk, cont]"""
        if n is None or st is None:
            return [st, None, None, None]
        k = n['k']
        st = self.enter(n, st)
        j = self.j
        if k == 'block':
            ret = brk = cont = None
            for c in n['b']:
                if c is None:
                    continue
                if st is None and c['k'] not in ('case', 'default', 'label'):
                    continue
                st, r, b, ct = self.stmt(c, st)
                ret, brk, cont = j(ret, r), j(brk, b), j(cont, ct)
            return [st, ret, brk, cont]
        if k == 'expr':
            return [self.ev(n['e'], st), None, None, None]
        if k == 'decl':
            for v in n['d']:
                st = self.var(v, st)
            return [st, None, None, None]
        if k == 'if':
            ret = None
            if n.get('init'):
                st = self.stmt(n['init'], st)[0]
            if n.get('cv'):
                st = self.var(n['cv'], st)
            t, f = self.cond(n['c'], st)
            a = self.stmt(n['a'], t)
            b = self.stmt(n['b'], f) if n.get('b') else [f, None, None, None]
            return [j(x, y) for x, y in zip(a, b)]
        if k in ('for', 'while', 'do', 'forrange'):
            return self.loop(n, st)
        if k == 'return':
            if n.get('e') is not None:
                st = self.ev(n['e'], st)
            return [None, st, None, None]
        if k == 'break':
            return [None, None, st, None]
        if k == 'continue':
            return [None, None, None, st]
        if k == 'switch':
            st = self.ev(n['c'], st)
            body = n['b']['b'] if n['b']['k'] == 'block' else [n['b']]
            cur, ret, out, cont, hasdef = None, None, None, None, False
            for c in body:
                while c is not None and c['k'] in ('case', 'default'):
                    hasdef |= c['k'] == 'default'
                    cur = j(cur, st)
                    c = c['b']
                if cur is None:
                    continue
                f, r, b, ct = self.stmt(c, cur)
                cur, ret, out, cont = f, j(ret, r), j(out, b), j(cont, ct)
            out = j(out, cur)
            if not hasdef:
                out = j(out, st)
            return [out, ret, None, cont]
        if k == 'try':
            self.hstack.append(None)
            R = self.stmt(n['b'], st)
            st = self.hstack.pop()          # joined over the places that can throw
            for h in n['h']:
                R = [j(x, y) for x, y in zip(R, self.stmt(h, st))]
            return R
        if k in ('case', 'default', 'label'):
            return self.stmt(n['b'], st)
        if k == 'omp':
            return self.omp(n, st)
        return [st, None, None, None]

    def omp(self, n, st):
        for c in n.get('clauses', []):
            if c.get('e') is not None:
                st = self.ev(c['e'], st)
        if n.get('b') is None:
            return [st, None, None, None]
        return self.stmt(n['b'], st)

    def loop(self, n, st):
        j = self.j
        k = n['k']
        ret = out = None
        if n.get('init'):
            st = self.stmt(n['init'], st)[0]
        if k == 'forrange':
            st = self.ev(n['range'], st)
        head = None
        cur = st
        for _ in range(30):
            new = j(head, cur)
            if new == head:
                break
            head = new
            if k == 'do':
                body, ex = head, None
            elif k == 'forrange':
                body, ex = self.decl(n['var'], head), head
            elif n.get('c') is not None:
                body, ex = self.cond(n['c'], head)
            else:
                body, ex = head, None
            out = j(out, ex)
            f, r, b, ct = self.stmt(n['b'], body)
            ret, out = j(ret, r), j(out, b)
            cur = j(f, ct)
            if k == 'do' and cur is not None:
                cur, ex = self.cond(n['c'], cur) if n.get('c') is not None else (cur, None)
                out = j(out, ex)
            if n.get('inc') is not None and cur is not None:
                cur = self.ev(n['inc'], cur)
            if cur is None:
                break
        return [out, ret, None, None]
