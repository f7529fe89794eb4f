"""The addressable priority queues stay well-formed and give out a largest element."""
from ..absint import Interp, State, Log, mark_unsigned, fresh
from ..ast import strip
from ..cg import CallGraph
from ..ctx import short
from ..gmodel import graph_prims
from ..program import walk, AnalysisBroken
from ..terms import *

RULE = ('Symbolic execution of every operation of the four addressable priority queues from every shape of a well-formed queue around the affected element (only element, first, last or inner element of its bucket; last or inner '
        'slot of the heap and of the element array; largest bucket or not). At every return the stored places, buckets, offsets, heap slots, element slots and vertex indices of everything the operation touched must be inverse to '
        'each other again, the number of elements must follow, the largest-bucket index must name a non-empty bucket with only empty ones above it, and each heap slot whose key changed must have been sifted in the direction '
        'the key can have moved. The sift routines are decided by the same execution of one step.')
ASSUMPTIONS = ['an operation starts from a well-formed queue', 'inserted vertices are not in a bucket queue yet, and deleted or re-keyed ones are in it', 'keys do not exceed the span a bucket queue was made for']

IFACE = ('size', 'empty', 'insert', 'deleteMax', 'deleteNode', 'maxElement', 'maxValue', 'decreaseKey', 'increaseKey', 'changeKey', 'getKey', 'contains', 'gain')


def S(n, unsigned=True):
    t = ('s', n, 0)
    if unsigned:
        mark_unsigned(t)
    return t


class Roles:
    """fields of a queue class by what they hold"""

    def __init__(self, P, cls):
        self.cls = cls
        self.P = P
        rec = P.records[cls]
        self.buckets = self.place = self.off = self.heap = self.elems = self.index = self.count = None
        self.scalars = []
        for f in rec['fields']:
            t, n = f['t'], f['n']
            if t.startswith('std::vector<std::vector<unsigned int') or t.startswith('std::vector<std::deque<unsigned int'):
                self.buckets = n
                self.deque = 'deque' in t
            elif 'std::pair<unsigned long, unsigned long>' in t:
                self.place = n
                self.pmap = t.startswith('std::unordered_map')
            elif t.startswith('std::vector<std::pair<unsigned long, int>'):
                self.heap = n
            elif t.startswith('std::vector<QElement') or t.startswith('std::vector<') and '::Data' in t:
                self.elems = n
                self.elemt = t[len('std::vector<'):].rstrip('> ') + '>'
            elif t.startswith(('std::unordered_map<unsigned int, int', 'std::vector<unsigned int')):
                self.index = n
                self.imap = t.startswith('std::unordered_map')
            elif t.startswith('std::vector<unsigned long'):
                self.off = n
            elif t == 'u32':
                self.count = n
            elif t == 'u64':
                self.scalars.append(n)
        self.kind = 'bucket' if self.buckets and self.place else 'heap' if self.heap and self.elems and self.index else None
        if self.kind == 'bucket':
            w = set()
            for f in P.functions.values():
                if f.get('cls') == cls and f.get('b') is not None and not f.get('ctor'):
                    for x in walk(f['b']):
                        t = None
                        if x['k'] == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                            t = strip(x['a'])
                        elif x['k'] == 'un' and x['op'][:2] in ('++', '--'):
                            t = strip(x['e'])
                        if t is not None and t.get('k') == 'mem' and t.get('n') in self.scalars:
                            w.add(t['n'])
            rest = [s for s in self.scalars if s not in w]
            if len(w) != 1 or len(rest) != 1:
                # nothing raises the maximum any more, or the span is changed: told apart by the constructor
                w = {s for s in self.scalars if 'max' in s} or w
                rest = [s for s in self.scalars if s not in w]
            if len(w) != 1 or len(rest) != 1:
                raise AnalysisBroken('P11: cannot tell span and largest bucket of %s apart' % cls)
            self.mx, self.span = w.pop(), rest[0]
        elif self.kind == 'heap':
            for r in P.records.values():
                if r['q'] == 'QElement' or r['t'] == self.elemt:
                    self.eidx = [f['n'] for f in r['fields'] if f['t'] == 'i32'][0]
                    self.ekey = [f['n'] for f in r['fields'] if f['t'] == 'u64'][0]
                    d = [f for f in r['fields'] if f['t'] not in ('i32', 'u64')][0]
                    self.edata = d['n']
                    self.enode = [f['n'] for f in P.records[self.cls + '::Data']['fields'] if f['t'] == 'u32'][0]

    def op(self, name):
        c = [f for f in self.P.functions.values() if f.get('cls') == self.cls and f['n'] == name and f.get('b') is not None]
        return c[0] if c else None


class PI(Interp):
    def __init__(self, P, R, variant, **kw):
        super().__init__(P, variant, prims=[prims], maxstates=400, budget=2000000, forkret=64, **kw)
        self.R = R
        self.ROOT = ('p', S('arg:this:' + R.cls, False))
        self.sifts = {}

    def p(self, *steps):
        return (self.ROOT, tuple(('f', s) if isinstance(s, str) else ('i', s) for s in steps))

    def set(self, st, v, *steps):
        st.log = Log(st.log, 'store', self.p(*steps), v)

    def get(self, st, *steps):
        return self.read(st, self.p(*steps))

    def havoc_mods(self, n, st, fr):
        pre = dict(st.env)
        super().havoc_mods(n, st, fr)
        R = self.R
        if R.kind == 'bucket':
            h = self.get(st, R.mx)
            mark_unsigned(h)
            st.aux['head'] = st.aux.get('head', ()) + ((id(n), h),)
        elif st.aux.get('sift') is not None:
            p = st.aux['sift']
            for k, v in st.env.items():
                if k in pre and num(pre[k]) == p and v != pre[k]:
                    self.reshape(self, st, v)
                    st.aux['posvar'] = k
                    break

    def arith(self, op, a, b, t):
        b = num(b)
        if op == '>>' and b[0] == 'c':
            op, b = '/', C(1 << b[1])
        return super().arith(op, a, b, t)

    def same_index(self, a, b, st):
        r = super().same_index(a, b, st)
        if r == 'may' and st is not None:
            d = eq0(sub(num(a), num(b)))
            if st.facts.implies(neg(d), depth=2):
                return 'no'
        return r


def prims(self, e, st, fr, ov, op, args):
    R, n = self.R, e.get('n')
    if op is None and ov is not None and ov[0] == 'ptr':
        op = ov[1]
    oper = e.get('oper')
    if R.kind == 'bucket':
        if op is not None and op[0] == self.ROOT and len(op[1]) == 2 and op[1][0] == ('f', R.buckets) and R.deque:
            base = (op[0], op[1] + (('f', '#base'),))
            size = (op[0], op[1] + (('f', '#size'),))
            b0, sz = num(self.read(st, base)), num(self.read(st, size))

            def el(i):
                return (op[0], op[1] + (('i', i),))
            if n == 'front':
                return [(st, ('ptr', el(b0)))]
            if n == 'back':
                return [(st, ('ptr', el(add(b0, add(sz, C(-1))))))]
            if oper == '[]' or n == 'at':
                return [(st, ('ptr', el(add(b0, num(self.argval(st, args[0]))))))]
            if n in ('push_back', 'emplace_back'):
                self.store(st, el(add(b0, sz)), self.argval(st, args[0]))
                self.store(st, size, add(sz, ONE))
                return [(st, None)]
            if n == 'pop_front':
                self.store(st, base, add(b0, ONE))
                self.store(st, size, add(sz, C(-1)))
                return [(st, None)]
            if n == 'push_front':
                self.store(st, base, add(b0, C(-1)))
                self.store(st, el(add(b0, C(-1))), self.argval(st, args[0]))
                self.store(st, size, add(sz, ONE))
                return [(st, None)]
            if n == 'pop_back':
                self.store(st, size, add(sz, C(-1)))
                return [(st, None)]
    tab = R.place if R.kind == 'bucket' else R.index
    fld = (('f', 'first'),) if R.kind == 'bucket' else ()
    ismap = R.pmap if R.kind == 'bucket' else R.imap
    if ismap and op is not None and op == (self.ROOT, (('f', tab),)):
        if n == 'erase' and len(args) == 1:
            v = self.argval(st, args[0], e['args'][0].get('t', '') if e['args'][0] else '')
            self.store(st, (op[0], op[1] + (('i', num(v)),) + fld), self.UNDEF)
            return [(st, ONE)]
        if n in ('count', 'contains'):
            v = num(self.argval(st, args[0]))
            x = num(self.read(st, (op[0], op[1] + (('i', v),) + fld)))
            return [(s, (TRUE if b else FALSE) if n == 'contains' else C(1 if b else 0)) for s, b in self.assume(st, NE(x, self.UNDEF))]
        if n == 'find':
            v = num(self.argval(st, args[0]))
            return [(st, ('obj', 'found', (('key', v),)))]
        if n in ('end', 'cend'):
            return [(st, ('obj', 'tabend', ()))]
        if n == 'clear':
            self.store(st, (op[0], op[1] + (('f', '#cleared'),)), ONE)
            return None
    if oper in ('==', '!='):
        vs = []
        if e.get('obj') is not None:
            vs.append(ov if ov is not None else self.read(st, op))
        for a in args:
            vs.append(a[0] if a[0] is not None else self.read(st, a[1]))
        kk = [v[1] if v is not None and v[0] == 'obj' else None for v in vs]
        if len(vs) == 2 and 'found' in kk and 'tabend' in kk:
            v = vs[kk.index('found')][2][0][1]
            x = num(self.read(st, (self.ROOT, (('f', tab), ('i', v)) + fld)))
            return [(st, EQ(x, self.UNDEF) if oper == '==' else NE(x, self.UNDEF))]
    if oper in ('->', '*') and e.get('obj') is not None and not args:
        v = ov if ov is not None else self.read(st, op)
        if v[0] == 'obj' and v[1] == 'found':
            p = (('t', fresh('hit')), ())
            k = v[2][0][1]
            cell = (self.ROOT, (('f', tab), ('i', k)))
            w = ('snap', cell, st.log.uid) if R.kind == 'bucket' else self.read(st, cell)
            self.store(st, p, ('obj', 'pair', (('first', k), ('second', w))))
            return [(st, ('ptr', p))]
    if R.kind == 'heap' and e.get('q') in self.sifts and e.get('k') == 'call':
        x = num(self.argval(st, args[0]))
        if st.aux.get('sift') is not None:
            st.aux['rec'] = st.aux.get('rec', ()) + ((e['q'], x, st.log.uid),)
        else:
            st.aux['sifted'] = st.aux.get('sifted', ()) + ((e['q'], x, st.log, st.facts, e.get('l')),)
        return [(st, None)]
    return None


def stores(st, upto, log=None):
    n = st.log if log is None else log
    out = []
    while n is not None and n.uid != upto:
        if n.kind in ('store', 'havocp', 'havocelem'):
            out.append(n)
        n = n.parent
    return out


# ------------------------------------------------------------------ bucket queues
class Bucket:
    def __init__(self, P, c, R):
        self.P, self.c, self.R = P, c, R
        self.UNDEF = C((1 << 64) - 1)

    def interp(self, f):
        I = PI(self.P, self.R, sorted(f['variants'])[0])
        I.UNDEF = self.UNDEF
        return I

    def fresh_state(self, I):
        st = State()
        R = self.R
        self.cnt, self.spn, self.mx = S('count'), S('span'), S('max')
        I.set(st, self.cnt, R.count)
        I.set(st, self.spn, R.span)
        I.set(st, self.mx, R.mx)
        st.facts = st.facts.add(GE(self.cnt, ZERO))
        return st

    def bucket(self, I, st, b, shape, tag, node=None):
        """lay out bucket b -> {slot: vertex}"""
        R = self.R
        off = S('off' + tag) if R.off or R.deque else ZERO
        if R.off:
            I.set(st, off, R.off, b)
        if R.deque:
            I.set(st, off, R.buckets, b, '#base')
        f, l = S('first' + tag), S('last' + tag)
        node = node if node is not None else S('inner' + tag)
        F = off
        if shape == 'one':
            N = ONE
            slots = {F: node}
        else:
            N = S('size' + tag)
            L = add(F, add(N, C(-1)))
            st.facts = st.facts.add(GE(N, C(2)))
            if shape == 'first':
                slots = {F: node, L: l}
            elif shape == 'last':
                slots = {F: f, L: node}
            else:
                K = S('place' + tag)
                st.facts = st.facts.add(GT(K, F)).add(GT(L, K))
                slots = {F: f, K: node, L: l}
        I.set(st, N, R.buckets, b, '#size')
        vs = list(slots.values())
        for i, v in enumerate(vs):
            for w in vs[:i]:
                st.facts = st.facts.add(NE(v, w))
        for k, v in slots.items():
            I.set(st, v, R.buckets, b, k)
            I.set(st, k, R.place, v, 'first')
            I.set(st, sub(b, self.spn), R.place, v, 'second')
            st.facts = st.facts.add(NE(k, self.UNDEF)).add(GT(self.UNDEF, k))
        st.facts = st.facts.add(GE(b, self.spn))
        return slots, N

    def run(self, f, name, st, I, what, post):
        outs = []
        loops = []
        start = st.log.uid
        size0 = {}

        def on(e, s):
            if e.kind == 'loop-enter':
                m = num(I.get(s, self.R.mx))
                z = num(I.get(s, self.R.buckets, m, '#size'))
                loops.append(('enter', id(e.node), m, s.facts.implies(EQ(z, ZERO)), e.line))
            elif e.kind in ('loop-next', 'loop-exit', 'loop-body'):
                m = num(I.get(s, self.R.mx))
                z = num(I.get(s, self.R.buckets, m, '#size'))
                hd = [h for h in s.aux.get('head', ()) if h[0] == id(e.node)]
                h = hd[-1][1] if hd else None
                loops.append((e.kind[5:], id(e.node), m, s.facts.implies(EQ(z, ZERO)), e.line, h, s.facts.implies(GT(z, ZERO)), s.facts.implies(EQ(m, ZERO))))
                if e.kind == 'loop-exit':
                    s.aux['low'] = s.aux.get('low', ()) + ((id(e.node), m, h, s.log.uid),)
            elif e.kind == 'exit':
                outs.append((s.copy(), e.args[0] if e.args else None))
        I.on_event = on
        I.run(f, this=(I.ROOT, ()), state=st)
        if not outs:
            raise AnalysisBroken('P11: no path through %s' % f['q'])
        good = self.lowering(f, loops)
        for s, r in outs:
            self.invariant(f, name, s, I, start, what, good)
            post(s, r)
        self.c.saw(f)

    def lowering(self, f, loops):
        """-> {loop: may lower the index past empty buckets only}"""
        res = {}
        for i in {x[1] for x in loops}:
            ls = [x for x in loops if x[1] == i]
            if not any(x[0] in ('next', 'exit') and x[5] is not None and x[2] != num(x[5]) for x in ls):
                continue
            line = ls[0][4]
            A = all(x[3] for x in ls if x[0] == 'enter')
            B = all(x[3] for x in ls if x[0] == 'next')
            Cc = all(x[3] for x in ls if x[0] == 'body')
            step = all(sub(num(x[5]), x[2]) in (ZERO, ONE) for x in ls if x[0] in ('next', 'exit')) and all(sub(num(x[5]), x[2]) == ONE for x in ls if x[0] == 'next')
            stop = all(x[6] or x[7] for x in ls if x[0] == 'exit')
            if not step:
                self.bad('largest bucket', f, line, 'the search for the next non-empty bucket does not go down one bucket at a time', 'step')
            elif not (A and B or Cc):
                self.bad('largest bucket', f, line, 'the index of the largest bucket is lowered past a bucket that may hold elements', 'past')
            elif not stop:
                self.bad('largest bucket', f, line, 'the search for the next non-empty bucket may end at an empty one', 'stop')
            else:
                self.c.ok('largest bucket', '%s:%s' % (f['file'], line))
                res[i] = True
        return res

    def bad(self, rule, f, line, what, tag):
        self.c.violation(rule, f, line or f['l'], what, tag='%s %s' % (f['n'], tag))

    def invariant(self, f, name, s, I, start, what, lowered):
        R, F = self.R, s.facts
        if F.contradictory():
            return
        known = {}

        def eqv(a, b):
            return a == b or F.implies(EQ(a, b))
        bs, vs, slots = [], [], []
        for n in stores(s, None):
            p = n.path
            if p is None or p[0] != I.ROOT or not p[1]:
                continue
            st = p[1]
            if st[0] == ('f', R.buckets) and len(st) >= 2 and st[1][0] == 'i':
                b = num(st[1][1])
                if n.uid > self.start.uid and not any(eqv(b, x) for x in bs):
                    bs.append(b)
                if len(st) == 3 and st[2][0] == 'i':
                    k = num(st[2][1])
                    if not any(eqv(b, x) and eqv(k, y) for x, y in slots):
                        slots.append((b, k))
                elif len(st) == 2:
                    self.bad('well-formed', f, f['l'], 'a bucket is replaced as a whole', 'whole')
            elif st[0] == ('f', R.place) and len(st) >= 2 and st[1][0] == 'i':
                v = num(st[1][1])
                if not any(eqv(v, x) for x in vs):
                    vs.append(v)
            elif R.off and st[0] == ('f', R.off) and len(st) == 2:
                b = num(st[1][1])
                if n.uid > self.start.uid and not any(eqv(b, x) for x in bs):
                    bs.append(b)
        rep = lambda ok, rule, txt, tag: self.c.ok(rule, '%s %s %s' % (f['q'], what, tag)) if ok else self.bad(rule, f, f['l'], '%s (%s)' % (txt, what), tag)

        def rng(b):
            sz = num(I.get(s, R.buckets, b, '#size'))
            ba = num(I.get(s, R.buckets, b, '#base')) if R.deque else ZERO
            return ba, add(ba, sz)
        spn = num(I.get(s, R.span))
        rep(spn == self.spn, 'well-formed', 'the span of the queue changes', 'span')
        tot = ZERO
        for b in bs:
            lo, hi = rng(b)
            z0 = self.size0(I, b, s)
            tot = add(tot, sub(sub(hi, lo), z0))
            if R.off and R.deque and not eqv(lo, hi):      # nothing is left whose place it would shift
                o = num(I.get(s, R.off, b))
                rep(eqv(o, lo), 'well-formed', 'the offset of a bucket does not count the elements taken from its front', 'offset')
        cnt = num(I.get(s, R.count))
        rep(eqv(sub(cnt, self.cnt), tot), 'well-formed', 'the number of elements does not follow the buckets', 'count')
        live = []
        for b, k in slots:
            lo, hi = rng(b)
            if F.implies(GE(k, hi)) or F.implies(GT(lo, k)):
                continue
            v = num(I.get(s, R.buckets, b, k))
            live.append((b, k, v))
            pl, g = num(I.get(s, R.place, v, 'first')), num(I.get(s, R.place, v, 'second'))
            rep(eqv(pl, k) and eqv(add(g, self.spn), b), 'well-formed', 'an element of a bucket is not at the place recorded for it', 'slot')
        for v in vs:
            pl, g = num(I.get(s, R.place, v, 'first')), num(I.get(s, R.place, v, 'second'))
            if eqv(pl, self.UNDEF):
                rep(not any(eqv(v, x[2]) for x in live), 'well-formed', 'a vertex still in a bucket is recorded as absent', 'absent')
                continue
            b = add(g, self.spn)
            x = num(I.get(s, R.buckets, b, pl))
            lo, hi = rng(b)
            rep(eqv(x, v) and F.implies(GE(pl, lo)) and F.implies(GT(hi, pl)), 'well-formed', 'the place recorded for a vertex does not hold it', 'vertex')
        # largest bucket
        m = num(I.get(s, R.mx))
        z = num(I.get(s, R.buckets, m, '#size'))
        found = [x for x in s.aux.get('low', ()) if x[0] in lowered and x[1] == m and self.growing(I, s, x[3])]
        rep(F.implies(EQ(m, ZERO)) or F.implies(GT(z, ZERO)) or bool(found), 'largest bucket', 'the index of the largest bucket may name an empty bucket', 'empty')
        grown = [b for b in bs if F.implies(GT(sub(sub(rng(b)[1], rng(b)[0]), self.size0(I, b, s)), ZERO))]
        for b in grown:
            rep(F.implies(GE(m, b)), 'largest bucket', 'an element is put above the largest bucket', 'above')
        low = [x for x in s.aux.get('low', ()) if x[0] in lowered]
        ok = eqv(m, self.mx) or F.implies(GT(m, self.mx)) or any(eqv(m, b) for b in grown) and (F.implies(GE(m, self.mx)) or bool(low)) or bool(low)
        if not ok:
            # lowered without a search: only past its own empty bucket
            ok = F.implies(EQ(self.mx, add(m, ONE))) and F.implies(EQ(num(I.get(s, R.buckets, self.mx, '#size')), ZERO))
        rep(ok, 'largest bucket', 'the index of the largest bucket is lowered without a search', 'lowered')

    def growing(self, I, s, uid):
        """buckets have only grown since"""
        for n in stores(s, uid):
            p = n.path
            if p is not None and p[0] == I.ROOT and p[1][0] == ('f', self.R.buckets) and (len(p[1]) < 3 or p[1][2] == ('f', '#size')):
                if n.kind != 'store' or len(p[1]) < 3 or sub(num(n.val), num(I.read_log(p, n.parent, s))) != ONE:
                    return False
        return True

    def size0(self, I, b, s):
        return num(I.read_log(I.p(self.R.buckets, b, '#size'), self.start, s))

    # ---- operations
    def check(self):
        R, c = self.R, self.c
        node, gain = S('arg:node'), S('arg:gain')
        rep = lambda ok, f, rule, what, tag: c.ok(rule, '%s %s' % (f['q'], tag)) if ok else self.bad(rule, f, f['l'], what, tag)
        for name in ('insert', 'deleteMax', 'deleteNode', 'changeKey', 'increaseKey', 'decreaseKey', 'maxElement', 'maxValue', 'getKey', 'contains', 'gain', 'size', 'empty'):
            f = R.op(name)
            if f is None:
                if name != 'gain':
                    raise AnalysisBroken('P11: %s has no %s' % (R.cls, name))
                continue
            args = [node, gain][:len(f['params'])]
            params = f['params']
            shapes = self.shapes(name)
            for sh in shapes:
                I = self.interp(f)
                st = self.fresh_state(I)
                I.UNDEF = self.UNDEF
                ctx = self.layout(I, st, name, sh, node, gain)
                self.start = st.log
                Iargs = list(args)

                def post(s, r, name=name, sh=sh, ctx=ctx, f=f, I=I):
                    if s.facts.contradictory():
                        return
                    F = s.facts
                    eqv = lambda a, b: num(a) == num(b) or F.implies(EQ(num(a), num(b)))
                    P1 = lambda v: num(I.get(s, R.place, v, 'first'))
                    P2 = lambda v: num(I.get(s, R.place, v, 'second'))
                    tag = 'result ' + sh[0]
                    if name in ('insert', 'changeKey', 'increaseKey', 'decreaseKey'):
                        rep(not eqv(P1(node), self.UNDEF) and eqv(P2(node), gain), f, 'results', 'the vertex is not in the queue with the given key afterwards', 'key')
                    elif name == 'deleteNode':
                        rep(eqv(P1(node), self.UNDEF), f, 'results', 'the vertex is still recorded as present after its removal', 'removed')
                    elif name == 'deleteMax':
                        old = [v for v in ctx['slots'].values() if eqv(r, v)] if r is not None else []
                        rep(bool(old), f, 'results', 'the returned vertex is not one of the largest bucket', 'returned')
                        if r is not None:
                            rep(eqv(P1(num(r)), self.UNDEF), f, 'results', 'the returned vertex is still recorded as present', 'present')
                    elif name == 'maxElement':
                        v = r
                        if v is not None and v[0] == 'ptr':
                            v = I.read(s, v[1])
                        rep(any(eqv(v, x) for x in ctx['slots'].values()), f, 'results', 'the returned vertex is not one of the largest bucket', 'returned')
                    elif name == 'maxValue':
                        rep(eqv(r, sub(self.mx, self.spn)), f, 'results', 'the largest key is not the key of the largest bucket', 'value')
                    elif name == 'getKey':
                        rep(eqv(r, ctx['g']), f, 'results', 'the key returned is not the one recorded', 'value')
                    elif name == 'gain':
                        rep(eqv(r, ctx['g']) if sh[0] == 'in' else eqv(r, ZERO), f, 'results', 'the key returned is not the one recorded', 'value ' + sh[0])
                    elif name == 'contains':
                        truth(rep, f, F, r, sh[0] == 'in', 'a vertex is reported present or absent against the record')
                    elif name == 'size':
                        rep(eqv(r, self.cnt), f, 'results', 'the size is not the number of elements', 'value')
                    elif name == 'empty':
                        truth(rep, f, F, r, sh[0] == 'zero', 'the queue is reported empty with elements in it, or the other way round')
                I2args = {p['id']: a for p, a in zip(params, Iargs)}
                orig = I.run

                def runner(fn, this=None, state=None, orig=orig, Iargs=Iargs):
                    return orig(fn, this=this, args=Iargs, state=state)
                I.run = runner
                self.run(f, name, st, I, '%s' % (sh[0],), post)
        self.ctor()

    def shapes(self, name):
        if name == 'insert':
            return [('above', 0), ('below', 0), ('same', 0), ('bottom', 0)]
        if name in ('deleteMax', 'maxElement'):
            return [('one', 1), ('inner', 1)]
        if name in ('deleteNode', 'changeKey', 'increaseKey', 'decreaseKey'):
            t = [(x, m) for x in ('one', 'first', 'last', 'inner') for m in (0, 1)]
            t = [('%s%s' % (x, ' of the largest bucket' if m else ''), m) for x, m in t]
            return t
        if name in ('contains', 'gain'):
            return [('in', 0), ('out', 0)]
        if name == 'empty':
            return [('zero', 0), ('some', 0)]
        return [('any', 0)]

    def layout(self, I, st, name, sh, node, gain):
        R = self.R
        F = lambda a: setattr(st, 'facts', st.facts.add(a))
        other = lambda b: self.bucket(I, st, b, 'inner', 'm')
        if name == 'insert':
            b = add(gain, self.spn)
            I.set(st, self.UNDEF, R.place, node, 'first')
            z = S('size')
            off = S('off') if R.off or R.deque else ZERO
            if sh[0] in ('above', 'below'):
                I.set(st, z, R.buckets, b, '#size')
                if R.off:
                    I.set(st, off, R.off, b)
                if R.deque:
                    I.set(st, off, R.buckets, b, '#base')
                F(GT(self.UNDEF, add(off, z)))
            if sh[0] == 'above':
                F(GT(b, self.mx))
            elif sh[0] == 'below':
                F(GT(self.mx, b))
                zm = S('sizemax')
                I.set(st, zm, R.buckets, self.mx, '#size')
                F(GE(zm, ONE))
            elif sh[0] == 'same':
                I.set(st, b, R.mx)
                self.mx = b
                sl, N = self.bucket(I, st, b, 'inner', '')
                for v in sl.values():
                    F(NE(v, node))
                F(GT(self.UNDEF, add(off, N)))
            else:
                I.set(st, ZERO, R.mx)
                self.mx = ZERO
                I.set(st, z, R.buckets, b, '#size')
                if R.off:
                    I.set(st, off, R.off, b)
                if R.deque:
                    I.set(st, off, R.buckets, b, '#base')
                F(GT(self.UNDEF, add(off, z)))
            return {}
        if name in ('deleteMax', 'maxElement'):
            sl, N = self.bucket(I, st, self.mx, sh[0], '', node=S('inner'))
            F(GE(self.cnt, N))
            F(GE(self.cnt, ONE))
            return {'slots': sl}
        if name in ('deleteNode', 'changeKey', 'increaseKey', 'decreaseKey'):
            g = S('key')
            b = add(g, self.spn)
            sl, N = self.bucket(I, st, b, sh[0].split()[0], '', node=node)
            F(GE(self.cnt, ONE))
            if sh[1]:
                I.set(st, b, R.mx)
                self.mx = b
            else:
                F(GT(self.mx, b))
                zm = S('sizemax')
                I.set(st, zm, R.buckets, self.mx, '#size')
                F(GE(zm, ONE))
            if name != 'deleteNode':
                b2 = add(gain, self.spn)
                if name == 'increaseKey':
                    F(GT(gain, g))
                elif name == 'decreaseKey':
                    F(GT(g, gain))
                else:
                    F(NE(gain, g))
                z, off = S('size2'), S('off2') if R.off or R.deque else ZERO
                if not (sh[1] == 0 and False):
                    I.set(st, z, R.buckets, b2, '#size')
                    if R.off:
                        I.set(st, off, R.off, b2)
                    if R.deque:
                        I.set(st, off, R.buckets, b2, '#base')
                F(GT(self.UNDEF, add(off, z)))
                F(GT(self.UNDEF, add(off, add(z, ONE))))
                if not sh[1]:
                    F(NE(b2, self.mx))
                if name == 'decreaseKey' and not sh[1]:
                    F(GT(self.mx, b2))
            return {'slots': sl, 'g': g}
        g = S('key')
        if name in ('contains', 'gain', 'getKey'):
            if sh[0] == 'out':
                I.set(st, self.UNDEF, R.place, node, 'first')
            else:
                self.bucket(I, st, add(g, self.spn), 'inner', '', node=node)
        if name == 'empty':
            if sh[0] == 'zero':
                I.set(st, ZERO, R.count)
                self.cnt = ZERO
            else:
                F(GE(self.cnt, ONE))
        zm = S('sizemax')
        if name not in ('contains', 'gain', 'getKey'):
            I.set(st, zm, R.buckets, self.mx, '#size')
            F(GE(zm, ONE))
        else:
            F(NE(self.mx, add(g, self.spn)))
            F(GT(self.mx, add(g, self.spn)))
            I.set(st, zm, R.buckets, self.mx, '#size')
            F(GE(zm, ONE))
        return {'g': g}

    def ctor(self):
        R, c = self.R, self.c
        fs = [f for f in self.P.functions.values() if f.get('cls') == R.cls and f.get('ctor') == 'ctor' and f.get('b') is not None]
        for f in sorted(fs, key=lambda f: f['key']):
            I = self.interp(f)
            st = State()
            args, nn, sp = [], None, None
            for p in f['params']:
                w = '64' in p['t']
                v = S('arg:' + ('span' if w else 'num'))
                if w:
                    sp = v
                else:
                    nn = v
                args.append(v)
            outs = []
            I.on_event = lambda e, s: outs.append(s.copy()) if e.kind == 'exit' else None
            I.run(f, this=(I.ROOT, ()), args=args, state=st)
            rep = lambda ok, what, tag: c.ok('constructor', '%s %s' % (f['q'], tag)) if ok else self.bad('constructor', f, f['l'], what, 'ctor ' + tag)
            for s in outs:
                F = s.facts
                eqv = lambda a, b: num(a) == num(b) or F.implies(EQ(num(a), num(b)))
                rep(eqv(I.get(s, R.count), ZERO), 'a new queue does not count zero elements', 'count')
                rep(eqv(I.get(s, R.mx), ZERO), 'the largest bucket of a new queue is not the lowest one', 'max')
                rep(eqv(I.get(s, R.span), sp), 'a new queue does not keep the span it is made for', 'span')
                n = num(I.get(s, R.buckets, '#size'))
                want = add(mul(sp, C(2)), ONE)
                rep(F.implies(GE(n, want)), 'a new queue has fewer buckets than its span needs', 'buckets')
                if R.off:
                    o = num(I.get(s, R.off, '#size'))
                    rep(F.implies(GE(o, want)), 'a new queue has fewer offsets than buckets', 'offsets')
            c.saw(f)


def truth(rep, f, F, r, want, what):
    if r is None:
        rep(False, f, 'results', what, 'answer')
        return
    a = tobool(r) if r not in (TRUE, FALSE) else r
    rep(F.implies(a) if want else F.implies(neg(a)), f, 'results', what, 'answer %s' % want)


# ------------------------------------------------------------------ heaps
class Heap:
    def __init__(self, P, c, R):
        self.P, self.c, self.R = P, c, R
        if R.imap:
            self.UNDEF = S('absent')
        else:
            self.UNDEF = C((1 << 32) - 1)

    def bad(self, rule, f, line, what, tag):
        self.c.violation(rule, f, line or f['l'], what, tag='%s %s' % (f['n'], tag))

    def interp(self, f):
        I = PI(self.P, self.R, sorted(f['variants'])[0])
        I.UNDEF = self.UNDEF
        I.sifts = self.sifts
        return I

    def heapslot(self, I, st, i, key, e):
        I.set(st, key, self.R.heap, i, 'first')
        I.set(st, e, self.R.heap, i, 'second')

    def elem(self, I, st, j, i, w):
        R = self.R
        I.set(st, i, R.elems, j, R.eidx)
        I.set(st, w, R.elems, j, R.edata, R.enode)
        I.set(st, j, R.index, w)
        st.facts = st.facts.add(GT(self.UNDEF, j)).add(NE(j, self.UNDEF))

    def distinct(self, st, *ts):
        for i, a in enumerate(ts):
            for b in ts[:i]:
                if num(a) != num(b):
                    st.facts = st.facts.add(NE(a, b))

    # ---- sifting
    def find_sifts(self):
        R = self.R
        self.sifts = {}
        cands, rest = [], []
        for f in sorted(self.P.functions.values(), key=lambda f: f['key']):
            if f.get('cls') != R.cls or f.get('b') is None or len(f['params']) != 1 or f['n'] in IFACE or f.get('ctor'):
                continue
            t = f['params'][0]['t'].replace('const ', '').lstrip('&')
            if t not in ('i32', 'u32', 'u64', 'i64'):
                continue
            rec = any(x['k'] == 'call' and x.get('q') == f['q'] or x['k'] in ('for', 'while', 'do') for x in walk(f['b']))
            (cands if rec else rest).append(f)
        if len(cands) < 2:
            # one of them may not go on any more
            called = {x.get('q') for g in self.P.functions.values() if g.get('cls') == R.cls and g['n'] in IFACE and g.get('b') is not None for x in walk(g['b']) if x['k'] == 'call'}
            cands += [f for f in rest if f['q'] in called and f['ret'] == 'void']
        for f in cands:
            self.sifts[f['q']] = None
        for f in cands:
            self.sift(f)
        if sorted(v for v in self.sifts.values() if v) != ['down', 'up']:
            have = set(self.sifts.values())
            if not self.c.bad:
                raise AnalysisBroken('P11: sift routines of %s not recognised: %s' % (R.cls, self.sifts))

    def reshaper(self, shape):
        """lay the neighbourhood of position p out"""
        R = self.R

        def go(I, st, p):
            p = num(p)
            st.aux['sift'] = p
            st.aux['rec'] = ()
            n = S('n')
            left, right = add(mul(p, C(2)), ONE), add(mul(p, C(2)), C(2))
            par = ('app', '/', add(p, C(-1)), C(2))
            pos = {'p': p}
            F = lambda a: setattr(st, 'facts', st.facts.add(a))
            F(GE(p, ZERO))
            F(GE(n, ONE))
            F(GT(n, p))
            if shape[0] == 'root':
                F(EQ(p, ZERO))
                F(GE(ZERO, p))
            else:
                F(GE(p, ONE))
                F(GE(par, ZERO))
                F(GT(p, par))
                F(NE(p, par))
                F(NE(par, left))
                F(NE(par, right))
                pos['parent'] = par
            for q in (left, right):
                F(NE(p, q))
            if shape[1] == 0:
                F(GE(left, n))
            elif shape[1] == 1:
                F(EQ(n, right))
                F(GT(n, left))
                F(GE(right, n))
                pos['left'] = left
            else:
                F(GT(n, right))
                F(GT(n, left))
                pos['left'], pos['right'] = left, right
            u = str(st.log.uid)
            I.set(st, n, R.heap, '#size')
            I.set(st, n, R.elems, '#size')
            es = []
            lay = {}
            for k, i in pos.items():
                key, e, w = S('key %s %s' % (k, u)), S('element %s %s' % (k, u)), S('vertex %s %s' % (k, u))
                F(GE(e, ZERO))
                for e2, w2 in es:
                    F(NE(e, e2))
                    F(NE(w, w2))
                es.append((e, w))
                self.heapslot(I, st, i, key, e)
                self.elem(I, st, e, i, w)
                lay[k] = (i, key, e)
            st.aux['lay'] = (lay, st.log, n)
        return go

    def sift(self, f):
        R, c = self.R, self.c
        dirs = set()
        ends = []
        for shape in [(a, b) for a in ('root', 'inner') for b in (0, 1, 2)]:
            I = self.interp(f)
            go = self.reshaper(shape)
            I.reshape = go
            st = State()
            p = S('position')
            go(I, st, p)

            def on(e, s, shape=shape, I=I):
                if e.kind in ('exit', 'loop-next'):
                    if s.facts.contradictory():
                        return
                    pv = s.aux.get('posvar')
                    ends.append((shape, I, s.copy(), e.kind, num(s.env[pv]) if pv is not None and pv in s.env else None))
            I.on_event = on
            I.run(f, this=(I.ROOT, ()), args=[p], state=st)
        c.saw(f)
        steps = []
        for shape, I, s, kind, nxt in ends:
            lay, log, n = s.aux['lay']
            wr = [x for x in stores(s, log.uid)]
            F = s.facts
            eqv = lambda a, b: num(a) == num(b) or F.implies(EQ(num(a), num(b)))
            moved = None
            if wr:
                for k, (i, key, e) in lay.items():
                    if k != 'p' and eqv(I.get(s, R.heap, i, 'second'), lay['p'][2]):
                        moved = k
            steps.append((shape, I, s, kind, nxt, wr, moved))
            if moved:
                dirs.add('up' if moved == 'parent' else 'down')
        if len(dirs) != 1:
            # told by the direction of its continuation
            rec = set()
            for shape, I, s, kind, nxt, wr, moved in steps:
                lay = s.aux['lay'][0]
                for _, x, _ in s.aux.get('rec', ()):
                    for k in ('left', 'right'):
                        if k in lay and num(x) == num(lay[k][0]):
                            rec.add('down')
                    if 'parent' in lay and num(x) == num(lay['parent'][0]):
                        rec.add('up')
            if len(rec) == 1:
                dirs = rec
        if len(dirs) != 1:
            dirs = {'up'} if 'up' in f['n'].lower() else {'down'} if 'down' in f['n'].lower() else dirs
        if len(dirs) != 1:
            raise AnalysisBroken('P11: direction of %s not recognised' % f['q'])
        d = dirs.pop()
        self.sifts[f['q']] = d
        for shape, I, s, kind, nxt, wr, moved in steps:
            lay, log, n = s.aux['lay']
            F = s.facts
            eqv = lambda a, b: num(a) == num(b) or F.implies(EQ(num(a), num(b)))
            kp = lay['p'][1]
            what = '%s, %d children' % shape
            rep = lambda ok, txt, tag: c.ok('sifting', '%s %s %s' % (f['q'], what, tag)) if ok else self.bad('sifting', f, f['l'], '%s (%s)' % (txt, what), tag)
            rec = s.aux.get('rec', ())
            if not wr:
                if kind == 'loop-next' and nxt is not None and eqv(nxt, lay['p'][0]) or rec:
                    rep(False, 'the sifting goes on without having moved the element', 'idle')
                    continue
                if d == 'down':
                    for k in ('left', 'right'):
                        if k in lay:
                            rep(F.implies(GE(kp, lay[k][1])), 'the sifting ends although a child may have a larger key', 'end')
                elif 'parent' in lay:
                    rep(F.implies(GE(lay['parent'][1], kp)), 'the sifting ends although the parent may have a smaller key', 'end')
                continue
            if moved is None:
                rep(False, 'the sifting changes the heap without exchanging the element with its parent or a child', 'exchange')
                continue
            i2, k2, e2 = lay[moved]
            slots = [i2]
            tgt = [x for x in slots if eqv(I.get(s, R.heap, x, 'second'), lay['p'][2])]
            ok = bool(tgt) and eqv(I.get(s, R.heap, tgt[0], 'first'), kp) and eqv(I.get(s, R.heap, lay['p'][0], 'first'), k2) and eqv(I.get(s, R.heap, lay['p'][0], 'second'), e2)
            rep(ok, 'the sifting does not exchange the two entries of the heap', 'exchange')
            rep(bool(tgt) and any(eqv(I.get(s, R.elems, lay['p'][2], R.eidx), x) for x in slots) and eqv(I.get(s, R.elems, e2, R.eidx), lay['p'][0]),
                'an element is not told its new slot of the heap', 'index')
            others = [k for k in lay if k not in ('p', moved)]
            rep(all(eqv(I.get(s, R.heap, lay[k][0], 'second'), lay[k][2]) and eqv(I.get(s, R.elems, lay[k][2], R.eidx), lay[k][0]) for k in others), 'the sifting changes entries it does not exchange', 'others')
            rep(all(x.path is None or x.path[0] != I.ROOT or self.touches(x.path, slots + [lay['p'][0]], (lay['p'][2], e2), eqv) for x in wr), 'the sifting changes entries it does not exchange', 'others')
            if d == 'down':
                o = 'left' if moved == 'right' else 'right'
                rep(F.implies(GE(k2, kp)), 'the element is exchanged with a child of smaller key', 'order')
                if o in lay:
                    rep(F.implies(GE(k2, lay[o][1])), 'the element is exchanged with a child that may not be the larger one', 'larger')
            else:
                rep(F.implies(GE(kp, k2)), 'the element is exchanged with a parent of larger key', 'order')
            if kind == 'loop-next':
                rep(nxt is not None and any(eqv(nxt, x) for x in slots) and not rec, 'the sifting does not go on where the element now is', 'next')
            else:
                rep(len(rec) == 1 and rec[0][0] == f['q'] and any(eqv(rec[0][1], x) for x in slots), 'the sifting does not go on where the element now is', 'next')

    def touches(self, p, slots, elems, eqv):
        R, s = self.R, p[1]
        if s[0] == ('f', R.heap) and len(s) >= 2 and s[1][0] == 'i':
            return any(eqv(s[1][1], x) for x in slots)
        if s[0] == ('f', R.elems) and len(s) >= 2 and s[1][0] == 'i':
            return any(eqv(s[1][1], x) for x in elems)
        return False

    # ---- operations
    def layout(self, I, st, sh, node, first=None):
        """heap of n elements; h slot and e element of `node`; l element in the last slot, q slot of the last element"""
        R = self.R
        F = lambda a: setattr(st, 'facts', st.facts.add(a))
        n = S('n')
        last = add(n, C(-1))
        h, e, l, q = S('slot'), S('element'), S('lastel'), S('lastslot')
        w, wl, wq = node, S('vertexl'), S('vertexq')
        key = S('key')
        F(GE(n, ONE))
        F(GT(self.UNDEF, n))
        if 'h' in sh:
            h = last
        if first == 0 and h != last:
            h = ZERO
        if first == 0 and 'h' in sh:
            n = ONE
            h = last = ZERO
        if 'e' in sh:
            e = last
        if 'l' in sh:
            l = last
            q = last
        cells, els = {}, {}
        cells[h] = (key, e)
        els[e] = (h, w)
        if 'h' not in sh:
            if 'l' in sh:
                cells[last] = (S('keyl'), l)
                els[l] = (last, wl)
            else:
                cells[last] = (S('keyl'), l)
                els[l] = (last, wl)
                F(GT(last, l))
        if 'e' not in sh and 'l' not in sh:
            cells[q] = (S('keyq'), last)
            els[last] = (q, wq)
            F(GT(last, q))
        for i in cells:
            F(GE(i, ZERO))
            F(GE(last, i))
            if i != last:
                F(GT(last, i))
        for i in els:
            F(GE(i, ZERO))
            if i != last:
                F(GT(last, i))
        self.distinct(st, *cells)
        self.distinct(st, *els)
        self.distinct(st, *[x[1] for x in els.values()])
        I.set(st, n, R.heap, '#size')
        I.set(st, n, R.elems, '#size')
        for i, (k, x) in cells.items():
            self.heapslot(I, st, i, k, x)
        for j, (i, v) in els.items():
            self.elem(I, st, j, i, v)
        if first == 0 and num(h) == ZERO:
            # the root holds a largest key
            for i, (k, x) in cells.items():
                F(GE(key, k))
        return {'n': n, 'h': h, 'e': e, 'key': key, 'cells': cells, 'els': els, 'w': w}

    def check(self):
        R, c = self.R, self.c
        self.find_sifts()
        node, gain = S('arg:node'), S('arg:gain')
        SH = [(), ('h',), ('e',), ('l',), ('h', 'e')]
        names = {(): 'inner slot and element', ('h',): 'last slot', ('e',): 'last element', ('l',): 'last slot holds last element', ('h', 'e'): 'last slot and element', 'absent': 'absent', 'none': 'empty queue', 'zero': 'empty'}
        for name in IFACE:
            f = R.op(name)
            if f is None:
                if name == 'gain':
                    continue
                raise AnalysisBroken('P11: %s has no %s' % (R.cls, name))
            if name == 'insert':
                shapes = ['absent', 'none', ()]
            elif name == 'deleteMax':
                shapes = SH + ['none']
                shapes = [s for s in shapes if s != ('h',)]
            elif name in ('maxElement', 'maxValue'):
                shapes = [(), ('e',)]
            elif name == 'contains':
                shapes = ['absent', ()]
            elif name == 'empty':
                shapes = ['none', ()]
            elif name in ('size', 'getKey'):
                shapes = [()]
            else:
                shapes = SH
            for sh in shapes:
                I = self.interp(f)
                st = State()
                F = lambda a: setattr(st, 'facts', st.facts.add(a))
                L = None
                if sh == 'none':
                    I.set(st, ZERO, R.heap, '#size')
                    I.set(st, ZERO, R.elems, '#size')
                    I.set(st, self.UNDEF, R.index, node)
                    F(GT(self.UNDEF, C(4)))
                elif sh == 'absent':
                    n = S('n')
                    I.set(st, n, R.heap, '#size')
                    I.set(st, n, R.elems, '#size')
                    I.set(st, self.UNDEF, R.index, node)
                    F(GE(n, ONE))
                    F(GT(self.UNDEF, add(n, ONE)))
                    F(NE(self.UNDEF, n))
                else:
                    w = node
                    L = self.layout(I, st, sh, w if name not in ('deleteMax', 'maxElement', 'maxValue') else S('top'), first=0 if name in ('deleteMax', 'maxElement', 'maxValue') else None)
                    if name == 'decreaseKey':
                        F(GT(L['key'], gain))
                    elif name == 'increaseKey':
                        F(GT(gain, L['key']))
                start = st.log
                outs = []
                I.on_event = lambda e, s: outs.append((s.copy(), e.args[0] if e.args else None)) if e.kind == 'exit' else None
                I.run(f, this=(I.ROOT, ()), args=[node, gain][:len(f['params'])], state=st)
                if not outs:
                    raise AnalysisBroken('P11: no path through %s' % f['q'])
                c.saw(f)
                for s, r in outs:
                    if s.facts.contradictory():
                        continue
                    self.invariant(f, I, s, start, names[sh], L)
                    self.results(f, name, I, s, r, sh, L, node, gain, names[sh])
        self.others()

    def results(self, f, name, I, s, r, sh, L, node, gain, what):
        R, c, F = self.R, self.c, s.facts
        eqv = lambda a, b: num(a) == num(b) or F.implies(EQ(num(a), num(b)))
        rep = lambda ok, f, rule, txt, tag: c.ok(rule, '%s %s %s' % (f['q'], what, tag)) if ok else self.bad(rule, f, f['l'], '%s (%s)' % (txt, what), tag)
        if r is not None and r[0] == 'ptr':
            r = I.read(s, r[1])
        idx = lambda v: num(I.get(s, R.index, v))
        n1 = num(I.get(s, R.heap, '#size'))
        if name == 'insert':
            if sh == ():
                rep(eqv(n1, L['n']), f, 'results', 'a vertex is put into the queue a second time', 'twice')
                return
            j = idx(node)
            i = num(I.get(s, R.elems, j, R.eidx))
            ok = not eqv(j, self.UNDEF) and eqv(I.get(s, R.heap, i, 'first'), gain) and eqv(I.get(s, R.elems, j, R.edata, R.enode), node)
            rep(ok, f, 'results', 'the vertex is not in the queue with the given key afterwards', 'key')
        elif name in ('changeKey', 'increaseKey', 'decreaseKey'):
            j = idx(node)
            i = num(I.get(s, R.elems, j, R.eidx))
            rep(eqv(I.get(s, R.heap, i, 'first'), gain), f, 'results', 'the vertex does not have the given key afterwards', 'key')
        elif name == 'deleteNode':
            rep(eqv(idx(node), self.UNDEF), f, 'results', 'the vertex is still recorded as present after its removal', 'removed')
        elif name == 'deleteMax':
            if sh == 'none':
                return
            rep(r is not None and eqv(r, L['w']), f, 'results', 'the returned vertex is not the one at the root', 'returned')
            rep(eqv(idx(L['w']), self.UNDEF), f, 'results', 'the returned vertex is still recorded as present', 'present')
        elif name == 'maxElement':
            rep(r is not None and eqv(r, L['w']), f, 'results', 'the returned vertex is not the one at the root', 'returned')
        elif name in ('maxValue', 'getKey'):
            rep(r is not None and eqv(r, L['key']), f, 'results', 'the returned key is not the one in the heap', 'value')
        elif name == 'contains':
            truth(rep, f, F, r, sh == (), 'a vertex is reported present or absent against the record')
        elif name == 'size':
            rep(r is not None and eqv(r, L['n']), f, 'results', 'the size is not the number of elements', 'value')
        elif name == 'empty':
            truth(rep, f, F, r, sh == 'none', 'the queue is reported empty with elements in it, or the other way round')

    def state_ok(self, f, I, s, log, F, what, at):
        """heap, elements and index of everything touched are inverse to each other in the memory `log`"""
        R, c = self.R, self.c
        eqv = lambda a, b: num(a) == num(b) or F.implies(EQ(num(a), num(b)))
        get = lambda *st: num(I.read_log(I.p(*st), log, s))
        rep = lambda ok, rule, txt, tag: c.ok(rule, '%s %s %s' % (f['q'], what, tag)) if ok else self.bad(rule, f, f['l'], '%s (%s)' % (txt, what), tag)
        n, m = get(R.heap, '#size'), get(R.elems, '#size')
        rep(eqv(n, m), 'well-formed', 'heap and elements have different sizes' + at, 'sizes')
        hs, es, vs = [], [], []

        def put(l, x):
            x = num(x)
            if not any(eqv(x, y) for y in l):
                l.append(x)
        for x in stores(s, None, log):
            p = x.path
            if p is None or p[0] != I.ROOT or not p[1]:
                continue
            st = p[1]
            if st[0] == ('f', R.heap) and len(st) > 1 and st[1][0] == 'i':
                put(hs, st[1][1])
            elif st[0] == ('f', R.elems) and len(st) > 1 and st[1][0] == 'i':
                put(es, st[1][1])
            elif st[0] == ('f', R.index) and len(st) > 1 and st[1][0] == 'i':
                put(vs, st[1][1])
        live = []
        for i in hs:
            if F.implies(GE(i, n)):
                continue
            e = get(R.heap, i, 'second')
            ok = eqv(get(R.elems, e, R.eidx), i) and F.implies(GT(m, e))
            rep(ok, 'well-formed', 'the element in a slot of the heap does not know its slot' + at, 'slot')
        for j in es:
            if F.implies(GE(j, m)):
                continue
            i = get(R.elems, j, R.eidx)
            w = get(R.elems, j, R.edata, R.enode)
            live.append(w)
            rep(eqv(get(R.heap, i, 'second'), j) and F.implies(GT(n, i)), 'well-formed', 'the slot an element names does not hold it' + at, 'element')
            rep(eqv(get(R.index, w), j), 'well-formed', 'the index of a vertex does not name its element' + at, 'index')
        for v in vs:
            j = get(R.index, v)
            if eqv(j, self.UNDEF):
                rep(not any(eqv(v, w) for w in live), 'well-formed', 'a vertex still in the queue is recorded as absent' + at, 'absent')
            else:
                rep(eqv(get(R.elems, j, R.edata, R.enode), v) and F.implies(GT(m, j)), 'well-formed', 'the index of a vertex does not name its element' + at, 'vertex')
        return hs, n

    def invariant(self, f, I, s, start, what, L):
        R, c, F = self.R, self.c, s.facts
        eqv = lambda a, b: num(a) == num(b) or F.implies(EQ(num(a), num(b)))
        rep = lambda ok, rule, txt, tag: c.ok(rule, '%s %s %s' % (f['q'], what, tag)) if ok else self.bad(rule, f, f['l'], '%s (%s)' % (txt, what), tag)
        hs, n = self.state_ok(f, I, s, s.log, F, what, '')
        sifted = s.aux.get('sifted', ())
        n0 = num(I.read_log(I.p(R.heap, '#size'), start, None))
        for q, x, log, facts, line in sifted:
            self.state_ok(f, I, s, log, facts, what, ' when it is sifted')
            rep(facts.implies(GT(num(I.read_log(I.p(R.heap, '#size'), log, s)), x)) and facts.implies(GE(x, ZERO)), 'sifting', 'a slot outside the heap is sifted', 'range')
        for i in hs:
            if F.implies(GE(i, n)):
                continue
            new = num(I.get(s, R.heap, i, 'first'))
            old = num(I.read_log(I.p(R.heap, i, 'first'), start, s))
            fresh_ = F.implies(GE(i, n0))
            if not fresh_ and (new == old or F.implies(EQ(new, old))):
                continue
            up = fresh_ or not F.implies(GE(old, new))
            down = not fresh_ and not F.implies(GE(new, old))
            if eqv(i, ZERO):
                up = False
            if F.implies(GE(add(mul(i, C(2)), ONE), n)):
                down = False
            for d, need in (('up', up), ('down', down)):
                if need:
                    rep(any(self.sifts.get(q) == d and eqv(x, i) for q, x, log, fa, ln in sifted), 'sifting', 'a slot whose key may have become %s is not sifted %s' % ('larger' if d == 'up' else 'smaller', d), d)

    def others(self):
        R, c = self.R, self.c
        f = R.op('reset')
        if f is not None:
            I = self.interp(f)
            outs = []
            I.on_event = lambda e, s: outs.append(s.copy()) if e.kind == 'exit' else None
            I.run(f, this=(I.ROOT, ()), args=[], state=State())
            for s in outs:
                ok = num(I.get(s, R.heap, '#size')) == ZERO and num(I.get(s, R.elems, '#size')) == ZERO
                idx = any(x.path is not None and x.path[1][:1] == (('f', R.index),) for x in stores(s, None))
                c.check(ok and idx, 'constructor', f, f['l'], 'emptying the queue leaves part of it', tag='reset')
            c.saw(f)
        for f in sorted((f for f in self.P.functions.values() if f.get('cls') == R.cls and f.get('ctor') == 'ctor' and f.get('b') is not None), key=lambda f: f['key']):
            if R.imap:
                continue
            I = self.interp(f)
            outs = []
            I.on_event = lambda e, s: outs.append(s.copy()) if e.kind == 'exit' else None
            I.run(f, this=(I.ROOT, ()), args=[S('arg:num') for p in f['params']], state=State())
            for s in outs:
                c.check(num(I.get(s, R.index, '#size')) == S('arg:num') and num(I.get(s, R.index, S('any'))) == self.UNDEF, 'constructor', f, f['l'], 'a new queue does not record every vertex as absent', tag='ctor')
            c.saw(f)


# ------------------------------------------------------------------ keys handed over
def usage(P, c, buckets, heaps):
    """in every scan with a bound: a bucket queue has a bucket for each key it is given"""
    iface = buckets | heaps | {'priority_queue_interface'}

    def home(q):
        q = short(q)
        return q.rsplit('::', 1)[0] if '::' in q else ''

    def pq(self, e, st, fr, ov, op, args):
        q, n = e['q'], e.get('n')
        h = home(q)
        if h not in iface or e.get('oper'):
            return None
        vals = [num(self.argval(st, a)) for a in args]
        if e.get('k') != 'call':
            if h in buckets:
                self.emit(st, fr, e, 'pq.new', h, args=vals[-1:])
                st.aux['span'] = (vals[-1], e.get('l'), fr.fn['key'])
            elif h in heaps:
                st.aux['span'] = None
            return [(st, ('obj', 'queue', ()))]
        if e.get('obj') is None or e['obj'].get('k') == 'this':
            return None
        if n in ('insert', 'increaseKey', 'changeKey', 'decreaseKey'):
            self.emit(st, fr, e, 'pq.key', n, args=vals)
            return [(st, None)]
        r = fresh(n)
        mark_unsigned(r)
        return [(st, r)]

    for f in sorted(P.functions.values(), key=lambda f: f['key']):
        if f.get('b') is None or f.get('lambda') or home(f['q']) in iface:
            continue
        if not any(x['k'] == 'call' and x.get('n') == 'deleteMax' and home(x.get('q', '')) in iface for x in walk(f['b'])):
            continue
        weights = [p for p in f['params'] if p['t'].replace('const ', '').lstrip('&') in ('u64', 'i64')]
        merges = any(x['k'] == 'call' and short(x.get('q') or '') == 'union_find::Union' and any(y is x for L in walk(f['b']) if L['k'] in ('for', 'while', 'do', 'forrange') for y in walk(L['b'])) for x in walk(f['b']))
        if not weights or not merges:
            continue
        variant = sorted(f['variants'])[-1]
        I = Interp(P, variant, prims=[pq, graph_prims], maxstates=200, budget=6000000, forkret=32)
        seen = {}

        def on(e, st):
            if e.kind != 'pq.key' or st.facts.contradictory() or 'span' not in st.aux:
                return
            sp = st.aux['span']
            k = e.args[1] if len(e.args) > 1 else ZERO
            at = (e.fn['file'], e.line)
            seen.setdefault(at, [e.fn, True, ''])
            if sp is None or k == ZERO:
                return
            F = st.facts
            span = sp[0]

            def bounded(x):
                return F.implies(GE(span, x)) or x[0] == 'app' and x[1] == 'min' and any(bounded(num(y)) for y in x[2:])
            if bounded(k):
                return
            deg = any(t[0] == 'app' and t[1] == 'maxdeg' or t[0] == 's' and 'getMaxDegree' in t[1] for t in subterms(span))
            own = {y for y in subterms(k) if y[0] == 'ld' and len(y[1][1]) == 1 and y[1][1][0][0] == 'i' and y[1][0][0] == 'v'}
            if deg and own:
                return
            seen[at][1] = False
            seen[at][2] = 'a vertex is given the key %s, but the queue may have been made for keys up to %s only' % (show(k)[:80], show(span)[:80])
        I.on_event = on
        args = [None] * len(f['params'])
        L = ('s', 'bound', 0)
        mark_unsigned(L)
        args[f['params'].index(weights[0])] = L
        I.run(f, args=args)
        for (file, line), (fn, ok, what) in sorted(seen.items()):
            c.check(ok, 'keys fit', fn, line, what, tag='span')
        c.saw(f)
    c.floor('keys fit', 4)


def run(P, c, tier):
    n = 0
    kinds = {'bucket': set(), 'heap': set()}
    for cls in sorted(P.records):
        if 'priority_queue_interface' not in P.records[cls]['bases']:
            continue
        R = Roles(P, cls)
        if R.kind:
            kinds[R.kind].add(cls)
        if R.kind == 'bucket':
            Bucket(P, c, R).check()
            n += 1
        elif R.kind == 'heap':
            Heap(P, c, R).check()
            n += 1
    usage(P, c, kinds['bucket'], kinds['heap'])
    c.floor('well-formed', 100)
    if n < 5:
        raise AnalysisBroken('P11: only %d queue classes recognised' % n)
