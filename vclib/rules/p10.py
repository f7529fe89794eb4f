"""Union-find: joined elements stay joined, others stay apart, under every interleaving."""
from ..absint import Interp, Budget, fresh, mark_unsigned
from ..ast import strip
from ..program import walk, AnalysisBroken
from ..terms import *
from ..ctx import short

RULE = ('Every union-find class is found by its structure (an array of indices that its own search follows). Symbolic execution of its methods decides each write to that array: it either '
        'initialises an element to itself, or shortens the way of an element to one of its own ancestors, or links a root to a different root of the pair passed in. Where the array is '
        'written by atomic instructions every write must be one, the value it expects is the one it replaces, and links go from lower to higher index (a fixed order, so no cycle can form). '
        'The search returns only elements that are their own parent, joining reports a merge exactly when it linked, and the number of sets changes exactly with the links.')
ASSUMPTIONS = ['indices passed in are below the number of elements']


def find_classes(P):
    """(class, file) -> (methods, parent member)"""
    out = {}
    for f in P.functions.values():
        if not f.get('cls') or f.get('b') is None or f['n'] != 'Find':
            continue
        for x in walk(f['b']):
            if x['k'] == 'call' and x.get('oper') == '[]' and x.get('obj') is not None:
                o = strip(x['obj'])
                if o['k'] == 'mem' and strip(o['base'])['k'] == 'this':
                    out[(f['cls'], f['file'])] = o['n']
                    break
    return out


class Counter:
    n = 0


def roots_prim(parent, mult):
    def prim(self, e, st, fr, ov, op, args):
        if e.get('k') == 'call' and e.get('n') == 'Find' and e.get('obj') is not None and len(args) == 1:
            g = self.P.lookup(e['f'], self.variant) if 'f' in e else None
            if g is not None and g['n'] == 'Find':
                x = num(self.argval(st, args[0]))
                Counter.n += 1
                r = ('s', 'root#%d' % Counter.n, 0)
                mark_unsigned(r)
                ROOT[r] = x
                self.emit(st, fr, e, 'find', 'Find', args=[x, r])
                return [(st, r)]
        return None
    return prim


ROOT = {}


def steps_of(obj):
    return obj[1]


def is_parent_elem(obj, parent):
    return obj is not None and len(obj[1]) >= 2 and obj[1][-1][0] == 'i' and obj[1][-2] == ('f', parent) and \
        isinstance(obj[0], tuple) and 'this' in str(obj[0])


def ancestor(v, x, parent, F, d=0):
    """how many steps up from x the value v lies; None when it is not on the way up"""
    v = num(v)
    if d > 6:
        return None
    if v == x or d and F is not None and F.implies(EQ(v, x)):
        return 0
    if v in ROOT:
        r = ancestor(ROOT[v], x, parent, F, d + 1)
        return None if r is None else r + 1
    if v[0] == 'ld' and len(v[1][1]) >= 2 and v[1][1][-2] == ('f', parent) and v[1][1][-1][0] == 'i':
        r = ancestor(num(v[1][1][-1][1]), x, parent, F, d + 1)
        return None if r is None else r + 1
    # another name for the same value
    for at in F.atoms if F is not None else ():
        if at[0] == 'eq0':
            c, t = parts(at[1])
            if c == 0 and len(t) == 2 and sorted(t.values()) == [-1, 1] and v in t:
                w = [k for k in t if k != v][0]
                if w[0] == 'ld':
                    r = ancestor(w, x, parent, F, d + 3)
                    if r is not None:
                        return r
    return None


def origin(v, I, d=0):
    """the parameter a root belongs to"""
    v = num(v)
    if d > 8:
        return None
    if v in ROOT:
        return origin(ROOT[v], I, d + 1)
    if v in I.loopvars:
        return origin(I.loopvars[v][1], I, d + 1)
    if v[0] == 's' and v[1].startswith('arg:'):
        return v[1]
    if v[0] == 'lin' or v[0] == '+':
        return None
    return None


def run(P, ctx, tier):
    cl = find_classes(P)
    if len(cl) < 2:
        raise AnalysisBroken('P10: expected a sequential and a parallel union-find, found %d' % len(cl))
    for (cls, file), parent in sorted(cl.items()):
        ms = [f for f in P.functions.values() if f.get('cls') == cls and f['file'] == file and f.get('b') is not None]
        atomic = any(x['k'] == 'call' and x.get('q', '').startswith(('__sync_', '__atomic_')) or x['k'] == 'call' and x.get('q', '').startswith('std::atomic')
                     for f in ms for x in walk(f['b']))
        if '/parallel/' in '/' + file:
            atomic = True
        R = P.records.get(cls)
        for f in ms:
            ctx.saw(f)
            decide(P, ctx, f, parent, atomic, cls, ms)
    ctx.floor('write to the parents', 6)
    ctx.floor('search returns a root', 2)
    ctx.floor('joining reports links', 4)


def decide(P, ctx, f, parent, atomic, cls, ms):
    variant = 'par' if 'par' in f['variants'] else 'seq'
    private = f['n'] not in ('Union', 'Find', 'SameSet', 'n') and not f.get('ctor')
    # helpers are seen inlined where they are called
    callers = [g for g in ms if g is not f and any(x['k'] == 'call' and x.get('f') == f['u'] for x in walk(g['b']))]
    if private and (callers or not any(x.get('f') == f['u'] for g in P.functions.values() if g.get('b') is not None for x in walk(g['b']) if x['k'] == 'call')):
        return
    I = Interp(P, variant, prims=[roots_prim(parent, atomic)], maxstates=100, budget=2000000)
    W, rets = [], []
    cnt = {}

    def on(e, st):
        if e.kind == 'find':
            st.aux['roots'] = st.aux.get('roots', frozenset()) | {e.args[1]}
        if e.kind == 'write' and is_parent_elem(e.obj, parent):
            idx = num(e.obj[1][-1][1])
            W.append((e, idx, num(e.args[0]), st.facts, st.aux.get('roots', frozenset())))
            if f['n'] != 'Find':
                st.aux['linked'] = st.aux.get('linked', frozenset()) | {len(st.aux.get('linked', ()))}
        if e.kind == 'write' and e.obj is not None and len(e.obj[1]) == 1 and e.obj[1][0][0] == 'f' and f['n'] == 'Union':
            fld = e.obj[1][0][1]
            if is_counter(ms, fld):
                old = e.args[1] if len(e.args) > 1 and e.args[1] is not None else None
                new = num(e.args[0])
                st.aux['count'] = st.aux.get('count', frozenset()) | {('w', fld, e.line, str(show(new)))}
                cnt.setdefault(fld, []).append((e, new))
        if e.kind == 'return' and e.fn is f:
            rets.append((e, num(e.args[0]) if e.args and e.args[0] is not None else None, st.facts, dict(st.aux)))
    I.on_event = on
    try:
        I.run(f)
    except Budget:
        raise AnalysisBroken('P10: budget exceeded in ' + f['q'])
    rule = 'write to the parents'
    for e, idx, val, F, roots in W:
        if f.get('ctor'):
            good = idx == val
            if good and idx in I.loopvars:
                ctx.check(num(I.loopvars[idx][1]) == C(0), 'all elements start alone', f, e.line, 'the initialisation does not start at the first element', tag='start')
            ctx.check(good, rule, f, e.line, 'an element starts with a parent other than itself', tag='init')
            continue
        if atomic:
            ctx.check(e.extra == 'atomic', 'atomic update', f, e.line,
                      'a parent is overwritten without comparing it with the value the decision was based on, a concurrent change is lost', tag='plain')
        link = None
        if e.extra == 'atomic' and e.node is not None:
            exp = None
            for c in reversed(I.events):
                if c.kind == 'cas' and c.node is e.node and c.seq < e.seq:
                    exp = num(c.args[0])
                    break
            if exp is not None:
                link = exp == idx or F.implies(EQ(exp, idx)) and val != idx and ancestor(val, idx, parent, None) is None
                if not link:
                    a = ancestor(exp, idx, parent, F)
                    ctx.check(a == 1, 'atomic update', f, e.line, 'the expected value of the atomic update is not the current parent', tag='expected')
                    b = ancestor(val, exp, parent, None)
                    if b is None and F is not None:
                        b = ancestor(val, exp, parent, F)
                    ctx.check(b is not None and (b >= 1 or val == exp), rule, f, e.line, 'an element is attached to something that is not one of its ancestors', tag='compress')
                    continue
        if link is None:
            # plain write: an ancestor, or a root of the other element
            a = ancestor(val, idx, parent, None)
            if a is not None and a >= 1:
                # only proper if the element is not a root itself, or gets itself
                ctx.ok(rule, '%s:%s' % (f['file'], e.line))
                continue
        isroot = idx in ROOT
        other = val in ROOT
        ctx.check(isroot, rule, f, e.line, 'the linked element need not be a root: the rest of its set is cut off', tag='notroot')
        ctx.check(other, rule, f, e.line, 'a root is linked to an element that need not be a root of the other set', tag='target')
        if isroot and other:
            o = {origin(idx, I), origin(val, I)}
            ctx.check(len(o) == 2 and None not in o, rule, f, e.line, 'the two linked roots do not belong to the two elements passed in', tag='pair')
            differ = F.implies(NE(idx, val)) or F.implies(GT(val, idx)) or F.implies(GT(idx, val))
            ctx.check(differ, rule, f, e.line, 'a root may be linked to itself', tag='self')
            if atomic:
                up, down = strict(F, val, idx), strict(F, idx, val)
                ctx.check(up or down, 'links follow a fixed order', f, e.line,
                          'two roots are linked without a fixed order of the elements; two threads linking them in opposite directions form a cycle', tag='order')
                if up or down:
                    ORD.setdefault(cls, set()).add('up' if up else 'down')
                    ctx.check(len(ORD[cls]) == 1, 'links follow a fixed order', f, e.line, 'links are made in both directions', tag='bothways')
    if f['n'] == 'Find':
        for e, v, F, aux in rets:
            good = v in ROOT or any(at == EQ(('ld', p, u), v) or F.implies(EQ(('ld', p, u), v), depth=1)
                                    for at0 in F.atoms for s in subterms(at0) if s[0] == 'ld' and s[1][1] and s[1][1][-1][0] == 'i' and len(s[1][1]) >= 2 and s[1][1][-2] == ('f', parent)
                                    for p, u in [(s[1], s[2])] for at in (at0,) if num(p[1][-1][1]) == v)
            ctx.check(good, 'search returns a root', f, e.line, 'the search may return an element that is not its own parent', tag='ret')
            p0 = ('s', 'arg:%s:%s' % (f['params'][0]['n'], f['params'][0]['t']), 0)
            reach = chain(v, p0, parent, I)
            ctx.check(reach, 'search stays in the set', f, e.line, 'the element returned is not reached from the one passed in', tag='reach')
    if f['n'] in ('Union',):
        for e, v, F, aux in rets:
            links = len(aux.get('linked', ()))
            if v == TRUE or v == C(1):
                ctx.check(links == 1, 'joining reports links', f, e.line, 'a merge is reported although nothing was linked', tag='true')
            elif v == FALSE or v == C(0):
                ctx.check(links == 0, 'joining reports links', f, e.line, 'sets are linked but no merge is reported', tag='false')
                r = [x for x in ROOT]
                eq = any(F.implies(EQ(a, b), depth=1) for a in aux.get('roots', ()) for b in aux.get('roots', ()) if a is not b and origin(a, I) != origin(b, I))
                ctx.check(eq, 'joining reports links', f, e.line, 'the sets are reported as joined although their roots differ', tag='same')
            else:
                ctx.violation('joining reports links', f, e.line, 'the result is not decided by whether a link was made', tag='value')
            for fld in counters(ms):
                ws = [w for w in aux.get('count', ()) if w[1] == fld]
                if links == 1:
                    ok = len(ws) == 1
                    ctx.check(ok, 'number of sets follows the links', f, e.line, 'the number of sets is not reduced by one for a link', tag='count')
                else:
                    ctx.check(not ws, 'number of sets follows the links', f, e.line, 'the number of sets changes without a link', tag='nolink')
        for fld, ws in cnt.items():
            for e, new in ws:
                d = None
                for s in subterms(new):
                    if s[0] == 'ld' and s[1][1] and s[1][1][-1] == ('f', fld):
                        d = sub(new, s)
                ctx.check(d == C(-1), 'number of sets follows the links', f, e.line, 'the number of sets changes by something other than one', tag='by')
    if f['n'] == 'SameSet':
        for e, v, F, aux in rets:
            rs = aux.get('roots', ())
            eq = any(F.implies(EQ(a, b), depth=1) for a in rs for b in rs if a is not b and origin(a, I) != origin(b, I))
            ne = any(F.implies(NE(a, b), depth=1) for a in rs for b in rs if a is not b and origin(a, I) != origin(b, I))
            if v in (TRUE, C(1)):
                ctx.check(eq, 'membership test', f, e.line, 'two elements are reported in one set without equal roots', tag='true')
            elif v in (FALSE, C(0)):
                ctx.check(ne, 'membership test', f, e.line, 'two elements are reported apart without different roots', tag='false')
                if atomic:
                    first = min(rs, key=lambda r: int(r[1].split('#')[1]), default=None)
                    alive = any(at[0] == 'eq0' and any(s[0] == 'ld' and s[1][1] and s[1][1][-1][0] == 'i' and num(s[1][1][-1][1]) == first for s in subterms(at)) for at in F.atoms)
                    ctx.check(alive, 'membership test', f, e.line, 'the roots are compared although the first may have been linked meanwhile', tag='recheck')
            elif v is not None and atomic:
                ctx.violation('membership test', f, e.line, 'the roots are compared although the first may have been linked meanwhile', tag='recheck')
    if f['n'] == 'n':
        size(P, ctx, f, parent, ms, rets)
    if f.get('ctor') and not f.get('implicit') and f['params'] and not f['params'][0]['t'].startswith('&'):
        wrote = any(True for _ in W) or any(x['k'] == 'call' and x.get('n') == 'iota' for x in walk(f['b']))
        ctx.check(wrote, 'all elements start alone', f, f['l'], 'the parents are not initialised', tag='noinit')
        for L in walk(f['b']):
            if L['k'] == 'for' and any(x['k'] == 'call' and x.get('oper') == '[]' and strip(x['obj'])['k'] == 'mem' and strip(x['obj'])['n'] == parent for x in walk(L['b'])):
                c = strip(L['c'])
                b = strip(c['b']) if c['k'] == 'bin' else None
                good = c['k'] == 'bin' and c['op'] in ('<', '!=') and (b['k'] == 'ref' and b.get('parm') or b['k'] == 'call' and b.get('n') == 'size' or b['k'] == 'mem')
                ctx.check(good, 'all elements start alone', f, L['l'], 'the initialisation leaves elements out', tag='range')
        for ii in f.get('inits') or []:
            if ii.get('fld') in counters(ms):
                e = strip(ii['e'])
                ctx.check(e is not None and e['k'] == 'ref', 'number of sets follows the links', f, f['l'], 'the number of sets does not start at the number of elements', tag='start')


ORD = {}


def strict(F, a, b):
    return F.implies(GT(a, b)) or F.implies(GE(a, b)) and F.implies(NE(a, b))


def counters(ms):
    """scalar members the method n() returns"""
    r = set()
    for f in ms:
        if f['n'] == 'n':
            for x in walk(f['b']):
                if x['k'] == 'return' and x.get('e') is not None:
                    e = strip(x['e'])
                    if e['k'] == 'mem' and strip(e['base'])['k'] == 'this':
                        r.add(e['n'])
    return r


def is_counter(ms, fld):
    return fld in counters(ms)


def chain(v, p0, parent, I, d=0):
    v = num(v)
    if d > 8:
        return False
    if v == p0:
        return True
    if v in ROOT:
        return chain(ROOT[v], p0, parent, I, d + 1)
    if v in I.loopvars:
        return chain(I.loopvars[v][1], p0, parent, I, d + 1)
    if v[0] == 'ld' and len(v[1][1]) >= 2 and v[1][1][-2] == ('f', parent):
        return chain(num(v[1][1][-1][1]), p0, parent, I, d + 1)
    return False


def size(P, ctx, f, parent, ms, rets):
    if counters(ms):
        for e, v, F, aux in rets:
            ctx.ok('number of sets follows the links', '%s:%s' % (f['file'], e.line))
        return
    # counted: every element, once per root
    loops = [x for x in walk(f['b']) if x['k'] in ('for', 'forrange')]
    ok = False
    for L in loops:
        inc = [x for x in walk(L['b']) if x['k'] == 'un' and x['op'] == '++']
        marks = [x for x in walk(L['b']) if x['k'] in ('bin', 'call') and (x.get('op') == '=' or x.get('oper') == '=')]
        if inc:
            ok = True
            selfroot = any(x['k'] == 'bin' and x['op'] == '==' for x in walk(L['b']))
            ctx.check(bool(marks) or selfroot, 'number of sets follows the links', f, L['l'], 'a set is counted more than once', tag='once')
    ctx.check(ok or any(x['k'] == 'call' and x.get('n') in ('count_if', 'size') for x in walk(f['b'])), 'number of sets follows the links', f, f['l'], 'the sets are not counted', tag='counted')
