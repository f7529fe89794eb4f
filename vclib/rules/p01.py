"""Weights stay 64 bits wide: interprocedural taint of weight values, every
conversion, compound assignment, in-place construction or parse target of an
integer type with fewer bits is a finding."""
import re
from ..program import walk, children, AnalysisBroken
from ..ctx import short

RULE = ('Flow-insensitive interprocedural taint over the type-checked program: sources are declarations spelled EdgeWeight or '
        'FlowType (fields, variables, parameters, results), taint follows initialisation, assignment, arithmetic, containers, pairs '
        'and calls; every integer conversion, compound assignment, emplace, pair construction, accumulation or comparison operand '
        'with fewer than 64 bits that a tainted value reaches is a violation.')
ASSUMPTIONS = ['values of type EdgeWeight/FlowType (and what is computed from them) are the weights of the program',
               'a weight may be converted to floating point for a ratio that is only reported; its way back into an integer, comparisons and sums of weights in floating point are violations']

WT = re.compile(r'\b(EdgeWeight|FlowType)\b')


def base(t):
    return t.lstrip('&').replace('const ', '')


def bits(t):
    t = base(t)
    if t == 'bool':
        return 1
    if t[:1] in 'iu' and t[1:].isdigit():
        return int(t[1:])
    return None


def wide(t):
    t = base(t)
    b = bits(t)
    return (b is not None and b >= 64) or t[:1] == 'f' and t[1:].isdigit()


def narrow(t):
    b = bits(t)
    return b is not None and 1 < b < 64


def split_targs(s):
    i = s.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for ch in s[i + 1:]:
        if ch == '<':
            d += 1
        elif ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def spelled_taint(st):
    """component paths of a declared type that carry weights"""
    if not WT.search(st):
        return frozenset()
    s = st.replace('const ', '').strip()
    if re.fullmatch(r'(std::)?(EdgeWeight|FlowType)\s*[&*]*', s):
        return frozenset({''})
    m = re.match(r'(?:std::)?(\w+)\s*<', s)
    if not m:
        return frozenset({''})
    k = m.group(1)
    a = split_targs(s)
    if k in ('pair', 'tuple'):
        r = set()
        for i, x in enumerate(a):
            for p in spelled_taint(x):
                r.add(str(i) + ('.' + p if p else ''))
        return frozenset(r)
    if k in ('map', 'unordered_map'):
        return spelled_taint(a[1])
    r = set()
    for x in a[:1]:
        r |= spelled_taint(x)
    return frozenset(r)


def sel(paths, i):
    r = set()
    for p in paths:
        if p == str(i):
            r.add('')
        elif p.startswith('%d.' % i):
            r.add(p[len(str(i)) + 1:])
        elif p == '':
            r.add('')
    return frozenset(r)


E_ = frozenset()
THROUGH = {'min', 'max', 'abs', 'move', 'forward', 'accumulate', 'load', 'exchange', 'fetch_add', 'fetch_sub', 'at', 'back', 'front', 'top', 'begin', 'end',
           'cbegin', 'cend', 'rbegin', 'rend', 'get', 'value', 'min_element', 'max_element', 'ceil', 'floor', 'round', 'div_ceil', 'as_const', 'lround',
           '__sync_fetch_and_add', 'ref', 'swap', 'next', 'prev', 'reduce', 'make_shared', 'llround', 'lower_bound', 'upper_bound', 'find', 'value_or', 'wait'}
ADDERS = {'push_back', 'emplace_back', 'push', 'emplace', 'insert', 'store', 'push_front', 'emplace_front', 'assign', 'resize', 'set_value'}


UPSERT = {'insert_or_update', 'insert_or_assign', 'insert_or_update_unsafe', 'try_emplace', 'update', 'update_unsafe', 'upsert'}


def lambda_of(e):
    while e['k'] in ('cast', 'copy') or e['k'] == 'ctor' and len(e.get('args', [])) == 1 and e['args'][0] is not None:
        e = e['e'] if e['k'] != 'ctor' else e['args'][0]
    return e


def is_lambda(e):
    return lambda_of(e)['k'] == 'lambda'


class Taint:
    def __init__(self, P):
        self.P = P
        self.var = {}
        self.fld = {}
        self.ret = {}
        self.changed = False
        self.retstack = []
        self.overriders = {}
        for f in P.functions.values():
            for o in f.get('over') or []:
                self.overriders.setdefault(o, set()).add(f['u'])

    def setv(self, m, k, v):
        o = m.get(k, E_)
        if not v <= o:
            m[k] = o | v
            self.changed = True

    def seed(self):
        P = self.P
        for r in P.records.values():
            for f in r['fields']:
                t = spelled_taint(f['st'])
                if t:
                    self.setv(self.fld, (short(r['q']), f['n']), t)
        for f in P.functions.values():
            for p in f['params']:
                t = spelled_taint(p.get('st', ''))
                if t:
                    self.setv(self.var, p['id'], t)

    def hold(self, t, paths):
        """what a declaration of type t keeps of a value"""
        if bits(t) is not None and not wide(t):
            return E_
        return paths

    def flow(self, f):
        for I in f.get('inits') or []:
            if isinstance(I.get('e'), dict) and 'fld' in I:
                v = self.T(I['e'])
                rec = short(f.get('cls', ''))
                if v:
                    self.setfield(rec, I['fld'], v)
        for x in walk(f['b']):
            k = x['k']
            if k == 'var' and x.get('init'):
                v = self.hold(x['t'], self.T(x['init']))
                if v:
                    self.setv(self.var, x['id'], v)
            elif k == 'decomp' and x.get('init'):
                v = self.T(x['init'])
                rec = self.P.records.get(base(x['t']))
                for b in x['b']:
                    if b.get('fld'):
                        w = self.fld.get((short(rec['q']) if rec else short(base(x['t'])), b['fld']), E_)
                    else:
                        w = sel(v, b['i'])
                    w = self.hold(b['t'], w)
                    if w:
                        self.setv(self.var, b['id'], w)
                        if 'hid' in b:
                            self.setv(self.var, b['hid'], w)
            elif k == 'forrange':
                v = self.T(x['range'])
                var = x['var']
                if v and var['k'] == 'var':
                    w = self.hold(var['t'], v)
                    if w:
                        self.setv(self.var, var['id'], w)
                elif v:
                    for b in var['b']:
                        if b.get('fld'):
                            continue
                        rt = base(x['range'].get('t', ''))
                        w = v if ('map<' in rt and b['i'] == 1) else (E_ if 'map<' in rt else sel(v, b['i']))
                        w = self.hold(b['t'], w)
                        if w:
                            self.setv(self.var, b['id'], w)
                            if 'hid' in b:
                                self.setv(self.var, b['hid'], w)
                if var['k'] == 'decomp':
                    for b in var['b']:
                        if b.get('fld'):
                            rec = self.P.records.get(base(var['t']))
                            w = self.fld.get((short(rec['q']) if rec else '', b['fld']), E_)
                            if w:
                                self.setv(self.var, b['id'], w)
                                if 'hid' in b:
                                    self.setv(self.var, b['hid'], w)
            elif k == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                v = self.T(x['b'])
                if v:
                    self.assign(x['a'], v)
            elif k == 'return' and x.get('e'):
                v = self.T(x['e'])
                v = self.hold(f['ret'], v)
                if v:
                    self.setv(self.ret, f['u'], v)
            elif k in ('call', 'ctor'):
                self.callflow(x)

    def setfield(self, rec, n, v):
        r = self.P.records.get(rec)
        self.setv(self.fld, (rec, n), v)

    def assign(self, e, v):
        while e['k'] in ('cast', 'copy'):
            e = e['e']
        k = e['k']
        if bits(e.get('t', '')) is not None and not wide(e['t']):
            return
        if k == 'ref':
            self.setv(self.var, e['id'] if not e.get('global') else ('g', e.get('q')), v)
        elif k == 'mem' and 'rec' in e:
            if e['rec'].startswith('std::pair') and e['n'] in ('first', 'second'):
                i = 0 if e['n'] == 'first' else 1
                self.assign(e['base'], frozenset(str(i) + ('.' + p if p else '') for p in v))
            else:
                self.setfield(short(e['rec']), e['n'], v)
        elif k == 'idx':
            self.assign(e['base'], v)
        elif k == 'un':
            self.assign(e['e'], v)
        elif k == 'call' and e.get('obj') is not None:
            self.assign(e['obj'], v)
        elif k == 'cond':
            self.assign(e['a'], v)
            self.assign(e['b'], v)
        elif k == 'call' and e.get('q') == 'std::tie':
            for i, a in enumerate(e['args']):
                w = sel(v, i)
                if w:
                    self.assign(a, w)

    def callflow(self, x):
        f = None
        for p, v in self.callback_params(x):
            v = self.hold(p['t'], v)
            if v:
                self.setv(self.var, p['id'], v)
        if x.get('obj') is not None and x.get('n') in UPSERT:
            v = E_
            for a in x.get('args', [])[1:]:
                if a is not None and not is_lambda(a):
                    v |= self.T(a)
            if v:
                self.assign(x['obj'], v)
            return
        for vr in ('seq', 'par'):
            f = self.P.res.get((x.get('f'), vr))
            if f is None:
                continue
            for p, a in zip(f['params'], x.get('args', [])):
                if a is not None:
                    v = self.hold(p['t'], self.T(a))
                    if v:
                        self.setv(self.var, p['id'], v)
                    if p['t'].startswith('&') and not p['t'].startswith('&const') and self.var.get(p['id']):
                        self.assign(a, self.var[p['id']])
        if f is None and x.get('obj') is not None and x.get('n') in ADDERS:
            v = set()
            args = x.get('args', [])
            ot = base(x['obj'].get('t', ''))
            et = split_targs(ot)
            if x.get('n') in ('emplace_back', 'emplace', 'push_back', 'insert', 'push') and len(args) > 1 and et and ('pair<' in et[0][:10] or 'tuple<' in et[0][:11]) and 'map<' not in ot:
                for i, a in enumerate(args):
                    for p in self.T(a):
                        v.add(str(i) + ('.' + p if p else ''))
            elif 'map<' in ot and len(args) == 2:
                v |= self.T(args[1])
            elif 'map<' in ot and len(args) == 1:
                v |= sel(self.T(args[0]), 1)
            elif et and base(self.canon(et[0])) in self.P.records:
                return
            else:
                for a in args:
                    if a is not None:
                        v |= self.T(a)
            if v:
                et0 = et[0] if et else ''
                if et0 in ('unsigned int', 'int', 'unsigned short', 'bool', 'char', 'short'):
                    return
                self.assign(x['obj'], frozenset(v))

    def canon(self, t):
        return t.strip()

    def callback_params(self, x):
        """(parameter, taint of what the library passes) of function objects handed to library algorithms"""
        if x['k'] != 'call' or not x.get('args') or (x.get('f'), 'seq') in self.P.res or (x.get('f'), 'par') in self.P.res:
            return
        args = [a for a in x['args'] if a is not None]
        ls = [a for a in args if is_lambda(a)]
        if not ls:
            return
        n = x.get('n')
        plain = [a for a in args if not is_lambda(a)]
        if n in UPSERT:
            el = [E_]
            for a in plain[1:]:
                el[0] |= self.T(a)
        elif not x.get('q', '').startswith(('std::', '__gnu_parallel::')):
            return
        elif n == 'lower_bound' and len(plain) > 2:
            el = [self.T(plain[0]), self.T(plain[2])]
        elif n == 'upper_bound' and len(plain) > 2:
            el = [self.T(plain[2]), self.T(plain[0])]
        elif n in ('accumulate', 'reduce') and len(plain) > 2:
            el = [self.T(plain[0]) | self.T(plain[2])]
        else:
            el = [self.T(plain[0])] if plain else [E_]
        for l in ls:
            l = lambda_of(l)
            for g in self.bodies(l):
                for i, p in enumerate(g['params']):
                    yield p, el[min(i, len(el) - 1)]

    def bodies(self, l):
        """the call operator of a lambda, or its instances when it is generic"""
        g = self.P.res.get((l.get('f'), 'seq')) or self.P.res.get((l.get('f'), 'par'))
        if g is not None:
            return [g]
        if not hasattr(self, 'gen'):
            self.gen = {}
            for f in self.P.functions.values():
                if f.get('n', f['q'].split('::')[-1]).startswith('operator()') or '@operator()' in f['u'] or 'F@operator()' in f['u']:
                    self.gen.setdefault((f['u'].split('F@operator()')[0].split('FT@')[0], f['l']), []).append(f)
        return self.gen.get(((l.get('f') or '').split('FT@')[0], l['l']), [])

    def T(self, e):
        if e is None or not isinstance(e, dict):
            return E_
        k = e['k']
        if k == 'cast':
            return self.T(e['e'])
        if k == 'copy':
            return self.T(e['e'])
        t = e.get('t', '')
        if bits(t) is not None and not wide(t):
            return E_
        if k == 'ref':
            return self.var.get(e['id'] if not e.get('global') else ('g', e.get('q')), E_)
        if k == 'mem':
            if 'rec' in e:
                if e['rec'].startswith('std::pair') or e['n'] in ('first', 'second') and e['rec'].startswith('std::'):
                    return sel(self.T(e['base']), 0 if e['n'] == 'first' else 1)
                return self.fld.get((short(e['rec']), e['n']), E_)
            return E_
        if k == 'idx':
            return self.T(e['base'])
        if k == 'un':
            if e['op'] in ('!',):
                return E_
            return self.T(e['e'])
        if k == 'bin':
            op = e['op']
            if op in ('+', '-', '*', '|', '^'):
                return self.T(e['a']) | self.T(e['b'])
            if op == '/' and isfloat(t) and self.T(e['b']):
                return E_       # ratio of two weights
            if op in ('/', '>>', '<<'):
                return self.T(e['a'])
            if op == '%':
                return self.T(e['b'])       # anything below a weight
            if op == '&':
                return self.T(e['a']) & self.T(e['b'])
            if op == ',':
                return self.T(e['b'])
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                return self.T(e['a']) | self.T(e['b'])
            return E_
        if k == 'cond':
            return self.T(e['a']) | self.T(e['b'])
        if k == 'init':
            tb = base(t)
            if tb.startswith(('std::pair', 'std::tuple')):
                return frozenset(str(i) + ('.' + p if p else '') for i, a in enumerate(e['args']) for p in self.T(a))
            if tb in self.P.records:
                return E_
            r = E_
            for a in e['args']:
                r |= self.T(a)
            return r
        if k == 'call':
            r = self.ret.get(e.get('f'), E_)
            for g in self.overriders.get(e.get('f'), ()):
                r = r | self.ret.get(g, E_)
            if (e.get('f'), 'seq') in self.P.res or (e.get('f'), 'par') in self.P.res:
                return r
            q, n = e.get('q', ''), e.get('n', '')
            if q in ('std::make_pair', 'std::make_tuple', 'std::tie', 'std::forward_as_tuple'):
                return frozenset(str(i) + ('.' + p if p else '') for i, a in enumerate(e['args']) for p in self.T(a))
            if q == 'std::get' and e.get('ta') and e['ta'][0].isdigit():
                return sel(self.T(e['args'][0]), int(e['ta'][0]))
            if n in ('distance', 'size', 'count', 'length'):
                return E_
            if e.get('oper') in ('[]', '*', '->', '+', '-', '+=', '-=', '++', '--', '='):
                r = E_
                if e.get('obj') is not None:
                    r |= self.T(e['obj'])
                if e.get('oper') not in ('[]',):
                    for a in e.get('args', []):
                        r |= self.T(a)
                if e.get('oper') == '-' and len(e.get('args', [])) == 2 or (e.get('oper') == '-' and e.get('obj') is not None and 'iterator' in e['obj'].get('t', '')):
                    return E_
                return r
            if n in THROUGH or e.get('conv'):
                r = E_
                if e.get('obj') is not None:
                    r |= self.T(e['obj'])
                for a in e.get('args', []):
                    r |= self.T(a)
                return r
            return E_
        if k == 'ctor':
            tb = base(t)
            if tb.startswith(('std::pair', 'std::tuple')):
                if len(e['args']) == 1:
                    return self.T(e['args'][0])
                return frozenset(str(i) + ('.' + p if p else '') for i, a in enumerate(e['args']) for p in self.T(a))
            if tb.startswith('std::'):
                r = E_
                args = e['args']
                if tb.startswith('std::vector') and len(args) == 2 and bits((e.get('pt') or [''])[0]) == 64:
                    args = args[1:]     # (size, fill)
                    if args[0] is None or 'alloc' in (args[0] or {}).get('t', ''):
                        args = []
                elif tb.startswith('std::vector') and len(args) == 1 and bits((e.get('pt') or [''])[0]) == 64:
                    args = []
                for a in args:
                    r |= self.T(a)
                return r
            return E_
        return E_


def isfloat(t):
    t = base(t)
    return t[:1] == 'f' and t[1:].isdigit()


def logarithm(e):
    return any(y['k'] == 'call' and str(y.get('n', '')).startswith('log') for y in walk(e))


def describe(e, n=0):
    """short source-like rendering of an expression"""
    if e is None or n > 6:
        return '..'
    k = e['k']
    if k in ('ref', 'enum'):
        return e['n']
    if k == 'int':
        return e['v']
    if k == 'mem':
        return describe(e['base'], n + 1) + '.' + e['n'] if e.get('base', {}).get('k') != 'this' else e['n']
    if k in ('cast', 'copy'):
        return describe(e['e'], n)
    if k == 'idx':
        return describe(e['base'], n + 1) + '[..]'
    if k == 'call':
        if e.get('oper') == '[]':
            return describe(e.get('obj'), n + 1) + '[..]'
        if e.get('oper') in ('*', '->'):
            return describe(e.get('obj'), n + 1)
        return (describe(e['obj'], n + 1) + '.' if e.get('obj') else '') + str(e.get('n')) + '(..)'
    if k == 'bin':
        return '%s %s %s' % (describe(e['a'], n + 1), e['op'], describe(e['b'], n + 1))
    if k == 'un':
        return e['op'] + describe(e['e'], n + 1)
    return k


def run(P, c, tier):
    for n in ('EdgeWeight', 'FlowType'):
        if n not in P.typedefs:
            raise AnalysisBroken('type %s not found' % n)
        t = P.typedefs[n]
        fn = {'file': t['file'], 'q': n}
        c.check((bits(t['t']) or 0) >= 64, 'weight type is 64 bits', fn, t['l'], 'type %s has %s bits' % (n, bits(t['t'])), tag=n)
    A = Taint(P)
    A.seed()
    fns = list(P.functions.values())
    for it in range(20):
        A.changed = False
        for f in fns:
            A.flow(f)
        if not A.changed:
            break
    for f in fns:
        c.saw(f)
        roots = [f['b']] + [I['e'] for I in f.get('inits') or [] if isinstance(I.get('e'), dict)]
        for r in roots:
            for x in walk(r):
                node(P, c, A, f, x)
        for I in f.get('inits') or []:
            if isinstance(I.get('e'), dict) and 'fld' in I and sentinel(I['e']) and A.fld.get((short(f.get('cls', '')), I['fld'])):
                c.violation('sentinel of a weight', f, f['l'], 'weight field `%s` starts at the 32-bit constant 2^32-1' % I['fld'], tag='init ' + I['fld'])
    for r in P.records.values():
        for fd in r['fields']:
            if A.fld.get((short(r['q']), fd['n'])):
                c.ok('weight field', '%s::%s' % (r['q'], fd['n']))
    on_the_way(P, c, A)
    c.floor('value entering a weight', 40)
    c.floor('conversion of a weight', 40)
    c.floor('weight field', 10)
    c.floor('sentinel of a weight', 20)


def leaves(e, path=()):
    """variables, parameters, fields and results whose value (component `path`) is (part of) the value of e"""
    if e is None:
        return
    k = e['k']
    num = bits(e.get('t', '')) is not None
    if k in ('cast', 'copy'):
        yield from leaves(e['e'], path)
    elif k == 'ref':
        if num or path or not num and e.get('t', '').lstrip('&').startswith(('std::', 'const std::')):
            yield ('v', e['id'] if not e.get('global') else e.get('q'), path)
    elif k == 'mem' and 'rec' in e:
        if e['n'] in ('first', 'second') and e['rec'].startswith('std::'):
            yield from leaves(e['base'], ((0 if e['n'] == 'first' else 1),) + path)
        else:
            yield ('f', short(e['rec']), e['n'], path)
    elif k == 'idx':
        yield from leaves(e['base'], path)
    elif k == 'bin' and e['op'] in ('+', '-', '*'):
        yield from leaves(e['a'], path)
        yield from leaves(e['b'], path)
    elif k == 'cond':
        yield from leaves(e['a'], path)
        yield from leaves(e['b'], path)
    elif k in ('ctor', 'init') and base(e.get('t', '')).startswith(('std::pair', 'std::tuple')) and len(e.get('args', [])) > 1:
        if path and path[0] < len(e['args']):
            yield from leaves(e['args'][path[0]], path[1:])
    elif k == 'ctor' and len(e.get('args', [])) == 1:
        yield from leaves(e['args'][0], path)
    elif k == 'call':
        n, q = e.get('n'), e.get('q', '')
        if q in ('std::make_pair', 'std::make_tuple'):
            if path and path[0] < len(e['args']):
                yield from leaves(e['args'][path[0]], path[1:])
        elif q == 'std::get' and e.get('ta') and str(e['ta'][0]).isdigit():
            yield from leaves(e['args'][0], (int(e['ta'][0]),) + path)
        elif n in ('min', 'max', 'move'):
            for a in e['args']:
                yield from leaves(a, path)
        elif e.get('oper') in ('[]', '*', '->') or n in ('at', 'back', 'front', 'top', 'begin', 'value'):
            if e.get('obj') is not None:
                yield from leaves(e['obj'], path)
        elif e.get('f') and (num or path):
            yield ('r', e['f'], path)
            if q in PARSERS:
                yield ('parse', q, path)


PARSERS = {'atoi', 'std::atoi', 'std::stoi', 'strtoul32'}


def roots(f):
    return [f['b']] + [I['e'] for I in f.get('inits') or [] if isinstance(I.get('e'), dict)]


def narrowed(e):
    while e is not None and e['k'] in ('cast', 'copy'):
        if e['k'] == 'cast' and narrow(e['t']) and wide(e.get('from', '')) and not isfloat(e['from']):
            return True
        e = e['e']
    return False


def is_ten(e):
    while e['k'] in ('cast', 'copy'):
        e = e['e']
    return e['k'] == 'int' and e['v'] == '10'


def decimal(e, vid):
    for y in walk(e):
        if y['k'] == 'bin' and y['op'] == '*' and (is_ten(y['a']) or is_ten(y['b'])) and any(z['k'] == 'ref' and z.get('id') == vid for z in walk(y)):
            return True
    return False


def count_of(e):
    while e is not None and e['k'] in ('cast', 'copy'):
        e = e['e']
    return e is not None and e['k'] == 'call' and e.get('n') in ('size', 'count', 'distance', 'length', 'n', 'number_of_nodes', 'number_of_edges', 'm')


def on_the_way(P, c, A):
    """64-bit values squeezed through a narrow variable on their way into a weight"""
    sink = set()
    for f in P.functions.values():
        for I in f.get('inits') or []:
            if isinstance(I.get('e'), dict) and 'fld' in I and '' in A.fld.get((short(f.get('cls', '')), I['fld']), E_):
                sink.update(leaves(I['e']))
        for r in roots(f):
            for x in walk(r):
                if x['k'] in ('call', 'ctor'):
                    g = P.res.get((x.get('f'), 'seq')) or P.res.get((x.get('f'), 'par'))
                    if g is not None:
                        for p, a in zip(g['params'], x.get('args', [])):
                            if a is not None and spelled_taint(p.get('st', '')) == frozenset({''}):
                                c.ok('value entering a weight', '%s:%s' % (f['file'], x['l']))
                                sink.update(leaves(a))
                elif x['k'] == 'bin' and x['op'] in ('=', '+=') and x['a']['k'] == 'mem' and 'rec' in x['a'] \
                        and '' in A.fld.get((short(x['a']['rec']), x['a']['n']), E_):
                    c.ok('value entering a weight', '%s:%s' % (f['file'], x['l']))
                    sink.update(leaves(x['b']))
    # values of locals and results that end up there
    for it in range(20):
        n = len(sink)
        by = {}
        for kk in sink:
            by.setdefault(kk[:-1], set()).add(kk[-1])
        for f in P.functions.values():
            for r in roots(f):
                for x in walk(r):
                    if x['k'] == 'var' and x.get('init') is not None:
                        for q in by.get(('v', x['id']), ()):
                            sink.update(leaves(x['init'], q))
                    elif x['k'] == 'decomp' and x.get('init') is not None:
                        for i, bb in enumerate(x['b']):
                            if bb.get('fld'):
                                continue
                            for q in by.get(('v', bb['id']), set()) | by.get(('v', bb.get('hid')), set()):
                                sink.update(leaves(x['init'], (bb.get('i', i),) + q))
                    elif x['k'] == 'forrange':
                        if x['var']['k'] == 'var':
                            for q in by.get(('v', x['var']['id']), ()):
                                sink.update(leaves(x['range'], q))
                        else:
                            for i, bb in enumerate(x['var']['b']):
                                if bb.get('fld'):
                                    continue
                                for q in by.get(('v', bb['id']), set()) | by.get(('v', bb.get('hid')), set()):
                                    sink.update(leaves(x['range'], (bb.get('i', i),) + q))
                    elif x['k'] == 'call' and x.get('n') in ('emplace_back', 'push_back', 'push', 'emplace') and x.get('obj') is not None:
                        for kk in list(leaves(x['obj'], ())):
                            for q in by.get(kk[:-1], ()):
                                if len(x['args']) == 1:
                                    sink.update(leaves(x['args'][0], q))
                                elif q and q[0] < len(x['args']):
                                    sink.update(leaves(x['args'][q[0]], q[1:]))
                    elif x['k'] == 'bin' and x['op'] in ('=', '+=', '-=', '*=') and x['a']['k'] == 'ref' and any(k in sink for k in leaves(x['a'])):
                        sink.update(leaves(x['b']))
                    elif x['k'] == 'return' and x.get('e') is not None:
                        for q in by.get(('r', f['u']), ()):
                            sink.update(leaves(x['e'], q))
        if n == len(sink):
            break
    for f in P.functions.values():
        for r in roots(f):
            for x in walk(r):
                bad = None
                if x['k'] == 'var' and x.get('init') is not None and ('v', x['id'], ()) in sink and narrowed(x['init']):
                    bad = (x['n'], x['init'])
                elif x['k'] == 'bin' and x['op'] == '=' and x['a']['k'] in ('ref', 'mem') and any(k in sink for k in leaves(x['a'])) and narrowed(x['b']):
                    bad = (describe(x['a']), x['b'])
                elif x['k'] in ('call', 'ctor'):
                    g = P.res.get((x.get('f'), 'seq')) or P.res.get((x.get('f'), 'par'))
                    if g is not None:
                        for p, a in zip(g['params'], x.get('args', [])):
                            if a is not None and ('v', p['id'], ()) in sink and narrowed(a):
                                bad = (p['n'], a)
                elif x['k'] == 'return' and x.get('e') is not None and ('r', f['u'], ()) in sink and narrowed(x['e']):
                    bad = ('result', x['e'])
                tgt = val = None
                if x['k'] == 'var' and ('v', x['id'], ()) in sink:
                    tgt, val = x['n'], x.get('init')
                elif x['k'] == 'bin' and x['op'] in ('=', '+=', '*=') and x['a']['k'] == 'ref' and any(k in sink for k in leaves(x['a'])):
                    tgt, val = describe(x['a']), x['b']
                    if narrow(x['a']['t']) and (decimal(x['b'], x['a'].get('id')) or x['op'] == '*=' and is_ten(x['b'])):
                        c.violation('value entering a weight', f, x['l'], 'a number that becomes a weight is read digit by digit into the narrow `%s`' % tgt, tag='digits ' + tgt)
                elif x['k'] == 'return' and ('r', f['u'], ()) in sink:
                    tgt, val = 'result', x.get('e')
                if val is not None:
                    for kk in leaves(val):
                        if kk[0] == 'parse':
                            c.violation('value entering a weight', f, x['l'], 'a number that becomes a weight is read with %s, which is 32 bits wide' % kk[1], tag='parse ' + tgt)
                if bad and not count_of(bad[1]):
                    c.violation('value entering a weight', f, x.get('l', f['l']), '64-bit value `%s` is cut to the narrow `%s` on its way into a weight' % (
                        describe(bad[1]), bad[0]), tag='way ' + bad[0])


def elem_type(P, ot):
    a = split_targs(ot)
    return a[0] if a else ''


NARROWNAMES = {'unsigned int', 'int', 'unsigned short', 'short', 'unsigned char', 'char', 'signed char'}


SENT32 = (str(2 ** 32 - 1), str(2 ** 31 - 1))


def sentinel(e):
    """a 32-bit all-ones constant widened to 64 bits"""
    if e is None:
        return False
    while e['k'] in ('cast', 'copy'):
        if wide(e['t']) and narrow(e.get('from', '')) and sentinel32(e['e']):
            return True
        e = e['e']
    return False


def sentinel32(e):
    while e['k'] in ('cast', 'copy'):
        e = e['e']
    if e['k'] == 'ref' and e.get('cv') in SENT32:
        return True
    if e['k'] == 'int' and e['v'] in SENT32:
        return True
    return e['k'] == 'call' and e.get('n') == 'max' and e.get('q', '').startswith(('std::numeric_limits<unsigned int>', 'std::numeric_limits<int>'))


def sentinels(P, c, A, f, x):
    k = x['k']
    if k == 'bin' and x['op'] in ('=', '==', '!=', '<', '>', '<=', '>='):
        for a, b in ((x['a'], x['b']), (x['b'], x['a'])):
            if sentinel(b) and '' in A.T(a):
                c.violation('sentinel of a weight', f, x['l'], 'weight `%s` meets the 32-bit constant 2^32-1' % describe(a), tag='cmp ' + describe(a))
            elif '' in A.T(a):
                c.ok('sentinel of a weight', '%s:%s' % (f['file'], x['l']))
    elif k == 'var' and x.get('init') is not None and sentinel(x['init']) and WT.search(x.get('st', '')):
        c.violation('sentinel of a weight', f, x['l'], 'weight `%s` starts at the 32-bit constant 2^32-1' % x['n'], tag='init ' + x['n'])
    elif k in ('call', 'ctor') and x.get('args'):
        g = P.lookup(x.get('f'), sorted(f['variants'])[0])
        if g is not None:
            for p, a in zip(g['params'], x['args']):
                if a is not None and sentinel(a) and '' in A.var.get(p['id'], E_) and WT.search(p.get('st', '')):
                    c.violation('sentinel of a weight', f, x['l'], 'weight parameter `%s` receives the 32-bit constant 2^32-1' % p['n'], tag='arg ' + p['n'])


def node(P, c, A, f, x):
    k = x['k']
    sentinels(P, c, A, f, x)
    if k == 'call':
        for p, v in A.callback_params(x):
            if '' in v and bits(p['t']) is not None and base(p['t']) != 'bool':
                c.check(not narrow(p['t']), 'conversion of a weight', f, x['l'],
                        'weights are handed to a function object whose parameter `%s` is %s' % (p['n'], base(p['t'])), tag='callback ' + p['n'])
    if k == 'cast':
        to, fr = x['t'], x.get('from', '')
        if bits(to) is None:
            return
        if isfloat(fr) and not logarithm(x['e']) and '' in A.T(x['e']):
            c.violation('conversion of a weight', f, x['l'],
                        'weight value `%s` went through %s (53 bits at most) on its way to %s' % (describe(x['e']), base(fr), base(to)), tag='float ' + describe(x['e']))
            return
        if not wide(fr):
            return
        if '' in A.T(x['e']):
            if base(to) == 'bool':
                return
            c.check(not narrow(to), 'conversion of a weight', f, x['l'],
                    'weight value `%s` (%s) is converted to %s' % (describe(x['e']), base(fr), base(to)), tag='conv ' + describe(x['e']))
    elif k == 'bin' and x['op'] in ('==', '!=', '<', '>', '<=', '>=') and isfloat(x['a'].get('t', '')) and isfloat(x['b'].get('t', '')) \
            and '' in A.T(x['a']) and '' in A.T(x['b']):
        c.violation('conversion of a weight', f, x['l'], 'weights `%s` and `%s` are compared in floating point' % (describe(x['a']), describe(x['b'])),
                    tag='fcmp ' + describe(x['a']))
    elif k == 'bin' and x['op'] in ('+=', '-=', '*=', '/=', '<<='):
        if '' in A.T(x['b']):
            if isfloat(x['a']['t']):
                c.violation('conversion of a weight', f, x['l'], 'weight value `%s` is accumulated in `%s` of type %s' % (
                    describe(x['b']), describe(x['a']), base(x['a']['t'])), tag='facc ' + describe(x['a']))
            c.check(not narrow(x['a']['t']), 'conversion of a weight', f, x['l'],
                    'weight value `%s` is accumulated in `%s` of type %s' % (describe(x['b']), describe(x['a']), base(x['a']['t'])), tag='acc ' + describe(x['a']))
    elif k == 'ref' and '' in A.var.get(x.get('id'), E_) and bits(x['t']) is not None:
        if narrow(x['t']):
            c.violation('conversion of a weight', f, x['l'], 'weight variable `%s` has type %s' % (x['n'], base(x['t'])), tag='var ' + x['n'])
    elif k == 'call' and x.get('obj') is not None and x.get('n') in ('emplace_back', 'emplace', 'emplace_front', 'push_back', 'push'):
        ot = base(x['obj'].get('t', ''))
        if not ot.startswith('std::'):
            return
        et = elem_type(P, ot)
        args = x.get('args', [])
        for i, a in enumerate(args):
            if a is None or '' not in A.T(a) or not wide(a.get('t', '')):
                continue
            tgt = None
            if et in NARROWNAMES and len(args) == 1:
                tgt = et
            elif et.startswith(('std::pair', 'std::tuple')) and len(args) > 1:
                ta = split_targs(et)
                if i < len(ta) and ta[i] in NARROWNAMES:
                    tgt = ta[i]
            elif ot.startswith(('std::map', 'std::unordered_map')) and i == 1:
                ta = split_targs(ot)
                if ta[1] in NARROWNAMES:
                    tgt = ta[1]
            elif et in P.records:
                ks = [g for g in P.functions.values() if g.get('ctor') == 'ctor' and g.get('cls') == et and len(g['params']) == len(args)]
                if ks and all(narrow(g['params'][i]['t']) for g in ks):
                    tgt = ks[0]['params'][i]['t']
            c.check(tgt is None, 'conversion of a weight', f, x['l'],
                    'weight value `%s` is stored in an element of type %s' % (describe(a), tgt), tag='emplace ' + describe(a))
    elif k == 'ctor' or (k == 'call' and x.get('q') in ('std::make_pair', 'std::make_tuple', 'std::make_shared', 'std::make_unique')):
        tb = base(x['t'])
        args = x.get('args', [])
        if tb.startswith('std::optional') and args and args[0] is not None and '' in A.T(args[0]):
            et, at = (split_targs(tb) or [''])[0], base(args[0].get('t', ''))
            it = (split_targs(at) or [''])[0] if at.startswith('std::optional') else at
            c.check(et not in NARROWNAMES or it in NARROWNAMES or narrow(it), 'conversion of a weight', f, x['l'],
                    'weight value `%s` becomes an optional of type %s' % (describe(args[0]), et), tag='optional ' + describe(args[0]))
        if tb.startswith(('std::pair', 'std::tuple')):
            ta = split_targs(tb)
            src = None
            if len(args) == 1 and args[0] is not None:
                # converting constructor of a whole pair
                v = A.T(args[0])
                sa = split_targs(base(args[0].get('t', '')))
                for i in range(len(ta)):
                    if '' in sel(v, i) and '' not in v and i < len(sa) and ta[i] in NARROWNAMES and sa[i] not in NARROWNAMES:
                        c.violation('conversion of a weight', f, x['l'], 'component %d of a weight pair becomes %s' % (i, ta[i]), tag='pair')
            elif len(args) > 1:
                for i, a in enumerate(args):
                    if a is not None and '' in A.T(a) and wide(a.get('t', '')) and i < len(ta):
                        c.check(ta[i] not in NARROWNAMES, 'conversion of a weight', f, x['l'],
                                'weight value `%s` becomes pair component of type %s' % (describe(a), ta[i]), tag='pair ' + describe(a))
        elif k == 'call' and x.get('q') in ('std::make_shared', 'std::make_unique'):
            t0 = (x.get('ta') or [''])[0]
            ks = [g for g in P.functions.values() if g.get('ctor') == 'ctor' and g.get('cls') == t0 and len(g['params']) == len(args)]
            for i, a in enumerate(args):
                if a is not None and ks and '' in A.T(a) and wide(a.get('t', '')):
                    c.check(not all(narrow(g['params'][i]['t']) for g in ks), 'conversion of a weight', f, x['l'],
                            'weight value `%s` is passed as %s' % (describe(a), ks[0]['params'][i]['t']), tag='make ' + describe(a))
    elif k == 'call' and x.get('q') in ('std::accumulate', 'std::reduce', 'std::inner_product'):
        if any('' in A.T(a) for a in x['args'][:2] if a):
            c.check(not narrow(x.get('ret', '')), 'conversion of a weight', f, x['l'],
                    'weights are accumulated in type %s' % base(x.get('ret', '')), tag='accumulate')
    elif k == 'call' and x.get('oper') == '>>' and x.get('args'):
        pass
