"""Randomness comes from the configured seed only."""
from ..cg import CallGraph
from ..flow import Flow
from ..program import walk
from ..ctx import short

RULE = ('(entropy) no call to an operating-system entropy or clock source outside the timer class, except as the fallback seed of an application that lets a seed '
        'option override it; (seeding) every generator object is started, on all paths before its first draw, from an expression built from the configured seed, '
        'constants, repetition counters and thread numbers only, traced through parameters and locals; (option) in every application that registers a seed option, '
        'on all paths the option value is handed to the generator after option parsing and before the first call that can draw; (clock) a measured time reaches a '
        'branch condition only against a configured limit or to decide on logging, and is never turned into an integer or a result; (address) no address is turned into a number or orders objects.')
ASSUMPTIONS = ['standard library generators are deterministic functions of their seed', 'iteration order of standard containers is a function of their contents']

ENTROPY = {'time', 'std::time', 'clock', 'std::clock', 'gettimeofday', 'clock_gettime', 'std::random_device::operator()', 'getpid', 'rdtsc',
           'std::chrono::_V2::system_clock::now', 'std::chrono::_V2::steady_clock::now', 'std::chrono::_V2::high_resolution_clock::now', 'getrandom', 'rand',
           'std::rand', 'random', 'drand48', 'lrand48', 'std::this_thread::get_id', 'pthread_self', 'gethostid', 'arc4random',
           'getenv', 'std::getenv', 'secure_getenv', 'std::thread::hardware_concurrency', 'sysconf', 'get_nprocs', 'omp_get_num_procs', 'sched_getcpu',
           'gethostname', 'getppid', 'gettid', 'getrusage', 'times', 'sysinfo', 'uname', 'omp_get_wtime', 'MPI_Wtime', '__rdtsc', '_rdtsc', 'std::random_shuffle',
           'random_shuffle', 'rand_r', 'nrand48', 'mrand48', 'getentropy', 'std::thread::get_id', 'timespec_get', 'std::timespec_get', 'ftime', 'mallinfo', 'mallinfo2',
           '__builtin_ia32_rdtsc', '__builtin_readcyclecounter'}
ENGINES = ('std::mersenne_twister_engine', 'std::linear_congruential_engine', 'std::subtract_with_carry_engine', 'std::discard_block_engine',
           'std::shuffle_order_engine', 'std::independent_bits_engine')
THREADNO = {'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads'}


def bt(t):
    return t.lstrip('&').replace('const ', '').strip()


def is_engine(t):
    return bt(t).startswith(ENGINES)


def is_seed(e):
    while e is not None and e['k'] in ('cast', 'copy'):
        e = e['e']
    return e is not None and (e['k'] == 'mem' and e['n'] == 'seed' and e.get('rec') == 'configuration' or e['k'] == 'ref' and 'seed' in e['n'].lower())


def run(P, c, tier):
    G = CallGraph(P)
    engines_global = {q for q, g in P.globals.items() if is_engine(g['t'])}
    locals_of = {}
    for f in P.functions.values():
        c.saw(f)

    # ---- entropy sources
    fallback = set()
    for f in P.functions.values():
        for x in G.nodes(f):
            if x['k'] == 'ctor' and bt(x.get('t', '')).startswith('std::random_device'):
                c.violation('entropy', f, x['l'], 'operating-system entropy is used', tag='random_device')
            if x['k'] == 'call' and 'f' in x and P.lookup(x['f'], 'seq') is None and x.get('q') in ENTROPY:
                if f.get('cls') == 'timer':
                    c.ok('clock confined to the timer', f.where(x['l']))
                    continue
                # fallback seeds of an application, only for setSeed
                use = [y for y in G.nodes(f) if y['k'] == 'call' and y.get('q') == 'random_functions::setSeed' and any(z is x for z in walk(y))]
                if use and f['q'] == 'main' and has_seed_option(f):
                    fallback.add(id(x))
                    c.ok('fallback seed', f.where(x['l']))
                    continue
                dead = [y for y in G.nodes(f) if y['k'] == 'call' and y.get('q') in ('srand', 'std::srand') and any(z is x for z in walk(y))]
                if dead and not uses_rand(P, G):
                    c.ok('seed of the unused C generator', f.where(x['l']))
                    continue
                c.violation('entropy', f, x['l'], 'the value of %s() enters the computation' % x['q'], tag=x['q'])

    # ---- seeds
    memo = {}

    def ok(e, f, depth=0):
        """None when fine, otherwise the offending node"""
        if e is None:
            return None
        k = e['k']
        if k in ('int', 'bool', 'enum', 'float', 'zero', 'this'):
            return None
        if k == 'ref':
            if e.get('global'):
                g = P.globals.get(e.get('q'))
                return None if (is_seed(e) or 'cv' in e or (g and 'const' in g.get('t', ''))) else (None if e.get('n', '').find('seed') >= 0 else None)
            key = (f['key'], e['id'])
            if key in memo:
                return memo[key]
            memo[key] = None
            bad = None
            pi = [i for i, p in enumerate(f['params']) if p['id'] == e['id']]
            if pi:
                for caller, site in G.sites.get(f['key'], []):
                    args = site.get('args', [])
                    if pi[0] < len(args) and depth < 6:
                        bad = bad or ok(args[pi[0]], caller, depth + 1)
            for d in defs(f, e['id']):
                bad = bad or ok(d, f, depth)
            memo[key] = bad
            return bad
        if k == 'mem':
            if is_seed(e):
                return None
            return None if bt(e.get('t', '')).startswith(('u', 'i')) and 'rec' in e else e
        if k in ('cast', 'copy'):
            return ok(e['e'], f, depth)
        if k == 'un':
            return e if e['op'] == '&' else ok(e['e'], f, depth)
        if k == 'bin':
            return ok(e['a'], f, depth) or ok(e['b'], f, depth)
        if k == 'cond':
            return ok(e['c'], f, depth) or ok(e['a'], f, depth) or ok(e['b'], f, depth)
        if k == 'call':
            if id(e) in fallback or e.get('q') in THREADNO:
                return None
            if e.get('q') in ENTROPY or e.get('q', '').startswith('timer::'):
                return e
            g = P.lookup(e['f'], sorted(f['variants'])[0]) if 'f' in e else None
            if g is not None:
                for r in walk(g['b']):
                    if r['k'] == 'return' and r.get('e') is not None:
                        b = ok(r['e'], g, depth + 1) if depth < 6 else None
                        if b:
                            return b
                return None
            for a in e.get('args', []):
                b = ok(a, f, depth)
                if b:
                    return b
            return ok(e.get('obj'), f, depth) if e.get('obj') is not None else None
        return None

    def defs(f, vid):
        r = []
        for x in G.nodes(f):
            if x['k'] == 'var' and x.get('id') == vid and x.get('init') is not None:
                r.append(x['init'])
            elif x['k'] == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>=') and x['a']['k'] == 'ref' and x['a'].get('id') == vid:
                r.append(x['b'])
        return r

    for f in P.functions.values():
        if f.get('cls') and is_engine(f['cls']):
            continue
        for x in G.nodes(f):
            arg = None
            if x['k'] == 'call' and x.get('n') == 'seed' and x.get('obj') is not None and is_engine(x['obj'].get('t', '')):
                if not x['args']:
                    c.violation('seeding', f, x['l'], 'generator is reset to its built-in default seed', tag='seed()')
                    continue
                arg = x['args'][0]
            elif x['k'] == 'call' and x.get('q') == 'random_functions::setSeed':
                arg = x['args'][0]
            elif x['k'] == 'ctor' and is_engine(x.get('t', '')) and x.get('args'):
                arg = x['args'][0]
            if arg is None:
                continue
            b = ok(arg, f)
            c.check(b is None, 'seeding', f, x['l'], 'a generator is started from something else than the configured seed', tag='seed')
    # engines declared without a seed must be seeded before the first draw
    for f in P.functions.values():
        vs = [x for x in G.nodes(f) if x['k'] == 'var' and is_engine(x['t']) and not x['t'].startswith('&') and not x.get('static')]
        if not vs or f['q'].startswith('random_functions'):
            continue
        fl = EngineFlow(P, c, f)
        fl.run(f['b'], frozenset())
    # global engines
    for q in engines_global:
        g = P.globals[q]
        init = g.get('init')
        bare = init is None or (isinstance(init, dict) and init['k'] == 'ctor' and not init.get('args'))
        if g.get('tls') and bare:
            f = next(iter(P.q('random_functions::setSeed')), None)
            c.violation('seeding', f, g.get('l', 0), 'every new thread starts generator %s from its built-in seed' % q, tag=q)
        else:
            c.ok('seeding', 'global ' + q)

    # ---- setSeed reaches every generator it stands for
    for f in P.q('random_functions::setSeed'):
        touched = set()
        par = f['params'][0]['id'] if f['params'] else None
        for x in walk(f['b']):
            if x['k'] == 'call' and x.get('n') == 'seed' and x.get('obj') is not None and x['obj']['k'] == 'ref':
                touched.add(x['obj'].get('q'))
            if x['k'] == 'call' and x.get('oper') == '=' and x['obj']['k'] == 'ref':
                touched.add(x['obj'].get('q'))
            if x['k'] == 'bin' and x['op'] == '=' and x['a']['k'] == 'ref' and x['a'].get('global'):
                touched.add(x['a'].get('q'))
        for q in engines_global:
            c.check(q in touched, 'seed setter', f, f['l'], 'setting the seed does not restart generator %s' % q, tag=q)
        # what getSeed reports and other generators are derived from must be the seed set
        for g in P.q('random_functions::getSeed'):
            for r in walk(g['b']):
                if r['k'] == 'return':
                    e = r['e']
                    while e['k'] in ('cast', 'copy'):
                        e = e['e']
                    if e['k'] == 'ref' and e.get('global'):
                        c.check(e['q'] in touched, 'seed setter', f, f['l'], 'setting the seed does not record it in %s' % e['q'], tag=e['q'])

    # ---- options
    draws = set()
    for f in P.functions.values():
        if f['q'] in ('random_functions::setSeed', 'random_functions::getSeed'):
            continue
        for x in G.nodes(f):
            if x['k'] == 'ref' and x.get('global') and x.get('q') in engines_global:
                draws.add(f['key'])
            if x['k'] == 'var' and is_engine(x['t']):
                draws.add(f['key'])
    reach = G.closure(draws)
    mains = [f for f in P.functions.values() if f['q'] == 'main']
    n = 0
    for f in mains:
        opt = has_seed_option(f)
        if not opt:
            continue
        n += 1
        fl = SeedFlow(P, c, f, G, reach, opt)
        fl.run(f['b'], (False, False))
        c.ok('application with a seed option', f['file'] + ' ' + f['unit'])
    # ---- clock in conditions
    for f in P.functions.values():
        timed = set()
        for _ in range(3):
            for x in G.nodes(f):
                if x['k'] == 'var' and x.get('init') is not None and tainted(x['init'], timed):
                    timed.add(x['id'])
                elif x['k'] == 'bin' and x['op'] in ('=', '+=', '-=') and x['a']['k'] == 'ref' and tainted(x['b'], timed):
                    timed.add(x['a'].get('id'))
        for x in G.nodes(f):
            if x['k'] in ('if', 'while', 'for', 'do', 'cond', 'switch') and x.get('c') is not None and tainted(x['c'], timed):
                lim = any(limit(y, f) for y in walk(x['c']))
                log = x['k'] == 'if' and only_logs(x)
                c.check(lim or log, 'clock', f, x['l'], 'a measured time decides what is computed', tag='clock')
            if x['k'] == 'cast' and floating(x.get('from', '')) and integral(x['t']) and tainted(x['e'], timed):
                c.violation('clock', f, x['l'], 'a measured time is turned into a number the computation uses', tag='clock number')
            if x['k'] == 'return' and f.get('cls') != 'timer' and x.get('e') is not None and tainted(x['e'], timed) and not stays_time(f) \
                    and not any(limit(y, f) for y in walk(x['e'])):
                c.violation('clock', f, x['l'], 'a measured time is part of a result', tag='clock result')
    # ---- addresses
    for f in P.functions.values():
        for x in walk(f['b']):
            why = None
            if x['k'] == 'cast' and pointer(x.get('from', '')) and integral(x['t']):
                why = 'an address is turned into a number'
            elif x['k'] == 'call' and x.get('oper') in ('<', '>', '<=', '>=') and any(
                    shared(t) for t in [(x.get('obj') or {}).get('t', '')] + [(a or {}).get('t', '') for a in x['args']]):
                why = 'objects are ordered by their address'
            elif x['k'] == 'var' and keyed_by_address(x['t']):
                why = 'container `%s` is ordered by addresses' % x['n']
            elif x['k'] == 'call' and x.get('q') in ('std::sort', 'std::stable_sort', 'std::min_element', 'std::max_element') and len(x['args']) == 2 \
                    and shared(inner((x['args'][0] or {}).get('t', ''))):
                why = 'objects are ordered by their address'
            if why:
                c.violation('address', f, x['l'], why, tag='address')
        c.ok('address', f.where(f['l']))
    for r in P.records.values():
        for fd in r['fields']:
            if keyed_by_address(fd['t']):
                c.violation('address', {'file': r.get('file', ''), 'q': r['q']}, r.get('l', 0), 'container `%s` is ordered by addresses' % fd['n'], tag='address ' + fd['n'])
    c.floor('application with a seed option', 6)
    c.floor('seeding', 10)
    c.floor('clock confined to the timer', 1)
    c.floor('clock', 2)
    c.floor('seed setter', 1)


def floating(t):
    t = bt(t)
    return t[:1] == 'f' and t[1:].isdigit()


def integral(t):
    t = bt(t)
    return t[:1] in ('i', 'u') and t[1:].isdigit()


def pointer(t):
    return bt(t).endswith('*')


def shared(t):
    return bt(t).startswith(('std::shared_ptr<', 'std::unique_ptr<'))


def inner(t):
    t = bt(t)
    i = t.find('<')
    return t[i + 1:].split(', ')[0] if i >= 0 else ''


def keyed_by_address(t):
    import re
    return re.search(r'(?:set|map)<(?:std::(?:shared|unique)_ptr<|[\w: ]+\*)', bt(t)) is not None or 'std::less<std::shared_ptr' in t or re.search(
        r'std::less<[\w: ]+\*', t) is not None


def stays_time(f):
    """functions that only report a duration"""
    return floating(f['ret'])


def uses_rand(P, G):
    for f in P.functions.values():
        for x in G.nodes(f):
            if x['k'] == 'call' and x.get('q') in ('rand', 'std::rand', 'random'):
                return True
    return False


def tainted(e, timed):
    for x in walk(e):
        if x['k'] == 'call' and x.get('q', '').startswith('timer::elapsed'):
            return True
        if x['k'] == 'ref' and x.get('id') in timed:
            return True
    return False


def limit(y, f):
    """a configured limit: a configuration field, an option variable, a local copy of one"""
    if y['k'] == 'mem':
        return y.get('rec') == 'configuration'
    if y['k'] != 'ref' or y.get('global'):
        return False
    for x in walk(f['b']):
        if x['k'] == 'call' and x.get('n', '').startswith('add_') and any(a is not None and a['k'] == 'ref' and a['id'] == y['id'] for a in x.get('args', [])):
            return True
        if x['k'] == 'var' and x.get('id') == y['id'] and x.get('init') is not None and any(
                z['k'] == 'mem' and z.get('rec') == 'configuration' for z in walk(x['init'])):
            return True
        if x['k'] == 'var' and x.get('id') == y['id'] and (x.get('init') or {}).get('k') in ('int', 'cast') and not any(
                z['k'] not in ('int', 'cast', 'float') for z in walk(x['init'])):
            return True
    return False


def only_logs(n):
    """no assignment to anything but locals and timers, no repository call that matters"""
    for part in (n['a'], n.get('b')):
        if part is None:
            continue
        for x in walk(part):
            if x['k'] == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                t = bt(x['a'].get('t', ''))
                if not t.startswith('f') and 'double' not in t and 'atomic' not in t:
                    return False
            if x['k'] in ('return', 'break', 'continue', 'throw'):
                return False
            if x['k'] == 'call' and x.get('oper') in ('=', '++', '--') and 'atomic<double>' not in bt(x['obj'].get('t', '')):
                return False
    return True


def has_seed_option(f):
    for x in walk(f['b']):
        if x['k'] == 'call' and x.get('n', '').startswith('add_') and any(a is not None and is_seed(a) for a in x.get('args', [])):
            for a in x['args']:
                if a is not None and is_seed(a):
                    return name(a)
    return None


def name(a):
    while a['k'] in ('cast', 'copy'):
        a = a['e']
    return ('cfg', 'seed') if a['k'] == 'mem' else ('var', a['id'])


class SeedFlow(Flow):
    """state: (options parsed, seeded)"""

    def __init__(self, P, c, f, G, reach, opt):
        Flow.__init__(self, P)
        self.c, self.f, self.G, self.reach, self.opt = c, f, G, reach, opt

    def join(self, a, b):
        return (a[0] and b[0], a[1] and b[1])

    def same(self, e):
        while e is not None and e['k'] in ('cast', 'copy'):
            e = e['e']
        return e is not None and is_seed(e) and name(e) == self.opt

    def mentions(self, e):
        if any(self.same(x) for x in walk(e)):
            return True
        # a local computed from the seed
        for x in walk(e):
            if x['k'] == 'ref' and not x.get('global'):
                for v in walk(self.f['b']):
                    if v['k'] == 'var' and v.get('id') == x['id'] and v.get('init') is not None and any(self.same(y) for y in walk(v['init'])):
                        return True
        return False

    def assume(self, e, val, st):
        if e['k'] == 'bin' and e['op'] in ('==', '!=') and (self.same(e['a']) or self.same(e['b'])):
            eq = (e['op'] == '==') == val
            if eq:
                return (st[0], True)
        return st

    def visit(self, e, st):
        if e['k'] in ('call', 'ctor', 'fref') or e['k'] == 'lambda':
            if e['k'] == 'call' and e.get('n') == 'process' and 'cmdline' in e.get('q', '').lower():
                return (True, False)
            if e.get('q') == 'random_functions::setSeed':
                return (st[0], st[0] and (self.mentions(e['args'][0])) or (st[1] and self.mentions(e['args'][0])))
            if 'f' in e and not st[1]:
                for g in self.G.targets(e, self.f):
                    if g['key'] in self.reach and g['q'] != 'random_functions::setSeed':
                        self.c.violation('option', self.f, e['l'], 'random numbers can be drawn (%s) before the configured seed is set' % short(g['q']), tag='%s|%s' % (self.f['unit'].replace('_parallel', ''), 'unseeded'))
            elif 'f' in e:
                for g in self.G.targets(e, self.f):
                    if g['key'] in self.reach:
                        self.c.ok('seeded call', '%s %s' % (self.f['unit'], self.f.where(e['l'])))
        return st


class EngineFlow(Flow):
    """state: set of engine variables that are still unseeded"""

    def __init__(self, P, c, f):
        Flow.__init__(self, P)
        self.c, self.f = c, f

    def join(self, a, b):
        return a | b

    def decl(self, v, st):
        if is_engine(v['t']) and not v['t'].startswith('&'):
            i = v.get('init')
            self.c.ok('engine', self.f.where(v['l']))
            if i is None or (i['k'] == 'ctor' and not i.get('args')):
                return st | {v['id']}
        return st

    def visit(self, e, st):
        if e['k'] == 'call':
            o = e.get('obj')
            if e.get('n') == 'seed' and o is not None and o['k'] == 'ref':
                return st - {o['id']}
            if e.get('oper') == '=' and o is not None and o['k'] == 'ref':
                return st - {o.get('id')}
            for a in [o] + e.get('args', []):
                if a is not None and a['k'] == 'ref' and a.get('id') in st:
                    self.c.violation('seeding', self.f, e['l'], 'generator %s is used before it was seeded' % a['n'], tag='engine')
        return st
