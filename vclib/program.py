"""Builds the extractor when needed, runs it over /repo's current sources and
loads the resolved program (every analysis starts here)."""
import concurrent.futures
import glob
import hashlib
import json
import os
import pickle
import re
import subprocess
import sys
import tempfile
import threading

sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')

LLVM = '/usr/lib/llvm-18'
SRC = os.path.join(VERIF, 'extractor', 'extract.cpp')
BIN = os.path.join(VERIF, 'build', 'extract')

FLAGS = ['-std=c++17', '-fopenmp', '-DNDEBUG', '-DVIECUT_PATH="%s"' % REPO,
         '-include', 'optional', '-w',
         '-I' + os.path.join(VERIF, 'stubs_clang'), '-I' + os.path.join(VERIF, 'stubs'),
         '-I' + os.path.join(REPO, 'app'), '-I' + os.path.join(REPO, 'lib'),
         '-I' + LLVM + '/lib/clang/18/include',
         '-I/usr/lib/x86_64-linux-gnu/openmpi/include',
         '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']


class AnalysisBroken(Exception):
    """The analysis lost its subject (anchor missing, program does not parse)."""


def build_extractor():
    h = hashlib.sha256(open(SRC, 'rb').read()).hexdigest()
    stamp = BIN + '.sha'
    if os.path.exists(BIN) and os.path.exists(stamp) and open(stamp).read() == h:
        return BIN
    os.makedirs(os.path.dirname(BIN), exist_ok=True)
    cxx = subprocess.run([LLVM + '/bin/llvm-config', '--cxxflags'], capture_output=True, text=True).stdout.split()
    tmp = BIN + '.%d.tmp' % os.getpid()
    cmd = ([LLVM + '/bin/clang++', '-O1', '-std=c++17'] + cxx +
           ['-fno-rtti', '-w', SRC, '-o', tmp, '-L' + LLVM + '/lib',
            '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1', '-Wl,-rpath,' + LLVM + '/lib'])
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build the extractor: ' + r.stderr[-2000:])
    os.replace(tmp, BIN)
    with open(stamp, 'w') as f:
        f.write(h)
    return BIN


def units():
    """(label, source, extra flags, variant): what CMakeLists.txt builds, the
    parallel variants included, plus the drivers that instantiate what no
    application does."""
    u = []
    par = {'balanced_small_cut', 'dynamic_mincut', 'kcore', 'mincut', 'mincut_contract', 'mincut_heavy', 'mincut_recursive'}
    for f in sorted(glob.glob(os.path.join(REPO, 'app', '*.cpp'))):
        b = os.path.basename(f)[:-4]
        u.append((b, f, [], 'seq'))
        if b in par:
            u.append((b + '_parallel', f, ['-DPARALLEL'], 'par'))
    for f in sorted(glob.glob(os.path.join(VERIF, 'drivers', '*.cpp'))):
        b = os.path.basename(f)[:-4]
        if b.endswith('_par'):
            u.append((b, f, ['-DPARALLEL'], 'par'))
        else:
            u.append((b, f, [], 'seq'))
    return u


def content_hash():
    h = hashlib.sha256()
    fs = []
    for pat in ('app', 'lib'):
        for d, dn, fn in os.walk(os.path.join(REPO, pat)):
            dn.sort()
            fs += [os.path.join(d, f) for f in sorted(fn)]
    fs += sorted(glob.glob(os.path.join(VERIF, 'drivers', '*')))
    for d, dn, fn in os.walk(os.path.join(VERIF, 'stubs')):
        dn.sort()
        fs += [os.path.join(d, f) for f in sorted(fn)]
    fs += [SRC, os.path.abspath(__file__)]
    for f in fs:
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()


class Function(dict):
    __slots__ = ()

    @property
    def key(self):
        return self['key']

    def __hash__(self):
        return hash(self['key'])

    def __eq__(self, o):
        return self is o

    def where(self, line=None):
        return '%s:%s' % (self['file'], line if line is not None else self['l'])


def children(n):
    """Direct sub-nodes (statements and expressions) of an AST node."""
    for k, v in n.items():
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if 'k' in x:
            yield x
        st.extend(reversed(list(children(x))))


class Program:
    def __init__(self):
        self.functions = {}      # key -> Function
        self.by_q = {}           # qualified name -> [Function]
        self.records = {}        # (qname, variant or '') -> record
        self.globals = {}
        self.typedefs = {}
        self.units = []

    def q(self, name, variant=None, file=None):
        r = [f for f in self.by_q.get(name, []) if (variant is None or variant in f['variants'])
             and (file is None or f['file'] == file)]
        return r

    def need(self, name, variant=None, file=None):
        r = self.q(name, variant, file)
        if not r:
            raise AnalysisBroken('anchor not found: %s %s %s' % (name, variant or '', file or ''))
        return r

    def lookup(self, usr, variant):
        """The definition a call in `variant` code resolves to."""
        return self.res.get((usr, variant)) or self.res.get((usr, 'seq' if variant == 'par' else 'par'))

    def lambda_of(self, usr, variant, near):
        """The body of a lambda written in `near`, with the variables of `near`."""
        return (self.in_unit.get((usr, near['unit'])) if near is not None else None) or self.lookup(usr, variant)

    def versions(self, usr, variant):
        """Every stored body of a function (units may differ in how they name its types)."""
        r = [self.in_unit[(usr, l)] for l, v, n in self.units if (usr, l) in self.in_unit]
        return r or [f for f in [self.lookup(usr, variant)] if f]

    def methods(self, cls_prefix):
        return [f for f in self.functions.values() if f.get('cls', '').split('<')[0] == cls_prefix]


def _unbind(text, line, names):
    """clang cannot yet capture a structured binding in a lambda when OpenMP is
    on, gcc can: give the bindings declared in `line` plain variables of their
    names.  Nothing moves to another line."""
    lines = text.split('\n')
    at = sum(len(x) + 1 for x in lines[:line - 1])
    for m in re.finditer(r'((?:const\s+)?auto\s*(?:&&?)?)\s*\[([\w\s,]+)\](\s*)([=:({])', text[max(0, at - 400):]):
        b = max(0, at - 400) + m.start()
        e = max(0, at - 400) + m.end()
        names_here = [x.strip() for x in m.group(2).split(',')]
        if e < at or not set(names) & set(names_here):
            continue
        if text[b:at].count('\n') > 5 or b > at + len(lines[line - 1]):
            continue
        spec = ' '.join(m.group(1).split())
        bound = m.group(1) + ' [' + re.sub(r'(\w+)', r'\1_sb', m.group(2)) + ']' + m.group(3) + m.group(4)
        decls = ' ' + ' '.join('[[maybe_unused]] %s %s = %s_sb;' % (spec.replace('&&', '&'), x, x) for x in names_here)
        depth, i = (1 if m.group(4) in '({' else 0), e
        while i < len(text):
            ch = text[i]
            if m.group(4) == ':' and depth == 0 and ch == ')':
                j = i + 1
                while text[j].isspace():
                    j += 1
                if text[j] != '{':
                    return None
                return text[:b] + bound + text[e:j + 1] + decls + text[j + 1:]
            if ch in '([{':
                depth += 1
            elif ch in ')]}':
                depth -= 1
            elif ch == ';' and depth == 0:
                return text[:b] + bound + text[e:i + 1] + decls + text[i + 1:]
            i += 1
    return None


def _unbind_all(err, texts):
    """Rewrite what the messages in `err` point at; True when something changed."""
    changed, cur = False, {}
    if 'capturing a structured binding' not in err:
        return False
    for m in re.finditer(r"^(\S+?):(\d+):\d+: note: '(\w+)' declared here", err, re.M):
        cur.setdefault((os.path.normpath(m.group(1)), int(m.group(2))), set()).add(m.group(3))
    for (f, line), names in cur.items():
        if not f.startswith(REPO + '/'):
            continue
        t = texts.get(f) or open(f).read()
        n = _unbind(t, line, names)
        if n is not None:
            texts[f] = n
            changed = True
    return changed


def _overlay(texts, td):
    fs = []
    for i, (f, t) in enumerate(sorted(texts.items())):
        o = os.path.join(td, 'f%d_%s' % (i, os.path.basename(f)))
        with open(o, 'w') as h:
            h.write(t)
        fs += ['-vc-map', f, o]
    return fs


def _run_unit(args):
    exe, label, src, extra, out = args
    texts = {}
    with tempfile.TemporaryDirectory(prefix='vco') as td:
        crashes = 0
        for tries in range(12):
            over = _overlay(texts, td) if texts else []
            r = subprocess.run([exe, REPO + '/', out, src, '--'] + FLAGS + extra + over, capture_output=True, text=True, cwd=REPO)
            if r.returncode == 0 and os.path.exists(out):
                return (label, None, out)
            if r.returncode > 0 and _unbind_all(r.stderr, texts):
                continue
            crashes += 1
            if crashes > 1 or r.returncode > 0:
                break
    return (label, r.stderr[-3000:] + ' (exit %d)' % r.returncode, None)


def load():
    ch = content_hash()
    cdir = os.path.join(VERIF, '.cache')
    cfile = os.path.join(cdir, ch + '.pkl')
    if os.path.exists(cfile) and not os.environ.get('VC_NOCACHE'):
        try:
            with open(cfile, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    exe = build_extractor()
    P = Program()
    with tempfile.TemporaryDirectory(prefix='vcx') as td:
        jobs = [(exe, l, s, e, os.path.join(td, l + '.json')) for (l, s, e, v) in units()]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(_run_unit, jobs))
        bad = [(l, m) for (l, m, o) in res if o is None]
        if bad:
            raise AnalysisBroken('does not parse: ' + '; '.join('%s: %s' % b for b in bad)[:3000])
        P.res = {}
        P.in_unit = {}
        for (l, s, e, variant), (_, _, out) in zip(units(), res):
            d = json.load(open(out))
            P.units.append((l, variant, len(d['functions'])))
            remap_base = len(P.units) * 1000000
            digs = _group(d['functions'])
            for f in d['functions']:
                k = f['u'] + '@' + f['file']
                if f['q'] == 'main':
                    k += '@' + l
                dig = digs[f['u']]
                while k in P.functions and P.functions[k]['digest'] != dig:
                    k += '#' + variant
                if k in P.functions:
                    g = P.functions[k]
                    g['variants'].add(variant)
                    P.res.setdefault((f['u'], variant), g)
                    continue
                f = Function(f)
                f['digest'] = dig
                f['key'] = k
                f['variants'] = {variant}
                f['unit'] = l
                _shift(f, remap_base)
                P.functions[k] = f
                P.by_q.setdefault(f['q'], []).append(f)
                P.res.setdefault((f['u'], variant), f)
                P.in_unit.setdefault((f['u'], l), f)
            for r in d['records']:
                P.records.setdefault(r['q'], r)
            for g in d['typedefs']:
                P.typedefs.setdefault(g['q'], g)
            for g in d['globals']:
                P.globals.setdefault(g['q'], g)
    P.hash = ch
    try:
        os.makedirs(cdir, exist_ok=True)
        old = sorted(glob.glob(os.path.join(cdir, '*.pkl')), key=os.path.getmtime)
        for o in old[:-4]:
            os.unlink(o)
        tmp = cfile + '.%d' % os.getpid()
        with open(tmp, 'wb') as f:
            pickle.dump(P, f, protocol=4)
        os.replace(tmp, cfile)
    except OSError:
        pass
    return P


def _group(fs):
    """digest per function; a function and the lambdas in it (which share its variables) get one in common"""
    raw, up = {}, {}

    def find(u):
        while up.get(u, u) != u:
            u = up[u]
        return u
    for f in fs:
        lams = []
        raw.setdefault(f['u'], _digest(f, lams))
        for l in lams:
            a, b = find(f['u']), find(l)
            if a != b:
                up[b] = a
    groups = {}
    for u in raw:
        groups.setdefault(find(u), []).append(u)
    r = {}
    for us in groups.values():
        d = raw[us[0]] if len(us) == 1 else hashlib.sha1('|'.join(sorted(raw[u] for u in us)).encode()).hexdigest()
        for u in us:
            r[u] = d
    return r


def _digest(f, lams):
    def strip(n):
        if isinstance(n, dict):
            if n.get('k') == 'lambda' and 'f' in n:
                lams.append(n['f'])
            return {k: strip(v) for k, v in n.items() if k not in ('id', 'hid', 'vars')}
        if isinstance(n, list):
            return [strip(x) for x in n]
        return n
    return hashlib.sha1(json.dumps(strip(f), sort_keys=True).encode()).hexdigest()



def _shift(f, base):
    """Make variable ids unique across translation units."""
    def rec(n):
        if isinstance(n, dict):
            if 'id' in n and isinstance(n['id'], int):
                n['id'] += base
            if 'hid' in n and isinstance(n['hid'], int):
                n['hid'] += base
            if 'vars' in n:
                n['vars'] = [x + base for x in n['vars']]
            for v in n.values():
                if isinstance(v, (dict, list)):
                    rec(v)
        elif isinstance(n, list):
            for x in n:
                if isinstance(x, (dict, list)):
                    rec(x)
    rec({k: v for k, v in f.items() if k in ('params', 'b', 'inits')})
