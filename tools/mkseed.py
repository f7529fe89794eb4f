#!/usr/bin/env python3
"""mkseed.py DIR...: for every seeded/<id>/spec (FILE/<<<< ==== >>>> blocks), make patch.diff against /repo HEAD in a
scratch copy and confirm it: builds, stable tests pass, demo passes without and fails with it, the check reports it."""
import json, os, re, shutil, subprocess, sys
import concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def one(i):
    sd = V + '/seeded/' + i
    w = '/tmp/seed/' + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    out = [i]
    sh('git clone -q /repo r', w)
    r = w + '/r'
    spec = open(V + '/tools/seeds/' + i + '.txt').read()
    f = None
    for m in re.finditer(r'^FILE ([^\n]*)$|<<<<\n(.*?)====\n(.*?)>>>>', spec, flags=re.M | re.S):
        if m.group(1):
            f = r + '/' + m.group(1).strip()
            continue
        s = open(f, newline='').read()
        crlf = '\r\n' in s
        s = s.replace('\r\n', '\n')
        if s.count(m.group(2)) != 1:
            return i + ': OLD TEXT found %d times:\n%s' % (s.count(m.group(2)), m.group(2))
        s = s.replace(m.group(2), m.group(3))
        open(f, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
    d = sh('git diff', r).stdout
    os.makedirs(sd, exist_ok=True)
    sh('git diff > %s/patch.diff' % sd, r)
    demo = w + '/demo'
    shutil.copytree(sd, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    # changed lines must be original
    fixes = sh('git log --format=%H 74ef124..HEAD', r).stdout.split()
    for l in re.finditer(r'^--- a/(\S+)\n\+\+\+ \S+\n((?:@@.*\n(?:[ +\-\\].*\n?)*)+)', d, flags=re.M):
        p = l.group(1)
        for h in re.finditer(r'@@ -(\d+),?(\d*) .*@@.*\n((?:[ +\-\\].*\n?)*)', l.group(2)):
            n = int(h.group(1))
            for x in h.group(3).split('\n'):
                if x.startswith('-'):
                    b = sh('git blame -l -L %d,%d HEAD -- %s' % (n, n, p), r).stdout.split()[0]
                    if b.lstrip('^') in fixes:
                        out.append('  line %s:%d is from fix %s' % (p, n, b[:8]))
                if x[:1] in ' -':
                    n += 1
    q = w + '/clean'
    sh('git clone -q /repo clean', w)
    a = sh('timeout 300 bash %s/demo.sh' % demo, q)
    b = sh('timeout 300 bash %s/demo.sh' % demo, r)
    out.append('  demo clean rc=%d, patched rc=%d' % (a.returncode, b.returncode))
    if a.returncode:
        out.append(a.stdout[-1500:] + a.stderr[-1500:])
    if b.returncode == 0:
        out.append(b.stdout[-1500:] + b.stderr[-1500:])
    prop = json.load(open(sd + '/meta.json'))['property']
    v = w + '/v'
    os.makedirs(v)
    for s in os.listdir(V):
        if s in ('.git', '.cache', 'evidence', 'seeded'):
            continue
        src = V + '/' + s
        if s == 'vclib':
            shutil.copytree(src, v + '/' + s)
        elif s == 'check.py':
            shutil.copy(src, v + '/' + s)
        else:
            os.symlink(src, v + '/' + s)
    c = sh('python3 check.py ' + prop, v, env=dict(os.environ, VC_REPO=r))
    out.append('  check %s rc=%d' % (prop, c.returncode))
    out.append('\n'.join('    ' + x[:220] for x in c.stdout.split('\n') if x and 'replay' not in x and 'KNOWN' not in x)[-900:])
    shutil.rmtree(w, ignore_errors=True)
    return '\n'.join(out)


if __name__ == '__main__':
    with cf.ThreadPoolExecutor(4) as ex:
        for x in ex.map(one, sys.argv[1:]):
            print(x, flush=True)
