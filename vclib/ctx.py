"""Collects obligations and findings of one property and reports them."""
import json
import os
import re
import time

from .program import VERIF, AnalysisBroken


def short(q):
    """Qualified name without template arguments."""
    out, d = [], 0
    for ch in q:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out)


class Ctx:
    def __init__(self, prop, prog):
        self.prop, self.P = prop, prog
        self.obl = {}          # rule -> set of constructs examined
        self.bad = {}          # key -> finding
        self.notes = []
        self.functions = set()
        self.t0 = time.time()

    def saw(self, fn):
        self.functions.add(fn['key'])

    def ok(self, rule, where):
        self.obl.setdefault(rule, set()).add(str(where))

    def violation(self, rule, fn, line, what, tag='', path=''):
        """`tag` distinguishes findings of one rule in one function; it never
        contains positions."""
        f = fn['file'] if fn else '?'
        q = short(fn['q']) if fn else '?'
        key = '%s|%s|%s|%s' % (rule, f, q, tag)
        self.obl.setdefault(rule, set()).add('%s:%s' % (f, line))
        if key not in self.bad:
            self.bad[key] = {'key': key, 'rule': rule, 'file': f, 'line': line, 'function': q, 'what': what, 'path': path}

    def check(self, cond, rule, fn, line, what, tag='', path=''):
        if cond:
            self.ok(rule, '%s:%s' % (fn['file'], line))
        else:
            self.violation(rule, fn, line, what, tag, path)
        return cond

    def floor(self, rule, n):
        """The analysis must have found its subject."""
        if self.bad:
            return          # a violation may hide further instances, and is the answer already
        have = len(self.obl.get(rule, ()))
        if have < n:
            raise AnalysisBroken('%s: only %d instances of "%s", expected at least %d' % (self.prop, have, rule, n))


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def report(ctx, tier, rule_text, assumptions, level='other'):
    kn = {k['key']: k for k in known() if k['property'] == ctx.prop and k.get('status', 'open') == 'open'}
    new = [v for k, v in sorted(ctx.bad.items()) if k not in kn]
    old = [v for k, v in sorted(ctx.bad.items()) if k in kn]
    for v in old:
        print('KNOWN-FINDING: property=%s %s (%s:%s, %s)' % (ctx.prop, v['what'], v['file'], v['line'], v['function']))
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rp = os.path.join(ev, ctx.prop + '.violations.json')
    if new:
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1)
    elif os.path.exists(rp):
        os.unlink(rp)
    for v in new[:25]:
        print('%s:%s: in %s: %s' % (v['file'], v['line'], v['function'], v['what']))
        if v['path']:
            print('    path: ' + v['path'])
        print('VIOLATION property=%s replay=%s' % (ctx.prop, rp))
    data = {
        'property': ctx.prop,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': level,
        'coverage': {
            'explanation': rule_text,
            'functions_analysed': len(ctx.functions),
            'obligations': sum(len(v) for v in ctx.obl.values()),
            'obligations_by_rule': {k: len(v) for k, v in sorted(ctx.obl.items())},
            'constructs': {k: sorted(v)[:400] for k, v in sorted(ctx.obl.items())},
            'violations_known': len(old),
            'source_hash': ctx.P.hash,
            'translation_units': len(ctx.P.units),
            'functions_in_program': len(ctx.P.functions),
        },
        'assumptions': assumptions,
        'violations': new,
        'wall_s': round(time.time() - ctx.t0, 2),
    }
    if ctx.notes:
        data['coverage']['notes'] = ctx.notes
    with open(os.path.join(ev, ctx.prop + '.json'), 'w') as f:
        json.dump(data, f, indent=1)
    n = sum(len(v) for v in ctx.obl.values())
    print('%s: %d obligations over %d functions, %d known finding(s), %d violation(s)' % (
        ctx.prop, n, len(ctx.functions), len(old), len(new)))
    return 1 if new else 0
