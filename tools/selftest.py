#!/usr/bin/env python3-vt
"""Tests of the verifier itself: small functions with claims that hold (must be discharged) and claims that do not (must not be).
usage: selftest.py   (exit 1 if one comes out wrong). Not run by the checks."""
import os, sys, subprocess, tempfile, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODE = '''
import copy
class O:
    def __init__(self): self.n = 0; self.l = []
    def bump(self): self.n += 1
    def __eq__(self, o): return self.n == o.n
class P(O):
    def bump(self): super().bump(); self.n += 1
def nested(o, xs):
    for x in xs:
        for y in x: o.n = 5
    return o.n
def nested2(o, xs):
    for x in xs:
        if o.n: o.l.append(x)
        for y in x: o.bump()
    return len(o.l)
def callee(o, xs):
    for x in xs: o.bump()
    return o.n
def alias(a, b):
    a.append(1)
    return len(b)
def early(xs, k):
    for x in xs:
        if x == k: return True
    return False
def orelse(xs, k):
    for x in xs:
        if x == k: break
    else: return 'none'
    return 'some'
def count(xs):
    n = 0
    for x in xs: n += 1
    return n
def total(xs):
    n = 0
    for x in xs: n += x
    return n
def whilst(n):
    i = 0
    while i < n: i += 1
    return i
def whilstbad(n):
    i = 0
    while i < n: i += 2
    return i
def last(xs):
    r = None
    for x in xs: r = x
    return r
def tryit(d, k):
    try: return d[k]
    except KeyError: return 'no'
def fin(o):
    try:
        o.n = 1
        raise ValueError('x')
    except ValueError: o.n = 2
    finally: o.n += 10
    return o.n
def gen(xs):
    for x in xs:
        yield x
        yield x
def usegen(xs): return [y for y in gen(xs)]
def default(x, acc=[]):
    acc.append(x)
    return len(acc)
def pops(d, k):
    v = d.pop(k, None)
    return k in d
def slicing(s, i): return s[:i] + s[i:]
def slicing2(s, i): return s[i:] + s[:i]
def strips(s): return s.strip()
def up(s): return s.upper()
def repl(s): return s.replace('a', 'b')
def splitjoin(s): return ','.join(s.split(','))
def find(s, t):
    i = s.find(t)
    return i if i >= 0 else None
def div(a, b): return a // b
def mod(a, b): return a % b
def shadow(x):
    f = lambda y: y + x
    x = x + 1
    return f(0)
def chain(a, b, c): return a < b < c
def tern(a): return 'p' if a > 0 else 'z' if a == 0 else 'n'
def unpack(p):
    a, *b = p
    return a, len(b)
def seen(xs):
    s = set()
    for x in xs: s.add(x)
    return len(s)
def dictcount(xs, k):
    d = {}
    for x in xs: d[x] = d.get(x, 0) + 1
    return d.get(k, 0)
def remove(xs, k):
    xs.remove(k)
    return k in xs
def delwhile(xs):
    for x in list(xs): xs.remove(x)
    return len(xs)
def cop(o):
    p = copy.copy(o)
    p.n = 3
    return o.n
def poly(o):
    o.bump()
    return o.n
def brk(o, xs):
    for x in xs:
        o.n += 1
        if x: break
    return o.n
def cont(xs):
    n = 0
    for x in xs:
        if x < 0: continue
        n += x
    return n
def setloop(o, xs):
    for i, x in enumerate(xs): o.l.append(i)
    return len(o.l)
def build(s, t):
    r = t
    for c in s: r += c + '-'
    return r
def rebuild(s, t):
    r = t
    for c in s: r = c + r
    return r
def trimmed(s, t):
    r = t
    for c in s: r = r[:-1] + c
    return r
def grown(xs, l):
    for x in xs: l.append(x)
    return l
def swapped(xs, l):
    for x in xs: l.append(x); l[0] = x
    return l
def replaced(xs, l):
    for x in xs:
        l = l + [x]
        l[0] = 0
    return l
def nestgrow(xss, l):
    for xs in xss:
        for x in xs: l.append(x)
        l.insert(0, 5)
    return l
def setsub(a, b, k):
    c = a
    c -= b
    return k in a
def setsub2(a, b, k):
    c = a - b
    c.add(k)
    return k in a
def longer(s, x):
    for c in s.replace('a', 'bc'):
        if c == x: return True
    return False
def dropped(s):
    for c in s.replace('a', ''): return c
    return ''
def pairs(s):
    n, p = 0, ''
    for c in s.replace('a', 'bc'):
        if p == 'b' and c == 'c': n += 1
        p = c
    return n
def trunc(x): return int(x)
def keep(xs): return [x for x in xs if x != 0]
def order(d):
    return [k for k, v in sorted(d.items())]
'''
TESTS = r'''
from pv import *
m = load('sldr.zz')
def ints(h='xs'): return alist(h, lambda h: newint(h))
def strs(h='xs'): return alist(h, lambda h: newstr(h))
def o(cls='O', **k): return obj(getattr(m, cls), **dict(dict(n=0, l=SList()), **k))
def claim(good, name, fn):
    @ob(('GOOD ' if good else 'BAD ') + name)
    def _(): prove('claim', fn())
T, F = True, False
c = lambda f, *a: call(getattr(m, f), *a)
claim(F, 'nested', lambda: eq(c('nested', o(), alist('x', lambda h: strs())), 0))
claim(F, 'nested2', lambda: eq(c('nested2', o(), alist('x', lambda h: strs())), 0))
claim(F, 'callee', lambda: eq(c('callee', o(), strs()), 0))
claim(T, 'callee >= 0', lambda: c('callee', o(), strs()) >= 0)
def al(same):
    a = ints(); b = a if same else ints('b'); n = b.slen()
    return eq(c('alias', a, b), n + 1 if same else n)
claim(T, 'alias', lambda: al(1)); claim(T, 'no alias', lambda: al(0))
def al2(): a = ints(); n = a.slen(); return eq(c('alias', a, a), n)
claim(F, 'alias kept', al2)
claim(F, 'early never', lambda: bnot(c('early', strs(), newstr('k'))))
claim(F, 'early always', lambda: c('early', strs(), newstr('k')))
def e1(): k = newstr('k'); return c('early', SList(ps=[Seg('a', 'list', lambda h: newstr(h)), k, Seg('b', 'list', lambda h: newstr(h))]), k)
claim(T, 'early there', e1)
claim(F, 'orelse some', lambda: eq(c('orelse', strs(), newstr('k')), 'some'))
claim(F, 'orelse none', lambda: eq(c('orelse', strs(), newstr('k')), 'none'))
def cn(): x = ints(); n = x.slen(); return eq(c('count', x), n)
claim(T, 'count', cn)
def cn1(): x = ints(); n = x.slen(); return eq(c('count', x), n + 1)
claim(F, 'count off', cn1)
claim(F, 'total', lambda: eq(c('total', ints()), 0)); claim(F, 'total >= 0', lambda: c('total', ints()) >= 0)
claim(T, 'total of natural numbers', lambda: c('total', alist('x', lambda h: newint(h, 0))) >= 0)
claim(F, 'whilst n', lambda: (lambda n: eq(c('whilst', n), n))(newint('n')))
claim(F, 'whilstbad', lambda: (lambda n: eq(c('whilstbad', n), n))(newint('n', 0)))
claim(T, 'whilst reaches', lambda: (lambda n: c('whilst', n) >= n)(newint('n', 0)))
claim(F, 'last None', lambda: c('last', ints()) is None)
claim(F, 'last not None', lambda: c('last', ints()) is not None)
mp = lambda: SMap.opaque_('d', lambda h: newstr(h), lambda k: newint('v'))
claim(F, 'try no', lambda: eq(c('tryit', mp(), newstr('k')), 'no'))
claim(T, 'finally', lambda: eq(c('fin', o()), 12))
claim(F, 'gen', lambda: (lambda x: (lambda n: eq(c('usegen', x).slen(), n))(x.slen()))(ints()))
claim(T, 'popped', lambda: bnot(c('pops', mp(), newstr('k'))))
claim(T, 'slices', lambda: (lambda s: rt.eq(c('slicing', s, newint('i', 0)), s))(newstr('s')))
claim(F, 'slices swapped', lambda: (lambda s: rt.eq(c('slicing2', s, newint('i', 0)), s))(newstr('s')))
claim(F, 'strip', lambda: (lambda s: rt.eq(c('strips', s), s))(newstr('s')))
claim(F, 'upper', lambda: (lambda s: rt.eq(c('up', s), s))(newstr('s')))
claim(F, 'replace', lambda: (lambda s: rt.eq(c('repl', s), s))(newstr('s')))
claim(F, 'find none', lambda: c('find', newstr('s'), newstr('t')) is None)
claim(F, 'find zero', lambda: (lambda r: r is None or rt.eq(r, 0))(c('find', newstr('s'), newstr('t'))))
def dv(f, g):
    a, b = newint('a'), newint('b')
    assume(b != 0)
    return g(a, b, c(f, a, b))
claim(F, 'div truncates', lambda: dv('div', lambda a, b, r: bor(a >= 0, b <= 0, r * b >= a)))
claim(F, 'mod not negative', lambda: dv('mod', lambda a, b, r: r >= 0))
claim(T, 'mod of positive', lambda: dv('mod', lambda a, b, r: bor(b < 0, band(r >= 0, r < b))))
claim(F, 'int floors', lambda: (lambda x: c('trunc', x) <= x)(newreal('x')))
claim(T, 'int truncates', lambda: (lambda x: (lambda n: bor(band(x >= 0, n <= x, x < n + 1), band(x <= 0, n >= x, x > n - 1)))(c('trunc', x)))(newreal('x')))
def two(a): return SList(ps=[Seg('a', 'list', lambda h: newint(h)), a, Seg('b', 'list', lambda h: newint(h))])
claim(F, 'filter keeps all', lambda: (lambda l: eq(c('keep', l).slen(), l.slen()))(two(newint('x'))))
claim(F, 'filter keeps none', lambda: (lambda l: eq(c('keep', l).slen(), 0))(two(newint('x'))))
claim(T, 'filter keeps what is known', lambda: (lambda x: bor(eq(x, 0), c('keep', two(x)).slen() >= 1))(newint('x')))
claim(F, 'closure by value', lambda: (lambda x: eq(c('shadow', x), x))(newint('x')))
claim(T, 'closure by reference', lambda: (lambda x: eq(c('shadow', x), x + 1))(newint('x')))
claim(F, 'chain', lambda: (lambda a, b, d: rt.eq(c('chain', a, b, d), a < d))(newint('a'), newint('b'), newint('d')))
claim(F, 'ternary', lambda: eq(c('tern', newint('a')), 'p'))
claim(F, 'set size', lambda: (lambda x: (lambda n: eq(c('seen', x), n))(x.slen()))(strs()))
claim(F, 'dict counts', lambda: eq(c('dictcount', strs(), newstr('k')), 0))
def rm():
    k = newstr('k')
    return bnot(c('remove', SList(ps=[Seg('a', 'list', lambda h: newstr(h)), k, Seg('b', 'list', lambda h: newstr(h))]), k))
claim(F, 'removed all', rm)
claim(F, 'deleting leaves some', lambda: c('delwhile', strs()) > 0)
claim(T, 'copied', lambda: eq(c('cop', o()), 0))
claim(T, 'overridden', lambda: eq(c('poly', o('P')), 2)); claim(F, 'not overridden', lambda: eq(c('poly', o('P')), 1))
claim(F, 'break at once', lambda: c('brk', o(), ints()) <= 1)
claim(T, 'break counts', lambda: c('brk', o(), ints()) >= 0)
claim(F, 'continue', lambda: eq(c('cont', ints()), 0)); claim(T, 'continue >= 0', lambda: c('cont', ints()) >= 0)
t7 = lambda: mkstr((55,)) + newstr('t')
claim(T, 'string built', lambda: rt.startswith(c('build', newstr('s'), t7()), '7'))
claim(F, 'string built short', lambda: (lambda t: rt.eq(c('build', newstr('s'), t), t))(newstr('t')))
claim(F, 'string rebuilt', lambda: rt.startswith(c('rebuild', newstr('s'), t7()), '7'))
claim(F, 'string trimmed', lambda: rt.startswith(c('trimmed', newstr('s'), t7()), '7'))
l7 = lambda: SList(ps=[7])
nat = lambda: alist('x', lambda h: newint(h, 8))
claim(T, 'list grown', lambda: eq(getitem(c('grown', nat(), l7()), 0), 7))
claim(F, 'list swapped', lambda: eq(getitem(c('swapped', nat(), l7()), 0), 7))
claim(F, 'list replaced', lambda: eq(getitem(c('replaced', nat(), l7()), 0), 7))
claim(F, 'list of a nest', lambda: eq(getitem(c('nestgrow', alist('y', lambda h: nat()), l7()), 0), 7))
claim(F, 'list grown empty', lambda: eq(c('grown', nat(), l7()).slen(), 1))
st_ = lambda h: SSet.opaque_(h, lambda n: newstr(n))
def ss(f, want):
    a, b, k = st_('a'), st_('b'), newstr('k')
    x, y = k in a, k in b
    return iff(c(f, a, b, k), want(x, y))
claim(T, 'subtracted in place', lambda: ss('setsub', lambda x, y: x and not y)); claim(F, 'in place kept', lambda: ss('setsub', lambda x, y: x))
claim(T, 'subtracted', lambda: ss('setsub2', lambda x, y: x)); claim(F, 'subtracted bad', lambda: ss('setsub2', lambda x, y: True))
claim(T, 'replaced is gone', lambda: bnot(c('longer', newstr('s'), 'a')))
claim(F, 'replaced first', lambda: bnot(c('longer', newstr('s'), 'b'))); claim(F, 'replaced second', lambda: bnot(c('longer', newstr('s'), 'c')))
claim(F, 'dropped all', lambda: eq(c('dropped', newstr('s')), '')); claim(F, 'not dropped', lambda: ne(c('dropped', newstr('s')), 'x'))
claim(F, 'no pairs', lambda: eq(c('pairs', newstr('s')), 0)); claim(F, 'pairs', lambda: c('pairs', newstr('s', minlen=1)) > 0)
claim(F, 'appends in a loop', lambda: eq(c('setloop', o(), strs()), 0))
'''
def main():
    d = tempfile.mkdtemp()
    try:
        os.makedirs(d + '/repo/lib/sldr'); os.mkdir(d + '/c')
        open(d + '/repo/lib/sldr/__init__.py', 'w').close()
        open(d + '/repo/lib/sldr/zz.py', 'w').write(CODE)
        open(d + '/c/C99.py', 'w').write(TESTS)
        p = subprocess.run(['python3-vt', V + '/pyvc/prove.py', 'C99'], env=dict(os.environ, PYTHONPATH=d + '/c', VERIF_REPO=d + '/repo'), capture_output=True, text=True)
        r = json.loads(p.stdout.strip().split('\n')[-1])
    finally: shutil.rmtree(d)
    if r['error']: print(r['error'])
    bad, st = 0, {}
    for o in r['obligations']:
        n = o['name'].split(': ')[0]
        s = o['status'] if o['name'].endswith(': claim') or o['status'] != 'discharged' else None
        if s: st[n] = s if st.get(n) in (None, 'discharged') else st[n]
    n = 0
    for k in sorted(st):
        n += 1
        if k.startswith('BAD') and st[k] == 'discharged': bad += 1; print('UNSOUND', k)
        if k.startswith('GOOD') and st[k] != 'discharged': print('not discharged', k, [o.get('detail') for o in r['obligations'] if o['name'].startswith(k + ':') and o['status'] != 'discharged'][:1])
        if k.startswith('BAD') and st[k] == 'unknown': print('undecided', k, [o.get('detail') for o in r['obligations'] if o['name'].startswith(k + ':') and o['status'] != 'discharged'][:1])
    print('%d claims, %d false ones discharged' % (n, bad))
    sys.exit(bad > 0)
main()
