"""C06-C08: sort keys and collations."""
import itertools
from base import *
from g_text import norm3, strip0
CO = "lib/sldr/collation.py"

def mktable(t):
    return {k: tuple(tuple(w) for w in v) for k, v in t}

def longest(s, entries):
    """The entries of the longest matches, and None where there is none."""
    res = []
    while s:
        i = next((i for i in range(len(s), 0, -1) if s[:i] in entries), None)
        if i is None: return res + [None]
        res.append(entries[s[:i]]); s = s[i:]
    return res

def refkey(s, levels):
    """levels: string -> [[...],[...],[...]]"""
    parts = longest(s, levels)
    res = [[], [], []]
    for p in parts:
        if p is None: break
        for j in range(3): res[j] += list(p[j])
    if len(s) != 1:
        res = [[v for v in r if v != 0] for r in res]
    return res

def rweights(rng, D, n):
    return [[D.number(rng, 0, 9) if rng.random() < .6 else rng.choice((0, 0, 2, 0x20, 0x1c47)), rng.choice((0, 0x20, 0x20, 0x25, 3)), rng.choice((0, 2, 2, 8))] for _ in range(n)]

@register
class C06(Prop):
    id = 'C06'; files = [CO]
    rule = "weight tables with contractions over 2-4 letters, strings of 0-12 letters, with and without overriding entries with or without keys; non trivial: a string of two or more characters"
    bound = "exhaustive over strings of at most 4 letters of 2 for every set of the 6 contractions of 2-3 letters; random beyond"
    def setup(self):
        import sldr.collation as c
        self.c = c
    def exhaustive(self, tier):
        cons = ['ab', 'ba', 'aa', 'abb', 'bab', 'aab']
        base = [['a', [[1, 2, 3]]], ['b', [[0, 4, 5], [6, 0, 7]]]]
        for n in range(0, 4):
            for cs in itertools.combinations(cons, n):
                t = base + [[k, [[10 + i, 11 + i, 12 + i]]] for i, k in enumerate(cs)]
                for l in range(0, 5):
                    for s in itertools.product('ab', repeat=l):
                        yield [t, ''.join(s), [], []]
    def random(self, rng, D):
        al = [rchar(rng, D) for _ in range(rng.randint(1, 4))]
        t = {c: rweights(rng, D, rng.choice((1, 1, 1, 2, 3))) for c in al}
        for _ in range(rng.randint(0, 4)):
            k = ''.join(rng.choice(al) for _ in range(rng.choice((2, 2, 3, 4, max(2, min(D.length(rng), 12))))))
            t[k] = rweights(rng, D, rng.choice((1, 1, 2, 4)) if rng.random() < .95 else rng.randint(5, 30))
        s = ''.join(rng.choice(list(t)) for _ in range(min(D.length(rng, 5, 9), 60)))
        over = lambda: [[''.join(rng.choice(al) for _ in range(rng.choice((1, 1, 2, 3)) if rng.random() < .9 else rng.randint(4, 12))), [[rng.choice((0, 1.5, 7, -.25, 1e-6)) for _ in range(rng.randint(1, 2))] for _ in range(3)]] for _ in range(rng.choice((0, 0, 1, 2)))]
        return [[[k, v] for k, v in t.items()], s, over(), over()]
    def valid(self, c): return all(k and v and all(len(w) == 3 for w in v) for k, v in c[0]) and all(ch in dict(c[0]) for ch in c[1]) and all(len(v) == 3 and all(v) for _, v in c[2] + c[3])
    def nontrivial(self, c): return len(c[1]) > 1
    def check(self, case):
        t, s, extra, fn = case
        d = mktable(t)
        snap = dict(d)
        lev = {k: [list(x) for x in zip(*v)] for k, v in d.items()}
        def cmp(what, got, exp):
            if [list(x) for x in got] != exp:
                return "%s of %r with entries %r (extra %r, own %r) is %r, not %r" % (what, s, lev, extra, fn, got, exp)
        m = cmp('ducetSortKey', self.c.ducetSortKey(d, s), refkey(s, lev))
        coll = self.c.Collation(ducetDict=d)
        m = m or cmp('getSortKey', coll.getSortKey(s), refkey(s, lev))
        if extra:
            ex = {}
            lv = dict(lev)
            for i, (k, v) in enumerate(extra):
                ex[k] = self.c.CollElement('x', 1 + (i + len(k)) % 4, 0); ex[k].key = self.c.SortKey([list(x) for x in v]); lv[k] = v
            m = m or cmp('ducetSortKey(extra=)', self.c.ducetSortKey(d, s, extra=ex), refkey(s, lv))
            for k, v in extra:
                if dict(extra)[k] == v and [list(x) for x in ex[k].key] != [list(x) for x in v]: m = m or "the key of %r was changed to %r" % (k, ex[k].key)
        if fn:
            lv = dict(lev)
            for i, (k, v) in enumerate(dict(fn).items()):
                coll[k] = self.c.CollElement('x' if i % 2 else k[:1], 1 + (i + len(k) + len(s)) % 4, 0); coll[k].key = self.c.SortKey([list(x) for x in v]); lv[k] = v
            m = m or cmp('Collation.sortKey', coll.sortKey(s), refkey(s, lv))
        if d != snap: m = m or "the table was changed"
        return m

@register
class C07(Prop):
    id = 'C07'; files = [CO]
    rule = "tailorings of 1-8 elements over a random weight table, bases in and out of the tailoring, before and after, expansions, and chains defined in any order; keys are computed through the collation and element by element in random order"
    bound = "exhaustive over chains of 3 elements for all levels and reset sides; random beyond"
    def setup(self):
        import sldr.collation as c
        self.c = c
        need(c.CollElement, 'sortkey')
    T = [['a', [[5, 32, 2]]], ['b', [[9, 32, 2]]], ['c', [[13, 32, 2], [1, 2, 3]]], ['d', [[17, 33, 8]]], ['\u0301', [[0, 36, 2]]], ['dd', [[25, 32, 2]]]]
    def exhaustive(self, tier):
        for l1, l2, l3 in itertools.product((1, 2, 3, 4), repeat=3):
            for bf in (0, 1):
                yield [self.T, [['x', 'a', l1, l1 if bf and l1 < 4 else 0, ''], ['y', 'x', l2, 0, ''], ['z', 'y', l3, 0, '']], [0, 1, 2]]
                yield [self.T, [['x', 'a', l1, 0, ''], ['y', 'a', l2, l2 if bf and l2 < 4 else 0, ''], ['z', 'x', l3, 0, 'b']], [2, 1, 0]]
                yield [self.T, [['x', 'c', l1, l1 if bf and l1 < 4 else 0, 'b'], ['y', 'ab', l2, 0, ''], ['z', 'y', l3, 0, '']], [2, 1, 0]]
                yield [self.T, [['x', 'y', l1, 0, 'b'], ['y', 'd', l2, 0, ''], ['a', 'b', l3, l3 if bf and l3 < 4 else 0, '']], [0, 2, 1]]
    def random(self, rng, D):
        t = [['a', [[5, 32, 2]]]]
        for ch in 'bcd':
            w = rweights(rng, D, rng.choice((1, 1, 2)))
            if rng.random() < .8: w[-1] = [w[-1][0] * 3 + 12, w[-1][1] + 1, w[-1][2] + 1]
            t.append([ch, w])
        if rng.random() < .4: t.append([rng.choice(('ab', 'dd', 'bcd', 'abcda', 'dabcdb')), [[40, 32, 2]]])
        n = min(max(1, D.length(rng, 5, 9)), 30)
        names = rng.sample(['x', 'y', 'z', 'w', 'b', 'c', 'd', 'xy', 'v', 'u'] + ['k%d' % i for i in range(20)], n)
        els = []
        for i, k in enumerate(names):
            r = rng.random()
            base = rng.choice([x for x in names if x != k] or ['a']) if r < .35 else rng.choice(names[:i] or ['a']) if r < .7 else rng.choice('abcd') if r < .95 else rng.choice(('ab', 'cd', 'bc', 'da', 'abcdab', 'dabcdbcc')) if rng.random() < .5 else rng.choice(names) + rng.choice('abcd')
            if rng.random() < .1 and any(len(x) > 3 for x, v in t): base = next(x for x, v in t if len(x) > 3) + rng.choice(('', 'a', 'bc'))
            if base == k: base = 'a'
            lev = rng.choice((1, 1, 2, 3, 4))
            bf = (lev if lev < 4 and rng.random() < .8 else rng.randint(1, 3)) if rng.random() < .2 else 0
            exp = ''.join(rng.choice([c for c in 'abcdxyz' if c not in k]) for _ in range(rng.choice((1, 2)))) if rng.random() < .2 else ''
            els.append([k, base, lev, bf, exp])
        order = list(range(n)); rng.shuffle(order)
        return [t, els, order]
    def valid(self, c):
        t, els, order = c
        if not all(k and v and all(len(w) == 3 for w in v) for k, v in t): return False
        chars = {k for k, v in t}
        names = [e[0] for e in els]
        if len(set(names)) != len(names) or sorted(order) != list(range(len(els))): return False
        if not all(len(e) == 5 and e[0] and e[1] and 1 <= e[2] <= 4 and e[3] in (0, 1, 2, 3) and e[0] not in e[4] for e in els): return False
        if any(n in e[4] + e[1][1:] and any(f[1].startswith(e[0]) for f in els) for e in els for n in names): return False
        return all((e[1] in names or all(x in chars for x in e[1]) or any(e[1].startswith(n) and all(x in chars for x in e[1][len(n):]) for n in names)) and all(x in chars or x in names for x in e[4]) and e[0] not in e[1][1:] and e[0] != e[1] for e in els)
    def make(self, case):
        t, els, order = case
        d = mktable(t)
        coll = self.c.Collation(ducetDict=d)
        names = [e[0] for e in els]
        scheme = sum(order[:2]) + len(els) + els[0][2] if els else 0
        if scheme % 4 == 3 and any(b.startswith(n) for i, (k, b, l, bf, exp) in enumerate(els) for n in names[i:]): scheme = 0    # a base that comes later
        for i, (k, b, l, bf, exp) in enumerate(els):
            e = self.c.CollElement(b, l, bf)
            e.order = (i // 3, i % 3) if scheme % 4 == 2 else (0,) if scheme % 4 == 3 else (i, 1)
            if exp: e.exp = exp
            coll[k] = e
        return d, coll
    def check(self, case):
        if not self.valid(case): return None
        t, els, order = case
        d, coll = self.make(case)
        snap = dict(d)
        nb = sum(1 for e in els if e[3])
        inc, shift = 1. / 10 ** len(str((nb + 1) * len(els))), 1. / (nb + 1)
        # through the collation
        lev = {k: [list(x) for x in zip(*v)] for k, v in d.items()}
        keys = {}
        def lv(): return {**lev, **{k: [list(x) for x in v] for k, v in keys.items()}}
        def basekey(coll, e):
            b = coll.get(e.base)
            if b is not None and b is not e and b.order <= e.order:
                # what an expansion that sorts after the key does to what is defined against the element is not said
                return (getattr(b, 'shortkey', None) if b.exp else b.key), b
            return refkey(e.base, lev), None
        def judge(coll, k, before):
            e = coll[k]
            B, b = basekey(coll, e)
            if B is None: return "the base of %r has no key" % k
            B = [list(x) for x in B]
            E = [list(x) for x in e.key]
            lvl = e.level
            S = [E[j][:len(B[j])] for j in range(3)]
            rest = [E[j][len(B[j]):] for j in range(3)]
            exp = e.exp
            R = refkey(exp, before) if exp else [[], [], []]
            for j in range(3):
                if j == lvl - 1:
                    if S[j][:-1] != B[j][:-1] or len(S[j]) != len(B[j]):
                        return "key %r of %r does not follow %r at level %d" % (E, k, B, lvl)
                    if e.before == lvl:
                        if not B[j][-1] - 1 < S[j][-1] < B[j][-1]: return "key %r of %r is not before %r at level %d" % (E, k, B, lvl)
                    elif not B[j][-1] < S[j][-1] < B[j][-1] + 1: return "key %r of %r is not after %r at level %d" % (E, k, B, lvl)
                elif S[j] != B[j]:
                    return "key %r of %r differs from %r at level %d, not only at %d" % (E, k, B, j + 1, lvl)
            if rest != R: return "key %r of %r is not %r with the expansion %r %r" % (E, k, S, exp, R)
            if not exp and b is not None and b.exp: return "%r loses the expansion of its base" % k
            if exp and not self.c.SortKey(R) > self.c.SortKey(S) and [list(x) for x in e.shortkey] != S: return "the key %r of %r without its expansion is given as %r" % (S, k, e.shortkey)
            full = [B[j] + R[j] for j in range(3)]
            want = 0 if lvl == 4 else -lvl if e.before != lvl else lvl
            got = self.c.SortKey(full).cmp(self.c.SortKey(E))
            if got != want and not (lvl < 4 and e.before == lvl and B[lvl-1][-1] == 0):
                return "key %r of %r compared with its base %r is %r, not %r" % (E, k, full, got, want)
        for e in els:                               # where there is no weight to change nothing is said
            pass
        ok = self.fits(case, lev)
        if not ok: return None
        for mode in ('calls', 'collation', 'forced'):
            if mode != 'forced':
                d, coll = self.make(case)
            done = {}
            def unchanged(k):
                for k2, v in done.items():
                    if [list(x) for x in coll[k2].key] != v:
                        return "working out the key of %r changed that of %r from %r to %r" % (k, k2, v, coll[k2].key)
                    if done2[k2] != [list(x) for x in coll[k2].shortkey]:
                        return "working out the key of %r changed the short key of %r" % (k, k2)
            done2 = {}
            if mode == 'calls':
                for i in range(len(els)):
                    k = els[i][0]
                    e = coll[k]
                    e.expand(coll, d)
                for i in order if not any(e[4] or len(e[1]) > 1 for e in els) else range(len(els)):
                    k = els[i][0]; e = coll[k]
                    b = coll.get(e.base)
                    if b is not None and b is not e and b.order <= e.order:
                        pass
                    before = {**lev, **{x: [list(y) for y in coll[x].key] for x in coll if hasattr(coll[x], 'key')}}
                    e.sortkey(coll, d, inc, shift)
                    for x in coll:
                        if x not in done and hasattr(coll[x], 'key') and isinstance(getattr(coll[x], "shortkey", None), list):
                            done[x] = [list(y) for y in coll[x].key]; done2[x] = [list(y) for y in coll[x].shortkey]
                    m = unchanged(k) or judge(coll, k, before)
                    if m: return m + " (elements %r, table %r)" % (els, lev)
            else:
                if mode == 'forced':
                    for e in els:
                        if e[2] < 4 and not e[3]: coll[e[0]].level = e[2] % 3 + 1; break
                    x, y = (self.c.SortKey([list(z) for z in coll[els[-1][0]].key]) for _ in 'xy')
                    x + y; x.add(y)
                    if [list(z) for z in x] != [list(z) for z in y]: return "adding keys changed one from %r to %r" % (y, x)
                coll._setSortKeys(force=(mode == 'forced'))
                if not any(e[4] or len(e[1]) > 1 for e in els):
                    for i in range(len(els)):
                        m = judge(coll, els[i][0], lev)
                        if m: return m + " (elements %r, table %r, %s)" % (els, lev, mode)
            if d != snap or {k: [list(x) for x in zip(*v)] for k, v in d.items()} != lev: return "the table was changed"
    def fits(self, case, lev):
        """every element has, in its base, weights at its level"""
        names = {e[0]: i for i, e in enumerate(case[1])}
        def root(e, seen):
            b = e[1]
            bl = b if e[4] else next((b[:i] for i in range(len(b), 0, -1) if b[:i] in names or b[:i] in lev), None)
            if bl is None: return None
            if bl in names and names[bl] <= names[e[0]] and bl not in seen:
                return root(case[1][names[bl]], seen | {bl})
            if bl not in lev: return [[], [], []] if not all(c in lev for c in bl) else refkey(bl, lev)
            return lev[bl]
        for e in case[1]:
            r = root(e, {e[0]})
            if r is None or any(not x for x in r): return False
        return True

@register
class C08(Prop):
    id = 'C08'; files = [CO]
    rule = "histories of 1-12 insertions, deletions and parses on one collation; after each the collation is compared with a map"
    bound = "random histories"
    def setup(self):
        import sldr.collation as c
        self.c = c
    def exhaustive(self, tier):
        ks = ['a', 'b', '']
        for n in range(1, 5):
            for t in itertools.product(ks[:2], repeat=n):
                yield [['set', k] for k in t]
                yield [['set', k] for k in t] + [['parse', '&x<a<b']]
        yield [['set', ''], ['set', '']]
        yield [['parse', '&x<a<a<a&y<a']]
    def random(self, rng, D):
        keys = [rstr(rng, D, small=2, big=5) for _ in range(rng.randint(1, 4))] + ['a', 'A', 'a ']
        ops = []
        for _ in range(min(max(2, D.length(rng, 8, 12)), 60)):
            r = rng.random()
            if r < .75: ops.append(['set', rng.choice(keys)])
            elif r < .85: ops.append(['del', rng.choice(keys)])
            elif r < .92: ops.append(['none', rng.choice(keys)])
            else: ops.append(['parse', '&z' + ''.join(rng.choice(('<', '<<', '=')) + rng.choice('abcA') for _ in range(rng.randint(1, 4)))])
        return ops
    def check(self, case):
        coll = self.c.Collation(ducetDict={'x': ((1, 2, 3),)})
        model = {}
        for n, (op, k) in enumerate(case):
            at = "after %r, " % (case[:n],)
            if op in ('set', 'none'):
                e = self.c.CollElement('x', 1 + n % 4, 0)
                try:
                    coll[k] = e
                    if k in model: return at + "storing %r again raises nothing" % k
                    model[k] = e
                except KeyError:
                    if k not in model: return at + "storing %r is refused" % k
            elif op == 'del':
                if k in model:
                    del coll[k]; del model[k]
            else:
                coll.parse(k)
                if not all(x in coll.data for x in model): return at + "parse(%r) removed an element" % k
                gained = len(coll.data) - len(model)
                want = sum(1 for x in k if x in 'abcA')
                if gained != want: return at + "parse(%r) added %d elements, not %d" % (k, gained, want)
                for x in coll.data:
                    if x not in model: model[x] = coll.data[x]
            if set(coll.data) != set(model): return at + "%s %r leaves the keys %r instead of %r" % (op, k, sorted(coll.data), sorted(model))
            for x in model:
                if coll.data[x] is not model[x]: return at + "%s %r changes the element of %r" % (op, k, x)
