"""C20-C23: language tags and the subtag registry."""
import itertools, os, re, tempfile
from base import *
LT, IA = "lib/sldr/langtags_full.py", "lib/sldr/iana.py"
AL = 'abcdefghijklmnopqrstuvwxyz'
def word(rng, n, pool=AL): return ''.join(rng.choice(pool) for _ in range(n))

class _Lang(Prop):
    files = [LT]
    def setup(self):
        import sldr.langtags_full as l
        self.l = l
    def mk(self, t):
        """t: lang, script, region, variants, extensions [[k, [v]]]"""
        g = self.l.LangTag(lang=t[0], script=t[1], region=t[2], variants=list(t[3]) if t[3] else None, extensions={k: list(v) for k, v in t[4]} if t[4] else None)
        return g
    def rtag(self, rng, D):
        ws = [w.lower() for w in D.fstrs if re.match('^[A-Za-z0-9]{2,8}$', w, re.A)]
        def w(lo, hi, pool=AL):
            c = [x for x in ws if lo <= len(x) <= hi and set(x) <= set(pool)]
            return rng.choice(c) if c and rng.random() < .3 else word(rng, rng.randint(lo, hi), pool)
        lang = rng.choice(('en', 'zh', 'aaa', 'sgn')) if rng.random() < .4 else w(2, 3)
        if rng.random() < .2: lang += '-' + w(3, 3)
        script = None if rng.random() < .4 else rng.choice(('Latn', 'Brai', 'Zyyy')) if rng.random() < .4 else w(4, 4).title()
        region = None if rng.random() < .4 else rng.choice(('US', '001', 'ZZ')) if rng.random() < .4 else w(2, 2).upper() if rng.random() < .6 else w(3, 3, '0123456789')
        vs = []
        for _ in range(rng.choice((0, 0, 0, 1, 1, 2, 3, 5, 6))):
            v = w(5, 8, AL + '0123456789') if rng.random() < .6 else rng.choice('0123456789') + word(rng, 3, AL + '0123456789')
            if v not in vs: vs.append(v)
        ex = []
        for s in rng.sample('abtuyz019', rng.choice((0, 0, 1, 2, 3, 5))):
            ex.append([s, [w(2, 8, AL + '0123456789') for _ in range(rng.choice((1, 2, 3, 5)))]])
        if rng.random() < .3: ex.append(['x', [word(rng, rng.randint(1, 8), AL + '0123456789') for _ in range(rng.choice((1, 2, 3, 5)))]])
        return [lang, script, region, vs, ex]
    def okt(self, t):
        A = re.A
        return len(t) == 5 and isinstance(t[0], str) and bool(re.fullmatch('[a-z]{2,3}(-[a-z]{3})?', t[0], A)) and (t[1] is None or bool(re.fullmatch('[A-Z][a-z]{3}', t[1], A))) and (t[2] is None or bool(re.fullmatch('[A-Z]{2}|[0-9]{3}', t[2], A))) \
            and all(re.fullmatch('[a-z0-9]{5,8}|[0-9][a-z0-9]{3}', v, A) for v in t[3]) and len(set(t[3])) == len(t[3]) and len({k for k, v in t[4]}) == len(t[4]) \
            and all(re.fullmatch('[0-9a-wyz]', k, A) and v and all(re.fullmatch('[a-z0-9]{2,8}', x, A) for x in v) or k == 'x' and k == t[4][-1][0] and v and all(re.fullmatch('[a-z0-9]{1,8}', x, A) for x in v) for k, v in t[4])

def comps(g): return [g.lang, g.script, g.region, g.variants or None, {k: v for k, v in g.extensions.items()} if g.extensions else None]

@register
class C20(_Lang):
    id = 'C20'
    rule = "well-formed tags made by the grammar (language, extlang, script, region, variants, extensions, private use), in any case, with hyphens or underscores"
    bound = "exhaustive over the presence of each part; random tags beyond"
    def exhaustive(self, tier):
        for l, s, r, v, e in itertools.product(('en', 'zh-cmn', 'aaa', 'sgn-ase'), (None, 'Latn'), (None, 'US', '419'), ([], ['1901'], ['rozaj'], ['rozaj', '1994'], ['1994', 'biske']), ([], [['u', ['co', 'phonebk']]], [['x', ['a']]], [['a', ['bb', 'aa']], ['z', ['cc']], ['x', ['u', 'y']]], [['t', ['de']], ['a', ['zz']]])):
            for case in (0, 1, 2, 3):
                for sep in (0, 1): yield [[l, s, r, v, e], case, sep]
    def random(self, rng, D): return [self.rtag(rng, D), rng.choice((0, 1, 2, 3, rng.randint(4, 999))), rng.randrange(2)]
    def valid(self, c): return len(c) == 3 and self.okt(c[0])
    def check(self, case):
        if len(case) != 3: return None
        t, how, sep = case
        parts = [t[0], t[1], t[2]] + list(t[3]) + [x for k, v in t[4] for x in [k] + v]
        text = '-'.join(p for p in parts if p)
        if how == 1: text = text.upper()
        elif how == 2: text = text.lower()
        elif how == 3: text = text.swapcase()
        elif how > 3:
            r = random.Random(how); text = ''.join(r.choice((c.upper(), c.lower())) for c in text)
        if sep: text = text.replace('-', '_')
        exp = [t[0], t[1], t[2], t[3] or None, dict(map(tuple, t[4])) or None]
        g = self.l.LangTag(text)
        if comps(g) != exp: return "%r is parsed as %r, not %r" % (text, comps(g), exp)
        full = repr(g)
        want = sorted(x.lower() for p in parts if p for x in p.split('-'))
        if sorted(x.lower() for x in full.split('-')) != want: return "%r is written %r" % (text, full)
        h = self.l.LangTag(full)
        if comps(h) != exp: return "%r is written %r, which is parsed as %r, not %r" % (text, full, comps(h), exp)
        if repr(h) != full: return "%r is written %r the first time and %r the second" % (text, full, repr(h))
        pre = '-'.join([p for p in [t[0], t[1], t[2]] + list(t[3]) if p])
        if not (full == pre or full.startswith(pre + '-')): return "%r is written %r, which does not begin with %r" % (text, full, pre)

FL = ('hidescript', 'hideregion', 'hideboth')
@register
class C21(_Lang):
    id = 'C21'
    rule = "pairs of tags with any parts and any hidden flags"
    bound = "exhaustive over absent, same or different script, region, variants and extensions with all flags of one tag; random beyond"
    def exhaustive(self, tier):
        for s1, s2 in itertools.product((None, 'Latn', 'Cyrl'), repeat=2):
            for r1, r2 in itertools.product((None, 'US', 'GB'), repeat=2):
                for v1, v2, e1, e2 in (([], [], [], []), (['aaaaa'], [], [], [['u', ['aa']]]), ([], ['bbbbb'], [['u', ['aa']]], []), (['aaaaa'], ['bbbbb'], [['u', ['aa']], ['t', ['cc']]], [['u', ['bb']], ['a', ['dd']]])):
                    for f1, f2 in itertools.product(range(8), repeat=2) if not v1 and not e1 and not v2 else ((0, 0), (7, 0), (0, 7), (3, 5)):
                        yield [['en', s1, r1, v1, e1], ['en', s2, r2, v2, e2], f1, f2]
    def random(self, rng, D):
        a, b = self.rtag(rng, D), self.rtag(rng, D)
        if rng.random() < .6: b[0] = a[0]
        for i in (1, 2):
            if rng.random() < .5: b[i] = a[i]
        if a[4] and rng.random() < .5: b[4] = [[a[4][0][0], ['zz']]] + [x for x in b[4] if x[0] != a[4][0][0]]
        return [a, b, rng.randrange(8), rng.randrange(8)]
    def valid(self, c): return self.okt(c[0]) and self.okt(c[1])
    def check(self, case):
        a, b, f1, f2 = case
        A, B = self.mk(a), self.mk(b)
        for g, f in ((A, f1), (B, f2)):
            for i, n in enumerate(FL): setattr(g, n, bool(f >> i & 1))
        B.desc = ['d']
        def st(g): return json.loads(json.dumps([comps(g), {k: v for k, v in vars(g).items() if k not in ('base',)}], default=str))
        sa, sb = st(A), st(B)
        ok = not (a[1] and b[1] and a[1] != b[1] or a[2] and b[2] and a[2] != b[2])
        at = "merging %r (flags %d) into %r (flags %d): " % (b, f2, a, f1)
        res = A.merge_equivalent(B)
        if bool(res) != ok: return at + "the result is %r" % (res,)
        if st(B) != sb: return at + "the tag merged from became %r" % st(B)
        if not ok:
            if st(A) != sa: return at + "it was refused, but the tag became %r instead of %r" % (st(A), sa)
            return None
        ea, eb = dict(map(tuple, a[4])), dict(map(tuple, b[4]))
        exp = [a[0], a[1] or b[1], a[2] or b[2], a[3] or b[3] or None, {**eb, **ea} or None]
        if comps(A) != exp: return at + "the result is %r, not %r" % (comps(A), exp)
        if A.extensions:
            for k, v in list(A.extensions.items()):
                v.append('mark'); A.extensions['mark'] = []
            if st(B) != sb: return at + "the extensions of the two tags are the same list"

def pset(x): return [set(c) for n in range(len(x) + 1) for c in itertools.combinations(x, n)]
@register
class C22(_Lang):
    id = 'C22'
    rule = "tags with any parts and flags, some variants and extensions hidden; tag lists built by 1-6 additions of related tags"
    bound = "exhaustive over presence of the parts and flags of one tag; random histories beyond"
    def exhaustive(self, tier):
        for s, r, v, e in itertools.product((None, 'Latn'), (None, 'US'), ([], ['1901'], ['rozaj', 'biske']), ([], [['u', ['co', 'phonebk']]], [['t', ['de']], ['x', ['a']]])):
            for f in range(8):
                for hv in range(0, 1 << len(v)):
                    for he in range(0, 1 << len(e)): yield [[[['en', s, r, v, e], f, hv, he]]]
    def random(self, rng, D):
        n = min(max(1, D.length(rng, 5, 6)), 20) if rng.random() < .7 else 1
        res = []
        for i in range(n):
            t = self.rtag(rng, D)
            if i and rng.random() < .85:
                o = json.loads(json.dumps(rng.choice(res)[0]))
                for j in range(1, 5):
                    if rng.random() < .35: o[j] = t[j]
                    elif rng.random() < .2: o[j] = None if j < 3 else []
                t = o
            t[4] = [[k, list(dict.fromkeys(v))] for k, v in t[4]]
            he = rng.choice((0, 0, 0, rng.randrange(16)))
            if sum(len(v) for i, (k, v) in enumerate(t[4]) if he >> i & 1) > 3: he = 0
            res.append([t, rng.randrange(8), rng.choice((0, 0, rng.randrange(8))), he])
        return [res]
    def valid(self, c): return all(len(x) == 4 and self.okt(x[0]) and all(len(set(v)) == len(v) for k, v in x[0][4]) for x in c[0])
    def make(self, x):
        t, f, hv, he = x
        g = self.mk(t)
        for i, n in enumerate(FL): setattr(g, n, bool(f >> i & 1))
        hvs = [v for i, v in enumerate(t[3]) if hv >> i & 1]
        if hvs: g.hidevariants = hvs
        hes = {k: v for i, (k, v) in enumerate(t[4]) if he >> i & 1}
        if hes: g.hideextensions = hes
        return g, hvs, hes
    def forms(self, x, g, hvs, hes):
        t, f = x[0], x[1]
        hs, hr, hb = (bool(f >> i & 1) for i in range(3))
        ss = ([None] if hs or not t[1] else []) + ([t[1]] if t[1] else [])
        rs = ([None] if hr or not t[2] else []) + ([t[2]] if t[2] else [])
        must, may = set(), set()
        vs = ['-'.join(sorted(set(t[3]) - r)) for r in pset(hvs)] if t[3] else ['']
        el = [(k, x) for k, v in t[4] for x in v]
        es = []
        for r in pset([(k, x) for k, v in hes.items() for x in v]):
            d = {}
            for k, x in el:
                if (k, x) not in r: d.setdefault(k, []).append(x)
            es.append('-'.join('-'.join([k] + v) for k, v in sorted(d.items(), key=lambda e: (e[0] == 'x', e))))
        for s in ss:
            for r in rs:
                for v in vs:
                    for e in es:
                        form = '-'.join(p for p in (t[0], s, r, v, e) if p)
                        if s is None and r is None and (not hb):
                            continue
                        must.add(form)
        full = '-'.join(p for p in (t[0], t[1], t[2], vs[0], es[0]) if p)
        return must, full
    def check(self, case):
        tags = self.l.LangTags
        f, self._tmp = None, None
        L = dict.__new__(tags)
        dict.__init__(L)
        L.variants = {}; L.global_variants = []
        hist = []
        for x in case[0]:
            g, hvs, hes = self.make(x)
            hist.append([repr(g), x[1]])
            got = g.allforms()
            must, full = self.forms(x, g, hvs, hes)
            if set(got) != must: return "the forms of %r (flags %d, hidden %r %r) are %r, not %r" % (x[0], x[1], hvs, hes, sorted(set(got)), sorted(must))
            if must and full not in got: return "the forms of %r do not contain %r" % (x[0], full)
            L.add(g)
            for fm in got:
                T = L.get(fm)
                if T is None: return "after adding %r, the form %r is not found" % (hist, fm)
                h = self.l.LangTag(fm)
                if T.lang != h.lang or h.script is not None and T.script != h.script or h.region is not None and T.region != h.region:
                    return "after adding %r, the form %r leads to %r" % (hist, fm, T)

@register
class C23(Prop):
    id = 'C23'; files = [IA]
    rule = "registry files of 0-6 records, with and without subtag, fields repeated up to three times and folded over up to three lines"
    bound = "exhaustive over sequences of three records of four kinds; random files beyond"
    def setup(self):
        import sldr.iana as i
        self.i = i
    K = {'p': ['language', 'aa', [['Description', ['one']], ['Added', ['2005']]]], 'f': ['region', 'BB', [['Description', ['one', 'two words'], ], ['Comments', ['a', 'b', 'c']]]], 'n': [None, 'i-x', [['Description', ['lost']], ['Preferred-Value', ['jbo']]]], 'm': ['extlang', 'ccc', [['Prefix', ['aa']], ['Prefix', ['bb']], ['Description', ['x', 'y']], ['Description', ['z', 'w']]]]}
    def exhaustive(self, tier):
        for n in range(0, 4):
            for t in itertools.product('pfnm', repeat=n):
                rs = json.loads(json.dumps([self.K[k] for k in t]))
                for i, r in enumerate(rs): r[1] += str(i)
                yield rs
    def random(self, rng, D):
        n = min(D.length(rng, 5, 7), 30)
        chars = 'abcxyzABC0123 :;,.()-%&\'\u00e9\u4e2d'
        def txt():
            s = ''.join(rng.choice(chars) for _ in range(rng.randint(1, 12))).strip(' ')
            if D.fstrs and rng.random() < .2: s = re.sub('[\\n\\r\\x00-\\x1f]', '', rng.choice(D.fstrs)).strip()
            return s if s and s != '%%' else 'v'
        rs = []
        for i in range(n):
            fs = []
            for _ in range(min(D.length(rng, 5, 7), 20)):
                fs.append([rng.choice(('Description', 'Description', 'Added', 'Suppress-Script', 'Scope', 'Comments', 'Prefix', 'Deprecated', 'PREFIX')), [txt() for _ in range(rng.choice((1, 1, 1, 2, 3)))]])
            ty, st = rng.choice(('language', 'extlang', 'script', 'region', 'variant', None)), word(rng, 3) + str(i)
            if rs and rng.random() < .3:    # as cmn, which is a language and an extlang
                st = rng.choice(rs)[1]
                if any(r[0] == ty and r[1] == st for r in rs): st += '-' + str(i)
            rs.append([ty, st, fs])
        return rs
    def valid(self, c): return all(len(r) == 3 and r[1] and (r[0] in ('language', 'extlang', 'script', 'region', 'variant', None)) and re.fullmatch('[A-Za-z0-9-]+', r[1]) and all(len(f) == 2 and re.fullmatch('[A-Za-z-]+', f[0]) and f[0].lower() not in ('type', 'subtag', 'tag') and f[1] and all(v and v == v.strip() and v != '%%' and not set(v) & set('\n\r') for v in f[1]) for f in r[2]) for r in c) and len({(r[0], r[1]) for r in c}) == len(c)
    def check(self, case):
        text = 'File-Date: 2024-01-01\n'
        exp = {}
        for ty, st, fs in case:
            text += '%%\n' + ('Type: %s\nSubtag: %s\n' % (ty, st) if ty else 'Type: grandfathered\nTag: %s\n' % st)
            d = {}
            for k, v in fs:
                text += '%s: %s\n' % (k, ''.join(('\n' + ' ' * (1 + len(x) % 3) if i else '') + x for i, x in enumerate(v)))
                k = k.lower(); v = ' '.join(v)
                if k not in d: d[k] = v
                elif isinstance(d[k], list): d[k].append(v)
                else: d[k] = [d[k], v]
            if ty: exp.setdefault(ty, {})[st] = d
        fd, fn = tempfile.mkstemp(prefix='iana')
        try:
            with os.fdopen(fd, 'w', encoding='utf-8') as f: f.write(text)
            g = self.i.Iana(fn)
        finally:
            os.unlink(fn)
        for ty in ('language', 'extlang', 'script', 'region', 'variant', 'grandfathered'):
            got = getattr(g, ty, {})
            if got != exp.get(ty, {}): return "%r is read as %s %r, not %r" % (text, ty, got, exp.get(ty, {}))
