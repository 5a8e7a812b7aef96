"""C01-C05, C09: text encodings and sort key order."""
import itertools, unicodedata, re
from base import *

US, EX, CO, LD = ("lib/sldr/UnicodeSets.py", "lib/sldr/ldml_exemplars.py", "lib/sldr/collation.py", "lib/sldr/ldml.py")
SMALL = ['a', '1', '\\', ' ', '{', '}', '[', ']', '-', '&', '^', '|', ':', '$', 'u', '\u0301', '\ue000', '\U000f0000', '\u00e9', '\u200d']

class _US(Prop):
    def setup(self):
        import sldr.UnicodeSets as us
        from sldr.ldml_exemplars import UCD
        self.us, self.ucd = us, UCD()
    def nontrivial(self, case): return any(case)

@register
class C01(_US):
    id = 'C01'; files = [US, EX]
    rule = "lists of 0-4 strings of 1-9 characters, weighted to set syntax, digits, marks, private use and constants of the source; non trivial: not empty"
    bound = "exhaustive over 1 item of 1-2 characters of 20 (thorough 3), random beyond"
    def exhaustive(self, tier):
        yield []
        for n in range(1, 4 if tier == 'thorough' else 3):
            for t in itertools.product(SMALL, repeat=n):
                yield [''.join(t)]
        for a, b in itertools.product(SMALL, repeat=2):
            yield [a, b]
    def random(self, rng, D):
        return [rstr(rng, D, min=1) for _ in range(rng.choice((1, 1, 2, 3, 4)))]
    def valid(self, c): return all(c)
    def check(self, case):
        text = self.us.list2us(case, self.ucd)
        got = self.us.us2list(text)
        if set(got) != set(case):
            return "list2us wrote %r, which reads back as %r" % (text, sorted(got))

def hexesc(c):
    return '\\U%08x' % ord(c) if ord(c) > 0xffff else '\\u%04x' % ord(c)

# Default_Ignorable_Code_Point of DerivedCoreProperties, Unicode 15 (ranges)
DI = [(0xad, 0xad), (0x34f, 0x34f), (0x61c, 0x61c), (0x115f, 0x1160), (0x17b4, 0x17b5), (0x180b, 0x180f), (0x200b, 0x200f), (0x202a, 0x202e),
      (0x2060, 0x206f), (0x3164, 0x3164), (0xfe00, 0xfe0f), (0xfeff, 0xfeff), (0xffa0, 0xffa0), (0xfff0, 0xfff8), (0x1bca0, 0x1bca3),
      (0x1d173, 0x1d17a), (0xe0000, 0xe0fff)]
def di(c): return any(a <= ord(c) <= b for a, b in DI)
PUA = [(0xe000, 0xf8ff), (0xf0000, 0xffffd), (0x100000, 0x10fffd)]
def pua(c): return any(a <= ord(c) <= b for a, b in PUA)

def nonchar(c): return ord(c) & 0xfffe == 0xfffe or 0xfdd0 <= ord(c) <= 0xfdef

@register
class C02(_US):
    id = 'C02'; files = [US, EX]
    rule = "lists of strings as C01, and every code point alone; the expected text is computed from the statement with Python's own character database"
    bound = "every assigned code point alone and after a letter; random lists beyond"
    def exhaustive(self, tier):
        yield []
        for n in range(1, 3):
            for t in itertools.product(SMALL, repeat=n):
                yield [''.join(t)]
        # every code point, in blocks (each a list of one-character items)
        for b in range(0, 0x110000, 0x200):
            cs = [chr(i) for i in range(b, b + 0x200) if not 0xD800 <= i < 0xE000 and unicodedata.category(chr(i)) != 'Cn' or pua(chr(i)) or nonchar(chr(i))]
            if b >= 0x20000 and b % 0x10000 and b % 0x10000 < 0xfe00 and not 0xe0000 <= b < 0xe1000 and tier != 'thorough':
                cs = cs[:1] + cs[-1:]
            if cs:
                yield cs
                yield ['a' + c for c in cs]
    def random(self, rng, D):
        return [rstr(rng, D, min=1) for _ in range(rng.choice((1, 1, 2, 3, 4)))]
    def valid(self, c): return all(c)
    def expect(self, item):
        """list of sets of allowed spellings per character"""
        res = []
        prev = None
        for i, c in enumerate(item):
            cat = unicodedata.category(c)
            if c in '[]{}\\&-|^$:':
                ok = {'\\' + c}
            elif di(c) or cat in ('Cf', 'Zs') or pua(c) or (i == 0 and cat[0] == 'M'):
                ok = {hexesc(c)}
            elif cat[0] == 'M' and prev == ' ':
                ok = {hexesc(c), c}
            elif cat == 'Cn' and not nonchar(c):
                ok = {hexesc(c), c}      # not in Python's character database: left to ICU's
            else:
                ok = {c}
            prev = c
            res.append(ok)
        return res
    def check(self, case):
        text = self.us.list2us(case, self.ucd)
        pos = 0
        def want(s):
            nonlocal pos
            if text.startswith(s, pos):
                pos += len(s); return True
            return False
        if not want('['): return "%r: no [ at 0" % text[:50]
        for i, item in enumerate(case):
            if i and not want(' '): return "no space before item %r at %d of %r" % (item, pos, text[max(0, pos-20):pos+20])
            if len(item) > 1 and not want('{'): return "no { before item %r at %d of %r" % (item, pos, text[max(0, pos-20):pos+20])
            for c, ok in zip(item, self.expect(item)):
                if not any(want(s) for s in sorted(ok, key=len, reverse=True)):
                    return "U+%04X of item %r is written %r, not %s" % (ord(c), item, text[pos:pos+10], ' or '.join(map(repr, ok)))
            if len(item) > 1 and not want('}'): return "no } after item %r at %d of %r" % (item, pos, text[max(0, pos-20):pos+20])
        if not want(']') or pos != len(text): return "%r does not end after its items" % text[-50:]

@register
class C03(_US):
    id = 'C03'; files = [US, "lib/sldr/xmltemplate.py"]
    rule = "sequences of 0-6 sets of 0-5 strings for flatten, tables of 0-6 names with 0-5 values or a plain value for IterDict; non trivial: more than one combination"
    bound = "exhaustive over size vectors of at most 4 positions with sizes 1-3 (0-3 for IterDict)"
    def setup(self):
        super().setup()
        from sldr.xmltemplate import IterDict
        self.IterDict = IterDict
    def exhaustive(self, tier):
        for n in range(0, 5):
            for t in itertools.product((1, 2, 3), repeat=n):
                yield ['flatten', [[chr(97 + k) + ('x' if k == 1 else '') for k in range(x)] for x in t]]
            for t in itertools.product((0, 1, 2, 3), repeat=n):
                yield ['iter', [['k%d' % i, list(range(x))] for i, x in enumerate(t)]]
        yield ['iter', [['a', 'xyz']]]
        yield ['iter', [['a', 'xyz'], ['b', ['p', 'q']]]]
        yield ['iter', [['a', '']]]
        yield ['iter', [['a', [1, 2]], ['b', [1]], ['a', [3, 4, 5]]]]
    def random(self, rng, D):
        k = min(D.length(rng, 5, 7), 12)
        if rng.random() < .5:
            seq = []
            tot = 1
            for _ in range(k):
                m = rng.choice((1, 1, 2, 2, 3, 5)) if rng.random() < .97 else rng.randint(6, 40)
                if tot * m > 3000: m = 1
                tot *= m
                s = []
                while len(s) < m:
                    x = rstr(rng, D, small=2, big=4, min=1)
                    if x not in s and not re.match(r'\\\d', x): s.append(x)
                seq.append(s)
            return ['flatten', seq]
        tot = 1; items = []
        for i in range(k):
            m = rng.choice((0, 1, 1, 2, 2, 3, 5)) if rng.random() < .3 else rng.choice((1, 2, 2, 3)) if rng.random() < .95 else rng.randint(6, 40)
            if tot * m > 3000: m = 1
            tot *= max(m, 1)
            v = [rng.choice(('s%d' % j, j, 'S%d' % j, ' s%d ' % j)) for j in range(m)]
            if v and rng.random() < .1: v[0] = rng.choice(('', None, 1.5, True))
            if rng.random() < .15: v = rng.choice(('plain', 7, '', 'x', None, 0, 'a b'))
            items.append([rng.choice(('k%d', 'name%d', 'Name%d', '%d', 'a %d')) % i, v])
        if items and rng.random() < .1: items.append([rng.choice(items)[0], rng.choice(([], ['t0'], ['t0', 't1'], 't'))])
        return ['iter', items]
    def nontrivial(self, c): return len(c[1]) > 0
    def valid(self, c):
        return c[0] == 'iter' and all(len(x) == 2 and isinstance(x[0], str) for x in c[1]) \
            or c[0] == 'flatten' and all(s and all(s) and len(set(s)) == len(s) and not any(re.match(r'\\\d', x) for x in s) for s in c[1])
    def check(self, case):
        kind, arg = case
        if kind == 'flatten':
            text = ''.join(self.us.list2us(s, self.ucd) for s in arg)
            cap = 1
            for s in arg: cap *= len(s)
            got = list(itertools.islice(self.us.flatten(text), 2 * cap + 10))
            exp = [''.join(t) for t in itertools.product(*arg)]
            if sorted(got) != sorted(exp):
                return "flatten(%r) gives %d strings, of which %d different, instead of %d: %r" % (text, len(got), len(set(got)), len(exp), got[:12])
        else:
            d = self.IterDict()
            cap = 1
            vals = {}
            for k, v in arg:                # a name that is set again has its new values
                d[k] = v
                vals[k] = v if isinstance(v, list) else [v]
            names, vals = list(vals), list(vals.values())
            for v in vals: cap *= len(v)
            got = [tuple(x[k] for k in names) for x in itertools.islice(iter(d), 2 * cap + 10)]
            exp = [tuple(map(str, t)) for t in itertools.product(*vals)]
            if sorted(got) != sorted(exp):
                return "IterDict over %r gives %r instead of %d combinations" % (arg, got[:12], len(exp))

TAIL = '!"#$%&()*+,-./:;<=>?@[\\]^_`{|}~'
@register
class C04(Prop):
    id = 'C04'; files = [CO]
    rule = "strings of 0-9 characters over all of Unicode, weighted to escapes, digits, marks and constants of the source, in both modes"
    bound = "exhaustive over strings of at most 3 of 12 characters and every code point alone and after a backslash; random beyond"
    def setup(self):
        import sldr.collation as c
        self.escape, self.unescape = need(c, 'escape'), need(c, 'unescape')
    def exhaustive(self, tier):
        al = ["'", '\\', 'u', 'U', '0', '4', 'a', '\u0301', '\U0001d165', '&', ' ', '\n']
        for n in range(0, 5 if tier == 'thorough' else 4):
            for t in itertools.product(al, repeat=n):
                s = ''.join(t)
                yield [s, False]; yield [s, True]
        step = 0x40
        for b in range(0, 0x110000, step):
            if 0x20000 <= b < 0xe0000 and b % 0x1000 and tier != 'thorough': continue
            if 0xD800 <= b < 0xE000: continue
            blk = [chr(i) for i in range(b, b + step)]
            yield [''.join(blk), True]; yield [''.join(c + "\\" for c in blk), False]
            yield [''.join(reversed(blk)), True]
        for b in itertools.chain(range(0x300, 0x370), range(0x483, 0x48a), range(0x591, 0x5c8), range(0x900, 0x980), range(0x1d165, 0x1d183), range(0xe0100, 0xe0110), range(0x20d0, 0x20f1)):
            for t in ('%s', '%s1', '\\%s', "'%s", '%s\u0301', 'a%s'):
                yield [t % chr(b), True]
    def random(self, rng, D):
        return [rstr(rng, D, small=5, big=12), rng.random() < .6]
    def nontrivial(self, c): return len(c[0]) > 0
    def check(self, case):
        s, allc = case
        e = self.escape(s, allc)
        u = self.unescape(e)
        if u != s:
            return "%r is escaped %r, which unescapes to %r" % (s, e, u)
        i = 0
        while i < len(e):
            if e[i] == '\\':
                i += 2 if e[i+1:i+2] not in ('u', 'U') or not allc else 1
                continue
            if e[i] == "'":
                if e[i+1:i+2] != "'": return "%r is escaped %r, with a single apostrophe" % (s, e)
                i += 2
                continue
            if e[i] in TAIL:
                return "%r is escaped %r, with a bare %r" % (s, e, e[i])
            i += 1
        if not allc and e != self.escape(s):
            return "escape(%r) differs from escape(%r, False)" % (s, s)

def strip0(l):
    l = list(l)
    while l and l[-1] == 0: l.pop()
    return l
def norm3(k): return [strip0(x) for x in k]

@register
class C05(Prop):
    id = 'C05'; files = [CO]
    rule = "triples of three-level keys with 0-5 weights per level drawn from few values so that equal levels are common, and padded copies with trailing zeros; non trivial: some level not empty"
    bound = "exhaustive over pairs of keys with levels from 6 short weight lists; random triples beyond"
    def setup(self):
        import sldr.collation as c
        self.SortKey, self.diffLevel, self.cmpKey = c.SortKey, need(c, 'diffLevel'), need(c, 'cmpKey')
    def exhaustive(self, tier):
        lv = [[], [0], [1], [1, 0], [0, 1], [2]]
        keys = [[a, b, c] for a in lv for b in lv[:4] for c in lv[:4:3]]
        for a, b in itertools.product(keys, repeat=2):
            yield [a, b, a]
        more = [[a, [1], [2]] for a in lv] + [[[1], a, [2]] for a in lv] + [[[1], [1], a] for a in lv]
        for a, b, c in itertools.product(more, repeat=3):
            yield [a, b, c]
    def random(self, rng, D):
        def lev():
            n = min(D.length(rng, 4, 6), 60)
            vals = (0, 0, 1, 2, 3, 0x20, 0x1c47, 1.5)
            return [D.number(rng, 0, 4) if D.fints and rng.random() < .3 else rng.choice(vals) for _ in range(n)]
        def key(): return [lev() for _ in range(3)]
        def near(k):
            k = [list(x) for x in k]
            r = rng.random()
            i = rng.randrange(3)
            if r < .3: k[i] += [0] * rng.randint(1, 3)
            elif r < .5 and k[i]: k[i][rng.randrange(len(k[i]))] += rng.choice((1, -1))
            elif r < .6: k[i] = k[i][:-1]
            elif r < .7: k[i] = lev()
            return k
        a = key(); b = near(a) if rng.random() < .7 else key(); c = near(b) if rng.random() < .7 else key()
        return [a, b, c]
    def valid(self, c): return len(c) == 3 and all(len(k) == 3 for k in c)
    def nontrivial(self, c): return any(x for k in c for x in k)
    def check(self, case):
        K = [self.SortKey([list(x) for x in k]) for k in case]
        N = [norm3(k) for k in case]
        for i, j in itertools.product(range(3), repeat=2):
            a, b, x, y = K[i], K[j], N[i], N[j]
            exp = -1 if x < y else 1 if x > y else 0
            ops = [('<', a < b, exp < 0), ('>', a > b, exp > 0), ('==', a == b, exp == 0), ('!=', a != b, exp != 0), ('<=', a <= b, exp <= 0), ('>=', a >= b, exp >= 0)]
            for n, got, e in ops:
                if got is not e: return "%r %s %r is %r" % (a, n, b, got)
            lev = next((l + 1 for l in range(3) if x[l] != y[l]), 0)
            if a.cmp(b) != exp * lev: return "%r.cmp(%r) is %r, not %d" % (a, b, a.cmp(b), exp * lev)
            d = self.diffLevel(a, b)
            if d != (-exp * lev if lev else 4): return "diffLevel(%r, %r) is %r" % (a, b, d)
            if exp == 0 and hash(a) != hash(b): return "%r and %r are equal but hash differently" % (a, b)
            for n in (1, 2, 3):
                e = all(x[l] == y[l] for l in range(n))
                if self.cmpKey(a, b, n) is not e: return "cmpKey(%r, %r, %d) is %r" % (a, b, n, not e)
        if case != [[list(x) for x in k] for k in K]: return "comparing changed a key: %r" % (K,)

BADTEXT = set('<>')
@register
class C09(Prop):
    id = 'C09'; files = [LD]
    rule = "strings of XML characters weighted to markup, line ends, quotes and CDATA ends, in text, attribute and CDATA position; read back with two XML parsers (lxml and expat)"
    bound = "exhaustive over strings of at most 3 of 12 characters; every code point once; random beyond"
    AL = ['<', '>', '&', '"', "'", '\r', '\n', '\t', ']', 'a', ';', ' ']
    def setup(self):
        import sldr.ldml as l, io
        from lxml import etree as let
        import xml.etree.ElementTree as et
        self.l, self.io, self.let, self.et = l, io, let, et
        need(l, 'ETWriter')
    def exhaustive(self, tier):
        for n in range(0, 4):
            for t in itertools.product(self.AL, repeat=n):
                yield ''.join(t)
        yield ']]>'; yield 'a]]>b]]>c'; yield ']]]>>'; yield '&amp;'; yield '&#13;'; yield '&lt;'
        for b in range(0, 0x110000, 0x80):
            if 0x20000 <= b < 0xe0000 and b % 0x1000 and tier != 'thorough': continue
            s = ''.join(chr(i) for i in range(b, b + 0x80) if self.xml(i))
            if s: yield s
    @staticmethod
    def xml(i): return i in (9, 10, 13) or 0x20 <= i < 0xd800 or 0xe000 <= i < 0xfffe or 0x10000 <= i < 0x110000
    def random(self, rng, D):
        s = rstr(rng, D, pool=self.AL + ['\u00e9', ']]>', '&#', '\u2028', '\x85', '\x7f', '\U0001d165', '0'], small=6, big=14)
        return ''.join(c for c in s if self.xml(ord(c)))
    def nontrivial(self, s): return len(s) > 0
    def valid(self, s): return all(self.xml(ord(c)) for c in s)
    def check(self, s):
        E = self.et.Element
        a = E('t'); a.text = s
        m = self.pos(a, 'text', s)
        if m: return m
        a = E('t'); a.set('k', s)
        m = self.pos(a, 'attribute', s)
        if m: return m
        a = E('t'); c = self.et.SubElement(a, 'cr')
        if s:
            c.text = s
            return self.pos(a, 'CDATA', s, cdata=True)
    @staticmethod
    def norm(t):                    # as Ldml.normalise does, the indent of CDATA is formatting
        return re.sub(r'[ \t]*\n[ \t]*', '\n', t.strip())
    def pos(self, el, where, s, cdata=False):
        out = []
        self.l.ETWriter(el, {}, takesCData={'cr'}).serialize_xml(out.append)
        text = ''.join(out)
        for parse in (self.let.fromstring, self.et.fromstring):
            try:
                t = parse(text.encode('utf-8'))
            except Exception as e:
                return "%s %r is written as %r, which does not parse: %s" % (where, s, text[-200:], e)
            got = t.get('k') if where == 'attribute' else (t.text or '') if where == 'text' else (t[0].text or '')
            if cdata:
                ok = self.norm(got) == self.norm(s)
            else:
                ok = got == s
            if not ok:
                return "%s %r is written as %r, which reads back as %r" % (where, s, text[-200:], got)
