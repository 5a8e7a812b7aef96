"""C24-C32: exemplars, keyboard contexts, parse events, scripts, locale files, spreadsheet cells."""
import ast as _ast, itertools, math, os, re, sys, tempfile
from fractions import Fraction
from base import *
EX, KB, XP, SH, LD, LM = ("lib/sldr/ldml_exemplars.py", "lib/sldr/ldml_keyboard.py", "lib/sldr/py3xmlparser.py", "lib/sldr/sheet.py", "lib/sldr/ldml.py", "lib/sldr/ldml_merge.py")

def script_functions(path):
    """The functions and plain constant tables of a script, without running the rest of it."""
    with open(os.path.join(REPO, path), encoding='utf-8') as f: tree = _ast.parse(f.read())
    keep = []
    for n in tree.body:
        if isinstance(n, (_ast.FunctionDef, _ast.ClassDef, _ast.Import, _ast.ImportFrom)): keep.append(n)
        elif isinstance(n, _ast.Assign) and all(isinstance(t, _ast.Name) for t in n.targets):
            try: _ast.literal_eval(n.value); keep.append(n)
            except Exception:
                if not any(isinstance(x, _ast.Call) and isinstance(x.func, _ast.Attribute) and x.func.attr in ('parse_args', 'ArgumentParser') for x in _ast.walk(n)) and \
                   not any(isinstance(x, _ast.Name) and x.id in ('args', 'parser') for x in _ast.walk(n)): keep.append(n)
    ns = {'__name__': 'script'}
    for n in keep:
        try: exec(compile(_ast.Module([n], []), path, 'exec'), ns)
        except Exception: pass
    return ns

# ---------------------------------------------------------------- exemplars
MARKS = ['\u0301', '\u0300', '\u0302', '\u0327', '\u0345', '\u0940', '\u094d', '\u093c', '\u200d', '\u200c', '\ufe0f', '\u05bc']
BASES = ['a', 'b', 'e', '\u0915', '\u0916', '\u0640', '1', 'ng', '\u0915\u093c', '\u00df', '\u200d', '\u00ad']

class _Ex(Prop):
    files = [EX]
    def setup(self):
        import sldr.ldml_exemplars as e
        self.e = e
        self.ucd = e.UCD()
    def fresh(self):
        x = self.e.Exemplars()
        return x

def totals(cl):
    r = {}
    for e, n in cl.items():
        if n == 0: continue
        if e.base: r['base ' + ascii(e.base)] = r.get('base ' + ascii(e.base), 0) + n
        for m in e.trailers: r['mark ' + ascii(m)] = r.get('mark ' + ascii(m), 0) + n
    return r

@register
class C24(_Ex):
    id = 'C24'
    strict = False
    rule = "collections of clusters with counts, followed by a sequence of the splitting passes; some clusters with several marks that get split in one pass"
    bound = "up to 8 clusters of up to 7 marks, up to 6 passes"
    PASSES = ['find_indic_matras_and_viramas', 'find_marks_on_same_bases', 'find_productive_marks', 'find_second_marks']
    def exhaustive(self, tier):
        for t in itertools.product(('\u0301', '\u0300', '\u094d'), repeat=2):
            for p in range(4):
                for n in (1, 2, 7): yield [[['a', ''.join(t), n], ['b', t[0], 1], ['a', '', 2]], [p, p], 5]
    def random(self, rng, D):
        cl, seen = [], set()
        for _ in range(rng.randint(1, 8)):
            b = rchar(rng, D) if rng.random() < .2 else rng.choice(BASES[:6])
            t = ''.join(rng.choice(MARKS if rng.random() < .7 else MARKS[:2]) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4, 7))))
            if (b, t) not in seen:
                seen.add((b, t)); cl.append([b, t, max(1, D.number(rng, 1, 9))])
        return [cl, [rng.randrange(4) for _ in range(rng.randint(1, 6))], rng.choice((0, 1, 2, 5))]
    def valid(self, c): return len(c) == 3 and all(len(x) == 3 and x[0] and x[2] > 0 for x in c[0]) and len({(x[0], x[1]) for x in c[0]}) == len(c[0])
    def check(self, case):
        cl, ps, mb = case
        x = self.fresh()
        x.many_bases = mb
        for b, t, n in cl: x.clusters[self.e.Exemplar(b, t)] += n
        x.count_marks()
        before = totals(x.clusters)
        need(x, *self.PASSES)
        for p in ps:
            getattr(x, self.PASSES[p % 4])()
            after = totals(x.clusters)
            if before != after:
                return "clusters %s: after %s the totals changed: %s" % (ascii(cl), self.PASSES[p % 4], ', '.join("%s %s -> %s" % (k, before.get(k, 0), after.get(k, 0)) for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k)))

@register
class C25(_Ex):
    id = 'C25'
    strict = False
    rule = "collections of clusters with counts and a threshold percentage, about and exactly at the threshold; earlier contents of the lists"
    bound = "up to 8 clusters"
    def exhaustive(self, tier):
        for n in range(0, 4):
            for ct in itertools.product((1, 2, 3), repeat=n):
                for fr in (0, 1, 50, 100, 150):
                    yield [[[BASES[i], '', c] for i, c in enumerate(ct)], fr, ['q'], ['r']]
    def random(self, rng, D):
        cl, seen = [], set()
        for _ in range(rng.randint(0, 8)):
            b = rchar(rng, D) if rng.random() < .2 else rng.choice(BASES + ['', 'a\u0301'])
            t = '' if b == '\u0640' and rng.random() < .8 else ''.join(rng.choice(MARKS) for _ in range(rng.choice((0, 0, 1, 2)))) or ('\u0301' if not b else '')
            if (b, t) not in seen:
                seen.add((b, t)); cl.append([b, t, rng.choice((1, 2, 3, 4, 10, 100, rng.randint(1, 2000)))])
        fr = rng.choice((0, 1, 1, 5, 10, 25, 50, 75, 100, 200, rng.randint(0, 300)))
        if D.fints and rng.random() < .3: fr = abs(int(rng.choice(D.fints))) % 1000
        return [cl, fr, rng.choice(([], ['q'], ['q', 'a'])), rng.choice(([], ['r'], ['b', '\u0301']))]
    def valid(self, c): return len(c) == 4 and all(len(x) == 3 and x[2] > 0 and x[0] + x[1] for x in c[0]) and len({(x[0], x[1]) for x in c[0]}) == len(c[0])
    def check(self, case):
        cl, fr, m0, a0 = case
        x = self.fresh()
        need(x, 'parcel_frequency')
        x.frequent = fr
        x._main, x._auxiliary = set(m0), set(a0)
        for b, t, n in cl: x.clusters[self.e.Exemplar(b, t)] += n
        x.parcel_frequency()
        tot, m, a = sum(n for b, t, n in cl), set(m0), set(a0)
        unsure = set()
        for b, t, n in cl:
            lim = Fraction(tot, len(cl)) * Fraction(fr, 100)
            if b + t != '\u0640' and n == lim or abs(n - float(lim)) < 1e-9 and n != lim:
                # exactly at the threshold: what floating point makes of it
                lim = tot / float(len(cl)) * (fr / float(100))
            (m if b + t != '\u0640' and n > lim else a).add(b + t)
        if x._main != m: return "clusters %s with threshold %s%%: main is %s, not %s" % (ascii(cl), fr, ascii(sorted(x._main)), ascii(sorted(m)))
        if x._auxiliary != a: return "clusters %s with threshold %s%%: auxiliary is %s, not %s" % (ascii(cl), fr, ascii(sorted(x._auxiliary)), ascii(sorted(a)))

@register
class C26(_Ex):
    id = 'C26'
    rule = "texts made by putting the multigraphs, parts of them and other characters side by side; lists of up to 5 multigraphs that overlap"
    bound = "texts of up to 14 characters exhaustively small, random beyond"
    def exhaustive(self, tier):
        for ms in ([], ['ab'], ['ab', 'abc'], ['aa', 'aaa'], ['b'], ['ab', 'bc', 'c'], ['abcd', 'cd']):
            for n in range(0, 5):
                for t in itertools.product('abc', repeat=n): yield [''.join(t) + 'd', ms, len(ms) % 4]
    def random(self, rng, D):
        pool = ['a', 'b', 'n', 'g', 'A', '\u00c9', '\u00e9', '\u0301', '\u0327', '\u0915', '\u093c', '\u0940', '\u094d', '\u200c', '\u200d', '.', ',', '1', ' ', '$', '\u02bc', "'", '\u0640', '\u0130', '\u0e01', '\u0f71']
        ms = []
        for _ in range(rng.choice((0, 1, 2, 3, 5))):
            m = ''.join(rng.choice(pool[:6] if rng.random() < .7 else pool) for _ in range(rng.randint(1, 4)))
            if not m.isspace(): ms.append(m)
        t = ''
        for _ in range(rng.randint(0, 7)):
            t += rng.choice(ms) if ms and rng.random() < .5 else rchar(rng, D) if rng.random() < .15 else rng.choice(pool)
        t = ''.join('a' if 0xD800 <= ord(c) < 0xE000 else c for c in t)
        return [t, ms, rng.randrange(4)]
    def valid(self, c): return len(c) == 3 and all(c[1])
    def oracle(self, text, ms):
        u = self.ucd
        nfd = lambda s: u.normalize('NFD', s)
        text, ms = nfd(text), {nfd(m) for m in ms}
        x = self.e.Exemplars()
        res, i = {}, 0
        def count(b, t=''): res[(b, t)] = res.get((b, t), 0) + 1
        L = max([len(m) for m in ms] + [1])
        while i < len(text):
            for n in range(min(L, len(text) - i), 0, -1):
                if text[i:i+n] in ms:
                    count(text[i:i+n]); i += n
                    break
            else:
                c = text[i]
                if u.ispunct(c): count(c); i += 1; continue
                if self.e.Char.isUUppercase(c): c = c.lower()
                if len(c) == 1 and not x.allowable(c) or len(c) != 1: i += 1; continue
                j, base, bl = i + 1, c, 1
                while j < len(text):
                    if u.is_zwj(text[j]): j += 1
                    elif u.is_zwnj(text[j]): j += 1; break
                    elif u.ismark(text[j]):
                        j += 1
                        if u.is_always_combine(text[j-1]):
                            bl += 1; base = text[i:i+bl]
                    else: break
                count(base, text[i+bl:j])
                i = j
        return res
    def check(self, case):
        text, ms, where = case
        x = self.fresh()
        import sldr.UnicodeSets as us
        lists = [[], [], [], []]
        for k, m in enumerate(ms): lists[(where + k * (1 if where % 2 else 0)) % 4].append(m)
        for name, l in zip(('main', 'auxiliary', 'index', 'punctuation'), lists):
            if l: setattr(x, name, us.list2us(l, self.ucd))
        x.process(text)
        got = {(e.base, e.trailers): n for e, n in x.clusters.items() if n}
        want = self.oracle(text, ms)
        if got != want:
            d = ["%s counted %s times, not %s" % (ascii(k), got.get(k, 0), want.get(k, 0)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
            return "text %s with multigraphs %s: %s" % (ascii(text), ascii(ms), '; '.join(d))

# ----------------------------------------------------------------- keyboard
@register
class C27(Prop):
    id = 'C27'
    files = [KB]
    rule = "histories of keystrokes on generated keyboards (simple, reorder and final rules, settings), and histories of layer operations on contexts, each step from the state left by an earlier one"
    bound = "up to 5 keystrokes, up to 10 operations"
    def setup(self):
        import sldr.ldml_keyboard as k
        self.k = k
    def exhaustive(self, tier):
        # every script of three layer operations
        ops = [['s', 1, 1, 'x'], ['s', 1, 0, ''], ['r', 2, 1, 'yy'], ['r', 3, 1, ''], ['k', 'ab']]
        for t in itertools.product(range(len(ops)), repeat=3): yield ['ops', 'abc', [ops[i] for i in t]]
        for t in itertools.product(('X', 'Y', 'BKSP'), repeat=3): yield ['kbd', {'X': 'abababab', 'Y': 'cabc', 'Z': 'a'}, [['cc', 'x']], [['b', '1']], [['cc', 'x']], '', ['X'] + [k for k in t for _ in range(1 + 2 * (k == 'BKSP'))]]
    def random(self, rng, D):
        w = lambda n, p='abc': ''.join(rng.choice(p) for _ in range(rng.randint(1, n)))
        if rng.random() < .3:
            ops = []
            for _ in range(D.length(rng, 6, 10)):
                if rng.random() < .3: ops.append(['k', w(4)])
                else: ops.append(['r' if rng.random() < .8 else 's', rng.randint(1, 3), rng.randint(0, 3), rng.choice(('', w(3, 'xyz')))])
            return ['ops', w(4), ops]
        n = rng.choice((4, 8)); km = {k: w(n) for k in 'XYZ'}
        return ['kbd', km, [[w(3), w(3)] for _ in range(rng.randint(0, 3))], [[w(1), str(rng.randint(0, 3))] for _ in range(rng.choice((0, 0, 2)))],
                [[w(3), w(3)] for _ in range(rng.randint(0, 3))], rng.choice(('', 'transformPartial="hide"', 'fallback="omit"', 'transformPartial="hide" fallback="omit"')),
                [rng.choice(('X', 'Y', 'Z', 'Q', 'BKSP') if rng.random() < .4 else 'XYZQ') for _ in range(rng.randint(1, 5))]]
    def snap(self, c): return [list(c.stables), list(c.outputs), list(c.offsets), c.error]
    def good(self, c, what):
        for j, (s, o) in enumerate(zip(c.stables, c.outputs)):
            if not o.startswith(s): return "%s: the settled part %r of layer %d is not the beginning of its output %r" % (what, s, j, o)
    def valid(self, c):
        return c and (c[0] == 'ops' and len(c) == 3 and all(o and o[0] in 'krs' and len(o) == (2 if o[0] == 'k' else 4) and (o[0] == 'k' or 1 <= o[1] <= 3) for o in c[2]) or
               c[0] == 'kbd' and len(c) == 7 and all(c[1].get(k) for k in 'XYZ') and all(len(r) == 2 and r[0] and r[1] for g in (c[2], c[3], c[4]) for r in g)
               and all(r[1].isdigit() and len(r[0]) == 1 for r in c[3]) and c[5] in ('', 'transformPartial="hide"', 'fallback="omit"', 'transformPartial="hide" fallback="omit"') and all(len(k) == 1 or k == 'BKSP' for k in c[6]))
    def check(self, case):
        K = self.k
        if case[0] == 'ops':
            names = sorted(K.Context.slotnames, key=K.Context.slotnames.get)
            c = K.Context(case[1])
            old = []
            reset = set()
            for n, op in enumerate(case[2]):
                what = "operation %d of %r" % (n, case)
                if op[0] == 'k':
                    old.append((c, self.snap(c)))
                    c = c.clone(op[1]); reset = set()
                else:
                    # the layers are driven in order, output reset at the start of a layer
                    name = names[op[1]]
                    if op[1] not in reset or op[0] == 's':
                        reset = {x for x in reset if x < op[1]} | {op[1]}
                        c.reset_output(name)
                        if c.outputs[op[1]] != c.stables[op[1]]: return what + ": the output after a reset is not the settled part"
                    left = len(c.input(name)) - c.offset(name)
                    before = c.outputs[op[1]]
                    c.results(name, min(op[2], max(left, 0)), op[3])
                    if c.outputs[op[1]] != before + op[3]: return what + ": the output is %r, not %r" % (c.outputs[op[1]], before + op[3])
                m = self.good(c, what)
                # an earlier layer changing under a later one resets the later one first in the real driver
                if m: return m
                for o, s in old:
                    if self.snap(o) != s: return what + " changed an earlier state"
            return None
        _, km, simple, reorder, final, settings, keys = case
        x = '<keyboard>'
        if settings: x += '<settings %s/>' % settings
        x += '<keyMap>' + ''.join('<map iso="%s" to="%s"/>' % kv for kv in sorted(km.items())) + '</keyMap>'
        for t, rs in (('simple', simple), ('final', final)):
            if rs: x += '<transforms type="%s">' % t + ''.join('<transform from="%s" to="%s"/>' % tuple(r) for r in rs) + '</transforms>'
        if reorder: x += '<reorders>' + ''.join('<reorder from="%s" order="%s"/>' % tuple(r) for r in reorder) + '</reorders>'
        if 'BKSP' in keys: x += '<backspaces/>'
        x += '</keyboard>'
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'k.xml')
            with open(f, 'w') as h: h.write(x)
            k = K.Keyboard(f)
        k.initstring()
        old = []
        for n, key in enumerate(keys):
            what = "keystroke %d of %r on %s" % (n, keys, x)
            try: c = k.process(key, [])
            except (TypeError, AttributeError, IndexError, KeyError): return None     # reorders without a base: not this property
            m = self.good(c, what)
            if m: return m
            for i, (o, s) in enumerate(old):
                if o is c: return what + ": the state returned is the one of keystroke %d" % i
                if self.snap(o) != s: return what + " changed the state of keystroke %d" % i
            old.append((c, self.snap(c)))

# ------------------------------------------------------------- parse events
@register
class C28(Prop):
    id = 'C28'
    files = [XP]
    rule = "well-nested event sequences with texts cut into pieces (also empty pieces), given to the tree builder directly and as a document through the parser in pieces"
    bound = "trees of up to 12 elements"
    def setup(self):
        import sldr.py3xmlparser as p
        self.p = p
    def gen(self, rng, D, depth):
        def text():
            s = rstr(rng, D, [c for c in GEN if c >= ' '] + ['\n', '\t'], 3, 40)
            s = ''.join(c for c in s if c in '\t\n' or 0x20 <= ord(c) and not 0xD800 <= ord(c) < 0xE000 and (ord(c) & 0xFFFE) != 0xFFFE)
            return [s[i:j] for i, j in zip(*(lambda p: (p, p[1:]))(sorted([0, len(s)] + [rng.randint(0, len(s)) for _ in range(rng.randint(0, 3))])))]
        n = {'t': rng.choice(('a', 'b', 'long-name')), 'a': {k: rng.choice(('1', 'v w', '\u00e9')) for k in 'xy' if rng.random() < .3}, 'x': text() if rng.random() < .6 else [], 'c': []}
        if depth:
            for _ in range(rng.choice((0, 1, 2, 3))): n['c'].append([self.gen(rng, D, depth - 1), text() if rng.random() < .5 else []])
        return n
    def exhaustive(self, tier):
        L = lambda t, *c: {'t': t, 'a': {}, 'x': [], 'c': list(c)}
        for p in ([], ['u'], ['u', 'v'], ['', 'u']):
            for q in ([], ['w'], ['w', 'z']):
                n = L('r', [L('a'), p], [L('b', [L('c'), q]), q]); n['x'] = q
                for how in (0, 1): yield [n, how, 1]
                n = L('r', [L('a', [L('b', [L('c'), p]), q]), p]); n['x'] = p
                for how in (0, 1): yield [n, how, 3]
    def random(self, rng, D): return [self.gen(rng, D, rng.randint(0, 3)), rng.randrange(2), rng.randint(1, 9)]
    def okn(self, n): return set(n) == set('taxc') and n['t'] in ('a', 'b', 'c', 'r', 'long-name') and all(len(e) == 2 and self.okn(e[0]) for e in n['c']) and set(n['a']) <= {'x', 'y'}
    def valid(self, c): return len(c) == 3 and self.okn(c[0]) and c[2] > 0
    def check(self, case):
        n, how, cut = case
        if how == 0:
            b = self.p.TreeBuilder()
            def go(m):
                e = b.start(m['t'], dict(m['a']))
                for s in m['x']: b.data(s)
                for c, t in m['c']:
                    go(c)
                    for s in t: b.data(s)
                if b.end(m['t']) is not e: return 'end returned another element'
            go(n)
            got = b.close()
        else:
            from xml.sax.saxutils import escape, quoteattr
            def s(m): return '<%s%s>%s%s</%s>' % (m['t'], ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in m['a'].items()), ''.join(map(escape, m['x'])), ''.join(s(c) + ''.join(map(escape, t)) for c, t in m['c']), m['t'])
            x = s(n).encode('utf-8')
            q = self.p.XMLParser(target=self.p.TreeBuilder())
            for i in range(0, len(x), cut): q.feed(x[i:i+cut])
            got = q.close()
        def cmp(m, e, path):
            if e.tag != m['t']: return "%s is a %s" % (path, e.tag)
            if dict(e.attrib) != m['a']: return "the attributes of %s are %r" % (path, e.attrib)
            if (e.text or '') != ''.join(m['x']): return "the text of %s is %r, not %r" % (path, e.text, ''.join(m['x']))
            if len(e) != len(m['c']): return "%s has %d children, not %d" % (path, len(e), len(m['c']))
            for i, (f, (c, t)) in enumerate(zip(e, m['c'])):
                d = cmp(c, f, '%s/%s[%d]' % (path, c['t'], i))
                if d: return d
                if (f.tail or '') != ''.join(t): return "the text after %s/%s[%d] is %r, not %r" % (path, c['t'], i, f.tail, ''.join(t))
        d = cmp(n, got, n['t'])
        if not d and got.tail: d = "text after the document element"
        return d and "events %s: %s" % (json.dumps(n), d)

# ------------------------------------------------------------------ scripts
@register
class C29(Prop):
    id = 'C29'
    files = ['scripts/zonetab']
    rule = "signs, degrees, minutes and seconds as strings of digits, seconds left out in some"
    bound = "exhaustive over signs, with and without seconds, for 40 degree and minute values"
    def setup(self):
        self.ns = script_functions('scripts/zonetab')
    def exhaustive(self, tier):
        for s in '+-':
            for d in ('00', '000', '01', '07', '45', '089', '90', '179', '180'):
                for m in ('00', '01', '30', '59'):
                    for c in (None, '00', '01', '30', '59'): yield [s, d, m, c]
        for la in ('+0000', '-0159', '+453059', '-900000', '+004501'):
            for lo in ('+00000', '-01959', '+1800000', '-1793059', '+0450130', '-09001'): yield ['script', la + lo]
    def random(self, rng, D):
        if rng.random() < .3:
            f = lambda w: rng.choice('+-') + '%0*d' % (w, rng.randrange(91 if w == 2 else 181)) + '%02d' % rng.randrange(60) + ('%02d' % rng.randrange(60) if rng.random() < .5 else '')
            return ['script', f(2) + f(3)]
        return [rng.choice('+-'), '%02d' % min(999, abs(int(D.number(rng, 0, 180)))), '%02d' % rng.randrange(60), None if rng.random() < .3 else '%02d' % rng.randrange(60)]
    def valid(self, c):
        if len(c) == 2: return c[0] == 'script' and bool(re.match(r'^[+-]\d{4}(\d\d)?[+-]\d{5}(\d\d)?$', c[1], re.A))
        return len(c) == 4 and c[0] in ('+', '-') and all(x is None or x.isdigit() for x in c[1:]) and c[1] and c[2] is not None
    def nontrivial(self, c): return len(c) == 2 or c[0] == '-' or c[3] is not None
    def script(self, coord):
        import tempfile, runpy, shutil
        d = tempfile.mkdtemp()
        argv = sys.argv
        try:
            with open(os.path.join(d, 'in'), 'w') as f: f.write('ZZ\t%s\tZone/Test\n' % coord)
            sys.argv = ['zonetab', os.path.join(d, 'in'), os.path.join(d, 'out')]
            runpy.run_path(os.path.join(REPO, 'scripts/zonetab'), run_name='__main__')
            with open(os.path.join(d, 'out')) as f: out = f.read()
        finally:
            sys.argv = argv
            shutil.rmtree(d, ignore_errors=True)
        ls = [l for l in out.splitlines() if l.startswith('Zone/Test,')]
        if len(ls) != 1: return 'the zone is written %d times' % len(ls)
        got = [float(x) for x in ls[0].split(',')[2:]]
        want = []
        for s, x in re.findall(r'([+-])(\d+)', coord):
            w = 2 if not want else 3
            v = int(x[:w]) + int(x[w:w+2]) / 60 + (int(x[w+2:]) if x[w+2:] else 0) / 3600
            want.append(-v if s == '-' else v)
        if len(got) != 2 or any(abs(g - w) > 1e-5 * max(1, abs(w)) for g, w in zip(got, want)): return '%s is written as %r, not %r' % (coord, got, want)
    def check(self, case):
        if len(case) == 2: return self.script(case[1])
        f = self.ns.get('latlongdeg')
        if f is None: raise Skip('no latlongdeg')
        s, d, m, c = case
        got = f(s, d, m, c)
        want = int(d) + Fraction(int(m), 60) + (Fraction(int(c), 3600) if c is not None else 0)
        want = float(-want if s == '-' else want)
        if abs(got - want) > 1e-9: return "%s%s %s' %s is %r degrees, not %r" % (s, d, m, c, got, want)

class _Tag: pass
@register
class C30(Prop):
    id = 'C30'
    files = ['scripts/fontmatch']
    rule = "rule lists of up to 6 rules with conditions that are values or lists of values, and a tag, most rules matching in part"
    bound = "exhaustive over lists of two rules from a pool; random beyond"
    def setup(self):
        self.ns = script_functions('scripts/fontmatch')
    POOL = [{}, {'scr': 'Latn'}, {'lang': 'en'}, {'lang': ['en', 'fr']}, {'scr': 'Latn', 'reg': 'US'}, {'reg': ['US', 'GB'], 'lang': 'en'}, {'lang': []}, {'lang': 'e'}, {'scr': ['Arab']}]
    def exhaustive(self, tier):
        for a in range(len(self.POOL)):
            for b in range(len(self.POOL)):
                for t in (['Latn', 'en', 'US'], ['Arab', 'fr', 'GB'], ['Latn', 'fr', None]): yield [[[self.POOL[a], 0], [self.POOL[b], 1]], t]
    def random(self, rng, D):
        P = {'scr': ['Latn', 'Arab', 'Lat'], 'lang': ['en', 'fr', 'e'], 'reg': ['US', 'GB', 'U']}
        for w in D.fstrs: P[rng.choice(sorted(P))].append(w)
        rules = []
        for i in range(rng.randint(0, 6)):
            m = {}
            for k in rng.sample(sorted(P), rng.randint(0, 3)):
                m[k] = rng.choice(P[k][:2] if rng.random() < .8 else P[k]) if rng.random() < .6 else rng.sample(P[k], rng.randint(0, 2))
            rules.append([m, i if rng.random() < .8 else rng.choice((None, 0, '', 'f'))])
        return [rules, [rng.choice(P['scr'][:2] + [None]), rng.choice(P['lang'][:2]), rng.choice(P['reg'][:2] + [None])] if rng.random() < .8 else [rng.choice(P[k]) for k in ('scr', 'lang', 'reg')]]
    def valid(self, c): return len(c) == 2 and len(c[1]) == 3 and all(len(r) == 2 and set(r[0]) <= {'scr', 'lang', 'reg'} for r in c[0])
    def check(self, case):
        f = self.ns.get('match1')
        if f is None: raise Skip('no match1')
        rules, t = case
        g = _Tag(); g.script, g.lang, g.region = t
        val = dict(scr=t[0], lang=t[1], reg=t[2])
        got = f([{'match': dict(m), 'result': r} for m, r in rules], g)
        want = None
        for m, r in rules:
            if all(val[k] == v if isinstance(v, str) else val[k] in v for k, v in m.items()):
                want = r
                break
        if got != want or type(got) != type(want): return "tag %r, rules %r: %r, not %r" % (val, rules, got, want)

# ------------------------------------------------------------- locale files
@register
class C31(Prop):
    id = 'C31'
    files = [LD, LM]
    rule = "tags, lists of up to 3 directories and the sets of files that exist in them, plain and under the letter"
    bound = "exhaustive over 2 directories; random for 3"
    def setup(self):
        import sldr.ldml as l, sldr.ldml_merge as m
        self.f = [l.getldml, m.getldml]
    TAGS = ['en', 'en-US', 'Zh-Hant', 'en_US', 'az-Latn-AZ', 'A', 'x-y_z']
    def exhaustive(self, tier):
        for which in (0, 1):
            for tag in ('en', 'en_US', 'en-US', 'Zh_Hant'):
                for e in range(16): yield [which, tag, 2, [i for i in range(4) if e >> i & 1]]
    def random(self, rng, D):
        t = rng.choice(self.TAGS)
        if rng.random() < .3: t = ''.join(rng.choice('abcABC_-') for _ in range(rng.randint(1, 6)))
        n = rng.randint(0, 3)
        return [rng.randrange(2), t.lstrip('-_') or 'q', n, [i for i in range(2 * n) if rng.random() < .4]]
    def valid(self, c): return len(c) == 4 and c[1] and c[1][0] not in '-_' and 0 <= c[2] <= 4 and all(i < 2 * c[2] for i in c[3])
    def check(self, case):
        which, tag, n, have = case
        if which == 1: tag = tag.replace('-', '_')
        with tempfile.TemporaryDirectory() as d:
            ds = [os.path.join(d, 'd%d' % i) for i in range(n)]
            name = tag.replace('-', '_') + '.xml'
            files = []
            for i in range(2 * n):
                p = ds[i // 2] if i % 2 == 0 else os.path.join(ds[i // 2], tag[0].lower())
                os.makedirs(p, exist_ok=True)
                files.append(os.path.join(p, name))
                if i in have:
                    with open(files[i], 'w') as f: f.write('<ldml><identity><language type="f%d"/></identity></ldml>' % i)
                    # and others that are not asked for
                    with open(os.path.join(p, 'z' + name), 'w') as f: f.write('<ldml><identity><language type="no"/></identity></ldml>')
            order = range(2 * n) if which == 1 else [i for i in range(0, 2 * n, 2)] + [i for i in range(1, 2 * n, 2)]
            want = next((i for i in order if i in have), None)
            got = self.f[which](tag, ds)
            at = "%s.getldml(%r) with %d directories and %s there" % (('ldml', 'ldml_merge')[which], tag, n, [os.path.relpath(files[i], d) for i in have])
            if got is None:
                if want is not None: return at + " finds nothing"
                return None
            e = got.root.find('identity/language').get('type')
            if want is None or e != 'f%d' % want: return at + " opens %s, not %s" % (e, want if want is None else os.path.relpath(files[want], d))

# -------------------------------------------------------------- spreadsheet
@register
class C32(Prop):
    id = 'C32'
    files = [SH]
    strict = False
    rule = "rows of up to 5 runs of repeated cells, empty or with text, and a sequence of writes at columns inside the row"
    bound = "exhaustive over rows of up to 3 runs of up to 3 cells; random beyond"
    def setup(self):
        import sldr.sheet as s
        from odf.table import TableRow, TableCell
        from odf.text import P
        self.s, self.Row, self.Cell, self.P = s, TableRow, TableCell, P
    def exhaustive(self, tier):
        for n in (1, 2, 3):
            for runs in itertools.product((1, 2, 3), repeat=n):
                for txt in range(2 ** n):
                    row = [[r, 't%d' % i if txt >> i & 1 else None] for i, r in enumerate(runs)]
                    for col in range(1, sum(runs) + 1): yield [row, [[col, 'N']]]
    def random(self, rng, D):
        row = [[rng.choice((1, 1, 2, 3, 7, 1000)), rng.choice((None, 'v', 'w')) if rng.random() < .8 else rstr(rng, D, min=1)] for _ in range(rng.randint(1, 5))]
        n = sum(r for r, t in row)
        return [row, [[rng.randint(1, min(n, 40)) if rng.random() < .8 else rng.randint(1, n), rng.choice(('N', 'M', 'v'))] for _ in range(rng.randint(1, 4))]]
    def valid(self, c): return len(c) == 2 and c[0] and all(len(x) == 2 and x[0] > 0 and x[1] != '' for x in c[0]) and all(len(w) == 2 and 1 <= w[0] <= sum(x[0] for x in c[0]) for w in c[1])
    def cols(self, r):
        o = []
        for c in r.childNodes:
            if c.tagName == 'table:table-cell':
                n = c.getAttribute('numbercolumnsrepeated')
                o += [str(c)] * (int(n) if n else 1)
        return o
    def check(self, case):
        row, writes = case
        s = self.s.Sheet.__new__(self.s.Sheet)
        need(s, '_writeodsitem')
        r = self.Row()
        for n, t in row:
            c = self.Cell()
            if n > 1: c.setAttribute('numbercolumnsrepeated', str(n))
            if t is not None: c.addElement(self.P(text=t))
            r.addElement(c)
        s.currentrow = r
        want = self.cols(r)
        for col, v in writes:
            s._writeodsitem(col, v)
            want[col - 1] = v
            got = self.cols(r)
            if got != want:
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                return "row %r, writing %r: %s" % (row, writes, "there are %d columns, not %d" % (len(got), len(want)) if len(got) != len(want) else "column %d shows %r, not %r" % (i + 1, got[i], want[i]))
