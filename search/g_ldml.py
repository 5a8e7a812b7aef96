"""C10-C15, C33, C34: LDML documents."""
import io, re, itertools
from xml.etree import ElementTree as ET
from base import *
LD, XP = "lib/sldr/ldml.py", "lib/sldr/py3xmlparser.py"
SIL = "urn://www.sil.org/ldml/0.1"
DR = ['approved', 'contributed', 'provisional', 'unconfirmed', 'tentative', 'generated', 'suspect']
RATE = {d: i for i, d in enumerate(DR)}
def xmlok(s):
    return ''.join(c for c in s if c in '\t\n\r' or 0x20 <= ord(c) <= 0xd7ff or 0xe000 <= ord(c) <= 0xfffd or ord(c) >= 0x10000)
def esc(s, attr=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
    if attr: s = s.replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;')
    return s
def toxml(n, root=True):
    """n: dict t tag, a attributes, x text, c children, k comments before, e comments at the end"""
    s = ''.join('<!--%s-->' % c for c in n.get('k', ()))
    s += '<' + n['t'] + (' xmlns:sil="%s"' % SIL if root else '') + ''.join(' %s="%s"' % (k, esc(v, True)) for k, v in n.get('a', {}).items()) + '>'
    s += esc(n.get('x') or '') + ''.join(toxml(c, False) for c in n.get('c', ())) + ''.join('<!--%s-->' % c for c in n.get('e', ()))
    return s + '</' + n['t'] + '>'
def clark(t):
    return t.replace('sil:', '{%s}' % SIL, 1) if t.startswith('sil:') else t.replace('xml:', '{http://www.w3.org/XML/1998/namespace}', 1) if t.startswith('xml:') else t
def normtext(t):
    return re.sub(r'[ \t]*\n[ \t]*', '\n', (t or '').strip())
def nodes(n):
    yield n
    for c in n.get('c', ()): yield from nodes(c)

class _Ldml(Prop):
    files = [LD, XP]
    def setup(self):
        import sldr.ldml as l
        self.l = l
        if not hasattr(l.Ldml, 'elementOrder'): l.Ldml.ReadMetadata()
        self.serial = set(l.Ldml.serialElements)
        self.tags = sorted(t for t in l.Ldml.elementOrder.get('ldml', {}))
    def load(self, tree, drafts):
        return self.l.Ldml(io.BytesIO(('<?xml version="1.0" encoding="utf-8"?>' + toxml(tree)).encode()), usedrafts=drafts)
    def write(self, doc):
        out = []
        doc.serialize_xml(out.append)
        return ''.join(out)

NAMES = {'ldml': ['identity', 'localeDisplayNames', 'characters', 'special', 'numbers', 'collations', 'zed'], 'identity': ['version', 'language', 'special'],
    'localeDisplayNames': ['languages', 'scripts', 'territories', 'keys'], 'languages': ['language'], 'scripts': ['script'], 'territories': ['territory'],
    'characters': ['exemplarCharacters', 'ellipsis', 'special'], 'special': ['sil:external-resources', 'sil:note', 'sil:font', 'sil:text'], 'numbers': ['symbols', 'defaultNumberingSystem'],
    'symbols': ['decimal', 'group', 'percentSign'], 'collations': ['collation'], 'collation': ['cr', 'suppress_contractions'], 'sil:external-resources': ['sil:font', 'sil:kbd'], 'sil:font': ['sil:url']}

def rtree(rng, D, serial, depth=0, tag='ldml', drafts=True):
    n = {'t': tag, 'a': {}, 'x': None, 'c': [], 'k': [], 'e': []}
    def val():
        r = rng.random()
        return rng.choice(('a', 'b', 'en', 'standard', 'main', 'auxiliary', 'x1', 'B')) if r < .6 else xmlok(rstr(rng, D, min=1, small=3)) or 'v'
    for k in ('type', 'number', 'path', 'sil:id', 'references', 'xml:lang', 'name'):
        if rng.random() < (.5 if k == 'type' else .06): n['a'][k] = val()
    if D.fstrs and rng.random() < .1:
        k = rng.choice(D.fstrs)
        if re.match(r'^[A-Za-z_][\w.-]*$', k, re.A) and not k.lower().startswith('xml'): n['a'][k] = val()
    if depth and drafts and rng.random() < .3: n['a']['draft'] = rng.choice(DR)
    if rng.random() < .05: n['a'].update(('zz%d' % j, val()) for j in range(rng.randint(2, 6)))
    if rng.random() < .12: n['k'] += [rcomment(rng, D) for _ in range(rng.choice((1, 1, 2, 3, min(D.length(rng, 4, 8), 12))))]
    opts = NAMES.get(tag)
    if depth < 5 and (opts and rng.random() < .9 or depth < 2 and rng.random() < .3):
        m = min(D.length(rng, 4, 7), 25) if depth else rng.randint(1, 4)
        for _ in range(m):
            t = rng.choice(opts) if opts and rng.random() < .9 else rng.choice(('foo', 'bar', 'cr', 'sil:zed', 'sil:note'))
            n['c'].append(rtree(rng, D, serial, depth + 1, t, drafts))
        if n['c'] and rng.random() < .1: n['e'] += [rcomment(rng, D) for _ in range(rng.choice((1, 1, 2, 3, min(D.length(rng, 4, 8), 12))))]
    if not n['c'] and rng.random() < .8:
        n['x'] = xmlok(rstr(rng, D, small=4)).replace('\u2191', 'a')
        if rng.random() < .1: n['x'] += ''.join(rng.choice((']]>', 'a\nb', 'x\r\ny', ' a', '[[', 'a\n\n  b\t\n c', 'a \t\n \n b', 'q')) for _ in range(rng.choice((1, 1, 2, 3))))
    if not n['c'] and depth and rng.random() < .35: n['a']['alt'] = rng.choice(('proposed', 'x', 'short', 'variant', 'proposed-7'))
    return n
def rcomment(rng, D):
    c = re.sub('-+', '-', xmlok(rstr(rng, D, small=4, min=1)).replace('\r', '').replace('>', ''))
    return 'c' + c + 'c'

def dump(doc, n, defdraft, deep=True):
    """what a document holds, the draft marks that need not be written left out"""
    at = dict(n.attrib)
    if 'draft' in at and (len(n) or at['draft'] == defdraft) and doc.useDrafts and n.tag != '{%s}identity' % SIL: del at['draft']
    alts = {}
    for k, v in getattr(n, 'alternates', {}).items():
        v = dump(doc, v, defdraft, False)
        v[1].pop('alt', None)
        alts[k] = v
    res = [n.tag, at, normtext(n.text), [dump(doc, c, defdraft) for c in n], alts if deep else {}]
    return res
def comments(n):
    res = list(getattr(n, 'comments', []) or [])
    for c in n:
        res += comments(c)
        for a in sorted(getattr(c, 'alternates', {})): 
            res += comments(c.alternates[a]) + list(getattr(c.alternates[a], 'commentsafter', []) or [])
        # what follows c comes before or after its alternates; the order of those is not compared
    return sorted(res + [x for c in n for x in (getattr(c, 'commentsafter', []) or [])])
def flat(d, alt=None):
    """the elements as they are to be in the file"""
    at = dict(d[1])
    if alt: at['alt'] = alt
    kids = []
    for c in d[3]:
        kids.append(flat(c))
        for a in sorted(c[4]): kids.append(flat(c[4][a], a))
    return [d[0], at, d[2] if not d[3] else '', kids]
def ofet(e, defdraft, drafts):
    at = dict(e.attrib)
    return [e.tag, at, normtext(e.text) if not len(e) else '', [ofet(c, defdraft, drafts) for c in e]]
def firstdiff(a, b, path=''):
    if a == b: return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and a and isinstance(a[0], str) and isinstance(a[1], dict):
        p = path + '/' + a[0]
        for x, y in zip(a, b):
            if x != y:
                if isinstance(x, list) and isinstance(y, list): 
                    for i, (u, v) in enumerate(zip(x, y)):
                        if u != v: return firstdiff(u, v, p)
                    return "%s: %d children, not %d" % (p, len(y), len(x))
                return "%s: %r instead of %r" % (p, y, x)
    return "%s: %r instead of %r" % (path, b, a)

@register
class C10(_Ldml):
    id = 'C10'
    rule = "documents made from trees of up to five levels with attributes, namespaces, text, comments, drafts and alternates; written, read back, written again with writes of and edits to other documents in between"
    bound = "random documents of up to about 100 elements and histories of up to 10 operations"
    def random(self, rng, D):
        n = rng.choice((1, 1, 2, 3))
        docs = []
        for _ in range(n):
            t = rtree(rng, D, self.serial)
            if rng.random() < .2:
                t['c'].insert(0, {'t': 'identity', 'c': [{'t': 'special', 'c': [{'t': 'sil:identity', 'a': {'draft': rng.choice(DR)}}]}]})
            self.fix(t)
            docs.append(t)
        ops = []
        for _ in range(rng.randint(0, 8)):
            i = rng.randrange(n)
            ops.append(rng.choice((['write', i], ['write', i], ['text', i, rng.randrange(50), xmlok(rstr(rng, D))], ['sub', i, rng.randrange(50)], ['attr', i, rng.randrange(50), xmlok(rstr(rng, D, min=1)) or 'v'], ['add', i, rng.choice(('a', 'b', 'c')), rng.choice(DR)], ['draft', i, rng.randrange(50), rng.choice(DR)], ['draft', i, rng.randrange(50), rng.choice(DR)], ['reload', i], ['et', i])))
        if rng.random() < .25:      # alternates that take turns, with writes in between
            i = rng.randrange(n)
            ops += [['add', i, 'a', rng.choice(DR)] for _ in range(rng.randint(2, 3))]
            for _ in range(rng.randint(1, 4)): ops += [['write', i], ['draft', i, rng.randrange(50), rng.choice(DR)]]
        return [docs, [rng.random() < .7 for _ in range(n)], ops]
    def fix(self, t):
        """keep to what the property speaks of"""
        for n in nodes(t):
            n['a'] = {k: v for k, v in n.get('a', {}).items() if re.match(r'^((sil|xml):)?[A-Za-z_][\w.-]*$', k, re.A)}
            if n.get('c') or n['t'] in self.serial or n['t'] == 'sil:identity': n['a'].pop('alt', None)
            if n.get('c'): n['x'] = None
            seen = {}
            for c in n.get('c', ()): seen.setdefault(c['t'], []).append(c)
            for t2, cs in seen.items():
                # order among siblings may depend on a draft that is left out
                ty = [c.get('a', {}).get('type') for c in cs]
                if len(cs) > 1 and (t2 not in ('language', 'script', 'territory') or any(set(c.get('a', {})) - {'type', 'alt', 'draft'} or c.get('c') for c in cs)
                        or None in ty and any(ty) or len({x.lower() for x in ty if x}) != len({x for x in ty if x})):
                    for c in cs:
                        if t2 != 'sil:identity': c.get('a', {}).pop('draft', None)
        t['a'].pop('draft', None); t['a'].pop('alt', None)
        t['e'] = []
    def valid(self, case):
        docs, dr, ops = case
        if not docs or len(docs) != len(dr): return False
        import copy
        for t in docs:
            if t['t'] != 'ldml': return False
            for n in nodes(t):
                if not re.match(r'^(sil:)?[A-Za-z_][\w.-]*$', n['t'], re.A) or xmlok(n.get('x') or '') != (n.get('x') or '') or any(xmlok(v) != v for v in n.get('a', {}).values()): return False
                if any('--' in c or c.endswith('-') or not c for c in list(n.get('k', ())) + list(n.get('e', ()))) or n.get('e') and not n.get('c'): return False
            if any(n.get('a', {}).get('draft', 'approved') not in DR or n.get('a', {}).get('alt', 'x') == '' for n in nodes(t)): return False
            u = copy.deepcopy(t); self.fix(u)
            u2 = copy.deepcopy(t)
            for n in nodes(u2): n.setdefault('a', {})
            u2.setdefault('e', [])
            if u != u2: return False
        return all(o and len(o) > 1 and isinstance(o[1], int) and 0 <= o[1] < len(docs) and len(o) == {'write': 2, 'text': 4, 'sub': 3, 'attr': 4, 'add': 4, 'draft': 4, 'reload': 2, 'et': 2}[o[0]] and (o[0] != 'attr' or o[3]) for o in ops)
    def edit(self, doc, o):
        if o[0] == 'text':
            ls = [n for n in doc.root.iter() if not len(n)]
            ls[o[2] % len(ls)].text = normtext(o[3])
        elif o[0] == 'attr':
            ls = list(doc.root.iter())
            ls[o[2] % len(ls)].set('zz', o[3])
        elif o[0] == 'draft':
            ls = [n for n in doc.root.iter() if getattr(n, 'alternates', None)]
            if ls and doc.useDrafts: doc.change_draft(ls[o[2] % len(ls)], o[3])
        elif o[0] == 'add':
            p = doc.root.find('added')
            if p is None: p = doc.addnode(doc.root, 'added')
            e = doc.addnode(p, 'language', attrib={'type': o[2], 'draft': o[3]}, returnnew=True)
            e.text = 'new'
    def check(self, case):
        trees, drafts, ops = case
        for t, dr in zip(trees, drafts):
            doc = self.load(t, dr)
            d = doc.default_draft
            if not dr:
                # what was loaded is what is in the file, but for the order
                def can(x): return [x[0], x[1], x[2] if not x[3] else '', sorted(map(can, x[3]), key=repr)]
                def mod(n): return [clark(n['t']), {clark(k): v for k, v in n.get('a', {}).items()}, normtext(n.get('x')) if not n.get('c') else '', [mod(c) for c in n.get('c', ())]]
                m = firstdiff(can(mod(t)), can(dump(doc, doc.root, d)))
                if m: return "loading: " + m
                cs = sorted(c for n in nodes(t) for c in list(n.get('k', ())) + list(n.get('e', ())))
                if sorted(comments(doc.root)) != cs: return "loading: the comments %r are %r" % (cs, sorted(comments(doc.root)))
            d0 = dump(doc, doc.root, d)
            c0 = comments(doc.root)
            ds = [(n, n.get('draft')) for n in doc.root.iter()]
            t1 = self.write(doc)
            m = firstdiff(d0, dump(doc, doc.root, d))
            if not m and any(n.get('draft') != x for n, x in ds): m = "a draft mark is gone"
            if m: return "writing changed the document: " + m
            if self.write(doc) != t1: return "writing the document twice gives different text: %r" % t1[:600]
            try:
                e = ET.fromstring(t1.encode())
            except ET.ParseError as x:
                return "the text written is not XML: %s: %r" % (x, t1[:600])
            m = firstdiff(flat(d0), ofet(e, d, dr))
            if m: return "the text written: " + m
            # with the namespaces as low as possible
            low = []
            doc.serialize_xml(low.append, topns=False)
            try:
                e = ET.fromstring(''.join(low).encode())
            except ET.ParseError as x:
                return "the text written with topns=False is not XML: %s: %r" % (x, ''.join(low)[:600])
            m = firstdiff(flat(d0), ofet(e, d, dr)) or firstdiff(d0, dump(doc, doc.root, d))
            if m: return "writing with topns=False: " + m
            if self.write(doc) != t1: return "writing after a write with topns=False gives different text"
            doc2 = self.l.Ldml(io.BytesIO(t1.encode()), usedrafts=dr)
            m = firstdiff(d0, dump(doc2, doc2.root, d))
            if m: return "loading what was written: " + m
            if comments(doc2.root) != c0: return "comments %r are %r after loading what was written" % (c0, comments(doc2.root))
            t2 = self.write(doc2)
            if t2 != t1:
                i = next((i for i, (a, b) in enumerate(zip(t1, t2)) if a != b), min(len(t1), len(t2)))
                return "writing the loaded text gives a different text: %r instead of %r" % (t2[max(0, i-30):i+50], t1[max(0, i-30):i+50])
        if not ops: return None
        docs = [self.load(t, dr) for t, dr in zip(trees, drafts)]
        for n, o in enumerate(ops):
            i = o[1]
            if o[0] == 'write': self.write(docs[i])
            elif o[0] == 'sub':
                ls = list(docs[i].root.iter())
                docs[i].serialize_xml(lambda s: None, base=ls[o[2] % len(ls)], topns=bool(o[2] % 3))
            elif o[0] == 'et':
                self.l.etwrite(ET.fromstring('<a xmlns:q="urn:q"><q:b q:c="1"/></a>'), lambda s: None, namespaces={'urn:q': 'q'})
            elif o[0] == 'reload':
                self.l.Ldml(io.BytesIO(self.write(docs[i]).encode()), usedrafts=drafts[i])
            else: self.edit(docs[i], o)
        for i in range(len(docs)):
            alone = self.load(trees[i], drafts[i])
            for o in ops:
                if o[1] == i and o[0] in ('text', 'attr', 'add', 'draft'): self.edit(alone, o)
            a, b = self.write(alone), self.write(docs[i])
            if a != b: return "after %r document %d is written as %r instead of %r" % (ops, i, b[:800], a[:800])

@register
class C11(_Ldml):
    id = 'C11'
    rule = "names of 1-6 characters with and without namespace, tables of 0-4 namespaces"
    bound = "exhaustive over the built-in table and 30 names; random tables beyond"
    def exhaustive(self, tier):
        ns = [[k, v] for k, v in {'urn://www.sil.org/ldml/0.1': 'sil', 'http://www.w3.org/XML/1998/namespace': 'xml'}.items()]
        for t in (ns, ns[:1], [], [['u', 'p'], ['uu', 'pp'], ['u:v', 'q']], [['p', 'u'], ['u', 'p']]):
            for n in ('a', 'sil', 'xml', 'a-b', 'a.b', 'foo', 'p', 'u', '\u00e9', 'x' * 50):
                for p in ['sil', 'xml', 'p', 'pp', 'zz', '']:
                    yield [t, p, n]
    def random(self, rng, D):
        k = min(D.length(rng, 3, 4), 10)
        nm = lambda: ''.join(rng.choice('abcpuxsil-._0') for _ in range(rng.randint(1, 5))).lstrip('-._0') or 'n'
        t = []
        for _ in range(k):
            u, p = rng.choice(('urn:', 'http://x/', '')) + nm(), nm()
            if D.fstrs and rng.random() < .2: u = rng.choice(D.fstrs).replace('{', '').replace('}', '') or u
            if D.fstrs and rng.random() < .2: p = re.sub(r'\W', '', rng.choice(D.fstrs), flags=re.A) or p
            if u not in [x[0] for x in t] and p not in [x[1] for x in t]: t.append([u, p])
        return [t, rng.choice([x[1] for x in t] or ['q']) if rng.random() < .8 else nm(), nm()]
    def valid(self, c):
        t, p, n = c
        return bool(n) and ':' not in n + p and not any(ch in n + p for ch in '{}') and all(len(x) == 2 and x[0] and x[1] and not any(ch in x[0] + x[1] for ch in '{}') and ':' not in x[1] for x in t) and len({x[0] for x in t}) == len(t) == len({x[1] for x in t})
    def check(self, case):
        t, p, n = case
        ns = {u: q for u, q in t}
        inv = {q: u for u, q in t}
        doc = self.l.ETWriter(ET.Element('a'), namespaces=dict(ns))
        fs = [('localns', lambda x: self.l.localns(x, ns), 'reverse_localns', lambda x: self.l.reverse_localns(x, ns)),
              ('_localisens', (lambda x: doc._localisens(x)[0]) if hasattr(doc, '_localisens') else None, '_reverselocalns', doc._reverselocalns if hasattr(doc, '_reverselocalns') else None)]
        if ns == {SIL: 'sil', 'http://www.w3.org/XML/1998/namespace': 'xml'}:
            fs.append(('localns()', self.l.localns, 'reverse_localns()', self.l.reverse_localns))
        for l, lf, r, rf in fs:
            if lf is None or rf is None: continue
            full = '{%s}%s' % (inv[p], n) if p in inv else None
            short = '%s:%s' % (p, n) if p else n
            if full:
                if rf(short) != full: return "%s(%r) is %r, not %r" % (r, short, rf(short), full)
                if lf(full) != short: return "%s(%r) is %r, not %r" % (l, full, lf(full), short)
                if rf(lf(full)) != full or lf(rf(short)) != short: return "%s and %s do not undo each other on %r" % (l, r, full)
            else:
                if rf(short) != short: return "%s(%r) is %r" % (r, short, rf(short))
                if l.startswith('localns') and lf('{urn:unknown-%s}%s' % (p, n)) != '{urn:unknown-%s}%s' % (p, n): return "%s changes a name in an unknown namespace to %r" % (l, lf('{urn:unknown-%s}%s' % (p, n)))
            if lf(n) != n or rf(n) != n: return "%s or %s changes the name %r" % (l, r, n)

ALTS = [None, 'x', 'short', 'proposed']
@register
class C12(_Ldml):
    id = 'C12'
    rule = "histories of 1-8 additions of nodes with any draft under any alt to one or two parents with and without other nodes"
    bound = "exhaustive over two additions to a primary node for all seven drafts and two alts; random histories beyond"
    def exhaustive(self, tier):
        for d0, d1, d2 in itertools.product(range(7), repeat=3):
            for a1, a2 in ((None, None), (None, 'x'), ('x', 'x')):
                yield [0, [['a', d0, None], ['a', d1, a1], ['a', d2, a2]]]
    def random(self, rng, D):
        n = min(max(2, D.length(rng, 6, 9)), 30)
        als = ALTS + [re.sub(r'[^a-z]', '', s) for s in D.fstrs if re.sub(r'[^a-z]', '', s)]
        return [rng.choice((0, 0, 1)), [[rng.choice('aaaabc'), rng.randrange(7), rng.choice(als)] for _ in range(n)]]
    def valid(self, c): return all(len(o) == 3 and o[0] and 0 <= o[1] < 7 for o in c[1]) and c[0] in (0, 1)
    def check(self, case):
        uid, ops = case
        tree = {'t': 'ldml', 'c': [{'t': 'localeDisplayNames', 'c': [{'t': 'languages'}]}]}
        if uid: tree['c'].insert(0, {'t': 'identity', 'c': [{'t': 'special', 'c': [{'t': 'sil:identity', 'a': {'uid': '42'}}]}]})
        doc = self.load(tree, True)
        par = doc.root.find('localeDisplayNames/languages')
        prim, pos, alts = {}, [], {}
        num = {}
        for n, (typ, d, alt) in enumerate(ops):
            e = doc.addnode(par, 'language', attrib={'type': typ, 'draft': DR[d]}, alt=alt, returnnew=True)
            if e is None: return "addnode returns nothing"
            e.text = 'n%d' % n
            num[id(e)] = n
            key = (alt or 'proposed') + ('-42' if uid else '')
            if typ not in prim:
                prim[typ] = n; pos.append(typ); alts[typ] = {}
            elif d < ops[prim[typ]][1]:
                alts[typ][key] = prim[typ]
                prim[typ] = n
            elif key in alts[typ] and ops[alts[typ][key]][1] < d:
                pass
            else:
                alts[typ][key] = n
            got = [c.text for c in par]
            exp = ['n%d' % prim[t] for t in pos]
            at = "after adding %r: " % (ops[:n+1],)
            if got != exp: return at + "the nodes in the document are %r, not %r" % (got, exp)
            for c, t in zip(par, pos):
                ga = {k: v.text for k, v in getattr(c, 'alternates', {}).items()}
                if ga != {k: 'n%d' % v for k, v in alts[t].items()}: return at + "the alternates of %s are %r, not %r" % (c.text, ga, alts[t])
                if c.get('alt') is not None: return at + "the primary %s has alt %r" % (c.text, c.get('alt'))
                for v in [c] + list(getattr(c, 'alternates', {}).values()):
                    i = int(v.text[1:])
                    if v.get('draft') != DR[ops[i][1]] or v.get('type') != ops[i][0]: return at + "the attributes of %s are %r" % (v.text, v.attrib)
                if c.parent is not par: return at + "the parent of %s is wrong" % c.text

@register
class C13(_Ldml):
    id = 'C13'
    rule = "documents with a primary node and 0-5 alternates of any drafts, loaded or built up by additions; 1-6 changes of draft under any alt"
    bound = "exhaustive over one change with up to two alternates and all drafts; random beyond"
    def exhaustive(self, tier):
        for p, nd in itertools.product(range(7), repeat=2):
            for alt in (None, 'x'):
                yield [0, p, [], [[nd, alt]]]
                for a in range(7):
                    yield [0, p, [['x', a]], [[nd, alt]]]
                    for b in range(0, 7, 1 if tier == 'thorough' else 2):
                        yield [0, p, [['x', a], ['y', b]], [[nd, alt]]]
                        yield [0, p, [['proposed', a], ['y', b]], [[nd, alt]]]
    def random(self, rng, D):
        als = ['x', 'y', 'short', 'proposed', 'q', 'z1'] + [re.sub(r'[^a-z]', '', s) for s in D.fstrs if re.sub(r'[^a-z]', '', s)]
        k = min(D.length(rng, 4, 5), 30)
        ks = rng.sample(sorted(set(als)), min(k, len(set(als))))
        return [rng.choice((0, 0, 1)), rng.randrange(7), [[a, rng.randrange(7)] for a in ks], [[rng.randrange(7), rng.choice([None, None, 'new'] + als)] for _ in range(min(max(1, D.length(rng, 4, 6)), 30))]]
    def valid(self, c):
        return c[0] in (0, 1) and 0 <= c[1] < 7 and all(len(x) == 2 and x[0] and 0 <= x[1] < 7 for x in c[2]) and len({x[0] for x in c[2]}) == len(c[2]) and all(len(x) == 2 and 0 <= x[0] < 7 for x in c[3])
    def check(self, case):
        uid, p, alts, ops = case
        tree = {'t': 'ldml', 'c': [{'t': 'localeDisplayNames', 'c': [{'t': 'languages', 'c':
            [{'t': 'language', 'a': {'type': 'a'}, 'x': 'A'}, {'t': 'language', 'a': {'type': 'm', 'draft': DR[p]}, 'x': 'P'}, {'t': 'language', 'a': {'type': 'z'}, 'x': 'Z'}]
            + [{'t': 'language', 'a': {'type': 'm', 'draft': DR[d], 'alt': a}, 'x': 'n%d' % i} for i, (a, d) in enumerate(alts)]}]}]}
        if uid: tree['c'].insert(0, {'t': 'identity', 'c': [{'t': 'special', 'c': [{'t': 'sil:identity', 'a': {'uid': '42'}}]}]})
        doc = self.load(tree, True)
        par = doc.root.find('localeDisplayNames/languages')
        drafts = {'P': p}
        for i, (a, d) in enumerate(alts): drafts['n%d' % i] = d
        for n, (nd, alt) in enumerate(ops):
            node = par[1]
            before = node.text
            doc.change_draft(node, DR[nd], alt=alt)
            drafts[before] = nd
            at = "primary %s, alternates %r, after %r: " % (DR[p], alts, [[DR[a], b] for a, b in ops[:n+1]])
            if len(par) != 3 or par[0].text != 'A' or par[2].text != 'Z': return at + "the nodes in the document are %r" % [c.text for c in par]
            h = par[1]
            held = [h.text] + [v.text for v in getattr(h, 'alternates', {}).values()]
            if sorted(held) != sorted(drafts): return at + "the nodes held are %r, not %r" % (sorted(held), sorted(drafts))
            if drafts[h.text] != min(drafts.values()): return at + "the primary %s is %s though there is a better one (%r)" % (h.text, DR[drafts[h.text]], drafts)
            if h.get('alt') is not None: return at + "the primary has alt %r" % h.get('alt')
            for v in [h] + list(getattr(h, 'alternates', {}).values()):
                if v.get('draft') != DR[drafts[v.text]]: return at + "%s is marked %s, not %s" % (v.text, v.get('draft'), DR[drafts[v.text]])

@register
class C14(_Ldml):
    id = 'C14'
    rule = "lists of 0-8 siblings with 3 identities, 4 alts and all drafts, loaded with drafts"
    bound = "exhaustive over three siblings of one identity with 3 alts and 4 drafts; random beyond"
    def exhaustive(self, tier):
        opts = [(a, d) for a in (None, 'x', 'y') for d in (0, 3, 6, None)]
        for n in (1, 2, 3):
            for t in itertools.product(opts, repeat=n):
                if n == 3 and tier != "thorough" and sum(map(len, map(str, t))) % 2: continue
                yield [3, [['a', a, d] for a, d in t]]
    def random(self, rng, D):
        n = min(D.length(rng, 6, 9), 40)
        return [rng.choice((0, 1, 2, 3, 4, 5, 6, 'none', 'bare')), [[rng.choice('aaab'), rng.choice((None, 'x', 'y', 'proposed', 'proposed-42', 'x-proposed')), rng.choice((None, 0, 1, 2, 3, 4, 5, 6)), rng.randrange(2)] for _ in range(n)], rng.randrange(8)]
    def valid(self, c): return len(c) in (2, 3) and (c[0] in ('none', 'bare') or 0 <= c[0] < 7) and all(len(x) in (3, 4) and x[0] and x[1] != '' for x in c[1])
    def check(self, case):
        dd, sibs, serial = case[0], [x[:3] for x in case[1]], case[2] if len(case) > 2 else 0
        empty = [len(x) > 3 and x[3] for x in case[1]]
        idt = {'none': None, 'bare': {}}.get(dd, {'draft': DR[dd]} if isinstance(dd, int) else None)
        if not isinstance(dd, int): dd = RATE['unconfirmed']
        tree = {'t': 'ldml', 'c': ([] if idt is None else [{'t': 'identity', 'c': [{'t': 'special', 'c': [{'t': 'sil:identity', 'a': idt}]}]}]) + [{'t': 'localeDisplayNames', 'c': [{'t': 'languages', 'c':
            [{'t': 'language', 'a': {k: v for k, v in (('type', t), ('alt', a), ('draft', None if d is None else DR[d])) if v is not None}, 'k': ['n%d' % i], 'x': '' if empty[i] else 'n%d' % i} for i, (t, a, d) in enumerate(sibs)]}]}]
            + [{'t': 'special', 'x': None if serial & 1 else 's%d' % i} for i in range(serial)]}
        doc = self.load(tree, True)
        if len(doc.root.findall('special')) != serial: return "of %d siblings that may be repeated %d are left" % (serial, len(doc.root.findall('special')))
        par = doc.root.find('localeDisplayNames/languages')
        name = lambda e: (getattr(e, 'comments', None) or ['nothing'])[0]
        rate = lambda d: dd if d is None else d
        groups = {}
        for i, (t, a, d) in enumerate(sibs): groups.setdefault(t, {}).setdefault(a, []).append(i)
        got = {}
        for c in par:
            if c.get('type') in got: return "siblings %r: more than one %r is left" % (sibs, c.get('type'))
            got[c.get('type')] = c
        if set(got) != set(groups): return "siblings %r: %r are left" % (sibs, sorted(got))
        for t, g in groups.items():
            def winners(ix):
                b = min(rate(sibs[i][2]) for i in ix)
                res = {}
                for i in ix:
                    if rate(sibs[i][2]) == b: res.setdefault(sibs[i][2], i)
                return {'n%d' % i for i in res.values()}
            h = got[t]
            al = {k: name(v) for k, v in getattr(h, 'alternates', {}).items()}
            if None in g:
                pa = None
                if name(h) not in winners(g[None]): return "siblings %r: the primary is %s, not %r" % (sibs, name(h), winners(g[None]))
            else:
                pa = h.get('alt')
                best = min(rate(sibs[i][2]) for ix in g.values() for i in ix)
                i = int(name(h)[1:])
                if rate(sibs[i][2]) != best: return "siblings %r (default %s): the primary is %s though there is a better draft" % (sibs, DR[dd], name(h))
                pa = sibs[i][1]
                if name(h) not in winners(g[pa]): return "siblings %r: the primary %s is not the first of its alt" % (sibs, name(h))
            if set(al) != set(g) - {pa}: return "siblings %r: the alternates of %s are %r" % (sibs, name(h), al)
            for k in al:
                if al[k] not in winners(g[k]): return "siblings %r (default %s): the alternate under %s is %s, not %r" % (sibs, DR[dd], k, al[k], winners(g[k]))

@register
class C15(_Ldml):
    id = 'C15'; strict = False
    rule = "pairs of elements differing in one or two of tag, attributes, attribute order, text, children; classifications of 6 attributes by tag"
    bound = "exhaustive over one attribute on each side with each classification; random beyond"
    def setup(self):
        super().setup()
        need(self.l.Ldml, '_calc_hashes')
    AT = ['type', 'alt', 'draft', 'foo', 'bar', '{u}x', '{urn://www.sil.org/ldml/0.1}modified']
    def exhaustive(self, tier):
        for k in ('type', 'draft', 'alt', 'foo'):
            for cl in itertools.product((0, 1), repeat=3):
                for v1, v2 in (('1', '1'), ('1', '2'), ('1', None), ('', None), ('', '1')):
                    for dr in (0, 1):
                        a = {'t': 'a', 'a': [] if v1 is None else [[k, v1]], 'x': None, 'c': []}
                        b = {'t': 'a', 'a': [] if v2 is None else [[k, v2]], 'x': None, 'c': []}
                        yield [[k] if cl[0] else [], {'a': [k]} if cl[1] else {}, {'a': [k]} if cl[2] else {}, a, b, dr]
    def elem(self, rng, D, depth=0):
        at = [[k, rng.choice(('1', '2', '', rstr(rng, D, small=2)))] for k in rng.sample(self.AT, rng.randint(0, 4))]
        return {'t': rng.choice('ab'), 'a': at, 'x': rng.choice((None, 'x', 'x\ny', 'xy', rstr(rng, D, small=3))), 'c': [self.elem(rng, D, depth + 1) for _ in range(rng.choice((0, 0, 0, 1, 2)))] if depth < 2 else []}
    def random(self, rng, D):
        a = self.elem(rng, D)
        b = json.loads(json.dumps(a))
        for _ in range(rng.choice((0, 1, 1, 2))):
            r = rng.randrange(7)
            if r == 0: b['t'] = rng.choice('ab')
            elif r == 1 and b['a']: rng.choice(b['a'])[1] = rng.choice(('1', '2', '3', ''))
            elif r == 2: rng.shuffle(b['a'])
            elif r == 3: b['x'] = rng.choice((None, 'x', 'y\nx', 'z'))
            elif r == 4: b['c'] = [self.elem(rng, D, 2) for _ in range(rng.randint(0, 2))]
            elif r == 5 and b['a']: b['a'].pop(rng.randrange(len(b['a'])))
            elif r == 6:
                k = rng.choice(self.AT)
                if k not in [x[0] for x in b['a']]: b['a'].insert(0, [k, '1'])
        pick = lambda: rng.sample(self.AT, rng.randint(0, 3))
        return [pick(), {t: pick() for t in rng.sample('ab', rng.randint(0, 2))}, {t: pick() for t in rng.sample('ab', rng.randint(0, 2))}, a, b, rng.randrange(2)]
    def valid(self, c):
        def ok(e): return e['t'] in ('a', 'b') and len({k for k, v in e['a']}) == len(e['a']) and all(k in self.AT for k, v in e['a']) and all(map(ok, e['c']))
        return ok(c[3]) and ok(c[4]) and set(c[1]) | set(c[2]) <= {'a', 'b'} and set(c[0]) | set(sum(list(c[1].values()) + list(c[2].values()), [])) <= set(self.AT)
    def check(self, case):
        keys, non, ctx, a, b, dr = case
        class L(self.l.Ldml): pass
        L.keys, L.nonkeyContexts, L.keyContexts = set(keys), {k: set(v) for k, v in non.items()}, {k: set(v) for k, v in ctx.items()}
        doc = self.l.Ldml.__new__(L)
        doc.useDrafts = bool(dr)
        fac = getattr(ET, '_Element_Py', None)
        if fac is None: raise Skip('no _Element_Py')
        def build(e):
            n = fac(e['t'], dict(map(tuple, e['a'])))
            n.text = e['x']
            for c in e['c']: n.append(build(c))
            doc._calc_hashes(n, usedrafts=bool(dr))
            return n
        def lines(x): return [l for l in x.split('\n')] if x else None
        def ident(e):
            d = (set(keys) - set(non.get(e['t'], ()))) | set(ctx.get(e['t'], ()))
            if dr: d -= {'draft', 'alt'}
            return [e['t'], sorted([k, v] for k, v in e['a'] if k in d)]
        def content(e):
            d = (set(keys) - set(non.get(e['t'], ()))) | set(ctx.get(e['t'], ()))
            if dr: d |= {'draft', 'alt'}
            return [ident(e), sorted([k, v] for k, v in e['a'] if k not in d), lines(e['x']), [content(c) for c in e['c']]]
        def degenerate(e): return bool(e['x']) and not e['x'].strip('\n') or any(map(degenerate, e['c']))
        na, nb = build(a), build(b)
        same = ident(a) == ident(b)
        if (na.attrHash == nb.attrHash) != same or same and hash(na.attrHash) != hash(nb.attrHash):
            return "with distinguishing attributes %r, %r and not %r, %s drafts: %r and %r have %s identity" % (keys, ctx, non, 'with' if dr else 'without', a, b, 'another' if same else 'the same')
        if degenerate(a) or degenerate(b): return None
        same = content(a) == content(b)
        if (na.contentHash == nb.contentHash) != same or same and hash(na.contentHash) != hash(nb.contentHash):
            return "with distinguishing attributes %r, %r and not %r, %s drafts: %r and %r have %s content" % (keys, ctx, non, 'with' if dr else 'without', a, b, 'another' if same else 'the same')
        if hasattr(doc, '_distattributes'):
            for e, n in ((a, na), (b, nb)):
                d = (set(keys) - set(non.get(e['t'], ()))) | set(ctx.get(e['t'], ()))
                if dr: d -= {'draft'}
                if set(doc._distattributes(e['t'], bool(dr))) != d: return "the distinguishing attributes of %s are %r, not %r" % (e['t'], doc._distattributes(e['t'], bool(dr)), d)

@register
class C33(_Ldml):
    id = 'C33'
    rule = "documents of up to three levels and histories of 1-5 paths of 1-4 steps with 0-5 attribute tests, with and without drafts"
    bound = "random histories"
    ST = ['a', 'b', 'languages', 'language', 'sil:note', 'special', 'identity', 'sil:identity', 'characters', 'exemplarCharacters']
    def distinguishing(self, tag, k, dr):
        t = clark(tag)
        if k in ('alt', 'draft'): return False
        if not dr: return True
        L = self.l.Ldml
        return clark(k) in (set(L.keys) - set(L.nonkeyContexts.get(t, ()))) | set(L.keyContexts.get(t, ()))
    def random(self, rng, D):
        dr = rng.randrange(2)
        ks = ['type', 'x', 'sil:k', 'foo', 'id', 'key', 'number']
        vals = ['1', '12', 'en', 'eng', 'EN', 'a b', '\u00e9', ' p', 'q ', 'a=b', '=']
        if D.fstrs: vals += [v for v in D.fstrs if v and not set(v) & set('"\'[]/\n\r\t')]
        def step():
            t = rng.choice(self.ST)
            return [t, [[k, rng.choice(vals)] for k in rng.sample(ks, rng.choice((0, 0, 1, 1, 2, 2, 3, 5))) if self.distinguishing(t, k, dr)]]
        def tree(depth, tag):
            cs = [tree(depth + 1, rng.choice(self.ST)) for _ in range(rng.randint(0, 3))] if depth < 3 else []
            return {'t': tag, 'a': dict(map(tuple, step()[1])) if depth else {}, 'c': cs}
        def path(): return [step() for _ in range(min(max(1, D.length(rng, 4, 4)), 12))]
        ps = [path() for _ in range(rng.randint(1, 5))]
        if rng.random() < .5: ps.append(ps[0][:rng.randint(1, len(ps[0]))] + path()[:2])
        return [tree(0, 'ldml'), dr, ps]
    def valid(self, c):
        return c[0]['t'] == 'ldml' and c[1] in (0, 1) and all(n['t'] in self.ST + ['ldml'] for n in nodes(c[0])) and all(p and all(len(s) == 2 and s[0] in self.ST and all(k and v and not set(v) & set('"\'[]/') and self.distinguishing(s[0], k, c[1]) for k, v in s[1]) and len({k for k, v in s[1]}) == len(s[1]) for s in p) for p in c[2])
    def check(self, case):
        tree, dr, paths = case
        doc = self.load(tree, bool(dr))
        def snap(): return [(id(n), n.tag, sorted(n.attrib.items()), n.text, id(p)) for p in doc.root.iter() for n in p] + [sorted((k, id(v)) for k, v in getattr(n, 'alternates', {}).items()) for n in doc.root.iter()]
        keep = []
        for i, p in enumerate(paths):
            text = '/'.join(t + ''.join('[@%s="%s"]' % (k, v) for k, v in at) for t, at in p)
            keep.append(list(doc.root.iter()))
            before = [(n, n.tag, dict(n.attrib), q) for q in doc.root.iter() for n in q]
            order = [(q, list(q)) for q in doc.root.iter()]
            at = "paths %r: " % [['/'.join(t + ''.join('[@%s="%s"]' % (k, v) for k, v in a) for t, a in q)] for q in paths[:i+1]]
            pre = doc.find(text)
            res = doc.ensure_path(text)
            if not res: return at + "ensure_path returns nothing"
            if pre is not None and res[0] is not pre: return at + "ensure_path does not return the node that find found"
            now = {id(n): id(q) for q in doc.root.iter() for n in q}
            for n, t, a, q in before:
                if now.get(id(n)) != id(q): return at + "the element %s is gone from where it was" % t
                if n.tag != t or dict(n.attrib) != a: return at + "the element %s has changed" % t
            for q, cs in order:
                if [c for c in q if any(c is x for x in cs)] != cs: return at + "the children of %s have another order" % q.tag
            if pre is not None and len(now) != len(before): return at + "elements were added though the path was there"
            if id(res[0]) not in now: return at + "the node returned is not in the document"
            f = doc.find(text)
            if f is not res[0]: return at + "find gives %r, not the node ensured" % f
            e = doc.root
            chain = []
            n = res[0]
            while n is not doc.root and n is not None and len(chain) < 50:
                chain.insert(0, n); n = getattr(n, 'parent', None)
            if len(chain) != len(p) or any(c.tag != clark(t) or any(c.get(clark(k)) != v for k, v in a) for c, (t, a) in zip(chain, p)): return at + "the node returned is not at the path"
            s = snap()
            r2 = doc.ensure_path(text)
            if len(r2) != len(res) or any(x is not y for x, y in zip(r2, res)): return at + "ensuring it again returns other nodes"
            if snap() != s: return at + "ensuring it again changes the document"

@register
class C34(_Ldml):
    id = 'C34'
    rule = "trees of up to four levels with siblings that differ in name or attributes, each with a random permutation of the siblings"
    bound = "random trees and permutations"
    def random(self, rng, D):
        t = rtree(rng, D, self.serial, drafts=False)
        for n in nodes(t): n['k'] = []; n['e'] = []
        for _ in range(rng.choice((0, 1, 3))):        # siblings that are nearly the same
            n = rng.choice(list(nodes(t)))
            if n['c']:
                c = json.loads(json.dumps(rng.choice(n['c'])))
                for k in rng.sample(['type', 'number', 'path', 'references', 'name', 'zz', 'yy'], rng.choice((1, 1, 4, 6))):
                    if k not in c['a'] or rng.random() < .3: c['a'][k] = rng.choice(('standard-one', 'standard-two', 'a', '1', '12'))
                n['c'].append(c)
                c = json.loads(json.dumps(c))
                if c['a']:
                    k = rng.choice(sorted(c['a'])); c['a'][k] += rng.choice(('1', 'b', ' z'))
                    n['c'].append(c)
        self.fix(t)
        return [t, rng.randrange(10**6)]
    def fix(self, t):
        for n in nodes(t):
            seen = set(); cs = []
            for c in n.get('c', ()):
                k = self.key(c)
                if k not in seen: seen.add(k); cs.append(c)
            n['c'] = cs
            n['a'] = {k: v for k, v in n.get('a', {}).items() if v and k != 'alt' and k != 'draft' and re.match(r'^((sil|xml):)?[A-Za-z_][\w.-]*$', k, re.A)}
            if cs: n['x'] = None
    def key(self, n): return (n['t'], tuple(sorted((k, v.lower()) for k, v in n.get('a', {}).items() if k not in ('alt', 'draft'))))
    def valid(self, c):
        t = json.loads(json.dumps(c[0]))
        if t['t'] != 'ldml': return False
        for n in nodes(t):
            for k in 'acx': n.setdefault(k, {'a': {}, 'c': [], 'x': None}[k])
            if not re.match(r'^(sil:)?[A-Za-z_][\w.-]*$', n['t'], re.A): return False
        u = json.loads(json.dumps(t)); self.fix(u)
        return t == u and all(xmlok(n['x'] or '') == (n['x'] or '') and all(xmlok(v) == v for v in n['a'].values()) for n in nodes(t))
    def check(self, case):
        t, seed = case
        def perm(n, r):
            cs = [perm(c, r) for c in n.get('c', ())]
            r.shuffle(cs)
            at = list(n.get('a', {}).items())
            r.shuffle(at)       # the order of attributes means nothing
            return dict(n, c=cs, a=dict(at))
        def dmp(n): return [n.tag, dict(n.attrib), normtext(n.text) if not len(n) else '', [dmp(c) for c in n]]
        def can(x): return [x[0], x[1], x[2], sorted(map(can, x[3]), key=repr)]
        def mod(n): return [clark(n['t']), {clark(k): v for k, v in n.get('a', {}).items()}, normtext(n.get('x')) if not n.get('c') else '', [mod(c) for c in n.get('c', ())]]
        doc = self.load(t, False)
        d = dmp(doc.root)
        raw = lambda: [[n.tag, sorted(n.attrib.items()), n.text, n.tail] for n in doc.root.iter()]
        d1 = raw()
        m = firstdiff(can(mod(t)), can(d))
        if m: return "normalising changes the elements: " + m
        EO, mx = self.l.Ldml.elementOrder, self.l.Ldml.maxEls
        def ordered(n):
            ks = [(EO.get(n.tag, {}).get(c.tag, mx), c.tag) for c in n]
            if ks != sorted(ks): return "the children of %s are in the order %r" % (n.tag, [c.tag for c in n])
            for c in n:
                m = ordered(c)
                if m: return m
        m = ordered(doc.root)
        if m: return m
        r = random.Random(seed)
        for k in range(3):
            t2 = perm(t, r)
            doc2 = self.load(t2, False)
            m = firstdiff(d, dmp(doc2.root))
            if m: return "from another order of siblings %r: %s" % (mod(t2), m)
        doc.normalise(doc.root, usedrafts=False)
        m = firstdiff(d, dmp(doc.root))
        if m: return "normalising twice: " + m
        d2 = raw()
        for x, y in zip(d1, d2):
            if x != y: return "normalising twice makes %r of %r" % (y, x)
