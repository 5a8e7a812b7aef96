"""C16-C19, C37: merging LDML documents."""
import io, re, itertools
from base import *
import g_ldml
from g_ldml import _Ldml, toxml, clark, normtext, nodes, firstdiff, xmlok, DR, SIL, LD, XP
LM = "lib/sldr/ldml_merge.py"

class _Merge(_Ldml):
    files = [LM, LD]
    def setup(self):
        super().setup()
        import sldr.ldml_merge as m
        self.m = m
    def loadm(self, tree, drafts, **kw):
        return self.m.LdmlMerge(io.BytesIO(('<?xml version="1.0" encoding="utf-8"?>' + toxml(tree)).encode()), usedrafts=drafts, **kw)

def dmp(n, alts=True):
    return [n.tag, dict(n.attrib), normtext(n.text) if not len(n) else '', [dmp(c, alts) for c in n]] + ([{k: dmp(v, False) for k, v in getattr(n, 'alternates', {}).items()}] if alts else [])
def can(x):
    return [x[0], x[1], x[2], sorted(map(can, x[3]), key=repr)] + x[4:]

ATT = ['p', 'q', 'r']
@register
class C16(_Merge):
    id = 'C16'
    rule = "three maps over up to three attributes and three values and three texts, with and without base and other, merged as single nodes and as parts of documents"
    bound = "exhaustive over one attribute with absent or three values on each side and all combinations of a second; random beyond"
    def exhaustive(self, tier):
        v = [None, '1', '2', '3']
        for t in itertools.product(v, repeat=3):
            for bn, on in ((0, 0), (1, 0), (0, 1)):
                for dr in (0, 1):
                    yield [[['p'] + list(t)], bn, on, dr]
                    for tx in ('aab', 'aba', 'baa', 'abc'): yield [[['p'] + list(t)], bn, on, dr, list(tx)]
        for t in itertools.product(v[:3], repeat=6):
            yield [[['p'] + list(t[:3]), ['q'] + list(t[3:])], 0, 0, 0]
    def random(self, rng, D):
        n = min(D.length(rng, 4, 5), 12)
        vals = [None, '1', '1', '2', '3', rstr(rng, D, small=2)]
        names = ATT + ['foo', 'type', '{u}x', 'Clash'] + ['k%d' % i for i in range(8)]
        for s in D.fstrs:
            if re.match(r'^[a-z]+$', s) and s not in ('alt', 'draft', 'text'): names.append(s)
        ks = rng.sample(sorted(set(names)), n)
        return [[[k] + [rng.choice(vals) for _ in range(3)] for k in ks], rng.random() < .15, rng.random() < .1, rng.randrange(2)] + ([[rng.choice('abc') for _ in range(3)]] if rng.random() < .5 else [])
    def valid(self, c): return len(c) in (4, 5) and (len(c) == 4 or len(c[4]) == 3) and len({x[0] for x in c[0]}) == len(c[0]) and all(len(x) == 4 and x[0] not in ('alt', 'draft') and x[0] for x in c[0])
    def expect(self, rows, nob, noo):
        exp, clash, anyof = {}, set(), set()
        for k, t, o, b in rows:
            if nob: b = None
            if noo: o = None
            if t == o: r = t
            elif t == b: r = o
            elif o == b: r = t
            elif t is not None and o is not None: r = t; clash.add(k)
            else: anyof.add(k); continue
            if r is not None: exp[k] = r
        return exp, clash, anyof
    def judge(self, rows, nob, noo, node, what):
        exp, clash, anyof = self.expect(rows, nob, noo)
        got = {k: v for k, v in node.attrib.items() if k not in anyof and k not in ('alt', 'draft')}
        if got != exp: return "%s: the attributes (name, ours, other, base) %r become %r, not %r" % (what, rows, got, exp)
        cl = re.findall(r'Attribute \((.*?)\) clash', '\n'.join(getattr(node, 'comments', None) or []), re.S)
        if sorted(c for c in cl if c not in anyof) != sorted(clash): return "%s: the attributes (name, ours, other, base) %r record clashes %r, not %r" % (what, rows, cl, sorted(clash))
    def check(self, case):
        rows, nob, noo, dr = case[:4]
        tx = case[4] if len(case) > 4 else [None] * 3
        doc = self.m.LdmlMerge(None, usedrafts=bool(dr))
        mk = doc.root.makeelement
        ns = []
        for i in (1, 2, 3):
            n = mk('zz', {r[0]: r[i] for r in rows if r[i] is not None})
            n.text = tx[i - 1]
            n.document = doc; doc._calc_hashes(n, usedrafts=bool(dr))
            ns.append(n)
        t, o, b = ns
        doc.root.append(t); t.parent = doc.root
        snap = [dict(o.attrib), dict(b.attrib)]
        doc.merge(None if noo else o, None if nob else b, t)
        m = self.judge(rows, nob, noo, t, 'merge of nodes')
        if m: return m
        if any(c.startswith('Clash: ') for c in getattr(t, 'comments', None) or []) != (not nob and not noo and len(set(tx)) == 3):
            return "merging the texts (ours, other, base) %r gives the comments %r" % (tx, getattr(t, 'comments', None))
        if [dict(o.attrib), dict(b.attrib)] != snap: return "merge changes the other or base node"
        # as parts of documents: x is changed in text on both sides so that the merge recurses
        rows = [r for r in rows if re.match(r'^[A-Za-z]\w*$', r[0], re.A) and not any(v is not None and xmlok(v) != v for v in r[1:]) and not r[0].lower().startswith('xml') and r[0] != 'type']
        if nob or noo: return None
        def tree(i, cs):
            return {'t': 'ldml', 'c': [{'t': 'foo', 'c': [{'t': 'zz', 'a': {r[0]: r[i] for r in rows if r[i] is not None}, 'c': cs}]}]}
        docs = [self.loadm(tree(i, [{'t': 'k', 'x': x}] if x else []), False) for i, x in ((1, 'a'), (2, 'b'), (3, ''))]
        docs[0].merge(docs[1], docs[2])
        z = docs[0].root.findall('foo/zz')
        if len(z) != 1: return "merging documents gives %d nodes with attributes %r" % (len(z), rows)
        return self.judge(rows, 0, 0, z[0], 'merge of documents')

@register
class C17(_Merge):
    id = 'C17'; strict = False
    rule = "three lists of 0-6 children with three identities and three contents, with and without base and other"
    bound = "exhaustive over lists of at most 2 of 2 identities with 2 contents; random beyond"
    def setup(self):
        super().setup()
        need(self.m.LdmlMerge, '_align')
    def exhaustive(self, tier):
        al = [['a', '1'], ['a', '2'], ['b', '1']]
        ls = [list(t) for n in range(3) for t in itertools.product(al, repeat=n)]
        for a, b, c in itertools.product(ls, repeat=3):
            yield [a, b, c]
        for a, b in itertools.product(ls, repeat=2): yield [a, b, None]; yield [a, None, b]
    def random(self, rng, D):
        ids = 'ab' if rng.random() < .5 else 'aab'
        l = lambda: [[rng.choice(ids + 'c'), rng.choice('1234' if rng.random() < .5 else '12')] for _ in range(min(D.length(rng, 6, 9), 40))]
        c = [l(), None if rng.random() < .05 else l(), None if rng.random() < .15 else l()]
        if rng.random() < .5:
            c.append(rng.choice(['collation', 'script', 'calendar', 'exemplarCharacters', 'special'] + [t for t in D.fstrs if re.fullmatch('[A-Za-z]{2,30}', t)]))
        return c
    def valid(self, c): return len(c) in (3, 4) and c[0] is not None and all(l is None or all(len(x) == 2 and x[0] and x[1] for x in l) for l in c[:3]) and (len(c) < 4 or re.fullmatch('[A-Za-z]{2,30}', c[3] or '') is not None)
    def check(self, case):
        tag = case[3] if len(case) > 3 else 'language'
        doc = self.m.LdmlMerge(None, usedrafts=False)
        def mk(l):
            if l is None: return None
            p = doc.root.makeelement(tag + 's', {}); p.document = doc
            for t, x in l:
                e = p.makeelement(tag, {'type': t}); e.text = x; e.parent = p; e.document = doc
                p.append(e)
            for e in p: doc._calc_hashes(e)
            doc._calc_hashes(p)
            return p
        if tag != 'language' and len({e.attrHash for e in mk([['a', '1'], ['b', '1']])}) < 2: return None     # type does not tell these elements apart
        this, other, base = map(mk, case[:3])
        ours = list(this)
        others = list(other) if other is not None else []
        bases = list(base) if base is not None else []
        key = lambda e: (e.get('type'), e.text)
        doc._align(this, other, base)
        if list(this)[:len(ours)] != ours or any(a is not b for a, b in zip(this, ours)): return "aligning %r: our children changed" % case
        if other is not None and list(other) != others or base is not None and list(base) != bases: return "aligning %r: the children of other or base changed" % case
        po, pb = [], []
        for t in ours:
            for nm, lst, src in (('mergeOther', po, others), ('mergeBase', pb, bases)):
                x = getattr(t, nm)
                if x is None: continue
                if not any(x is y for y in src): return "aligning %r: %r is paired with a node that is not in that document" % (case, key(t))
                if any(x is y for y in lst): return "aligning %r: %r is paired twice" % (case, key(x))
                lst.append(x)
                if x.get('type') != t.get('type'): return "aligning %r: %r is paired with %r" % (case, key(t), key(x))
        added = list(this)[len(ours):]
        for t in added:
            x = getattr(t, 'mergeBase', None)
            if getattr(t, 'mergeOther', None) is not None: return "aligning %r: the added %r is paired with another" % (case, key(t))
            if x is not None:
                if not any(x is y for y in bases): return "aligning %r: %r is paired with a node that is not in the base" % (case, key(t))
                if any(x is y for y in pb): return "aligning %r: %r of the base is paired twice" % (case, key(x))
                pb.append(x)
                if x.get('type') != t.get('type'): return "aligning %r: added %r is paired with %r" % (case, key(t), key(x))
        for c in {key(t) for t in ours} & {key(o) for o in others}:
            if not any(t.mergeOther is not None and key(t) == c == key(t.mergeOther) for t in ours): return "aligning %r: %r is in both and not paired" % (case, c)
        for c in {key(t) for t in ours} & {key(o) for o in bases}:
            if not any(t.mergeBase is not None and key(t) == c == key(t.mergeBase) for t in ours): return "aligning %r: %r is in ours and base and not paired" % (case, c)
        left = {key(o) for o in others} - {key(o) for o in po}
        if sorted(key(t) for t in added) != sorted(left): return "aligning %r: %r are added, not %r" % (case, [key(t) for t in added], sorted(left))
        if any(any(t is o for o in others) for t in added) and any(o.parent is not other for o in others): return "aligning %r: a child of the other was moved" % case
        paired = {key(b) for b in pb}
        for t in ours:
            if t.mergeOther is not None and (t.mergeBase is None or key(t.mergeBase) != key(t)) and key(t.mergeOther) in {key(b) for b in bases} - paired: return "aligning %r: the base has the %r that %r is paired with, and is not paired with them" % (case, key(t.mergeOther), key(t))
        for t in ours:
            if t.mergeOther is None and t.get('type') in {k[0] for k in left}: return "aligning %r: %r is not paired though a node with its identity is left over" % (case, key(t))

def utree(rng, D, depth=0, tag='ldml', empties=False):
    """siblings differ in identity"""
    n = {'t': tag, 'a': {}, 'x': None, 'c': []}
    opts = {'ldml': ['localeDisplayNames', 'characters', 'numbers', 'foo'], 'localeDisplayNames': ['languages', 'scripts', 'territories'], 'languages': ['language'], 'scripts': ['script'],
            'territories': ['territory'], 'characters': ['exemplarCharacters', 'ellipsis'], 'numbers': ['symbols', 'defaultNumberingSystem'], 'symbols': ['decimal', 'group'], 'foo': ['bar', 'baz'], 'special': ['sil:note', 'sil:kbd', 'baz'],
            'identity': ['version', 'language', 'script'], 'collations': ['collation', 'collation', 'defaultCollation'], 'collation': ['cr', 'suppress_contractions']}.get(tag) if rng.random() < .95 else None
    if tag == 'ldml':
        opts = (opts or ['foo']) + ['special', 'identity', 'collations'] + [t for t in D.fstrs if re.fullmatch('[A-Za-z]{2,20}', t) and t != 'identity' and t != 'alias']
    if opts:
        seen = set()
        for _ in range(min(D.length(rng, 4, 6), 30) + (depth == 0)):
            c = utree(rng, D, depth + 1, rng.choice(opts), empties)
            k = (c['t'], c['a'].get('type'))
            if k not in seen: seen.add(k); n['c'].append(c)
        if tag == 'collation': n['a']['type'] = rng.choice(('standard', 'phonebook'))
        if not n['c']: n['x'] = None
    else:
        if tag in ('language', 'script', 'territory', 'exemplarCharacters'): n['a']['type'] = rng.choice(('a', 'b', 'c', rng.choice('defghijklmn') + rng.choice('abcdefghijklm')))
        n['x'] = rng.choice(('1', '2', '3', 'x y', xmlok(rstr(rng, D, small=3, min=1)).replace('\u2191', '') or '1', '1'))
        if not normtext(n['x']): n['x'] = '1'
        if rng.random() < .15: n['a']['zz'] = rng.choice('12')
        if empties and rng.random() < .2: n['x'] = None; n['a'].pop('zz', None)
    return n
def mutate(rng, D, t, k):
    t = json.loads(json.dumps(t))
    for _ in range(k):
        ns = [n for n in nodes(t)]
        n = rng.choice(ns)
        r = rng.random()
        if r < .35 and n['x'] is not None: n['x'] = rng.choice(('1', '2', '3', '4', 'new'))
        elif r < .5 and n['c']: n['c'].pop(rng.randrange(len(n['c'])))
        elif r < .8 and n['c']:
            o = utree(rng, D)
            m = next((x for x in nodes(o) if x['t'] == n['t']), None)
            for c in (m or {'c': []})['c']:
                if (c['t'], c['a'].get('type')) not in {(x['t'], x['a'].get('type')) for x in n['c']}: n['c'].append(c)
        elif r < .9 and not n['c']: n['a']['zz'] = rng.choice('123')
        else: n['a'].pop('zz', None)
    return t
class _Trees(_Merge):
    def okt(self, t):
        if t['t'] != 'ldml': return False
        for n in nodes(t):
            if n['t'] not in OKT or set(n['a']) - {'type', 'zz', 'draft'} or n['x'] is not None and n['c']: return False
            if n['a'].get('draft', 'suspect') not in DR: return False
            ks = [(c['t'], c['a'].get('type')) for c in n['c']]
            if len(set(ks)) != len(ks): return False
            if xmlok(n['x'] or '') != (n['x'] or '') or any(xmlok(v) != v or not v for v in n['a'].values()): return False
        return True
BLOCKS = ('identity', 'collation')
OKT = {'special', 'sil:note', 'sil:kbd', 'identity', 'collations', 'collation', 'defaultCollation', 'cr', 'suppress_contractions', 'version', 'ldml', 'localeDisplayNames', 'characters', 'numbers', 'foo', 'languages', 'scripts', 'territories', 'language', 'script', 'territory', 'exemplarCharacters', 'ellipsis', 'symbols', 'defaultNumberingSystem', 'decimal', 'group', 'bar', 'baz'}

@register
class C18(_Trees):
    id = 'C18'
    rule = "pairs of documents, the second the first after 0-6 changes (text, attributes, nodes added and removed) or unrelated; merged with and without drafts"
    bound = "random pairs"
    def random(self, rng, D):
        a = utree(rng, D)
        b = mutate(rng, D, a, rng.choice((0, 1, 1, 2, 3, 6))) if rng.random() < .85 else utree(rng, D)
        dr = rng.random() < .4
        if dr and rng.random() < .7:
            for t in (a, b):
                for n in nodes(t):
                    if n['x'] is not None and rng.random() < .6: n['a']['draft'] = rng.choice(DR)
        if dr: self.nobetter(a, b)
        return [a, b, int(dr)]
    def nobetter(self, a, b):
        """gives ours the better of two drafts; true if it had it everywhere"""
        rate = lambda n: DR.index(n['a'].get('draft', 'unconfirmed'))
        ok = rate(a) <= rate(b)
        if not ok:
            x, y = a['a'].pop('draft', None), b['a'].pop('draft', None)
            if y: a['a']['draft'] = y
            if x: b['a']['draft'] = x
        d = {(c['t'], c['a'].get('type')): c for c in b['c']}
        for c in a['c']:
            k = (c['t'], c['a'].get('type'))
            if k in d and not self.nobetter(c, d[k]): ok = False
        return ok
    def valid(self, c): return self.okt(c[0]) and self.okt(c[1]) and (c[2] == 0 or c[2] == 1 and self.nobetter(*json.loads(json.dumps(c[:2]))))
    def check(self, case):
        a, b, dr = case
        def L(t): return self.loadm(t, bool(dr))
        ours, other, base = L(a), L(b), L(b)
        d = dmp(ours.root)
        ours.merge(other, base)
        m = firstdiff(d, dmp(ours.root))
        if m: return "merging %r with an unchanged other %r: %s" % (toxml(a), toxml(b), m)
        if dmp(other.root) != dmp(L(b).root) or dmp(base.root) != dmp(L(b).root): return "merging changes the other document or the base"
        ours = L(a)
        ours.merge(L(a), None); m = firstdiff(d, dmp(ours.root))
        if m: return "merging %r with itself without a base: %s" % (toxml(a), m)
        if dr: return None
        ours, other, base = L(a), L(b), L(a)
        ours.merge(other, base)
        m = firstdiff(can(dmp(L(b).root)), can(dmp(ours.root)))
        if m: return "merging the unchanged %r with %r: %s" % (toxml(a), toxml(b), m)

def paths(n, L, pre=()):
    for c in n:
        k = pre + ((c.tag, c.get('type')),)
        yield k, c
        yield from paths(c, L, k)

@register
class C19(_Trees):
    id = 'C19'
    rule = "pairs of documents without the font resource block, siblings of different identity, some of ours marked as inherited"
    bound = "random pairs"
    def random(self, rng, D):
        a = utree(rng, D, empties=True)
        b = mutate(rng, D, a, rng.choice((1, 2, 3, 6))) if rng.random() < .6 else utree(rng, D, empties=True)
        up = int(rng.random() < .3)
        if up:
            for n in nodes(a):
                if n['x'] is not None and rng.random() < .3: n['x'] = '\u2191\u2191\u2191'
        dr = rng.randrange(2)
        if dr and rng.random() < .5:
            for t in (a, b):
                for n in nodes(t):
                    if n['x'] is not None and rng.random() < .5: n['a']['draft'] = rng.choice(DR)
        return [a, b, dr, up]
    def valid(self, c): return self.okt(c[0]) and self.okt(c[1]) and (c[2] or not any('draft' in n['a'] for t in c[:2] for n in nodes(t)))
    def check(self, case):
        a, b, dr, up = case
        ours, other = self.loadm(a, bool(dr), uparrows=bool(up)), self.loadm(b, bool(dr), uparrows=bool(up))
        po = {k: (dict(c.attrib), normtext(c.text), len(c)) for k, c in paths(ours.root, 0)}
        px = {k: (dict(c.attrib), normtext(c.text), len(c)) for k, c in paths(other.root, 0)}
        inblock = lambda k: any(t in BLOCKS for t, y in k)
        blocks = lambda doc: {k: can(dmp(c)) for k, c in paths(doc.root, 0) if k[-1][0] in BLOCKS}
        bo, bx = blocks(ours), blocks(other)
        order = {k: [(c.tag, c.get('type')) for c in n] for k, n in [((), ours.root)] + list(paths(ours.root, 0))}
        ours.overlay(other)
        pr = {}
        for k, c in paths(ours.root, 0):
            if k in pr: return "overlaying %r on %r gives %s twice" % (toxml(b), toxml(a), k)
            pr[k] = (dict(c.attrib), normtext(c.text), len(c))
        at = "overlaying %r on %r: " % (toxml(b), toxml(a))
        br = blocks(ours)
        for k, v in bo.items():
            if br.get(k) != v: return at + "%s is %r, not %r" % (k, br.get(k), v)
        for k, v in br.items():
            if k not in bo and bx.get(k) != v: return at + "%s is %r, not all of the other's" % (k, v)
        pr, po, px = ({k: v for k, v in d.items() if not inblock(k)} for d in (pr, po, px))
        for k, v in po.items():
            if k not in pr: return at + "%s is lost" % (k,)
            if v[1] and v[1] != '\u2191\u2191\u2191' and not v[2] and pr[k][:2] != v[:2]: return at + "%s is %r, not %r" % (k, pr[k][:2], v[:2])
            if v[1] == '\u2191\u2191\u2191' and not v[2] and k in px and px[k][1] and not px[k][2] and pr[k][1] != px[k][1]: return at + "the inherited %s is %r, not %r" % (k, pr[k][1], px[k][1])
            if (v[2] or v[1] == '\u2191\u2191\u2191') and pr[k][0] != v[0]: return at + "the attributes of %s are %r, not %r" % (k, pr[k][0], v[0])
        for k, v in px.items():
            if k not in pr: return at + "%s is not there" % (k,)
            if k not in po and pr[k][:2] != v[:2]: return at + "%s is %r, not %r" % (k, pr[k][:2], v[:2])
        for k in pr:
            if k not in po and k not in px: return at + "%s is in neither" % (k,)

@register
class C37(_Trees):
    id = 'C37'
    rule = "pairs of documents with siblings of different identity: the second the first after 0-6 changes, or unrelated"
    bound = "random pairs"
    def random(self, rng, D):
        a = utree(rng, D)
        b = mutate(rng, D, a, rng.choice((1, 2, 3, 6))) if rng.random() < .8 else utree(rng, D)
        return [a, b]
    def valid(self, c): return self.okt(c[0]) and self.okt(c[1])
    def check(self, case):
        a, b = case
        L = lambda t: self.loadm(t, False)
        full = L(a); full.overlay(L(b))
        diff = L(a); diff.difference(L(b))
        at = "%r without what is in %r: " % (toxml(a), toxml(b))
        pa = {k: (dict(c.attrib), normtext(c.text), len(c)) for k, c in paths(L(a).root, 0)}
        pb = {k: (dict(c.attrib), normtext(c.text), len(c)) for k, c in paths(L(b).root, 0)}
        pd = {k: (dict(c.attrib), normtext(c.text), len(c)) for k, c in paths(diff.root, 0)}
        inblock = lambda k: any(t in BLOCKS for t, y in k)
        blocks = lambda doc: {k: can(dmp(c)) for k, c in paths(doc.root, 0) if k[-1][0] in BLOCKS}
        ba, bb, bd = blocks(L(a)), blocks(L(b)), blocks(diff)
        for k, v in bd.items():
            if ba.get(k) != v: return at + "%s is %r, not %r" % (k, v, ba.get(k))
            if bb.get(k) == v: return at + "%s is still there" % (k,)
        for k, v in ba.items():
            if k not in bd and bb.get(k) != v: return at + "%s is lost" % (k,)
        pa, pb, pd = ({k: v for k, v in d.items() if not inblock(k)} for d in (pa, pb, pd))
        for k, v in pd.items():
            if k not in pa or pa[k][:2] != v[:2]: return at + "%s was not there before" % (k,)
            if not v[2] and pb.get(k) == pa[k] and not pa[k][2]: return at + "%s is still there" % (k,)
        for k, v in pa.items():
            if k not in pd and v[1] and not v[2] and pb.get(k) != v: return at + "%s is lost" % (k,)
        diff.overlay(L(b))
        def noblocks(x): return x[:3] + [[noblocks(c) for c in x[3] if c[0] not in BLOCKS]] + x[4:]
        m = firstdiff(noblocks(can(dmp(full.root))), noblocks(can(dmp(diff.root))))
        if m: return at + "overlaid again it is not what it was: " + m
