"""Ldml._calc_hashes: what the identity hash of an element is taken of is its tag and its distinguishing attributes."""
from pv import *
from spec_elem import El
m = load('sldr.ldml')
TRUSTED += ["two values that are hashed one after the other into hashes of the same state leave them in the same state (hash() is a function)"]
ASSUMPTIONS += ["the metadata: any set of keys, any sets of further keys and of non keys for each element", "attribute names and values are strings"]
class Text:
    """the text of an element: any, as any number of lines"""
    def __init__(self): self.line = Line()
    def split(self, sep=None): return SList(ps=[self.line])
    def __bool__(self): return True
    def __getattr__(self, a):
        if a == 'oid': raise AttributeError(a)
        raise Unsupported('text.' + a)
class Line: pass
SILALIAS = '{urn://www.sil.org/ldml/0.1}alias'
def keyset(h): return SSet.opaque_(h, lambda n: newstr(n))
class Node(El): pass
def child(h):
    return El('child', ro='a child', name='child', contentHash=obj(m._minhash, minhash=None, hashed=newint('h', 0), hasher=hash), attrHash=obj(m._minhash, minhash=None, hashed=newint('h', 0), hasher=hash))
def start(drafts, keys, nonkey, more, text):
    tag = newstr('tag')
    nonkey, more = keyset('nonkeys') if nonkey else None, keyset('keys') if more else None
    def table(h, s):
        t = SMap.opaque_(h, lambda n: newstr(n), lambda k: keyset('of another'))
        t.base.set(tag, ABSENT if s is None else s)
        return t
    base = Node(tag, SMap.opaque_('attrib', lambda n: newstr(n), lambda k: newstr('value')), kids=[Seg('children', 'list', child)], name='the element')
    base.text = Text() if text else None
    at = base.attrib
    d = obj(m.Ldml, useDrafts=drafts)
    d.keys = keyset('distinguishing')
    d.nonkeyContexts, d.keyContexts = table('nonkeys', nonkey), table('keys', more)
    core.C.focus = [(k, lambda o: isinstance(o, SMap) and o.base is at.base) for k in keys]
    def dist(k):
        r = k in d.keys
        if nonkey is not None and k in nonkey: r = False
        if more is not None and k in more: r = True
        return r and not (drafts and truth(eq(k, 'draft')))
    return d, base, at, dist
@ob('new hashes are alike')
def _():
    a, b = call(m._minhash, nominhash=True), call(m._minhash, nominhash=True)
    prove('two new hashes are equal', truth(eq(a, b)))
def hashes():
    """hash() is a function into 64 bits"""
    H = z3.Function('hash', SeqS, z3.IntSort())
    def h(x):
        if not isstr(x): raise Unsupported('a hash of something else')
        v = mkint(H(seqz(pieces(x)))); assume(rt.lt(v, 2**63)); assume(rt.ge(v, -2**63))
        return v
    core.C.tokens['hash'] = h
def two(same):
    s = newint('state', 0); assume(rt.lt(s, 2**64))
    t = s if same else newint('other state', 0)
    if not same: assume(rt.lt(t, 2**64)); assume(rt.ne(s, t))
    return obj(m._minhash, minhash=None, hashed=s, hasher=hash), obj(m._minhash, minhash=None, hashed=t, hasher=hash)
for n in (1, 2):
    @ob('%d more hashed' % n)
    def _(n=n):
        hashes()
        vs = [newstr('v') for _ in range(n)]
        a, b = two(True)
        meth(a, 'update', *vs); meth(b, 'update', *vs)
        prove('the same hashed into the same gives the same', truth(eq(a, b)) and eq(rt.call(hash, a), rt.call(hash, b)))
        a, b = two(False)
        meth(a, 'update', *vs); meth(b, 'update', *vs)
        prove('a difference before stays one', rt.ne(a.hashed, b.hashed))
        i = core.C.choose(n)
        ws = [newstr('w') if j == i else v for j, v in enumerate(vs)]
        h = core.C.tokens['hash']
        assume(rt.ne(h(ws[i]), h(vs[i])))
        a, b = two(True)
        meth(a, 'update', *vs); meth(b, 'update', *ws)
        prove('another value hashed gives another hash', rt.ne(a.hashed, b.hashed))
        prove('and the two are not equal', not truth(eq(a, b)))
def record(base, at, keys):
    """what is hashed of the element, into each hash"""
    def new(*a, **k): return obj(m._minhash, tags=0, key0=0, key1=0, late=0, foreign=0)
    def add(self, a): rt.setattr_(self, a, getattr(self, a) + 1)
    def update(self, *vec):
        if not hasattr(self, 'tags'): raise Unsupported('the hash of another element')
        if len(vec) == 1:
            if isinstance(vec[0], Line): add(self, 'foreign')
            else: add(self, 'tags' if truth(eq(vec[0], base.tag)) else 'foreign')
            return
        if len(vec) != 2: raise Unsupported('more than a name and a value hashed at once')
        k, v = vec
        w = at.look(k)
        if w is ABSENT or not truth(rt.sameval(v, w)): raise Unsupported('what is hashed as an attribute')
        for i, x in enumerate(keys):
            if truth(eq(k, x)):
                add(self, 'key%d' % i)
                if len(keys) == 2 and i == 0 and truth(rt.gt(self.key1, 0)): add(self, 'late')
                if len(keys) == 1: core.C.facts['used'] = core.C.facts.get('used', 0) + 1
    def merge(self, o): add(self, 'foreign')
    rt.CONTRACTS['sldr.ldml:_minhash'] = new
    rt.CONTRACTS['sldr.ldml:_minhash.update'] = update
    rt.CONTRACTS['sldr.ldml:_minhash.merge'] = merge
def one(drafts, nonkey, more, text, name):
    @ob('one attribute, ' + name, covers=['identity', 'content', 'absent'])
    def _():
        K = newstr('K')
        d, base, at, dist = start(drafts, [K], nonkey, more, text)
        record(base, at, [K])
        old = at.copy()
        keys0 = d.keys.m.base
        tabs = [(t, t.m.base) for t in (d.nonkeyContexts.look(base.tag), d.keyContexts.look(base.tag)) if t is not ABSENT]
        rt.call(m.Ldml._calc_hashes, d, base, usedrafts=drafts)
        a, c = base.attrHash, base.contentHash
        x = old.look(K)
        prove('the attributes are left alone', base.attrib is at and same(at.look(K), x) and eq(at.slen(), old.slen()))
        prove('the tables of keys are left alone', d.keys.m.base is keys0 and not d.keys.m.ups and all(t.m.base is b and not t.m.ups for t, b in tabs))
        prove('the tag is hashed into the identity', rt.ge(a.tags, 1))
        prove('nothing but the tag and attributes is hashed into the identity', eq(a.foreign, 0))
        if x is ABSENT: cover('absent'); prove('an attribute that is not there is not hashed', band(eq(a.key0, 0), eq(c.key0, 0)))
        elif drafts and truth(eq(K, 'alt')): prove('the alt mark is no part of the identity', eq(a.key0, 0))
        elif dist(K): cover('identity'); prove('a distinguishing attribute is hashed into the identity', rt.ge(a.key0, 1))
        else:
            prove('another attribute is no part of the identity', eq(a.key0, 0))
            if not drafts or not (truth(eq(K, 'draft')) or truth(eq(K, SILALIAS))): cover('content'); prove('it is hashed into the content', rt.ge(c.key0, 1))
    @ob('the order of two attributes, ' + name, covers=['both'], thorough=drafts and (nonkey or more))
    def _():
        K, L = newstr('K'), newstr('L')
        assume(rt.ne(K, L))
        # any two names: K is the one that sorts before the other
        if not truth(rt.lt(K, L)): raise core.PathEnd()
        core.C.exact = True
        d, base, at, dist = start(drafts, [K, L], nonkey, more, text)
        if at.look(K) is ABSENT or at.look(L) is ABSENT: raise core.PathEnd()
        record(base, at, [K, L])
        for i, x in enumerate((K, L)):
            assume(rt.ne(x, 'alt')); assume(rt.ne(x, 'draft'))
            if nonkey: d.nonkeyContexts.look(base.tag).m.base.set(x, ABSENT)
            how = i if more else 0
            if more: d.keyContexts.look(base.tag).m.base.set(x, True if how else ABSENT)
            d.keys.m.base.set(x, ABSENT if how else True)
        rt.call(m.Ldml._calc_hashes, d, base, usedrafts=drafts)
        cover('both')
        prove('each is hashed once', band(eq(base.attrHash.key0, 1), eq(base.attrHash.key1, 1)))
        prove('they are hashed in the order of their names, whatever their order in the element', eq(base.attrHash.late, 0))
for drafts in (False, True):
    for nonkey, more, text in ((0, 0, 0), (1, 0, 0), (0, 1, 1), (1, 1, 0), (1, 1, 1)):
        one(drafts, nonkey, more, text, ', '.join(n for n, v in (('drafts', drafts), ('keys that are none of it', nonkey), ('further keys of it', more), ('a text', text)) if v) or 'no more keys')
