"""LdmlMerge.merge: each attribute is merged three ways; clash_attrib records a clash and nothing else."""
from pv import *
from spec_elem import El
m = load('sldr.ldml_merge')
MERGE = 'sldr.ldml_merge:LdmlMerge.merge'
ASSUMPTIONS += ["the three nodes are different elements", "the attributes alt and draft are not meant: they belong to the merging of drafts", "one side changes an attribute the other removes: what becomes of it is not said"]
class Node(El):
    """its children are any, and what becomes of them is not looked at"""
    def topieces(self):
        s = Seg('children', 'list', child)
        s.memo['joined'] = True
        return [s]
    def append(self, e): self.write()
    def remove(self, e): self.write()
    def set(self, k, v):
        if v is None:
            # as with KeyError below
            if truth(rt.ne(k, core.C.focus[0][0])): raise core.PathEnd()
            prove('no attribute is set to None', False)
        super().set(k, v)
    def slen(self): return newint('children', 0)
    def __bool__(self): return truth(newbool('children'))
def child(h): return Node('child', contentHash=newint('h'), mergeBase=pick(None, Node('b', contentHash=newint('h'), ro='a child of the base')), mergeOther=pick(None, Node('o', contentHash=newint('h'), ro='a child of the other side')))
def text(): return Atom('text')
def node(h, ro=False): return Node(h, SMap.opaque_(h + 'attrib', lambda n: newstr(n), lambda k: newstr('value'), lambda k, v: core.isstr(k) and (v is True or core.isstr(v))), ro=ro, name=h, text=text(), contentHash=newint('h'))
def other_(f): return lambda *a, **k: f(*a, **k)
# what merge uses, none of which is handed attributes other than alt and draft to change
rt.CONTRACTS['sldr.ldml_merge:LdmlMerge._align'] = lambda self, this, other, base: None
def alts(self, base, other, target, default=None, copycomments=None):
    target.write()
    return newbool('done')
rt.CONTRACTS['sldr.ldml_merge:LdmlMerge._merge_with_alts'] = alts
rt.CONTRACTS['sldr.ldml_merge:LdmlMerge.clash_text'] = lambda self, *a, **k: None
def start(haveo, haveb, drafts, sametext, want):
    d = obj(m.LdmlMerge, useDrafts=drafts, winner=pick(None, 'other'), default_draft=newint('default', 0))
    K, J = newstr('name'), newstr('another')
    this, other, base = node('this'), node('other', 'the other node') if haveo else None, node('base', 'the base node') if haveb else None
    for k in ('alt', 'draft'): assume(rt.ne(K, k))
    if base is not None: assume(rt.eq(this.text, base.text) if sametext else rt.ne(this.text, base.text))
    core.C.focus = [(K, lambda o: isinstance(o, (SMap, SSet)) and (o.m if isinstance(o, SSet) else o).base is not None)]
    t, o, b = (x.attrib.look(K) if x is not None else ABSENT for x in (this, other, base))
    for x, w in zip((t, o, b), want):
        if (x is ABSENT) != (w is None): raise core.PathEnd()
    for x, w in zip((t, o, b), want):
        for y, v in zip((t, o, b), want):
            if w is not None and v is not None: assume(rt.eq(x, y) if w == v else rt.ne(x, y))
    def case(mm):
        names = {}
        def v(x):
            if x is ABSENT: return None
            s = conc(x, mm)
            return names.setdefault(s, 'xyz'[len(names) % 3] + str(len(names)))
        return [[['p', v(t), v(o), v(b)]], not haveb, not haveo, drafts]
    inputs(case=case)
    d.told = SList()
    def clash(self, key, tval, oval, bval, *a, **k):
        if truth(rt.eq(key, K)):
            prove('a clash is told with both values', band(same(tval, t), same(oval, o)))
            setghost('clashes', core.C.ghost['clashes'] + 1)
        return tval
    rt.CONTRACTS['sldr.ldml_merge:LdmlMerge.clash_attrib'] = clash
    core.C.ghost['clashes'] = 0
    def rec(self, other, base, this=None, **k):
        if not (isinstance(this, Node) and this.tag == 'child'): raise Unsupported('merge of something else than a child')
        return newbool('changed')
    rt.CONTRACTS[MERGE] = rec
    rt.Seen.inlined.add(MERGE)
    return d, K, this, other, base, t, o, b
def differ(x, y):
    if (x is ABSENT) != (y is ABSENT): return True
    return False if x is ABSENT else truth(rt.ne(x, y))
NAMES = {(1, 1, 1): 'the same on all sides', (1, 1, 2): 'changed alike', (1, 2, 1): 'changed there', (1, 2, 2): 'changed here', (1, 2, 3): 'changed both here and there', (None, 1, 1): 'removed here', (1, None, 1): 'removed there', (1, 1, None): 'added alike', (None, 1, 2): 'removed here, changed there', (1, None, 2): 'changed here, removed there', (1, 2, None): 'added differently', (1, None, None): 'added here', (None, 1, None): 'added there', (None, None, 1): 'removed alike', (None, None, None): 'absent'}
MAIN = ((1, 1, 1), (1, 2, 1), (1, 2, 2), (1, 2, 3), (1, None, 1), (None, 1, 2), (None, 1, None))
def one(haveo, haveb, drafts, sametext, w):
    @ob('%s%s%s%s%s' % ('' if haveo else 'no other, ', '' if haveb else 'no base, ', 'drafts, ' if drafts else '', '' if sametext else 'another text, ', NAMES[w]), thorough=bool(haveo and haveb and (drafts == bool(sametext) or not drafts and w not in MAIN)))
    def _():
        d, K, this, other, base, t, o, b = start(haveo, haveb, drafts, sametext, w)
        try: rt.run_fn(MERGE, m.LdmlMerge.merge, (d, other, base, this), {})
        except KeyError as e:
            # the name is any name: what is missing here is looked at in the run where it is that one
            if truth(rt.ne(e.args[0], K)): raise core.PathEnd()
            raise
        got, n = this.attrib.look(K), core.C.ghost['clashes']
        if w[0] == w[1]: want = t
        elif w[0] == w[2]: want = o
        elif w[1] == w[2]: want = t
        elif w[0] and w[1]:
            prove('a clash is recorded once', eq(n, 1))
            n, want = 0, t
        else: return
        prove('no clash otherwise', eq(n, 0))
        prove('the attribute is removed' if want is ABSENT else 'the attribute has the value', (got is ABSENT) if want is ABSENT else got is not ABSENT and rt.eq(got, want))
for haveo in (1, 0):
    for haveb in (1, 0):
        for drafts in (False, True):
            for sametext in (1, 0):
                for w in NAMES:
                    if (haveb or sametext and w[2] is None) and (haveo or w[1] is None): one(haveo, haveb, drafts, sametext, w)
@ob('recording a clash')
def _():
    d = obj(m.LdmlMerge)
    k, tv, ov, bv = newstr('key'), newstr('ours'), newstr('theirs'), pick(None, newstr('base'))
    assume(rt.ne(k, ''))
    this = node('this')
    old = [Seg('comments', 'list', lambda h: newstr(h))]
    if pick(0, 1): this.comments = SList(ps=list(old))
    else: old = []
    at = this.attrib
    n = at.slen()
    other, base = node('other', 'the other node'), node('base', 'the base node')
    rt.CONTRACTS.pop('sldr.ldml_merge:LdmlMerge.clash_attrib', None)
    r = meth(d, 'clash_attrib', k, tv, ov, bv, this, other, base)
    ps = [x for x in norm(tuple(this.comments.ps)) if not (isinstance(x, Seg) and core.C.must(x.n == 0))]
    prove('one comment more, after the others', len(ps) == len([s for s in norm(tuple(old)) if not core.C.must(s.n == 0)]) + 1 and ps[:-1] == [s for s in norm(tuple(old)) if not core.C.must(s.n == 0)])
    prove('it says which attribute', rt.startswith(ps[-1], 'Attribute (' + k + ') clash'))
    prove('the attributes are left alone', this.attrib is at and eq(at.slen(), n))
