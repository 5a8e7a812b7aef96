"""Exemplars.split_exemplar and the find_* passes: the occurrences of every base and every mark are conserved."""
from pv import *
m = load('sldr.ldml_exemplars')
ASSUMPTIONS += ["every cluster in the collection has a count of one or more"]
class Clusters(SMap):
    """a Counter"""
    def __missing__(self, k): return 0
def base(e): return rt.getattr_(e, 'base')
def trailers(e): return rt.getattr_(e, 'trailers')
def isbase(b):
    return lambda e: [1] if truth(rt.eq(base(e), b)) else []
def occ(s, c):
    """how often the mark is in the string"""
    n = []
    for p in pieces(s):
        if isinstance(p, Seg):
            k = ('occ', id(c))
            if k not in p.memo:
                p.memo[k] = newint('occ', 0)
                assume(p.memo[k] <= mkint(p.n))
            n.append(p.memo[k])
        elif truth(rt.eq(mkstr((p,)), c)): n.append(1)
    return n
def ismark(c): return lambda e: occ(trailers(e), c)
def start(weight, **more):
    x = obj(m.Exemplars, need_splitting=newbool('split'), **more)
    def cluster(h): return obj(m.Exemplar, base=newstr('base'), trailers=newstr('trailers'))
    x.clusters = Clusters.opaque_('clusters', cluster, lambda e: newint('count', 1), lambda e, n: n >= 1)
    def watch(mp, k, old, v):
        d = (0 if v is ABSENT else v) - (0 if old is ABSENT else old)
        for n in weight(k): setghost('occurrences', core.C.ghost['occurrences'] + n * mkint(z3.simplify(num(d))))
    x.clusters.obs.append(watch)
    setghost('occurrences', newint('occurrences'))
    return x
def split(x, e, index, count):
    """the contract of split_exemplar: the occurrences are what they were, the cluster is gone or as it was, others are any"""
    n, t = x.clusters.look(e), trailers(e)
    prove('split_exemplar is called with the index of a mark', band(index >= 0, index < rt.len_(t)))
    if n is ABSENT: return
    prove('split_exemplar is called with the count of the cluster', eq(count, n))
    b = x.clusters.base
    core.touched((x.clusters, 'map'))
    x.clusters.base, x.clusters.ups, x.clusters.delta = MapBase('split', b.keyf, b.valf, b.inv), [], 0
    x.clusters.base.set(e, pick(ABSENT, n))
    setattr(x, 'need_splitting', newbool('split'))
def counted(v, w):
    """a cluster and its count in a loop over its marks"""
    if not isinstance(v, m.Exemplar) or isinstance(w, bool) or not isinstance(w, (int, SInt)): return None
    n = core.C.facts['clusters'].look(v)
    return True if n is ABSENT else eq(n, w)
def a_pass(name, weight, **kw):
    x = start(weight, **kw)
    rt.CONTRACTS['sldr.ldml_exemplars:Exemplars.split_exemplar'] = split
    core.C.facts['clusters'] = x.clusters
    was, cl = core.C.ghost['occurrences'], x.clusters
    inputs()
    meth(x, name)
    if x.clusters is not cl: raise Unsupported('the clusters are another collection')
    prove('occurrences stay the same', eq(core.C.ghost['occurrences'], was))
COUNTED = [Joint('its count', counted, True)]
EXTERN['icu.Char.getCombiningClass'] = lambda c: newint('ccc', 0)
EXTERN['icu.Char.hasBinaryProperty'] = lambda c, p: newbool('property')
class Bases:
    """any set of bases"""
    def symmetric_difference(self, o): return alist('bases')
    difference = union = intersection = __xor__ = __sub__ = __and__ = __or__ = symmetric_difference
    def __eq__(self, o): return newbool('same bases')
    def __ne__(self, o): return newbool('other bases')
    __hash__ = None
    def slen(self): return newint('bases', 0)
    def __len__(self): return self.slen()
class Marks:
    """any marks (with their bases)"""
    def __contains__(self, c): return bool(newbool('mark'))
    def __getitem__(self, c): return Bases()
    def get(self, c, d=None): return Bases() if c in self else d
    def keys(self): return alist('marks', lambda h: newchar(h))
    def items(self): return alist('marks', lambda h: (newchar(h), Bases()))
    def topieces(self): return list(self.keys().ps)
    def add(self, c): pass
def analyser():
    """what the passes go by, arbitrary"""
    return dict(ucd=obj(m.UCD), many_bases=newint('many', 0), always_separate_marks=Marks(), bases_for_marks=Marks())
for name in ('find_indic_matras_and_viramas', 'find_marks_on_same_bases', 'find_productive_marks', 'find_second_marks'):
    ob(name + ': a base', joint=COUNTED)(lambda name=name: a_pass(name, isbase(newstr('B')), **analyser()))
    ob(name + ': a mark', joint=COUNTED)(lambda name=name: a_pass(name, ismark(newchar('M')), **analyser()))
def splitting(weight):
    x = start(weight)
    A, B, c = newstr('before'), newstr('after'), newchar('mark')
    e = obj(m.Exemplar, base=newstr('base'), trailers=A + c + B)
    n = x.clusters.look(e)
    count = n if n is not ABSENT else newint('count')
    was, cl = core.C.ghost['occurrences'], x.clusters
    t, b = trailers(e), base(e)
    inputs(case=lambda mm: [[[conc(b, mm) or 'a', conc(t, mm), 2]], [0, 1, 2, 3], 0])
    meth(x, 'split_exemplar', e, rt.len_(A), count)
    cover('there' if n is not ABSENT else 'not there')
    if x.clusters is not cl: raise Unsupported('the clusters are another collection')
    left = cl.look(e)
    prove('the cluster that is split is gone or as it was', left is ABSENT or n is not ABSENT and truth(eq(left, n)))
    prove('occurrences stay the same', eq(core.C.ghost['occurrences'], was))
@ob('the occurrences of a base when a cluster is split', covers=['there', 'not there'])
def _():
    b = newstr('B')
    assume(rt.ne(b, ''))
    splitting(isbase(b))
@ob('the occurrences of a mark when a cluster is split', covers=['there', 'not there'])
def _(): splitting(ismark(newchar('M')))
