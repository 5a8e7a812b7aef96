"""SortKey comparison: a total preorder by level, trailing zero weights ignored."""
from pv import *
m = load('sldr.collation')
ASSUMPTIONS += ["the weights of a level are numbers; a key has three levels"]
TRUSTED += ["lists of numbers are totally ordered by Python's < and ==, and there are countably many, so that each has a place on the real line", "equal tuples of equal numbers hash alike"]
# --- stripzero, under contract: it takes the zeros off the end
def items(l): return [x for x in norm(tuple(l.ps)) if not (isinstance(x, Seg) and core.C.must(x.n == 0))]
def zeros(h): return Seg(h, 'list', lambda x: 0)
@ob('stripzero: a list whose last weight but zeros is not zero', relations=[Rel('what is kept, and zeros', lambda c, v, L: isinstance(v, SList) and 'kept' in core.C.facts,
        lambda gh, pos, L: SList(ps=list(core.C.facts['kept']) + [zeros('zs')]),
        lambda v, gh, pos, L: (lambda ps, k: len(ps) >= len(k) and all(a is b for a, b in zip(ps, k)) and all(isinstance(x, Seg) or x == 0 for x in ps[len(k):]))(list(norm(tuple(v.ps))), core.C.facts['kept']))])
def _():
    last = newint('last')
    assume(rt.ne(last, 0))
    kept = [Seg('kept', 'list', lambda h: newint(h)), last] if pick(0, 1) else []
    core.C.facts['kept'] = kept
    l = SList(ps=kept + [zeros('zeros')])
    was = list(l.ps)
    r = call(m.stripzero, l)
    want = [x for x in norm(tuple(kept)) if not (isinstance(x, Seg) and core.C.must(x.n == 0))]
    prove('the zeros at the end are taken off and nothing else', isinstance(r, SList) and (lambda x: len(x) == len(want) and all(a is b for a, b in zip(x, want)))(items(r)))
    prove('the level itself is left alone', items(l) == [x for x in norm(tuple(was)) if not (isinstance(x, Seg) and core.C.must(x.n == 0))])
def strip_contract(l):
    if isinstance(l, SList):
        ps = norm(tuple(l.ps))
        if not ps: return SList()
        if len(ps) == 1 and isinstance(ps[0], Seg) and 'level' in ps[0].memo: return SList(ps=list(ps[0].memo['level'].ps))
        if not l.opaque(): return Lazy
    raise Unsupported('a list that is not a level of a key')
def level(h):
    s = Seg(h, 'list', lambda x: newint(x))
    s.memo['level'] = rt.ranked(h)
    return SList(ps=[s])
def key(h):
    k = obj(m.SortKey)
    k.ps = [level(h + str(i)) for i in range(3)]
    return k
def R(k, i): return rt.rank(k.ps[i].ps[0].memo['level'])
def weights(l):
    w = list(l.ps)
    while w and truth(eq(w[-1], 0)): w.pop()
    return w
def order(a, b):
    if not isinstance(a.ps[0].ps[:1] and a.ps[0].ps[0], Seg):
        for i in range(3):
            x, y = weights(a.ps[i]), weights(b.ps[i])
            for v, w in zip(x, y):
                if truth(rt.ne(v, w)): return i + 1, -1 if truth(rt.lt(v, w)) else 1
            if len(x) != len(y): return i + 1, -1 if len(x) < len(y) else 1
        return 0, 0
    return order_(a, b)
def order_(a, b):
    """what the statement says: (level of the first difference or 0, sign)"""
    for i in range(3):
        x, y = R(a, i), R(b, i)
        if not truth(mkbool(x == y)): return i + 1, -1 if truth(mkbool(x < y)) else 1
    return 0, 0
def values(mm, ks):
    """weights for the places of the levels"""
    def val(r):
        v = mm.eval(r, model_completion=True)
        return v.as_fraction()
    out = []
    tab = sorted({val(R(k, i)) for k in ks for i in range(3)})
    return [[[] if val(R(k, i)) == 0 else [tab.index(val(R(k, i))) + 1] for i in range(3)] for k in ks]
def start(n):
    rt.CONTRACTS['sldr.collation:stripzero'] = strip_contract
    ks = [key('abc'[i]) for i in range(n)]
    inputs(case=lambda mm: (values(mm, ks) + values(mm, ks))[:3] if n > 1 else None)
    return ks
OPS = (('<', rt.lt, lambda s: s < 0), ('>', rt.gt, lambda s: s > 0), ('==', rt.eq, lambda s: s == 0), ('!=', rt.ne, lambda s: s != 0), ('<=', rt.le, lambda s: s <= 0), ('>=', rt.ge, lambda s: s >= 0))
def unchanged(ks, was): prove('comparing leaves the keys alone', all(len(k.ps) == 3 and all(x is y and x.ps == z for x, (y, z) in zip(k.ps, w)) for k, w in zip(ks, was)))
def snap(ks): return [[(x, list(x.ps)) for x in k.ps] for k in ks]
def compare(a, b):
    n, s = order(a, b)
    for name, op, want in OPS: prove('a %s b' % name, eq(op(a, b), want(s)))
    prove('cmp gives the level and the sign', eq(meth(a, 'cmp', b), s * n))
    prove('diffLevel gives the level and the side of b', eq(call(m.diffLevel, a, b), -s * n if n else 4))
    for l in (1, 2, 3): prove('cmpKey at level %d' % l, eq(call(m.cmpKey, a, b, l), n == 0 or n > l))
    if n == 0: prove('equal keys hash alike', call(hash, a) == call(hash, b))
@ob('two keys')
def _():
    a, b = ks = start(2)
    w = snap(ks)
    compare(a, b)
    unchanged(ks, w)
@ob('a key and itself')
def _():
    a, = ks = start(1)
    compare(a, a)
@ob('the order is a total preorder')
def _():
    a, b, c = start(3)
    lt_ = lambda x, y: truth(rt.lt(x, y))
    eq_ = lambda x, y: truth(rt.eq(x, y))
    prove('exactly one of less, equal and greater', lt_(a, b) + eq_(a, b) + truth(rt.gt(a, b)) == 1)
    prove('antisymmetric', lt_(a, b) == truth(rt.gt(b, a)))
    if lt_(a, b) and lt_(b, c): prove('less is transitive', lt_(a, c))
    if eq_(a, b) and eq_(b, c): prove('equal is transitive', eq_(a, c))
    if eq_(a, b) and lt_(b, c): prove('equal keys are less than the same keys', lt_(a, c))
    if lt_(a, b) and eq_(b, c): prove('equal keys are greater than the same keys', lt_(a, c))

# --- small keys, the functions themselves: exact counter-models
for shape in ('100 100', '200 100', '020 010', '111 111', '001 002'):
    @ob('instances of %s weights' % shape)
    def _(shape=shape):
        ks = []
        for n, sh in zip('ab', shape.split()):
            k = obj(m.SortKey)
            k.ps = [SList(ps=[newint(n, 0) for _ in range(int(x))]) for x in sh]
            ks.append(k)
        vals = [[list(l.ps) for l in k.ps] for k in ks]
        inputs(case=lambda mm: ([[[conc(x, mm) for x in l] for l in k] for k in vals] * 2)[:3])
        w = snap(ks)
        compare(*ks)
        unchanged(ks, w)
