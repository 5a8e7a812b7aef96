"""Runtime of the translated code: Python's operations over pyvc values, with
the trusted contracts of built-ins, and loops cut at their invariants."""
import sys, ctypes, builtins, types, functools, itertools, collections, re, os, ast, operator
import z3
import core
from core import *

# ------------------------------------------------------------------ helpers
SYM = (SBool, SInt, SReal, SStr, Atom)
def C(): return core.C

def is_sym(x, depth=3):
    if isinstance(x, SYM): return True
    if isinstance(x, SList): return x.opaque() or depth and any(is_sym(y, depth - 1) for y in x.ps)
    if isinstance(x, SMap): return x.base is not None or depth and any(is_sym(k, depth - 1) or is_sym(v, depth - 1) for k, v in x.ups)
    if isinstance(x, SSet): return is_sym(x.m, depth)
    if isinstance(x, MapView): return is_sym(x.m)
    if isinstance(x, (SIter, Stream)): return True
    if isinstance(x, (tuple, list)): return depth > 0 and any(is_sym(y, depth - 1) for y in x)
    return False
def native(x):
    """pyvc containers of known values as Python's own, for native functions"""
    if type(x) is SList: return [native(y) for y in x.native()]
    if type(x) is SMap: return {native(k): native(v) for k, v in x.native_items()}
    if type(x) is SSet: return {native(k) for k in x._n()}
    if isinstance(x, MapView): return [native(y) for y in x]
    if type(x) is tuple: return tuple(native(y) for y in x)
    return x
def lift(x):
    """the reverse, for what native functions give back"""
    if type(x) is list: return SList([lift(y) for y in x])
    if type(x) is dict: return SMap({k: lift(v) for k, v in x.items()})
    if type(x) is set: return SSet(list(x))
    if type(x) is tuple: return tuple(lift(y) for y in x)
    return x
def truth(x): return bool(x)
def key(k):
    if isinstance(k, SStr):
        c = k.conc()
        return k if c is None else c
    if isinstance(k, SInt):
        e = z3.simplify(k.e)
        return e.as_long() if z3.is_int_value(e) else k
    return k

from transform import DEAD
class Poison:
    def __init__(self, why): self.why = why
    def _bad(self, *a, **k): raise Unsupported('use of ' + self.why)
    __bool__ = __iter__ = __eq__ = __add__ = __getitem__ = __call__ = __len__ = __contains__ = __lt__ = __hash__ = __radd__ = __sub__ = __rsub__ = _bad
    def __getattr__(self, n): self._bad()

# --------------------------------------------------------------- comparisons
def eq(a, b):
    if a is b and not isinstance(a, float): return True
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if isinstance(a, str) and isinstance(b, str): return a == b
        return streq(pieces(a), pieces(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        return band(*[eq(x, y) for x, y in zip(a, b)])
    if a is None or b is None: 
        x = a if b is None else b
        t = type(x)
        if '__eq__' in getattr(t, '__dict__', {}) and is_trans(t): return meth(x, '__eq__', None)
        return a is b
    if isinstance(a, MapBaseTypes) or isinstance(b, MapBaseTypes): return a == b
    if is_trans(type(a)) and type(a).__eq__ is not object.__eq__: 
        r = call(type(a).__eq__, a, b)
        if r is not NotImplemented: return r
        if is_trans(type(b)) and type(b).__eq__ is not object.__eq__: return call(type(b).__eq__, b, a)
        return False
    return a == b
MapBaseTypes = (SYM)
def ne(a, b):
    for x, y in ((a, b),):
        if is_trans(type(x)) and '__ne__' in type(x).__dict__:
            return call(type(x).__ne__, x, y)
    return bnot(eq(a, b))
def _cmp(op, name, rname):
    def f(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple): return tupcmp(a, b, op)
        if is_trans(type(a)) and hasattr(type(a), name) and getattr(type(a), name) is not getattr(object, name, None): return call(getattr(type(a), name), a, b)
        return op(a, b)
    return f
lt, gt, le, ge = _cmp(operator.lt, '__lt__', 0), _cmp(operator.gt, '__gt__', 0), _cmp(operator.le, '__le__', 0), _cmp(operator.ge, '__ge__', 0)
def tupcmp(a, b, op):
    for x, y in zip(a, b):
        if truth(eq(x, y)): continue
        return {operator.lt: lt, operator.le: lt, operator.gt: gt, operator.ge: gt}[op](x, y)
    return op(len(a), len(b))
def is_(a, b):
    if a is b: return True
    if isinstance(a, SBool) and isinstance(b, bool): return eq(a, b)
    if isinstance(b, SBool) and isinstance(a, bool): return eq(b, a)
    if isinstance(a, Atom) and isinstance(b, Atom): return a == b
    if isinstance(a, (SStr, SInt)) and isinstance(b, (str, int, SStr, SInt)): return eq(a, b)
    return False
def isnot(a, b): return bnot(is_(a, b))
def not_(a): return bnot(a) if isinstance(a, SBool) else not a
def boolop(op, *fs):
    """and/or of pure operands; symbolic ones are not decided"""
    r = []
    for f in fs:
        v = f()
        if not isinstance(v, (bool, SBool)): v = bool(v)
        if v is (op == 'Or'): r.append(v); break
        r.append(v)
    return (band if op == 'And' else bor)(*r)
def ifconv(*branches):
    """if/elif of single attribute stores: where more than one may happen, the values are merged.
    False: not done (the statement is run as it stands)."""
    c = core.C
    old, c.nofork = c.nofork, True
    try:
        try:
            todo, rest = [], True
            for test, sts in branches:
                t = test()
                if not isinstance(t, (bool, SBool)): t = bool(t)
                g = band(rest, t)
                if g is not False:
                    (of, attr, vf), = sts
                    todo.append((g, of(), attr, vf()))
                rest = band(rest, bnot(t))
                if rest is False: break
            if not any(isinstance(g, SBool) for g, *_ in todo): return False
            new = {}
            for g, o, attr, v in todo:
                k = (id(o), attr)
                if type(o) in BUILTIN_T or not is_trans(type(o)) or '__setattr__' in type(o).__dict__ or isinstance(type(o).__dict__.get(attr), property): return False
                cur = new[k][2] if k in new else getattr_(o, attr)
                if g is True: m = v
                else: m = ite(g, v, cur)
                if m is None: return False
                new[k] = (o, attr, m)
        except (NoFork, Exception): return False
    finally: c.nofork = old
    for o, attr, m in new.values(): setattr_(o, attr, m)
    return True
BUILTIN_T = (SList, SMap, SSet)
def ite(g, a, b):
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return mkbool(z3.If(g.e, tz(a), tz(b)))
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not isinstance(a, bool) and not isinstance(b, bool): return mkint(z3.If(g.e, num(a), num(b)))
    return a if a is b else None
def listeq(a, b):
    if a is b: return True
    if not isinstance(b, (SList, list)): return False
    ra, rb = rank(a), rank(b)
    if ra is not None and rb is not None: return mkbool(ra == rb)
    pa, pb = list(norm(tuple(a.ps))), list(norm(tuple(topieces(b))))
    # cut the same segments off the ends
    while pa and pb and isinstance(pa[0], Seg) and pa[0] is pb[0]: pa.pop(0); pb.pop(0)
    while pa and pb and isinstance(pa[-1], Seg) and pa[-1] is pb[-1]: pa.pop(); pb.pop()
    if not pa and not pb: return True
    sa, sb = [isinstance(x, Seg) for x in pa], [isinstance(x, Seg) for x in pb]
    if not any(sa) and not any(sb):
        if len(pa) != len(pb): return False
        return band(*[eq(x, y) for x, y in zip(pa, pb)])
    if sa == sb and all(x is y for x, y, s in zip(pa, pb, sa) if s):
        return band(*[eq(x, y) for x, y, s in zip(pa, pb, sa) if not s])
    if not pa or not pb:
        r = pa or pb
        if not all(isinstance(x, Seg) for x in r): return False
        return band(*[mkbool(x.n == 0) for x in r])
    raise Unsupported('comparison of opaque lists')
def listless(a, b):
    ra, rb = rank(a), rank(b)
    if ra is not None and rb is not None: return mkbool(ra < rb)
    pa, pb = a.native(), list(topieces(b))
    return tupcmp(tuple(pa), tuple(pb), operator.lt)
def rank(a):
    """The place of an opaque list in the order of lists (a countable total order: a real number each), None if not of the kind"""
    if not isinstance(a, SList): return None
    ps = norm(tuple(a.ps))
    if not ps: return z3.RealVal(0)
    return ps[0].memo.get('rank') if len(ps) == 1 and isinstance(ps[0], Seg) else None
def ranked(hint):
    """any list of numbers, known by its place in the order"""
    s = Seg(hint, 'list')
    r = s.memo['rank'] = z3.Real(core.C.fresh('rank_' + hint))
    core.C.assume(z3.And(r >= 0, (r == 0) == (s.n == 0)))
    return SList(ps=[s])
class SFrozen(SList):
    """a tuple of a list not known item by item"""
    def _no(self, *a, **k): raise AttributeError('a tuple is not changed')
    append = extend = insert = remove = clear = reverse = sort = __setitem__ = __delitem__ = _no

def contains(c, x):
    if isinstance(c, str) and isinstance(x, SStr) or isinstance(c, SStr): return str_in(x, c)
    if isinstance(c, SList) or isinstance(c, (list, tuple)):
        ps = norm(tuple(topieces(c)))
        if any(isinstance(p, Seg) for p in ps): return bor(*[member(p, x) if isinstance(p, Seg) else eq(p, x) for p in ps])
        for p in ps:
            if p is x or truth(eq(p, x)): return True
        return False
    if isinstance(c, (dict, set, frozenset)) and is_sym(x):
        return any(truth(eq(k, x)) for k in c)
    if is_trans(type(c)) and hasattr(type(c), '__contains__'):
        return call(type(c).__contains__, c, x) if is_trans_fn(type(c).__contains__) else x in c
    if isinstance(c, Stream): raise Unsupported('membership in a stream')
    return x in c
def member(seg, x):
    """whether x is among the items of an opaque run: unknown, but the same whenever asked for the same value"""
    if isinstance(x, Atom): e = z3.Function('in_' + seg.name, ObjS, z3.BoolSort())(x.e)
    elif isstr(x): e = z3.Function('ins_' + seg.name, SeqS, z3.BoolSort())(seqz(pieces(x)))
    elif x is None: e = z3.Bool('in_' + seg.name + '_None')
    else: raise Unsupported('membership in an opaque list')
    seg.memo.setdefault('asked', []).append((x, e))
    return mkbool(z3.And(e, seg.n > 0))
def notcontains(c, x): return bnot(contains(c, x))

# ------------------------------------------------------------- containers
def mklist(t): return SList(ps=list(t))
def mkset(t): return SSet(list(t))
def mkdict(*kvs):
    m = SMap()
    for k, v, spread_ in kvs:
        if spread_: m.update(v)
        else: m[k] = v
    return m
def spread(x): return list(iterate(x))
def spreadkw(x): return {k: v for k, v in (x.native_items() if isinstance(x, SMap) else x.items())}
def topieces(x):
    if isinstance(x, SList): return x._norm()
    if isinstance(x, (list, tuple)): return list(x)
    if isinstance(x, str): return list(x)
    if isinstance(x, SStr):
        p = x.p
        if not any(isinstance(c, Seg) for c in p): return [mkstr((c,)) for c in p]
        raise Unsupported('list of an opaque string')
    if isinstance(x, SIter): return x.pieces()
    if CONTRACTMOD(type(x).__module__) and hasattr(x, 'topieces'): return x.topieces()
    if isinstance(x, MapView) and x.opaque():
        return mapsegs(x.m, x.kind)
    if isinstance(x, SSet) and x.opaque(): return mapsegs(x.m, 'keys', x)
    if isinstance(x, SMap) and x.base is not None: return mapsegs(x, 'keys')
    if isinstance(x, SUserDict) and x.data.base is not None: return mapsegs(x.data, 'keys')
    return list(iterate(x))
def mapsegs(m, kind, owner=None):
    """The entries of an opaque map; those of the focus keys that are in it stand at some place."""
    ks = []
    for k, pred in core.C.focus:
        if not pred(owner if owner is not None else m): continue
        k = key(k)
        if any(k is x for x in ks): continue
        if m.look(k) is not ABSENT and not any(truth(eq(k, x)) for x in ks): ks.append(k)
    if not ks: return totals(m, kind, [mapseg(m, kind)])
    order = []
    left = list(ks)
    while left: order.append(left.pop(core.C.choose(len(left)) if len(left) > 1 else 0))
    out = [mapseg(m, kind, order)]
    for k in order:
        v = m.look(k)
        out += [k if kind == 'keys' else v if kind == 'values' else (k, v), mapseg(m, kind, order)]
    core.C.assume(lenz(tuple(out)) == num(m.slen()))
    return totals(m, kind, out)
def totals(m, kind, out):
    """the values add up to the total of the map, where it has one"""
    if getattr(m, 'total', None) is None or m.ups or kind == 'keys': return out
    val = (lambda x: x) if kind == 'values' else lambda x: x[1]
    f = Fold('total', {'s': 0}, lambda g, x, L: {'s': g['s'] + val(x)}, {'s': 'int'})
    tot = 0
    for x in out:
        if isinstance(x, Seg):
            x.memo.setdefault('folds', []).append(f)
            g = f.final(x)['s']
            core.C.assume(z3.Implies(x.n == 0, num(g) == 0))
            tot = tot + g
        else: tot = tot + val(x)
    core.C.assume(num(tot) == num(m.total))
    return out
def mapseg(m, kind, excl=()):
    """The entries of an opaque map, in some order, each key once, but those in excl."""
    base, snap = m.base, m.copy()
    snap.ups = [list(u) for u in m.ups]
    s = Seg('entries', 'list')
    if not excl: core.C.assume(s.n == num(m.slen()))
    s.src = ('map', snap, kind)
    def elem(hint, s=s):
        k = base.keyf('key')
        for x in excl: core.C.assume(tz(bnot(eq(k, x))))
        v = snap.look(k)
        if v is ABSENT: raise PathEnd()
        return k if kind == 'keys' else v if kind == 'values' else (k, v)
    s.elem = elem
    s.tag = getattr(base, 'name', None)
    for f in getattr(m, 'folds', ()) or FOLDS.get(base.name, ()): s.memo.setdefault('folds', []).append(f)
    return s
FOLDS = {}

def iterate(x):
    """A Python iterable over the items of x, all of them known."""
    if isinstance(x, (SList,)): return list(x.native()) if type(x) is SList or not is_trans_fn(getattr(type(x), '__iter__', None)) else iter(x)
    if isinstance(x, SIter):
        ps = norm(tuple(x.pieces()))
        if any(isinstance(p, Seg) for p in ps): raise Unsupported('an opaque iterator where a known one is needed')
        return list(ps)
    if isinstance(x, (SMap, SSet, MapView, str, SStr, tuple, list)): return iter(x)
    return iter(x)
class SIter:
    """A one-pass iterator over pieces (generator expression, map, enumerate...)"""
    def __init__(self, ps): self.ps = list(ps)
    def pieces(self):
        r, self.ps = self.ps, []
        return r
    def __iter__(self): return iter(iterate(self))
    def __next__(self):
        self.ps = list(norm(tuple(self.ps)))
        while self.ps and isinstance(self.ps[0], Seg):
            s = self.ps[0]
            self.ps = list(open_seg(s)) + self.ps[1:]
        if not self.ps: raise StopIteration
        return self.ps.pop(0)

def unpack(x, n, star=-1):
    if isinstance(x, (tuple, list)): v = list(x)
    elif isinstance(x, SList) and x.opaque():
        v = []
        ps = list(x._norm())
        while ps and (star < 0 or len(v) < star):
            if isinstance(ps[0], Seg):
                ps = list(norm(tuple([ps[0]]))) + ps[1:] if ps[0].parts is not None else list(open_seg(ps[0])) + ps[1:]
                continue
            v.append(ps.pop(0))
            if star < 0 and len(v) > n: raise ValueError('too many values to unpack (expected %d)' % n)
        if star >= 0:
            if star != n - 1: raise Unsupported('starred unpacking')
            if len(v) < star: raise ValueError('not enough values to unpack')
            return v + [SList(ps=ps)]
    else: v = list(iterate(x))
    if star >= 0:
        if len(v) < n - 1: raise ValueError('not enough values to unpack')
        tail = n - 1 - star
        return v[:star] + [SList(ps=v[star:len(v)-tail])] + v[len(v)-tail:]
    if len(v) < n: raise ValueError('not enough values to unpack (expected %d, got %d)' % (n, len(v)))
    if len(v) > n: raise ValueError('too many values to unpack (expected %d)' % n)
    return v

def getitem(o, k):
    if isinstance(k, slice): return getslice(o, k)
    if isinstance(o, (SStr, SList)) or isinstance(o, (str, list, tuple)) and isinstance(k, SInt):
        if type(o) is not SList and isinstance(o, SList) and is_trans(type(o)) and is_trans_fn(type(o).__getitem__): return call(type(o).__getitem__, o, k)
        ps = norm(pieces(o)) if isstr(o) else norm(tuple(topieces(o)))
        mk = (lambda c: mkstr((c,))) if isstr(o) else (lambda c: c)
        n = lenz(ps)
        if isinstance(k, int) and not any(isinstance(p, Seg) for p in ps):
            return mk(ps[k])
        if isinstance(k, int) and k < 0:
            i = len(ps) + k
            if i >= 0 and not any(isinstance(p, Seg) for p in ps[i:]): return mk(ps[i])
            j = len(ps) - 1
            while ps and isinstance(ps[-1], Seg):
                open_seg_end(ps[-1]); ps = norm(ps)
            if not ps: raise IndexError('index out of range')
            return mk(ps[-1]) if k == -1 else getitem(mkstr(ps[:-1]) if isstr(o) else SList(ps=ps[:-1]), k + 1)
        e = num(k)
        if e is None: raise TypeError('indices must be integers')
        if C().decide(e < 0): e = e + n
        if C().decide(z3.Or(e < 0, e >= n)): raise IndexError('index out of range')
        a, b = split_at(ps, mkint(e))
        b = norm(b)
        while b and isinstance(b[0], Seg):
            open_seg(b[0]); b = norm(b)
        if not b: raise PathEnd()
        return mk(b[0])
    if isinstance(o, (dict,)) and is_sym(k):
        for kk in o:
            if truth(eq(kk, k)): return o[kk]
        raise KeyError(k)
    if isinstance(o, tuple) and isinstance(k, SInt): return o[k.__index__()]
    if is_trans(type(o)) and is_trans_fn(getattr(type(o), '__getitem__', None)): return call(type(o).__getitem__, o, k)
    if isinstance(o, Atom): raise Unsupported('subscript of an atom')
    return o[k]
def getslice(o, s):
    if isinstance(o, (str, list, tuple)) and not any(isinstance(x, SInt) for x in (s.start, s.stop, s.step)):
        return o[s]
    st = isstr(o)
    if st: ps = norm(pieces(o))
    elif isinstance(o, SList): ps = norm(tuple(o.ps))
    elif isinstance(o, (list, tuple)): ps = tuple(o)
    else: return o[s]
    mk = mkstr if st else (lambda p: SList(ps=list(p)))
    if s.step not in (None, 1):
        if st and s.step == -1 and s.start is None and s.stop is None: return mk(tuple(reverse(p) for p in ps[::-1]))
        if any(isinstance(p, Seg) for p in ps): raise Unsupported('slice with a step')
        return mk(ps[s])
    if not any(isinstance(p, Seg) for p in ps) and not any(isinstance(x, SInt) for x in (s.start, s.stop)):
        return mk(ps[s])
    n = lenz(ps)
    def bound(x, dflt):
        if x is None: return dflt
        if isinstance(x, int) and x >= 0:
            return x if z3.is_true(z3.simplify(n >= x)) or core.C.decide(n >= x) else n
        e = num(x)
        if core.C.decide(e < 0):
            e = z3.simplify(e + n)
            if core.C.decide(e < 0): return 0
            return e
        if core.C.decide(e > n): return n
        return e
    a, b = bound(s.start, 0), bound(s.stop, None)
    za = z3.IntVal(a) if isinstance(a, int) else a
    if b is not None:
        zb = z3.IntVal(b) if isinstance(b, int) else b
        if core.C.decide(za >= zb): return '' if st else SList(ps=[])
        # suffix counts from the end: cut there first
        left, _ = split_at(ps, mkint(zb))
    else: left = ps
    _, r = split_at(norm(left), mkint(za))
    return mk(norm(r))
def reverse(p):
    """The piece of a string backwards."""
    if not isinstance(p, Seg): return p
    if 'rev' not in p.memo:
        t = Seg('reversed', 'str', p.elem)
        core.C.assume(t.n == p.n)
        p.memo['rev'], t.memo['rev'] = t, p
        def on(seg, parts):
            o = seg.memo['rev']
            if o.parts is None: o.refine(tuple(reverse(q) for q in parts[::-1]))
        for x in (p, t): x.memo.setdefault('onrefine', []).append(on)
    return p.memo['rev']
def setitem(o, k, v):
    if is_trans(type(o)) and is_trans_fn(getattr(type(o), '__setitem__', None)): return call(type(o).__setitem__, o, k, v)
    if isinstance(o, (dict,)) and is_sym(k): raise Unsupported('symbolic key in a native dict')
    o[k] = v
def setitem_list(o, k, v):
    if isinstance(k, slice):
        if k.start is None and k.stop is None and k.step is None:
            q = list(topieces(v)); o.w(); o.ps = q; return
        a = o.native(); a[k] = list(topieces(v)); o.w(); o.ps = a; return
    k = o._idx(k)
    if isinstance(k, int) and not o.opaque():
        o.w(); o.ps = list(o.ps); o.ps[k] = v; return
    if isinstance(k, int) and k < 0:
        ps = o._norm(); j = len(ps) + k
        if j >= 0 and not any(isinstance(p, Seg) for p in ps[j:]): o.w(); ps[j] = v; return
    e = num(k); n = lenz(o._norm())
    if C().decide(e < 0): e = e + n
    if C().decide(z3.Or(e < 0, e >= n)): raise IndexError('list assignment index out of range')
    a, b = split_at(o.ps, mkint(e)); b = norm(b)
    while b and isinstance(b[0], Seg):
        open_seg(b[0]); b = norm(b)
    o.w(); o.ps = list(a) + [v] + list(b[1:])
def delitem(o, k):
    if is_trans(type(o)) and is_trans_fn(getattr(type(o), '__delitem__', None)): return call(type(o).__delitem__, o, k)
    del o[k]

# ------------------------------------------------------- attributes, objects
def getattr_(o, name):
    if isinstance(o, SList) and name == '__class__': return type(o)
    if isinstance(o, ModuleType) and name in ():
        pass
    v = getattr(o, name)
    if isinstance(v, Lazy):
        v = v.fn(); object.__setattr__(o, name, v)
    return v
class Lazy:
    def __init__(self, fn): self.fn = fn
ModuleType = types.ModuleType
def setattr_(o, name, v):
    if core.C is not None: touched((o, 'attr', name))
    d = getattr(type(o), name, None)
    if isinstance(d, property):
        call(d.fset, o, v); return
    builtins.setattr(o, name, v)
def delattr_(o, name):
    touched((o, 'attr', name)); builtins.delattr(o, name)
def newobj(cls, **attrs):
    """An instance of a translated class with the given attributes, not run through __init__."""
    o = cls.__new__(cls)
    if isinstance(o, (SList, SMap, SSet)): cls.__mro__ and [b for b in cls.__mro__ if b in (SList, SMap, SSet)][0].__init__(o)
    elif isinstance(o, SUserDict): SUserDict.__init__(o)
    object.__setattr__(o, 'oid', core.C.newid())
    for k, v in attrs.items(): object.__setattr__(o, k, v)
    return o

TRANS = set()           # names of translated modules
def is_trans(t): return getattr(t, '__module__', None) in TRANS
def is_trans_fn(f):
    f = getattr(f, '__func__', f)
    return isinstance(f, types.FunctionType) and f.__globals__.get('__name__') in TRANS

# ------------------------------------------------------------------- calls
MODELS = {}             # native function -> model
TMODELS = {}            # qualified name of a native type's method
CONTRACTS = {}          # 'module:qualname' -> contract function
def model(*fs):
    def d(g):
        for f in fs: MODELS[f] = g
        return g
    return d
def qual(f):
    f = getattr(f, '__func__', f)
    return '%s:%s' % (getattr(f, '__module__', ''), getattr(f, '__qualname__', getattr(f, '__name__', '')))
class Seen:
    inlined = set()
    contracted = set()
    external = set()
def call(f, *a, **k):
    try: m = MODELS.get(f)
    except TypeError: m = None
    if m is not None: return m(*a, **k)
    if isinstance(f, types.MethodType):
        q = qual(f)
        if q in CONTRACTS and q not in core.C.opts.get('verify', ()):
            Seen.contracted.add(q); return CONTRACTS[q](f.__self__, *a, **k)
        if is_trans_fn(f):
            return run_fn(q, f, a, k)
        try: m = MODELS.get(f.__func__)
        except TypeError: m = None
        if m is not None: return m(f.__self__, *a, **k)
        return f(*a, **k)
    if isinstance(f, types.FunctionType):
        q = qual(f)
        if q in CONTRACTS and q not in core.C.opts.get('verify', ()):
            Seen.contracted.add(q); return CONTRACTS[q](*a, **k)
        if is_trans_fn(f):
            return run_fn(q, f, a, k)
    if isinstance(f, type):
        if is_trans(f):
            q = '%s:%s' % (f.__module__, f.__qualname__)
            if q in CONTRACTS and q not in core.C.opts.get('verify', ()):
                Seen.contracted.add(q); return CONTRACTS[q](*a, **k)
            core.C.frames.append(q)
            o = f(*a, **k)
            core.C.frames.pop()
            if not hasattr(o, 'oid'):
                try: object.__setattr__(o, 'oid', core.C.newid())
                except AttributeError: pass
            return o
        if issubclass(f, BaseException): return f(*[x if isinstance(x, (str, int)) else repr(type(x)) for x in a])
        if f in (SList, SMap, SSet, functools.partial, slice): return f(*a, **k)
    if isinstance(f, StubFn): return f(*a, **k)
    mod = getattr(f, '__module__', None)
    if getattr(f, '_pyvc_model', False) or isinstance(f, functools.partial): return f(*a, **k)
    if (mod or '') in ('rt', 'core', 'regex', 'pv') or CONTRACTMOD(mod or ''): return f(*a, **k)
    if is_trans_fn(f): return f(*a, **k)
    if callable(f) and is_trans(type(f)): return call(type(f).__call__, f, *a, **k)
    if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
        slf = getattr(f, '__self__', None)
        if isinstance(slf, str): return strmeth(slf, f.__name__, a, k)
        if isinstance(slf, (SStr, SList, SMap, SSet)): return f(*a, **k)
        if isinstance(slf, (list, dict, set)) or slf is not None and not isinstance(slf, types.ModuleType) and type(slf).__module__ not in ('builtins',): return f(*a, **k)
        raise Unsupported('no contract for %r with symbolic arguments' % (getattr(f, '__qualname__', f),))
    Seen.external.add(str(getattr(f, '__qualname__', f)))
    slf = getattr(f, '__self__', None)
    if isinstance(slf, (SList, SMap, SSet, Heap)): return f(*a, **k)
    if f in KEEP: return f(*a, **k)
    return lift(f(*[native(x) for x in a], **{n: native(x) for n, x in k.items()}))
CONTRACTMOD = re.compile(r'^(C\d\d|spec_\w+)$').match
KEEP = {iter, next, id, type, callable}
def run_fn(q, f, a, k):
    Seen.inlined.add(q)
    fr = core.C.frames
    if len(fr) > 60: raise Unsupported('recursion over 60 calls deep')
    n = len(fr)
    fr.append(q)
    try:
        return f(*a, **k)
    finally:
        del fr[n:]
class StubFn:
    """Stands for something imported that is not here; a model must be given to call it."""
    def __init__(self, name): self.__dict__['_name'] = name
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        s = EXTERN.get(self._name + '.' + n)
        if s is not None: return s
        s = StubFn(self._name + '.' + n)
        self.__dict__[n] = s
        return s
    def __call__(self, *a, **k):
        m = EXTERN.get(self._name)
        if m is not None: return m(*a, **k)
        raise Unsupported('no contract for %s' % self._name)
    def __hash__(self): return hash(self._name)
    def __eq__(self, o): return isinstance(o, StubFn) and o._name == self._name
    def __or__(self, o): return self
    __ror__ = __or__
    def __mro_entries__(self, bases): return (object,)
EXTERN = {}
def meth(o, name, *a, **k):
    if isinstance(o, (SStr,)) : return strmeth(o, name, a, k)
    if isinstance(o, str):
        if is_sym(a) or k and is_sym(tuple(k.values())) or name in ('join', 'format') or any(isinstance(x, (SList, SIter, Atom)) for x in a): return strmeth(o, name, a, k)
        return lift(getattr(o, name)(*a, **k))
    if isinstance(o, re.Pattern): 
        return regex.pattern_method(o, name, a, k)
    return call(getattr_(o, name), *a, **k)

# ------------------------------------------------------------ binary operators
SETOPS = dict(BitOr='or', BitAnd='and', Sub='sub')
BIN = dict(Add=operator.add, Sub=operator.sub, Mult=operator.mul, Div=operator.truediv, FloorDiv=operator.floordiv, Mod=operator.mod, Pow=operator.pow,
           LShift=operator.lshift, RShift=operator.rshift, BitOr=operator.or_, BitXor=operator.xor, BitAnd=operator.and_, MatMult=operator.matmul)
NAMES = dict(Add='__add__', Sub='__sub__', BitOr='__or__', BitAnd='__and__')
def binop(op, a, b):
    if op == 'Mod' and isstr(a): return percent(a, b)
    if op in NAMES and is_trans(type(a)) and is_trans_fn(getattr(type(a), NAMES[op], None)): return call(getattr(type(a), NAMES[op]), a, b)
    if op == 'Add' and isinstance(a, tuple) and isinstance(b, SList): raise TypeError('can only concatenate tuple')
    return BIN[op](a, b)
IN = dict(Add='__iadd__', Sub='__isub__', BitOr='__ior__')
def iop(op, a, b):
    if op in IN and is_trans(type(a)) and is_trans_fn(getattr(type(a), IN[op], None)): return call(getattr(type(a), IN[op]), a, b)
    if op == 'Add' and isinstance(a, SList): return a.__iadd__(b)
    if op in SETOPS and isinstance(a, SSet): return a._op(SETOPS[op], b)
    if op == 'BitOr' and isinstance(a, SMap): a.update(b); return a
    return binop(op, a, b)

# --------------------------------------------------------------- formatting
def tostr(x):
    if isstr(x): return x
    if is_trans(type(x)):
        if is_trans_fn(type(x).__str__): return call(type(x).__str__, x)
        if is_trans_fn(type(x).__repr__): return call(type(x).__repr__, x)
    if isinstance(x, SInt): return decstr(x)
    if CONTRACTMOD(type(x).__module__) and hasattr(x, 'str_'): return x.str_()
    if is_sym(x) or isinstance(x, (SList, SMap, SSet)):
        core.C.exact = False
        return newstr('text')
    return str(x)
def decstr(x):
    s = Seg('dec', 'str', lambda c: z3.Or(z3.And(c >= 48, c <= 57), c == 45), ('dec', x), 1)
    return SStr((s,))
HEXL, HEXU = 87, 55
def hexdigits(e, width, upper=False):
    """pieces of e >= 0 in hex, at least width digits (e < 2**32)"""
    n = 1
    known = core.C.facts.setdefault('hexnum', {})
    if (e.get_id(), upper) in known:
        ps = known[e.get_id(), upper][1]
        return [48] * (width - len(ps)) + list(ps)
    while not core.C.decide(e < 16 ** n):
        n += 1
        if n > 8: raise Unsupported('hex of a large number')
    # the digits v of e: e == sum(v * 16**i), 0 <= v < 16; each digit's character is a variable
    ps, tot = [], []
    tab = core.C.facts.setdefault('hexd', {})
    for i in range(n - 1, -1, -1):
        v, h = z3.Int(core.C.fresh('digit')), z3.Int(core.C.fresh('hexd'))
        core.C.assume(z3.And(v >= 0, v < 16, h == z3.If(v < 10, 48 + v, (HEXU if upper else HEXL) + v)))
        tot.append(v * 16 ** i if i else v)
        tab[h.get_id()] = (h, v)
        ps.append(h)
    core.C.assume(z3.Sum(*tot) == e)
    known[e.get_id(), upper] = (e, list(ps))
    return [48] * (width - n) + ps
def fmt1(v, spec):
    spec = native(spec) if not isinstance(spec, str) else spec
    if spec == '': return tostr(v)
    if not is_sym(v): return format(v, spec)
    m = re.match(r'^(0?)(\d*)([xXds])$', spec)
    if m and isinstance(v, SInt) and m.group(3) in 'xX' and (m.group(1) or not m.group(2)):
        if not core.C.must(v.e >= 0): raise Unsupported('hex of a negative number')
        return mkstr(hexdigits(v.e, int(m.group(2) or 1), m.group(3) == 'X'))
    if m and isstr(v) and m.group(3) == 's' and not m.group(2): return v
    core.C.exact = False
    return SStr((Seg('fmt', 'str', None, ('fmt', v, spec)),))
def fstring(*parts):
    r = ''
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == 114: v = repr_(v)
            r = r + fmt1(v, spec)
        else: r = r + p
    return r
def repr_(v):
    if is_trans(type(v)) and is_trans_fn(type(v).__repr__): return call(type(v).__repr__, v)
    if is_sym(v):
        core.C.exact = False
        return newstr('repr')
    return repr(v)
def getfield(field, a, k):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    v = a[first] if isinstance(first, int) else k[first]
    for isattr, i in rest: v = getattr_(v, i) if isattr else getitem(v, i)
    return v
def strformat(s, a, k):
    import string
    if not isinstance(s, str): raise Unsupported('symbolic format string')
    r, auto = '', 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        r = r + lit
        if field is None: continue
        if field == '': v = a[auto]; auto += 1
        elif field.isdigit(): v = a[int(field)]
        elif re.match(r'^\w+$', field): v = k[field]
        else:
            v = getfield(field, a, k)
        if conv == 'r': v = repr_(v)
        if '{' in (spec or ''): raise Unsupported('nested format')
        r = r + fmt1(v, spec or '')
    return r
def percent(s, b):
    if not is_sym(b) and isinstance(s, str): return s % (native(b) if not isinstance(b, tuple) else tuple(native(x) for x in b))
    if not isinstance(s, str): raise Unsupported('symbolic format string')
    args = list(b) if isinstance(b, tuple) else [b]
    r = ''
    for m in re.finditer(r'%%|%(0?)(\d*)([sdxXr])|([^%]+)', s):
        if m.group(4): r = r + m.group(4)
        elif m.group(0) == '%%': r = r + '%'
        else:
            v = args.pop(0)
            t = m.group(3)
            r = r + (tostr(v) if t == 's' else repr_(v) if t == 'r' else fmt1(v, m.group(1) + m.group(2) + t))
    return r

# ------------------------------------------------------------------- strings
WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) + [0x2028, 0x2029, 0x202F, 0x205F, 0x3000]
def inset(c, cs):
    """z3/bool: the character c is one of the code points cs"""
    if isinstance(c, int): return c in cs
    cs = sorted(set(cs)); rs = []
    for x in cs:
        if rs and rs[-1][1] == x - 1: rs[-1][1] = x
        else: rs.append([x, x])
    return z3.Or(*[c == a if a == b else z3.And(c >= a, c <= b) for a, b in rs]) if rs else z3.BoolVal(False)
def excludes(seg, pred):
    """no character of seg can satisfy pred (by what is known of its elements)"""
    if seg.elem is None: return False
    c = z3.Int('probe')
    s = z3.Solver(); s.set('timeout', 500)
    s.add(seg.elem(c), c >= 0, c < MAXCHR, pred(c))
    return s.check() == z3.unsat
def both(f, g):
    if f is None: return g
    return lambda c: z3.And(f(c), g(c))
def find_piece(ps, ch):
    """first position of the character ch (int) in pieces: (left, right after it) or None; forks"""
    ps = norm(tuple(ps))
    left = ()
    while ps:
        p, ps = ps[0], ps[1:]
        if isinstance(p, Seg):
            pr = lambda c: c == ch
            if excludes(p, pr): left += (p,); continue
            if core.C.decide(z3.Contains(p.z, z3.Unit(z3.IntVal(ch)))):
                a, b = p.sub('a'), p.sub('b')
                a.elem = both(p.elem, lambda c: c != ch)
                core.C.assume(z3.Not(z3.Contains(a.z, z3.Unit(z3.IntVal(ch)))))
                p.refine((a, ch, b))
                return left + (a,), (b,) + ps
            p.elem = both(p.elem, lambda c: c != ch)
            left += (p,)
        else:
            q = chareq(p, ch)
            if q is True or q is not False and core.C.decide(q): return left, ps
            left += (p,)
    return None
def find_piece_last(ps, ch):
    """last position of the character ch: (what is before it, what is after it) or None; forks"""
    ps = norm(tuple(ps))
    right = ()
    while ps:
        ps, p = ps[:-1], ps[-1]
        if isinstance(p, Seg):
            if not excludes(p, lambda c: c == ch):
                if core.C.decide(z3.Contains(p.z, z3.Unit(z3.IntVal(ch)))):
                    a, b = p.sub('a'), p.sub('b')
                    b.elem = both(p.elem, lambda c: c != ch)
                    core.C.assume(z3.Not(z3.Contains(b.z, z3.Unit(z3.IntVal(ch)))))
                    p.refine((a, ch, b))
                    return ps + (a,), (b,) + right
                p.elem = both(p.elem, lambda c: c != ch)
        else:
            q = chareq(p, ch)
            if q is True or q is not False and core.C.decide(q): return ps, right
        right = (p,) + right
    return None
def intchar(x, what):
    p = pieces(x)
    if p is None: raise TypeError('must be str')
    if len(p) != 1 or not isinstance(p[0], int): raise Unsupported('%s of a string of several or unknown characters' % what)
    return p[0]
def rsplit(s, sep=None, maxsplit=-1):
    if sep is None or maxsplit < 0: return split(s, sep)
    out, rest = [], norm(pieces(s))
    while maxsplit != 0:
        if len(out) > 12: raise Unsupported('rsplit of an opaque string')
        r = find_piece_last(rest, intchar(sep, 'rsplit'))
        if r is None: break
        out.insert(0, mkstr(r[1])); rest = norm(r[0]); maxsplit -= 1
    return SList([mkstr(rest)] + out)
def str_in(x, s):
    px, ps = pieces(x), pieces(s)
    if px is None: raise TypeError("'in <string>' requires string as left operand")
    if not px: return True
    if all(isinstance(c, int) for c in px + ps): return ''.join(map(chr, px)) in ''.join(map(chr, ps))
    if not any(isinstance(c, Seg) for c in px + ps):
        if len(px) == 1:
            if all(isinstance(c, int) for c in ps): return SBool(inset(px[0], ps)) if ps else False
            return bor(*[mkbool(chareq(px[0], c)) if not isinstance(chareq(px[0], c), bool) else chareq(px[0], c) for c in ps])
        if len(px) > len(ps): return False
        return bor(*[streq(px, ps[i:i+len(px)]) for i in range(len(ps) - len(px) + 1)])
    if len(px) == 1 and isinstance(px[0], int):
        rest = []
        for c in ps:
            if isinstance(c, Seg):
                if not excludes(c, lambda q: q == px[0]): rest.append(mkbool(z3.Contains(c.z, z3.Unit(z3.IntVal(px[0])))))
            else:
                q = chareq(c, px[0])
                if q is True: return True
                if q is not False: rest.append(mkbool(q))
        return bor(*rest)
    return mkbool(z3.Contains(seqz(ps), seqz(px)))
def startswith(s, x):
    if isinstance(x, tuple): return bor(*[startswith(s, y) for y in x])
    ps, px = list(pieces(s)), list(pieces(x))
    cs = []
    while ps and px:
        if samec(ps[0], px[0]): ps.pop(0); px.pop(0); continue
        if isinstance(ps[0], Seg) and isinstance(px[0], int) and excludes(ps[0], lambda c: c == px[0]):
            if core.C.must(ps[0].n > 0): return False
        if isinstance(ps[0], Seg) or isinstance(px[0], Seg): break
        c = chareq(ps[0], px[0])
        if c is False: return False
        cs.append(c); ps.pop(0); px.pop(0)
    if not px: return band(*[mkbool(c) for c in cs if c is not True])
    if not ps:
        if any(not isinstance(c, Seg) for c in px): return False
        return band(*[mkbool(c.n == 0) for c in px], *[mkbool(c) for c in cs if c is not True])
    if not any(isinstance(c, Seg) for c in ps) and len([c for c in px if not isinstance(c, Seg)]) > len(ps): return False
    return mkbool(z3.And(z3.PrefixOf(seqz(tuple(px)), seqz(tuple(ps))), *[c for c in cs if c is not True]))
def endswith(s, x):
    if isinstance(x, tuple): return bor(*[endswith(s, y) for y in x])
    ps, px = list(pieces(s)), list(pieces(x))
    cs = []
    while ps and px:
        if samec(ps[-1], px[-1]): ps.pop(); px.pop(); continue
        if isinstance(ps[-1], Seg) and isinstance(px[-1], int) and excludes(ps[-1], lambda c: c == px[-1]):
            if core.C.must(ps[-1].n > 0): return False
        if isinstance(ps[-1], Seg) or isinstance(px[-1], Seg): break
        c = chareq(ps[-1], px[-1])
        if c is False: return False
        cs.append(c); ps.pop(); px.pop()
    if not px: return band(*[mkbool(c) for c in cs if c is not True])
    if not ps and any(not isinstance(c, Seg) for c in px): return False
    return mkbool(z3.And(z3.SuffixOf(seqz(tuple(px)), seqz(tuple(ps))), *[c for c in cs if c is not True]))
def strip(s, chars, left, right):
    cs = WS if chars is None else list(map(ord, native(chars)))
    ps = list(norm(pieces(s)))
    def go(front):
        nonlocal ps
        while ps:
            i = 0 if front else -1
            p = ps[i]
            if isinstance(p, Seg):
                if excludes(p, lambda c: inset(c, cs)):
                    if core.C.decide(p.n > 0): return
                    p.refine(()); ps = list(norm(tuple(ps))); continue
                st = p.memo.get(('striped', front))
                # an opaque run: some stripped part, then nothing or a character that stays
                if core.C.decide(p.n == 0): p.refine(()); ps = list(norm(tuple(ps))); continue
                bad = p.sub('ws'); bad.elem = both(p.elem, lambda c: inset(c, cs))
                if core.C.choose(2) == 0:
                    # the whole of it is stripped
                    p.refine((bad,)); ps.pop(i); continue
                ch = p.item()
                core.C.assume(z3.Not(inset(ch, cs)))
                rest = p.sub('r')
                p.refine((bad, ch, rest) if front else (rest, ch, bad))
                ps = list(norm(tuple(ps)))
                if front: ps = ps[1:] if ps and ps[0] is bad else ps
                else: ps = ps[:-1] if ps and ps[-1] is bad else ps
                return
            q = inset(p, cs)
            if q is True or q is not False and core.C.decide(q): ps.pop(i)
            else: return
    if left: go(True)
    if right: go(False)
    return mkstr(ps)
CASE = {}
def casemap(s, how):
    out = ()
    for p in norm(pieces(s)):
        if isinstance(p, int): out += tuple(map(ord, getattr(chr(p), how)()))
        elif isinstance(p, Seg):
            t = p.memo.get(how)
            if t is None:
                if p.memo.get('is_' + how): t = p
                else:
                    t = Seg(how, 'str'); t.memo['is_' + how] = True
                    f = z3.Function('str_' + how, SeqS, SeqS)
                    core.C.assume(t.z == f(p.z))
                p.memo[how] = t
            out += (t,)
        else:
            # a single character: ASCII exactly, otherwise an unknown string
            if core.C.decide(p < 128):
                out += (z3.If(z3.And(p >= 65, p <= 90), p + 32, p) if how == 'lower' else z3.If(z3.And(p >= 97, p <= 122), p - 32, p),)
            else:
                f = z3.Function('chr_' + how, z3.IntSort(), SeqS)
                tab = core.C.facts.setdefault('chr' + how, {})
                if p.get_id() not in tab:
                    # of a character beyond ASCII: one to three characters, letters if in ASCII
                    t = Seg(how + 'c', 'str', lambda c: z3.Or(c >= 128, z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)), None, 1); core.C.assume(z3.And(t.z == f(p), t.n <= 3))
                    tab[p.get_id()] = (t, p)
                core.C.exact = False
                out += (tab[p.get_id()][0],)
    return mkstr(out)
def joinstr(sep, it):
    ps = norm(tuple(topieces(it))) if not isinstance(it, SIter) else norm(tuple(it.pieces()))
    if not any(isinstance(p, Seg) for p in ps):
        r = ''
        for i, x in enumerate(ps):
            if not isstr(x): raise TypeError('sequence item %d: expected str instance' % i)
            r = r + (sep if i else '') + x
        return r
    out, first = (), True
    sp = pieces(sep)
    for p in ps:
        if isinstance(p, Seg):
            if sp: 
                # the separator goes between the items: left opaque
                t = p.memo.get(('join', sp))
                if t is None:
                    t = p.memo[('join', sp)] = (Seg('joined', 'str'),)
                    t[0].memo['joinof'] = p
                    if 'onjoin' in p.memo: pass
                if first and len(ps) == 1: return mkstr(t)
                raise Unsupported('join of an opaque list with a separator')
            t = p.memo.get(('join', ()))
            if t is None:
                f = p.memo.get('joinfn')
                t = p.memo[('join', ())] = f() if f else charwise(p) or (Seg('joined', 'str'),)
            out += tuple(t)
        else:
            if not isstr(p): raise TypeError('sequence item: expected str instance')
            out += pieces(p) if not sp or first else sp + pieces(p)
        first = False
    return mkstr(out)
def charwise(p):
    """the joined strings that a list segment made of the characters of a string holds, one for each"""
    if isinstance(p, WSeg):
        if len(p.segs) != 1 or p.segs[0].kind != 'str': return None
        q, f = p.segs[0], lambda c: p.fn(c, Poison('the position'))
    elif isinstance(p.src, tuple) and p.src[0] == 'mapl' and p.src[1].kind == 'str': q, f = p.src[1], lambda c: p.src[2](mkstr((c,)))
    else: return None
    def fn(c):
        r = f(c)
        if not isstr(r): raise TypeError('sequence item: expected str instance')
        return r
    return (mapped(q, ('comp', id(p)), fn),)
def split(s, sep=None, maxsplit=-1):
    if sep is None:
        c = s if isinstance(s, str) else s.conc()
        if c is None: raise Unsupported('split at white space of an opaque string')
        return SList(c.split(None, maxsplit))
    sp = pieces(sep)
    if len(sp) != 1 or not isinstance(sp[0], int):
        if not sp: raise ValueError('empty separator')
        raise Unsupported('split at a string')
    out, rest = [], norm(pieces(s))
    while maxsplit != 0:
        if len(out) > 12: raise Unsupported('split of an opaque string')
        r = find_piece(rest, sp[0])
        if r is None: break
        out.append(mkstr(r[0])); rest = norm(r[1]); maxsplit -= 1
    return SList(out + [mkstr(rest)])
def find(s, x, start=None):
    px = pieces(x)
    if start not in (None, 0): 
        r = find(getslice(s, slice(start, None)), x)
        return -1 if truth(eq(r, -1)) else r + start
    ps = norm(pieces(s))
    if len(px) == 1 and isinstance(px[0], int):
        r = find_piece(ps, px[0])
        return -1 if r is None else mkint(lenz(norm(r[0])))
    if not any(isinstance(c, Seg) for c in ps + px):
        for i in range(len(ps) - len(px) + 1):
            if truth(streq(ps[i:i+len(px)], px)): return i
        return -1
    return mkint(z3.IndexOf(seqz(ps), seqz(px), 0))
def replace(s, a, b, *n):
    if n: raise Unsupported('replace with a count')
    pa = pieces(a)
    if len(pa) != 1 or not isinstance(pa[0], int):
        cs, ca, cb = (x if isinstance(x, str) else x.conc() for x in (s, a, b))
        if None not in (cs, ca, cb): return cs.replace(ca, cb)
        if ca: return replacescan(pa, b, norm(pieces(s)))
        raise Unsupported('replace of a string')
    out = ()
    for p in norm(pieces(s)):
        if isinstance(p, Seg):
            if excludes(p, lambda c: c == pa[0]): out += (p,)
            else:
                k = ('replace', pa[0], tuple(q if isinstance(q, int) else (id(q),) for q in pieces(b)))
                if k not in p.memo: p.memo[k] = mapped(p, k, lambda c: replace(mkstr((c,)), a, b))
                out += (p.memo[k],)
        else:
            q = chareq(p, pa[0])
            if q is True or q is not False and core.C.decide(q): out += pieces(b)
            else: out += (p,)
    return mkstr(out)
def replacescan(pa, b, ps):
    """replace of a known string of two characters or more, from left to right"""
    out, pb, m = (), pieces(b), len(pa)
    ps = list(ps)
    while ps:
        p = ps[0]
        if isinstance(p, Seg):
            h = p.memo.get('replace')
            t = h(pa, b, p) if h is not None else None
            if t is not None: out += tuple(t); ps = ps[1:]; continue
            if not startsnot(p, pa, ps[1:]): raise Unsupported('replace in an opaque run')
            out += (p,); ps = ps[1:]; continue
        if matchat(pa, ps): out += pb; ps = list(norm(tuple(ps)))[m:]
        else: out += (p,); ps = ps[1:]
    return mkstr(out)
def matchat(pa, ps):
    """whether the characters ps start with pa (decides)"""
    for i, x in enumerate(pa):
        if i >= len(ps): return False
        if isinstance(ps[i], Seg):
            if excludes(ps[i], lambda c: c == x) and core.C.must(ps[i].n > 0): return False
            raise Unsupported('a match that reaches into an opaque run')
        q = chareq(ps[i], x)
        if q is False: return False
        if q is not True and not core.C.decide(q): return False
    return True
def startsnot(g, pa, rest):
    """no match of pa starts in the run g, whatever its length"""
    for j in range(1, len(pa) + 1):
        if any(excludes(g, lambda c, x=x: c == x) for x in pa[:j]): continue
        for i, x in enumerate(pa[j:]):
            if i >= len(rest): break
            if isinstance(rest[i], Seg): return False
            q = chareq(rest[i], x)
            if q is False or q is not True and core.C.must(z3.Not(q)): break
        else: return False
    return True
def mapped(p, k, fn):
    """The segment made by replacing each character c of p with fn(c)."""
    t = Seg('mapped', 'str')
    t.src = ('map', p, k, fn)
    def onref(seg, parts):
        if t.parts is None:
            out = ()
            for q in parts:
                if isinstance(q, Seg):
                    if k not in q.memo: q.memo[k] = mapped(q, k, fn)
                    out += (q.memo[k],)
                else: out += pieces(fn(q))
            t.refine(out)
    p.memo.setdefault('onrefine', []).append(onref)
    return t

def strmeth(s, name, a, k):
    if isinstance(s, SStr):
        c = s.conc()
        if c is not None: s = c
    if isinstance(s, str) and not is_sym(a) and not is_sym(tuple(k.values())) and name not in ('join', 'format'):
        return lift(getattr(s, name)(*[native(x) for x in a], **k))
    if name == 'join': return joinstr(s, a[0])
    if name == 'format': return strformat(s, a, k)
    if name == 'startswith':
        if len(a) > 1: return startswith(getslice(s, slice(a[1], None)), a[0])
        return startswith(s, a[0])
    if name == 'endswith': return endswith(s, a[0])
    if name == 'find': return find(s, *a)
    if name == 'index':
        r = find(s, *a)
        if truth(lt(r, 0)): raise ValueError('substring not found')
        return r
    if name == 'split': return split(s, *a, **k)
    if name == 'rsplit': return rsplit(s, *a, **k)
    if name in ('rfind', 'rindex') and len(a) == 1:
        r = find_piece_last(pieces(s), intchar(a[0], name))
        if r is None and name == 'rindex': raise ValueError('substring not found')
        return -1 if r is None else mkint(lenz(norm(r[0])))
    if name == 'partition':
        r = find_piece(pieces(s), intchar(a[0], name))
        return (s, '', '') if r is None else (mkstr(r[0]), a[0], mkstr(r[1]))
    if name == 'rpartition':
        r = find_piece_last(pieces(s), intchar(a[0], name))
        return ('', '', s) if r is None else (mkstr(r[0]), a[0], mkstr(r[1]))
    if name == 'removeprefix': return getslice(s, slice(slen(a[0]), None)) if truth(startswith(s, a[0])) else s
    if name == 'removesuffix':
        if not truth(endswith(s, a[0])): return s
        n = slen(s) - slen(a[0])
        return getslice(s, slice(0, n))
    if name == 'replace': return replace(s, *a)
    if name == 'strip': return strip(s, a[0] if a else None, True, True)
    if name == 'lstrip': return strip(s, a[0] if a else None, True, False)
    if name == 'rstrip': return strip(s, a[0] if a else None, False, True)
    if name in ('lower', 'upper', 'title'): return casemap(s, name)
    if name == '__len__': return slen(s)
    if name == '__contains__': return str_in(a[0], s)
    if name in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower'):
        core.C.exact = False
        return newbool(name)
    if name == '__add__': return s + a[0]
    if name == '__eq__': return eq(s, a[0])
    raise Unsupported('no contract for str.' + name)

# ------------------------------------------------------------------ builtins
@model(len)
def len_(x):
    if isstr(x): return slen(x)
    if is_trans(type(x)) and is_trans_fn(getattr(type(x), '__len__', None)): return call(type(x).__len__, x)
    if isinstance(x, (SList, SMap, SSet, MapView, SUserDict)): return x.slen()
    if hasattr(x, 'slen'): return x.slen()
    return len(x)
@model(ord)
def ord_(x):
    if isinstance(x, SStr):
        p = x.p
        if len(p) == 1 and not isinstance(p[0], Seg): return mkint(p[0]) if z3.is_expr(p[0]) else p[0]
        if any(isinstance(c, Seg) for c in p):
            if not core.C.must(lenz(p) == 1): raise Unsupported('ord of an opaque string')
            return ord_(getitem(x, 0))
        raise TypeError('ord() expected a character')
    return ord(x)
@model(chr)
def chr_(x):
    if isinstance(x, SInt):
        if core.C.decide(z3.Or(x.e < 0, x.e >= MAXCHR)): raise ValueError('chr() arg not in range')
        return mkstr((x.e,))
    return chr(x)
def hexval(c):
    """(is a hex digit, value) of a character term"""
    if isinstance(c, int): return chr(c) in '0123456789abcdefABCDEF', int(chr(c), 16) if chr(c) in '0123456789abcdefABCDEF' else 0
    t = core.C.facts.get('hexd', {}).get(c.get_id())
    if t is not None: return True, t[1]
    return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102)), z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))
@model(int)
def int_(x=0, base=10):
    if isinstance(x, SStr):
        p = x.p
        if len(p) == 1 and isinstance(p[0], Seg) and p[0].tag and p[0].tag[0] == 'dec': return p[0].tag[1]
        if any(isinstance(c, Seg) for c in p): raise Unsupported('int of an opaque string')
        if base not in (10, 16): raise Unsupported('int with base %s' % base)
        v = z3.IntVal(0)
        if not p: raise ValueError('invalid literal for int()')
        for c in p:
            if base == 16: ok, d = hexval(c)
            else: ok, d = (48 <= c <= 57, c - 48) if isinstance(c, int) else (z3.And(c >= 48, c <= 57), c - 48)
            # signs, spaces, underscores and non ASCII digits: unknown
            if not (ok is True or ok is not False and core.C.decide(ok)):
                if isinstance(c, int): 
                    if len(p) == 1 and not chr(c).isdecimal(): raise ValueError('invalid literal for int()')
                    raise Unsupported('int of an unusual literal')
                if len(p) == 1 and base == 10:
                    core.C.exact = False
                    if core.C.decide(z3.Or(c < 128, z3.Function('isdecimal', z3.IntSort(), z3.BoolSort())(c) == False)): raise ValueError('invalid literal for int()')
                    return newint('digit', 0, 9)
                raise Unsupported('int of an unusual literal')
            v = v * base + d
        return mkint(v)
    if isinstance(x, SInt): return x
    if isinstance(x, SBool): return mkint(x.asint().e)
    if isinstance(x, SReal): return mkint(z3.If(x.e >= 0, z3.ToInt(x.e), 0 - z3.ToInt(0 - x.e)))
    if isinstance(x, NumStr): return x.intval()
    return int(x, base) if isinstance(x, str) and base != 10 else int(x)
class NumStr:
    """A string of digits, known by its value only."""
    def __init__(self, n): self.n = n
    def intval(self): return self.n
    def __bool__(self): return True
    def __eq__(self, o):
        if o is None: return False
        if isinstance(o, (str, SStr, NumStr)): raise Unsupported('comparison of a number as text')
        return False
    __hash__ = None
@model(float)
def float_(x=0.0):
    if isinstance(x, NumStr): return mkreal(z3.ToReal(num(x.n)))
    if isinstance(x, SInt): return mkreal(z3.ToReal(x.e))
    if isinstance(x, SReal): return x
    if isinstance(x, SStr):
        v = int_(x)
        return mkreal(z3.ToReal(num(v))) if isinstance(v, SInt) else float(v)
    if isinstance(x, int): return float(x)
    return float(x)
@model(hex)
def hex_(x):
    if isinstance(x, SInt):
        if not core.C.must(x.e >= 0): raise Unsupported('hex of a negative')
        return mkstr([48, 120] + hexdigits(x.e, 1))
    return hex(x)
@model(str)
def str_(*a, **k):
    if not a: return ''
    return tostr(a[0])
@model(repr)
def repr__(x): return repr_(x)
@model(bool)
def bool_(x=False): return x if isinstance(x, SBool) else truth(x)
@model(abs)
def abs_(x): return abs(x)
@model(isinstance)
def isinstance_(x, t):
    if isinstance(t, (tuple, SList)): return any(isinstance_(x, y) for y in t)
    if isinstance(x, SStr): return t is str or t is object
    if isinstance(x, NumStr): return t is str
    if isinstance(x, SInt): return t in (int, object)
    if isinstance(x, SBool): return t in (bool, int, object)
    if isinstance(x, SReal): return t in (float, object)
    if isinstance(t, StubFn): 
        return bool(getattr(x, '_isa', lambda n: False)(t._name))
    if isinstance(x, Atom): 
        if x.attrs if hasattr(x, 'attrs') else None: return t in x.attrs
        raise Unsupported('type of an atom')
    if t is list: t = (list, SList)
    if t is dict: t = (dict, SMap)
    if t is set: t = (set, SSet)
    return isinstance(x, t)
@model(issubclass)
def issubclass_(a, b): return issubclass(a, b)
@model(hasattr)
def hasattr_(o, n):
    if not isinstance(n, str):
        c = n.conc() if isinstance(n, SStr) else None
        if c is None:
            h = getattr(o, '_hasattr', None)
            if h: return h(n)
            raise Unsupported('hasattr with a symbolic name')
        n = c
    v = getattr(o, n, ABSENT)
    if isinstance(v, Lazy): v = getattr_(o, n)
    return v is not ABSENT
@model(getattr)
def getattr__(o, n, *d):
    if not isinstance(n, str):
        c = n.conc() if isinstance(n, SStr) else None
        if c is None:
            h = getattr(o, '_getattr', None)
            if h: return h(n, *d)
            raise Unsupported('getattr with a symbolic name')
        n = c
    if d:
        v = getattr(o, n, ABSENT)
        if v is ABSENT: return d[0]
        v = getattr_(o, n)
        return d[0] if v is ABSENT else v
    return getattr_(o, n)
@model(setattr)
def setattr__(o, n, v):
    if not isinstance(n, str):
        c = n.conc() if isinstance(n, SStr) else None
        if c is None:
            h = getattr(o, '_setattr', None)
            if h: return h(n, v)
            raise Unsupported('setattr with a symbolic name')
        n = c
    setattr_(o, n, v)
@model(tuple)
def tuple_(x=()):
    if isinstance(x, SList): return tuple(x.native()) if not x.opaque() else SFrozen(ps=list(x.ps))
    return tuple(iterate(x))
@model(enumerate)
def enumerate_(x, start=0):
    if isinstance(x, SStr) and any(isinstance(c, Seg) for c in x.p): ps = [c if isinstance(c, Seg) else mkstr((c,)) for c in x.p]
    else: ps = topieces(x)
    out, pos = [], start
    for p in norm(tuple(ps)):
        if isinstance(p, Seg):
            out.append(WSeg([p], lambda it, at, pos=pos: (wrapint(pos, at), it)))
            pos = wrapint(pos, p.n)
        else:
            out.append((pos, p)); pos = pos + 1
    return SIter(out)
def wrapint(a, b): return mkint(num(a) + b)
@model(range)
def range_(*a):
    if not any(isinstance(x, SInt) for x in a): return range(*a)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if step == 1:
        n = mkint(z3.If(num(stop) - num(start) > 0, num(stop) - num(start), z3.IntVal(0)))
        if isinstance(n, int): return SIter([start + i for i in range(n)])
        s = Seg('range', 'list')
        s.elem = None
        core.C.assume(s.n == n.e)
        return RangeIter([WSeg([s], lambda it, at: wrapint(start, at))], start, stop)
    if step == -1:
        n = mkint(z3.If(num(start) - num(stop) > 0, num(start) - num(stop), z3.IntVal(0)))
        if isinstance(n, int): return SIter([start - i for i in range(n)])
        s = Seg('range', 'list')
        core.C.assume(s.n == n.e)
        return RangeIter([WSeg([s], lambda it, at: mkint(num(start) - at))], start, stop)
    if isinstance(step, int) and step > 0:
        d = num(stop) - num(start)
        n = mkint(z3.If(d > 0, (d + (step - 1)) / step, z3.IntVal(0)))
        if isinstance(n, int): return SIter([start + step * i for i in range(n)])
        s = Seg('range', 'list')
        core.C.assume(s.n == n.e)
        return SIter([WSeg([s], lambda it, at: mkint(num(start) + step * at))])
    raise Unsupported('range with a step')
class RangeIter(SIter): 
    def __init__(self, ps, a, b): self.ps = ps; self.a, self.b = a, b
    def __contains__(self, x): return bool(band(ge(x, self.a), lt(x, self.b)))
@model(zip)
def zip_(*its):
    pss = [list(norm(tuple(topieces(x)))) for x in its]
    if not any(isinstance(p, Seg) for ps in pss for p in ps): return SIter(list(zip(*pss)))
    out = []
    while all(pss):
        hs = [ps[0] for ps in pss]
        if not any(isinstance(h, (Seg, WSeg)) for h in hs):
            out.append(tuple(hs)); [ps.pop(0) for ps in pss]; continue
        if all(isinstance(h, Seg) for h in hs) and all(core.C.must(h.n == hs[0].n) for h in hs[1:]):
            out.append(WSeg(hs, lambda *x: tuple(x[:-1]))); [ps.pop(0) for ps in pss]; continue
        raise Unsupported('zip of different opaque lists')
    return SIter(out)
@model(itertools.zip_longest)
def zip_longest_(*its, fillvalue=None):
    pss = [list(iterate(x)) for x in its]
    return SIter(list(itertools.zip_longest(*pss, fillvalue=fillvalue)))
@model(itertools.chain)
def chain_(*its):
    out = []
    for x in its: out.extend(topieces(x))
    return SIter(out)
@model(map)
def map_(f, *its):
    if len(its) == 1: return SIter(mapps(lambda x: call(f, x), topieces(its[0])))
    return SIter([call(f, *xs) for xs in zip(*[list(iterate(x)) for x in its])])
@model(filter)
def filter_(f, x):
    if not isinstance(x, (str, SStr)) and any(isinstance(p, Seg) for p in norm(tuple(topieces(x)))):
        return comp('gen', lambda y: y, (lambda y: call(f, y)) if f is not None else (lambda y: y), x)
    return SIter([y for y in iterate(x) if truth(call(f, y) if f is not None else y)])
def mapps(f, ps):
    out = []
    for p in norm(tuple(ps)):
        if isinstance(p, WSeg): out.append(WSeg(p.segs, lambda *a, p=p: f(p.fn(*a))))
        elif isinstance(p, Seg): out.append(mapseg_list(p, f))
        else: out.append(f(p))
    return out
def mapseg_list(p, f):
    """The list segment of f(x) for the items x of p."""
    t = Seg('mapl', 'list')
    core.C.assume(t.n == p.n)
    t.src = ('mapl', p, f)
    t.elem = lambda hint: f(p.item() if p.kind == 'list' else mkstr((p.item(),)))
    t.memo['of'] = (p, f)
    def onref(seg, parts):
        if t.parts is None:
            t.refine(tuple(mapseg_list(q, f) if isinstance(q, Seg) else f(q) for q in parts))
    def onref2(seg, parts):
        if p.parts is None: raise Unsupported('refinement of a mapped list')
    p.memo.setdefault('onrefine', []).append(onref)
    return t
@model(any)
def any_(x):
    ps = norm(tuple(topieces(x)))
    segs = [p for p in ps if isinstance(p, (Seg, WSeg))]
    for p in ps:
        if isinstance(p, (Seg, WSeg)): raise Unsupported('any over an opaque list')
        if truth(p): return True
    return False
@model(all)
def all_(x):
    for p in norm(tuple(topieces(x))):
        if isinstance(p, (Seg, WSeg)): raise Unsupported('all over an opaque list')
        if not truth(p): return False
    return True
@model(sum)
def sum_(x, start=0):
    if isinstance(x, MapView) and x.opaque() and x.kind == 'values' and getattr(x.m, 'total', None) is not None: return x.m.total + start
    r = start
    for p in norm(tuple(topieces(x))):
        if isinstance(p, (Seg, WSeg)): raise Unsupported('sum over an opaque list')
        r = r + p
    return r
@model(min)
def min_(*a, key=None, **k): return _minmax(a, key, k, lt)
@model(max)
def max_(*a, key=None, **k): return _minmax(a, key, k, gt)
def _minmax(a, key, k, op):
    xs = list(iterate(a[0])) if len(a) == 1 else list(a)
    if not xs:
        if 'default' in k: return k['default']
        raise ValueError('empty sequence')
    f = (lambda x: call(key, x)) if key else (lambda x: x)
    b, kb = xs[0], f(xs[0])
    for x in xs[1:]:
        kx = f(x)
        if isinstance(kx, (SInt, int)) and isinstance(kb, (SInt, int)) and key is None:
            b = kb = mkint(z3.If(num(kx) > num(kb), num(kx), num(kb)) if op is gt else z3.If(num(kx) < num(kb), num(kx), num(kb)))
        elif truth(op(kx, kb)): b, kb = x, kx
    return b
@model(sorted)
def sorted_(x, key=None, reverse=False):
    ps = list(norm(tuple(topieces(x))))
    if any(isinstance(p, (Seg, WSeg)) for p in ps):
        segs, known = [p for p in ps if isinstance(p, Seg)], [p for p in ps if not isinstance(p, (Seg, WSeg))]
        if known and len(segs) + len(known) == len(ps) and all(p.src and p.src[0] == 'map' and p.src[1].base is segs[0].src[1].base and p.src[2] == segs[0].src[2] for p in segs) and segs[0].src[2] != 'values':
            # the entries of a map: the keys are all different. What stands between those known stays open, whatever its order.
            known = list(topieces(sorted_(SList(known), key, reverse)))
            out = []
            for p in [None] + known:
                if p is not None: out.append(p)
                out.append(Seg('sorted', 'list', segs[0].elem))
            core.C.assume(lenz(tuple(out)) == lenz(tuple(ps)))
            return SList(ps=out)
        if len(ps) == 1 and isinstance(ps[0], Seg):
            t = Seg('sorted', 'list', ps[0].elem); core.C.assume(t.n == ps[0].n); t.src = ('sorted', ps[0], key)
            return SList(ps=[t])
        raise Unsupported('sorted of an opaque list')
    f = (lambda v: call(key, v)) if key is not None else (lambda v: v)
    ks = [(f(v), v) for v in ps]
    if not is_sym(ks, 6): 
        try: return SList(sorted_native(ks, reverse))
        except TypeError: raise
    # insertion sort, stable
    out = []
    for kv in ks:
        i = len(out)
        while i > 0 and truth(lt(kv[0], out[i-1][0]) if not reverse else lt(out[i-1][0], kv[0])): i -= 1
        out.insert(i, kv)
    return SList([v for _, v in out])
def sorted_native(ks, reverse):
    class K:
        __slots__ = ('k',)
        def __init__(s, k): s.k = k
        def __lt__(s, o): return truth(lt(s.k, o.k))
    return [v for _, v in sorted(ks, key=lambda kv: K(kv[0]), reverse=bool(reverse))]
@model(reversed)
def reversed_(x): return SIter(list(topieces(x))[::-1]) if not any(isinstance(p, Seg) for p in topieces(x)) else _unsup('reversed of an opaque list')
def _unsup(m): raise Unsupported(m)
@model(list)
def list_(x=()): return SList(ps=list(topieces(x)))
@model(dict)
def dict_(*a, **k): return SMap(*a, **k)
@model(set, frozenset)
def set_(x=()):
    return SSet(x)
@model(iter)
def iter_(x):
    if isinstance(x, SIter): return x
    if is_trans(type(x)) and is_trans_fn(getattr(type(x), '__iter__', None)): return call(type(x).__iter__, x)
    if isinstance(x, (SList, SStr, MapView, SMap, SSet)): return SIter(topieces(x))
    return iter(x)
@model(next)
def next_(x, *d):
    try: return x.__next__() if isinstance(x, SIter) else next(x)
    except StopIteration:
        if d: return d[0]
        raise
@model(print)
def print_(*a, **k): return None
@model(hash)
def hash_(x):
    if is_trans(type(x)) and is_trans_fn(getattr(type(x), '__hash__', None)): return call(type(x).__hash__, x)
    h = core.C.tokens.get('hash')
    if h: return h(x)
    if not is_sym(x): 
        n = native(x)
        if isinstance(n, (str, int, float, tuple, type(None), bytes)): return HashTok(x)
        return hash(n)
    return HashTok(x)
class HashTok:
    """hash(x), known only to be a function of x"""
    def __init__(self, x): self.x = x
    def __eq__(self, o): return isinstance(o, HashTok) and truth(eq(self.x, o.x))
    __hash__ = None
@model(id)
def id_(x): return id(x)
@model(functools.reduce)
def reduce_(f, it, *init):
    xs = list(iterate(it))
    acc = init[0] if init else xs.pop(0)
    for x in xs: acc = call(f, acc, x)
    return acc
@model(callable)
def callable_(x): return callable(x)
@model(divmod)
def divmod_(a, b): return (a // b, a % b)
@model(type)
def type_(x, *a):
    if a: return type(x, *a)
    if isinstance(x, SStr): return str
    if isinstance(x, SInt): return int
    return type(x)
@model(open)
def open_(*a, **k):
    m = EXTERN.get('open')
    if m: return m(*a, **k)
    return open(*a, **k)
@model(breakpoint)
def breakpoint_(): raise RuntimeError('breakpoint')

# ------------------------------------------------------------ comprehensions
def citer(x): return iterate(x)
def compnative(kind, gen):
    if kind == 'list': return SList(list(gen))
    if kind == 'set': return SSet(list(gen))
    if kind == 'dict': return SMap(list(gen))
    return SIter(list(gen))
def comp(kind, fn, cond, it):
    ps = topieces(it) if not (isinstance(it, SStr) and any(isinstance(c, Seg) for c in it.p)) else [c if isinstance(c, Seg) else mkstr((c,)) for c in it.p]
    ps = norm(tuple(ps))
    if any(isinstance(p, (Seg, WSeg)) for p in ps):
        if cond is not None or kind in ('set', 'dict'): return comp_cut(kind, fn, cond, ps)
        out = mapps(fn, [p if not (isinstance(p, Seg) and p.kind == 'str') else WSeg([p], lambda x, at: mkstr((x,))) for p in ps])
        return SList(ps=out) if kind == 'list' else SIter(out)
    out = []
    for x in ps:
        if cond is None or truth(cond(x)): out.append(fn(x))
    if kind == 'list': return SList(out)
    if kind == 'set': return SSet(out)
    if kind == 'dict': return SMap(out)
    return SIter(out)
def comp_cut(kind, fn, cond, ps):
    if len(ps) == 1 and isinstance(ps[0], Seg) and kind in ('list', 'gen'):
        h = ps[0].memo.get('filter')
        if h is not None: return h(kind, fn, cond)
        t = Seg('filtered', 'list')
        src = ps[0]
        core.C.assume(t.n <= src.n)
        def elem(hint):
            x = src.item()
            if cond is not None and not truth(cond(x)): raise PathEnd()
            return fn(x)
        t.elem = elem
        t.src = ('filter', src, cond, fn)
        return SList(ps=[t]) if kind == 'list' else SIter([t])
    if kind in ('list', 'gen') and cond is not None:
        # runs of items none of which is taken
        out = []
        for p in ps:
            if isinstance(p, Seg):
                if core.C.must(p.n == 0): continue
                if p.kind != 'list' or isinstance(p, WSeg): raise Unsupported('comprehension with a condition over an opaque list')
                x = p.item()
                at = core.C.pos
                r = cond(x)
                if core.C.pos != at: raise Unsupported('a condition with branches over an opaque list')
                if isinstance(r, SBool): r = False if core.C.must(z3.Not(r.e)) else r
                if r is not False: out.extend(comp_cut('list', fn, cond, (p,)).ps)
            elif truth(cond(p)): out.append(fn(p))
        return SList(ps=out) if kind == 'list' else SIter(out)
    raise Unsupported('comprehension with a condition over an opaque list')

# --------------------------------------------------------------------- loops
class WSeg(Seg):
    """A run of items computed from the items of equally long segments and the position."""
    __slots__ = ('segs', 'fn')
    def __init__(self, segs, fn):
        self.segs, self.fn = segs, fn
        self.name, self.kind, self.n, self.z, self.parts, self.memo, self.tag, self.src = 'w' + segs[0].name, 'list', segs[0].n, None, None, {}, None, None
        self.elem = None
class Stream: pass
LOOPS = {}              # loop id -> names stored in the body

class Fold:
    """A specification fold over the items of a segment: state and step."""
    def __init__(self, name, init, step, shape, facts=()):
        self.name, self.init, self.step, self.shape, self.facts = name, init, step, shape, facts
    def head(self): return fresh_shape(self.shape, self.name)
    def final(self, seg):
        k = ('fold', self.name)
        if k not in seg.memo: seg.memo[k] = fresh_shape(self.shape, self.name)
        return seg.memo[k]
def fresh_shape(shape, name):
    r = {}
    for c, s in shape.items():
        h = '%s_%s' % (name, c)
        r[c] = newstr(h) if s == 'str' else newint(h) if s == 'int' else newbool(h) if s == 'bool' else newint(h, 0) if s == 'nat' else newreal(h) if s == 'real' else s(h)
    return r

def kind_of(v, item):
    """A descriptor of the shape of v, from which a fresh value can be made."""
    if v is None: return ('none',)
    if v is UNBOUND: return ('unbound',)
    if v is ABSENT: return ('absent',)
    if isinstance(v, Poison): return ('opaque', 'Poison')
    if isinstance(v, (bool, SBool)): return ('bool',)
    if isinstance(v, (int, SInt)): return ('int',)
    if isinstance(v, (SReal, float)): return ('real',)
    if isstr(v):
        if isinstance(v, SStr) and len(v.p) == 1 and not isinstance(v.p[0], Seg): return ('chr',)
        return ('str',)
    if isinstance(v, Atom): return ('atom', v.what)
    if isinstance(v, tuple) and hasattr(type(v), '_make'): return ('named', type(v)) + tuple(kind_of(x, item) for x in v)
    if isinstance(v, tuple): return ('tuple',) + tuple(kind_of(x, item) for x in v)
    if item is not None and v is item: return ('item',)
    k = getattr(v, '_kind', None)
    if k is not None: return ('new', k)
    return ('opaque', type(v).__name__)
def fresh_kind(k, name, L):
    t = k[0]
    if t == 'none': return None
    if t == 'unbound': return UNBOUND
    if t == 'absent': return ABSENT
    if t == 'bool': return newbool(name)
    if t == 'int': return newint(name)
    if t == 'real': return newreal(name)
    if t == 'str': return newstr(name)
    if t == 'chr': return newchar(name)
    if t == 'atom': return Atom(k[1])
    if t == 'tuple': return tuple(fresh_kind(x, name, L) for x in k[1:])
    if t == 'named': return k[1]._make([fresh_kind(x, name, L) for x in k[2:]])
    if t == 'item': return L.seg_item()
    if t == 'new': return k[1](name)
    return Poison('a loop variable of type %s at the loop head' % k[1:])
UNBOUND = type('UNBOUND', (), {'__repr__': lambda s: 'UNBOUND'})()

class Rel:
    """A candidate relation between a cell and the ghost state: make a value
    that satisfies it, and test it."""
    def __init__(self, name, applies, make, test):
        self.name, self.applies, self.make, self.test = name, applies, make, test

class Grow:
    """What holds of every item that loops add to lists: test an item, make one."""
    def __init__(self, name, test, make): self.name, self.test, self.make = name, test, make
def added(v, base):
    """what a string or list has after what it was; None if it does not begin with that"""
    if isstr(v) and isstr(base): a, b = pieces(v), pieces(base)
    elif isinstance(v, SList) and type(v) is type(base): a, b = v.ps, base.ps
    else: return None
    a, b = list(norm(tuple(a))), list(norm(tuple(b)))
    if len(a) < len(b): return None
    for x, y in zip(a, b):
        if x is not y and not (isstr(v) and not isinstance(x, Seg) and not isinstance(y, Seg) and samec(x, y)): return None
    return a[len(b):]

class Joint:
    """A candidate relation between two locals, whatever their names: test(v, w) is None where it does not apply."""
    def __init__(self, name, test, everywhere=False): self.name, self.test, self.everywhere = name, test, everywhere

def setlocals(frame, vals):
    d = frame.f_locals
    for n, v in vals.items():
        if v is UNBOUND: d.pop(n, None)
        else: d[n] = v
    # unbound names: set to NULL by deleting from the mapping
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(1))

def loop(lid, it):
    """The iterator of a for statement."""
    if is_trans(type(it)) and is_trans_fn(getattr(type(it), '__iter__', None)): it = call(type(it).__iter__, it)
    if isinstance(it, SStr): ps = [c if isinstance(c, Seg) else mkstr((c,)) for c in it.p]
    elif isinstance(it, (SList, SIter, MapView, SMap, SSet, SUserDict)) and not (type(it) in (SList,) and not it.opaque()):
        ps = topieces(it)
    elif type(it) is SList: return ListIter(it)
    elif isinstance(it, (str, list, tuple, range)): return iter(it)
    elif CONTRACTMOD(type(it).__module__) and hasattr(it, 'topieces'):
        ps = it.topieces()
        if not any(isinstance(p, Seg) for p in ps): return GenIter(it)
    else: return GenIter(it)
    if not any(isinstance(p, Seg) for p in ps): return ListIter(SList(ps=ps))
    return CutIter(lid, ps)
class ListIter:
    """Over a known list, seeing what is added to it meanwhile."""
    def __init__(self, l): self.l, self.i = l, 0
    def __iter__(self): return self
    def __next__(self):
        ps = self.l._norm()
        if self.i >= len(ps): raise StopIteration
        x = ps[self.i]; self.i += 1
        if isinstance(x, Seg): raise Unsupported('a list that grows by an opaque part in a loop over it')
        return x
class GenIter:
    def __init__(self, it): self.it = iter(it) if not isinstance(it, types.GeneratorType) else it
    def __iter__(self): return self
    def __next__(self): return next(self.it)

class LoopCtl:
    """One cut: candidates, havoc, checks."""
    def __init__(self, lid, sub, frame, joined=False):
        ctx = core.C
        self.key = (lid, sub, tuple(ctx.frames))
        self.lid = lid
        self.frame = frame
        self.drop = ctx.invs.setdefault(self.key, set())
        self.mods = ctx.mods.setdefault(self.key, {})
        self.names = [n for n in LOOPS.get(lid, ()) if not n.startswith('_pv_') and n not in DEAD.get(lid, ())]
        self.gone = [n for n in LOOPS.get(lid, ()) if n in DEAD.get(lid, ())]
        self.rels = list(ctx.opts.get('relations', ())) + list(ctx.opts.get('loops', {}).get(lid, ()))
        self.ghosts = {}        # fold name -> state at the head
        self.item = None
        self.pos = None
        self.done = ()
        self.prefix = None
        self.heads = {}         # what a growing string or list was at the head
        # joined: whatever leads to the loop, its head and what follows are explored once, from a state that has every value
        # of the frame arbitrary (no candidates but the contract's relations)
        self.join = (ctx.opts.get('join') == lid.split('#')[0] or joined) and len(ctx.frames) == 1
    def once(self, mode):
        """end this path if another one has been here in the same state"""
        ctx = core.C
        if mode == 'head' and not ctx.opts.get('merge'): return
        at = tuple(map(int, ctx.prefix[:ctx.pos]))
        if ctx.joined.setdefault((self.key, mode, self.state()), at) != at: raise PathEnd()
    def state(self):
        """all there is here, but for what is arbitrary from here on: paths that agree in it do the same from here on.
        Symbols are named in the order they are met in."""
        ctx = core.C
        dead = set(self.gone) | (set(self.names) if self.join else set())
        ren, seen, out = {}, {}, []
        def name(s): return SYMNAME(lambda m: '%s!%d' % (m.group(1), ren.setdefault(m.group(2), len(ren))), s)
        def term(e): return name(e.sexpr())
        def dump(o):
            if isinstance(o, (str, int, float, complex, bytes, type(None))): return repr(o)
            if isinstance(o, z3.ExprRef): return term(o)
            if isinstance(o, (types.ModuleType, type, types.CodeType, types.BuiltinFunctionType)) or o is ABSENT or o is UNBOUND: return getattr(o, '__qualname__', None) or getattr(o, '__name__', repr(o))
            if isinstance(o, types.FrameType): return 'frame'
            if isinstance(o, Poison): return 'poison'
            if id(o) in seen: return '#%d' % seen[id(o)]
            seen[id(o)] = len(seen)
            if len(seen) > 20000: raise Unsupported('a loop that reaches too much')
            if isinstance(o, (list, tuple, collections.deque)): return '[' + ','.join(map(dump, o)) + ']'
            if isinstance(o, dict): return '{' + ','.join(dump(x) + ':' + dump(y) for x, y in o.items()) + '}'
            if isinstance(o, (set, frozenset)): return '<' + ','.join(sorted(map(dump, o), key=str)) + '>'
            if isinstance(o, types.FunctionType): return o.__qualname__ + dump([c.cell_contents for c in o.__closure__ or () if cellfull(c)]) + dump(o.__defaults__)
            if isinstance(o, types.MethodType): return o.__func__.__qualname__ + dump(o.__self__)
            if isinstance(o, types.CellType): return dump(o.cell_contents) if cellfull(o) else 'empty'
            if isinstance(o, StubFn): return o._name
            if isinstance(o, SSet):
                b = o.m.base
                r = 'set' + dump([[x[0], x[1] is not ABSENT] for x in o.m.ups]) + dump(o.m.obs) + dump(o.m.delta)
                if b is not None: r += name(b.name) + dump([x[:2] for x in b.memo]) + dump(b.n) + dump(b.inv) + dump(b.keyf) + dump(getattr(b, 'parent', None)) + dump(getattr(b, 'iters', None))
                return r
            if isinstance(o, MapBase):
                return name(o.name) + dump([x if x[1] else x[:2] for x in o.memo]) + dump(o.n) + dump(o.inv) + dump(o.keyf) + dump(o.valf) + dump(getattr(o, 'parent', None)) + dump(getattr(o, 'iters', None))
            if isinstance(o, (types.GeneratorType, map, filter, zip, itertools.chain)) : raise Unsupported('the state of an iterator')
            d = getattr(o, '__dict__', None)
            r = type(o).__qualname__
            if isinstance(d, dict): r += '{' + ','.join(x + ':' + dump(y) for x, y in sorted(d.items()) if x not in ('oid', 'objs', 'byid')) + '}'
            elif type(o).__module__ not in OWN and not is_trans(type(o)) and not CONTRACTMOD(type(o).__module__): r += repr(o)
            for c in type(o).__mro__:
                sl = c.__dict__.get('__slots__', ())
                for a in (sl,) if isinstance(sl, str) else sl:
                    try: v = object.__getattribute__(o, a)
                    except AttributeError: continue
                    if a == 'name' and isinstance(v, str): v = name(v); r += a + '=' + v + ';'
                    elif a != 'oid': r += a + '=' + dump(v) + ';'
            return r
        f = self.frame
        first = True
        out.append(dump([ctx.focus, ctx.exact, ctx.frames, ctx.fcount, ctx.ghost, list(ctx.facts.get('roots', ()))]))
        while f is not None:
            fn = f.f_code.co_filename
            if os.path.basename(fn) == 'prove.py' and f.f_code.co_name == 'body': break
            if os.path.dirname(fn) != os.path.dirname(os.path.abspath(__file__)) and fn != '<string>' or f.f_code.co_name == 'dump':
                loc = f.f_locals
                for x in sorted(loc):
                    v = loc[x]
                    if first and x in dead: continue
                    if isinstance(v, CutIter) and v.ctl is None and not v.ps: continue
                    if isinstance(v, WhileCtl) and (v.L is None or v.L.join and not v.L.rels or v.L is self): continue
                    out.append(x + '=' + dump(v))
            first = False
            f = f.f_back
        for q in sorted(CONTRACTS): out.append(dump(getattr(CONTRACTS[q], '__closure__', None)))
        for lg in ctx.log or (): out.append(str(sorted((seen.get(c[0], -1),) + tuple(map(str, c[1:])) for c in lg.d)))
        # formulas held together by symbols that are not met any more
        groups = []
        for e in ctx.pc:
            cs = consts(e)
            d = {c for c in cs if not all(i in ren for i in re.findall(r'!(\d+)', c))}
            g = [[e], d, cs - d]
            for h in list(groups):
                if h[1] & d: groups.remove(h); g = [h[0] + g[0], h[1] | g[1], h[2] | g[2]]
            groups.append(g)
        out.append(str(sorted({term(e) for fs, d, l in groups if l and not (d and freely(fs, d)) for e in fs})))
        return '\n'.join(out)
    # -- cells: locals by name, heap parts by object number
    def entry(self):
        loc = self.frame.f_locals
        self.loc0 = {n: loc.get(n, UNBOUND) for n in self.names}
        self.heap0 = {}
        self.objs = objects(self.frame)
        self.byid = {id(o): p for p, o in self.objs.items()}
        self.gh0 = dict(core.C.ghost)
        if self.join:
            ctx = core.C
            if ctx.joinframe is None: ctx.joinframe = self.frame
            if ctx.joinframe is not self.frame: raise Unsupported('a joined function that is called twice')
            for n, v in loc.items():
                if n.startswith('_pv_') or n in self.gone: continue
                if isinstance(v, Poison): continue
                k = kind_of(v, None)
                if k[0] == 'opaque': continue
                if n not in LOOPS.get(self.lid, ()):
                    c = (self.key, 'const', n)      # the same whatever leads here
                    if isinstance(v, (str, int, bool, type(None))) and ctx.tokens.setdefault(c, v) == v: continue
                    if c in ctx.tokens and ctx.tokens[c] is not UNBOUND:
                        ctx.tokens[c] = UNBOUND
                        if any(j[0] == self.key for j in ctx.joined): raise Restart()
                    ctx.tokens[c] = UNBOUND
                if n not in self.names: self.names.append(n); self.loc0[n] = v
                ks = self.kinds(('local', n))
                if k not in ks:
                    ks.append(k)
                    if any(j[0] == self.key for j in ctx.joined): raise Restart()
            for o in ctx.dirty:
                p = self.byid.get(id(o))
                if p is not None and not any(c[0] == p for c in self.mods): raise Unsupported('a joined loop after a write to %s' % p)
        for cid in sorted(self.mods, key=str):
            o = self.objs.get(cid[0])
            if o is None: continue
            self.heap0[cid] = snapshot(o, cid)
            if self.join:
                for sub, v in self.heap0[cid].items():
                    k, ks = kind_of(v, None), self.kinds(sub)
                    if k not in ks:
                        ks.append(k)
                        if any(j[0] == self.key for j in core.C.joined): raise Restart()
    def cells(self):
        for n in self.names: yield ('local', n), self.loc0[n]
    def kinds(self, cell): return core.C.kinds.setdefault((self.key, cell), [])
    def cands(self, cell, v0):
        """names of the candidate facts about a cell"""
        if self.join:
            for i, r in enumerate(self.rels): yield ('rel', r.name, i)
            return
        yield ('same',)
        for f, g in self.ghosts.items():
            for c in g:
                yield ('eq', f, c)
                if f == 'total': yield ('entry+', f, c)
        yield ('pos',); yield ('entry+pos',); yield ('ge0',); yield ('geentry',); yield ('leentry',); yield ('true',); yield ('false',); yield ('stays',); yield ('noless',)
        for f, g in self.ghosts.items():
            for c in g: yield ('join', f, c)
        for i, r in enumerate(self.rels): yield ('rel', r.name, i)
        items = isinstance(v0, SList) and cell[0] != 'local' and cell[1] == 'items'       # as it was then: a copy
        if isstr(v0) or items:
            if items:
                for i, r in enumerate(core.C.opts.get('grows', ())): yield ('ext', r.name, i)
            yield ('ext',)
    def test(self, cand, v, v0, ghosts, pos, cell):
        """does candidate cand hold of value v now: bool/SBool, or None if it does not apply"""
        t = cand[0]
        if t == 'same': return sameval(v, v0)
        if t == 'eq':
            w = ghosts[cand[1]].get(cand[2])
            return cmpval(v, w)
        if t == 'entry+':
            if any(not isinstance(x, (int, SInt)) or isinstance(x, bool) for x in (v, v0)): return None
            return eq(v, v0 + ghosts[cand[1]].get(cand[2]))
        if t == 'join':
            w = ghosts[cand[1]].get(cand[2])
            if not isinstance(v, SList) or not isstr(w): return None
            try: return cmpval(joinstr('', v), w)
            except (TypeError, Unsupported): return None
        if t == 'ext':
            # what it was at the head, and more after it
            new = added(v, self.heads.get(cell, v0))
            if new is None: return None
            if len(cand) > 1:
                g = core.C.opts['grows'][cand[2]]
                return band(*[g.test(x) for x in new if not isinstance(x, Seg)]) if all(not isinstance(x, Seg) or x.memo.get('grown') is g for x in new) else False
            return True
        if t == 'rel':
            r = self.rels[cand[2]]
            if not r.applies(cell, v, self): return None
            return r.test(v, ghosts, pos, self)
        if isinstance(v, (int, SInt)) and not isinstance(v, bool):
            if t == 'pos': return eq(v, mkint(pos))
            if t == 'ge0': return ge(v, 0)
            if isinstance(v0, (int, SInt)) and not isinstance(v0, bool):
                if t == 'entry+pos': return eq(v, mkint(num(v0) + pos))
                if t == 'geentry': return ge(v, v0)
                if t == 'leentry': return le(v, v0)
            return None
        if isinstance(v, (bool, SBool)):
            if t == 'true': return v
            if t == 'false': return bnot(v)
            if isinstance(v0, (bool, SBool)):
                if t == 'stays': return implies(v0, v)
                if t == 'noless': return implies(v, v0)
        return None
    def makeval(self, cand, v0, pos, cell):
        t = cand[0]
        if t == 'same': return v0
        if t == 'eq': return self.ghosts[cand[1]][cand[2]]
        if t == 'entry+': return v0 + self.ghosts[cand[1]][cand[2]]
        if t == 'join':
            s = Seg('joinl', 'list'); s.memo[('join', ())] = pieces(self.ghosts[cand[1]][cand[2]])
            s.elem = lambda h: Poison('an item of an abstracted list')
            return SList(ps=[s])
        if t == 'rel': return self.rels[cand[2]].make(self.ghosts, pos, self)
        if t == 'ext':
            if isstr(v0): v = SStr(tuple(pieces(v0)) + (Seg('more', 'str'),))
            else:
                s = havocseg('more')
                if len(cand) > 1: s.memo['grown'] = g = core.C.opts['grows'][cand[2]]; s.elem = g.make
                v = SList(ps=list(v0.ps) + [s])
            self.heads[cell] = SList(ps=list(v.ps)) if isinstance(v, SList) else v
            return v
        if t == 'pos': return mkint(pos)
        if t == 'entry+pos': return mkint(num(v0) + pos)
        if t == 'true': return True
        if t == 'false': return False
        return None
    def havoc(self, pos):
        """arbitrary state after at least one complete iteration"""
        ctx = core.C
        ctx.exact = False
        new = {}
        for cell, v0 in list(self.cells()):
            n = cell[1]
            cs = [c for c in self.cands(cell, v0) if (cell, c) not in self.drop]
            direct = [c for c in cs if c[0] in ('same', 'eq', 'entry+', 'pos', 'entry+pos', 'true', 'false', 'rel', 'ext') and self.applicable(c, cell, v0)]
            if direct:
                # a value built from the first, the others assumed
                v = self.makeval(direct[0], v0, pos, cell)
            else:
                ks = self.kinds(cell)
                if not ks: v = UNBOUND if v0 is UNBOUND else Poison('local ' + n)
                else: v = fresh_kind(ks[ctx.choose(len(ks)) if len(ks) > 1 else 0], n, self)
            new[n] = v
            for c in cs:
                if direct and c == direct[0] or c[0] == 'ext': continue
                if not self.applicable(c, cell, v0) and c[0] not in ('ge0', 'geentry', 'leentry'): continue
                try: r = self.test(c, v, v0, self.ghosts, pos, cell)
                except Unsupported: r = None
                if r is not None and r is not NotImplemented: ctx.assume(tz(r) if isinstance(r, SBool) else bool(r))
        for cid in sorted(self.mods, key=str):
            o = self.objs.get(cid[0])
            if o is None: continue
            self.havoc_heap(o, cid, pos)
            touched((o,) + tuple(cid[1:]))      # for the loops this one is in
        for n in self.gone: new[n] = Poison('local ' + n)
        setlocals(self.frame, new)
        self.joints(self.frame.f_locals, False)
    def joints(self, loc, checking):
        """relations between two locals: assumed at the head, checked at the end of an iteration"""
        ctx, bad = core.C, False
        for j in ctx.opts.get('joint', ()):
            # of those the loop writes, or of all where what they relate changes with them
            names = [n for n in loc if not n.startswith('_pv_') and n not in self.gone] if j.everywhere else self.names
            for a in names:
                for b in names:
                    c = ('joint', j.name, a, b)
                    if a == b or c in self.drop: continue
                    known = (self.key, c) in ctx.tokens
                    if not checking and not known: continue
                    at = ctx.pos
                    try: r = j.test(loc.get(a, UNBOUND), loc.get(b, UNBOUND))
                    except Unsupported: r = None
                    if not checking:
                        if r is not None: ctx.assume(tz(r) if isinstance(r, SBool) else bool(r))
                        continue
                    if r is None or not ctx.holds(r):
                        self.drop.add(c); bad |= known or ctx.pos != at
                        continue
                    if not known: ctx.tokens[self.key, c] = True; bad = True
                    ctx.results.append(dict(name='loop invariant %s: %s, %s' % (self.lid, a, ' '.join(c[1:])), status='discharged', by='z3'))
        return bad
    def applicable(self, c, cell, v0):
        """whether the candidate was ever tested to apply (recorded when checked)"""
        return (self.key, cell, c) in core.C.tokens
    def check(self, loc, ghosts, pos, where):
        """at the end of an iteration: every remaining candidate holds"""
        ctx = core.C
        bad = False
        for cell, v0 in list(self.cells()):
            v = loc.get(cell[1], UNBOUND)
            k = kind_of(v, self.item)
            ks = self.kinds(cell)
            if k not in ks: ks.append(k); bad = True
            for c in list(self.cands(cell, v0)):
                if (cell, c) in self.drop: continue
                at = ctx.pos
                try: r = self.test(c, v, v0, ghosts, pos, cell)
                except Unsupported: r = None
                if r is NotImplemented: r = None
                if r is None:
                    self.drop.add((cell, c))
                    if (self.key, cell, c) in ctx.tokens or ctx.pos != at: bad = True
                    continue
                ok = ctx.holds(r)
                if ctx.opts.get('trace'): print('   inv', self.lid, cell, c, ok, v)
                if not ok:
                    self.drop.add((cell, c)); bad = True
                else:
                    if (self.key, cell, c) not in ctx.tokens: ctx.tokens[(self.key, cell, c)] = True; bad = True
                    ctx.results.append(dict(name='loop invariant %s: %s %s' % (self.lid, cell[1], ' '.join(map(str, c))), status='discharged', by='z3'))
        bad |= self.joints(loc, True)
        # heap parts written in this iteration
        for o, *part in self.written:
            oid = self.byid.get(id(o))
            if oid is None: continue
            cid = (oid,) + tuple(part)
            if cid not in self.mods:
                self.mods[cid] = True; bad = True
        for cid in sorted(self.mods, key=str):
            o = self.objs.get(cid[0])
            if o is None or cid not in self.heap0: continue
            bad |= self.check_heap(o, cid, ghosts, pos)
        if bad: raise Restart()
    # -- heap parts
    def heap_views(self, o, cid):
        """(sub-cell, value now) pairs of a heap part that candidates speak about"""
        if cid[1] == 'attr': yield cid, getattr(o, cid[2], UNBOUND)
        elif cid[1] == 'items': yield cid, o
        elif cid[1] in ('map', 'set'):
            m = o.m if isinstance(o, SSet) else o
            for i, K in enumerate(core.C.focus):
                if not K[1](o): continue
                v = m.look(K[0])
                yield cid + (i,), (v is not ABSENT) if isinstance(o, SSet) else v
            yield cid + ('len',), m.slen()
        elif cid[1] == 'ghost': yield cid, core.C.ghost[cid[2]]
    def check_heap(self, o, cid, ghosts, pos):
        ctx, bad = core.C, False
        old = self.heap0.get(cid)
        for sub, v in list(self.heap_views(o, cid)):
            v0 = old.get(sub) if old else None
            k = kind_of(v, self.item)
            ks = self.kinds(sub)
            if k not in ks: ks.append(k); bad = True
            for c in list(self.cands(sub, v0)):
                if (sub, c) in self.drop: continue
                at = ctx.pos
                try: r = self.test(c, v, v0, ghosts, pos, sub)
                except Unsupported: r = None
                if r is NotImplemented: r = None
                if r is None:
                    self.drop.add((sub, c))
                    if (self.key, sub, c) in ctx.tokens or ctx.pos != at: bad = True
                    continue
                ok = ctx.holds(r)
                if ctx.opts.get('trace'): print('   inv', self.lid, sub, c, ok, v)
                if not ok: self.drop.add((sub, c)); bad = True
                else:
                    if (self.key, sub, c) not in ctx.tokens: ctx.tokens[(self.key, sub, c)] = True; bad = True
                    ctx.results.append(dict(name='loop invariant %s: heap %s %s' % (self.lid, sub[1:], ' '.join(map(str, c))), status='discharged', by='z3'))
        return bad
    def pick(self, sub, v0, pos, dflt):
        ctx = core.C
        cs = [c for c in self.cands(sub, v0) if (sub, c) not in self.drop]
        direct = [c for c in cs if c[0] in ('same', 'eq', 'entry+', 'join', 'pos', 'entry+pos', 'true', 'false', 'rel', 'ext') and self.applicable(c, sub, v0)]
        if direct: v = self.makeval(direct[0], v0, pos, sub)
        else:
            ks = self.kinds(sub)
            v = dflt() if dflt else fresh_kind(ks[ctx.choose(len(ks)) if len(ks) > 1 else 0], 'h', self) if ks else Poison('heap cell %s' % (sub,))
        for c in cs:
            if direct and c == direct[0] or c[0] == 'ext': continue
            if not self.applicable(c, sub, v0): continue
            r = self.test(c, v, v0, self.ghosts, pos, sub)
            if r is not None and r is not NotImplemented: ctx.assume(tz(r) if isinstance(r, SBool) else bool(r))
        return v
    def havoc_heap(self, o, cid, pos):
        ctx = core.C
        old = self.heap0.get(cid) or {}
        if cid[1] == 'attr':
            v = self.pick(cid, old.get(cid, UNBOUND), pos, None)
            if v is UNBOUND:
                try: object.__delattr__(o, cid[2])
                except AttributeError: pass
            else: object.__setattr__(o, cid[2], v)
        elif cid[1] == 'items':
            v = self.pick(cid, old.get(cid), pos, lambda: SList(ps=[havocseg('havoc')]))
            if isinstance(v, SList): o.ps = list(v.ps)
            else: raise Unsupported('list content')
        elif cid[1] in ('map', 'set'):
            m = o.m if isinstance(o, SSet) else o
            inv = m.base.inv if m.base else None
            kf = m.base.keyf if inv else (lambda h: Poison('a key of an abstracted map'))
            vf = m.base.valf if inv else (None if isinstance(o, SSet) else (lambda k: Poison('a value of an abstracted map')))
            nb = MapBase('hv', kf, vf, inv)
            m.base, m.ups, m.delta = nb, [], 0
            for i, K in enumerate(ctx.focus):
                if not K[1](o): continue
                sub = cid + (i,)
                if sub in old:
                    v = self.pick(sub, old[sub], pos, None if self.kinds(sub) else (lambda: ABSENT))
                    if isinstance(o, SSet): v = True if truth(v) else ABSENT
                    nb.set(K[0], v)
        elif cid[1] == 'ghost':
            ctx.ghost[cid[2]] = self.pick(cid, old.get(cid), pos, None)
    def seg_item(self): return self.seg.item() if self.seg.kind == 'list' else mkstr((self.seg.item(),))
def havocseg(h):
    s = Seg(h, 'list'); s.elem = lambda x: Poison('an item of an abstracted list')
    return s
class Ghost:
    """Names a ghost variable as a heap cell."""
    def __init__(self, name): self.name = name; self.oid = 'ghost ' + name
def setghost(name, v):
    core.C.ghost[name] = v
    touched((GHOSTS.setdefault(name, Ghost(name)), 'ghost', name))
GHOSTS = {}
def snapshot(o, cid):
    r = {}
    L = LoopCtl.__new__(LoopCtl)
    for sub, v in LoopCtl.heap_views(L, o, cid):
        r[sub] = SList(ps=list(v.ps)) if isinstance(v, SList) and cid[1] == 'items' else v
    return r
def objects(frame):
    """heap objects reachable from the frame's locals and the roots: access path -> object"""
    out, seen = {}, set()
    todo = collections.deque((n, frame.f_locals[n]) for n in sorted(frame.f_locals))
    todo.extend(('root%d' % i, o) for i, o in enumerate(core.C.facts.get('roots', ())))
    for g in core.C.ghost: out['ghost ' + g] = GHOSTS.setdefault(g, Ghost(g))
    while todo:
        path, o = todo.popleft()
        if id(o) in seen or isinstance(o, (str, int, float, type(None), types.FunctionType, types.ModuleType, type, Seg, Poison) + SYM): continue
        seen.add(id(o))
        if len(seen) > 5000: break
        if isinstance(getattr(o, 'oid', None), int) or isinstance(o, Ghost): out[path] = o
        if isinstance(o, SList): todo.extend(('%s[%d]' % (path, i), p) for i, p in enumerate(o.ps) if not isinstance(p, Seg))
        elif isinstance(o, SMap):
            todo.extend(('%s{%d}' % (path, i), v) for i, (k, v) in enumerate(o.ups))
            if o.base: todo.extend(('%s{m%d}' % (path, i), v) for i, (k, p, v) in enumerate(o.base.memo))
        elif isinstance(o, SSet): pass
        elif isinstance(o, (tuple, list)): todo.extend(('%s(%d)' % (path, i), v) for i, v in enumerate(o))
        elif isinstance(o, dict): todo.extend(('%s<%s>' % (path, k), v) for k, v in o.items())
        if isinstance(o, types.MethodType): todo.append((path + '.self', o.__self__))
        d = getattr(o, '__dict__', None)
        if isinstance(d, dict) and not isinstance(o, (types.ModuleType, type, StubFn)): todo.extend(('%s.%s' % (path, n), v) for n, v in d.items())
        if isinstance(o, types.CellType):
            try: todo.append((path + '.cell', o.cell_contents))
            except ValueError: pass
    return out
def constlist(e):
    """names of the constants of a term, in order"""
    out, todo, seen = {}, [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = 1
        todo.extend(x.children()[::-1])
    return list(out)
def consts(e): return set(constlist(e))
FREELY = {}
SYMNAME = re.compile(r'((?:len_|n_|in_|ins_|rank_)?)(?:[A-Za-z][^\s()|,!]*)?!(\d+)').sub
OWN = ('rt', 'core', 'pv', 'regex')
def freely(fs, d):
    """for all values of the other symbols, values for those in d can be found"""
    key = str(fs)
    if key not in FREELY:
        FREELY[key] = False
        f = z3.And(*fs)
        cs = {}
        todo, seen = [f], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id()); todo.extend(x.children())
            if z3.is_const(x) and x.decl().name() in d: cs[x.decl().name()] = x
        if all(c.sort() in (z3.IntSort(), z3.BoolSort(), z3.RealSort()) for c in cs.values()):
            s = z3.Solver(); s.set('timeout', 300)
            s.add(z3.Not(z3.Exists(list(cs.values()), f)))
            FREELY[key] = s.check() == z3.unsat
    return FREELY[key]
def cellfull(c):
    try: c.cell_contents; return True
    except ValueError: return False
def sameval(v, v0):
    if v is v0: return True
    if isinstance(v, SList) and isinstance(v0, SList):
        try: return listeq(v, v0)
        except Unsupported: return False
    if v is UNBOUND or v0 is UNBOUND or v is ABSENT or v0 is ABSENT: return False
    return cmpval(v, v0) or False
def cmpval(v, w):
    """v == w if they are of one kind, else None/False"""
    if isstr(v) and isstr(w): return eq(v, w)
    nb = lambda x: isinstance(x, (bool, SBool))
    if nb(v) and nb(w): return iff(v, w)
    if isinstance(v, (int, SInt, SReal, float)) and isinstance(w, (int, SInt, SReal, float)) and not nb(v) and not nb(w): return eq(v, w)
    if isinstance(v, Atom) and isinstance(w, Atom): return v == w
    if v is None and w is None: return True
    if v is ABSENT and w is ABSENT: return True
    if isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w):
        rs = [cmpval(a, b) for a, b in zip(v, w)]
        return None if any(r is None for r in rs) else band(*rs)
    if isinstance(v, SList) and isinstance(w, SList):
        try: return listeq(v, w)
        except Unsupported: return None
    if v is w: return True
    if (v is None) != (w is None): return False
    if (v is ABSENT) != (w is ABSENT): return False
    return None

class CutIter:
    """Iterates over pieces; at an opaque segment the loop is cut."""
    def __init__(self, lid, ps):
        self.lid, self.ps = lid, list(ps)
        self.base = z3.IntVal(0)
        self.i = 0
        self.ctl = None
    def __iter__(self): return self
    def __next__(self):
        frame = sys._getframe(1)
        ctx = core.C
        if self.ctl is not None:
            L, self.ctl = self.ctl, None
            L.written = ctx.log.pop()
            gs = {f.name: f.step(L.ghosts[f.name], L.item_spec, L) for f in L.folds}
            L.done = tuple(L.done) + tuple(pieces(L.item_spec) if L.seg.kind == 'str' else (L.item_spec,))
            L.check(dict(frame.f_locals), gs, L.pos + 1, 'iteration')
            raise PathEnd()
        self.ps = list(norm(tuple(self.ps)))
        if not self.ps: raise StopIteration
        p = self.ps.pop(0)
        if not isinstance(p, Seg):
            return p
        return self.cut(p, frame)
    def cut(self, p, frame):
        ctx = core.C
        L = LoopCtl(self.lid, self.i, frame, p.memo.get('joined', False))
        self.i += 1
        segs = p.segs if isinstance(p, WSeg) else [p]
        s = L.seg = segs[0]
        L.folds = s.memo.get('folds', [])
        L.entry()
        if not L.join: L.once('head')
        mode = ctx.choose(4)
        # nothing is known of the state at the head: one arbitrary iteration and one way out are all there is
        alone = L.join and not L.rels and not L.folds
        if alone and mode in (0, 3): raise PathEnd()
        if mode in (1, 2) and L.join: L.once(mode)
        def item(segs, first):
            """split every segment around one arbitrary item; returns the item and its position"""
            P = None
            its = []
            for q in segs:
                if isinstance(q, WSeg): x, P = item(q.segs, first); its.append(q.fn(*x, P)); continue
                if q.parts is not None: raise Unsupported('a segment opened before the loop')
                if q.src and q.src[0] == 'map' and len(q.src) == 3:
                    x = q.elem('e'); 
                    pos = z3.IntVal(0) if first else z3.Int(ctx.fresh('pos'))
                    if not first: ctx.assume(z3.And(pos >= (0 if alone else 1), pos < q.n))
                    its.append(x); P = pos; continue
                if q.src and q.src[0] == 'map' and len(q.src) == 4 and q.kind == 'str' and isinstance(q.src[1], Seg) and q.src[1].parts is None:
                    # made of the characters of another: one of the characters made of one of those
                    o = q.src[1]; c = o.item()
                    if first: a, b = (), (o.sub('r'),)
                    else: a, b = (o.sub('p'),), (o.sub('r'),)
                    o.refine(a + (c,) + b)
                    ps = list(norm((q,)))
                    i = len(a)
                    n = len(ps) - i - 1         # of them
                    if n < 1:
                        if first: raise Unsupported('a character made to nothing')
                        raise PathEnd()     # there is another that makes this character
                    j = 0 if first else ctx.choose(n)
                    x = ps[i + j]
                    if isinstance(x, Seg): raise Unsupported('a character made to more than known ones')
                    P = lenz(ps[:i + j])
                    if not first:
                        ctx.assume(P >= (0 if alone else 1))
                        L.prefix = tuple(ps[:i + j])
                    its.append(mkstr((x,))); continue
                if q.elem is None and q.kind == 'list': x = None     # a range: only the position
                else: x = q.item()
                if first:
                    b = q.sub("r"); carry(q, b)
                    q.refine((x, b)); P = z3.IntVal(0)
                else:
                    a, b = q.sub('p'), q.sub('r')
                    ctx.assume(a.n >= (0 if alone else 1)); carry(q, a); carry(q, b)
                    if P is not None: ctx.assume(a.n == P)
                    q.refine((a, x, b)); P = a.n
                    L.prefix, L.suffix = a, b
                its.append(mkstr((x,)) if q.kind == 'str' else x)
            return its, P
        empty = s.n == 0
        if mode == 3:       # no items
            ctx.assume(empty)
            for q in segs:
                if q.kind == 'str' and q.src and q.src[0] == 'map' and len(q.src) == 4 and getattr(q.src[3], 'some', False) and q.src[1].parts is None:
                    ctx.assume(q.src[1].n == 0); q.src[1].refine(())        # every character is made to some
                if q.parts is not None: continue
                if q.kind == 'str' or not (q.src and q.src[0] == 'map'): q.refine(())
            for f in L.folds: f_bind(f, s, f.init, L)
            return self.__next__() if False else self.next_piece(frame)
        if not (alone and mode == 2): ctx.assume(z3.Not(empty))
        if mode in (0, 1):
            first = mode == 0
            for f in L.folds:
                L.ghosts[f.name] = dict(f.init() if callable(f.init) else f.init) if first else f.head()
            its, pos = item(segs, first)
            L.pos = pos
            L.done = () if first else L.prefix if isinstance(L.prefix, tuple) else (L.prefix,)
            L.first = first
            if not first:
                L.havoc(pos)
                for f in L.folds:
                    for fact in f.facts: ctx.assume(tz(fact(L.ghosts[f.name])))
            it = p.fn(*its, pos) if isinstance(p, WSeg) else its[0]
            L.item = it
            L.item_spec = its[0]
            for f in L.folds: f_at(f, s, L, first)
            ctx.log = (ctx.log or []) + [WLog()]
            self.ctl = L
            ctx.loops.append(L)
            return it
        # after all items
        for f in L.folds: L.ghosts[f.name] = f.final(s)
        L.done = (s,)
        L.havoc(s.n)
        return self.next_piece(frame)
    def next_piece(self, frame):
        self.ps = list(norm(tuple(self.ps)))
        if not self.ps: raise StopIteration
        p = self.ps.pop(0)
        return p if not isinstance(p, Seg) else self.cut(p, frame)
def carry(q, r):
    for k in ('folds',):
        pass
def f_bind(f, seg, st, L):
    seg.memo[('fold', f.name)] = dict(st() if callable(st) else st)
def f_at(f, seg, L, first):
    """note where the fold stands, for a result that leaves the loop early"""
    seg.memo[('at', f.name)] = (L.ghosts[f.name], L.item_spec, f)

UNROLL = 5
def wloop(lid):
    return WhileCtl(lid, sys._getframe(1))
class WhileCtl:
    def __init__(self, lid, frame):
        self.lid, self.frame, self.n = lid, frame, 0
        self.key = (lid, 'w', tuple(core.C.frames))
        self.cutting = core.C.tokens.get(('cut', self.key), False) or core.C.opts.get('join') == lid.split('#')[0] and len(core.C.frames) == 1
        self.L = None
    def __call__(self):
        ctx = core.C
        self.n += 1
        if not self.cutting:
            if self.n > ctx.opts.get('unroll', UNROLL) + 1 and len(ctx.prefix) > 0:
                if self.n > 400: raise Unsupported('a loop that is not bounded')
                if ctx.pending or self.n > 40:
                    ctx.tokens[('cut', self.key)] = True
                    raise Restart()
            return True
        if self.n == 1:
            L = self.L = LoopCtl(self.lid, 'w', self.frame)
            L.seg, L.folds = None, []
            L.entry()
            gh = ctx.opts.get('whiles', {}).get(self.lid)
            L.gh = gh
            if not L.join: L.once('head')
            mode = ctx.choose(2)
            if mode and L.join: L.once(mode)
            if mode == 0:
                L.pos = z3.IntVal(0)
                if gh: L.ghosts.update(gh.first(L))
            else:
                L.pos = z3.Int(ctx.fresh('iter')); ctx.assume(L.pos >= 1)
                if gh: L.ghosts.update(gh.head(L))
                L.havoc(L.pos)
                if gh: gh.after_havoc(L)
            ctx.log = (ctx.log or []) + [WLog()]
            ctx.loops.append(L)
            return True
        L = self.L
        L.written = ctx.log.pop()
        gs = L.gh.next(L) if L.gh else {}
        L.check(dict(self.frame.f_locals), gs, L.pos + 1, 'iteration')
        raise PathEnd()

# ------------------------------------------------------------------- UserDict
class SUserDict(Heap):
    """collections.UserDict: a dict in .data; what is not overridden goes to it, as in CPython"""
    def __init__(self, dict=None, /, **kw):
        self._init_heap()
        self.data = SMap()
        if dict is not None: self.update(dict)
        if kw: self.update(kw)
    def __len__(self): return len(self.data)
    def slen(self): return self.data.slen()
    def __bool__(self): return bool(self.data)
    def __getitem__(self, k):
        v = self.data.look(k)
        if v is ABSENT:
            if hasattr(type(self), '__missing__'): return call(type(self).__missing__, self, k)
            raise KeyError(k)
        return v
    def __setitem__(self, k, v): self.data[k] = v
    def __delitem__(self, k): del self.data[k]
    def __iter__(self): return iter(self.data)
    def __contains__(self, k): return k in self.data
    def get(self, k, d=None): return getitem(self, k) if truth(contains(self, k)) else d
    def keys(self): return self.data.keys()
    def items(self): return self.data.items()
    def values(self): return self.data.values()
    def setdefault(self, k, d=None):
        if truth(contains(self, k)): return getitem(self, k)
        setitem(self, k, d)
        return d
    def pop(self, k, *d):
        if not truth(contains(self, k)):
            if d: return d[0]
            raise KeyError(k)
        v = getitem(self, k); delitem(self, k)
        return v
    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, (SMap, dict, SUserDict)):
                for k, v in iterate(o.items()): setitem(self, k, v)
            else:
                for kv in iterate(o):
                    k, v = unpack(kv, 2); setitem(self, k, v)
        for k, v in kw.items(): setitem(self, k, v)
    __hash__ = None

# ------------------------------------------------------------------- imports
def import_(name, asname, level, sub, here):
    import loader
    return loader.import_(name, asname, level, sub, here)
def importstar(name): raise Unsupported('import *')
def none(): return None

import regex

# ------------------------------------------------------------- unicodedata
import unicodedata as _ud
_cat1, _cat2 = z3.Function('category1', z3.IntSort(), z3.IntSort()), z3.Function('category2', z3.IntSort(), z3.IntSort())
_comb = z3.Function('combining', z3.IntSort(), z3.IntSort())
def onechar(x, what):
    p = norm(pieces(x))
    if len(p) != 1 or isinstance(p[0], Seg): raise Unsupported(what + ' of an opaque string')
    return p[0]
@model(_ud.category)
def category_(x):
    if isinstance(x, str): return _ud.category(x)
    c = onechar(x, 'category'); core.C.exact = False
    return mkstr((_cat1(c), _cat2(c)))
@model(_ud.combining)
def combining_(x):
    if isinstance(x, str): return _ud.combining(x)
    c = onechar(x, 'combining'); core.C.exact = False
    core.C.assume(_comb(c) >= 0)
    return mkint(_comb(c))
