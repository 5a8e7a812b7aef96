"""CollElement.sortkey: one step at the stated level after (or before) the key of the base, then the expansion; no other key changes."""
import functools
from pv import *
m = load('sldr.collation')
ASSUMPTIONS += ["floating point numbers are treated as real numbers", "a key has three levels and the base has a weight at the level of the element"]
F = 'sldr.collation:'
def level(h): return [Seg(h, 'list', lambda x: newint(x, 0))]
def key(h, lvl=4, cls=None):
    """any key with a weight at the level"""
    k = obj(m.SortKey)
    k.ps = [SList(ps=level(h) + ([newreal('last')] if j == lvl - 1 else [])) for j in range(3)]
    return k
def content(k): return [list(norm(tuple(x.ps))) for x in k.ps]
def sameitems(xs, ys):
    xs, ys = ([p for p in norm(tuple(l)) if not (isinstance(p, Seg) and core.C.must(p.n == 0))] for l in (xs, ys))
    return len(xs) == len(ys) and band(*[x is y or (not isinstance(x, Seg) and not isinstance(y, Seg) and eq(x, y)) for x, y in zip(xs, ys)])
def samekey(k, c): return isinstance(k, m.SortKey) and len(k.ps) == 3 and band(*[isinstance(x, SList) and sameitems(x.ps, y) for x, y in zip(k.ps, c)])
class Watch:
    """keys that are there already, as they are"""
    def __init__(self): self.t = []
    def add(self, k): self.t.append((k, list(k.ps), content(k)))
    def ok(self): return band(*[len(k.ps) == 3 and all(a is b for a, b in zip(k.ps, ls)) and samekey(k, c) for k, ls, c in self.t])
class Elements:
    """a tailoring: what is found under the base"""
    def __init__(self, base, b): self.base, self.b = base, b
    def get(self, k, d=None):
        if k is not self.base: raise Unsupported('another element is asked for')
        return d if self.b is None else self.b
    def __contains__(self, k):
        if k is not self.base: raise Unsupported('another element is asked for')
        return self.b is not None
    def __getitem__(self, k):
        if k not in self: raise KeyError(k)
        return self.b
def start(lvl, shape, kept, force):
    f = core.C.facts
    base, w = newstr('base', minlen=1), Watch()
    f['table'], f['watch'] = Atom('table'), w
    x = obj(m.CollElement, base=base, level=lvl, before=pick(0, *((lvl,) if lvl < 4 else (1,)), *((lvl % 3 + 1,) if lvl < 4 else ())), exp=pick('', newstr('exp', minlen=1)), prefix='', shortkey='', order=Atom('order'))
    if kept: x.key, x.shortkey = key('oldkey'), key('oldshort')
    b = None
    if shape == 'self': b = x
    if shape in ('earlier', 'later'):
        b = obj(m.CollElement, base=newstr('base2'), level=1, before=0, exp=pick('', newstr('exp2', minlen=1)), prefix='', shortkey='', order=Atom('order2'))
        b.order = Order(shape == 'earlier')
        if pick(0, 1): done(b, lvl)
    els = Elements(base, b)
    f.update(x=x, b=b, lvl=lvl, els=els, entered=False, force=force)
    rt.CONTRACTS[F + 'ducetSortKey'] = weights
    rt.CONTRACTS[F + 'CollElement.sortkey'] = recursive
    for n in '__lt__', '__gt__', '__le__', '__ge__': rt.CONTRACTS[F + 'SortKey.' + n] = functools.partial(compared, n)
    return x, b, els, w
class Order:
    """the place of the other element in the order of definition"""
    def __init__(self, first): self.first = first
    def __le__(self, o): return self.first
    def __ge__(self, o): return not self.first or bool(newbool('same place'))
    def __lt__(self, o): return self.first and bool(newbool('before'))
    def __gt__(self, o): return not self.first
def done(b, lvl):
    """the key of the other element is there: where nothing is appended, its two keys are the same one"""
    b.shortkey = key('bshort', lvl)
    b.key = key('bkey', lvl) if b.exp else b.shortkey
    if not b.exp and pick(0, 1): b.key = b.shortkey.copy()
    core.C.facts['watch'].add(b.key); core.C.facts['watch'].add(b.shortkey)
def weights(d, k, extra=None, fn=None):
    """the contract of ducetSortKey: a new key of new lists"""
    f = core.C.facts
    if d is not f['table'] or fn is not None: raise Unsupported('weights from elsewhere')
    r = key('weights', f['lvl'] if k is f['x'].base else 4)
    c = content(r)
    f.setdefault('weights', []).append((k, extra, c))
    if k is not f['x'].base: f.setdefault('keys', []).append(r)
    return r
def compared(op, a, b):
    """the order of keys: any; whether the expansion sorts after the key is the same each time"""
    f = core.C.facts
    if op in ('__lt__', '__ge__'): a, b = b, a
    if not any(a is k for k in f.get('keys', ())): raise Unsupported('keys are compared in another way')
    f.setdefault('after', newbool('after'))
    return f['after'] if op in ('__lt__', '__gt__') else rt.not_(f['after'])
def recursive(x, collations, table, inc, beforeshift, force=False):
    f = core.C.facts
    if x is f['x'] and not f['entered']:
        f['entered'] = True
        return rt.run_fn(F + 'CollElement.sortkey', m.CollElement.sortkey, (x, collations, table, inc, beforeshift), dict(force=force))
    if x is not f['b'] or x is f['x']: raise Unsupported('the key of another element')
    prove('the key of the base is asked for with the same tailoring, table and steps', collations is f['els'] and table is f['table'] and inc is f['inc'] and beforeshift is f['shift'])
    if hasattr(x, 'key') and not truth(force): return x.key
    done(x, f['lvl'])
    return x.key
def refkey(k, extra):
    """what the table (and the tailoring) gives for the text"""
    for t, e, c in core.C.facts.get('weights', ()):
        if (t is k or t == k) and (e is extra): return c
for lvl in (1, 2, 3, 4):
    for shape in ('none', 'self', 'earlier', 'later'):
        for force in (False, True):
            @ob('level %d, base %s%s' % (lvl, {'none': 'not tailored', 'self': 'itself', 'earlier': 'defined before', 'later': 'defined later'}[shape], ', forced' if force else ''), covers=['expansion', 'no expansion'])
            def _(lvl=lvl, shape=shape, force=force):
                f = core.C.facts
                x, b, els, w = start(lvl, shape, force and pick(0, 1), force)
                f['inc'], f['shift'] = inc, shift = newreal('inc'), newreal('shift')
                assume(band(0 < inc, inc < 1, 0 < shift, shift <= 1))
                inputs()
                was = dict(base=x.base, level=x.level, before=x.before, exp=x.exp, order=x.order)
                bwas = {n: getattr(b, n) for n in ('base', 'level', 'before', 'exp', 'order')} if b is not None else {}
                r = meth(x, 'sortkey', els, f['table'], inc, shift, **(dict(force=True) if force else {}))
                # what it is to be
                if shape == 'earlier':
                    if getattr(b, 'key', None) is None: raise Unsupported('the key of the base is not asked for')
                    base = content(b.shortkey)
                else: base = refkey(x.base, None)
                if base is None: raise Unsupported('the weights of the base come from elsewhere')
                exp = was['exp'] or (b.exp if b is not None else '')
                want = [list(l) for l in base]
                if lvl < 4: want[lvl-1][-1] = want[lvl-1][-1] + (0 - shift if was['before'] == lvl else inc)
                cover('expansion' if exp else 'no expansion')
                prove('an expansion is its own or else that of its base', x.exp is exp or x.exp == exp)
                if exp:
                    e = refkey(exp, els)
                    if e is None: raise Unsupported('the weights of the expansion come from elsewhere')
                    want2 = [a + c for a, c in zip(want, e)]
                else: want2 = want
                prove('the key is that of the base with a step at the level, then the expansion', samekey(x.key, want2))
                prove('the key is what is returned', r is x.key or samekey(r, want2))
                if not exp: prove('without an expansion the short key is the key', samekey(x.shortkey, want2))
                elif 'after' in f and not truth(f['after']): prove('where the expansion does not sort after it, the short key is the key without the expansion', samekey(x.shortkey, want))
                prove('no key worked out before and no weight of the table changes', w.ok())
                prove('nothing else of the elements changes', band(*[getattr(x, n) is v or eq(getattr(x, n), v) for n, v in was.items() if n != 'exp']) and all(getattr(b, n) is v for n, v in bwas.items() if b is not x))
@ob('a key that is there is left')
def _():
    x, b, els, w = start(1, pick('none', 'self', 'earlier', 'later'), True, False)
    inputs()
    w.add(x.key); w.add(x.shortkey)
    k, s, e = x.key, x.shortkey, x.exp
    r = meth(x, 'sortkey', els, core.C.facts['table'], newreal('inc'), newreal('shift'))
    prove('it is returned', r is k and x.key is k and x.shortkey is s and x.exp is e)
    prove('and nothing changes', w.ok())
# --- the steps: above nothing, below one
import math
TRUSTED += ["log10 of a number of one or more is not negative; a power of ten is one, or ten or more"]
def log10_(x):
    c, d = core._mono(num(x))
    if not (d and c >= 1 and all(n >= 1 and core.C.must(t >= 1) for t, n in d.values())): raise Unsupported("log10 of what may be below one")
    r = newreal('log')
    assume(r >= 0)
    return r
def pow_(a, b):
    if a != 10 or not isinstance(b, SInt): raise Unsupported('a power')
    if not core.C.must(b.e >= 0): raise Unsupported('a power that may be below nothing')
    p = newint('power', 1)
    core.C.assume(z3.And((b.e == 0) == (p.e == 1), z3.Implies(b.e > 0, p.e >= 10)))
    return p
def ones(x, start=0):
    """a sum of ones over some of any number of elements"""
    ps = list(norm(tuple(rt.topieces(x))))
    if all(isinstance(p, int) for p in ps): return sum(ps) + start
    n = newint('count', 0)
    for p in ps:
        if isinstance(p, Seg):
            v = p.elem('one') if p.elem else None
            if v != 1: raise Unsupported('a sum')
    return n + start
@ob('the steps of _setSortKeys', covers=['called'])
def _():
    rt.MODELS.update({math.log10: log10_, pow: pow_, sum: ones, math.pow: pow_})
    c = obj(m.Collation)
    els = []
    def elem(h):
        e = obj(m.CollElement, base=newstr('base', minlen=1), level=newint('level', 1, 4), before=newint('before', 0, 3), exp='', prefix='', shortkey='', order=Atom('order'))
        els.append(e)
        return e
    c.data = SMap.opaque_('entries', lambda h: newstr(h), elem)
    for a, v in (('ducet', Atom('table')), ('issorted', newbool('issorted'))): object.__setattr__(c, a, v)
    steps = []
    rt.CONTRACTS[F + 'CollElement.expand'] = lambda e, coll, table: None
    def sortkey(e, coll, table, inc, beforeshift, force=False):
        cover('called')
        prove('the key is worked out in this tailoring with its table', coll is c and table is c.ducet)
        prove('the step after is above nothing and below one', band(0 < inc, inc < 1))
        prove('the step before is above nothing and at most one', band(0 < beforeshift, beforeshift <= 1))
    rt.CONTRACTS[F + 'CollElement.sortkey'] = sortkey
    inputs()
    meth(c, '_setSortKeys', pick(False, True))
# --- what ducetSortKey is used for: a new key of new lists, and nothing else changes
class Marker: pass
def zip_(*its):
    if len(its) == 1 and isinstance(its[0], Marker):
        return rt.SIter([SList(ps=level('w%d' % j)) for j in range(3)])
    if not its: return rt.SIter([])
    raise Unsupported('zip of other lists')
class Table:
    """any table of weights"""
    def get(self, k, d=None): return [Marker()] if bool(newbool('weights')) else d
    def __contains__(self, k): return bool(newbool('weights'))
    def __getitem__(self, k): return [Marker()]
class Kept(SList):
    """a level of a key that is there"""
    def w(self): prove('no key that is there changes', False)
class Tailored:
    """any elements, with keys or not yet"""
    def __contains__(self, k): return bool(newbool('tailored'))
    def __bool__(self): return bool(newbool('any'))
    def __getitem__(self, k):
        e = obj(m.CollElement, base=newstr('base'))
        if bool(newbool('worked out')):
            e.key = obj(m.SortKey)
            e.key.ps = [Kept(ps=level('key')) for j in range(3)]
            core.C.facts['watch'].add(e.key)
        return e
    def get(self, k, d=None): return self[k] if k in self else d
def three(v, w):
    return isinstance(v, SList) and len(v.ps) == 3 and all(isinstance(x, SList) for x in v.ps) and len({id(x) for x in v.ps}) == 3 and all(v is not k and not any(x is y for x in v.ps for y in ls) for k, ls, c in w.t)
def threelists(v): return isinstance(v, SList) and 'watch' in core.C.facts and len(norm(tuple(v.ps))) == 3 and all(isinstance(x, SList) for x in v.ps)
@ob('ducetSortKey makes a new key', relations=[Rel('three lists of its own', lambda c, v, L: threelists(v),
        lambda gh, pos, L: SList(ps=[SList(ps=level('so far')) for j in range(3)]), lambda v, gh, pos, L: band(three(v, core.C.facts['watch']), core.C.facts['watch'].ok()))])
def _():
    rt.MODELS[zip] = zip_
    w = core.C.facts['watch'] = Watch()
    inputs()
    r = call(m.ducetSortKey, Table(), newstr('text'), *([Tailored()] if pick(0, 1) else []))
    prove('the key is a new one of three new lists', isinstance(r, m.SortKey) and three(r, w))
    prove('no key that is there changes', w.ok())
