"""ducetSortKey: the text is taken apart into the longest prefixes that have an entry, and the weights of those, level by level, are the key."""
from pv import *
m = load('sldr.collation')
ASSUMPTIONS += ["floating point numbers are treated as real numbers", "an entry of the table is not empty; an entry has three levels"]
F = 'sldr.collation:'
D = z3.Function('inTable', z3.IntSort(), z3.IntSort(), z3.BoolSort())
X = z3.Function('inExtra', z3.IntSort(), z3.IntSort(), z3.BoolSort())
K = z3.Function('workedOut', z3.IntSort(), z3.IntSort(), z3.BoolSort())
O = z3.Function('ownKey', z3.IntSort(), z3.IntSort(), z3.BoolSort())
def cut(e): return z3.simplify(e)
class Text:
    """the text from s up to e: of any length, and any text"""
    def __init__(self, s, e): self.s, self.e = cut(s), cut(e)
    def slen(self): return mkint(cut(self.e - self.s))
    def __len__(self): return self.slen()
    def __bool__(self): return bool(self.slen() > 0)
    def __getitem__(self, k):
        if not isinstance(k, slice) or k.step not in (None, 1): raise Unsupported('characters of the text')
        n = self.e - self.s
        def at(x, d):
            if x is None: return d
            x = num(x)
            if core.C.must(z3.And(x >= 0, x <= n)): return x
            x = z3.If(x < 0, x + n, x)
            return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
        a, b = at(k.start, z3.IntVal(0)), at(k.stop, n)
        if not core.C.must(a <= b): b = z3.If(b < a, a, b)
        return Text(self.s + a, self.s + b)
def is_(t):
    if not isinstance(t, Text): raise Unsupported('something other than a part of the text is looked for')
    return t.s, t.e
def entry(s, e):
    """whether the part has an entry"""
    f = core.C.facts
    r = D(s, e)
    if f['extra']: r = z3.Or(r, z3.And(X(s, e), K(s, e)))
    if f['own']: r = z3.Or(r, O(s, e) if not f['extra'] else z3.And(z3.Not(X(s, e)), O(s, e)))
    return r
def level(h): return [Seg(h, 'list', lambda x: newreal('weight'))]
def memo(kind, s, e):
    """the weights of the part in the table, or of the key that is there"""
    t = core.C.facts.setdefault('weights', [])
    for k, a, b, w in t:
        if k == kind and core.C.must(z3.And(a == s, b == e)): return w
    w = [level('%s%d' % (kind, j)) for j in range(3)]
    t.append((kind, s, e, w))
    return w
def wanted(s, e):
    """the weights the part is to give: of a key that is worked out, else of the table"""
    f = core.C.facts
    if f['extra'] and core.C.must(z3.And(X(s, e), K(s, e))): return memo('extra', s, e)
    if f['own'] and core.C.must(O(s, e)) and (not f['extra'] or core.C.must(z3.Not(X(s, e)))): return memo('own', s, e)
    no = [z3.Not(z3.And(X(s, e), K(s, e)))] if f['extra'] else []
    if f['own']: no.append(z3.Not(O(s, e)) if not f['extra'] else z3.Or(X(s, e), z3.Not(O(s, e))))
    if core.C.must(z3.And(D(s, e), *no)): return memo('table', s, e)
def sortkey(w):
    k = obj(m.SortKey)
    k.ps = [SList(ps=list(l)) for l in w]
    return k
class Marker:
    def __init__(self, w): self.w = w
class Entry:
    """what is in the table for a part: some elements of three weights"""
    def __init__(self, w): self.w = w
    def topieces(self): return [Marker(self.w)]
    def __iter__(self): return iter([Marker(self.w)])
    def __bool__(self): return True
    def slen(self): return newint('elements', 1)
ZIP = rt.MODELS.get(zip, rt.zip_)
def zip_(*its):
    if len(its) == 1 and isinstance(its[0], Marker): return rt.SIter([SList(ps=list(l)) for l in its[0].w])
    if not its: return rt.SIter([])
    return ZIP(*its)
class Table:
    def __contains__(self, k): return core.C.decide(D(*is_(k)))
    def __getitem__(self, k):
        if k not in self: raise KeyError(k)
        return Entry(memo('table', *is_(k)))
    def get(self, k, d=None): return self[k] if k in self else d
class Extra:
    """elements of a tailoring, with keys or without"""
    def __bool__(self): return core.C.facts['extra']
    def __contains__(self, k): return core.C.facts['extra'] and core.C.decide(X(*is_(k)))
    def __getitem__(self, k):
        if k not in self: raise KeyError(k)
        e = obj(m.CollElement)
        if core.C.decide(K(*is_(k))): e.key = sortkey(memo('extra', *is_(k)))
        return e
    def get(self, k, d=None): return self[k] if k in self else d
def own(k):
    return sortkey(memo('own', *is_(k))) if core.C.decide(O(*is_(k))) else None
own.__module__ = __name__
def pieces_(l): return [p for p in norm(tuple(l)) if not (isinstance(p, Seg) and core.C.must(p.n == 0))]
def sameitems(xs, ys):
    xs, ys = pieces_(xs), pieces_(ys)
    return len(xs) == len(ys) and band(*[x is y or (not isinstance(x, Seg) and not isinstance(y, Seg) and eq(x, y)) for x, y in zip(xs, ys)])
def three(v): return isinstance(v, SList) and type(v) is SList and len(norm(tuple(v.ps))) == 3 and all(isinstance(x, SList) for x in v.ps)
def nolonger(s, i):
    """the point p: no prefix of that length, longer than i, has an entry"""
    f = core.C.facts
    p, n = f['p'], f['n']
    return z3.Implies(z3.And(p > i, p >= 1, s + p <= n), z3.Not(entry(s, s + p)))
def prefix(i, k):
    if not isinstance(i, (int, SInt)) or isinstance(i, bool) or not isinstance(k, Text): return None
    i = num(i)
    return mkbool(z3.And(i >= 0, i <= k.e - k.s, nolonger(k.s, i)))
def sofar(v, k):
    """v is what the text before k gives"""
    f = core.C.facts
    if 'acc' not in f or not three(v) or not isinstance(k, Text): return None
    if id(v) in f['made'] and not any(c[2] is v for c in f['acc']):     # the head of the loop: named
        f['acc'].append((k.s, [list(x.ps) for x in v.ps], v))
        return True
    s, c, _ = f['acc'][-1]
    if core.C.must(k.s == s): return band(*[sameitems(x.ps, y) for x, y in zip(v.ps, c)])
    if not core.C.must(k.s > s): return False
    w = wanted(s, k.s)
    if w is None: return False
    return band(mkbool(z3.And(entry(s, k.s), nolonger(s, k.s - s))), *[sameitems(x.ps, y + z) for x, y, z in zip(v.ps, c, w)])
def make(gh, pos, L):
    v = SList(ps=[SList(ps=level('sofar%d' % j)) for j in range(3)])
    core.C.facts['made'][id(v)] = v
    return v
RELS = [Rel('the rest of the text', lambda c, v, L: isinstance(v, Text), lambda gh, pos, L: rest(), lambda v, gh, pos, L: mkbool(z3.And(v.s >= 0, v.s <= v.e, v.e == core.C.facts['n']))),
        Rel('three lists', lambda c, v, L: 'made' in core.C.facts and three(v), make, lambda v, gh, pos, L: three(v))]
def rest():
    s = z3.Int(core.C.fresh('start'))
    core.C.assume(z3.And(s >= 0, s <= core.C.facts['n']))
    return Text(s, core.C.facts['n'])
JOINT = [Joint('prefix', prefix), Joint('so far', sofar)]
def nonzero(l):
    """the items of the list that are not zero"""
    out = []
    for p in pieces_(l):
        if isinstance(p, Seg): out.append(('nonzero', p))
        elif not truth(eq(p, 0)): out.append(p)
    return out
def kept(p):
    """what a list in the key is made from: the same items, or those that are not zero"""
    if not isinstance(p, Seg): return p
    if p.src and p.src[0] == 'filter':
        x = p.src[1].item()
        prove('zeros are dropped, and they alone', eq(truth(p.src[2](x)), truth(rt.ne(x, 0))))
        prove('the weights are as they are in the entries', eq(p.src[3](x), x))
        return ('nonzero', p.src[1])
    if p.src and p.src[0] == 'mapl':
        x = p.src[1].item()
        prove('the weights are as they are in the entries', eq(p.src[2](x), x))
        return p.src[1]
    return p
def run(extra, ownkeys, fn):
    f = core.C.facts
    rt.MODELS[zip] = zip_
    f['n'], f['p'] = z3.Int('n'), z3.Int('p')
    assume(z3.And(f['n'] >= 0, f['p'] >= 1))
    f.update(extra=extra, own=ownkeys, made={}, acc=[(z3.IntVal(0), [[], [], []], None)])
    inputs()
    r = fn(Table(), Text(z3.IntVal(0), f['n']))
    s, c, _ = f['acc'][-1]
    if not isinstance(r, m.SortKey) or not all(isinstance(x, SList) for x in r.ps): raise Unsupported('a key of another make')
    prove('the key has three levels', len(r.ps) == 3)
    if core.C.must(f['n'] == 1): single = True
    elif core.C.must(f['n'] != 1): single = False
    else: single = core.C.decide(f['n'] == 1)
    cover('one character' if single else 'other texts')
    # where the last round leaves off, nothing of the rest has an entry
    done = core.C.must(s == f['n'])
    if not done: prove('no prefix of what is left has an entry', nolonger(s, z3.IntVal(0)))
    for x, y in zip(r.ps, c):
        got = [kept(p) for p in pieces_(x.ps)]
        want = pieces_(y) if single else nonzero(y)
        prove('the weights of the longest prefixes in their order, without zeros' if not single else 'the weights of the longest prefixes, as they are',
            len(got) == len(want) and band(*[a is b or (isinstance(a, tuple) and isinstance(b, tuple) and a[1] is b[1]) or (not isinstance(a, (Seg, tuple)) and not isinstance(b, (Seg, tuple)) and eq(a, b)) for a, b in zip(got, want)]))
for name, extra, o in (('the table alone', False, False), ('elements with keys', True, False), ('keys of its own', False, True), ('both', True, True)):
    @ob('ducetSortKey: ' + name, relations=RELS, joint=JOINT, covers=['one character', 'other texts'])
    def _(extra=extra, o=o):
        run(extra, o, lambda t, k: call(m.ducetSortKey, t, k, *([Extra()] if extra else pick([], [None], [Extra()])), **(dict(fn=own) if o else {})))
# --- how a tailoring asks: with its own table and its own keys
def tailoring():
    c = obj(m.Collation)
    t, f = Atom('table'), core.C.facts
    def elem(h):
        e = obj(m.CollElement, base='', level=1, before=0, exp='', prefix='', shortkey='', order=0)
        e.key = Atom('key')
        return e
    c.data = SMap.opaque_('entries', lambda h: newstr(h), elem)
    for a, v in (('ducet', t), ('issorted', newbool('issorted'))): object.__setattr__(c, a, v)
    return c, t
def asks(name, keys):
    @ob(name, covers=['asked'])
    def _():
        c, t = tailoring()
        k, r = newstr('text'), Atom('result')
        def weights(d, x, extra=None, fn=None):
            cover('asked')
            if extra is not None or (fn is None) == keys: raise Unsupported('keys from elsewhere')
            prove('the weights are asked for in its table, for the text', d is t and (x is k or isstr(x) and eq(x, k)))
            if keys:
                y = newstr('part')
                got = rt.call(fn, y)
                e = c.data.look(y)
                prove('the key of an element is its own, of others none', got is None if e is ABSENT else got is e.key)
            return r
        rt.CONTRACTS[F + 'ducetSortKey'] = weights
        inputs()
        prove('the key is what is given', meth(c, name, k) is r)
asks('getSortKey', False)
asks('sortKey', True)
