"""Exemplars.process: at every position the longest listed multigraph is counted, else one cluster of a base and its marks; only disallowed characters are passed over."""
from pv import *
m = load('sldr.ldml_exemplars')
TRUSTED += ["normalisation gives a text; what a character is (a mark, a joiner, punctuation, allowed, upper case) is a function of the character and its place",
            "whether two parts of the text are the same exemplar is not looked at: what is counted is the part of the text"]
F = 'sldr.ldml_exemplars:'
I, B = z3.IntSort(), z3.BoolSort()
LISTS = {n: z3.Function('in' + n, I, I, B) for n in ('_main', '_auxiliary', '_index', '_punctuation')}
KIND = z3.Function('kind', I, I)        # 1 a joiner, 2 a non-joiner, 3 a mark
PUNCT, NUKTA, UPPER, LOWER = (z3.Function(n, I, B) for n in ('punct', 'nukta', 'upper', 'lower'))
ALLOW = z3.Function('allowed', I, B, B)
def cut(e): return z3.simplify(e)
STR = rt.MODELS.get(str, str)
class Text:
    """the text from s up to e: of any length, and any text"""
    def __init__(self, s, e, lowered=False): self.s, self.e, self.lowered = cut(s), cut(e), lowered
    def slen(self): return mkint(cut(self.e - self.s))
    def __len__(self): return self.slen()
    def __bool__(self): return bool(self.slen() > 0)
    def str_(self): return self
    def lower(self): return Text(self.s, self.e, True)
    def topieces(self):
        n, s, e = core.C.facts['n'], self.s, self.e
        def char(h):
            p = z3.Int(core.C.fresh('at'))
            core.C.assume(z3.And(p >= s, p < e))
            return Text(p, p + 1)
        g = Seg('characters', 'list', char)
        core.C.assume(g.n == e - s)
        return [g]
    def __iter__(self): raise Unsupported('the characters of the text one by one')
    def __add__(self, o):
        if isinstance(o, str) and o == '': return self
        if not isinstance(o, Text) or not core.C.must(o.s == self.e): raise Unsupported('parts that are not next to each other')
        return Text(self.s, o.e, self.lowered)
    def __getitem__(self, k):
        n = self.e - self.s
        if not isinstance(k, slice):
            k = num(k)
            if core.C.decide(z3.Or(k < 0, k >= n)): raise IndexError('string index out of range')
            return Text(self.s + k, self.s + k + 1)
        if k.step not in (None, 1): raise Unsupported('a slice with a step')
        def at(x, d):
            if x is None: return d
            x = num(x)
            if core.C.must(z3.And(x >= 0, x <= n)): return x
            if not core.C.must(x >= 0): x = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), x)
            return z3.If(x > n, n, x)
        a, b = at(k.start, z3.IntVal(0)), at(k.stop, n)
        if not core.C.must(a <= b): b = z3.If(b < a, a, b)
        return Text(self.s + a, self.s + b)
def one(c):
    if not isinstance(c, Text) or not core.C.must(c.e == c.s + 1): raise Unsupported('something other than a character of the text is asked about')
    return c.s
def kind(s):
    core.C.assume(z3.And(KIND(s) >= 0, KIND(s) <= 3))
    return KIND(s)
class Ucd:
    def normalize(self, form, text):
        cover('normalised')
        prove('the text is normalised', text is core.C.facts['given'])
        return Text(z3.IntVal(0), core.C.facts['n'])
    def normalize_nfd(self, text): return self.normalize('NFD', text)
    def ispunct(self, c): return core.C.decide(PUNCT(one(c)))
    def is_zwj(self, c): return core.C.decide(kind(one(c)) == 1)
    def is_zwnj(self, c): return core.C.decide(kind(one(c)) == 2)
    def ismark(self, c): return core.C.decide(kind(one(c)) == 3)
    def is_always_combine(self, c): return core.C.decide(NUKTA(one(c)))
    isnukta = is_always_combine
class Listed:
    def __init__(self, n): self.n = n
    def __contains__(self, t):
        if not isinstance(t, Text) or t.lowered: raise Unsupported('something other than a part of the text is looked for')
        return core.C.decide(LISTS[self.n](t.s, t.e))
class Sink:
    """counters that are not looked at here"""
    def __getitem__(self, k): return newint('count', 0)
    def __setitem__(self, k, v): pass
    def get(self, k, d=None): return newint('count', 0)
class Cases:
    """the lists of capitals and others"""
    def __contains__(self, k): return bool(newbool('there'))
    def append(self, k): pass
def listed(s, e):
    r = z3.Or([f(s, e) for f in LISTS.values()])
    core.C.assume(z3.Implies(r, e - s <= num(core.C.facts['max'])))     # nothing that is listed is longer
    return r
def nolonger(s, l):
    """nothing longer than l is listed here (for the length p)"""
    f = core.C.facts
    return z3.Implies(z3.And(f['p'] > l, f['p'] >= 1, s + f['p'] <= f['n']), z3.Not(listed(s, s + f['p'])))
def inside(s, l):
    """the characters after the first, but for the last: joiners and marks (for the place q)"""
    q = core.C.facts['q']
    return z3.Implies(z3.And(q >= 1, q < l), z3.Or(KIND(s + q) == 1, KIND(s + q) == 3))
def cluster(s, e):
    f = core.C.facts
    q, n, l = f['q'], f['n'], e - s
    cont = lambda x: z3.Or(KIND(x) == 1, KIND(x) == 3)
    return z3.And(l >= 1, z3.Implies(z3.And(q >= 1, q < l), z3.Or(cont(s + q), z3.And(q == l - 1, KIND(s + q) == 2))),
                  z3.Or(e == n, z3.And(l > 1, KIND(e - 1) == 2), KIND(e) == 0))
class Clusters:
    def __getitem__(self, x):
        f = core.C.facts
        f['count'] = (x, newint('count', 0))
        return f['count'][1]
    def __setitem__(self, x, v):
        f = core.C.facts
        if not isinstance(x, m.Exemplar) or f.get('count', (None,))[0] is not x: raise Unsupported('counted in another way')
        prove('one more is counted', eq(v, f['count'][1] + 1))
        b, t = x.base, x.trailers
        if not isinstance(b, Text) or not (isinstance(t, Text) or t == ''): raise Unsupported('something other than a part of the text is counted')
        s, e = b.s, t.e if isinstance(t, Text) else b.e
        at = num(core.C.ghost['at'])
        prove('what is counted comes after the last', mkbool(z3.And(s >= at, e > s, e <= f['n'], *([t.s == b.e] if isinstance(t, Text) else []))))
        prove('only characters that are not allowed are passed over', mkbool(passed(at, s)))
        prove('the longest listed multigraph is counted, and where none is, punctuation or an allowed base with its marks', mkbool(z3.Or(
            z3.And(listed(s, e), nolonger(s, e - s)),
            z3.And(nolonger(s, z3.IntVal(0)), z3.Or(z3.And(PUNCT(s), e == s + 1), z3.And(allowed(s), z3.Not(PUNCT(s)), cluster(s, e)))))))
        cover('counted')
        setghost('at', mkint(e))
    def get(self, x, d=None): return self[x]
def allowable(self, c):
    s = one(c)
    return core.C.decide(ALLOW(s, z3.BoolVal(c.lowered)))
def allowed(s): return z3.If(UPPER(s), ALLOW(s, True), ALLOW(s, False))
def passed(a, b):
    """what is passed over between the two (at the place r): no multigraph, punctuation or allowed base is there"""
    r = core.C.facts['r']
    return z3.Implies(z3.And(r >= a, r < b), z3.And(z3.Not(allowed(r)), z3.Not(PUNCT(r)), nolonger(r, z3.IntVal(0))))
def isint(v): return isinstance(v, (int, SInt)) and not isinstance(v, bool)
def whole(t): return isinstance(t, Text) and core.C.must(z3.And(t.s == 0, t.e == core.C.facts['n']))
def reached(i, t):
    if not isint(i) or 'at' not in core.C.ghost or not isinstance(t, Text) or not whole(t): return None
    i, n = num(i), core.C.facts['n']
    at, i1 = num(core.C.ghost['at']), z3.If(i < n, i, n)
    return mkbool(z3.And(i >= 0, at >= 0, at <= i1, passed(at, i1)))
def length(l, i):
    if not isint(l) or not isint(i): return None
    l, i = num(l), num(i)
    return mkbool(z3.And(l >= 1, i >= 0, i + l <= core.C.facts['n'], inside(i, l)))
def baselength(b, l):
    if not isint(l) or not isint(b): return None
    return mkbool(z3.And(num(b) >= 1, num(b) <= num(l)))
def baseat(b, i):
    if not isint(i) or not isinstance(b, Text): return None
    return mkbool(b.s == num(i))
def baseof(b, l):
    if not isint(l) or not isinstance(b, Text): return None
    return mkbool(b.e - b.s == num(l))
JOINT = [Joint('the place in the text', reached, everywhere=True), Joint('the length of a cluster', length, everywhere=True), Joint('the length of a base', baselength), Joint('the base is here', baseat, everywhere=True), Joint('the base is as long', baseof)]
def part():
    s, e = z3.Int(core.C.fresh('from')), z3.Int(core.C.fresh('to'))
    core.C.assume(z3.And(s >= 0, s <= e, e <= core.C.facts['n']))
    return Text(s, e, bool(newbool('lowered')))
RELS = [Rel('a part of the text', lambda c, v, L: isinstance(v, Text), lambda gh, pos, L: part(), lambda v, gh, pos, L: mkbool(z3.And(v.s >= 0, v.s <= v.e, v.e <= core.C.facts['n']))),
        Rel('no longer multigraph', lambda c, v, L: isint(v) and 'max' in core.C.facts and L.seg is not None, None, lambda v, gh, pos, L: mkbool(nolonger(num(v), num(core.C.facts['max']) - pos)))]
for maxi in (False, True):
    @ob('process' + (', with potential multigraphs' if maxi else ''), relations=RELS, joint=JOINT, covers=['normalised', 'counted'])
    def _(maxi=maxi):
        f = core.C.facts
        f['n'], f['p'], f['q'], f['r'] = z3.Ints('n p q r')
        assume(z3.And(f['n'] >= 0, f['p'] >= 1, f['q'] >= 1, f['r'] >= 0))
        f['max'], f['given'] = newint('max', 1), Atom('given')
        for n in ('Char.isUUppercase',): EXTERN['icu.' + n] = lambda c: core.C.decide(UPPER(one(c)))
        EXTERN['icu.Char.isULowercase'] = lambda c: core.C.decide(LOWER(one(c)))
        EXTERN['icu.Script.getScript'] = lambda c: Atom('script')
        EXTERN['icu.Script.getScriptCode'] = lambda s: Atom('code')
        rt.CONTRACTS[F + 'Exemplars.allowable'] = allowable
        EXTERN['builtins.str'] = rt.MODELS[str] = lambda c='', *a: c if isinstance(c, Text) else STR(c, *a)
        x = obj(m.Exemplars, ucd=Ucd(), max_multigraph_length=f['max'], clusters=Clusters(), scripts=Sink(), codes_for_scripts=Sink(), all_potential_multigraphs=Sink(), uppercase_chars=Cases(), lowercase_chars=Cases(), **{n: Listed(n) for n in LISTS})
        setghost('at', 0)
        inputs()
        meth(x, 'process', f['given'], *([True] if maxi else []))
        prove('at the end all of the text is dealt with', mkbool(passed(num(core.C.ghost['at']), f['n'])))
# --- the lists: nothing that is read is longer than the longest there is
@ob('ldml_read', covers=['read'])
def _():
    item = lambda h: newstr('listed')
    this, nfd, old = newstr('this'), newstr('nfd'), newint('max', 1)
    x = obj(m.Exemplars, unittest=False, max_multigraph_length=old)
    class Ucd:
        def normalize(self, form, t): return nfd if t is this else newstr('another')
    x.ucd = Ucd()
    text = newstr('text')
    core.C.focus = [(nfd, lambda o: isinstance(o, (SMap, SSet)))]
    def us2list(t):
        prove('what is given is read', t is text)
        cover('read')
        return SList(ps=[Seg('before', 'list', item), this, Seg('after', 'list', item)])
    EXTERN['sldr.UnicodeSets.us2list'] = us2list
    rt.CONTRACTS['sldr.UnicodeSets:us2list'] = us2list
    inputs()
    r = meth(x, 'ldml_read', text)
    prove('every multigraph is in the list', rt.contains(r, nfd))
    prove('none is longer than the longest', rt.ge(x.max_multigraph_length, rt.len_(nfd)))
    prove('the longest does not get shorter', rt.ge(x.max_multigraph_length, old))
