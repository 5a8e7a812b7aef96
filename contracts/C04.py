"""escape / unescape: for every string s and mode, unescape(escape(s)) == s, and the escaped form is well formed."""
from pv import *
m = load('sldr.collation')
SYNTAX = list(map(ord, '!"#$%&()*+,-./:;<=>?@[]^_`{|}~'))
TRUSTED += ["re.sub scans left to right, so that what it makes of a string x + y, when it stops between x and y, is what it makes of x and what it makes of y",
            "unicodedata.category, as a function of the character"]

def inside():
    return any(q.endswith(':unescape') for q in core.C.frames)
def token(seg, make):
    """what the substitution in unescape makes of seg (of the whole of it, from its start)"""
    def h(r, repl, rest, prev):
        if not inside(): return None
        k = core.C.tokens.setdefault('C04 pattern', r.pat.pattern)
        if k != r.pat.pattern: return None
        return make(seg), rest[1:]
    seg.memo['sub'] = h
def tail():
    """an arbitrary continuation T, with D(T) what unescape makes of it"""
    t = Seg('T'); d = Seg('DT')
    token(t, lambda s: (d,))
    return t, d
def coded(done):
    """a string that decodes to done, whatever follows"""
    r = Seg('coded')
    token(r, lambda s: done)
    r.memo['wf'] = True
    return SStr((r,))
def wellformed(ps):
    """every syntax character is after a backslash or a doubled apostrophe"""
    ps = list(norm(tuple(ps))); out = []
    while ps:
        p = ps.pop(0)
        if isinstance(p, Seg):
            if not p.memo.get('wf'): return False
            continue
        pz = z3.IntVal(p) if isinstance(p, int) else p
        if core.C.decide(pz == 92):
            if not ps or isinstance(ps[0], Seg): return False
            ps.pop(0); continue
        if core.C.decide(pz == 39):
            if not ps or isinstance(ps[0], Seg): return False
            q = ps.pop(0)
            out.append(mkbool((z3.IntVal(q) if isinstance(q, int) else q) == 39)); continue
        b = rt.inset(p, SYNTAX)
        out.append(bnot(b if isinstance(b, bool) else mkbool(b)))
    return band(*out)
def text(v):
    if isstr(v): return v
    if isinstance(v, SList):
        try: return rt.joinstr('', v)
        except (Unsupported, TypeError): return None
def test(v, ghosts, pos, L):
    x = text(v)
    if x is None: return None
    if not wellformed(pieces(x)): return False
    t, d = tail()
    got = call(m.unescape, x + SStr((t,)))
    return eq(got, SStr(tuple(L.done) + (d,)))
def make(ghosts, pos, L): return coded(tuple(L.done))
def makel(ghosts, pos, L):
    s = Seg('codedl', 'list'); s.memo[('join', ())] = pieces(coded(tuple(L.done))); s.elem = lambda h: rt.Poison('an item')
    return SList(ps=[s])
RELS = [Rel('decodes to the characters so far', lambda c, v, L: isstr(v), make, test),
        Rel('joined, decodes to the characters so far', lambda c, v, L: isinstance(v, SList), makel, test)]

@ob('escape then unescape', relations=RELS)
def _():
    s = newstr('s')
    allc = newbool('allchars')
    inputs(case=lambda mm: [conc(s, mm), conc(allc, mm)])
    r = call(m.escape, s, allc)
    prove('the escaped form is well formed', wellformed(pieces(r)))
    prove('unescape(escape(s)) == s', eq(call(m.unescape, r), s))

for n in range(0, 3):
    @ob('instances of %d characters' % n)
    def _(n=n):
        s = '' if not n else SStr(sum((newchar('c').p for _ in range(n)), ()))
        allc = newbool('allchars')
        inputs(case=lambda mm: [conc(s, mm), conc(allc, mm)])
        r = call(m.escape, s, allc)
        prove('the escaped form is well formed', wellformed(pieces(r)))
        prove('unescape(escape(s)) == s', eq(call(m.unescape, r), s))
