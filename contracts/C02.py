"""list2us: what is written for a list of texts, character by character, whatever the texts are."""
from pv import *
u = load('sldr.UnicodeSets')
m = load('sldr.ldml_exemplars')
TRUSTED += ["ICU's character database, as a function of the character: its category and whether it is default ignorable; a space is Zs, the syntax characters are symbols or punctuation that are not ignorable",
            "ICU's numbers for the general categories"]
NAMES = 'GENERAL_OTHER_TYPES UPPERCASE_LETTER LOWERCASE_LETTER TITLECASE_LETTER MODIFIER_LETTER OTHER_LETTER NON_SPACING_MARK ENCLOSING_MARK COMBINING_SPACING_MARK DECIMAL_DIGIT_NUMBER LETTER_NUMBER OTHER_NUMBER SPACE_SEPARATOR LINE_SEPARATOR PARAGRAPH_SEPARATOR CONTROL_CHAR FORMAT_CHAR PRIVATE_USE_CHAR SURROGATE DASH_PUNCTUATION START_PUNCTUATION END_PUNCTUATION CONNECTOR_PUNCTUATION OTHER_PUNCTUATION MATH_SYMBOL CURRENCY_SYMBOL MODIFIER_SYMBOL OTHER_SYMBOL INITIAL_PUNCTUATION FINAL_PUNCTUATION'.split()
for i, n in enumerate(NAMES): EXTERN['icu.UCharCategory.' + n] = i
EXTERN['icu.UProperty.DEFAULT_IGNORABLE_CODE_POINT'] = 5
SYNTAX = '[]{}\\&-|^$:'
CT = z3.Function('charType', z3.IntSort(), z3.IntSort())
DI = z3.Function('defaultIgnorable', z3.IntSort(), z3.BoolSort())
def one(c):
    p = pieces(c)
    if len(p) != 1 or isinstance(p[0], Seg): raise Unsupported('not a character')
    return Z(p[0])
def Z(c): return z3.IntVal(c) if isinstance(c, int) else c
def known(c):
    """the database's facts about a character"""
    t = core.C.facts.setdefault('C02 known', {})
    if c.get_id() in t: return
    t[c.get_id()] = c
    core.C.assume(z3.Implies(c == 32, CT(c) == 12))
    core.C.assume(z3.Implies(z3.Or([c == ord(x) for x in SYNTAX]), z3.And(CT(c) >= 19, CT(c) <= 29, z3.Not(DI(c)))))
    core.C.assume(z3.And(CT(c) >= 0, CT(c) <= 29))
def chartype(c): c = one(c); known(c); return mkint(CT(c))
def hasprop(c, p):
    if p != 5: raise Unsupported('another property')
    c = one(c); known(c); return mkbool(DI(c))
EXTERN['icu.Char.charType'] = chartype
EXTERN['icu.Char.hasBinaryProperty'] = hasprop

# ---- the specification: what a character is written as; start: it begins an item
def hexed(c):
    big = core.C.decide(Z(c) > 0xFFFF)
    return (92, 85 if big else 117) + tuple(rt.hexdigits(Z(c), 8 if big else 4))
def syntax(c): return (92, c) if core.C.decide(z3.Or([Z(c) == ord(x) for x in SYNTAX])) else (c,)
def syntaxed(c): return SStr(syntax(c))
syntaxed.some = True
def byhex(c, start):
    z = Z(c); known(z)
    mark = z3.And(z3.BoolVal(start), z3.Or(CT(z) == 6, CT(z) == 7, CT(z) == 8))
    private = z3.Or(z3.And(z >= 0xE000, z <= 0xF8FF), z3.And(z >= 0xF0000, z <= 0xFFFFD), z3.And(z >= 0x100000, z <= 0x10FFFD))
    return hexed(c) if core.C.decide(z3.Or(mark, DI(z), CT(z) == 16, CT(z) == 12, private)) else (c,)
def both(c, start): return syntax(c) if core.C.decide(z3.Or([Z(c) == ord(x) for x in SYNTAX])) else byhex(c, start)

# ---- texts made so, by induction on the text
def ismap(g): return isinstance(g.src, tuple) and len(g.src) == 4 and g.src[2] == 'C02 syntax'
def step1(ps):
    out = ()
    for p in norm(tuple(ps)):
        if isinstance(p, Seg):
            if 'C02 syntax' not in p.memo: p.memo['C02 syntax'] = rt.mapped(p, 'C02 syntax', syntaxed)
            out += (p.memo['C02 syntax'],)
        else: out += syntax(p)
    return out
def states(ps, fn, name):
    out, start = (), True
    for p in norm(tuple(ps)):
        if isinstance(p, Seg):
            q, k = p, name
            if name == 'hex' and ismap(p): q, k = p.src[1], 'both'          # the lemma below
            key = ('C02', k, str(start))
            if key not in q.memo: q.memo[key] = Seg(k)
            out += (q.memo[key],)
        else: out += fn(p, start)
        start = False
    return out
def step2(ps): return states(ps, byhex, 'hex')
def step12(ps): return states(ps, both, 'both')
def text(v):
    if isstr(v): return v
    if isinstance(v, SList) and type(v) is SList:
        try: return rt.joinstr('', v)
        except (Unsupported, TypeError): return None
def chars(L): return L.seg is not None and L.seg.kind == 'str'
def so_far(name, step):
    def test(v, ghosts, pos, L):
        if not chars(L): return None
        x = text(v)
        return None if x is None else eq(x, SStr(step(L.done)))
    def make(ghosts, pos, L): return SStr(step(L.done))
    def makel(ghosts, pos, L):
        s = Seg('made', 'list'); s.memo[('join', ())] = tuple(step(L.done)); s.elem = lambda h: rt.Poison('an item')
        return SList(ps=[s])
    return [Rel(name, lambda c, v, L: chars(L) and isstr(v), make, test),
            Rel(name + ', joined', lambda c, v, L: chars(L) and type(v) is SList, makel, test)]
def item(t):
    ps = step12(pieces(t))
    return SStr((123,) + ps + (125,)) if truth(rt.len_(t) > 1) else SStr(ps)
def written(seg):
    if 'C02 items' not in seg.memo: s = seg.memo['C02 items'] = Seg('items', 'list'); s.elem = lambda h: rt.Poison('an item')
    return seg.memo['C02 items']
def items_test(v, ghosts, pos, L):
    if L.seg is None or L.seg.kind != 'list' or type(v) is not SList: return None
    got, want = list(norm(tuple(v.ps))), list(norm(tuple(L.done)))
    if len(got) != len(want): return False
    r = []
    for g, w in zip(got, want):
        if isinstance(w, Seg): r.append(g is written(w))
        else: r.append(eq(g, item(w)) if isstr(g) else False)
    return band(*r)
ITEMS = Rel('every item as it is written', lambda c, v, L: L.seg is not None and L.seg.kind == 'list' and type(v) is SList,
            lambda g, pos, L: SList(ps=[written(p) if isinstance(p, Seg) else item(p) for p in norm(tuple(L.done))]), items_test)
RELS = so_far('both done to the characters so far', step12) + so_far('syntax escaped in the characters so far', step1) + so_far('hex escapes in the characters so far', step2) + [ITEMS]

def ucd(): return obj(m.UCD)
@ob('list2us: any list', relations=RELS)
def _():
    core.C.exact = False
    l = alist('texts', lambda h: newstr(h, minlen=1))
    src = l.ps[0]
    inputs()
    r = call(u.list2us, l, ucd())
    ps = list(norm(pieces(r)))
    prove('the items are in brackets', len(ps) >= 2 and eq(mkstr((ps[0],)), '[') and eq(mkstr((ps[-1],)), ']') if not isinstance(ps[0], Seg) and not isinstance(ps[-1], Seg) else False)
    ps = ps[1:-1]
    if not ps:
        if src.parts is None and core.C.must(src.n == 0): cover('none')
        elif src.parts is None: prove('every item is there', False)
        return
    if len(ps) != 1 or not isinstance(ps[0], Seg): raise Unsupported('text made in another way')
    g = ps[0].memo.get('joinof')
    if g is None or g.memo.get(('join', (32,)), (None,))[0] is not ps[0]: raise Unsupported('items joined in another way')
    if g is src.memo.get('C02 items'): cover('items'); return
    if isinstance(g.src, tuple) and g.src[0] == 'mapl' and g.src[1] is src:
        t = newstr('text', minlen=1)
        w = g.src[2](t)
        cover('items')
        prove('an item is written as it is to be', eq(w, item(t)) if isstr(w) else False)
        return
    raise Unsupported('items made in another way')
for n in (1, 2):
    @ob('list2us: %d texts' % n, relations=RELS)
    def _(n=n):
        core.C.exact = False
        ts = [newstr('text', minlen=1) for _ in range(n)]
        inputs(case=lambda mm: [conc(t, mm) for t in ts])
        r = call(u.list2us, SList(ps=list(ts)), ucd())
        want = SStr((91,))
        for i, t in enumerate(ts): want = (want + ' ' if i else want) + item(t)
        prove('the text is as it is to be', eq(r, want + ']'))
@ob('what the two steps make of a character')
def _():
    """for the induction on a text: hex escapes in what is made of one character by escaping syntax"""
    c = newchar('c').p[0]
    start = pick(True, False)
    ps = syntax(c)
    prove('a character is made to some', len(ps) > 0)
    out, st = (), start
    for p in ps: out += byhex(p, st); st = False
    prove('is what it is to be', eq(SStr(out), SStr(both(c, start))))
