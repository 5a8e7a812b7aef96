"""Text and attribute values written to XML: an XML parser's view of what is written is the text."""
from pv import *
import spec_elem
m = load('sldr.ldml')
TRUSTED += ["str.replace and re.sub scan left to right; with a pattern of one character they work character by character",
            "XML 1.0: how a parser reads references, CDATA sections, line ends and attribute values (the decoder of this contract)"]
ASSUMPTIONS += ["a text is taken as runs of ] each followed by another character, and a last run (any text is of that form)"]

# ---- what a parser makes of character data or of an attribute value
NAMES = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}
class Bad(Exception): pass
def isc(p, *cs):
    """whether the character is one of cs (decides)"""
    if isinstance(p, int): return chr(p) in cs
    return core.C.decide(z3.Or([p == ord(c) for c in cs]))
def decode(ps, attr, loose=False):
    """the characters of a value; a run that is the image of another under a substitution stands for that other
    if the image of every character, read by itself, is that character"""
    out, ps = (), list(norm(tuple(ps)))
    while ps:
        p = ps.pop(0)
        if isinstance(p, Seg):
            out += image(p, attr, loose); continue
        if isc(p, '<'): raise Bad('a raw <')
        if attr and isc(p, '"', '\n', '\t'): raise Bad('a raw quote, tab or line end')
        if isc(p, '\r'): raise Bad('a raw carriage return')
        if isc(p, '&'):
            name = ''
            while True:
                if not ps or not isinstance(ps[0], int): raise Bad('an incomplete reference')
                c = chr(ps.pop(0))
                if c == ';': break
                name += c
            if name in NAMES: out += (ord(NAMES[name]),)
            elif name[:2] == '#x': out += (int(name[2:], 16),)
            elif name[:1] == '#' and name[1:].isdigit(): out += (int(name[1:]),)
            else: raise Bad('an unknown reference ' + name)
            continue
        if not attr and isc(p, '>') : raise Bad('a raw >')
        out += (p,)
    return out
def ismap(g): return isinstance(g, Seg) and isinstance(getattr(g, 'src', None), tuple) and g.src[0] == 'map' and isinstance(g.src[1], Seg)
def image(g, attr, loose=False):
    """a run whose characters are each written so that they read back"""
    fns, src = [], g
    while ismap(src):
        fns.insert(0, src.src[3]); src = src.src[1]
    if not fns:
        if rt.excludes(g, lambda c: z3.Or([c == ord(x) for x in ('<>&\r' + ('"\n\t' if attr else ''))])): return (g,)
        if isinstance(g.src, tuple) and g.src: raise Unsupported('text made in another way')
        raise Bad('text is written as it is')
    memo = core.C.facts.setdefault('C09 images', {})
    if (id(g), attr, loose) not in memo:
        c = newchar('c')
        if src.elem is not None: core.C.assume(src.elem(c.p[0]))
        core.C.facts.setdefault('keep', []).append(g)
        r = c
        for fn in fns:
            out = ()
            for q in norm(pieces(r)): out += (rt.mapped(q, ('C09', id(fn)), fn),) if isinstance(q, Seg) else pieces(fn(q))
            r = SStr(out)
        memo[id(g), attr, loose] = sameup(decode(r.p, attr), c.p, loose)
    if memo[id(g), attr, loose]: return (src,)
    raise Bad('a character is not written as itself')
def decoded(v, attr):
    try: return SStr(decode(pieces(v), attr))
    except Bad as e: return e.args[0]
def reads(name, v, want, attr):
    d = decoded(v, attr)
    prove(name, eq(d, want) if isinstance(d, SStr) else False, d if isinstance(d, str) else '')

def xmltext(name):
    return newstr(name)
def writer(cdata=()):
    w = obj(m.ETWriter)
    w.namespaces = {}; w.attributeOrder = {}; w.takesCData = set(cdata)
    return w
for where, attr in (('text', False), ('attribute', True)):
    @ob('_protect: ' + where)
    def _(attr=attr):
        s = newstr('s')
        inputs(case=lambda mm: conc(s, mm))
        w = writer()
        r = call(w._protect, s) if attr else call(w._protect, s, base=m._elementprotect)
        reads('a value reads back as it was', r, s, attr)
    @ob('_protect: a character of ' + where)
    def _(attr=attr):
        s = newchar('c')
        inputs(case=lambda mm: conc(s, mm))
        w = writer()
        r = call(w._protect, s) if attr else call(w._protect, s, base=m._elementprotect)
        reads('a character reads back as it was', r, s, attr)

# ---- what serialize_xml writes for an element without children
def blanks(name):
    g = newstr(name)
    for p in g.p:
        if isinstance(p, Seg): p.elem = lambda c: z3.Or(c == 9, c == 32)
    return g
def split(ps, lit):
    """before and after the first place the known text lit is in what is written"""
    ps, k = list(norm(tuple(ps))), len(lit)
    for i in range(len(ps) - k + 1):
        if all(isinstance(p, int) and p == ord(c) for p, c in zip(ps[i:i + k], lit)): return ps[:i], ps[i + k:]
    raise Bad('no ' + lit)
def isblank(p):
    if isinstance(p, Seg): return rt.excludes(p, lambda c: z3.Not(z3.Or(c == 9, c == 32)))
    return isc(p, '\t', ' ')
def sameup(got, want, loose=True):
    """the same, if loose but for blanks after a line end"""
    got, want = list(norm(tuple(got))), list(norm(tuple(want)))
    while got or want:
        g = got[0] if got else None; w = want[0] if want else None
        if isinstance(g, Seg) and g is w: got.pop(0); want.pop(0); continue
        if isinstance(g, Seg):
            if isinstance(w, Seg): raise Unsupported('text made in another way')
            return False
        if isinstance(w, Seg) and g is None: core.C.exact = False       # what w is may not be known: the search decides
        if g is None or w is None or isinstance(w, Seg): return False
        if not truth(mkbool(rt.chareq(g, w)) if not isinstance(rt.chareq(g, w), bool) else rt.chareq(g, w)): return False
        got.pop(0); want.pop(0)
        if loose and isc(g, '\n'):
            while got and isblank(got[0]) and not (want and got[0] is want[0]): got.pop(0)
    return True
def written(e, indent, cdata=()):
    w = writer(cdata)
    w.root = spec_elem.El('root')
    out = []
    w.indent = '\t'; w.maxAts = 10
    call(w.serialize_xml, out.append, base=e, indent=indent, topns=False)
    r = ()
    for x in out: r += tuple(pieces(x))
    return r
for kind in ('text', 'attribute'):
    @ob('serialize_xml: ' + kind)
    def _(kind=kind):
        s = newstr('s')
        inputs(case=lambda mm: conc(s, mm))
        indent = pick('', blanks('indent'))
        if core.C.decide(rt.lenz(s.p) == 0): assume(False)
        a = {'k': s} if kind == 'attribute' else {}
        e = spec_elem.El('t', SMap(a), ro='the element')
        if kind == 'text': e.__dict__['text'] = s
        ps = written(e, indent)
        try:
            if kind == 'text':
                x, y = split(ps, '<t>'), None
                v, rest = split(x[1], '</t>\n')
                prove('nothing but the element is written', all(isblank(p) for p in x[0]) and not rest)
                d = decode(v, False, not isinstance(indent, str))
                ok = sameup(d, s.p, not isinstance(indent, str))
            else:
                x = split(ps, '<t k="')
                v, rest = split(x[1], '"/>\n')
                prove('nothing but the element is written', all(isblank(p) for p in x[0]) and not rest)
                ok = truth(eq(SStr(decode(v, True)), s))
        except Bad as b: ok = False
        prove('the %s reads back as it was' % kind, ok)

# ---- text in a CDATA section, by induction on its tokens: what the code makes of the rest of the text stands for the rest
def tail():
    t = Seg('T'); t1 = Seg('T1')
    t.memo['replace'] = lambda pa, b, g: (t1,)
    t1.memo['tail'] = t
    t1.memo['replace'] = t.memo['replace']
    return t
def root(g):
    while 'tail' not in g.memo:
        s = getattr(g, 'src', None)
        if not (isinstance(s, tuple) and s[0] == 'map'): return None
        g = s[1]
    return g.memo['tail']
def cdata(ps):
    """what a parser makes of what is written between <t> and </t>; the character before the rest of the text is not a ]"""
    out, ps, inside, last = (), list(norm(tuple(ps))), False, None
    while ps:
        p = ps[0]
        if isinstance(p, Seg):
            t = root(p)
            if t is not None:
                if not inside: raise Bad('text outside of the section')
                if last is not None and isc(last, ']'): raise Bad('a ] before the rest')
                out += (t,); last = None
            else:
                if not inside: raise Bad('a run outside of the section')
                if not rt.startsnot(p, (93, 93, 62), ps[1:]): raise Bad('the section ends in a run')
                if not rt.excludes(p, lambda c: c == 13): raise Bad('a raw carriage return')
                out += (p,); last = None if rt.excludes(p, lambda c: c == 93) else 93
            ps = ps[1:]; continue
        if not inside:
            if starts(ps, '<![CDATA['): ps = ps[9:]; inside = True; last = None; continue
            if starts(ps, '&#13;'): ps = ps[5:]; out += (13,); last = 13; continue
            raise Bad('text outside of the section')
        if isc(p, ']') and starts(ps, ']]>'): ps = ps[3:]; inside = False; continue
        if isc(p, '\r'): raise Bad('a raw carriage return')
        out += (p,); last = p; ps = ps[1:]
    if inside: raise Bad('the section is not ended')
    return out
def starts(ps, lit):
    for i, c in enumerate(lit):
        if i >= len(ps) or isinstance(ps[i], Seg) or not isc(ps[i], c): return False
    return True
@ob('serialize_xml: CDATA')
def _():
    end = pick(False, True)
    run = pick(0, 1, 2)
    b = Seg('run'); b.elem = lambda c: c == 93
    br = (93,) * run if run < 2 else (b, 93, 93)
    if end: tok, t = br, ()
    else:
        x = newchar('x'); core.C.assume(x.p[0] != 93)
        tok, t = br + x.p, (tail(),)
    s = SStr(tok + t)
    if end and not run: assume(False)
    inputs(case=lambda mm: conc(s, mm))
    indent = pick('', blanks('indent'))
    e = spec_elem.El('t', SMap({}), ro='the element'); e.__dict__['text'] = s
    ps = written(e, indent, {'t'})
    try:
        x = split(ps, '<t>')
        v, rest = split(x[1], '</t>\n')
        prove('nothing but the element is written', all(isblank(p) for p in x[0]) and not rest)
        d = list(norm(tuple(cdata(v))))
        if d[:1] == [10]:                   # the lead in: a line end and blanks; and at the end the same
            d = d[1:]
            while d and isinstance(d[0], (int, Seg)) and d[0] is not b and not (isinstance(d[0], Seg) and d[0] in t) and isblank(d[0]): d = d[1:]
            while d and isinstance(d[-1], (int, Seg)) and d[-1] != 10 and not (isinstance(d[-1], Seg) and d[-1] in t) and isblank(d[-1]): d = d[:-1]
            if d and d[-1] == 10 and isinstance(d[-1], int): d = d[:-1]
        ok = sameup(d, s.p)
    except Bad as b2: ok = False
    prove('the text in a section reads back as it was, but for blanks around line ends', ok)
