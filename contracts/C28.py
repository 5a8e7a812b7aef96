"""TreeBuilder: start, data and end keep the state of the tree they describe (an induction over the events).
The state between two events: the open elements, the element the text before the next tag belongs to, and that text."""
from pv import *
m = load('sldr.py3xmlparser')
ASSUMPTIONS += ["the events are well nested, as expat sends them", "text before the first start tag is not part of the document"]
TRUSTED += ["the element factory makes an element with no text, tail or children; Element.append puts a child at the end"]
class El:
    """An element of the standard library, as far as the builder uses one."""
    def __init__(self, tag, attrib=None, **kw):
        self.tag, self.attrib, self.text, self.tail, self.children = tag, attrib, None, None, SList()
        made(self)
    def append(self, e): self.children.append(e)
    def __len__(self): return rt.len_(self.children)
    def __bool__(self): return bool(self.children)
def made(e):
    core.C.facts.setdefault('elems', []).append(e)
    e.oid = core.C.newid()
def el(h, kids=(), text=None, tail=None):
    e = El(newstr(h + 'tag', None, 1), SMap())
    e.children, e.text, e.tail = SList(ps=list(kids)), text, tail
    return e
def optstr(h): return pick(None, newstr(h))
def below(h='below'): return Seg(h, 'list', lambda x: el(x))
def pieces_(n=None):
    """the text collected since the last tag"""
    k = pick(0, 1)
    return SList() if k == 0 else SList(ps=[newstr('first'), Seg('more', 'list', lambda h: newstr(h))])
def state(kind, deep):
    """A builder after some events: 'open' just after a start tag, 'closed' just after an end tag."""
    b = obj(m.TreeBuilder, _data=pieces_(), _elem=SList(), _last=None, _tail=None, _factory=El)
    b.depth = None
    object.__delattr__(b, 'depth')
    if kind == 'open':
        last = el('top')                                        # no text, no children yet
        under = [below(), el('parent', [Seg('older', 'list', lambda x: el(x)), last], optstr('ptext'))] if deep else []
        stack = under + [last]
    else:
        last = el('closed', [Seg('kids', 'list', lambda x: el(x))], optstr('ltext'))      # no tail yet
        top = el('top', [Seg('older', 'list', lambda x: el(x)), last], optstr('ttext'))
        stack = [top]
        if deep:
            stack = [below(), el('parent', [Seg('olderp', 'list', lambda x: el(x)), top], optstr('ptext'))] + stack
    b._elem, b._last, b._tail = SList(ps=stack), last, 0 if kind == 'open' else 1
    return b, stack, last
def snap(): return [(e, e.tag, e.attrib, e.text, e.tail, e.children, list(e.children.ps)) for e in core.C.facts.get('elems', ())]
def samestr(a, b): return (a is None and b is None) or (isstr(a) and isstr(b) and rt.eq(a, b))
def textis(got, pieces):
    """got is the text the pieces make up; none is the same as an empty one"""
    want = rt.joinstr('', pieces)
    return rt.eq(want, '') if got is None else rt.eq(got, want) if isstr(got) else False
def unchanged(before, but=()):
    """every element there was is as it was, but for the named (element, part)s"""
    for e, tag, at, text, tail, kids, ps in before:
        for nm, ok in (('tag', e.tag is tag), ('attrib', e.attrib is at), ('text', samestr(e.text, text)), ('tail', samestr(e.tail, tail)), ('children', e.children is kids and rt.listeq(kids, SList(ps=ps)))):
            if not any(e is x and nm == y for x, y in but): prove('the %s of other elements is left alone' % nm, ok)
def invariant(b, stack, last, tail):
    """the state after an event is one of those above"""
    prove('the open elements are as the events say', isinstance(b._elem, SList) and listis(b._elem, stack))
    if last is not None and not stack: prove('the root is what was closed last', b._last is last)
    elif last is not None:
        prove('the next text belongs to the element just opened or closed', b._last is last and bool(b._tail) == tail)
        if tail: prove('the element just closed has no tail yet', last.tail is None)
        else: prove('the element just opened has no text and no children', last.text is None and truth(rt.eq(rt.len_(last.children), 0)))
def listis(l, ps):
    a, b = list(norm(tuple(l.ps))), list(norm(tuple(ps)))
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))
def case(mm): return [{'t': 'r', 'a': {}, 'x': ['u', 'v'], 'c': [[{'t': 'a', 'a': {'x': '1'}, 'x': ['t'], 'c': [[{'t': 'b', 'a': {}, 'x': [], 'c': []}, ['w', 'z']]]}, ['k']], [{'t': 'c', 'a': {}, 'x': [], 'c': []}, ['l', 'm']]]}, 0, 1]
def flushed(b, last, tail, data, before):
    """the text collected went where it belongs"""
    if tail:
        prove('the text after an element is its tail', textis(last.tail, data))
        prove('the text after an element leaves its own text', any(e is last and samestr(last.text, text) for e, _, _, text, *_ in before))
    else:
        prove('the text after a start tag is the text of the element', textis(last.text, data))
        prove('the text after a start tag is no tail', last.tail is None)
    prove('no text is left over', truth(rt.eq(rt.len_(b._data), 0)))
@ob('a new builder')
def _():
    inputs(case=case)
    b = call(m.TreeBuilder, El)
    invariant(b, [], None, False)
    prove('there is no text', truth(rt.eq(rt.len_(b._data), 0)))
    t, a = newstr('tag', None, 1), SMap({'x': newstr('v')})
    e = meth(b, 'start', t, a)
    prove('the first start makes the element', isinstance(e, El) and e.tag is t and same(e.attrib, a) and e.text is None and e.tail is None)
    invariant(b, [e], e, False)
    prove('it is the only one', len(core.C.facts['elems']) == 1)
for kind in ('open', 'closed'):
    for deep in (0, 1):
        def at(f, kind=kind, deep=deep, **o): ob('%s after %s, %s' % (f.__name__, 'a start tag' if kind == 'open' else 'an end tag', 'deeper' if deep else 'in the root'), **o)(lambda: f(kind, deep))
        def text(kind, deep):
            inputs(case=case)
            b, stack, last = state(kind, deep)
            t, old = newstr('t'), SList(ps=list(b._data.ps))
            before = snap()
            meth(b, 'data', t)
            unchanged(before)
            invariant(b, stack, last, kind == 'closed')
            prove('the text is added at the end', rt.eq(rt.joinstr('', b._data), rt.joinstr('', old) + t))
        at(text)
        def start(kind, deep):
            inputs(case=case)
            b, stack, last = state(kind, deep)
            t, a = newstr('tag', None, 1), SMap.opaque_('attrs', lambda h: newstr(h), lambda k: newstr('value'))
            data = SList(ps=list(b._data.ps))
            before = snap(); n = len(before)
            parent = stack[-1]; old = list(parent.children.ps)
            e = meth(b, 'start', t, a)
            prove('start makes one element', isinstance(e, El) and not any(e is x[0] for x in before) and len(core.C.facts['elems']) == n + 1)
            if isinstance(e, El):
                prove('it has the tag and attributes of the event', e.tag is t and same(e.attrib, a) and e.text is None and e.tail is None)
                prove('it is the last child of the innermost open element', listis(parent.children, old + [e]))
            unchanged(before, [(parent, 'children'), (last, 'text' if kind == 'open' else 'tail')])
            flushed(b, last, kind == 'closed', data, before)
            invariant(b, stack + [e], e, False)
        at(start)
        def end(kind, deep):
            inputs(case=case)
            b, stack, last = state(kind, deep)
            data = SList(ps=list(b._data.ps))
            before = snap()
            e = meth(b, 'end', stack[-1].tag)
            prove('end closes the innermost open element', e is stack[-1])
            unchanged(before, [(last, 'text' if kind == 'open' else 'tail')])
            flushed(b, last, kind == 'closed', data, before)
            invariant(b, stack[:-1], stack[-1], True)
        at(end)
@ob('close')
def _():
    inputs(case=case)
    root = el('root', [Seg('kids', 'list', lambda x: el(x))], optstr('text'))
    b = obj(m.TreeBuilder, _data=SList(), _elem=SList(), _last=root, _tail=1, _factory=El)
    before = snap()
    r = meth(b, 'close')
    prove('the document is its root', r is root)
    unchanged(before)
# ---- from expat's events to the builder's
class Target:
    def __init__(self): self.seen = []
    def start(self, tag, attrib): self.seen.append(('start', tag, attrib)); return 'made'
    def end(self, tag): self.seen.append(('end', tag)); return 'closed'
def clark(s): return rt.truth(rt.contains(s, '}'))
def full(k): return '{' + k if clark(k) else k
def names():
    """what was asked for before: each name with its full form"""
    return SMap.opaque_('names', lambda h: newstr(h, None, 1), full, lambda k, v: rt.eq(v, full(k)))
def parser():
    t = Target()
    return obj(m.XMLParser, _names=names(), target=t), t
class AttrList:
    """names and values in turn, as many as there are; the names differ. K is any of them, with value V."""
    def __init__(self):
        self.n, self.j = newint('n', 1), newint('j', 0)
        assume(self.j < self.n)
        self.K, self.V, self.memo = newstr('K', None, 1), newstr('V'), []
    def slen(self): return self.n * 2
    def __bool__(self): return True
    def __getitem__(self, i):
        e = num(i)
        if core.C.decide(e < 0): e = e + num(self.n) * 2
        if core.C.decide(z3.Or(e < 0, e >= num(self.n) * 2)): raise IndexError('list index out of range')
        j, v = mkint(e / 2), core.C.decide(e % 2 == 1)
        if truth(rt.eq(j, self.j)): return self.V if v else self.K
        for jj, k, w in self.memo:
            if truth(rt.eq(jj, j)): return w if v else k
        k = newstr('k', None, 1)
        assume(rt.ne(k, self.K)); assume(rt.ne(full(k), full(self.K)))
        self.memo.append((j, k, newstr('v')))
        return self.memo[-1][2] if v else k
def attr_at(ghosts, pos, L):
    a = core.C.facts['attrs']
    return a.V if core.C.decide(num(a.j) < pos) else ABSENT
def attr_ok(v, ghosts, pos, L):
    a = core.C.facts['attrs']
    inn = mkbool(num(a.j) < pos)
    return bnot(inn) if v is ABSENT else band(inn, rt.eq(v, a.V)) if isstr(v) else None
RELS = [Rel('the attribute is there once it was read', lambda c, v, L: len(c) == 3 and c[1] == 'map' and c[2] == 0, attr_at, attr_ok)]
def started(t, r, tag, n):
    prove('one start event', len(t.seen) == 1 and t.seen[0][0] == 'start')
    prove('the element is given back', r == 'made')
    prove('the tag is its full name', rt.eq(t.seen[0][1], full(tag)))
@ob('start from expat, attributes', relations=RELS)
def _():
    inputs(case=lambda mm: case(mm)[:1] + [1, 3])
    p, t = parser()
    tag, al = newstr('tag', None, 1), AttrList()
    core.C.facts['attrs'], core.C.facts['full'] = al, full(al.K)
    core.C.focus = [(core.C.facts['full'], lambda o: isinstance(o, SMap) and o is not p._names)]
    r = meth(p, '_start', tag, al)
    started(t, r, tag, al.n)
    at = t.seen[0][2].look(core.C.facts['full'])
    prove('each attribute has its value', rt.eq(at, al.V) if at is not ABSENT else False)
@ob('start from expat, no attribute that is not given', relations=RELS)
def _():
    p, t = parser()
    tag = newstr('tag', None, 1)
    r = meth(p, '_start', tag, SList())
    started(t, r, tag, 0)
    prove('no attributes', rt.eq(rt.len_(t.seen[0][2]), 0))
@ob('end from expat')
def _():
    inputs(case=lambda mm: case(mm)[:1] + [1, 3])
    p, t = parser()
    tag = newstr('tag', None, 1)
    r = meth(p, '_end', tag)
    prove('one end event for the full name', len(t.seen) == 1 and t.seen[0][0] == 'end' and rt.eq(t.seen[0][1], full(tag)))
    prove('the element is given back', r == 'closed')
