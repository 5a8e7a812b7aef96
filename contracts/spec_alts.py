"""Nodes with drafts and alternates, as the contracts of C12 and C13 see them."""
from pv import *
from spec_elem import El
m = load('sldr.ldml')
R = z3.Function('rating', core.ObjS, z3.IntSort())
REAL = dict(m.draftratings.items())
ORDER = ('approved', 'contributed', 'provisional', 'unconfirmed', 'tentative', 'generated', 'suspect')
def rating(d): return mkint(R(d.e))
class Ratings:
    """what draftratings is: a draft, whichever it is, has a rating"""
    def get(self, k, d=None): return rating(k) if isinstance(k, Atom) else rt.call(REAL.get, k, d) if k is None or isinstance(k, str) else self.bad()
    def __getitem__(self, k): return rating(k) if isinstance(k, Atom) else REAL[k]
    def __contains__(self, k): return isinstance(k, Atom) or k in REAL
    def __len__(self): return len(REAL)
    def bad(self): raise Unsupported('a draft of another kind')
m.draftratings = Ratings()
ASSUMPTIONS += ["all nodes have a draft mark, one of the seven", "the alternate under an alt carries that alt, and no alternates of its own"]
def draft(h='draft'):
    d = Atom(h)
    core.C.assume(z3.And(R(d.e) >= 0, R(d.e) <= 6))
    return d
class Node(El):
    """an element; any attributes other than draft and alt are its own business"""
def node(h, alt=None, **k):
    a = SMap(); a['draft'] = draft(h + 'draft')
    if alt is not None: a['alt'] = alt
    k.setdefault('name', h)
    return Node('tag', a, **k)
def alternates(h='alternates'):
    return SMap.opaque_(h, lambda n: newstr(n), lambda k: node('alternate', k))
def others(h, H=None):
    """the other nodes beside it: none of them is written, and none has its identity"""
    def item(n):
        x = node(n, ro='another node')
        if H is not None:
            a = Atom('identity'); assume(bnot(a == H))
            x.__dict__['attrHash'] = a
        return x
    return Seg(h, 'list', item)
def beside(parent, before, this, *after):
    """the node has that place among the others"""
    drop = lambda ps: [x for x in norm(tuple(ps)) if not (isinstance(x, Seg) and core.C.must(x.n == 0))]
    ps = drop(parent.children.ps)
    want = drop((before, this) + after)
    return len(ps) == len(want) and all(a is b for a, b in zip(ps, want))
@ob('the seven ratings')
def _():
    prove('the drafts are rated from the best to the worst', [k for k, v in sorted(REAL.items(), key=lambda x: x[1])] == list(ORDER) and list(REAL.values()) == list(range(7)))
