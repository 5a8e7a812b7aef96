"""LdmlMerge.overlay, one level of it: what is to be overlaid on what, what is added, what stays; by induction on the trees, all of them."""
import inspect
from pv import *
from spec_elem import El
m = load('sldr.ldml_merge')
Q = 'sldr.ldml_merge:LdmlMerge.'
ASSUMPTIONS += ["siblings have different identities, of both documents", "equal content hashes are of equal contents"]
TRUSTED += ["the lemma: overlaying is what is discharged for one element and its children, for the children's children by induction"]
if not hasattr(m.LdmlMerge, '_overlay_child'): raise Unsupported('no _overlay_child')
SIG = inspect.signature(m.LdmlMerge._overlay_child)
UP = '\u2191\u2191\u2191'
def anode(h, H=None, differs=None, ro=True, kids=None):
    a = newint('identity')
    if H is not None: assume(rt.eq(a, H))
    if differs is not None: assume(rt.ne(a, differs))
    e = El(newstr('tag', minlen=1), SMap.opaque_(h + 'attrib', lambda n: newstr(n), lambda k: newstr('value')), name=h, ro=ro and h, attrHash=a, contentHash=newint('content'), text=pick(None, newstr('text')) if ro == 'text' else Atom('text'))
    if kids is not None: e.children.ps = kids
    return e
def drop(ps): return [x for x in norm(tuple(ps)) if not (isinstance(x, Seg) and core.C.must(x.n == 0))]
def sameps(a, b):
    a, b = drop(a), drop(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))
for there in (True, False):
    @ob('a child of the other, ' + ('which ours has' if there else 'which ours has not'), covers=['overlaid', 'equal'] if there else ['added', 'alias'])
    def _(there=there):
        d, u = obj(m.LdmlMerge, useDrafts=newbool('drafts'), silns=newstr('silns'), blocks=Blocks()), newbool('use')
        H = newint('H')
        kids = [Seg('ours', 'list', lambda h: anode('what ours has', differs=H)), Seg('ours2', 'list', lambda h: anode('what ours has', differs=H))]
        this = anode('ours', ro=False)
        o = anode("the other's child", H)
        o.__dict__['text'] = newstr('othertext')
        t = None
        if there:
            t = anode('the child of ours', H, ro=False)
            t.__dict__['text'] = pick(None, UP, newstr('ourtext'))
            kids.insert(1, t)
        this.__dict__['ro'] = False
        this.children.ps = list(kids)
        if t is not None and t.text is not None: assume(implies(rt.eq(o.contentHash, t.contentHash), rt.eq(o.text, t.text)))
        was = dict(this=dict(vars(this)), o=dict(vars(o)), t=dict(vars(t)) if t is not None else None)
        tt = t.text if t is not None else None
        calls = []
        def overlay(self, other, usedrafts=False, this=None):
            calls.append((other, usedrafts, this))
        rt.CONTRACTS[Q + 'overlay'] = overlay
        inputs()
        vals = dict(o=o, this=this, usedrafts=u)
        if not {'self', 'o', 'this'} <= set(SIG.parameters) <= set(vals) | {'self'}: raise Unsupported('other parameters')
        meth(d, '_overlay_child', *[vals[n] for n in SIG.parameters if n != 'self'])
        if there:
            prove('what ours has stays, in its order', sameps(this.children.ps, kids))
            for a in ('tag', 'attrib', 'attrHash'): prove('and as it is', t.__dict__[a] is was['t'][a])
            if not calls:
                prove('where the contents differ they are overlaid', rt.eq(o.contentHash, t.contentHash))
                cover('equal')
                prove('a text stays', t.text is tt or tt is not None and same(t.text, tt))
            else:
                cover('overlaid')
                prove("the other's child is overlaid on ours", len(calls) == 1 and calls[0][0] is o and calls[0][2] is t)
                if tt is None: prove('no text stays none', t.text is None)
                elif truth(rt.eq(tt, UP)): prove("what is marked as inherited takes the other's text", rt.eq(t.text, o.text) if truth(rt.ne(o.text, '')) else rt.eq(t.text, tt))
                else: prove('a text stays', rt.eq(t.text, tt))
        else:
            prove('nothing is overlaid', not calls)
            if sameps(this.children.ps, kids):
                cover('alias')
                prove('only an alias is left out, and where there is something', band(rt.eq(o.tag, 'alias'), rt.gt(this.children.slen(), 0)))
            else:
                cover('added')
                prove("the other's child comes last", sameps(this.children.ps, kids + [o]))
        for a in ('tag', 'attrib', 'text', 'attrHash'): prove('the element itself is as it was', this.__dict__[a] is was['this'][a])
class Blocks:
    """the tags of blocks"""
    def __contains__(self, k):
        t = core.C.facts.setdefault('blocks', [])
        for x, b in t:
            if x is k: return bool(b)
        t.append((k, newbool('block')))
        return bool(t[-1][1])
@ob('all children of the other', covers=['block', 'fonts', 'child', 'whole'])
def _():
    whole = pick(False, True)
    u = newbool('use')
    d = obj(m.LdmlMerge, useDrafts=newbool('drafts'), silns=newstr('silns'), blocks=Blocks())
    this = anode('ours', ro=False)
    o = anode("the other's child")
    def item(h): return anode("the other's child")
    other = anode('the other', kids=[Seg('before', 'list', item), o, Seg('after', 'list', item)])
    ps = list(other.children.ps)
    setghost('taken', 0)
    def taken(self, *a, **k):
        b = SIG.bind(self, *a, **k).arguments
        prove('it is put on ours', b['this'] is this)
        if b['o'] is o: setghost('taken', core.C.ghost['taken'] + 1)
    def fonts(self, x, *a):
        if x is o: setghost('taken', core.C.ghost['taken'] + 100)
    rt.CONTRACTS[Q + '_overlay_child'] = taken
    rt.CONTRACTS[Q + '_overlay_external_resources'] = fonts
    inputs()
    if whole:
        cover('whole')
        d.root = this
        od = obj(m.LdmlMerge, root=other)
        meth(d, 'overlay', od, usedrafts=u)
    else: meth(d, 'overlay', other, usedrafts=u, this=this)
    n = core.C.ghost['taken']
    if truth(rt.contains(d.blocks, o.tag)):
        cover('block')
        prove('a block is left out', rt.eq(n, 0))
    elif truth(rt.eq(o.tag, '{' + d.silns + '}external-resources')): cover('fonts')
    else:
        cover('child')
        prove('every other child is overlaid, once', rt.eq(n, 1))
    prove('the other is as it was', sameps(other.children.ps, ps))
