"""LdmlMerge.difference, one level of it: what is removed, what stays, what is returned; by induction on the trees, all of them."""
from pv import *
from spec_elem import El
m = load('sldr.ldml_merge')
Q = 'sldr.ldml_merge:LdmlMerge.'
ASSUMPTIONS += ["drafts are not in use: there are no alternates", "siblings have different identities, of both documents", "equal content hashes are of equal contents"]
TRUSTED += ["the lemma: the difference is what is discharged for one element and its children, for the children's children by induction"]
class Blocks:
    """the tags of blocks"""
    def __contains__(self, k):
        t = core.C.facts.setdefault('blocks', [])
        for x, b in t:
            if x is k: return bool(b)
        t.append((k, newbool('block')))
        return bool(t[-1][1])
class Ours(El):
    """any children, one of which is looked at; what becomes of the others is seen when one of them is looked at"""
    def topieces(self):
        t = core.C.facts['t']
        gone = truth(rt.gt(core.C.ghost['gone'], 0))
        return [self.a, self.b] if gone or t is None else [self.a, t, self.b]
    def __iter__(self): raise Unsupported('the children one by one')
    def remove(self, x):
        if x is core.C.facts['t']: setghost('gone', core.C.ghost['gone'] + 1)
        setghost('version', core.C.ghost['version'] + 1)
    def append(self, x): prove('nothing is added', False)
    insert = extend = append
    def slen(self):
        tab = core.C.facts.setdefault('len', [])
        v = z3.simplify(num(core.C.ghost['version']))
        for w, n in tab:
            if w.eq(v): return n
        n = newint('children', 0)
        if core.C.facts['t'] is not None: assume(implies(rt.eq(core.C.ghost['gone'], 0), n >= 1))
        tab.append((v, n))
        return n
    def __len__(self): return self.slen()
    def __bool__(self): return truth(self.slen() > 0)
def node(h, cls=El, H=None, ro=True):
    a = newint('identity')
    if H is not None: assume(rt.eq(a, H))
    return cls(newstr('tag', minlen=1), SMap.opaque_(h + 'attrib', lambda n: newstr(n), lambda k: newstr('value')), name=h, ro=ro and h, attrHash=a, contentHash=newint('content'), text=newstr('text'))
def start(): return obj(m.LdmlMerge, useDrafts=False, silns=newstr('silns'), blocks=Blocks(), winner=None)
def call_(d, other, this):
    """on the documents or on elements of them"""
    if pick(False, True):
        d.root = this
        return meth(d, 'difference', obj(m.LdmlMerge, root=other))
    return meth(d, 'difference', other, this)
@ob('elements without children, and blocks', covers=['block', 'no children', 'equal', 'not equal'])
def _():
    d, this, other = start(), node('ours'), node('the other')
    block = pick(False, True)
    if block:
        cover('block')
        for x in (this, other): x.children.ps = [Seg('children', 'list', lambda h: node('child'))]
        core.C.facts['blocks'] = [(this.tag, True)]
    else: cover('no children')
    rt.CONTRACTS.pop(Q + 'difference', None)
    ps = [list(x.children.ps) for x in (this, other)]
    inputs()
    r = call_(d, other, this)
    e = truth(rt.eq(this.contentHash, other.contentHash))
    cover('equal' if e else 'not equal')
    prove('they are the same where their contents are', truth(r) == e)
    prove('nothing is removed', all(a is b for x, p in zip((this, other), ps) for a, b in zip(x.children.ps, p)))
for there in (True, False):
    @ob('a child of ours, ' + ('which the other has' if there else 'which the other has not'), covers=['stays'] + (['removed', 'looked into'] if there else []))
    def _(there=there):
        f = core.C.facts
        d = start()
        H = newint('H')
        t = f['t'] = node('a child of ours', H=H)
        def ours(h):
            x = node('another child'); assume(rt.ne(x.attrHash, H)); return x
        def others(h):
            x = node("another of the other's"); assume(rt.ne(x.attrHash, H)); return x
        this = node('ours', Ours)
        this.__dict__.update(a=Seg('ours', 'list', ours), b=Seg('ours2', 'list', ours))
        this.__dict__['ro'] = 'the element itself'
        other = node('the other')
        o = node("the other's child", H=H)
        other.children.ps = [Seg('before', 'list', others)] + ([o] if there else []) + [Seg('after', 'list', others)]
        ps = list(other.children.ps)
        for x in (o, t): x.children.ps = [Seg('children', 'list', lambda h: node('a grandchild'))]
        core.C.facts['blocks'] = [(this.tag, False)]
        for g in ('gone', 'version', 'into'): setghost(g, 0)
        answer = newbool('nothing left')
        entered = []
        def diff(self, oth, this_=None, **k):
            if 'this' in k: this_ = k['this']
            if not entered:
                entered.append(1)
                return rt.run_fn(Q + 'difference', m.LdmlMerge.difference, (self, oth, *([this_] if this_ is not None else [])), {})
            if this_ is t:
                prove("the other's child of the same identity is taken from it", oth is o)
                setghost('into', core.C.ghost['into'] + 1)
                return answer
            if this_ is this or oth is other or oth is o: prove('one child is taken from one of the same identity', False)
            return newbool('another')
        rt.CONTRACTS[Q + 'difference'] = diff
        for x in (this, other): x.__dict__['text'] = pick(None, newstr('text'))
        inputs()
        r = meth(d, 'difference', other, this)
        gone, into = core.C.ghost['gone'], core.C.ghost['into']
        if there:
            eq_ = truth(rt.eq(o.contentHash, t.contentHash))
            if truth(rt.gt(into, 0)): cover('looked into')
            else: prove('where the contents differ it is looked into', eq_)
            if truth(rt.gt(gone, 0)):
                cover('removed')
                prove('it is removed once', rt.eq(gone, 1))
                prove('what is removed is the same, or nothing of it is left', eq_ or band(rt.gt(into, 0), answer))
            else:
                cover('stays')
                prove('what stays is not the same, and something of it is left', not eq_ and truth(band(rt.gt(into, 0), bnot(answer))))
        else:
            cover('stays')
            prove('what the other has not stays', rt.eq(gone, 0))
            prove('and as it is', rt.eq(into, 0))
        n = this.slen()
        want = truth(rt.eq(n, 0)) and (not truth(this.text) or other.text is not None and truth(rt.eq(this.text, other.text)))
        prove('nothing is left where there are no children and no text but that of the other', truth(r) == want)
        prove('the other is as it was', all(a is b for a, b in zip(norm(tuple(other.children.ps)), norm(tuple(ps)))))
