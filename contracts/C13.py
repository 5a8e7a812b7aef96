"""Ldml.change_draft: the best of a node and its alternates is the primary node, and none is lost."""
from spec_alts import *
def best(maps):
    """what a search for the best alternate so far has found"""
    def test(v, w):
        if not (v is None or isstr(v)) or not isinstance(w, (int, SInt)) or isinstance(w, bool): return None
        start = core.C.facts['new rating']
        if v is None: return eq(w, start)
        x = core.C.facts['alternates'].look(v)
        if x is ABSENT: return False
        return band(eq(w, rating(x.attrib.look('draft'))), rt.lt(w, start))
    return test
JOINT = [rt.Joint('the best so far', best(None))]
def run(uid, has, altgiven):
    d = obj(m.Ldml, useDrafts=True, use_draft=pick(None, draft('default')), default_draft=draft('default'), uid=newstr('uid') if uid else None)
    n = node('node')
    K = newstr('K')
    core.C.focus = [(K, lambda o: isinstance(o, SMap) and o.base is not None)]
    A = alternates() if has else None
    parent = Node('parent')
    n.__dict__['parent'] = parent
    before, after = others('before'), others('after')
    parent.children.ps = [before, n, after]
    new = draft('new')
    core.C.facts['new rating'] = rating(new)
    alt = newstr('alt') if altgiven else None
    X = ABSENT
    old = None
    if has:
        n.__dict__['alternates'] = A
        X = A.look(K)
        if X is not ABSENT: X.__dict__['parent'] = parent
        old = A.copy()
        core.C.facts['alternates'] = old
        core.C.facts['roots'] = [A, old]
    def case(mm):
        al = []
        if has:
            ks = []
            for k, v in old.known(mm):
                ck = conc(k, mm)
                if ck in ks: continue
                ks.append(ck)
                al.append(['k%d' % len(ks), mm.eval(R(v.attrib.look('draft').e), model_completion=True).as_long()])
        old0 = core.C.facts['old draft']
        return [0, mm.eval(R(old0.e), model_completion=True).as_long(), al, [[mm.eval(R(new.e), model_completion=True).as_long(), 'k1' if altgiven else None]]]
    core.C.facts['old draft'] = n.attrib.look('draft')
    inputs(case=case)
    r = meth(d, 'change_draft', n, new, alt=alt)
    prove('a node is returned', isinstance(r, Node))
    prove('the primary node has the place', beside(parent, before, r, after))
    prove('the node has the new draft', same(n.attrib.look('draft'), new))
    prove('the primary carries no alt', r.attrib.look('alt') is ABSENT)
    now = getattr(r, 'alternates', None)
    prove('no node is better: the changed one', rt.le(rating(r.attrib.look('draft')), rating(new)))
    if not has:
        prove('without alternates there is nothing to elect', r is n and (now is None or not truth(now.slen() > 0)))
        return
    if X is not ABSENT: prove('no node is better: an alternate', rt.le(rating(r.attrib.look('draft')), rating(X.attrib.look('draft'))))
    if r is n:
        prove('the alternates are as they were', now is A and eq(A.slen(), old.slen()) and same_at(A, old, K))
        return
    # r was an alternate
    was = [k for k, v in old.known() if v is r]
    prove('the new primary was an alternate', len(was) == 1)
    k0 = was[0]
    prove('the alternates are held by the new primary', isinstance(now, SMap))
    prove('as many nodes are held', eq(now.slen(), old.slen()))
    held = [k for k, v in now.known() if v is n]
    prove('the old primary is an alternate now', len(held) == 1)
    prove('it is marked with its alt', n.attrib.look('alt') is not ABSENT and eq(n.attrib.look('alt'), held[0]))
    if truth(eq(K, held[0])): prove('it takes no other alternate\'s place', X is ABSENT or X is r)
    elif truth(eq(K, k0)): prove('the new primary is no alternate any more', now.look(K) is ABSENT)
    else: prove('the other alternates stay', now.look(K) is X)
def same_at(a, b, k):
    x, y = a.look(k), b.look(k)
    return x is y
for uid in (0, 1):
    for has in (0, 1):
        for alt in (0, 1):
            @ob('%s, %s, %s' % ('a uid' if uid else 'no uid', 'alternates' if has else 'no alternates', 'an alt' if alt else 'no alt'), joint=JOINT)
            def _(uid=uid, has=has, alt=alt): run(uid, has, alt)
