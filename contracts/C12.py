"""Ldml.addnode: of two nodes of one identity the better is the primary one, and the other is kept as an alternate."""
from spec_alts import *
TRUSTED += ["_calc_hashes gives a node the hash of its identity (the subject of C15)"]
def run(uid, has, altgiven, equiv, more):
    d = obj(m.Ldml, useDrafts=True, use_draft=pick(None, draft('default')), default_draft=draft('default'), uid=newstr('uid') if uid else None, namespaces={})
    H = Atom('identity')
    K = newstr('K')
    core.C.focus = [(K, lambda o: isinstance(o, SMap) and o.base is not None)]
    parent = Node('parent', name='the parent')
    parent.__dict__['document'] = Atom('document')
    before, after = others('before', H), others('after', H)
    n = None
    old = X = ABSENT
    if equiv:
        n = node('node', attrHash=H, parent=parent)
        parent.children.ps = [before, n, after]
        if has:
            A = n.__dict__['alternates'] = alternates()
            X = A.look(K)
            old = A.copy()
            core.C.facts['roots'] = [A, old]
    else: parent.children.ps = [before]
    d0 = n.attrib.look('draft') if n is not None else None
    new = draft('new')
    alt = newstr('alt') if altgiven else None
    if altgiven: assume(rt.ne(alt, ''))
    key = alt if altgiven else 'proposed'
    if uid: key = key + '-' + d.uid
    def hashes(self, base, usedrafts=False):
        prove('the hashes are taken without drafts', same(usedrafts, True))
        base.attrHash = H
    rt.CONTRACTS['sldr.ldml:Ldml._calc_hashes'] = hashes
    def case(mm):
        r = lambda x: mm.eval(R(x.e), model_completion=True).as_long()
        ops = []
        if n is not None:
            ops.append(['a', r(d0), None])
            if has:
                k = conc(key, mm)
                seen = {}
                for kk, v in old.known(mm):
                    ck = conc(kk, mm)
                    if ck not in seen:
                        seen[ck] = 'x' if ck == k else 'y%d' % len(seen)
                        ops.append(['a', r(v.attrib.look('draft')), seen[ck]])
        # the drafts of alternates can not be better than that of the primary in a history; others are left to the search
        return [uid, ops + [['a', r(new), 'x' if altgiven else None]]]
    inputs(case=case)
    a = SMap(); a['type'] = newstr('type'); a['draft'] = new
    if more: a['other'] = newstr('value')
    ret = pick(False, True)
    e = meth(d, 'addnode', parent, 'tag', attrib=a, alt=alt, returnnew=ret)
    prove('a node is returned', isinstance(e, Node))
    if not equiv:
        prove('the new node comes last', beside(parent, before, e))
        prove('the new node has its draft', same(e.attrib.look('draft'), new))
        prove('the new node is in its parent', e.__dict__.get('parent') is parent)
        return
    head = [x for x in parent.children._norm() if not isinstance(x, Seg)]
    prove('one node is there', len(head) == 1)
    head = head[0]
    prove('it has the place', beside(parent, before, head, after))
    better = truth(rt.lt(rating(new), rating(d0)))
    if ret: new_ = e
    else:
        al = getattr(head, 'alternates', None)
        new_ = head if better else al.look(key) if isinstance(al, SMap) else ABSENT
    prove('the node with the better draft is the primary one', head is not n if better else head is n)
    if better: prove('the primary node is the new one', not ret or head is e)
    prove('the primary carries no alt', head.attrib.look('alt') is ABSENT)
    prove('the primary node is in its parent', head.__dict__.get('parent') is parent)
    prove('the primary has the draft', same(head.attrib.look('draft'), new if better else d0))
    prove('the old node keeps its draft', same(n.attrib.look('draft'), d0))
    now = getattr(head, 'alternates', None)
    prove('there are alternates', isinstance(now, SMap))
    at = now.look(key)
    was = old.look(key) if has else ABSENT
    if better:
        prove('the displaced primary is kept under the alt', at is n)
        prove('it is marked with the alt', n.attrib.look('alt') is not ABSENT and eq(n.attrib.look('alt'), key))
    elif was is not ABSENT and truth(rt.lt(rating(was.attrib.look('draft')), rating(new))):
        prove('a better alternate under the same alt stays', at is was)
    else:
        prove('the new node is kept under the alt', at is not ABSENT and at is not was and at is not n and (not ret or at is e))
        prove('the new node has its draft', at is not ABSENT and same(at.attrib.look('draft'), new))
        prove('the new node is marked with the alt', at is not ABSENT and at.attrib.look('alt') is not ABSENT and eq(at.attrib.look('alt'), key))
    prove('the number of alternates', eq(now.slen(), (old.slen() if has else 0) + (0 if was is not ABSENT else 1)))
    if has and truth(rt.ne(K, key)): prove('alternates under other alts stay', now.look(K) is X)
for uid in (0, 1):
    for has in (0, 1):
        for alt in (0, 1):
            @ob('%s, %s, %s' % ('a uid' if uid else 'no uid', 'alternates' if has else 'no alternates', 'an alt' if alt else 'no alt'))
            def _(uid=uid, has=has, alt=alt): run(uid, has, alt, True, False)
@ob('no equivalent node')
def _(): run(pick(0, 1), 0, pick(0, 1), False, pick(False, True))
@ob('the rating of a node')
def _():
    d = obj(m.Ldml, default_draft=draft('default'))
    e = node('e')
    prove('is the rating of its draft mark', eq(meth(d, 'get_draft', e, draft('other')), rating(e.attrib.look('draft'))))
