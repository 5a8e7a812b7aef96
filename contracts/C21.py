"""LangTag.merge_equivalent: refused and unchanged, or the union with the receiver first."""
from pv import *
m = load('sldr.langtags_full')
ASSUMPTIONS += ["the two tags are different objects with no list in common", "the extensions of the tags are two dictionaries, not one"]
FL = ('hidescript', 'hideregion', 'hideboth')
def tag(h, haveext, havedesc):
    t = obj(m.LangTag, lang=Atom(h + 'lang'), script=pick(None, Atom(h + 'script')), region=pick(None, Atom(h + 'region')), variants=pick(None, alist(h + 'variants', None, 1)),
            extensions=SMap.opaque_(h + 'ext', lambda n: Atom('ns'), lambda k: alist('subtags')) if haveext else None, base=SList(), hidevariants=None, hideextensions=None)
    for f in FL: setattr(t, f, newbool(h + f))
    if havedesc: t.desc = alist(h + 'desc')
    return t
def case(a, b, A, B):
    def f(mm):
        def one(t):
            n = lambda v, pool: None if v is None else named(v, mm, pool)
            ext = []
            if t['extensions'] is not None:
                ext = [[named(k, mm, ['u', 't', 'a', 'b', 'c', 'd']), ['aa' if t is a else 'bb']] for k, v in t['extensions'].known(mm)] or [['u', ['aa']]]
            return [named(t['lang'], mm, ['en', 'fr']), n(t['script'], ['Latn', 'Cyrl']), n(t['region'], ['US', 'GB']), [] if t['variants'] is None else ['aaaaa' if t is a else 'bbbbb'], ext]
        fl = lambda t: sum(1 << i for i, x in enumerate(FL) if conc(t[x], mm))
        return [one(a), one(b), fl(a), fl(b)]
    return f
def merge(ea, eb, da, db):
    A, B = tag('self_', ea, da), tag('tag_', eb, db)
    K = Atom('ns')
    core.C.focus = [(K, lambda o: isinstance(o, SMap))]
    a0, b0 = dict(vars(A)), dict(vars(B))
    inputs(case=case(a0, b0, A, B))
    if a0['extensions'] is not None: a0['ext'] = a0['extensions'].copy()
    def at(d): return d['extensions'].look(K) if d['extensions'] is not None else ABSENT
    ea, eb = at(a0), at(b0)
    keep = {id(v): list(v.ps) for v in (ea, eb, a0['variants'], b0['variants'], a0.get('desc'), b0.get('desc')) if isinstance(v, SList)}
    na = a0['extensions'].slen() if a0['extensions'] is not None else None
    r = call(m.LangTag.merge_equivalent, A, B)
    def content(v): return isinstance(v, SList) and id(v) in keep and rt.listeq(v, SList(ps=keep[id(v)]))
    clash = bor(band(a0['script'] is not None and b0['script'] is not None, rt.ne(a0['script'], b0['script'])), band(a0['region'] is not None and b0['region'] is not None, rt.ne(a0['region'], b0['region'])))
    # the tag merged from
    now = vars(B)
    prove('the tag merged from keeps its parts', set(now) == set(b0) and all(now[x] is b0[x] or isinstance(b0[x], SBool) and same(now[x], b0[x]) for x in b0))
    for x in ('variants', 'desc'):
        if isinstance(b0.get(x), SList): prove('the %s of the tag merged from keep their content' % x, content(b0[x]))
    if b0['extensions'] is not None:
        e2 = B.extensions.look(K)
        prove('an extension of the tag merged from is the same', e2 is eb and (eb is ABSENT or content(eb)))
    if truth(r):
        cover('merged')
        prove('not merged when script or region differ', bnot(clash))
        first = lambda x, y: x if x is not None else y
        for x in ('script', 'region', 'variants'):
            g, w = getattr(A, x), first(a0[x], b0[x])
            prove('%s is of whichever gave it' % x, (g is None and w is None) or (g is not None and w is not None and (rt.listeq(g, w) if isinstance(w, SList) else rt.eq(g, w))))
        prove('the language is its own', A.lang is a0['lang'])
        ex = A.extensions
        got = ex.look(K) if ex is not None else ABSENT
        if ea is not ABSENT: prove('an extension it has keeps its value', got is ea and content(ea))
        elif eb is not ABSENT:
            prove('an extension of the other is taken over', got is not ABSENT and isinstance(got, SList) and rt.listeq(got, eb))
            prove('an extension taken over is not shared', got is not eb)
        else: prove('no extension is invented', got is ABSENT)
        prove('no extensions stay none', bool(ex is None) == bool(a0['extensions'] is None and b0['extensions'] is None) or ex is not None and not (a0['extensions'] is None and b0['extensions'] is None))
        if ex is not None: prove('the extensions are its own dictionary', ex is not b0['extensions'])
    else:
        cover('refused')
        prove('refused only when script or region differ', clash)
        now = vars(A)
        prove('a refused merge changes no part', set(now) == set(a0) - {'ext'} and all(now[x] is a0[x] or isinstance(a0[x], SBool) and same(now[x], a0[x]) for x in now))
        for x in ('variants', 'desc'):
            if isinstance(a0.get(x), SList): prove('a refused merge keeps the %s' % x, content(a0[x]))
        if a0['extensions'] is not None:
            prove('a refused merge keeps the extensions', A.extensions.look(K) is ea and (ea is ABSENT or content(ea)))
            prove('a refused merge keeps the number of extensions', rt.eq(A.extensions.slen(), na))
for ea in (0, 1):
    for eb in (0, 1):
        for da in (0, 1):
            for db in (0, 1):
                ob('merge_equivalent, extensions %s/%s, description %s/%s' % tuple('yes' if x else 'no' for x in (ea, eb, da, db)), covers=['refused', 'merged'], paths=20000)(lambda a=(ea, eb, da, db): merge(*a))
