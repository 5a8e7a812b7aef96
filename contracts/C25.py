"""Exemplars.parcel_frequency: every cluster goes to main or to auxiliary by its count."""
from pv import *
m = load('sldr.ldml_exemplars')
ASSUMPTIONS += ["floating point numbers are real numbers: a count within rounding of the threshold is not decided", "every cluster in the collection has a count of one or more; the percentage is not negative"]
TATWEEL = '\u0640'
def cluster(h):
    e = obj(m.Exemplar, base=newstr('base'), trailers=newstr('trailers'))
    return e
def text(e): return rt.getattr_(e, 'text')
def start(low=None, high=None):
    """an analyser with any clusters; low: a text whose clusters are all not above the threshold (or the tatweel), high: the reverse"""
    x = obj(m.Exemplars, frequent=newreal('percent'))
    assume(x.frequent >= 0)
    T = newint('total', 0)
    def count(e):
        n = newint('count', 1)
        assume(n <= T)
        if low is not None: assume(bor(rt.ne(text(e), low), bnot(above(x, T, n)), rt.eq(low, TATWEEL)))
        if high is not None: assume(bor(rt.ne(text(e), high), band(above(x, T, n), rt.ne(high, TATWEEL))))
        return n
    x.clusters = SMap.opaque_('clusters', cluster, count)
    x.clusters.total = T
    for s in ('_main', '_auxiliary'): setattr(x, s, SSet.opaque_(s, lambda h: newstr(h)))
    return x, T
def above(x, T, n):
    """the count is above the percentage of the average count"""
    k = num(x.clusters.slen()) if hasattr(x, 'clusters') else None
    return mkbool(z3.And(k > 0, z3.ToReal(num(n)) > core.nl_mul(core.nl_div(num(T), k), num(x.frequent) / 100)))
def run(x):
    sets = (x._main, x._auxiliary)
    c, n = x.clusters, list(x.clusters.ups)
    meth(x, 'parcel_frequency')
    prove('the clusters are left alone', x.clusters is c and list(c.ups) == n)
def case(x, T, extra=()):
    def f(mm):
        cl = [(k, v) for k, v in x.clusters.known(mm)]
        out = []
        for i, (k, v) in enumerate(cl):
            t = conc(text(k), mm)
            out.append([TATWEEL if t == TATWEEL else 'abcdefgh'[i % 8], '', max(1, conc(v, mm))])
        fr = conc(x.frequent, mm)
        return [out or [['a', '', 1], ['b', '', 1], [TATWEEL, '', 50]], int(fr) if 0 <= fr < 10000 else 100, [], []]
    return f
@ob('a cluster', covers=['main', 'auxiliary', 'tatweel'])
def _():
    x, T = start()
    E = cluster('this')
    core.C.focus = [(E, lambda o: o is x.clusters), (text(E), lambda o: o is x._main or o is x._auxiliary)]
    n = x.clusters.look(E)
    if n is ABSENT: raise core.PathEnd()
    inputs(case=case(x, T))
    run(x)
    t = text(E)
    if truth(rt.eq(t, TATWEEL)): cover('tatweel'); prove('the tatweel goes to auxiliary', x._auxiliary.m.look(t) is not ABSENT)
    elif truth(above(x, T, n)): cover('main'); prove('a frequent cluster goes to main', x._main.m.look(t) is not ABSENT)
    else: cover('auxiliary'); prove('another cluster goes to auxiliary', x._auxiliary.m.look(t) is not ABSENT)
@ob('a text that is not to be in main', covers=['was', 'was not'])
def _():
    X = newstr('X')
    x, T = start(low=X)
    core.C.focus = [(X, lambda o: o is x._main or o is x._auxiliary)]
    was = x._main.m.look(X)
    inputs(case=case(x, T))
    run(x)
    cover('was not' if was is ABSENT else 'was')
    prove('it is in main only if it was', (x._main.m.look(X) is ABSENT) == (was is ABSENT))
@ob('a text that is not to be in auxiliary', covers=['was', 'was not'])
def _():
    X = newstr('X')
    x, T = start(high=X)
    core.C.focus = [(X, lambda o: o is x._main or o is x._auxiliary)]
    was = x._auxiliary.m.look(X)
    inputs(case=case(x, T))
    run(x)
    cover('was not' if was is ABSENT else 'was')
    prove('it is in auxiliary only if it was', (x._auxiliary.m.look(X) is ABSENT) == (was is ABSENT))
@ob('what was there')
def _():
    X = newstr('X')
    x, T = start()
    core.C.focus = [(X, lambda o: o is x._main or o is x._auxiliary)]
    was = [s.m.look(X) for s in (x._main, x._auxiliary)]
    inputs(case=case(x, T))
    run(x)
    for s, w in zip((x._main, x._auxiliary), was):
        if w is not ABSENT: prove('what was in the list stays', s.m.look(X) is not ABSENT)
