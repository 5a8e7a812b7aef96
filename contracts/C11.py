"""localns/reverse_localns and ETWriter._localisens/_reverselocalns undo each other."""
from pv import *
m = load('sldr.ldml')
ASSUMPTIONS += ["no URL or prefix has a brace, no prefix or local name a colon, none is empty", "the prefixes of a namespace table are all different"]
no = lambda *cs: lambda c: z3.And(*[c != ord(x) for x in cs])
def url(h): return newstr(h, no('{', '}'), 1)
def prefix(h): return newstr(h, no(':', '{', '}'), 1)
def local(h): return newstr(h, no(':', '{', '}'), 1)
def table(U=None, P=None, absent=None):
    """any table: with U for P if U is given, else without P and without the URL absent"""
    def val(k):
        if U is not None and k is U: return P
        v = prefix('prefix')
        if P is not None: assume(rt.ne(v, P))
        return v
    t = SMap.opaque_('namespaces', url, val)
    if U is not None:
        core.C.focus = [(U, lambda o: o is t)]
        t.base.set(U, P); assume(mkbool(t.base.n >= 1))
    elif absent is not None:
        core.C.focus = [(absent, lambda o: o is t)]
        t.base.set(absent, ABSENT)
    return t
def pairs(t):
    """the two conversions of each place"""
    w = obj(m.ETWriter, namespaces=t, nscount=0)
    if t is not None: yield 'functions', lambda x: call(m.localns, x, t), lambda x: call(m.reverse_localns, x, t)
    if t is not None: yield 'writer', lambda x: rt.getitem(meth(w, '_localisens', x), 0), lambda x: meth(w, '_reverselocalns', x)
def case(U, P, n):
    def f(mm):
        w = lambda s, d: ''.join(c if c.isalnum() else 'x' for c in conc(s, mm)) or d
        return [[['urn:' + w(U, 'u'), w(P, 'p')]] if U is not None else [], w(P, 'p') if P is not None else '', w(n, 'n')]
    return f
@ob('a name in a known namespace')
def _():
    U, P, n = url('U'), prefix('P'), local('n')
    t = table(U, P)
    inputs(case=case(U, P, n))
    full, short = '{' + U + '}' + n, P + ':' + n
    for which, lf, rf in pairs(t):
        prove(which + ': the URL form gives the prefix form', eq(lf(full), short))
        prove(which + ': the prefix form gives the URL form', eq(rf(short), full))
        prove(which + ': URL to prefix and back', eq(rf(lf(full)), full))
        prove(which + ': prefix to URL and back', eq(lf(rf(short)), short))
@ob('a name in no known namespace')
def _():
    P, X, n = prefix('P'), url('X'), local('n')
    t = table(None, P, X)
    inputs(case=case(None, P, n))
    for which, lf, rf in pairs(t):
        prove(which + ': an unknown prefix is left alone', eq(rf(P + ':' + n), P + ':' + n))
        if which == 'functions': prove(which + ': an unknown URL is left alone', eq(lf('{' + X + '}' + n), '{' + X + '}' + n))
@ob('a name in no namespace')
def _():
    n = local('n')
    t = table()
    inputs(case=case(None, None, n))
    for which, lf, rf in pairs(t):
        prove(which + ': the name is left alone in the prefix form', eq(lf(n), n))
        prove(which + ': the name is left alone in the URL form', eq(rf(n), n))
@ob('the built-in namespaces')
def _():
    n = local('n')
    inputs(case=lambda mm: [[['urn://www.sil.org/ldml/0.1', 'sil'], ['http://www.w3.org/XML/1998/namespace', 'xml']], 'sil', 'n'])
    for u, p in (('urn://www.sil.org/ldml/0.1', 'sil'), ('http://www.w3.org/XML/1998/namespace', 'xml')):
        full, short = '{' + u + '}' + n, p + ':' + n
        prove('the URL form gives the prefix form', eq(call(m.localns, full), short))
        prove('the prefix form gives the URL form', eq(call(m.reverse_localns, short), full))
