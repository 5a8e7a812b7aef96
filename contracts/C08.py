"""Collation.__setitem__: an entry is added, or an error raised and nothing changed."""
from pv import *
m = load('sldr.collation')
ASSUMPTIONS += ["the collation is any collation, whatever its entries", "an element's text form is any text"]
rt.CONTRACTS['sldr.collation:CollElement.__repr__'] = lambda self: newstr('repr')
if '__str__' in vars(m.CollElement): rt.CONTRACTS['sldr.collation:CollElement.__str__'] = lambda self: newstr('str')
def elem(h): return obj(m.CollElement, base=newstr(h + 'base'), level=newint(h + 'level', 0), before=newint(h + 'before', 0), exp='', key=SList(), shortkey='', prefix='', subscript='', order=(newint('o', 0),))
def start():
    c = obj(m.Collation)
    c.data = SMap.opaque_('entries', lambda h: newstr(h), lambda k: elem('old'))
    for a, v in (('ducet', SMap()), ('issorted', newbool('issorted')), ('settings', SMap())): object.__setattr__(c, a, v)
    return c
@ob('storing an element', covers=['new', 'there'])
def _():
    c = start()
    k, other, e = newstr('key'), newstr('other'), elem('new')
    assume(rt.ne(k, other))
    core.C.focus = [(k, lambda o: o is c.data), (other, lambda o: o is c.data)]
    D = c.data
    was, wo, n = D.look(k), D.look(other), D.slen()
    eattrs = [dict(vars(x)) for x in (was, wo) if x is not ABSENT]
    inputs(case=lambda mm: [['set', 'a']] + [['set', 'a']] * (was is not ABSENT) + [['set', 'b']])
    try:
        rt.setitem(c, k, e)
        err = None
    except (core.PathEnd, core.Restart, core.Unsupported): raise
    except Exception as x: err = x
    prove('the collation keeps its dictionary', c.data is D)
    now, no = D.look(k), D.look(other)
    prove('every other entry is the same', no is wo)
    prove('no element it has changes', all(vars(x) == a for x, a in zip([x for x in (was, wo) if x is not ABSENT], eattrs)))
    if was is ABSENT:
        cover('new')
        prove('no error for a new string', err is None)
        prove('the element is stored', now is e)
        prove('one entry more', rt.eq(D.slen(), n + 1))
    else:
        cover('there')
        prove('an error for a string that has an element', err is not None)
        prove('the element is kept', now is was)
        prove('as many entries as before', rt.eq(D.slen(), n))
