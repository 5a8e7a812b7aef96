"""Sheet._writeodsitem: the column shows the value, every other column what it showed."""
from pv import *
m = load('sldr.sheet')
ASSUMPTIONS += ["the row has only cells, the column is one of them", "a cell is empty or has one paragraph of plain text"]
TRUSTED += ["odfpy: childNodes, firstChild, lastChild, nextSibling, insertBefore, appendChild, addElement, hasChildNodes, getAttribute, setAttribute, TableCell(), P(text=...) and str() as its source has them"]
REP = 'numbercolumnsrepeated'
class Text:
    tagName = 'Text'
    def __init__(self, data): self.data = data
    def str_(self): return self.data
class Elem:
    """an element of odfpy"""
    attributes = None
    def __init__(self, where='new', **attrs):
        self.where, self.attrs, self.childNodes, self.parentNode = where, {}, SList(), None
        for k, v in attrs.items(): self.setAttribute(k, v)
    def write(self):
        if self.where in ('before', 'after'): prove('no other run of cells is written', False)
    def getAttribute(self, a): return self.attrs.get(a)
    def setAttribute(self, a, v): self.write(); self.attrs[a] = rt.tostr(v)
    def hasChildNodes(self): return self.childNodes.slen() > 0
    def appendChild(self, c):
        self.write()
        if isinstance(c, Elem) and c.parentNode is not None: raise Unsupported('a node that is moved')
        self.childNodes.append(c); c.parentNode = self
        return c
    def addElement(self, c, check_grammar=True): self.appendChild(c)
    def addText(self, t, check_grammar=True):
        if truth(rt.ne(t, '')): self.appendChild(Text(t))
    def insertBefore(self, c, ref):
        if ref is None: return self.appendChild(c)
        self.write()
        if c.parentNode is not None: raise Unsupported('a node that is moved')
        ps = list(norm(tuple(self.childNodes.ps)))
        k = [i for i, x in enumerate(ps) if x is ref]
        if not k: raise Unsupported('a reference that is not a child')
        ps.insert(k[0], c); self.childNodes.ps = ps; c.parentNode = self
        return c
    @property
    def firstChild(self): return rt.getitem(self.childNodes, 0) if truth(self.childNodes.slen() > 0) else None
    @property
    def lastChild(self): return rt.getitem(self.childNodes, -1) if truth(self.childNodes.slen() > 0) else None
    @property
    def nextSibling(self):
        ps = list(norm(tuple(self.parentNode.childNodes.ps)))
        k = [i for i, x in enumerate(ps) if x is self]
        if not k: raise Unsupported('the sibling of a node that was not reached')
        rest = SList(ps=ps[k[0] + 1:])
        if not truth(rest.slen() > 0): return None
        x = rt.getitem(rest, 0)
        return x
    def str_(self):
        r = ''
        for c in self.childNodes.native(): r = r + rt.tostr(c)
        return r
class P(Elem):
    tagName = 'text:p'
    def __init__(self, text=None, where='new'):
        Elem.__init__(self, where)
        if text is not None: self.addText(text)
class TableCell(Elem): tagName = 'table:table-cell'
class Row(Elem): tagName = 'table:table-row'
m.P, m.TableCell = P, TableCell
def count(c):
    v = c.getAttribute(REP)
    return 1 if v is None else rt.call(int, v)
def shows(c):
    """the text of a cell, as a spreadsheet shows it"""
    return c.str_()
def cell(where, row, lo=None):
    c = TableCell()
    c.where, c.parentNode = where, row
    if pick(0, 1):
        n = newint('run', 1)
        c.attrs[REP] = rt.decstr(n)
    if pick(0, 1):
        t = newstr('text', None, 1)
        p = P(where=where); p.childNodes = SList([Text(t)]); p.childNodes.ps[0].parentNode = p; p.parentNode = c
        c.childNodes = SList([p])
    c.old = shows(c)
    core.C.facts.setdefault('cells', []).append(c)
    return c
def start():
    row = Row()
    B = newint('columns before', 0)
    st = core.C.facts
    def before(h):
        c = cell('before', row)
        # the item the loop stands at (its prefix sum is known), or any other
        assume(mkbool(num(st.pop('prefix', 0)) + num(count(c)) <= num(B)))
        return c
    def prefix(h):
        st['prefix'] = newint(h, 0)
        return st['prefix']
    def first():
        st['prefix'] = 0
        return {'s': 0}
    b = Seg('before', 'list', before)
    assume(mkbool(z3.And(num(B) >= b.n, (num(B) == 0) == (b.n == 0))))
    b.memo['folds'] = [Fold('sum', first, lambda g, c, L: {'s': g['s'] + count(c)}, {'s': prefix}, ())]
    b.memo[('fold', 'sum')] = {'s': B}
    b.memo['where'] = 'before'
    this = cell('this', row)
    after = Seg('after', 'list', lambda h: cell('after', row))
    row.childNodes = SList(ps=[b, this, after])
    n = count(this)
    col = newint('col')
    assume(mkbool(z3.And(num(col) > num(B), num(col) <= num(B) + num(n))))
    value = newstr('value', None, 1)
    s = obj(m.Sheet, currentrow=row)
    def case(mm):
        old = 'old' if truth(slen(this.old) > 0) else None
        k, w, bb = conc(n, mm), conc(col, mm), conc(B, mm)
        rowx = ([[min(bb, 50), 'B']] if bb else []) + [[min(k, 50), old]] + ([[1, 'A']] if core.C.must(after.n > 0) else [])
        return [rowx, [[min(w - bb, 50) + min(bb, 50), 'N']]]
    inputs(case=case)
    return s, row, b, this, after, B, n, col, value
def full(ps): return [x for x in norm(tuple(ps)) if not (isinstance(x, Seg) and core.C.must(x.n == 0))]
def result(row, b, after):
    """what stands between the runs before and the runs after"""
    ps = full(row.childNodes.ps)
    out = [x for x in ps if not isinstance(x, Seg) and x.where not in ('before', 'after')]
    i = ps.index(out[0])
    return ps[:i], out, ps[i + len(out):]
@ob('writing a cell', covers=['alone', 'first of a run', 'last of a run', 'inside a run'])
def _():
    s, row, b, this, after, B, n, col, value = start()
    old = this.old
    meth(s, '_writeodsitem', col, value)
    pre, mid, post = result(row, b, after)
    prove('the runs before are the same', pre == full((b,)))
    prove('the runs after are the same', post == full((after,)))
    cover('alone' if truth(rt.eq(n, 1)) else 'first of a run' if truth(rt.eq(col, B + 1)) else 'last of a run' if truth(rt.eq(col, B + n)) else 'inside a run')
    cs = [count(c) for c in mid]
    prove('every run is of one or more', band(*[mkbool(num(c) >= 1) for c in cs]))
    prove('there are as many columns as before', eq(sum(cs, 0), n))
    # the column written, and any other
    j = newint('column')
    assume(mkbool(z3.And(num(j) > num(B), num(j) <= num(B) + num(n))))
    at, shown = B, None
    for c, k in zip(mid, cs):
        if truth(mkbool(num(j) <= num(at) + num(k))): shown = c; break
        at = at + k
    if shown is None: prove('there is a cell at every column', False)
    elif truth(rt.eq(j, col)): prove('the column shows the value', eq(shows(shown), value))
    else: prove('every other column shows what it did', eq(shows(shown), old))
    prove('no cell is there twice', len({id(c) for c in mid}) == len(mid))
