"""An element of xml.etree.ElementTree, and what the library hangs on it, as contracts see it. Its methods do what those of
xml.etree.ElementTree._Element_Py do (CPython 3.12)."""
from pv import *
class El:
    def __init__(self, tag=None, attrib=None, kids=(), name='', ro=False, **more):
        d = self.__dict__
        d.update(tag=tag, attrib=SMap() if attrib is None else attrib, text=None, tail=None, children=SList(ps=list(kids)), name=name, ro=ro, oid=core.C.newid())
        d.update(more)
    def write(self):
        if self.__dict__.get('ro'): prove('%s is not written' % (self.ro if isinstance(self.ro, str) else self.name or 'the other element'), False)
    def __setattr__(self, a, v):
        if a not in ('ro', 'name', 'oid'): self.write()
        self.__dict__[a] = v
    def __delattr__(self, a): self.write(); object.__delattr__(self, a)
    def get(self, k, d=None): return rt.call(self.attrib.get, k, d)
    def set(self, k, v): self.write(); rt.setitem(self.attrib, k, v)
    def keys(self): return self.attrib.keys()
    def items(self): return self.attrib.items()
    def slen(self): return self.children.slen()
    def __len__(self): return rt.len_(self.children)
    def __bool__(self): return truth(self.children.slen() > 0)
    def topieces(self): return list(self.children._norm())
    def __iter__(self): return iter(self.children)
    def __getitem__(self, k): return rt.getitem(self.children, k)
    def __setitem__(self, k, v):
        self.write()
        rt.setitem(self.children, k, v)
    def __delitem__(self, k): self.write(); rt.delitem(self.children, k)
    def append(self, e): self.write(); self.children.append(e)
    def insert(self, i, e): self.write(); self.children.insert(i, e)
    def extend(self, es): self.write(); self.children.extend(es)
    def remove(self, e): self.write(); self.children.remove(e)
    def makeelement(self, tag, attrib): return type(self)(tag, SMap(attrib))
    def __copy__(self): raise Unsupported('a copied element')
def snap(e):
    """everything an element holds"""
    d = {k: v for k, v in vars(e).items() if k not in ('oid', 'ro', 'name')}
    return d, list(e.children.ps), e.attrib.copy() if isinstance(e.attrib, SMap) else e.attrib
