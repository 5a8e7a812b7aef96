"""ldml_keyboard: every layer's output begins with what is settled of it; a keystroke gives a new state and leaves the ones before alone."""
from pv import *
m = load('sldr.ldml_keyboard')
TRUSTED += ["Rules.match, _sort and _get_charcodes give any results (they are handed no state)", "UnicodeSets.struni gives any string"]
ASSUMPTIONS += ["a keystroke that ends in an exception (group or context syntax the module does not support) returns no state and is not meant"]
Real = m.Context
def real(): m.Context = Real
LAYERS = sorted(m.Context.slotnames, key=m.Context.slotnames.get)
FIELDS = ('stables', 'outputs', 'offsets')
def context(hint):
    """any state with the invariant"""
    st, ou = [], []
    for k in range(len(LAYERS)):
        s = newstr('settled')
        st.append(s); ou.append(s + newstr('more') if k else s)     # the input is always settled
    return obj(Real, stables=SList(st), outputs=SList(ou), offsets=SList([newint('offset') for _ in LAYERS]), error=newint('error', 0))
def inv(c, what):
    for f in FIELDS: prove('%s: as many %s as there are layers' % (what, f), eq(getattr(c, f).slen(), len(LAYERS)))
    prove('%s: the input is settled' % what, eq(rt.getitem(c.outputs, 0), rt.getitem(c.stables, 0)))
    for k in range(len(LAYERS)):
        prove('%s: the output begins with what is settled' % what, rt.startswith(rt.getitem(c.outputs, k), rt.getitem(c.stables, k)))
def own(c, *others):
    """no list of the state belongs to another"""
    ls = [getattr(c, f) for f in FIELDS]
    prove('the state has lists of its own', len({id(x) for x in ls}) == len(ls) and not any(getattr(o, f) is x for o in others for f in FIELDS for x in ls))
def snap(c): return {f: list(getattr(c, f).ps) if isinstance(getattr(c, f), SList) else getattr(c, f) for f in FIELDS + ('error',)}, {f: id(getattr(c, f)) for f in FIELDS}
def unchanged(c, was, what):
    old, ids = was
    prove('%s keeps its lists' % what, all(id(getattr(c, f)) == i for f, i in ids.items()))
    for f, v in old.items():
        now = getattr(c, f)
        if isinstance(v, list): prove('%s: its %s are the same' % (what, f), eq(now.slen(), len(v)) and band(*[eq(a, b) for a, b in zip(now.ps, v)]))
        else: prove('%s: the same %s' % (what, f), eq(now, v))
@ob('a new state')
def _():
    real()
    ch = newstr('chars')
    c = call(m.Context, ch) if pick(0, 1) else call(m.Context)
    inv(c, 'a new state')
    own(c)
@ob('a state made from another')
def _():
    real()
    a = context('before')
    was = snap(a)
    ch = newstr('chars')
    c = meth(a, 'clone', ch) if pick(0, 1) else meth(a, 'clone')
    prove('it is another state', c is not a)
    unchanged(a, was, 'the state it is made from')
    own(c, a)
    inv(c, 'the state made')
@ob('a layer is started anew')
def _():
    real()
    a = context('a')
    name = pick(*LAYERS)
    meth(a, 'reset_output', name)
    inv(a, 'reset_output'); own(a)
@ob('results are added to a layer', covers=['settled', 'temporary'])
def _():
    real()
    a = context('a')
    name = pick(*LAYERS[1:])
    k = LAYERS.index(name)
    st = a.stables.ps[k]
    meth(a, 'results', name, newint('length'), newstr('res'))
    cover('temporary' if a.stables.ps[k] is st else 'settled')
    inv(a, 'results'); own(a)

# ------------------------------------------------------------ Keyboard: states against the contracts above
class Cells:
    """stables, outputs or offsets of a state, any with the invariant"""
    def __init__(self, c, f): self.c, self.f, self.read = c, f, {}
    def key(self, k):
        k = k.__index__() if isinstance(k, int) else None
        if k is None: raise Unsupported('a layer that is not known')
        return k % len(LAYERS)
    def slen(self): return len(LAYERS)
    def __len__(self): return len(LAYERS)
    def __getitem__(self, k):
        k = self.key(k)
        if k in self.read: return self.read[k]
        self.read[k] = v = newint('offset') if self.f == 'offsets' else newstr('settled') if self.f == 'stables' else self.c.stables[k] + newstr('more') if k else self.c.stables[k]
        return v
    def __setitem__(self, k, v):
        k = self.key(k)
        self.c.write()
        if self.f != 'offsets':
            st, ou = (v, self.c.outputs[k]) if self.f == 'stables' else (self.c.stables[k], v)
            prove('every output written begins with what is settled of it', rt.startswith(ou, st) if k else eq(ou, st))
        self.c.forget()
class Ctx:
    """a state; its methods against their contracts"""
    slotnames = m.Context.slotnames
    def __init__(self, chars='', old=False):
        self.__dict__.update(old=old, error=0, **{f: Cells(self, f) for f in FIELDS})
    def __setattr__(self, a, v):
        self.write()
        if a in FIELDS and not isinstance(v, Cells): raise Unsupported('the lists of a state are replaced')
        self.__dict__[a] = v
    def write(self):
        if self.old: prove('no earlier state is written', False)
    def forget(self):
        self.write()
        for f in FIELDS: self.__dict__[f].read.clear()
    def clone(self, chars=''): return Ctx(chars)
    def reset_output(self, name): self.forget()
    def results(self, name, length, res):
        prove('results are for a layer that has one before it', name in LAYERS[1:])
        self.forget()
    def index(self, name='base'): return self.slotnames[name]
    def len(self, name='simple'): return rt.len_(self.input(name))
    def input(self, name='simple'): return self.__dict__.get('text') or self.outputs[self.slotnames[name] - 1]
    def offset(self, name='simple'): return self.offsets[self.slotnames[name]]
def model(): m.Context = Ctx
class Trans:
    """a set of rules: any of them matches any part of the text"""
    def match(self, s, ind=0, partial=False, fail=False):
        n = newint('matched', 0)
        return (pick(None, Hit()), n)
class Hit:
    error = property(lambda self: self.pick('error'))
    to = property(lambda self: newstr('to'))
    def pick(self, a):
        if pick(0, 1): raise AttributeError(a)
        return 1
def keyboard(hist):
    k = obj(m.Keyboard, history=hist, keyboards=SList(), context='')
    def has(*names): return SMap([(n, Trans()) for n in names if pick(0, 1)])
    object.__setattr__(k, 'settings', SMap([(n, newstr(n)) for n in ('transformPartial', 'transformFailure', 'fallback')]))
    object.__setattr__(k, 'modifiers', SMap())
    return k, has
def full(ps): return [x for x in norm(tuple(ps)) if not (isinstance(x, Seg) and core.C.must(x.n == 0))]
def earlier(): return alist('history', lambda h: Ctx(old=True))
def quiet(f, *a, **k):
    """an exception ends the keystroke: no state"""
    try: return f(*a, **k)
    except (core.PathEnd, core.Restart, core.Unsupported): raise
    except Exception: raise core.PathEnd()
rt.CONTRACTS['sldr.UnicodeSets:struni'] = lambda *a: newstr('chars')
def sub(name, args, needs):
    """one step of a keystroke: it writes the state it is given and no other, and keeps the invariant"""
    @ob(' '.join([name.strip('_').replace('_', ' ')] + [str(a) for a in args]))
    def _():
        model()
        h = earlier()
        k, has = keyboard(h)
        k.transforms = has(*needs)
        c = context('c') if name == '_process_backspace' else Ctx()
        n = h.slen()
        quiet(meth, k, name, c, *args)
        if name == '_process_backspace':
            inv(c, name); own(c)
        prove('the history is the same', k.history is h and eq(h.slen(), n))
for r in LAYERS[1:]: sub('_process_empty', (r,), ())
sub('_process_backspace', ('backspace',), ('backspace',))

sub('_process_simple', (), ('simple', 'final'))
sub('_process_simple', ('final', False), ('simple', 'final'))
class Text:
    """any text, of which nothing is known"""
    def __init__(self): self.n = newint('length', 0)
    def slen(self): return self.n
    def __getitem__(self, k): return Text() if isinstance(k, slice) else newchar('c')
class Keys:
    """the sort keys so far: any"""
    _kind = staticmethod(lambda h: Keys(None))
    def __init__(self, n): self.n = n
    def __getitem__(self, k): return Keys(self.n) if isinstance(k, slice) else m.SortKey(newint('primary'), newint('index'), newint('tertiary'), newint('tiebreak'))
    def __setitem__(self, k, v): pass
def charcodes(self, instr, curr, trans): return alist('codes', lambda h: m.CharCode(newint('primary'), newint('base'), newint('tertiary'), newbool('prebase')))
@ob('process reorder', join='sldr.ldml_keyboard:Keyboard._process_reorder')
def _():
    model()
    core.C.facts['listmul'] = lambda l, n: Keys(n)
    rt.CONTRACTS['sldr.ldml_keyboard:Keyboard._get_charcodes'] = charcodes
    rt.CONTRACTS['sldr.ldml_keyboard:Keyboard._sort'] = lambda *a: newstr('sorted')
    h = earlier()
    k, has = keyboard(h)
    k.transforms = has('reorder')
    c = Ctx()
    c.__dict__['text'] = Text()
    n = h.slen()
    quiet(meth, k, '_process_reorder', c)
    prove('the history is the same', k.history is h and eq(h.slen(), n))
# ------------------------------------------------------------ a keystroke
def step(name):
    def f(self, c, *a, **k):
        if not isinstance(c, Ctx): raise Unsupported('a step of a keystroke on something else')
        c.forget()
        return newbool(name)
    return f
@ob('a keystroke', covers=['a state', 'an error', 'the first', 'a later one'])
def _():
    model()
    for n in ('simple', 'reorder', 'backspace', 'empty'): rt.CONTRACTS['sldr.ldml_keyboard:Keyboard._process_' + n] = step(n)
    rt.CONTRACTS['sldr.ldml_keyboard:Keyboard.map_key'] = lambda self, k, mods: newstr('chars')
    h = earlier()
    orig = tuple(h.ps)
    k, has = keyboard(h)
    first = not truth(h.slen() > 0)
    cover('the first' if first else 'a later one')
    r = quiet(meth, k, 'process', newstr('key') if pick(0, 1) else 'BKSP', SList())
    prove('the state returned is a new one', isinstance(r, Ctx) and not r.old)
    now, was = full(k.history.ps), full(orig)
    if len(now) > len(was):
        cover('a state')
        prove('the state is remembered', now[-1] is r)
        now = now[:-1]
    else: cover('an error')
    prove('the states before are as they were', len(now) == len(was) and all(a is b for a, b in zip(now, was)))
@ob('mapping a key')
def _():
    model()
    h = earlier()
    k, has = keyboard(h)
    n = h.slen()
    quiet(meth, k, 'map_key', newstr('key'), SList())
    prove('the history is the same', k.history is h and eq(h.slen(), n))
