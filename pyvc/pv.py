"""What contract files use."""
import z3, core, rt, loader, regex
from core import *
from rt import call, meth, eq, ne, truth, getitem, setitem, contains, getattr_, newobj, Lazy, CONTRACTS, EXTERN, model, Fold, Rel, Joint, Grow, setghost, MODELS
OBS = []
ASSUMPTIONS, TRUSTED, GAPS = [], [], []
def ob(name, **opts):
    """An obligation function: run on every path; it calls prove()."""
    def d(f):
        OBS.append((name, f, opts)); return f
    return d
def load(name, path=None, filt=None): return loader.load(name, path, filt)
def ctx(): return core.C
def assume(x): core.C.assume(tz(x) if isinstance(x, SBool) else x)
def inputs(**vals):
    """The inputs of this run: how a counter-model is read back."""
    f = vals.pop('case', None)
    core.C.model_cb = (lambda m: f(m)) if f else None
def prove(name, goal, detail=''):
    if isinstance(goal, SBool) or isinstance(goal, bool): pass
    elif z3.is_expr(goal): pass
    else: goal = truth(goal)
    return core.C.prove(name, goal, getattr(core.C, 'model_cb', None), detail)
def cover(name): core.C.stats.setdefault('covers', set()).add(name)
def expect_raise(exc, f, *a, **k):
    """call f; the exception of that type it raises, or None"""
    try: call(f, *a, **k)
    except exc as e: return e
    return None
def obj(cls, **kw): return newobj(cls, **kw)
def pick(*xs):
    """one of the alternatives, all explored"""
    return xs[core.C.choose(len(xs))]
def AtomOr(*xs): return pick(*xs)
def named(v, m, pool):
    """a value of the pool for an atom, equal atoms the same one"""
    tab = core.C.facts.setdefault('names', {})
    k = str(m.eval(v.e, model_completion=True))
    key = (id(m), tuple(pool))
    d = tab.setdefault(key, {})
    if k not in d: d[k] = pool[len(d) % len(pool)]
    return d[k]
def alist(name, item=None, minlen=0):
    """an arbitrary list"""
    s = Seg(name, 'list', item or (lambda h: Atom(h)), None, minlen)
    return SList(ps=[s])
def same(a, b): return a is b or truth(rt.sameval(a, b))
