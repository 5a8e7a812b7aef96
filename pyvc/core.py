"""pyvc core: path exploration, symbolic values, obligations.

Values: Python values stand for themselves; SBool/SInt/SReal hold z3 terms;
SStr is a sequence of characters (int or z3 Int) and opaque segments; SList,
SMap and SSet are heap objects whose contents may be opaque in part.
A path is one run of the translated code under a prefix of decisions; every
feasible decision is explored (depth first, by re-running)."""
import fractions
import z3, itertools, subprocess, tempfile, os, time

class PathEnd(BaseException):
    """This path is done (infeasible, or cut at a loop head)."""
class Unsupported(BaseException):
    """Outside the supported fragment: nothing is decided."""
class NoFork(Exception):
    """A decision where none may be taken."""
class Restart(BaseException):
    """An invariant candidate was dropped: explore again."""

z3.set_param('smt.random_seed', 7)
SeqS = z3.SeqSort(z3.IntSort())
ObjS = z3.DeclareSort('Obj')
MAXCHR = 0x110000

class Ctx:
    """State of one exploration (shared over paths) and of the current path."""
    def __init__(self, opts=None):
        self.opts = opts or {}
        self.invs = {}          # loop context -> set of dropped candidates
        self.mods = {}          # loop context -> cells modified in the body
        self.kinds = {}         # (loop context, cell) -> value shapes seen
        self.tokens = {}        # things shared by all the paths
        self.ob = {}            # (name) -> list of results
        self.results = []
        self.stats = dict(checks=0, solver_s=0.0, z3=0, cvc5=0, syntactic=0, paths=0, unknown_feasible=0)
        self.deadline = None
    def start_path(self, prefix):
        self.prefix, self.sigs = (list(x) for x in prefix) if prefix else ([], [])
        self.pos = 0
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.opts.get('feas_ms', 1500))
        self.pc = []
        self.n = 0
        self.oid = 0
        self.exact = True
        self.frames = []
        self.nofork = False
        self.log = None         # stack of write logs
        self.dirty = []         # what was written on this path
        self.joinframe = None
        self.trail = []
        self.facts = {}
        self.focus = []
        self.ghost = {}
        self.loops = []
        self.monos, self.defs = {}, []
        self.fcount = {}
    # ---- names
    def fresh(self, hint):
        self.n += 1
        return '%s!%d' % (hint, self.n)
    def newid(self):
        self.oid += 1
        return self.oid
    # ---- solver
    def assume(self, e):
        if e is True: return
        if e is False: raise PathEnd()
        e = tz(e)
        if z3.is_true(e): return
        if z3.is_false(e): raise PathEnd()
        self.pc.append(e); self.solver.add(e)
    def check(self, *es):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time limit of the verifier')
        t = time.time()
        self.stats['checks'] += 1
        r = self.solver.check(*es)
        self.stats['solver_s'] += time.time() - t
        return r
    def feasible(self, e):
        r = self.check(e)
        if r == z3.unknown: self.stats['unknown_feasible'] += 1
        return r != z3.unsat
    def must(self, e):
        """e holds on this path (unknown counts as no)."""
        if e is True: return True
        if e is False: return False
        e = z3.simplify(tz(e))
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        return self.check(z3.Not(e)) == z3.unsat
    def holds(self, e):
        """as must, also where the path turns out not to be one"""
        return self.must(e) or (e is False or isinstance(e, SBool) and z3.is_false(z3.simplify(e.e))) and self.check() == z3.unsat
    def decide(self, e):
        if isinstance(e, SBool): e = e.e
        if e is True or e is False: return e
        sig = e.hash()
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        if self.nofork: raise NoFork()
        if self.pos < len(self.prefix):
            d = self.follow(sig)
            self.assume(e if d else z3.Not(e))
            return d
        t, f = self.feasible(e), None
        if t:
            f = self.feasible(z3.Not(e))
        else:
            f = True        # the path itself is feasible
        if t and f:
            self.pending.append((self.prefix[:self.pos] + [False], self.sigs[:self.pos] + [sig]))
        d = t
        self.prefix = self.prefix[:self.pos] + [d]; self.sigs = self.sigs[:self.pos] + [sig]; self.pos += 1
        self.assume(e if d else z3.Not(e))
        return d
    def choose(self, n):
        """A value in range(n), every one explored."""
        if self.nofork: raise NoFork()
        if self.pos < len(self.prefix): return self.follow(n)
        for k in range(n - 1, 0, -1):
            self.pending.append((self.prefix[:self.pos] + [k], self.sigs[:self.pos] + [n]))
        self.prefix = self.prefix[:self.pos] + [0]; self.sigs = self.sigs[:self.pos] + [n]; self.pos += 1
        return 0
    def follow(self, sig):
        """the next decision of the prefix; it has to be about the same question"""
        if self.sigs[self.pos] != sig: raise Restart()
        d = self.prefix[self.pos]; self.pos += 1
        return d
    # ---- obligations
    def prove(self, name, goal, model=None, detail=''):
        """Record whether goal holds on this path; True if discharged."""
        if isinstance(goal, SBool): goal = goal.e
        if isinstance(goal, (bool,)):
            if goal:
                self.stats['syntactic'] += 1
                self.results.append(dict(name=name, status='discharged', by='evaluation'))
                return True
            g = z3.BoolVal(False)
        else:
            g = z3.simplify(goal)
        t = time.time()
        if z3.is_true(g):
            self.stats['syntactic'] += 1
            self.results.append(dict(name=name, status='discharged', by='simplifier'))
            return True
        self.solver.set('timeout', self.opts.get('prove_ms', 8000))
        self.solver.push(); self.solver.add(z3.Not(g))
        r = self.check()
        if r != z3.unsat and self.defs:
            for d in self.defs: self.solver.add(d)
            r = self.check()
        m = self.solver.model() if r == z3.sat else None
        why = self.solver.reason_unknown() if r == z3.unknown else ''
        smt = None
        if r == z3.unknown: smt = self.solver.to_smt2()
        self.solver.pop()
        self.solver.set('timeout', self.opts.get('feas_ms', 1500))
        by = 'z3'
        if r == z3.unknown:
            r2 = cvc5_check(smt)
            self.stats['solver_s'] += 0
            if r2 == 'unsat': r, by = z3.unsat, 'cvc5'
        rec = dict(name=name, by=by, seconds=round(time.time() - t, 4))
        if r == z3.unsat:
            rec['status'] = 'discharged'; self.stats[by] += 1
        elif r == z3.sat:
            rec['status'] = 'refuted'; rec['exact'] = self.exact
            rec['detail'] = (detail() if callable(detail) else detail) or str(g)[:400]
            try: rec['output'] = str(m)[:1500]
            except Exception: rec['output'] = ''
            if model:
                try:
                    ms = model(m)
                    if ms is not None: rec['models'] = ms if isinstance(ms, list) and ms and ms[0] == 'MANY' else [ms]
                except Exception as e: rec['model_error'] = repr(e)[:200]
        else:
            rec['status'] = 'unknown'; rec['detail'] = why + ' ' + str(g)[:300]
        self.results.append(rec)
        if r != z3.unsat and self.opts.get('verbose'): print('  --', rec['status'], rec.get('exact'), name, rec.get('detail', '')[:600])
        return r == z3.unsat

def cvc5_check(smt):
    if smt is None: return 'unknown'
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + smt)
        p = subprocess.run(['cvc5', '--tlimit=8000', '--strings-exp', f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=15)
        return p.stdout.decode().strip().split('\n')[0]
    except Exception:
        return 'unknown'
    finally:
        try: os.unlink(f.name)
        except Exception: pass

C = None        # the current context
def setctx(c):
    global C
    C = c

def explore(ctx, fn, limit=4000):
    """Run fn on every path; restart when invariant candidates are dropped."""
    setctx(ctx)
    for rnd in range(60):
        work = [[]]
        ctx.results = []
        ctx.joined = {}
        ctx.stats['paths'] = 0
        restarted = False
        while work:
            ctx.start_path(work.pop())
            ctx.stats['paths'] += 1
            if ctx.stats['paths'] > limit: raise Unsupported('more than %d paths' % limit)
            try:
                fn()
            except PathEnd:
                pass
            except Restart:
                restarted = True
                break
            work.extend(ctx.pending)
        if not restarted:
            return rnd
    raise Unsupported('the invariant candidates did not settle')

# ------------------------------------------------------------------- scalars
def tz(e):
    if isinstance(e, (SBool, SInt, SReal)): return e.e
    if isinstance(e, bool): return z3.BoolVal(e)
    return e

class SBool:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __bool__(self): return C.decide(self.e)
    def __eq__(self, o):
        if isinstance(o, SBool): return mkbool(self.e == o.e)
        if isinstance(o, bool): return self if o else mkbool(z3.Not(self.e))
        return bool(self) == o
    def __ne__(self, o): return bnot(self.__eq__(o))
    __hash__ = None
    def __repr__(self): return 'SBool(%s)' % self.e
    def __and__(self, o): return mkbool(z3.And(self.e, tz(o)))
    def __or__(self, o): return mkbool(z3.Or(self.e, tz(o)))
    __rand__, __ror__ = __and__, __or__
    def __invert__(self): raise Unsupported('~bool')
    def __index__(self): return int(bool(self))
    def asint(self): return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))
    def __add__(self, o): return self.asint() + o
    __radd__ = __add__

def mkbool(e):
    if isinstance(e, bool): return e
    if isinstance(e, SBool): return e
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SBool(e)
def bnot(x):
    if isinstance(x, SBool): return mkbool(z3.Not(x.e))
    if x is NotImplemented: return x
    return not x
def band(*xs):
    r = []
    for x in xs:
        if isinstance(x, SBool): x = x.e
        if x is False: return False
        if x is True: continue
        r.append(x)
    return mkbool(z3.And(*r)) if r else True
def bor(*xs):
    r = []
    for x in xs:
        if isinstance(x, SBool): x = x.e
        if x is True: return True
        if x is False: continue
        r.append(x)
    return mkbool(z3.Or(*r)) if r else False
def implies(a, b): return bor(bnot(a), b)
def iff(a, b):
    return mkbool(tz(a) == tz(b)) if isinstance(a, SBool) or isinstance(b, SBool) else bool(a) == bool(b)

def mkint(e):
    if isinstance(e, (int, SInt)): return e
    e = z3.simplify(e)
    if z3.is_int_value(e): return e.as_long()
    return SInt(e)
def mkreal(e):
    e = z3.simplify(e)
    return SReal(e)
def num(x):
    """z3 term of a number, or None"""
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, float): return z3.RealVal(repr(x)) if x == x and abs(x) != float('inf') else None
    if isinstance(x, (SInt, SReal)): return x.e
    if isinstance(x, SBool): return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return None
# Products and quotients of symbols: one constant for each monomial (so that the solver works on linear terms),
# defined by an equation which is only handed over when an obligation is not discharged without it.
def _mono(e):
    """e as (coefficient, {key: (term, exponent)})"""
    e = z3.simplify(e)
    if z3.is_int_value(e): return fractions.Fraction(e.as_long()), {}
    if z3.is_rational_value(e): return e.as_fraction(), {}
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL: return _mono(e.arg(0))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
        c, d = fractions.Fraction(1), {}
        for a in e.children():
            c2, d2 = _mono(a); c *= c2
            for k, (t, n) in d2.items(): d[k] = (t, d.get(k, (t, 0))[1] + n)
        return c, {k: v for k, v in d.items() if v[1]}
    m = C.monos.get(e.sexpr())
    if m is not None: return fractions.Fraction(1), dict(m)
    return fractions.Fraction(1), {e.sexpr(): (e, 1)}
def _monoterm(c, d, real):
    if not d: return z3.RealVal(str(c)) if real else z3.IntVal(int(c))
    if len(d) == 1 and list(d.values())[0][1] == 1:
        t = list(d.values())[0][0]
    else:
        name = 'mono!' + '*'.join('%s^%d' % (k, n) for k, (t, n) in sorted(d.items()))
        real = real or any(n < 0 or t.sort() == z3.RealSort() for t, n in d.values())
        t = z3.Real(name) if real else z3.Int(name)
        if t.sexpr() not in C.monos:
            C.monos[t.sexpr()] = d
            u, v = (t, z3.RealVal(1)) if real else (t, z3.IntVal(1))
            for k, (b, n) in d.items():
                if real and b.sort() == z3.IntSort(): b = z3.ToReal(b)
                for _ in range(abs(n)):
                    if n < 0: u = u * b
                    else: v = v * b
            C.defs.append(u == v)
    if real and t.sort() == z3.IntSort(): t = z3.ToReal(t)
    if c == 1: return t
    return (z3.RealVal(str(c)) if real else z3.IntVal(int(c))) * t
def nl_mul(a, b):
    real = a.sort() == z3.RealSort() or b.sort() == z3.RealSort()
    (c, d), (c2, d2) = _mono(a), _mono(b)
    if not d or not d2: return a * b
    d = dict(d)
    for k, (t, n) in d2.items(): d[k] = (t, d.get(k, (t, 0))[1] + n)
    return _monoterm(c * c2, {k: v for k, v in d.items() if v[1]}, real)
def nl_div(a, b):
    (c, d), (c2, d2) = _mono(a), _mono(b)
    if not d2: return a / b
    d = dict(d)
    for k, (t, n) in d2.items(): d[k] = (t, d.get(k, (t, 0))[1] - n)
    return _monoterm(c / c2, {k: v for k, v in d.items() if v[1]}, True)

def wrapn(e):
    return mkint(e) if e.sort() == z3.IntSort() else mkreal(e)

class _Num:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def _b(self, o, f, r=False):
        x = num(o)
        if x is None: return NotImplemented
        return wrapn(f(x, self.e) if r else f(self.e, x))
    def _c(self, o, f):
        x = num(o)
        if x is None: return NotImplemented
        return mkbool(f(self.e, x))
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, True)
    def __mul__(self, o):
        if isinstance(o, (str, SStr, list, SList)): raise Unsupported('repetition a symbolic number of times')
        return self._b(o, nl_mul)
    def __rmul__(self, o): return self.__mul__(o)
    def __neg__(self): return wrapn(-self.e)
    def __pos__(self): return self
    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0 and o & (o + 1) == 0 and self.e.sort() == z3.IntSort(): return mkint(self.e % (o + 1))
        return NotImplemented
    __rand__ = __and__
    def __truediv__(self, o): return self._div(self.e, num(o))
    def __rtruediv__(self, o): return self._div(num(o), self.e)
    def _div(self, a, b):
        if a is None or b is None: return NotImplemented
        b = z3.ToReal(b) if b.sort() == z3.IntSort() else b
        a = z3.ToReal(a) if a.sort() == z3.IntSort() else a
        if C.decide(b == 0): raise ZeroDivisionError('division by zero')
        return mkreal(nl_div(a, b))
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r
    def __ne__(self, o): return bnot(self.__eq__(o))
    __hash__ = None
    def __bool__(self): return C.decide(self.e != 0)
    def __abs__(self): return wrapn(z3.If(self.e >= 0, self.e, -self.e))
    def __repr__(self): return '%s(%s)' % (type(self).__name__, self.e)

class SInt(_Num):
    __slots__ = ()
    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e): return e.as_long()
        for _ in range(C.opts.get('index_limit', 24)):
            C.check()
            try: m = C.solver.model()
            except z3.Z3Exception: raise Unsupported('no value for an index')
            v = m.eval(self.e, model_completion=True).as_long()
            # deterministic over re-runs: the value is kept in the decisions
            key = ('val', C.pos, str(self.e))
            v = C.tokens.setdefault((tuple(map(int, C.prefix[:C.pos])), str(self.e)), v)
            if C.decide(self.e == v): return v
        raise Unsupported("a number with too many values is used as an index")
    __int__ = __index__
    def __floordiv__(self, o):
        b = num(o)
        if b is None: return NotImplemented
        if C.decide(b == 0): raise ZeroDivisionError('integer division or modulo by zero')
        if not C.must(b > 0): raise Unsupported('division by a negative')
        return mkint(self.e / b)
    def __mod__(self, o):
        b = num(o)
        if b is None: return NotImplemented
        if C.decide(b == 0): raise ZeroDivisionError('integer division or modulo by zero')
        if not C.must(b > 0): raise Unsupported('modulus by a negative')
        return mkint(self.e % b)
    def __rmod__(self, o): return SInt(num(o)) % self
    def __rfloordiv__(self, o): return SInt(num(o)) // self
    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0: return mkint(self.e % (o + 1))
        raise Unsupported('bit operation')
    __rand__ = __and__
    def __pow__(self, o): raise Unsupported('power')
    __rpow__ = __pow__

class SReal(_Num):
    __slots__ = ()

class Atom:
    """A value only known by its identity (equal or not)."""
    __slots__ = ('e', 'what', 'truthy', 'attrs')
    def __init__(self, what, e=None, truthy=True):
        self.what = what; self.truthy = truthy
        self.e = z3.Const(C.fresh(what), ObjS) if e is None else e
    def __eq__(self, o):
        if isinstance(o, Atom): return mkbool(self.e == o.e)
        return False
    def __ne__(self, o): return bnot(self.__eq__(o))
    __hash__ = None
    def __bool__(self): return True if self.truthy else C.decide(z3.Bool('truthy_%s' % self.e))
    def __repr__(self): return 'Atom(%s)' % self.e

# ---------------------------------------------------------- segments, strings
class Seg:
    """An opaque run of characters or list items; may be refined to parts."""
    __slots__ = ('name', 'kind', 'n', 'z', 'elem', 'parts', 'src', 'tag', 'memo')
    def __init__(self, hint, kind='str', elem=None, tag=None, minlen=0):
        self.name = C.fresh(hint)
        self.kind = kind
        self.elem = elem            # str: f(char term) -> constraint or None; list: f(hint) -> item
        self.parts = None
        self.tag = tag
        self.src = None
        self.memo = {}
        if kind == 'str':
            self.z = z3.Const(self.name, SeqS)
            self.n = z3.Length(self.z)
        else:
            self.z = None
            self.n = z3.Int('len_' + self.name)
            C.assume(self.n >= minlen)
        if minlen and kind == 'str': C.assume(self.n >= minlen)
    def sub(self, hint):
        s = Seg(self.name.split('!')[0] + hint, self.kind, self.elem)
        s.src = self.src
        return s
    def item(self):
        """One arbitrary item of this segment."""
        if self.kind == 'str':
            c = z3.Int(C.fresh('ch'))
            C.assume(z3.And(c >= 0, c < MAXCHR))
            if self.elem is not None: C.assume(self.elem(c))
            return c
        return self.elem(self.name.split('!')[0])
    def refine(self, parts):
        self.parts = parts
        if 'asked' in self.memo: C.exact = False
        if self.kind == 'str': C.assume(self.z == seqz(parts))
        else: C.assume(self.n == lenz(parts))
        for f in self.memo.get('onrefine', ()): f(self, parts)
    def __repr__(self): return '<%s>' % self.name

def norm(ps):
    """Pieces with refined segments opened and empty ones dropped."""
    if not any(isinstance(p, Seg) and p.parts is not None for p in ps): return ps
    r = []
    for p in ps:
        if isinstance(p, Seg) and p.parts is not None: r.extend(norm(p.parts))
        else: r.append(p)
    return tuple(r)
def lenz(ps):
    k, es = 0, []
    for p in ps:
        if isinstance(p, Seg): es.append(p.n)
        else: k += 1
    if not es: return z3.IntVal(k)
    return z3.simplify(z3.Sum(*es, z3.IntVal(k))) if k or len(es) > 1 else es[0]
def seqz(ps):
    r = [p.z if isinstance(p, Seg) else z3.Unit(p if z3.is_expr(p) else z3.IntVal(p)) for p in ps]
    if not r: return z3.Empty(SeqS)
    return r[0] if len(r) == 1 else z3.Concat(*r)

def open_seg(s):
    """Decide whether s is empty; if not, refine it to a first item and a rest."""
    o = s.memo.get('opener')
    if o is not None:
        parts = tuple(o(s))
        s.refine(parts)
        return parts
    if C.decide(s.n == 0):
        s.refine(()); return ()
    parts = (s.item(), s.sub("'"))
    s.refine(parts)
    return parts
def open_seg_end(s):
    if C.decide(s.n == 0):
        s.refine(()); return ()
    parts = (s.sub("'"), s.item())
    s.refine(parts)
    return parts

def split_at(ps, off):
    """(left, right) pieces of ps cut at offset off, 0 <= off <= length."""
    ps = norm(tuple(ps))
    if isinstance(off, SInt): off = z3.simplify(off.e)
    if z3.is_expr(off) and z3.is_int_value(off): off = off.as_long()
    if isinstance(off, int):
        i = 0
        while i < len(ps) and i < off and not isinstance(ps[i], Seg): i += 1
        if i == off: return ps[:i], ps[i:]
        if i == len(ps): raise AssertionError('split beyond the end')
        s = ps[i]
        open_seg(s)
        return split_at(ps, off)
    # symbolic offset: find the boundary
    cum = z3.IntVal(0)
    for i in range(len(ps) + 1):
        if z3.is_true(z3.simplify(off == cum)) : return ps[:i], ps[i:]
        if i < len(ps): cum = z3.simplify(cum + (ps[i].n if isinstance(ps[i], Seg) else 1))
    cum = z3.IntVal(0)
    for i in range(len(ps)):
        if C.decide(off == cum): return ps[:i], ps[i:]
        nxt = z3.simplify(cum + (ps[i].n if isinstance(ps[i], Seg) else 1))
        if isinstance(ps[i], Seg) and C.decide(off < nxt):
            s = ps[i]
            a, b = s.sub('l'), s.sub('r')
            C.assume(a.n == off - cum)
            s.refine((a, b))
            return ps[:i] + (a,), (b,) + ps[i+1:]
        cum = nxt
    C.assume(off == cum)
    return ps, ()

def chareq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return (a if z3.is_expr(a) else z3.IntVal(a)) == (b if z3.is_expr(b) else z3.IntVal(b))
def samec(a, b):
    if isinstance(a, Seg) or isinstance(b, Seg): return a is b
    if isinstance(a, int) and isinstance(b, int): return a == b
    return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)

def streq(a, b):
    """bool or SBool: the two piece sequences are the same string"""
    a, b = list(norm(tuple(a))), list(norm(tuple(b)))
    cs = []
    def strip(front):
        while a and b:
            i = 0 if front else -1
            x, y = a[i], b[i]
            if samec(x, y): a.pop(i); b.pop(i)
            elif not isinstance(x, Seg) and not isinstance(y, Seg):
                c = chareq(x, y)
                if c is False: return False
                cs.append(c); a.pop(i); b.pop(i)
            else: break
        return True
    if not strip(True) or not strip(False): return False
    if not a or not b:
        r = a or b
        if any(not isinstance(x, Seg) for x in r): return False
        return band(*[mkbool(x.n == 0) for x in r], *[mkbool(c) for c in cs])
    if not any(isinstance(x, Seg) for x in a + b): return False      # different lengths
    return mkbool(z3.And(seqz(a) == seqz(b), *cs))

class SStr:
    """An immutable symbolic string."""
    __slots__ = ('_p',)
    def __init__(self, ps): self._p = tuple(ps)
    @property
    def p(self):
        r = norm(self._p)
        self._p = r
        return r
    def conc(self):
        """the Python string if all of it is known, else None"""
        p = self.p
        if all(isinstance(c, int) for c in p): return ''.join(map(chr, p))
        return None
    def __bool__(self): return C.decide(lenz(self.p) > 0)
    def __eq__(self, o):
        q = pieces(o)
        if q is None: return False
        return streq(self.p, q)
    def __ne__(self, o): return bnot(self.__eq__(o))
    __hash__ = None
    def __add__(self, o):
        q = pieces(o)
        if q is None: raise TypeError('can only concatenate str (not "%s") to str' % type(o).__name__)
        return mkstr(self.p + q)
    def __radd__(self, o):
        q = pieces(o)
        if q is None: raise TypeError('can only concatenate str')
        return mkstr(q + self.p)
    def __mul__(self, n): return mkstr(self.p * n.__index__())
    __rmul__ = __mul__
    def __repr__(self):
        return 'SStr(%s)' % ''.join(chr(c) if isinstance(c, int) else str(c) for c in self.p)
    def __len__(self): raise Unsupported('native len of a symbolic string')
    def __iter__(self):
        p = self.p
        if any(isinstance(c, Seg) for c in p): raise Unsupported('native iteration over an opaque string')
        return iter([mkstr((c,)) for c in p])
    def __lt__(self, o): return strless(self, o)
    def __gt__(self, o): return strless(o, self)
    def __le__(self, o): return bnot(strless(o, self))
    def __ge__(self, o): return bnot(strless(self, o))
    def __contains__(self, o):
        from rt import str_in
        return str_in(o, self)
    def __getitem__(self, i):
        from rt import getitem
        return getitem(self, i)
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        if not hasattr(str, name): raise AttributeError("'str' object has no attribute %r" % name)
        from rt import strmeth
        return lambda *a, **k: strmeth(self, name, a, k)

def mkstr(ps):
    ps = tuple(ps)
    if all(isinstance(c, int) for c in ps): return ''.join(map(chr, ps))
    ps = tuple(z3.simplify(c) if z3.is_expr(c) and not z3.is_const(c) else c for c in ps)
    ps = tuple(c.as_long() if z3.is_expr(c) and z3.is_int_value(c) else c for c in ps)
    if all(isinstance(c, int) for c in ps): return ''.join(map(chr, ps))
    return SStr(ps)
def pieces(x):
    if isinstance(x, str): return tuple(map(ord, x))
    if isinstance(x, SStr): return x.p
    return None
def isstr(x): return isinstance(x, (str, SStr))
def slen(x):
    if isinstance(x, str): return len(x)
    return mkint(lenz(x.p))

def strless(a, b):
    ca, cb = (x if isinstance(x, str) else x.conc() if isinstance(x, SStr) else None for x in (a, b))
    if ca is not None and cb is not None: return ca < cb
    pa, pb = pieces(a), pieces(b)
    if pa is None or pb is None: raise TypeError('not supported between these types')
    # character by character while both are known to have one
    i = 0
    while i < len(pa) and i < len(pb) and not isinstance(pa[i], Seg) and not isinstance(pb[i], Seg):
        if samec(pa[i], pb[i]): i += 1; continue
        if C.decide(chareq(pa[i], pb[i])): i += 1; continue
        return mkbool((pa[i] if z3.is_expr(pa[i]) else z3.IntVal(pa[i])) < pb[i])
    ra, rb = pa[i:], pb[i:]
    if not rb: return False
    if not ra: return mkbool(lenz(rb) > 0)
    # a strict total order on strings, left uninterpreted but for its laws
    e = streq(ra, rb)
    if C.decide(tz(e) if isinstance(e, SBool) else e): return False
    ra_, rb_ = seqz(ra), seqz(rb)
    r = z3.Function('strrank', SeqS, z3.RealSort())
    C.assume(r(ra_) != r(rb_))
    C.exact = False
    return mkbool(r(ra_) < r(rb_))

def newchar(hint='c', pred=None):
    c = z3.Int(C.fresh(hint))
    C.assume(z3.And(c >= 0, c < MAXCHR))
    if pred is not None: C.assume(pred(c))
    return SStr((c,))
def newstr(hint='s', elem=None, minlen=0, tag=None):
    return SStr((Seg(hint, 'str', elem, tag, minlen),))
def newint(hint='n', lo=None, hi=None):
    v = z3.Int(C.fresh(hint))
    if lo is not None: C.assume(v >= lo)
    if hi is not None: C.assume(v <= hi)
    return SInt(v)
def newbool(hint='b'): return SBool(z3.Bool(C.fresh(hint)))
def newreal(hint='r'): return SReal(z3.Real(C.fresh(hint)))

# ------------------------------------------------------- reading back a model
def conc(v, m):
    """The Python value v has in model m."""
    if isinstance(v, SBool): return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SInt): return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, SReal):
        r = m.eval(v.e, model_completion=True)
        return float(r.as_fraction()) if z3.is_rational_value(r) else float(r.approx(12).as_fraction())
    if isinstance(v, SStr): return ''.join(conc_piece(c, m) for c in v.p)
    if isinstance(v, SList): 
        out = []
        for c in norm(tuple(v.ps)):
            if isinstance(c, Seg): out.extend(conc(x, m) for x, e in c.memo.get('asked', ()) if z3.is_true(m.eval(e, model_completion=True)))
            else: out.append(conc(c, m))
        return out
    if isinstance(v, SMap): return {conc(k, m) if not isinstance(k, (SStr, Atom, tuple)) else _h(conc(k, m)): conc(x, m) for k, x in v.known(m)}
    if isinstance(v, Atom): return 'at' + ''.join(ch for ch in str(m.eval(v.e, model_completion=True)) if ch.isalnum())[3:]
    if isinstance(v, (list, tuple)): return [conc(x, m) for x in v]
    if isinstance(v, dict): return {k: conc(x, m) for k, x in v.items()}
    if callable(v) and not isinstance(v, type): return None
    return v
def _h(x): return tuple(x) if isinstance(x, list) else x
def conc_piece(c, m):
    if isinstance(c, int): return chr(c)
    if isinstance(c, Seg):
        s = m.eval(c.z, model_completion=True)
        n = m.eval(z3.Length(s), model_completion=True)
        n = n.as_long() if z3.is_int_value(n) else 0
        out = ''
        for i in range(min(n, 50)):
            x = m.eval(s[i], model_completion=True)
            v = x.as_long() if z3.is_int_value(x) else 97
            out += chr(v) if 0 < v < MAXCHR else 'a'
        return out
    v = m.eval(c, model_completion=True).as_long()
    return chr(v) if 0 <= v < MAXCHR else 'a'

# ---------------------------------------------------------------- heap objects
ABSENT = type('ABSENT', (), {'__repr__': lambda s: 'ABSENT', '__bool__': lambda s: False})()

class WLog:
    """Heap cells written: (object, part...)"""
    def __init__(self): self.d = {}
    def add(self, cell): self.d[(id(cell[0]),) + tuple(cell[1:])] = cell
    def __iter__(self): return iter(list(self.d.values()))
def touched(cell):
    """Record that a heap cell is written (cell: (object, part))."""
    if C.frames: C.dirty.append(cell[0])
    for lg in (C.log or ()):
        lg.add(cell)

class Heap:
    def _init_heap(self):
        if C is not None and hasattr(C, 'oid'): self.oid = C.newid()
        else: self.oid = -1

class SList(Heap):
    """A list: known items and opaque segments."""
    def __init__(self, it=(), ps=None):
        self._init_heap()
        if ps is not None: self.ps = list(ps)
        elif isinstance(it, SList): self.ps = list(it.ps)
        else:
            import rt
            self.ps = list(rt.topieces(it))
    def __class_getitem__(cls, k): return cls
    def _norm(self):
        if any(isinstance(p, Seg) and p.parts is not None for p in self.ps): self.ps = list(norm(tuple(self.ps)))
        return self.ps
    def opaque(self): return any(isinstance(p, Seg) for p in self._norm())
    def native(self):
        if self.opaque(): raise Unsupported('an opaque list where a known one is needed')
        return list(self.ps)
    def w(self): touched((self, 'items'))
    def slen(self): return mkint(lenz(self._norm()))
    def __len__(self):
        if self.opaque(): raise Unsupported('native len of an opaque list')
        return len(self.ps)
    def __bool__(self):
        return C.decide(lenz(self._norm()) > 0) if self.opaque() else bool(self.ps)
    def __iter__(self): return iter(self.native()) if not self._lazy() else _ListIter(self)
    def _lazy(self): return False
    def __reversed__(self): return iter(self.native()[::-1])
    def append(self, x): self.w(); self.ps.append(x)
    def extend(self, o):
        import rt
        q = list(rt.topieces(o)); self.w(); self.ps.extend(q)
    def __iadd__(self, o): self.extend(o); return self
    def insert(self, i, x):
        import rt
        a, b = self._cut(i); self.w(); self.ps = list(a) + [x] + list(b)
    def _cut(self, i, clamp=True):
        n = lenz(self._norm())
        if isinstance(i, int) and not self.opaque():
            i = slice(0, i).indices(len(self.ps))[1]
            return tuple(self.ps[:i]), tuple(self.ps[i:])
        e = num(i)
        if C.decide(e < 0): e = e + n
        if C.decide(e < 0): e = z3.IntVal(0)
        if C.decide(e >= n): return norm(tuple(self.ps)), ()
        return split_at(self.ps, mkint(e) if not isinstance(e, int) else e)
    def pop(self, i=-1):
        if not self: raise IndexError('pop from empty list')
        import rt
        x = rt.getitem(self, i); self.w()
        self._del(i)
        return x
    def _idx(self, i):
        n = len(self._norm())
        if isinstance(i, SInt) and z3.is_int_value(z3.simplify(i.e)): i = i.__index__()
        return i
    def _del(self, i):
        i = self._idx(i)
        if isinstance(i, int) and i < 0:
            j = len(self.ps) + i
            if all(not isinstance(p, Seg) for p in self.ps[j:]) and j >= 0: del self.ps[j]; return
            raise Unsupported('deletion in an opaque list')
        a, b = split_at(self.ps, i)
        b = norm(b)
        if not b: raise IndexError('list index out of range')
        if isinstance(b[0], Seg): open_seg(b[0]); b = norm(b)
        self.ps = list(a) + list(b[1:])
    def remove(self, x):
        import rt
        for i, p in enumerate(self._norm()):
            if isinstance(p, Seg):
                if nowhere(p, x): continue
                raise Unsupported('remove in an opaque list')
            if p is x or rt.truth(rt.eq(p, x)):
                self.w(); del self.ps[i]; return
        raise ValueError('list.remove(x): x not in list')
    def index(self, x, *a):
        import rt
        ps = self._norm()
        for i, p in enumerate(ps):
            if isinstance(p, Seg):
                if not a and nowhere(p, x): continue
                raise Unsupported('index in an opaque list')
            if p is x or rt.truth(rt.eq(p, x)): return mkint(lenz(tuple(ps[:i])))
        raise ValueError('not in list')
    def count(self, x):
        import rt
        return sum(1 for p in self.native() if rt.truth(rt.eq(p, x)))
    def copy(self): return SList(ps=self._norm())
    def clear(self): self.w(); self.ps = []
    def reverse(self): self.w(); self.ps = self.native()[::-1]
    def sort(self, key=None, reverse=False):
        import rt
        self.w(); self.ps = rt.sorted_(self.native(), key=key, reverse=reverse).ps
    def __contains__(self, x):
        import rt
        return rt.truth(rt.contains(self, x))
    def __getitem__(self, i):
        import rt
        return rt.getitem(self, i)
    def __setitem__(self, i, v):
        import rt
        rt.setitem_list(self, i, v)
    def __delitem__(self, i):
        self.w()
        if isinstance(i, slice):
            x = self.native(); del x[i]; self.ps = x
        else: self._del(i)
    def __add__(self, o):
        import rt
        return SList(ps=list(self._norm()) + list(rt.topieces(o)))
    def __radd__(self, o):
        import rt
        return SList(ps=list(rt.topieces(o)) + list(self._norm()))
    def __mul__(self, n):
        h = C.facts.get('listmul')      # a contract's own model of a list of unknown length
        if h is not None: return h(self, n)
        return SList(ps=self._norm() * n.__index__())
    __rmul__ = __mul__
    def __eq__(self, o):
        import rt
        return rt.listeq(self, o)
    def __ne__(self, o): return bnot(self.__eq__(o))
    __hash__ = None
    def __lt__(self, o):
        import rt
        return rt.listless(self, o)
    def __gt__(self, o):
        import rt
        return rt.listless(o, self)
    def __le__(self, o): return bnot(self.__gt__(o))
    def __ge__(self, o): return bnot(self.__lt__(o))
    def __repr__(self): return 'SList%r' % (self.ps,)

def nowhere(p, x):
    """no item of the segment equals x: whatever item it is, the two differ"""
    import rt
    if C.must(p.n == 0): return True
    y = p.item()
    at = C.pos
    r = rt.eq(y, x)
    return r is False or r is not True and C.pos == at and C.must(z3.Not(tz(r)))

class MapBase:
    """The opaque part of a map: entries are made when they are looked at."""
    __slots__ = ('name', 'keyf', 'valf', 'memo', 'n', 'iters', 'parent', 'inv')
    def __init__(self, hint, keyf, valf, inv=None):
        self.inv = inv          # what holds of every entry, checked when one is stored; without it nothing is known of entries stored in a loop
        self.name = C.fresh(hint); self.keyf, self.valf = keyf, valf
        self.memo = []          # [key, present (bool), value]
        self.n = z3.Int('n_' + self.name)
        C.assume(self.n >= 0)
    def look(self, k):
        import rt
        for kk, p, v in self.memo:
            if rt.truth(rt.eq(kk, k)): return v if p else ABSENT
        p = C.decide(z3.Bool(C.fresh('in_' + self.name)))
        v = None
        if p:
            cnt = 1 + sum(1 for x in self.memo if x[1])
            C.assume(self.n >= cnt)
            v = self.valf(k) if self.valf else True
        self.memo.append([k, p, v])
        return v if p else ABSENT
    def set(self, k, v):
        """fix the entry of a key not looked at so far"""
        self.memo.append([k, v is not ABSENT, v])

class DerivedBase(MapBase):
    """the members of a union, intersection or difference of two sets, as they were then"""
    __slots__ = ('op', 'a', 'b')
    def __init__(self, op, a, b):
        MapBase.__init__(self, 'set', (a.base or b.base).keyf, None)
        self.op, self.a, self.b = op, a.copy(), b.copy()
        if op != 'or' and a.base is not None: self.keyf, self.inv = a.base.keyf, a.base.inv     # its members are a's
        x, y, n = num(a.slen()), num(b.slen()), self.n
        if op == 'or': C.assume(z3.And(n >= x, n >= y, n <= x + y))
        elif op == 'and': C.assume(z3.And(n <= x, n <= y))
        else: C.assume(z3.And(n <= x, n >= x - y))
    def look(self, k):
        p = self.a.look(k) is not ABSENT
        if p != (self.op == 'or'):
            q = self.b.look(k) is not ABSENT
            p = p and not q if self.op == 'sub' else p and q if self.op == 'and' else q
        if p: C.assume(self.n >= 1)
        return True if p else ABSENT
def setop(op, a, b):
    """the map of a set operation where one of the two is opaque, None where neither is"""
    m = b.m if isinstance(b, SSet) or isinstance(b, MapView) and b.kind == 'keys' else b if isinstance(b, SMap) else SSet(b).m
    if a.m.base is None and m.base is None: return None
    r = SMap()
    r.base = DerivedBase(op, a.m, m)
    return r

class SMap(Heap):
    """A dict: an opaque base with updates."""
    def __init__(self, *a, **kw):
        self._init_heap()
        self.base = None
        self.owner = None       # the set this is the map of
        self.ups = []           # [key, value or ABSENT], newest last; keys pairwise distinct
        self.delta = 0
        self.obs = []           # observers: (weight function, ghost name)
        import rt
        if a:
            o = a[0]
            if isinstance(o, SMap): self.base, self.ups, self.delta = o.base, [list(u) for u in o.ups], o.delta
            elif isinstance(o, dict):
                for k, v in o.items(): self[k] = v
            else:
                for kv in rt.iterate(o):
                    k, v = rt.unpack(kv, 2)
                    self[k] = v
        for k, v in kw.items(): self[k] = v
    def __class_getitem__(cls, k): return cls
    @classmethod
    def opaque_(cls, hint, keyf, valf, inv=None):
        m = cls()
        m.base = MapBase(hint, keyf, valf, inv)
        return m
    def known(self, m=None):
        out = [(k, v) for k, v in self.ups if v is not ABSENT]
        ks = [k for k, v in self.ups]
        if self.base:
            for k, p, v in self.base.memo:
                if p and not any(k is x for x in ks): out.insert(0, (k, v))
        if m is not None:
            seen, res = [], []
            for k, v in reversed(out):
                ck = conc(k, m)
                if ck not in seen and not any(conc(kk, m) == ck and vv is ABSENT for kk, vv in self.ups if kk is not k):
                    seen.append(ck); res.append((k, v))
            return res[::-1]
        return out
    def look(self, k):
        import rt
        k = rt.key(k)
        if self.base is None and isinstance(k, (str, int, tuple)) and not isinstance(k, bool):
            for kk, v in self.ups:
                if kk is k or type(kk) is type(k) and isinstance(k, (str, int)) and kk == k: return v
        for kk, v in reversed(self.ups):
            if kk is k: return v
            if rt.truth(rt.eq(kk, k)): return v
        if self.base is None: return ABSENT
        return self.base.look(k)
    def put(self, k, v):
        import rt
        k = rt.key(k)
        old = self.look(k)
        touched((self.owner, 'set') if self.owner is not None else (self, 'map'))
        for f in self.obs: f(self, k, old, v)
        if self.base is not None and self.base.inv is not None and v is not ABSENT:
            r = self.base.inv(k, v)
            if not C.must(tz(r) if isinstance(r, SBool) else bool(r)): raise Unsupported('an entry is stored that does not keep the invariant of the map')
        if (old is ABSENT) != (v is ABSENT): self.delta += -1 if v is ABSENT else 1
        for u in self.ups:
            if u[0] is k or rt.truth(rt.eq(u[0], k)):
                if v is ABSENT and self.base is None: self.ups.remove(u)
                else:
                    u[1] = v
                    # an absent key that comes back goes to the end
                    if old is ABSENT: self.ups.remove(u); self.ups.append([k, v])
                return
        if v is ABSENT and self.base is None: return
        self.ups.append([k, v])
    def slen(self):
        if self.base is None: return sum(1 for u in self.ups if u[1] is not ABSENT)
        return mkint(self.base.n + self.delta)
    def __len__(self):
        n = self.slen()
        if not isinstance(n, int): raise Unsupported('native len of an opaque map')
        return n
    def __bool__(self):
        n = self.slen()
        return bool(n) if isinstance(n, int) else C.decide(n.e > 0)
    def __contains__(self, k): return self.look(k) is not ABSENT
    def __getitem__(self, k):
        v = self.look(k)
        if v is ABSENT:
            if hasattr(type(self), '__missing__'): return type(self).__missing__(self, k)
            raise KeyError(k)
        return v
    def __setitem__(self, k, v): self.put(k, v)
    def __delitem__(self, k):
        if self.look(k) is ABSENT: raise KeyError(k)
        self.put(k, ABSENT)
    def get(self, k, d=None):
        v = self.look(k)
        return d if v is ABSENT else v
    def setdefault(self, k, d=None):
        v = self.look(k)
        if v is ABSENT:
            self.put(k, d); return d
        return v
    def pop(self, k, *d):
        v = self.look(k)
        if v is ABSENT:
            if d: return d[0]
            raise KeyError(k)
        self.put(k, ABSENT)
        return v
    def clear(self):
        touched((self, 'map')); self.base = None; self.ups = []; self.delta = 0
        if self.obs: raise Unsupported('clear of an observed map')
    def copy(self):
        m = SMap(); m.base, m.ups, m.delta = self.base, [list(u) for u in self.ups], self.delta
        return m
    def update(self, *a, **kw):
        import rt
        if a:
            o = a[0]
            if isinstance(o, (SMap, dict)):
                for k, v in rt.iterate(o.items()): self[k] = v
            else:
                for kv in rt.iterate(o):
                    k, v = rt.unpack(kv, 2); self[k] = v
        for k, v in kw.items(): self[k] = v
    def native_items(self):
        if self.base is not None: raise Unsupported('an opaque map where a known one is needed')
        return [(k, v) for k, v in self.ups if v is not ABSENT]
    def items(self): return MapView(self, 'items')
    def keys(self): return MapView(self, 'keys')
    def values(self): return MapView(self, 'values')
    def __iter__(self): return iter([k for k, v in self.native_items()])
    def __eq__(self, o):
        import rt
        if not isinstance(o, (SMap, dict)): return False
        if isinstance(o, dict): o = SMap(o)
        if self.base is not None or o.base is not None:
            if self is o: return True
            raise Unsupported('comparison of opaque maps')
        if len(self) != len(o): return False
        for k, v in self.native_items():
            w = o.look(k)
            if w is ABSENT or not rt.truth(rt.eq(v, w)): return False
        return True
    def __ne__(self, o): return bnot(self.__eq__(o))
    __hash__ = None
    def __repr__(self): return 'SMap(%s%r)' % (self.base.name + ' ' if self.base else '', self.ups)

class MapView:
    def __init__(self, m, kind): self.m, self.kind = m, kind
    def __iter__(self):
        it = self.m.native_items()
        return iter([kv if self.kind == 'items' else kv[0] if self.kind == 'keys' else kv[1] for kv in it])
    def opaque(self): return self.m.base is not None
    def __len__(self): return len(self.m)
    def slen(self): return self.m.slen()
    def __contains__(self, x):
        import rt
        if self.kind == 'keys': return x in self.m
        return any(rt.truth(rt.eq(x, y)) for y in self)
    def __sub__(self, o): return SSet(self) - o
    def __and__(self, o): return SSet(self) & o
    def __or__(self, o): return SSet(self) | o

class SSet(Heap):
    """A set, kept as a map to True."""
    def __init__(self, it=()):
        self._init_heap()
        self.m = SMap()
        mp = it.m if isinstance(it, SSet) or isinstance(it, MapView) and it.kind == 'keys' else it if isinstance(it, SMap) else None
        if isinstance(it, SSet) or mp is not None and mp.base is not None: self.m = mp.copy()
        else:
            import rt
            for x in rt.topieces(it): self.add(x)
        self.m.owner = self
    @classmethod
    def opaque_(cls, hint, keyf):
        s = cls()
        s.m.base = MapBase(hint, keyf, None)
        return s
    def add(self, x):
        touched((self, 'set')); self.m.put(x, True)
    def discard(self, x):
        if self.m.base is not None and not C.log: self._op('sub', SSet([x])); return
        touched((self, 'set')); self.m.put(x, ABSENT)
    def remove(self, x):
        if x not in self.m: raise KeyError(x)
        self.discard(x)
    def __contains__(self, x): return x in self.m
    def __len__(self): return len(self.m)
    def slen(self): return self.m.slen()
    def __bool__(self): return bool(self.m)
    def __iter__(self): return iter(self.m)
    def opaque(self): return self.m.base is not None
    def _op(self, op, o):
        """in place"""
        m = setop(op, self, o)
        if m is None:
            o = o if isinstance(o, SSet) else SSet(o)
            if op == 'or':
                for x in o._n(): self.add(x)
            else:
                for x in self._n():
                    if (x in o) == (op == 'sub'): self.discard(x)
            return self
        touched((self, 'set'))
        m.owner = self
        self.m = m
        return self
    def update(self, *os):
        for o in os: self._op('or', o)
    def copy(self): return type(self)(self)
    def union(self, *os):
        r = SSet(self)
        r.update(*os)
        return r
    def _n(self): return [k for k, v in self.m.native_items()]
    def __or__(self, o): return self.union(o)
    def __and__(self, o): return SSet([x for x in self._n() if x in o]) if setop('and', self, o) is None else SSet(self)._op('and', o)
    def __sub__(self, o): return SSet([x for x in self._n() if x not in o]) if setop('sub', self, o) is None else SSet(self)._op('sub', o)
    intersection, difference = __and__, __sub__
    def difference_update(self, *os):
        for o in os: self._op('sub', o)
    def intersection_update(self, *os):
        for o in os: self._op('and', o)
    def symmetric_difference(self, o): return SSet([x for x in self._n() if x not in o] + [x for x in o if x not in self])
    def pop(self):
        x = self._n()[0]; self.discard(x); return x
    def clear(self): touched((self, 'set')); self.m.clear()
    def issubset(self, o): return all(x in o for x in self._n())
    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return all(x in self for x in o)
    def __eq__(self, o):
        if not isinstance(o, SSet): return False
        if self is o: return True
        return len(self) == len(o) and self.issubset(o)
    def __ne__(self, o): return not self.__eq__(o)
    def __hash__(self): return id(self)
    def __repr__(self): return 'SSet(%r)' % self.m
