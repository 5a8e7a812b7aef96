"""Regular expressions over symbolic strings: Python's own parse of the pattern,
matched by backtracking in Python's order; a test on a symbolic character forks
the path.  An opaque run is opened, skipped when no match can begin in it, or
(for sub) stands for what the substitution makes of it."""
import types
import re, unicodedata, sys
import z3
import core, rt
from core import *
try: import re._parser as sp, re._constants as sc
except ImportError: import sre_parse as sp, sre_constants as sc

def ranges(f):
    r = []
    for c in range(sys.maxunicode + 1):
        if f(chr(c)):
            if r and r[-1][1] == c - 1: r[-1][1] = c
            else: r.append([c, c])
    return r
_CAT = {}
def category(name):
    if name not in _CAT:
        _CAT[name] = ranges({'SPACE': str.isspace, 'DIGIT': str.isdecimal, 'WORD': lambda c: c.isalnum() or c == '_'}[name])
    return _CAT[name]
def inranges(c, rs):
    if isinstance(c, int): return any(a <= c <= b for a, b in rs)
    return z3.Or(*[c == a if a == b else z3.And(c >= a, c <= b) for a, b in rs])
def neg(x): return (not x) if isinstance(x, bool) else z3.Not(x)
def disj(xs):
    xs = list(xs)
    if any(x is True for x in xs): return True
    xs = [x for x in xs if x is not False]
    return z3.Or(*xs) if xs else False
def conj(xs):
    xs = list(xs)
    if any(x is False for x in xs): return False
    xs = [x for x in xs if x is not True]
    return z3.And(*xs) if xs else True
def ceq(c, v): return c == v
def charpred(op, av, flags):
    """The test on a character (int or z3 term) of a one-character node, or None."""
    ic = flags & re.I
    def lit(v):
        vs = {v}
        if ic:
            for w in (chr(v).lower(), chr(v).upper()):
                if len(w) == 1: vs.add(ord(w))
            if v < 128 and chr(v).lower() in 'ksi': vs |= {'k': {0x212A}, 's': {0x17F}, 'i': {0x130, 0x131}}[chr(v).lower()]
        return lambda c: disj(ceq(c, w) for w in vs)
    if op is sc.LITERAL: return lit(av)
    if op is sc.NOT_LITERAL:
        f = lit(av); return lambda c: neg(f(c))
    if op is sc.ANY:
        return (lambda c: True) if flags & re.S else (lambda c: neg(ceq(c, 10)))
    if op is sc.IN:
        fs, negate = [], False
        for o, v in av:
            if o is sc.NEGATE: negate = True
            elif o is sc.LITERAL: fs.append(lit(v))
            elif o is sc.RANGE:
                lo, hi = v
                rs = [(lo, hi)]
                if ic:
                    if lo >= 128 or hi >= 128: raise Unsupported('case-insensitive range')
                    ex = {ord(x) for c in range(lo, hi + 1) for x in (chr(c).lower(), chr(c).upper())}
                    if ex & {ord('k')}: ex.add(0x212A)
                    if ex & {ord('s')}: ex.add(0x17F)
                    rs = [(x, x) for x in sorted(ex)]
                    m = []
                    for a, b in rs:
                        if m and m[-1][1] == a - 1: m[-1] = (m[-1][0], b)
                        else: m.append((a, b))
                    rs = m
                fs.append(lambda c, rs=rs: inranges(c, rs))
            elif o is sc.CATEGORY:
                n = str(v)
                nt = '_NOT_' in n
                rs = category(n.split('_')[-1])
                fs.append((lambda c, rs=rs: neg(inranges(c, rs))) if nt else (lambda c, rs=rs: inranges(c, rs)))
            else: raise Unsupported('regular expression set %s' % o)
        g = lambda c: disj(f(c) for f in fs)
        return (lambda c: neg(g(c))) if negate else g
    return None

class St:
    """Where the matcher is: pieces still to come, what the groups hold, the character before."""
    __slots__ = ('rest', 'open', 'groups', 'prev', 'whole')
    def __init__(self, rest, prev, opn=None, groups=None, whole=()):
        self.rest, self.prev = rest, prev
        self.open, self.groups, self.whole = opn or {}, groups or {}, whole
    def eat(self, ps, rest):
        s = St(rest, ps[-1] if ps else self.prev, {k: v + ps for k, v in self.open.items()}, dict(self.groups), self.whole + ps)
        return s
def truthc(x): return x if isinstance(x, bool) else core.C.decide(x)
def head(st):
    """the next character, opening opaque runs; None at the end"""
    st.rest = norm(tuple(st.rest))
    while st.rest and isinstance(st.rest[0], Seg):
        rt_open(st.rest[0]); st.rest = norm(st.rest)
    return st.rest[0] if st.rest else None
def rt_open(s):
    open_seg(s)

class Rx:
    def __init__(self, pat):
        self.pat = pat
        self.tree = sp.parse(pat.pattern, pat.flags & ~re.U & ~re.DEBUG if isinstance(pat.pattern, str) else pat.flags)
        self.flags = pat.flags
    def match(self, st, k):
        return self.seq(list(self.tree), st, k)
    def seq(self, ops, st, k):
        if not ops: return k(st)
        (op, av), more = ops[0], ops[1:]
        p = charpred(op, av, self.flags)
        if p is not None:
            c = head(st)
            if c is None: return None
            if not truthc(p(c)): return None
            return self.seq(more, st.eat((c,), st.rest[1:]), k)
        if op is sc.SUBPATTERN:
            g, add, dele, sub = av
            if add or dele: raise Unsupported('inline flags')
            if g is None: return self.seq(list(sub) + more, st, k)
            s2 = St(st.rest, st.prev, dict(st.open), dict(st.groups), st.whole); s2.open[g] = ()
            def k2(s, g=g):
                s = St(s.rest, s.prev, dict(s.open), dict(s.groups), s.whole)
                s.groups[g] = s.open.pop(g)
                return self.seq(more, s, k)
            return self.seq(list(sub), s2, k2)
        if op is sc.BRANCH:
            for b in av[1]:
                r = self.seq(list(b) + more, St(st.rest, st.prev, st.open, st.groups, st.whole), k)
                if r is not None: return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, 'POSSESSIVE_REPEAT', None)):
            return self.repeat(op, av, more, st, k)
        if op is sc.AT:
            return self.seq(more, st, k) if self.at(av, st) else None
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            if d < 0: raise Unsupported('look behind')
            r = self.seq(list(sub), St(st.rest, st.prev, {}, dict(st.groups), ()), lambda s: s)
            if (r is not None) == (op is sc.ASSERT): return self.seq(more, st, k)
            return None
        if op is sc.GROUPREF:
            want = st.groups.get(av)
            if want is None: return None
            s = st
            for w in norm(tuple(want)):
                if isinstance(w, Seg): raise Unsupported('back reference to an opaque run')
                c = head(s)
                if c is None or not truthc(chareq(c, w)): return None
                s = s.eat((c,), s.rest[1:])
            return self.seq(more, s, k)
        raise Unsupported('regular expression node %s' % op)
    def at(self, av, st):
        n = str(av)
        if n in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
            if st.prev is None: return True
            if isinstance(st.prev, Seg): raise Unsupported('a position after an opaque run')
            return bool(self.flags & re.M) and n == 'AT_BEGINNING' and truthc(chareq(st.prev, 10))
        if n in ('AT_END', 'AT_END_STRING'):
            c = head(st)
            if c is None: return True
            if n == 'AT_END_STRING' or not truthc(chareq(c, 10)): return False
            if self.flags & re.M: return True
            return head(St(st.rest[1:], c)) is None
        raise Unsupported('regular expression position %s' % n)
    def repeat(self, op, av, more, st, k):
        lo, hi, sub = av
        sub = list(sub)
        p = charpred(sub[0][0], sub[0][1], self.flags) if len(sub) == 1 else None
        inner = None
        if p is None and len(sub) == 1 and sub[0][0] is sc.SUBPATTERN and sub[0][1][0] is not None: pass
        hi = None if hi is sc.MAXREPEAT else int(hi)
        if op is sc.MAX_REPEAT and p is not None:
            got, rest = self.munch(p, st.rest, hi)
            n = sum(not isinstance(x, Seg) for x in got)
            while True:
                segs = any(isinstance(x, Seg) for x in got)
                if segs and n < lo:
                    if not core.C.decide(lenz(got) >= lo): return None
                elif n < lo: return None
                r = self.seq(more, st.eat(tuple(got), tuple(rest)), k)
                if r is not None: return r
                if not got: return None
                if isinstance(got[-1], Seg):
                    # shorter: the next character is one of the class
                    if self.cannot(more, p): return None
                    raise Unsupported('backtracking into an opaque run')
                rest = (got[-1],) + tuple(rest); got = got[:-1]; n -= 1
        if op is sc.MIN_REPEAT:
            def lazy(s, n):
                if n >= lo:
                    r = self.seq(more, St(s.rest, s.prev, s.open, s.groups, s.whole), k)
                    if r is not None: return r
                if hi is not None and n >= hi or n > 60: return None
                if p is not None:
                    s.rest = norm(tuple(s.rest))
                    if s.rest and isinstance(s.rest[0], Seg): raise Unsupported('lazy repetition over an opaque run')
                return self.seq(sub, s, lambda s2: lazy(s2, n + 1) if len(s2.whole) != len(s.whole) else None)
            return lazy(st, 0)
        def greedy(s, n):
            if hi is None or n < hi:
                if n > 60: raise Unsupported('repetition over 60 times')
                r = self.seq(sub, St(s.rest, s.prev, s.open, s.groups, s.whole), lambda s2: greedy(s2, n + 1) if len(s2.whole) != len(s.whole) else None)
                if r is not None: return r
            return self.seq(more, s, k) if n >= lo else None
        return greedy(st, 0)
    def cannot(self, more, p):
        """a character that satisfies p cannot begin a match of more (which cannot be empty)"""
        f = first(more, self.flags)
        if f is None: return False
        c = z3.Int('probe')
        return unsat(c, p(c), f(c))
    def munch(self, p, rest, hi):
        got = []
        rest = norm(tuple(rest))
        while rest and (hi is None or len(got) < hi):
            c = rest[0]
            if isinstance(c, Seg):
                if hi is not None: rt_open(c); rest = norm(rest); continue
                if core.C.decide(c.n == 0): c.refine(()); rest = norm(rest); continue
                if excludes(c, p): break
                if implies_all(c, p): got.append(c); rest = rest[1:]; continue
                if c.memo.get('opener'): rt_open(c); rest = norm(rest); continue
                a = c.sub('m'); a.elem = rt.both(c.elem, lambda x: z3bool(p(x)))
                if core.C.choose(2) == 0:
                    c.refine((a,)); got.append(a); rest = norm(rest)[1:]; continue
                ch = c.item(); core.C.assume(neg(p(ch)))
                b = c.sub('r'); c.refine((a, ch, b)); rest = norm(rest)
                if core.C.decide(a.n == 0): a.refine(()); rest = norm(rest)
                else: got.append(a); rest = rest[1:]
                break
            if not truthc(p(c)): break
            got.append(c); rest = rest[1:]
        return got, rest
def z3bool(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def unsat(c, *es):
    s = z3.Solver(); s.set('timeout', 800)
    s.add(c >= 0, c < MAXCHR, *[z3bool(e) for e in es])
    return s.check() == z3.unsat
def excludes(seg, p):
    if seg.elem is None: return False
    c = z3.Int('probe')
    return unsat(c, seg.elem(c), p(c))
def implies_all(seg, p):
    c = z3.Int('probe')
    return unsat(c, seg.elem(c) if seg.elem is not None else True, neg(p(c)))
def first(ops, flags):
    """Test on the first character of any match of ops; None if ops can match the empty string."""
    ops = list(ops)
    if not ops: return None
    (op, av), more = ops[0], ops[1:]
    p = charpred(op, av, flags)
    if p is not None: return p
    if op is sc.SUBPATTERN: return first(list(av[3]) + more, flags)
    if op is sc.BRANCH:
        fs = [first(list(b) + more, flags) for b in av[1]]
        return None if any(f is None for f in fs) else (lambda c: disj(f(c) for f in fs))
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        f = first(list(sub), flags)
        if int(lo) > 0: return f if f is not None else None
        g = first(more, flags)
        return None if f is None or g is None else (lambda c: disj((f(c), g(c))))
    if op in (sc.ASSERT, sc.ASSERT_NOT): return first(more, flags)
    return None
def single(tree):
    """the pattern always matches exactly one character (possibly in a group)"""
    ops = list(tree)
    if len(ops) != 1: return False
    op, av = ops[0]
    if op is sc.SUBPATTERN: return single(av[3])
    if op is sc.BRANCH: return all(single(b) for b in av[1])
    return op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN)

_RX = {}
def rx(pat):
    k = (pat.pattern, pat.flags)
    if k not in _RX: _RX[k] = Rx(pat)
    return _RX[k]
class MatchM:
    """A match object."""
    def __init__(self, r, st, start, string):
        self.re, self.st, self._start, self.string = r, st, start, string
    def _g(self, i):
        if isinstance(i, str): i = self.re.pat.groupindex[i]
        if i == 0: return mkstr(norm(self.st.whole))
        if i > self.re.pat.groups: raise IndexError('no such group')
        g = self.st.groups.get(i)
        return None if g is None else mkstr(norm(tuple(g)))
    def group(self, *ids):
        if not ids: ids = (0,)
        r = tuple(self._g(i) for i in ids)
        return r[0] if len(r) == 1 else r
    __getitem__ = _g
    def groups(self, default=None):
        return tuple(default if self._g(i) is None else self._g(i) for i in range(1, self.re.pat.groups + 1))
    def groupdict(self): return SMap({n: self._g(n) for n in self.re.pat.groupindex})
    @property
    def lastindex(self):
        gs = [i for i in self.st.groups if self.st.groups[i] is not None]
        return gs[-1] if gs else None
    def start(self, g=0):
        if g: raise Unsupported('start of a group')
        return mkint(lenz(norm(self._start)))
    def end(self, g=0):
        if g: raise Unsupported('end of a group')
        return mkint(lenz(norm(self._start + self.st.whole)))
    def span(self, g=0): return (self.start(g), self.end(g))

def domatch(pat, s, full=False):
    r = rx(pat)
    def k(st):
        if full and head(st) is not None: return None
        return st
    st = r.match(St(pieces(s), None), k)
    return None if st is None else MatchM(r, st, (), s)
def dosearch(pat, s):
    r = rx(pat); rest = norm(pieces(s)); done = (); prev = None
    f = first(r.tree, r.flags)
    while True:
        st = attempt(r, rest, prev)
        if st is not None: return MatchM(r, st, done, s)
        rest = norm(rest)
        if not rest: return None
        done += rest[:1]; prev = rest[0]; rest = rest[1:]
        if isinstance(prev, Seg): raise Unsupported('search in an opaque run')
def attempt(r, rest, prev): return r.match(St(rest, prev), lambda s: s)

def template(repl, m):
    """expand a replacement string"""
    if not isinstance(repl, str): raise Unsupported('symbolic replacement')
    out, i = '', 0
    while i < len(repl):
        c = repl[i]
        if c == '\\':
            g = re.match(r'\\(?:([0-9]+)|g<(\w+)>|(.))', repl[i:], re.S)
            if g.group(1): out = out + (m._g(int(g.group(1))) or '')
            elif g.group(2): out = out + (m._g(int(g.group(2)) if g.group(2).isdigit() else g.group(2)) or '')
            else: out = out + {'n': '\n', 't': '\t', '\\': '\\'}[g.group(3)]
            i += g.end()
        else: out = out + c; i += 1
    return out
def dosub(pat, repl, s, count=0):
    r = rx(pat)
    f = first(r.tree, r.flags)
    rep = (lambda m: rt.call(repl, m)) if not isinstance(repl, (str, SStr)) else (lambda m: template(repl, m))
    out, rest, prev, n, steps = (), norm(pieces(s)), None, 0, 0
    lastend = None
    while True:
        rest = norm(tuple(rest))
        steps += 1
        if steps > 400: raise Unsupported('substitution over a long string')
        if rest and isinstance(rest[0], Seg) and f is not None:
            g = rest[0]
            h = g.memo.get('sub')
            if h is not None:
                t = h(r, repl, rest, prev)
                if t is not None:
                    out += tuple(t[0]); prev = g; rest = tuple(t[1]); continue
            if excludes(g, f):
                out += (g,); prev = g; rest = rest[1:]; continue
            if count: raise Unsupported('a counted substitution in an opaque run')
            if single(r.tree):
                k = ('sub', pat.pattern, pat.flags, subkey(repl))
                if k not in g.memo: g.memo[k] = rt.mapped(g, k, lambda c: dosub(pat, repl, mkstr((c,))))
                out += (g.memo[k],); prev = g; rest = rest[1:]; continue
            if not g.memo.get('opener'): raise Unsupported('substitution in an opaque run')
            rt_open(g); continue
        if count and n >= count: return mkstr(out + tuple(rest))
        st = attempt(r, rest, prev)
        if st is not None and not (not norm(st.whole) and lastend is not None and lastend == len(norm(tuple(rest)))):
            v = rep(MatchM(r, st, (), s))
            if not isstr(v): raise TypeError('expected str instance from the replacement')
            out += pieces(v); n += 1
            w = norm(st.whole)
            rest = norm(tuple(st.rest))
            if w:
                prev = w[-1]; lastend = len(rest); continue
            lastend = None
        rest = norm(tuple(rest))
        if not rest: return mkstr(out)
        if isinstance(rest[0], Seg): 
            if f is None: raise Unsupported('a pattern that matches nothing in an opaque run')
            continue
        out += rest[:1]; prev = rest[0]; rest = rest[1:]
_KEEP = []
def subkey(repl):
    """what the replacement does: for a function its code and what it closes over"""
    if isinstance(repl, str): return repl
    _KEEP.append(repl)              # so that the ids stay its own
    if isinstance(repl, types.FunctionType):
        return (repl.__code__, tuple(id(cellof(c)) for c in repl.__closure__ or ()), tuple(map(id, repl.__defaults__ or ())))
    return id(repl)
def cellof(c):
    try: return c.cell_contents
    except ValueError: return c
def dofindall(pat, s, iter_=False):
    r = rx(pat)
    rest, prev, out, done = norm(pieces(s)), None, [], ()
    while True:
        st = attempt(r, rest, prev)
        if st is not None:
            w = norm(st.whole)
            m = MatchM(r, st, done, s)
            g = r.pat.groups
            out.append(m if iter_ else m._g(0) if g == 0 else m._g(1) or '' if g == 1 else tuple(x or '' for x in m.groups()))
            if w: done += w; prev = w[-1]; rest = norm(tuple(st.rest)); continue
        rest = norm(tuple(rest))
        if not rest: return SList(out) if not iter_ else iter(out)
        if isinstance(rest[0], Seg): raise Unsupported('findall in an opaque run')
        done += rest[:1]; prev = rest[0]; rest = rest[1:]
def dosplit(pat, s, maxsplit=0):
    r = rx(pat)
    rest, prev, out, cur, n = norm(pieces(s)), None, [], (), 0
    f = first(r.tree, r.flags)
    while True:
        rest = norm(tuple(rest))
        if rest and isinstance(rest[0], Seg):
            if f is not None and excludes(rest[0], f): cur += rest[:1]; prev = rest[0]; rest = rest[1:]; continue
            raise Unsupported('split of an opaque run')
        st = attempt(r, rest, prev) if not maxsplit or n < maxsplit else None
        if st is not None and norm(st.whole):
            m = MatchM(r, st, (), s)
            out.append(mkstr(cur)); out.extend(m.groups()); cur = (); n += 1
            w = norm(st.whole); prev = w[-1]; rest = norm(tuple(st.rest)); continue
        if st is not None: raise Unsupported('split at an empty match')
        if not rest:
            out.append(mkstr(cur)); return SList(out)
        cur += rest[:1]; prev = rest[0]; rest = rest[1:]

def pattern_method(o, name, a, k):
    def symb(x): return isinstance(x, SStr)
    i = 1 if name in ('sub', 'subn') else 0
    s = a[i] if len(a) > i else k.get('string')
    if isinstance(s, SStr) and s.conc() is not None: s = s.conc()
    if isinstance(s, str) and not (name == 'sub' and not isinstance(a[0], str)):
        r = getattr(o, name)(*[s if j == i else x for j, x in enumerate(a)], **k)
        return rt.lift(r)
    if name == 'match': return domatch(o, s)
    if name == 'fullmatch': return domatch(o, s, True)
    if name == 'search': return dosearch(o, s)
    if name == 'sub': return dosub(o, a[0], s, a[2] if len(a) > 2 else k.get('count', 0))
    if name == 'findall': return dofindall(o, s)
    if name == 'finditer': return dofindall(o, s, True)
    if name == 'split': return dosplit(o, s, a[1] if len(a) > 1 else k.get('maxsplit', 0))
    raise Unsupported('no contract for Pattern.' + name)
def comp(p, flags=0):
    if isinstance(p, re.Pattern): return p
    if isinstance(p, SStr): p = rt.key(p)
    if not isinstance(p, str): raise Unsupported('symbolic regular expression')
    return re.compile(p, flags)
def reg():
    def f(name):
        def g(p, *a, flags=0, **k):
            n = 3 if name == 'sub' else 2 if name == 'split' else 1
            a = list(a)
            if len(a) > n: flags = a.pop()
            return pattern_method(comp(p, flags), name, tuple(a), k)
        return g
    for n in ('match', 'fullmatch', 'search', 'sub', 'findall', 'finditer', 'split'):
        rt.MODELS[getattr(re, n)] = f(n)
    rt.MODELS[re.escape] = lambda s: re.escape(s) if isinstance(s, str) else rt._unsup('re.escape')
reg()
