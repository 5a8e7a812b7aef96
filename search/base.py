"""Concrete side of every check: the contract of a property as an executable
oracle over the real code, and a bounded search for an input that breaks it.

Runs under /opt/venv/bin/python with /repo/lib on the path.  It never decides
that a property is proved: it replays the verifier's counter-models, looks for
failing inputs when an obligation is not discharged, and stands in (labelled
bounded) for functions the verifier does not reach."""
import ast, json, os, random, signal, sys, time, hashlib, traceback
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'lib'))
HERE = os.path.dirname(os.path.abspath(__file__))

def _brk(*a, **k): raise RuntimeError('breakpoint() reached')
sys.breakpointhook = _brk

class Skip(Exception):
    """The real code no longer has the entry point: nothing can be said."""

class Stop(BaseException):
    pass

# --------------------------------------------------------------- dictionary
def consts(path):
    strs, ints = set(), set()
    try:
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read())
    except Exception:
        return strs, ints
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body \
                and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, str) and len(n.value) <= 24:
                strs.add(n.value)
            elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                ints.add(n.value)
            elif isinstance(n.value, bytes) and len(n.value) < 24:
                strs.add(n.value.decode('latin-1'))
    return strs, ints

class Dict:
    """Constants of the source files; those not in the committed baseline are
    'fresh' and get more weight (a search heuristic only)."""
    def __init__(self, files):
        self.strs, self.ints = set(), set()
        for f in files:
            s, i = consts(os.path.join(REPO, f))
            self.strs |= s; self.ints |= i
        try:
            base = json.load(open(os.path.join(HERE, 'baseline_consts.json'), encoding='utf-8'))
        except Exception:
            base = {}
        bs, bi = set(), set()
        for f in files:
            b = base.get(f, {})
            bs |= set(b.get('strs', [])); bi |= set(b.get('ints', []))
        self.fstrs = sorted(self.strs - bs)
        self.fints = sorted(self.ints - bi)
        self.strs = sorted(self.strs); self.ints = sorted(self.ints)
        cs = []
        for i in self.fints:
            if isinstance(i, int) and 32 <= i < 0x110000 and not 0xD800 <= i < 0xE000:
                cs.append(chr(i))
        self.fchars = sorted(set(''.join(self.fstrs)) | set(cs))
        self.chars = sorted(set(''.join(self.strs)))
        self.lens = sorted({max(0, int(i) + d) for i in self.fints for d in (-1, 0, 1) if 0 <= i <= 400})
    def length(self, rng, small=4, big=9):
        if self.lens and rng.random() < 0.15:
            return rng.choice(self.lens)
        return rng.randint(0, small) if rng.random() < .9 else rng.randint(0, big)
    def number(self, rng, lo=-5, hi=20):
        if self.fints and rng.random() < .2:
            return rng.choice(self.fints) + rng.choice((-1, 0, 0, 1))
        return rng.randint(lo, hi)

GEN = ['a', 'b', 'z', 'A', 'Z', '0', '1', '9', 'u', 'U', 'x', 'n', 'e', ' ', '\\', "'", '"', '[', ']', '{', '}', '&', '-', '|', '^', '$', ':', '<', '>', '=', '/', '#', '!', '(', ')',
       '\u00e9', '\u0301', '\u0300', '\u0327', '\u0345', '\u05bc', '\u0640', '\u0915', '\u093c', '\u0940', '\u094d', '\u200b', '\u200c', '\u200d', '\u00ad', '\u2060', '\u00a0', '\u3000',
       '\ue000', '\uf8ff', '\uf900', '\U0001d165', '\U00010400', '\U0001f600', '\U000e0100', '\U000f0000', '\U000ffffd', '\U00100000', '\U0010fffd', '\ufe0f', '\u20dd', '\u0488', '\u1ab0', '\U0001e943', '\u212b', '\u00c5', '\u0130', '\u00df', '\ufb01', '\ua78c', '\uff01', '~', '_', '`', '@', '%', '*', '+', ',', '.', ';', '?', '\t', '\n', '\r', '\x7f', '\x01', '\x00']

def rchar(rng, D, pool=GEN, xml=False):
    r = rng.random()
    if D.fchars and r < .25:
        c = rng.choice(D.fchars)
    elif D.chars and r < .4:
        c = rng.choice(D.chars)
    elif r < .88:
        c = rng.choice(pool)
    else:
        c = chr(rng.choice((rng.randint(32, 0x2ff), rng.randint(0x300, 0x1fff), rng.randint(0x2000, 0xd7ff), rng.randint(0xe000, 0xfffd), rng.randint(0x10000, 0x10fffd))))
    if len(c) == 1 and 0xD800 <= ord(c) < 0xE000:
        return 'a'
    return c

def rstr(rng, D, pool=GEN, small=4, big=9, min=0):
    n = max(min, D.length(rng, small, big))
    s = ''
    while len(s) < n:
        if D.fstrs and rng.random() < .1:
            s += rng.choice(D.fstrs)
        elif D.strs and rng.random() < .05:
            s += rng.choice(D.strs)
        else:
            s += rchar(rng, D, pool)
    s = ''.join('a' if 0xD800 <= ord(c) < 0xE000 else c for c in s)
    return s or 'a' * min

# ------------------------------------------------------------------- props
class Prop:
    id = None
    files = []                  # sources constants are taken from
    rule = ''                   # how cases are made, what makes one non trivial
    bound = ''                  # the bound of the search, in words
    strict = True               # False: drives entry points that are not public
    def setup(self): pass
    def exhaustive(self, tier): return iter(())
    def random(self, rng, D): raise NotImplementedError
    def check(self, case): raise NotImplementedError
    def nontrivial(self, case): return True
    def seeds(self, models):    # cases made from the verifier's counter-models
        return iter(())

REG = {}
def register(cls):
    REG[cls.id] = cls
    return cls

FORM = "the result is not of the expected form"
class Timeout(Exception): pass
def _alarm(*a): raise Timeout()

def need(obj, *names):
    for n in names:
        if not hasattr(obj, n):
            raise Skip('%r has no %s any more' % (obj, n))
    return getattr(obj, names[-1])

def run_one(prop, case, limit=20):
    """None or a message."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return prop.check(json.loads(json.dumps(case)))
    except Skip:
        raise
    except Timeout:
        return "no result after %d s" % limit
    except RecursionError as e:
        return "RecursionError: %s" % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(os.path.realpath(REPO)) or f.filename.startswith(REPO)]
        last = tb[-1]
        if not inrepo:
            if isinstance(e, AttributeError) and (not prop.strict or str(getattr(e, 'name', '')).startswith('_')) or isinstance(e, TypeError) and 'argument' in str(e):
                raise Skip('%s: %s' % (type(e).__name__, e))
            return "the result is not of the expected form: %s: %s (oracle line %d)" % (type(e).__name__, e, last.lineno)
        where = inrepo[-1]
        return "%s: %s (in %s, line %d)" % (type(e).__name__, e, where.name, where.lineno)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

def variants(x):
    """Smaller versions of a JSON value."""
    if isinstance(x, str):
        if len(x) > 8:
            yield x[:len(x)//2]; yield x[len(x)//2:]
        for i in range(min(len(x), 40)):
            yield x[:i] + x[i+1:]
    elif isinstance(x, list):
        if len(x) > 6:
            yield x[:len(x)//2]; yield x[len(x)//2:]
        for i in range(min(len(x), 40)):
            yield x[:i] + x[i+1:]
        for i in range(min(len(x), 40)):
            for v in variants(x[i]):
                yield x[:i] + [v] + x[i+1:]
    elif isinstance(x, dict):
        for k in list(x):
            for v in variants(x[k]):
                y = dict(x); y[k] = v
                yield y
    elif isinstance(x, bool):
        if x: yield False
    elif isinstance(x, int):
        if x > 1: yield x // 2
        if x > 0: yield x - 1

def shrink(prop, case, msg, budget=6.0):
    t = time.time()
    valid = getattr(prop, 'valid', lambda c: True)
    again = True
    while again and time.time() - t < budget:
        again = False
        for v in variants(case):
            if time.time() - t > budget: break
            try:
                if not valid(v): continue
                m = run_one(prop, v, 5)
            except Exception:
                continue
            if m and m.startswith(FORM) and (not msg.startswith(FORM) or len(v) != len(case)): continue
            if m:
                case, msg, again = v, m, True
                break
    return case, msg

def search(pid, tier, seed, budget, models=()):
    """Dict with the result of the search."""
    prop = REG[pid]()
    t0 = time.time()
    res = dict(property=pid, status='ok', evaluations=0, distinct_nontrivial=0, rule=prop.rule, bound=prop.bound,
               samples=[], by=dict(seeds=0, exhaustive=0, random=0), exhaustive_done=False)
    try:
        prop.setup()
    except Exception as e:
        res.update(status='skip', reason='%s: %s' % (type(e).__name__, e)); return res
    D = Dict(prop.files)
    rng = random.Random('%s %s %s' % (pid, seed, tier))
    seen = set()
    trivial = [0]
    def one(case, kind):
        js = json.dumps(case, sort_keys=True)
        h = hashlib.md5(js.encode()).digest()
        if h in seen: return None
        seen.add(h)
        res['evaluations'] += 1; res['by'][kind] += 1
        nt = prop.nontrivial(case)
        if nt:
            res['distinct_nontrivial'] += 1
            n = res['distinct_nontrivial']
            if n in (1, 5, 50, 500, 5000) and len(js) < 2000:
                res['samples'].append(case)
        msg = run_one(prop, case)
        if msg:
            case, msg = shrink(prop, case, msg)
            res.update(status='fail', case=case, message=msg)
            return True
    try:
        for case in prop.seeds(models):
            if one(case, 'seeds'): return res
        full = True
        for case in prop.exhaustive(tier):
            if one(case, 'exhaustive'): return res
            if time.time() - t0 > budget * .6:
                full = False
                break
        res['exhaustive_done'] = full
        dup = 0
        while time.time() - t0 < budget and dup < 5000:
            n = res['evaluations']
            if one(prop.random(rng, D), 'random'): return res
            dup = dup + 1 if res['evaluations'] == n else 0
    except Skip as e:
        res.update(status='skip', reason=str(e))
    except Exception as e:
        res.update(status='error', reason=''.join(traceback.format_exception(e))[-3000:])
    finally:
        res['wall_s'] = round(time.time() - t0, 2)
        if not res['samples'] and res['evaluations']:
            res['samples'].append('trivial cases only')
    return res
