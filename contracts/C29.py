"""zonetab: coordinates to degrees."""
import ast, io
from pv import *
ASSUMPTIONS += ["floating point arithmetic is taken as real arithmetic"]
TRUSTED += ["float() and int() of a string of decimal digits give the number it writes"]
PATH = loader.REPO + '/scripts/zonetab'
funcs = load('zonetab', PATH, lambda st: isinstance(st, (ast.FunctionDef, ast.Import, ast.ImportFrom)))

def want(sign, d, mi, s):
    v = z3.ToReal(d.e) + z3.ToReal(mi.e) / 60
    if s is not None: v = v + z3.ToReal(s.e) / 3600
    return -v if sign == '-' else v
@ob('latlongdeg')
def _():
    d, mi, s = newint('deg', 0), newint('min', 0), newint('sec', 0)
    sign = pick('+', '-')
    if pick(0, 1): s = None
    sh = lambda m, x: None if x is None else '%02d' % conc(x, m)
    inputs(case=lambda m: [sign, sh(m, d), sh(m, mi), sh(m, s)])
    got = call(funcs.latlongdeg, sign, rt.NumStr(d), rt.NumStr(mi), rt.NumStr(s) if s is not None else None)
    prove('sign * (deg + min/60 + sec/3600)', num(got) == want(sign, d, mi, s))

# the script itself, on a file of one line with symbolic digits
class Args: pass
class Parser:
    def __init__(self, *a, **k): self.names = []
    def add_argument(self, *n, **k): self.names.append(n[0])
    def parse_args(self, *a):
        r = Args()
        for n in self.names: setattr(r, n.lstrip('-'), n)
        return r
class File:
    def __init__(self, lines): self.lines, self.out = lines, []
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def readlines(self): return SList(list(self.lines))
    def __iter__(self): return iter(self.lines)
    def write(self, s): self.out.append(s)
    def writelines(self, l): self.out.extend(rt.iterate(l))
    def close(self): pass
def digits(n):
    ds = []
    for i in range(n):
        c = newchar('d', lambda c: z3.And(c >= 48, c <= 57)); ds.append(c)
    v = z3.IntVal(0)
    for c in ds: v = v * 10 + (c.p[0] - 48)
    r = ''
    for c in ds: r = r + c
    return r, SInt(v)
def coord(w, secs):
    sign = pick('+', '-')
    a, d = digits(w); b, mi = digits(2); t = sign + a + b; s = None
    if secs: c, s = digits(2); t = t + c
    return t, (sign, d, mi, s)
for latsec in (0, 1):
    for longsec in (0, 1):
        @ob('the script on a line, %s latitude seconds, %s longitude seconds' % (('without', 'with')[latsec], ('without', 'with')[longsec]))
        def _(latsec=latsec, longsec=longsec):
            la, lat = coord(2, latsec); lo, lng = coord(3, longsec)
            line = 'ZZ\t' + la + lo + '\tZone/Test\n'
            inputs(case=lambda m: ['script', conc(la, m) + conc(lo, m)])
            inf, outf = File([line]), File([])
            import argparse
            rt.MODELS[argparse.ArgumentParser] = Parser
            EXTERN['open'] = lambda name, *a, **k: inf if name == 'infile' else outf
            loader.MODS.pop('zonetab_all', None)
            c = core.C
            mod = run_script('zonetab_all')
            got = [l for l in outf.out if truth(rt.startswith(l, 'Zone/Test'))]
            prove('one line is written for the zone', len(got) == 1)
            p = norm(pieces(got[0]))
            segs = [x for x in p if isinstance(x, Seg)]
            txt = ''.join(chr(x) if not isinstance(x, Seg) else '%' for x in p)
            prove('the line is zone, country, latitude, longitude', txt == 'Zone/Test, ZZ, %, %\n' and all(x.tag and x.tag[0] == 'fmt' for x in segs))
            prove('latitude', num(segs[0].tag[1]) == want(*lat))
            prove('longitude', num(segs[1].tag[1]) == want(*lng))
def run_script(name):
    """every statement of the script, as a module"""
    import types, transform
    src = open(PATH, encoding='utf-8').read()
    tree, loops = transform.transform(src, name)
    rt.LOOPS.update(loops)
    m = types.ModuleType(name)
    rt.TRANS.add(name)
    m.__dict__['__builtins__'] = loader.builtins_ns(); m.__dict__['_pv_rt'] = rt
    exec(compile(tree, PATH, 'exec'), m.__dict__)
    return m
