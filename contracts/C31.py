"""getldml: the first file that exists, in the order of the search."""
import os
from pv import *
ASSUMPTIONS += ["the locale's name has no slash; the names of directories do not end in one and are not empty", "whether a file exists does not change while it is looked for"]
TRUSTED += ["os.path.join puts a slash between, os.path.exists tells whether a file is there, Ldml(f) and LdmlMerge(f) open the file f"]
l, g = load('sldr.ldml'), load('sldr.ldml_merge')
def clean(p):
    """a path without its /./ steps"""
    p = list(norm(pieces(p)))
    i = 0
    while i + 2 < len(p):
        if all(isinstance(x, int) for x in p[i:i+3]) and ''.join(map(chr, p[i:i+3])) == '/./': del p[i:i+2]
        else: i += 1
    return tuple(p)
def join(a, *rest):
    for b in rest:
        if truth(rt.startswith(b, '/')): a = b
        elif truth(rt.endswith(a, '/')): a = a + b
        else: a = a + '/' + b
    return a
def samepath(p, q): return len(p) == len(q) and all(samec(x, y) for x, y in zip(p, q))
def exists(p):
    p = clean(p)
    tab = core.C.facts.setdefault('exists', [])
    for q, b in tab:
        if samepath(clean(q), p): return b
    tab.append((mkstr(p), newbool('exists')))
    return tab[-1][1]
class Doc:
    def __init__(self, path): self.path = path
for f in (os.path.exists, os.path.isfile): rt.MODELS[f] = exists
rt.MODELS[os.path.join] = join
rt.CONTRACTS['sldr.ldml:Ldml'] = lambda f, *a, **k: Doc(f)
rt.CONTRACTS['sldr.ldml_merge:LdmlMerge'] = lambda f, *a, **k: Doc(f)
def mkdir(where):
    d = newstr(where, None, 1)
    assume(bnot(rt.endswith(d, '/')))
    core.C.facts.setdefault('dirs', []).append((where, d))
    return d
def start(which, *parts):
    loc = newstr('loc', lambda c: z3.And(c != 47), 1)
    first = rt.getitem(loc, 0)
    name = rt.replace(loc, '-', '_') if which == 0 else loc
    sub = rt.casemap(first, 'lower')
    ps = [Seg(p, 'list', lambda h, p=p: mkdir(p)) if p != 'this' else mkdir(p) for p in parts]
    def cand(d): return d + '/' + name + '.xml', d + '/' + sub + '/' + name + '.xml'
    def case(mm):
        ds = sorted(core.C.facts.get('dirs', ()), key=lambda x: ('before', 'dirs', 'this', 'after').index(x[0]))
        s = conc(loc, mm)
        tag = ('A' if s[:1].isupper() else 'a') + ('-b' if '-' in s else '_b')
        return [which, tag, len(ds), [2 * i + k for i, (w, d) in enumerate(ds) for k in (0, 1) if conc(exists(cand(d)[k]), mm)]]
    inputs(case=case)
    return loc, SList(ps=ps), cand
def find(r, cand):
    """(where, which of its two files) the document was opened from"""
    p = clean(r.path)
    for w, d in core.C.facts.get('dirs', ()):
        for k, c in enumerate(cand(d)):
            if samepath(p, clean(c)): return w, k
    return None
for which, mod, nm in ((0, l, 'ldml'), (1, g, 'ldml_merge')):
    @ob('%s.getldml: what is opened' % nm, covers=['none', 'some'])
    def _(which=which, mod=mod):
        loc, dirs, cand = start(which, 'dirs')
        r = call(mod.getldml, loc, dirs)
        if r is None: cover('none'); return
        cover('some')
        prove('a file in one of the directories or under the letter', find(r, cand) is not None)
        prove('the file exists', exists(r.path))
    for k in (0, 1):
        @ob('%s.getldml: a file that exists %s' % (nm, ('in a directory', 'under the letter')[k]), covers=['this', 'before'])
        def _(which=which, mod=mod, k=k):
            loc, dirs, cand = start(which, 'before', 'this', 'after')
            this = [d for w, d in core.C.facts['dirs'] if w == 'this'][0]
            assume(exists(cand(this)[k]))
            r = call(mod.getldml, loc, dirs)
            prove('something is opened', r is not None)
            if r is None: return
            at = find(r, cand)
            prove('a file in one of the directories or under the letter', at is not None)
            if at is None: return
            w, kk = at
            rank = {'before': 0, 'this': 1, 'after': 2}
            # the documented order: all directories before all letters; for the merging one directory by directory
            a, b = ((kk, rank[w]), (k, 1)) if which == 0 else ((rank[w], kk), (1, k))
            prove('nothing after the file that exists is opened', a <= b)
            cover(w)
