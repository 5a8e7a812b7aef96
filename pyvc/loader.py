"""Loads modules of /repo through the extraction."""
import os, sys, importlib, types, ast, copy, builtins
import rt, core, transform
REPO = os.environ.get('VERIF_REPO', '/repo')
MODS = {}
STDLIB = {'re', 'os', 'sys', 'copy', 'itertools', 'functools', 'collections', 'unicodedata', 'math', 'codecs', 'difflib', 'io', 'csv', 'argparse', 'random', 'xml', 'json', 'string', 'operator', 'tempfile', 'shutil', 'timeit', 'datetime', 'logging', 'getopt', 'struct', 'glob'}
STUBS = {}
INFO = {}
def builtins_ns():
    ns = dict(vars(builtins))
    ns['list'], ns['dict'], ns['set'] = core.SList, core.SMap, core.SSet
    return ns
def load(name, path=None, filt=None):
    """The translated module of that name ('sldr.x'), or of a file."""
    if name in MODS: return MODS[name]
    if path is None:
        path = os.path.join(REPO, 'lib', *name.split('.'))
        path = path + '.py' if os.path.exists(path + '.py') else os.path.join(path, '__init__.py')
    with open(path, encoding='utf-8') as f: src = f.read()
    tree, loops = transform.transform(src, name)
    rt.LOOPS.update(loops)
    m = types.ModuleType(name)
    MODS[name] = m
    rt.TRANS.add(name)
    m.__dict__['__builtins__'] = builtins_ns()
    m.__dict__['_pv_rt'] = rt
    m.__file__ = path
    old = core.C
    if old is None:
        c = core.Ctx(); core.setctx(c); c.start_path([])
    else:
        c = core.Ctx(); core.setctx(c); c.start_path([])
    INFO[name] = dict(path=path, functions=sum(isinstance(n, ast.FunctionDef) for n in ast.walk(tree)), skipped=[])
    try:
        for st in tree.body:
            if filt is not None and not filt(st): continue
            code = compile(ast.Module([st], []), path, 'exec')
            if filt is not None and isinstance(st, ast.Assign):
                # a script: what does not run here (its arguments, its files) is left out
                try: exec(code, m.__dict__)
                except (Exception, SystemExit) as e: INFO[name]['skipped'].append('%s: %s' % (ast.unparse(st)[:60], e))
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Assign, ast.ImportFrom, ast.Import)):
                exec(code, m.__dict__)
            else:
                try: exec(code, m.__dict__)
                except Exception as e: INFO[name]['skipped'].append('%s: %s' % (ast.unparse(st)[:60], e))
    finally:
        core.setctx(old)
    return m
def import_(name, asname, level, sub, here):
    if level or (name or '').split('.')[0] == 'sldr':
        base = '.'.join(here.split('.')[:-level]) if level else ''
        full = '.'.join(x for x in (base, name) if x)
        if sub is not None:
            if full == 'sldr':
                return load('sldr.' + sub)
            return getattr(load(full), sub)
        m = load(full)
        if not asname and '.' in full:
            pk = types.SimpleNamespace(**{k.split('.')[1]: v for k, v in MODS.items() if k.startswith('sldr.')})
            return pk
        return m
    top = name.split('.')[0]
    if top in STDLIB or (name == 'six'):
        try:
            m = importlib.import_module(name)
            if sub is None: return m if asname else sys.modules[top]
            try: v = getattr(m, sub)
            except AttributeError: v = importlib.import_module(name + '.' + sub)
            return WRAP.get((name, sub), v)
        except ImportError:
            pass
    s = STUBS.setdefault(name if asname or sub else top, rt.StubFn(name if asname or sub else top))
    return s if sub is None else getattr(s, sub)
WRAP = {('collections', 'UserDict'): rt.SUserDict}
