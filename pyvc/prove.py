#!/usr/bin/env python3
"""prove.py Cxx: generate the obligations of contracts/Cxx.py from the current source and discharge them.
The last line printed is JSON."""
import sys, os, json, time, importlib, traceback, multiprocessing, argparse, io
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'contracts'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
import core, rt, loader, pv

def run_ob(args):
    k, tier, verbose, limit = args
    name, fn, opts = pv.OBS[k]
    t0 = time.time()
    o = dict(verbose=verbose)
    if tier == 'thorough': o.update(prove_ms=60000, feas_ms=4000)
    o.update(opts)
    c = core.Ctx(o)
    c.deadline = t0 + limit
    rt.Seen.inlined, rt.Seen.contracted, rt.Seen.external = set(), set(), set()
    out = dict(ob=name, error=None, results=[], gaps=[])
    def body():
        core.C.model_cb = None
        try:
            fn()
        except (core.PathEnd, core.Restart, core.Unsupported): raise
        except RecursionError: raise core.Unsupported('recursion')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            at = [f for f in tb if f.filename.startswith(loader.REPO)]
            where = '%s:%s' % (os.path.relpath(at[-1].filename, loader.REPO), at[-1].lineno) if at else str(tb[-1])
            inner = tb[-1].filename
            # an error in the verifier itself is not one of the program
            if not at or (inner.startswith((HERE, os.path.dirname(HERE))) and isinstance(e, (AttributeError, TypeError, NameError, AssertionError)) and not getattr(e, 'pv_expected', False)) :
                raise core.Unsupported('internal: %r at %s (%s)' % (e, where, '; '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])))
            if not c.feasible(True and __import__('z3').BoolVal(True)): raise core.PathEnd()
            c.prove('raises no exception', False, c.model_cb, '%s: %s at %s' % (type(e).__name__, str(e)[:200], where))
            return
        c.stats.setdefault('covers', set()).add('exit')
    try:
        core.explore(c, body, limit=o.get('paths', 6000))
        if 'exit' not in c.stats.get('covers', ()) and not o.get('noexit') and not any(r['status'] == 'refuted' for r in c.results): out['gaps'].append('%s: no path reaches the end (vacuous)' % name)
        for cv in o.get('covers', ()):
            if cv not in c.stats.get('covers', ()) and not any(r['status'] == 'refuted' for r in c.results): out['gaps'].append('%s: the case "%s" is never reached (vacuous)' % (name, cv))
    except core.Unsupported as e:
        out['error'] = '%s: %s' % (name, e)
    except Exception:
        out['error'] = '%s: %s' % (name, traceback.format_exc()[-1200:])
    merged = {}
    for r in c.results:
        m = merged.setdefault(r['name'], dict(name='%s: %s' % (name, r['name']), status='discharged', n=0, by={}, models=[]))
        m['n'] += 1
        if r['status'] == 'discharged': m['by'][r['by']] = m['by'].get(r['by'], 0) + 1
        elif r['status'] == 'refuted':
            if m['status'] != 'refuted' or r.get('exact'):
                m.update(detail=r.get('detail'), output=r.get('output'), exact=bool(m.get('exact') or r.get('exact')))
            m['status'] = 'refuted'
            if len(m['models']) < 4: m['models'] += r.get('models', [])
            if r.get('model_error'): m['model_error'] = r['model_error']
        elif m['status'] == 'discharged':
            m['status'] = 'unknown'; m['detail'] = r.get('detail')
    out['results'] = list(merged.values())
    if out['error']:
        # what was left is not decided
        out['results'].append(dict(name='%s: all paths' % name, status='unknown', detail=out['error'], models=[], n=1, by={}))
    out['stats'] = {k: (sorted(v) if isinstance(v, set) else v) for k, v in c.stats.items()}
    out['inlined'], out['contracted'], out['external'] = sorted(rt.Seen.inlined), sorted(rt.Seen.contracted), sorted(rt.Seen.external)
    out['wall'] = round(time.time() - t0, 2)
    return out

def main():
    p = argparse.ArgumentParser()
    p.add_argument('id'); p.add_argument('--tier', default='quick'); p.add_argument('-v', action='store_true'); p.add_argument('--only'); p.add_argument('--seq', action='store_true'); p.add_argument('--trace', action='store_true')
    a = p.parse_args(sys.argv[1:]); sys.argv = sys.argv[:1]
    real = os.dup(1)
    if not a.v: os.dup2(2, 1)
    res = dict(obligations=[], gaps=[], error=None, functions=[], trusted=[], assumptions=[], backends={}, solver_s=0, covers=0, paths=0, extraction='')
    try:
        mod = importlib.import_module(a.id)
        todo = [k for k in range(len(pv.OBS)) if (not a.only or a.only in pv.OBS[k][0]) and (a.tier == 'thorough' or not pv.OBS[k][2].get('thorough'))]
        limit = 200 if a.tier == 'quick' else 1500
        if a.trace:
            for n, f, o in pv.OBS: o['trace'] = True
        args = [(k, a.tier, a.v, limit) for k in todo]
        if a.seq or len(args) == 1: outs = [run_ob(x) for x in args]
        else:
            with multiprocessing.get_context('fork').Pool(min(8, len(args)), maxtasksperchild=1) as pool:
                outs = pool.map(run_ob, args, chunksize=1)
        fns, con, ext = set(), set(), set()
        for o in outs:
            if a.v: print('==', o['ob'], o['wall'], 's', o['stats'], 'ERROR %s' % o['error'] if o['error'] else '', o['gaps'])
            for r in o['results']:
                if a.v: print('   %-11s x%d %s %s' % (r['status'], r['n'], r['name'], (r.get('detail') or '')[:300] if r['status'] != 'discharged' else r['by']))
                if a.v and r.get('model_error'): print('   model error', r['model_error'])
                if a.v and r.get('models'): print('   models', r['models'][:2])
                res['obligations'].append(r)
                for b, n in r.get('by', {}).items(): res['backends'][b] = res['backends'].get(b, 0) + n
            res['gaps'] += o['gaps']
            res['solver_s'] += o['stats'].get('solver_s', 0); res['paths'] += o['stats'].get('paths', 0); res['covers'] += len(o['stats'].get('covers', ()))
            fns |= set(o['inlined']); con |= set(o['contracted']); ext |= set(o['external'])
        res['solver_s'] = round(res['solver_s'], 2)
        res['functions'] = sorted(fns | con)
        res['called_against_contract'] = sorted(con)
        res['gaps'] += pv.GAPS
        if not any(r['status'] == 'discharged' for r in res['obligations']): res['gaps'].append('no obligation was discharged')
        res['trusted'] = pv.TRUSTED + ['pyvc (the extraction and its contracts of Python\'s built-ins)', 'z3 5.3.2, cvc5 1.1.2'] + (['run natively on known values: ' + ', '.join(sorted(ext))] if ext else [])
        res['assumptions'] = pv.ASSUMPTIONS
        res['extraction'] = '; '.join('%s: %d functions%s' % (os.path.relpath(i['path'], loader.REPO), i['functions'], ', not run: ' + ' | '.join(i['skipped']) if i['skipped'] else '') for i in loader.INFO.values())
    except core.Unsupported as e:
        res['error'] = 'Unsupported: %s' % e
    except BaseException:
        res['error'] = traceback.format_exc()[-1500:]
    if a.v and res['error']: print(res['error'])
    if a.v: res = dict(obligations=len(res['obligations']), undischarged=[o['name'] for o in res['obligations'] if o['status'] != 'discharged'], gaps=res['gaps'], error=res['error'], solver_s=res['solver_s'])
    sys.stdout.flush()
    os.write(real, (json.dumps(res) + '\n').encode())
if __name__ == '__main__':
    main()
