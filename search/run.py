#!/usr/bin/env python3
"""run.py Cxx [--tier t] [--seed n] [--budget s] [--models file] [--replay file] -> JSON on the last line"""
import argparse, json, sys, os, importlib, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import base
def load():
    for f in sorted(glob.glob(os.path.join(base.HERE, 'g_*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])
def main():
    p = argparse.ArgumentParser()
    p.add_argument('id'); p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    p.add_argument('--budget', type=float); p.add_argument('--models'); p.add_argument('--replay')
    a = p.parse_args()
    real = os.dup(1); os.dup2(2, 1)          # what the library prints is not a result
    load()
    if a.replay:
        case = json.load(open(a.replay))['case']
        prop = base.REG[a.id](); prop.setup()
        msg = base.run_one(prop, case)
        os.write(real, (('FAILS: %s\n' % msg if msg else 'HOLDS on this input\n')).encode('utf-8', 'backslashreplace'))
        return 1 if msg else 0
    models = json.load(open(a.models)) if a.models else []
    res = base.search(a.id, a.tier, a.seed, a.budget or (240 if a.tier == 'thorough' else 12), models)
    os.write(real, (json.dumps(res) + '\n').encode())
    return 0
if __name__ == '__main__':
    sys.exit(main())
