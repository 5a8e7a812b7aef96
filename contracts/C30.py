"""fontmatch.match1: the result of the first rule all of whose conditions hold."""
import ast
from pv import *
ASSUMPTIONS += ["the tag is given as a tag, not as text to be parsed by the langtag package", "conditions are on script, language and region (scr, lang, reg), as text or as a list of texts"]
m = load('fontmatch', loader.REPO + '/scripts/fontmatch', lambda st: isinstance(st, (ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Assign)) and not 'parse' in ast.unparse(st))
FIELD = {'scr': 'script', 'lang': 'lang', 'reg': 'region'}
class Tag: pass
def tag():
    t = Tag()
    for x in FIELD.values(): object.__setattr__(t, x, Lazy(lambda x=x: pick(None, newstr(x, None, 1))))
    return t
def allowed(): return newstr('value', None, 1) if pick(0, 1) else SList(ps=[Seg('allowed', 'list', lambda h: newstr(h, None, 1))])
def holds(k, v, t):
    """what the statement says of one condition"""
    x = rt.getattr_(t, FIELD[k])
    if isinstance(v, SList): return rt.contains(v, x)
    return False if x is None else rt.eq(x, v)
def rule(where, t, matches=False):
    def val(k):
        v = allowed()
        if matches: assume(holds(k, v, t))
        return v
    match = SMap.opaque_('match', lambda h: pick(*FIELD), val)
    r = SMap({'match': match, 'result': Atom('result')})
    r.match, r.where = match, where
    core.C.facts.setdefault('rules', []).append(r)
    return r
def start(*parts):
    t = tag()
    ps = [Seg(p, 'list', lambda h, p=p: rule(p, t)) if p != 'this' else rule(p, t, True) for p in parts]
    def case(mm):
        names = {}
        f = lambda s: None if s is None or isinstance(s, Lazy) else names.setdefault(conc(s, mm), 'Abcdefgh'[len(names)] if len(names) < 8 else 'z')
        val = lambda v: [f(x) for x in [y for y, e in v.ps[0].memo.get('asked', ()) if y is not None and z3.is_true(mm.eval(e, model_completion=True))]] if isinstance(v, SList) else f(v)
        return [[[{k: val(v) for k, v in r.match.known()}, 'r%d' % i] for i, r in enumerate(core.C.facts.get('rules', ()))], [f(t.script), f(t.lang), f(t.region)]]
    inputs(case=case)
    return SList(ps=ps), t
def of(r): return [x for x in core.C.facts.get('rules', ()) if x.ups[1][1] is r]
@ob('what is returned', covers=['some', 'none'])
def _():
    K = pick(*FIELD)
    core.C.focus = [(K, lambda o: isinstance(o, SMap) and any(o is r.match for r in core.C.facts.get('rules', ())))]
    rules, t = start('rules')
    r = call(m.match1, rules, t)
    if r is None: cover('none'); return
    cover('some')
    mine = of(r)
    prove('the result is that of a rule', len(mine) == 1)
    if len(mine) == 1:
        v = mine[0].match.look(K)
        prove('each condition of the rule holds', True if v is ABSENT else holds(K, v, t))
@ob('a rule that matches', covers=['this', 'before'])
def _():
    rules, t = start('before', 'this', 'after')
    r = call(m.match1, rules, t)
    prove('there is a result', r is not None)
    mine = of(r)
    prove('the result is that of the rule or of an earlier one', len(mine) == 1 and mine[0].where != 'after')
    if mine: cover(mine[0].where)
@ob('the rules and the tag are left alone')
def _():
    rules, t = start('rules')
    before, vt = list(rules.ps), dict(vars(t))
    call(m.match1, rules, t)
    prove('the tag keeps its parts', all(vars(t)[k] is v or isinstance(v, Lazy) for k, v in vt.items()) and len(vars(t)) == len(vt))
    prove('the rules are left alone', rt.listeq(rules, SList(ps=before)))
    prove('the rules looked at keep their conditions', all([k for k, v in x.native_items()] == ['match', 'result'] and not x.match.ups for x in core.C.facts.get('rules', ())))
