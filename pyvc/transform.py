"""Mechanical extraction: /repo's source text -> the same program over pyvc values.

Every statement and expression of the source is kept; operations Python
dispatches on built-in types (calls, subscripts, membership, identity,
equality, displays, formatting, loops, attribute access) go through the runtime
rt, which does on known values what Python does and on symbolic values what the
trusted contracts of the built-ins say.  Dropped: type annotations, docstrings."""
import ast, copy

def deadnames(tree):
    """for each loop, the names it stores whose value at the loop head is never read (node._dead)"""
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)): Live(fn)
def loads(n):
    """the names read in n: a deletion and an augmented assignment read too"""
    r = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)}
    return r | {x.target.id for x in ast.walk(n) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
class Live:
    """which names of a function are read later, backwards through its statements"""
    def __init__(self, fn):
        keep = set()        # names that outlive the function, or that something else may read
        for n in ast.walk(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)): keep.update(n.names)
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)): keep.update(x.id for x in ast.walk(n) if isinstance(x, ast.Name))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars', 'eval', 'exec'): return
        self.heads = {}
        none = frozenset()
        self.block(fn.body, none, (none, none, none, none))
        for loop, head in self.heads.items():
            stored = {x.id for x in ast.walk(loop) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            loop._dead = stored - head - keep
    def block(self, stmts, out, to):
        for st in reversed(stmts): out = self.stmt(st, out, to)
        return out
    def stmt(self, st, out, to):
        """the names live before st, of those live after it and where it may jump to: (break, continue, return, raise)"""
        brk, cont, ret, exc = to
        def names(t):
            if isinstance(t, ast.Name): return {t.id}
            if isinstance(t, (ast.Tuple, ast.List)): return set().union(*map(names, t.elts)) if t.elts else set()
            if isinstance(t, ast.Starred): return names(t.value)
            return set()
        if isinstance(st, ast.Assign): r = (out - set().union(*map(names, st.targets))) | loads(st)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            end = self.block(st.orelse, out, to)
            head = end
            while True:
                r = head | end | (self.block(st.body, head, (out, head, ret, exc)) - names(st.target)) | loads(st.target)
                if r == head: break
                head = r
            self.heads[st] = head
            r = head | loads(st.iter)
        elif isinstance(st, ast.While):
            head = self.block(st.orelse, out, to) | loads(st.test)
            while True:
                r = head | self.block(st.body, head, (out, head, ret, exc))
                if r == head: break
                head = r
            self.heads[st] = head
            r = head
        elif isinstance(st, ast.If): r = self.block(st.body, out, to) | self.block(st.orelse, out, to) | loads(st.test)
        elif type(st).__name__ in ('Try', 'TryStar'):
            last = set().union(*map(loads, st.finalbody)) if st.finalbody else frozenset()
            to = tuple(x | last for x in to)
            end = self.block(st.finalbody, out, to)
            h = to[3]
            for c in st.handlers: h = h | (self.block(c.body, end, to) - {c.name}) | (loads(c.type) if c.type else frozenset())
            r = self.block(st.body, self.block(st.orelse, end, to), to[:3] + (h,)) | h
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            r = self.block(st.body, out, to[:3] + (exc | out,)) | out
            for x in st.items: r = r | loads(x)
        elif isinstance(st, ast.Return): r = ret | (loads(st.value) if st.value else frozenset())
        elif isinstance(st, ast.Raise): r = exc | loads(st)
        elif isinstance(st, ast.Break): r = brk
        elif isinstance(st, ast.Continue): r = cont
        elif type(st).__name__ == 'Match':
            r = out | loads(st)
            for c in st.cases: r = r | self.block(c.body, out, to)
        else: r = out | loads(st)
        return frozenset(r | exc)
PURE = (ast.Name, ast.Attribute, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Load, ast.cmpop, ast.boolop, ast.Not)
class T(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.stack = []
        self.n = {}
        self.dead = {}
        self.loops = {}         # loop id -> names stored in the body
    def rt(self, name, *args, keywords=(), at=None):
        c = ast.Call(ast.Attribute(ast.Name('_pv_rt', ast.Load()), name, ast.Load()), list(args), list(keywords))
        return ast.copy_location(c, at) if at is not None else c
    def const(self, v): return ast.Constant(v)
    def lid(self, node):
        q = self.fname + ':' + '.'.join(self.stack)
        self.n[q] = self.n.get(q, 0) + 1
        i = '%s#%d' % (q, self.n[q])
        names, nest = set(), set()
        def walk(n):
            for m in ast.iter_child_nodes(n):
                if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Store, ast.Del)): names.add(m.id)
                if isinstance(m, (ast.Nonlocal, ast.Global)): pass
                if isinstance(m, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    if not isinstance(m, ast.Lambda): names.add(m.name)
                    for x in ast.walk(m):
                        if isinstance(x, ast.Nonlocal): names.update(x.names)
                    continue
                if isinstance(m, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): continue
                if isinstance(m, ast.ExceptHandler) and m.name: names.add(m.name)
                walk(m)
        if isinstance(node, ast.For):
            for x in ast.walk(node.target):
                if isinstance(x, ast.Name): names.add(x.id)
        for s in node.body: walk(ast.Module([s], []))
        if isinstance(node, ast.While): walk(ast.Module([ast.Expr(node.test)], []))
        self.loops[i] = sorted(names)
        self.dead[i] = getattr(node, '_dead', set())
        return i
    # ---- definitions
    def func(self, node):
        self.stack.append(node.name)
        self.infunc += 1
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs: a.annotation = None
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str) and len(node.body) > 1:
            node.body = node.body[1:]
        node.body = self.block(node.body)
        node.decorator_list = [d if isinstance(d, ast.Name) else self.visit(d) for d in node.decorator_list]
        self.stack.pop()
        self.infunc -= 1
        return node
    visit_FunctionDef = func
    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = self.block(node.body)
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        self.stack.pop()
        return node
    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list): out.extend(r)
            elif r is not None: out.append(r)
        return out or [ast.Pass()]
    def visit_Module(self, node):
        node.body = self.block(node.body)
        return node
    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.body = self.visit(node.body)
        return node
    def visit_AnnAssign(self, node):
        if node.value is None: return None
        return ast.copy_location(self.visit(ast.copy_location(ast.Assign([node.target], node.value), node)), node)
    # ---- loops
    def visit_For(self, node):
        i = self.lid(node)
        node.iter = self.rt('loop', self.const(i), self.visit(node.iter), at=node)
        pre = []
        if not isinstance(node.target, ast.Name):
            tmp = '_pv_t%d' % (len(self.loops))
            pre = [self.assign(node.target, ast.Name(tmp, ast.Load()), node)]
            node.target = ast.Name(tmp, ast.Store())
        node.body = pre + self.block(node.body)
        node.orelse = self.block(node.orelse) if node.orelse else []
        return node
    def visit_While(self, node):
        i = self.lid(node)
        w = '_pv_w%d' % len(self.loops)
        begin = ast.Assign([ast.Name(w, ast.Store())], self.rt('wloop', self.const(i)))
        node.test = ast.BoolOp(ast.And(), [ast.Call(ast.Name(w, ast.Load()), [], []), self.visit(node.test)])
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse) if node.orelse else []
        return [ast.copy_location(begin, node), node]
    # ---- choices between plain attribute values: both at once where both may happen
    def visit_If(self, node):
        conv = self.convertible(node)
        if conv is not None:
            conv = [ast.Tuple([self.lam(self.spec(t)), ast.Tuple([ast.Tuple([self.lam(self.visit(o)), self.const(a), self.lam(self.visit(v))], ast.Load()) for o, a, v in sts], ast.Load())], ast.Load()) for t, sts in conv]
        node.test = self.visit(node.test)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse) if node.orelse else []
        if conv is None: return node
        return ast.copy_location(ast.If(self.rt('ifconv', *conv), [ast.Pass()], [node]), node)
    def lam(self, e): return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
    def spec(self, e):
        if isinstance(e, ast.BoolOp): return self.rt('boolop', self.const(type(e.op).__name__), *[self.lam(self.spec(v)) for v in e.values])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return self.rt('bnot', self.spec(e.operand))
        return self.visit(e)
    def convertible(self, node):
        out = []
        if self.cls_level(): return None
        while True:
            if not all(isinstance(x, PURE) for x in ast.walk(node.test)): return None
            sts = []
            for st in node.body:
                if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute)): return None
                if not all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.expr_context)) for y in (st.targets[0], st.value) for x in ast.walk(y)): return None
                sts.append((copy.deepcopy(st.targets[0].value), st.targets[0].attr, copy.deepcopy(st.value)))
            out.append((copy.deepcopy(node.test), sts))
            if len(sts) != 1: return None
            if not node.orelse: return out
            if len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If): node = node.orelse[0]; continue
            return None
    def cls_level(self): return not self.infunc
    infunc = 0
    # ---- assignment
    def assign(self, target, value, at):
        """statement that stores an (already visited) value in an unvisited target"""
        if isinstance(target, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            val = self.rt('unpack', value, self.const(len(target.elts)), self.const(star[0] if star else -1))
            elts, post = [], []
            for e in target.elts:
                x = e.value if isinstance(e, ast.Starred) else e
                if isinstance(x, ast.Name): elts.append(ast.Name(x.id, ast.Store()))
                else:
                    tmp = '_pv_u%d' % id(x)
                    elts.append(ast.Name(tmp, ast.Store()))
                    post.append(self.assign(x, ast.Name(tmp, ast.Load()), at))
            st = ast.Assign([ast.Tuple(elts, ast.Store())], val)
            if not post: return ast.copy_location(st, at)
            return ast.copy_location(ast.If(self.const(True), [ast.copy_location(st, at)] + post, []), at)
        if isinstance(target, ast.Attribute):
            return ast.copy_location(ast.Expr(self.rt('setattr_', self.visit(target.value), self.const(target.attr), value)), at)
        if isinstance(target, ast.Subscript):
            return ast.copy_location(ast.Expr(self.rt('setitem', self.visit(target.value), self.slice(target.slice), value)), at)
        return ast.copy_location(ast.Assign([target], value), at)
    def visit_Assign(self, node):
        v = self.visit(node.value)
        if len(node.targets) == 1: return self.assign(node.targets[0], v, node)
        tmp = '_pv_a%d' % id(node)
        return [ast.copy_location(ast.Assign([ast.Name(tmp, ast.Store())], v), node)] + [self.assign(t, ast.Name(tmp, ast.Load()), node) for t in node.targets]
    def visit_AugAssign(self, node):
        op = self.const(type(node.op).__name__)
        t = node.target
        v = self.visit(node.value)
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign([t], self.rt('iop', op, ast.Name(t.id, ast.Load()), v)), node)
        o, k = '_pv_o%d' % id(node), '_pv_k%d' % id(node)
        if isinstance(t, ast.Attribute):
            return [ast.copy_location(ast.Assign([ast.Name(o, ast.Store())], self.visit(t.value)), node),
                    ast.copy_location(ast.Expr(self.rt('setattr_', ast.Name(o, ast.Load()), self.const(t.attr), self.rt('iop', op, self.rt('getattr_', ast.Name(o, ast.Load()), self.const(t.attr)), v))), node)]
        return [ast.copy_location(ast.Assign([ast.Name(o, ast.Store())], self.visit(t.value)), node),
                ast.copy_location(ast.Assign([ast.Name(k, ast.Store())], self.slice(t.slice)), node),
                ast.copy_location(ast.Expr(self.rt('setitem', ast.Name(o, ast.Load()), ast.Name(k, ast.Load()), self.rt('iop', op, self.rt('getitem', ast.Name(o, ast.Load()), ast.Name(k, ast.Load())), v))), node)]
    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript): out.append(ast.copy_location(ast.Expr(self.rt('delitem', self.visit(t.value), self.slice(t.slice))), node))
            elif isinstance(t, ast.Attribute): out.append(ast.copy_location(ast.Expr(self.rt('delattr_', self.visit(t.value), self.const(t.attr))), node))
            else: out.append(ast.copy_location(ast.Delete([t]), node))
        return out
    # ---- expressions
    def slice(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(ast.Name('slice', ast.Load()), [self.visit(x) if x is not None else self.const(None) for x in (s.lower, s.upper, s.step)], [])
        return self.visit(s)
    def visit_Subscript(self, node):
        return self.rt('getitem', self.visit(node.value), self.slice(node.slice), at=node)
    def visit_Attribute(self, node):
        return self.rt('getattr_', self.visit(node.value), self.const(node.attr), at=node)
    def visit_Call(self, node):
        args = []
        for a in node.args:
            args.append(ast.Starred(self.rt('spread', self.visit(a.value)), ast.Load()) if isinstance(a, ast.Starred) else self.visit(a))
        kws = [ast.keyword(k.arg, self.visit(k.value) if k.arg else self.rt('spreadkw', self.visit(k.value))) for k in node.keywords]
        f = node.func
        if isinstance(f, ast.Name) and f.id == 'super': return ast.copy_location(ast.Call(f, args, kws), node)
        if isinstance(f, ast.Name) and f.id in ('locals', 'globals', 'vars'): return ast.copy_location(ast.Call(f, args, kws), node)
        if isinstance(f, ast.Attribute):
            return self.rt('meth', self.visit(f.value), self.const(f.attr), *args, keywords=kws, at=node)
        return self.rt('call', self.visit(f), *args, keywords=kws, at=node)
    OPS = {ast.In: 'contains', ast.NotIn: 'notcontains', ast.Is: 'is_', ast.IsNot: 'isnot', ast.Eq: 'eq', ast.NotEq: 'ne',
           ast.Lt: 'lt', ast.Gt: 'gt', ast.LtE: 'le', ast.GtE: 'ge'}
    def visit_Compare(self, node):
        left = self.visit(node.left)
        if len(node.ops) == 1: return self.cmp1(node.ops[0], left, self.visit(node.comparators[0]), node)
        # a < b < c : b once
        rights = [self.visit(c) for c in node.comparators]
        vals, cur = [], left
        for k, (op, r) in enumerate(zip(node.ops, rights)):
            if k < len(rights) - 1 and not isinstance(r, (ast.Name, ast.Constant)):
                tmp = '_pv_c%d_%d' % (id(node), k)
                r = ast.NamedExpr(ast.Name(tmp, ast.Store()), r)
                vals.append(self.cmp1(op, cur, r, node)); cur = ast.Name(tmp, ast.Load())
            else:
                vals.append(self.cmp1(op, cur, r, node)); cur = ast.Name(r.id, ast.Load()) if isinstance(r, ast.Name) else r
        return ast.copy_location(ast.BoolOp(ast.And(), vals), node)
    def cmp1(self, op, l, r, at):
        if isinstance(op, (ast.In, ast.NotIn)): return self.rt(self.OPS[type(op)], r, l, at=at)
        return self.rt(self.OPS[type(op)], l, r, at=at)
    def visit_BinOp(self, node):
        l, r = self.visit(node.left), self.visit(node.right)
        return self.rt('binop', self.const(type(node.op).__name__), l, r, at=node)
    def visit_UnaryOp(self, node):
        node.operand = self.visit(node.operand)
        if isinstance(node.op, ast.Not): return self.rt('not_', node.operand, at=node)
        return node
    def visit_List(self, node):
        if isinstance(node.ctx, ast.Load): return self.rt('mklist', ast.Tuple([ast.Starred(self.rt('spread', self.visit(e.value)), ast.Load()) if isinstance(e, ast.Starred) else self.visit(e) for e in node.elts], ast.Load()), at=node)
        return node
    def visit_Set(self, node):
        return self.rt('mkset', ast.Tuple([self.visit(e) for e in node.elts], ast.Load()), at=node)
    def visit_Dict(self, node):
        return self.rt('mkdict', *[self.rt('none') if k is None and False else ast.Tuple([self.visit(k) if k is not None else self.const(None), self.visit(v), self.const(k is None)], ast.Load()) for k, v in zip(node.keys, node.values)], at=node)
    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                parts.append(ast.Tuple([self.visit(v.value), self.const(v.conversion), self.visit(v.format_spec) if v.format_spec is not None else self.const('')], ast.Load()))
        return self.rt('fstring', *parts, at=node)
    def comp(self, kind, node, elt):
        """comprehension -> nested native loops over rt.citer, or rt.comp for one generator"""
        gens = node.generators
        if len(gens) == 1:
            g = gens[0]
            def lam(body):
                if isinstance(g.target, ast.Name):
                    return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), body)
                names = [e.id for e in g.target.elts if isinstance(e, ast.Name)] if isinstance(g.target, (ast.Tuple, ast.List)) else []
                if len(names) == len(getattr(g.target, 'elts', [0, 0])) and names:
                    inner = ast.Lambda(ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), body)
                    return ast.Lambda(ast.arguments([], [ast.arg('_pv_t')], None, [], [], None, []),
                                      ast.Call(inner, [ast.Starred(self.rt('unpack', ast.Name('_pv_t', ast.Load()), self.const(len(names)), self.const(-1)), ast.Load())], []))
                return None
            l = lam(self.visit(elt))
            if l is not None:
                cond = self.const(None)
                if g.ifs:
                    cs = [self.visit(c) for c in g.ifs]
                    cond = lam(cs[0] if len(cs) == 1 else ast.BoolOp(ast.And(), cs))
                return self.rt('comp', self.const(kind), l, cond, self.visit(g.iter), at=node)
        new = []
        for g in gens:
            new.append(ast.comprehension(g.target, self.rt('citer', self.visit(g.iter)), [self.visit(c) for c in g.ifs], 0))
        ge = ast.GeneratorExp(self.visit(elt) if not getattr(elt, '_seen', False) else elt, new)
        return self.rt('compnative', self.const(kind), ge, at=node)
    def visit_ListComp(self, node): return self.comp('list', node, node.elt)
    def visit_SetComp(self, node): return self.comp('set', node, node.elt)
    def visit_GeneratorExp(self, node): return self.comp('gen', node, node.elt)
    def visit_DictComp(self, node): return self.comp('dict', node, ast.Tuple([node.key, node.value], ast.Load()))
    # ---- imports
    def visit_Import(self, node):
        out = []
        for a in node.names:
            n = a.asname or a.name.split('.')[0]
            out.append(ast.copy_location(ast.Assign([ast.Name(n, ast.Store())], self.rt('import_', self.const(a.name), self.const(bool(a.asname)), self.const(0), self.const(None), ast.Name('__name__', ast.Load()))), node))
        return out
    def visit_ImportFrom(self, node):
        out = []
        for a in node.names:
            if a.name == '*': out.append(ast.copy_location(ast.Expr(self.rt('importstar', self.const(node.module))), node)); continue
            out.append(ast.copy_location(ast.Assign([ast.Name(a.asname or a.name, ast.Store())], self.rt('import_', self.const(node.module), self.const(True), self.const(node.level), self.const(a.name), ast.Name('__name__', ast.Load()))), node))
        return out
    def visit_Global(self, node): return node
    def visit_Assert(self, node):
        return ast.copy_location(ast.If(ast.UnaryOp(ast.Not(), self.visit(node.test)), [ast.copy_location(ast.Raise(ast.Call(ast.Name('AssertionError', ast.Load()), [], []), None), node)], []), node)
    def visit_ExceptHandler(self, node):
        if node.type is None: node.type = ast.Name('Exception', ast.Load())
        elif not isinstance(node.type, (ast.Name, ast.Tuple)): node.type = self.visit(node.type)
        node.body = self.block(node.body)
        return node
    def visit_Raise(self, node):
        node.exc = self.visit(node.exc) if node.exc is not None else None
        if node.cause is not None: node.cause = self.visit(node.cause)
        return node

def transform(src, fname):
    tree = ast.parse(src)
    deadnames(tree)
    t = T(fname)
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    DEAD.update(t.dead)
    return tree, t.loops
DEAD = {}
