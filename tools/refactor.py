#!/usr/bin/env python3
"""refactor.py OUT NAME: writes a copy of /repo's package with one behaviour-preserving rewriting applied everywhere
(used during development to look for false alarms; no check uses it)."""
import ast, copy, os, shutil, sys
REPO = '/repo'
cnt = [0]


def fresh(p='tmp'):
    cnt[0] += 1
    return '%s_%d' % (p, cnt[0])


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def is_gen(fn):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn))


class ReturnTemp(ast.NodeTransformer):
    """return E -> result = E; return result"""
    def visit_Lambda(self, n): return n
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        t = fresh('result')
        return [ast.Assign([name(t, ast.Store())], n.value), ast.Return(name(t))]


class InvertIf(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Flip(ast.NodeTransformer):
    OPS = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.OPS:
            return ast.Compare(n.comparators[0], [self.OPS[type(n.ops[0])]()], [n.left])
        return n


class Comp2Loop(ast.NodeTransformer):
    """x = [e for v in xs if c] -> loop with append (statement level)"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1 and len(n.targets) == 1:
            g = n.value.generators[0]
            t = fresh('items')
            ren = {x.id: fresh(x.id) for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            class R(ast.NodeTransformer):
                def visit_Name(s, m):
                    return ast.Name(ren.get(m.id, m.id), m.ctx)
            body = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [R().visit(n.value.elt)], []))]
            for c in reversed(g.ifs):
                body = [ast.If(R().visit(c), body, [])]
            return [ast.Assign([name(t, ast.Store())], ast.List([], ast.Load())),
                    ast.For(R().visit(g.target), g.iter, body, []),
                    ast.Assign(n.targets, name(t))]
        return n


class Rename(ast.NodeTransformer):
    """rename every local variable"""
    def visit_FunctionDef(self, fn):
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        if fn.args.vararg: params.add(fn.args.vararg.arg)
        if fn.args.kwarg: params.add(fn.args.kwarg.arg)
        inner = [x for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal)) and x is not fn]
        if inner:
            return fn
        loc = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        imp = {a.asname or a.name for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        loc -= imp | {a.arg for l in ast.walk(fn) if isinstance(l, ast.Lambda) for a in l.args.args}
        class R(ast.NodeTransformer):
            def visit_Name(s, m):
                return ast.Name('the_' + m.id if m.id in loc else m.id, m.ctx)
        fn.body = [R().visit(s) for s in fn.body]
        return fn


class Impl(ast.NodeTransformer):
    """each method becomes a call of a helper holding its body"""
    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            out.append(f)
            if not isinstance(f, ast.FunctionDef) or f.name.startswith('__') or is_gen(f):
                continue
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' and not x.args for x in ast.walk(f)) and any('classmethod' == getattr(d, 'id', '') for d in f.decorator_list):
                pass
            if any(ast.unparse(d) not in ('property', 'classmethod', 'staticmethod') for d in f.decorator_list) or f.args.vararg or f.args.kwarg:
                continue
            g = copy.deepcopy(f)
            g.name = '_impl_' + f.name
            g.decorator_list = [d for d in f.decorator_list if ast.unparse(d) != 'property']
            g.args.defaults = []
            st = any(ast.unparse(d) == 'staticmethod' for d in f.decorator_list)
            ps = [a.arg for a in f.args.args]
            if st:
                fun = ast.Attribute(name(c.name), g.name, ast.Load())
            else:
                fun = ast.Attribute(name(ps[0]), g.name, ast.Load())
                ps = ps[1:]
            # avoid capture by overriding helpers of subclasses
            g.name = fun.attr = '_impl_%s_%s' % (c.name.lower(), f.name)
            doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
            if [x for x in f.body if x not in doc] and not isinstance(f.body[-1], ast.Raise):
                f.body = doc + [ast.Return(ast.Call(fun, [name(p) for p in ps], []))]
                out.append(g)
        c.body = out
        return c


class ForIndex(ast.NodeTransformer):
    """for x in self.road.vehicles -> index loop (only over attributes named vehicles/objects/controlled_vehicles)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Attribute) and n.iter.attr in ('vehicles', 'objects', 'controlled_vehicles') and isinstance(n.target, ast.Name):
            i = fresh('i')
            n.body.insert(0, ast.Assign([n.target], ast.Subscript(n.iter, name(i), ast.Load())))
            n.target = name(i, ast.Store())
            n.iter = ast.Call(name('range'), [ast.Call(name('len'), [copy.deepcopy(n.body[0].value.value)], [])], [])
        return n


class Ternary2If(ast.NodeTransformer):
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n
    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return n


class SplitAnd(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            b = n.body
            for t in reversed(n.test.values):
                b = [ast.If(t, b, [])]
            return b
        return n


class Hoist(ast.NodeTransformer):
    """first call argument that is itself a call is hoisted into a temporary (statement level, evaluation order kept)"""
    def stmt(self, n, val):
        c = val
        if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)) and c.args and isinstance(c.args[0], (ast.Call, ast.BinOp)) and \
                (isinstance(c.func, ast.Name) or isinstance(c.func.value, ast.Name)) and not (isinstance(c.func, ast.Name) and c.func.id == 'super'):
            t = fresh('arg')
            a = c.args[0]
            c.args[0] = name(t)
            return [ast.Assign([name(t, ast.Store())], a), n]
        return n
    def visit_Assign(self, n): return self.stmt(n, n.value)
    def visit_Return(self, n): return self.stmt(n, n.value)
    def visit_Expr(self, n): return self.stmt(n, n.value)


class NoOp(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.body.insert(1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0, ast.Pass())
        f.body.insert(1, ast.Assign([name('_unused', ast.Store())], ast.Constant(0)))
        return f


class AnyLoop(ast.NodeTransformer):
    """if any(c for x in xs): B -> found flag loop"""
    def visit_If(self, n):
        self.generic_visit(n)
        return n
    def visit_Return(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('any', 'all') and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)) and len(v.args[0].generators) == 1:
            g = v.args[0].generators[0]
            isany = v.func.id == 'any'
            t = v.args[0].elt if isany else ast.UnaryOp(ast.Not(), v.args[0].elt)
            b = [ast.If(t, [ast.Return(ast.Constant(isany))], [])]
            for c in reversed(g.ifs):
                b = [ast.If(c, b, [])]
            return [ast.For(g.target, g.iter, b, []), ast.Return(ast.Constant(not isany))]
        return n


class NpMath(ast.NodeTransformer):
    """np.clip(x, a, b) -> np.minimum(np.maximum(x, a), b); np.power -> **; np.dot kept"""
    def visit_Call(self, n):
        self.generic_visit(n)
        s = ast.unparse(n.func)
        if s == 'np.clip' and len(n.args) == 3:
            return ast.Call(ast.parse('np.minimum', mode='eval').body, [ast.Call(ast.parse('np.maximum', mode='eval').body, n.args[:2], []), n.args[2]], [])
        if s == 'np.power' and len(n.args) == 2:
            return ast.BinOp(n.args[0], ast.Pow(), n.args[1])
        if s == 'np.array' and False:
            return n
        return n


class Comm(ast.NodeTransformer):
    """a + b -> b + a, a * b -> b * a for non-string non-list operands without calls"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Mult,)) and not any(isinstance(x, (ast.Call, ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)):
            return ast.BinOp(n.right, n.op, n.left)
        return n


class ElifNest(ast.NodeTransformer):
    """if c: return A  else: B  -> if c: return A;  B"""
    def body(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Raise)):
                o, s.orelse = s.orelse, []
                out += [s] + self.body(o)
            else:
                out.append(s)
        return out
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse'):
            if isinstance(getattr(n, f, None), list):
                setattr(n, f, self.body(getattr(n, f)))
        return n


class ReturnElse(ast.NodeTransformer):
    """if c: return A ; rest -> if c: return A else: rest"""
    def visit_FunctionDef(self, f):
        def go(b):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Return) and b[i + 1:]:
                    s.orelse = go(b[i + 1:])
                    return b[:i + 1]
            return b
        f.body = go(f.body)
        return f


class AugAssign(ast.NodeTransformer):
    """local numeric accumulators only: x += e -> x = x + e where x was assigned a number constant in the function"""
    def visit_FunctionDef(self, f):
        nums = {t.id for s in ast.walk(f) if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)) for t in s.targets if isinstance(t, ast.Name)}
        class A(ast.NodeTransformer):
            def visit_AugAssign(s, n):
                if isinstance(n.target, ast.Name) and n.target.id in nums:
                    return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op, n.value))
                return n
        return A().visit(f)


class Keyword(ast.NodeTransformer):
    """literal dict(a=1) <-> {'a': 1}; str.format -> f-string; 'is not None' kept"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'dict' and not n.args and n.keywords and all(k.arg for k in n.keywords):
            return ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords])
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            parts = n.func.value.value.split('{}')
            if len(parts) == len(n.args) + 1 and not n.keywords:
                vs = []
                for i, p in enumerate(parts):
                    if p: vs.append(ast.Constant(p))
                    if i < len(n.args): vs.append(ast.FormattedValue(n.args[i], -1, None))
                return ast.JoinedStr(vs)
        return n


class Unpack(ast.NodeTransformer):
    """a, b = E1, E2 -> separate; lane_index[2] untouched; a, b = call -> t = call; a = t[0]; b = t[1]"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Call) and not any(isinstance(e, ast.Starred) for e in n.targets[0].elts):
            t = fresh('pair')
            return [ast.Assign([name(t, ast.Store())], n.value)] + \
                [ast.Assign([e], ast.Subscript(name(t), ast.Constant(i), ast.Load())) for i, e in enumerate(n.targets[0].elts)]
        return n


class SelfAlias(ast.NodeTransformer):
    """road = self.road (etc.) alias at the top of methods that never store the attribute"""
    def visit_FunctionDef(self, f):
        if not f.args.args or f.args.args[0].arg != 'self' or f.name == '__init__':
            return f
        stores = {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
        uses = [x for x in ast.walk(f) if isinstance(x, ast.Attribute) and x.attr == 'config' and isinstance(x.value, ast.Name) and x.value.id == 'self' and isinstance(x.ctx, ast.Load)]
        if 'config' in stores or len(uses) < 2 or any(isinstance(x, ast.Call) and ast.unparse(x.func) in ('self.configure',) for x in ast.walk(f)):
            return f
        class R(ast.NodeTransformer):
            def visit_Attribute(s, n):
                s.generic_visit(n)
                if n.attr == 'config' and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load):
                    return name('cfg')
                return n
        b = [R().visit(s) for s in f.body]
        f.body = [ast.parse('cfg = self.config').body[0]] + b
        return f


class SwapStmts(ast.NodeTransformer):
    """swap adjacent assignments of call-free expressions to distinct locals"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        def ok(s):
            return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                not any(isinstance(x, (ast.Call, ast.Yield, ast.NamedExpr)) for x in ast.walk(s))
        def go(b):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if ok(s) and ok(t):
                    a, c = s.targets[0].id, t.targets[0].id
                    if a != c and not any(isinstance(x, ast.Name) and x.id == a for x in ast.walk(t.value)) and not any(isinstance(x, ast.Name) and x.id == c for x in ast.walk(s.value)):
                        b[i], b[i + 1] = t, s
                        i += 2
                        continue
                i += 1
        for x in ast.walk(f):
            for fld in ('body', 'orelse'):
                if isinstance(getattr(x, fld, None), list):
                    go(getattr(x, fld))
        return f


class Inline(ast.NodeTransformer):
    """inline locals assigned once from call-free expressions of names/attributes and used once in the next statement"""
    def visit_FunctionDef(self, f):
        for blk in [getattr(x, fl) for x in ast.walk(f) for fl in ('body', 'orelse') if isinstance(getattr(x, fl, None), list)]:
            i = 0
            while i + 1 < len(blk):
                s, t = blk[i], blk[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, (ast.Assign, ast.Return, ast.Expr)):
                    v = s.targets[0].id
                    uses = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == v]
                    here = [x for x in ast.walk(t.value) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)] if t.value is not None else []
                    bad = any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.IfExp, ast.BoolOp)) for x in ast.walk(t))
                    tc = [x for x in ast.walk(t.value) if isinstance(x, ast.Call)] if t.value is not None else []
                    calls = any(isinstance(x, ast.Call) for x in ast.walk(s.value))
                    if len(uses) == 2 and len(here) == 1 and not bad and (not calls or len(tc) == 0):
                        class R(ast.NodeTransformer):
                            def visit_Name(q, m):
                                return s.value if m.id == v and isinstance(m.ctx, ast.Load) else m
                        blk[i + 1] = R().visit(t)
                        del blk[i]
                        continue
                i += 1
        return f


class ModFunc(ast.NodeTransformer):
    """static helper extraction: every `return` arithmetic expression of two or more names moves to a module function"""
    def visit_Module(self, m):
        new = []
        class R(ast.NodeTransformer):
            def visit_Lambda(s, n): return n
            def visit_ListComp(s, n): return n
            visit_GeneratorExp = visit_DictComp = visit_ListComp
            def visit_FunctionDef(s, f):
                loc = {a.arg for a in f.args.args} | {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                class Q(ast.NodeTransformer):
                    def visit_Assign(q, n):
                        if isinstance(n.value, ast.BinOp) and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Await, ast.Yield)) or isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'super' or isinstance(x, ast.Attribute) and x.attr.startswith('__') for x in ast.walk(n.value)):
                            used = sorted({x.id for x in ast.walk(n.value) if isinstance(x, ast.Name) and x.id in loc})
                            h = fresh('_compute')
                            new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, []), [ast.Return(n.value)], []))
                            n.value = ast.Call(name(h), [name(u) for u in used], [])
                        return n
                f.body = [Q().visit(x) for x in f.body]
                return f
        R().visit(m)
        i = max([k for k, x in enumerate(m.body) if isinstance(x, (ast.Import, ast.ImportFrom))] + [-1]) + 1
        m.body[i:i] = new
        return m


class WhileLoop(ast.NodeTransformer):
    """for i in range(n): B (no continue) -> i = 0; while i < n: B; i += 1"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) and not n.orelse \
                and not any(isinstance(x, ast.Continue) for x in ast.walk(n)) and not any(isinstance(x, ast.Call) for x in ast.walk(n.iter.args[0])):
            i = fresh('k')
            return [ast.Assign([name(i, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [n.iter.args[0]]),
                              [ast.Assign([n.target], name(i))] + n.body + [ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return n


ALL = {c.__name__: c for c in (ReturnTemp, InvertIf, Flip, Comp2Loop, Rename, Impl, ForIndex, Ternary2If, SplitAnd, Hoist, NoOp,
                               AnyLoop, NpMath, Comm, ElifNest, ReturnElse, AugAssign, Keyword, Unpack, SelfAlias, SwapStmts, Inline,
                               ModFunc, WhileLoop)}


def main():
    out, nm = sys.argv[1:3]
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    shutil.copytree(os.path.join(REPO, 'highway_env'), os.path.join(out, 'highway_env'), ignore=shutil.ignore_patterns('__pycache__'))
    for d in ('tests', 'setup.py', 'setup.cfg'):
        s = os.path.join(REPO, d)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(out, d))
        elif os.path.exists(s):
            shutil.copy(s, out)
    for d, _, fs in os.walk(os.path.join(out, 'highway_env')):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                t = ast.parse(open(p).read())
                for n in nm.split('+'):
                    t = ALL[n]().visit(t)
                    ast.fix_missing_locations(t)
                open(p, 'w').write(ast.unparse(t) + '\n')


if __name__ == '__main__':
    main()
