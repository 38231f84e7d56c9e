"""Type facts read off annotations and constructors, boolean fields, and syntactic read/write sets of functions."""
import ast
from .front import Class, Func, Module
from .gvn import MUTATORS, RNG, PURE_METHODS


class Types(object):
    def __init__(self, prog, fields=None, rets=None, bools=None, syms=None):
        self.p = prog
        self.fields, self.rets, self.syms = {}, {}, {}
        self.voids = {}
        self.boolfields, self.written = set(), set()
        self.value_classes = set()
        self._eff = {}
        self._collect()
        for k, v in (fields or {}).items():
            self.put(self.fields, k, v)
        for k, v in (rets or {}).items():
            self.put(self.rets, k, v)
        for k, v in (bools or {}).items():
            (self.boolfields.add if v else self.boolfields.discard)(k)
        self.base_syms = dict(syms or {})

    def fresh(self):
        self.syms = dict(self.base_syms)
        return self

    def put(self, d, k, v):
        """the type recorded for the pinned package wins over what the current annotations say"""
        v = self.decode(v)
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v

    def decode(self, x):
        """type recorded in the baseline"""
        if isinstance(x, str) and x.startswith('C:'):
            return self.p.classes.get(x[2:])
        if isinstance(x, list):
            return (x[0], tuple(self.decode(y) for y in x[1]) if isinstance(x[1], list) and x[0] == 'tuple'
                    else self.decode(x[1]))
        return x

    def ann(self, m, e):
        """annotation -> type"""
        if e is None:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(e, ast.Constant):
            return None
        if isinstance(e, ast.Subscript):
            h = e.value.attr if isinstance(e.value, ast.Attribute) else e.value.id if isinstance(e.value, ast.Name) else ''
            sl = e.slice.value if isinstance(e.slice, ast.Index) else e.slice
            if h == 'Optional':
                return self.ann(m, sl)
            if h in ('List', 'Sequence', 'Iterable', 'list', 'Deque'):
                return ('list', self.ann(m, sl))
            if h in ('Tuple', 'tuple') and isinstance(sl, ast.Tuple):
                return ('tuple', tuple(self.ann(m, x) for x in sl.elts))
            if h in ('Dict', 'dict'):
                return 'dict'
            if h == 'Union' and isinstance(sl, ast.Tuple):
                ts = [self.ann(m, x) for x in sl.elts]
                if all(isinstance(t, Class) for t in ts):
                    return 'obj'
                return None
            return None
        if isinstance(e, ast.Name) and e.id in ('float', 'int'):
            return 'num'
        if isinstance(e, ast.Name) and e.id in ('bool', 'str', 'dict'):
            return e.id
        if isinstance(e, (ast.Name, ast.Attribute)):
            nm = e.id if isinstance(e, ast.Name) else e.attr
            if nm == 'Vector':
                return 'arr'
            r = self.p.resolve_expr(m, e)
            if isinstance(r, Class):
                return r
            if isinstance(r, tuple) and r[0] == 'const':
                # type alias
                return self.ann(r[1], r[1].consts[r[2]])
            if nm in self.p.classes:
                return self.p.classes[nm]
            if nm == 'ndarray':
                return 'arr'
        return None

    def _collect(self):
        p = self.p
        cand, bools, nonbool = {}, set(), set()
        rets = {}
        for m in p.modules.values():
            for c in m.classes.values():
                for f, a in c.ann.items():
                    t = self.ann(m, a)
                    cand.setdefault(f, []).append(t)
        for fn in p.all_funcs():
            params = {x.arg: self.ann(fn.module, x.annotation) for x in fn.node.args.args}
            if fn.node.returns is not None:
                rets.setdefault(fn.name, []).append(self.ann(fn.module, fn.node.returns))
                if fn.is_property:
                    cand.setdefault(fn.name, []).append(self.ann(fn.module, fn.node.returns))
            for x in ast.walk(fn.node):
                tg = []
                if isinstance(x, ast.Assign):
                    tg = [(t, x.value) for t in x.targets]
                elif isinstance(x, ast.AnnAssign) and x.value is not None:
                    tg = [(x.target, x.value)]
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute):
                    self.written.add(x.target.attr)
                    nonbool.add(x.target.attr)
                for t, v in tg:
                    for tt in ([t] if not isinstance(t, ast.Tuple) else t.elts):
                        if isinstance(tt, ast.Attribute):
                            self.written.add(tt.attr)
                            if isinstance(t, ast.Tuple):
                                nonbool.add(tt.attr)
                                continue
                            if self.isbool(v, params):
                                bools.add(tt.attr)
                            else:
                                nonbool.add(tt.attr)
                            if isinstance(x, ast.AnnAssign):
                                cand.setdefault(tt.attr, []).append(self.ann(fn.module, x.annotation))
                            elif isinstance(v, ast.Name) and v.id in params:
                                cand.setdefault(tt.attr, []).append(params[v.id])
                            elif isinstance(v, ast.BoolOp) and isinstance(v.values[0], ast.Name) and \
                                    v.values[0].id in params:
                                cand.setdefault(tt.attr, []).append(params[v.values[0].id])
                            elif isinstance(v, ast.Call):
                                r = p.resolve_expr(fn.module, v.func)
                                if isinstance(r, Class):
                                    cand.setdefault(tt.attr, []).append(r)
        for m in p.modules.values():
            for c in m.classes.values():
                for f, v in c.attrs.items():
                    (bools if self.isbool(v, {}) else nonbool).add(f)
        self.boolfields = bools - nonbool
        for f, ts in cand.items():
            ts = [t for t in ts if t is not None]
            t = self.join(ts)
            if t is not None:
                self.fields[f] = t
        for f, ts in rets.items():
            if None in ts and len(ts) > 1:
                ts = [t for t in ts if t is not None]
            t = self.join(ts)
            if t is not None:
                self.rets[f] = t

    def isbool(self, v, params):
        if isinstance(v, ast.Constant):
            return v.value is True or v.value is False
        if isinstance(v, ast.Compare):
            return True
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
            return True
        if isinstance(v, ast.BoolOp):
            return all(self.isbool(x, params) for x in v.values)
        if isinstance(v, ast.Name):
            return params.get(v.id) == 'bool'
        if isinstance(v, ast.Attribute):
            return False
        return False

    def join(self, ts):
        if not ts:
            return None
        t = ts[0]
        for u in ts[1:]:
            if t == u:
                continue
            if isinstance(t, Class) and isinstance(u, Class):
                common = [c for c in self.p.mro(t) if c in self.p.mro(u)]
                if common:
                    t = common[0]
                    continue
                return 'obj'
            if isinstance(t, tuple) and isinstance(u, tuple) and t[0] == u[0] == 'list':
                j = self.join([x for x in (t[1], u[1]) if x is not None])
                t = ('list', j)
                continue
            return None
        return t

    def anyty(self, it, t):
        if t.op == 'first':
            x = t.args[2]
            return it.tyof(x)
        if t.op == 'fold':
            for b in t.args[2][:1]:
                from .terms import leaves
                for l in leaves(b):
                    if l.op != 'mu':
                        ty = it.tyof(l)
                        if ty is not None:
                            return ty
        return None

    # ----------------------------------------------------------------- syntactic effects by name
    def direct(self, fn):
        """(written fields, {(class or None, field read)}, {(class or None, name called)}, uses the generator)"""
        w, r, calls, rng = set(), set(), set(), False
        a = fn.node.args.args
        me = a[0].arg if a and fn.cls and not fn.is_static and not fn.is_class else None

        env = {}
        if me:
            env[me] = fn.cls
        for x in fn.node.args.args + fn.node.args.kwonlyargs:
            if x.arg != me and x.annotation is not None:
                env[x.arg] = self.ann(fn.module, x.annotation)
        for _ in range(2):
            got = {}
            for x in ast.walk(fn.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                got.setdefault(n.id, []).append(self.rough(fn, x.value, env) if n is t else None)
                elif isinstance(x, (ast.For, ast.comprehension)):
                    ty = self.rough(fn, x.iter, env)
                    ty = ty[1] if isinstance(ty, tuple) and ty[0] == 'list' else None
                    for n in ast.walk(x.target):
                        if isinstance(n, ast.Name):
                            got.setdefault(n.id, []).append(ty if n is x.target else None)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    got.setdefault(x.id, [])
                elif isinstance(x, ast.Lambda):
                    for n in x.args.args:
                        got.setdefault(n.arg, []).append(None)
            for n, ts in got.items():
                ts = ts + [env[n]] if n in env and n in [y.arg for y in fn.node.args.args] else ts
                env[n] = ts[0] if ts and all(y == ts[0] for y in ts) else None

        paths = {}
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], (ast.Name, ast.Attribute)):
                v = x.value
                made = self.p.resolve_expr(fn.module, v.func) if isinstance(v, ast.Call) else None
                new = isinstance(v, ast.Call) and (isinstance(made, Class) or ast.unparse(v.func) in
                                                   ('copy.copy', 'copy.deepcopy', 'deepcopy'))
                paths.setdefault(ast.unparse(x.targets[0]), []).append((new, x.lineno))

        def own(t):
            """a field of an object this function has just made"""
            q = paths.get(ast.unparse(t.value))
            return bool(q) and all(b for b, _ in q) and min(n for _, n in q) < t.lineno

        def owner(v):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                return fn.cls
            ty = self.rough(fn, v, env)
            return ty if isinstance(ty, Class) else None
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Attribute):
                if isinstance(x.ctx, ast.Store):
                    if not own(x):
                        w.add(x.attr)
                else:
                    r.add((owner(x.value), x.attr))
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    sub = False
                    while isinstance(t, ast.Subscript):
                        t, sub = t.value, True
                    if sub and isinstance(t, ast.Attribute):
                        w.add(t.attr)
            if isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Attribute):
                    if f.attr in RNG and not (isinstance(f.value, ast.Name) and f.value.id in ('np', 'copy')):
                        rng = True
                    if f.attr in MUTATORS and isinstance(f.value, ast.Attribute):
                        w.add(f.value.attr)
                    calls.add((owner(f.value), f.attr))
                elif isinstance(f, ast.Name):
                    calls.add((None, f.id))
        if fn.name == '__init__' and fn.cls:
            w = set()
        w |= self.outward(fn)
        return w, r, calls, rng

    DRAWS = {'blit', 'blits', 'flip', 'set_at', 'set_caption', 'save', 'quit'}

    def outward(self, fn):
        """pseudo fields for effects that are no attribute writes: '@draw' (a surface, the display) and '@param' (a
        container reached from a parameter is changed in place)"""
        from .gvn import MUTATORS
        import ast
        out = set()
        params = {x.arg for x in fn.node.args.args + fn.node.args.kwonlyargs}
        made = {}
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        made.setdefault(t.id, []).append((x.lineno, x.value))
            elif isinstance(x, (ast.For, ast.comprehension)):
                for n in ast.walk(x.target):
                    if isinstance(n, ast.Name):
                        made.setdefault(n.id, []).append((getattr(x.iter, 'lineno', 0), x.iter))

        def of_param(e, line, depth=0):
            while isinstance(e, (ast.Subscript, ast.Call)):
                if isinstance(e, ast.Call):
                    if not (isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault', 'values', 'items')):
                        return False
                    e = e.func.value
                else:
                    e = e.value
            if not isinstance(e, ast.Name) or depth > 4:
                return False
            vs = [v for n, v in made.get(e.id, ()) if n <= line]
            if e.id in params:
                return not vs
            return any(of_param(v, n, depth + 1) for n, v in made.get(e.id, ()))
        for x in ast.walk(fn.node):
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Subscript) and of_param(t.value, x.lineno):
                        out.add('@param')
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                f = x.func
                if f.attr in MUTATORS and f.attr not in ('fill',) and of_param(f.value, x.lineno):
                    out.add('@param')
                root = f
                while isinstance(root, ast.Attribute):
                    root = root.value
                if isinstance(root, ast.Name) and root.id == 'np':
                    if f.attr in ('put', 'copyto', 'place', 'putmask', 'put_along_axis') and x.args:
                        if isinstance(x.args[0], ast.Attribute):
                            out.add(x.args[0].attr)
                        elif of_param(x.args[0], x.lineno):
                            out.add('@param')
                elif f.attr in self.DRAWS or f.attr == 'fill' and f.value is root or isinstance(root, ast.Name) and \
                        root.id == 'pygame' and isinstance(f.value, ast.Attribute) and f.value.attr in ('draw', 'display'):
                    out.add('@draw')
        return out

    def rough(self, fn, v, env):
        """the declared type of an expression, or None"""
        if isinstance(v, ast.Name):
            return env.get(v.id)
        if isinstance(v, ast.Attribute):
            return self.fields.get(v.attr)
        if isinstance(v, ast.Subscript) and not isinstance(v.slice, ast.Slice):
            ty = self.rough(fn, v.value, env)
            return ty[1] if isinstance(ty, tuple) and ty[0] == 'list' else None
        if isinstance(v, ast.Call):
            if isinstance(v.func, ast.Attribute):
                return self.rets.get(v.func.attr)
            r = self.p.resolve_expr(fn.module, v.func)
            return r if isinstance(r, Class) else None
        return None

    def direct_of(self, f):
        if f not in self._eff:
            self._eff[f] = self.direct(f)
        return self._eff[f][0]

    def related(self, c, d):
        return self.p.is_sub(c, d) or self.p.is_sub(d, c) or bool(set(self.p.descendants(c)) & set(self.p.descendants(d)))

    def closure(self, fns):
        key = frozenset(fns)
        if key in self._eff:
            return self._eff[key]
        w, r, rng = set(), set(), False
        seen, st = set(), list(fns)
        while st:
            f = st.pop()
            if f in seen:
                continue
            seen.add(f)
            if f not in self._eff:
                self._eff[f] = self.direct(f)
            dw, dr, calls, g = self._eff[f]
            w |= dw
            r |= dr
            rng = rng or g
            for k, n in calls | dr:
                for c in self.p.classes.values():
                    if n in c.methods and (k is None or self.related(k, c)):
                        st.append(c.methods[n])
                    if n in c.setters and n in dw:
                        st.append(c.setters[n])
                if k is not None:
                    continue
                for m in self.p.modules.values():
                    if n in m.funcs:
                        st.append(m.funcs[n])
                if n in self.p.classes:
                    i = self.p.lookup(self.p.classes[n], '__init__')
                    if i:
                        st.append(i)
        byf = {}
        for k, n in r:
            byf.setdefault(n, set()).add(k)
        self._eff[key] = (w, byf, rng)
        return self._eff[key]

    @property
    def allocators(self):
        """names of functions whose every return is an object made by that call"""
        if getattr(self.p, '_alloc', None) is None:
            import ast
            fs = {}
            for fn in self.p.allfuncs():
                fs.setdefault(fn.name, []).append(fn)
            names = set(fs)

            def fresh(e, fn, env):
                if isinstance(e, ast.Name):
                    vs = env.get(e.id)
                    return bool(vs) and all(fresh(v, fn, {}) for v in vs)
                if not isinstance(e, ast.Call):
                    return False
                f = e.func
                if isinstance(f, ast.Name):
                    return f.id == 'cls' or f.id in self.p.classes or f.id == 'deepcopy'
                if isinstance(f, ast.Attribute):
                    return f.attr in ('deepcopy',) or f.attr in self.p.classes or (f.attr in names and f.attr in fs)
                return False

            def allocates(fn):
                node = fn.node
                if not isinstance(node, ast.FunctionDef) or fn.is_property:
                    return False
                env, rets = {}, []
                for n in ast.walk(node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                    env.setdefault(x.id, []).append(n.value)
                    elif isinstance(n, ast.Return):
                        rets.append(n.value)
                return bool(rets) and all(r is not None and fresh(r, fn, env) for r in rets)
            while True:
                keep = {n for n in names if all(allocates(f) for f in fs[n])}
                if keep == names:
                    break
                names = keep
            self.p._alloc = names
        return self.p._alloc

    def void(self, fn):
        """the function returns nothing, whatever happens"""
        r = self.voids.get(fn)
        if r is None:
            own = list(ast.iter_child_nodes(fn.node))
            r = not fn.is_property and isinstance(fn.node, ast.FunctionDef)
            while own:
                n = own.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)) or isinstance(n, ast.Return) and n.value is not None and \
                        not (isinstance(n.value, ast.Constant) and n.value.value is None):
                    if not (isinstance(n, ast.Return) and self.void_super(fn, n.value)):
                        r = False
                elif not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    own += ast.iter_child_nodes(n)
            r = r and not any(isinstance(x, ast.Name) and x.id == 'NotImplementedError' for x in ast.walk(fn.node))
            self.voids[fn] = r
        return r

    def void_super(self, fn, v):
        """return super().f(...) of an inherited f that returns nothing"""
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Call) and \
                isinstance(v.func.value.func, ast.Name) and v.func.value.func.id == 'super' and fn.cls:
            for b in self.p.mro(fn.cls)[1:]:
                if v.func.attr in b.methods:
                    return self.void(b.methods[v.func.attr])
        return False

    def effects(self, fns, name):
        """(written field names, uses the random generator, callee known)"""
        if name in self.pure_names:
            return set(), False, True
        if not fns:
            return set(), False, name in PURE_METHODS
        w, r, rng = self.closure(fns)
        return w, rng, True

    def reads(self, fns, name):
        """field name -> classes whose field may be read (None: any)"""
        if not fns:
            return {}
        return self.closure(fns)[1]

    def may_read(self, reads, ty, f):
        ks = reads.get(f)
        if not ks:
            return False
        if None in ks or not isinstance(ty, Class):
            return True
        return any(self.related(k, ty) for k in ks)

    pure_names = {'position', 'heading_at', 'width_at', 'local_coordinates', 'on_lane', 'is_reachable_from', 'after_end',
                  'distance', 'distance_with_heading', 'to_dict', 'observe', 'space', 'get_lane', 'local_angle'}
