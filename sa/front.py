"""Front end: parses every module of the package and builds the class table and name resolution tables."""
import ast
import os
import hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'highway_env'


def shapes_once(tree):
    """A local array made by numpy and never bound again keeps its shape (item assignment does not change it): read it
    once, where the array is made, wherever the source reads it."""
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        made, count = {}, {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                count[n.id] = count.get(n.id, 0) + 1
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    count[x] = 9
            elif isinstance(n, ast.arg):
                count[n.arg] = count.get(n.arg, 0) + 1
            elif isinstance(n, ast.Attribute) and n.attr in ('shape', 'resize') and isinstance(n.value, ast.Name) and \
                    (n.attr == 'resize' or not isinstance(n.ctx, ast.Load)):
                count[n.value.id] = 9
        for n in ast.walk(f):
            for body in (getattr(n, 'body', None), getattr(n, 'orelse', None), getattr(n, 'finalbody', None)):
                for s in body if isinstance(body, list) else ():
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                            count.get(s.targets[0].id) == 1 and isinstance(s.value, ast.Call) and \
                            isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and \
                            s.value.func.value.id in ('np', 'numpy') and s.value.func.attr in ('zeros', 'ones', 'full', 'empty'):
                        made[s.targets[0].id] = (body, s)
        for x, (body, s) in made.items():
            reads = [n for n in ast.walk(f) if isinstance(n, ast.Attribute) and n.attr == 'shape' and
                     isinstance(n.value, ast.Name) and n.value.id == x]
            if not reads:
                continue
            new = ast.copy_location(ast.Assign([ast.copy_location(ast.Name('shape of ' + x, ast.Store()), s)],
                                               ast.copy_location(ast.Attribute(ast.copy_location(ast.Name(x, ast.Load()), s),
                                                                               'shape', ast.Load()), s)), s)
            swap = {id(n) for n in reads}

            class Swap(ast.NodeTransformer):
                def visit_Attribute(self, n):
                    if id(n) in swap:
                        return ast.copy_location(ast.Name('shape of ' + x, ast.Load()), n)
                    return self.generic_visit(n)
            Swap().visit(f)
            body.insert([id(q) for q in body].index(id(s)) + 1, new)
    return filters(tree)


def filters(tree):
    """`for v in list(o.xs): if c(v): o.xs.remove(v)` keeps the elements for which c is false (elements compared by
    identity): the same as `o.xs = [v for v in o.xs if not c(v)]`"""
    def copied(e):
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and not (e.slice.lower or e.slice.upper or e.slice.step):
            return e.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple') and len(e.args) == 1:
            return e.args[0]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'copy' and not e.args:
            return e.func.value
        return None

    class Swap(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            x = copied(n.iter)
            if not isinstance(x, ast.Attribute) or n.orelse or not isinstance(n.target, ast.Name):
                return n
            b = n.body
            if len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse and len(b[0].body) == 1:
                keep, last = ast.copy_location(ast.UnaryOp(ast.Not(), b[0].test), b[0]), b[0].body[0]
            elif len(b) == 2 and isinstance(b[0], ast.If) and not b[0].orelse and len(b[0].body) == 1 and \
                    isinstance(b[0].body[0], ast.Continue):
                keep, last = b[0].test, b[1]
            else:
                return n
            c = last.value if isinstance(last, ast.Expr) else None
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'remove' and
                    ast.dump(c.func.value) == ast.dump(x) and len(c.args) == 1 and not c.keywords and
                    isinstance(c.args[0], ast.Name) and c.args[0].id == n.target.id):
                return n
            if any(isinstance(y, ast.Attribute) and y.attr == x.attr for y in ast.walk(keep)):
                return n
            new = ast.Assign([ast.Attribute(x.value, x.attr, ast.Store())],
                             ast.ListComp(ast.Name(n.target.id, ast.Load()),
                                          [ast.comprehension(ast.Name(n.target.id, ast.Store()),
                                                             ast.Attribute(x.value, x.attr, ast.Load()), [keep], 0)]))
            for y in ast.walk(new):
                if not hasattr(y, 'lineno') and hasattr(y, '_attributes') and 'lineno' in y._attributes:
                    ast.copy_location(y, n)
            return ast.copy_location(new, n)
    return Swap().visit(tree)


class AnchorMissing(Exception):
    pass


class Func(object):
    def __init__(self, node, module, cls, name):
        self.node, self.module, self.cls, self.name = node, module, cls, name
        self.decos = [d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else '?'
                      for d in getattr(node, 'decorator_list', [])]
        self.is_property = 'property' in self.decos
        self.is_setter = 'setter' in self.decos
        self.is_static = 'staticmethod' in self.decos
        self.is_class = 'classmethod' in self.decos
        self.abstract = 'abstractmethod' in self.decos

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    @property
    def where(self):
        return '%s:%d %s' % (self.module.rel, self.node.lineno, self.qual)

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Class(object):
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.bases, self.methods, self.setters, self.attrs, self.ann = [], {}, {}, {}, {}
        self.subclasses = []

    def __repr__(self):
        return 'Class(%s)' % self.name


class Module(object):
    def __init__(self, name, rel, tree):
        self.name, self.rel, self.tree = name, rel, tree
        self.imports, self.funcs, self.classes, self.consts, self.stars = {}, {}, {}, {}, []


class Program(object):
    def __init__(self, repo=None, overrides=None, extra=None):
        """overrides: {relative path: source text} analysed instead of the file (checker self-tests)"""
        self.repo = repo or REPO
        self.modules, self.classes, self.funcs = {}, {}, {}
        self.digest = hashlib.sha256()
        self.nlines = 0
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnchorMissing('package directory %s' % root)
        files = []
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x != '__pycache__')
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.py')]
        for f in files:
            rel = os.path.relpath(f, self.repo)
            self._load(rel, (overrides or {}).get(rel) or open(f, encoding='utf8').read())
        for rel, text in (extra or {}).items():
            self._load(rel, text)
        self._link()

    def _load(self, rel, text):
        self.digest.update((rel + '\0' + text).encode())
        self.nlines += text.count('\n')
        tree = shapes_once(ast.parse(text, rel))
        name = rel[:-3].replace('/', '.')
        pkg = name.endswith('.__init__')
        if pkg:
            name = name[:-9]
        m = Module(name, rel, tree)
        m.text = text
        self.modules[name] = m
        self._scan(m, tree.body, pkg)

    def _scan(self, m, body, pkg):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    m.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    parts = m.name.split('.')
                    up = s.level - (1 if pkg else 0)
                    parts = parts[:len(parts) - up] if up else parts
                    base = '.'.join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == '*':
                        m.stars.append(base)
                        continue
                    m.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, (ast.If, ast.Try)):
                for sub in [s.body, getattr(s, 'orelse', []), getattr(s, 'finalbody', [])] + \
                        [h.body for h in getattr(s, 'handlers', [])]:
                    self._scan(m, sub, pkg)
            elif isinstance(s, ast.FunctionDef):
                m.funcs[s.name] = Func(s, m, None, s.name)
            elif isinstance(s, ast.ClassDef):
                c = Class(s, m)
                m.classes[s.name] = c
                for b in s.body:
                    if isinstance(b, ast.FunctionDef):
                        f = Func(b, m, c, b.name)
                        if f.is_setter:
                            c.setters[b.name] = f
                        else:
                            c.methods[b.name] = f
                    elif isinstance(b, ast.Assign):
                        for t in b.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = b.value
                    elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                        c.ann[b.target.id] = b.annotation
                        if b.value is not None:
                            c.attrs[b.target.id] = b.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.consts[t.id] = s.value
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        vs = s.value.elts if isinstance(s.value, (ast.Tuple, ast.List)) and \
                            len(s.value.elts) == len(t.elts) else None
                        for i, n in enumerate(t.elts):
                            if isinstance(n, ast.Name):
                                m.consts[n.id] = vs[i] if vs else ast.Subscript(s.value, ast.Constant(i), ast.Load())
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.consts[s.target.id] = s.value

    def allfuncs(self):
        """every function and method of the package, setters included"""
        for m in self.modules.values():
            yield from m.funcs.values()
            for c in m.classes.values():
                yield from c.methods.values()
                yield from c.setters.values()

    def _link(self):
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    if isinstance(r, Class):
                        c.bases.append(r)
                        r.subclasses.append(c)
                    else:
                        c.bases.append(ast.unparse(b))

    # ------------------------------------------------------------------ names
    def resolve(self, module, name, depth=0):
        """-> Class | Func | Module | ('ext', dotted) | ('const', module, name) | None"""
        if name in module.classes:
            return module.classes[name]
        if name in module.funcs:
            return module.funcs[name]
        if name in module.consts:
            return ('const', module, name)
        imp = module.imports.get(name)
        if imp is None or depth > 8:
            for base in module.stars if depth <= 8 and not name.startswith('_') else ():
                if base in self.modules:
                    r = self.resolve(self.modules[base], name, depth + 1)
                    if r is not None:
                        return r
            return None
        if imp[0] == 'mod':
            return self.modules.get(imp[1]) or ('ext', imp[1])
        _, base, nm = imp
        if base + '.' + nm in self.modules:
            return self.modules[base + '.' + nm]
        if base in self.modules:
            r = self.resolve(self.modules[base], nm, depth + 1)
            if r is not None:
                return r
        return ('ext', base + '.' + nm)

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(e, ast.Name):
            return self.resolve(module, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(module, e.value)
            if isinstance(b, Module):
                sub = self.modules.get(b.name + '.' + e.attr)
                return self.resolve(b, e.attr) or sub
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    # ---------------------------------------------------------------- classes
    def mro(self, c):
        r = getattr(c, '_mro', None)
        if r is None:
            seqs = [[c]] + [list(self.mro(b)) for b in c.bases if isinstance(b, Class)] + \
                   [[b for b in c.bases if isinstance(b, Class)]]
            r = []
            while any(seqs):
                for s in seqs:
                    if s and not any(s[0] in t[1:] for t in seqs):
                        h = s[0]
                        break
                else:
                    h = next(s[0] for s in seqs if s)
                r.append(h)
                for s in seqs:
                    while h in s:
                        s.remove(h)
            c._mro = r
        return r

    def lookup(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def lookup_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
            if name in k.methods:
                return None
        return None

    def descendants(self, c):
        out, st = [], [c]
        while st:
            x = st.pop()
            if x not in out:
                out.append(x)
                st += x.subclasses
        return out

    def is_sub(self, c, d):
        return d in self.mro(c)

    def cls(self, name):
        if name not in self.classes:
            raise AnchorMissing('class %s' % name)
        return self.classes[name]

    def method(self, qual):
        """'Class.method' resolved through the method resolution order, or 'module:function'"""
        if ':' in qual:
            mod, fn = qual.split(':')
            m = self.modules.get(mod)
            if m is None or fn not in m.funcs:
                # the function may have moved to another module
                c = [x.funcs[fn] for x in self.modules.values() if fn in x.funcs]
                if len(c) == 1:
                    return c[0]
                raise AnchorMissing('function %s' % qual)
            return m.funcs[fn]
        cn, fn = qual.split('.')
        f = self.lookup(self.cls(cn), fn)
        if f is None:
            raise AnchorMissing('method %s' % qual)
        return f

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for f in c.setters.values():
                    yield f
