"""Ownership and effect analysis: an interprocedural points-to analysis of the package, context-sensitive in the points-to
sets of the arguments, with allocation sites, clones for deep copies and an explicit set of write, draw and order events.

Abstract objects (tuples):
 ('I', class, tag)     instance; tag '' = exists already when the analysed entry is called, else its allocation site
 ('L', site, tag)      list/dict/set/tuple; ('A', site, tag) numpy array; tag 'static': made while a module is imported
 ('K', o)              the copy of o made by a deep copy; ('S', o, site) by a shallow copy
 ('CLS', name) ('MOD', name) ('EXT', dotted) ('FN', qual) ('BM', qual, receiver) ('LAM', n)  code
 ('RNG', origin)       random generators: 'env' (made by seeding), 'fresh' (made elsewhere), 'static'
 ('V', n)              n-th parameter of the entry, type unknown;  ('N',) None; ('C',) a constant
"""
import ast
import json
import os
from .front import Class, Func, Module

DEBUG = False
NONE, CONST = ('N',), ('C',)
PARAMS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline.json')))['params']
E = frozenset()
FN = frozenset([NONE])
FC = frozenset([CONST])
SINGLE = {'rand': 0, 'randn': 0, 'randint': 2, 'uniform': 2, 'choice': 1, 'normal': 2, 'random': 0, 'random_sample': 0}
DRAWS = {'rand', 'randn', 'randint', 'uniform', 'choice', 'normal', 'shuffle', 'random', 'random_sample', 'permutation',
         'integers', 'standard_normal', 'exponential', 'poisson', 'beta', 'gamma', 'binomial', 'multivariate_normal',
         'triangular', 'gauss', 'sample', 'choices', 'random_integers', 'ranf', 'bytes', 'lognormal', 'vonmises'}
MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem',
       'appendleft', 'popleft', 'add', 'discard', 'fill', 'extendleft', 'rotate', 'itemset', 'resize', 'put', 'partition',
       '__setitem__', 'move_to_end', 'difference_update', 'intersection_update', 'setflags'}
ADDERS = {'append': 0, 'extend': 0, 'insert': 1, 'update': 0, 'setdefault': 1, 'appendleft': 0, 'add': 0, 'extendleft': 0}
VIEWS = {'T', 'flat', 'real', 'imag'}
VIEWM = {'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'view', 'diagonal', 'asarray'}
NPALIAS = {'asarray', 'ravel', 'squeeze', 'transpose', 'reshape', 'atleast_1d', 'atleast_2d', 'asanyarray', 'swapaxes',
           'expand_dims', 'broadcast_to', 'ascontiguousarray', 'moveaxis', 'flip', 'fliplr', 'flipud', 'rot90'}
ELEMENTWISE = {'cos', 'sin', 'tan', 'abs', 'sqrt', 'exp', 'log', 'arctan', 'arctan2', 'arcsin', 'arccos', 'sign', 'square',
               'floor', 'ceil', 'round', 'clip', 'minimum', 'maximum', 'radians', 'degrees', 'power', 'mod', 'isnan', 'rint',
               'deg2rad', 'rad2deg', 'hypot', 'absolute', 'isclose', 'where', 'interp', 'float64', 'int64', 'logical_and',
               'logical_or', 'logical_not', 'add', 'subtract', 'multiply', 'divide', 'negative', 'tanh', 'amin', 'amax',
               'remainder', 'fabs', 'float32', 'heaviside'}
REDUCTIONS = {'sum', 'mean', 'prod', 'any', 'all', 'argmin', 'argmax', 'norm', 'allclose', 'size', 'ndim', 'std', 'var',
              'vdot', 'trace', 'shape', 'array_equal', 'median', 'count_nonzero', 'isscalar', 'linalg'}
NPMUT = {'fill_diagonal', 'copyto', 'put', 'place', 'putmask', 'put_along_axis'}
CLOCKS = ('time.', 'datetime.', 'uuid.', 'secrets.', 'os.urandom', 'os.getpid', 'os.times', 'os.environ', 'os.getenv',
          'random.SystemRandom', 'socket.', 'platform.', 'threading.get_ident')
PURE_BUILTIN = {'len', 'min', 'max', 'sum', 'abs', 'int', 'float', 'bool', 'str', 'repr', 'isinstance', 'issubclass',
                'round', 'range', 'print', 'callable', 'hasattr', 'any', 'all', 'divmod', 'pow', 'ord', 'chr', 'format',
                'id', 'hash', 'complex', 'bytes', 'open', 'input', 'ValueError'}
ORDERED = {'list', 'tuple', 'enumerate', 'iter', 'reversed', 'zip', 'map', 'filter', 'dict'}


class Ev(object):
    """one event: kind, receivers, field, where (file, line, function), extra"""
    __slots__ = ('kind', 'recv', 'field', 'where', 'val', 'loops', 'ctx', 'node')

    def __init__(self, kind, recv, field, where, val=E, loops=(), ctx=None, node=None):
        self.kind, self.recv, self.field, self.where, self.val, self.loops, self.ctx, self.node = \
            kind, recv, field, where, val, loops, ctx, node

    def __repr__(self):
        return '%s %s.%s at %s:%s %s' % (self.kind, sorted(map(show, self.recv))[:4], self.field, self.where[0],
                                        self.where[1], self.where[2])


def show(o):
    if o[0] == 'I':
        return o[1] + ('' if not o[2] else '*')
    if o[0] in ('L', 'A'):
        return '%s@%s:%s%s' % ({'L': 'container', 'A': 'array'}[o[0]], o[1][0].split('/')[-1], o[1][1],
                               '' if not o[2] else '(' + str(o[2])[:12] + ')')
    if o[0] == 'K':
        return 'copy of ' + show(o[1])
    if o[0] == 'S':
        return 'shallow copy of ' + show(o[1])
    return ' '.join(str(x) for x in o)


def base(o):
    while o[0] in ('K', 'S'):
        o = o[1]
    return o


class Analysis(object):
    """one run: a set of entries over a shared heap"""

    def __init__(self, prog, types, heap=None, phase1=False, maxpass=12, skip=(), use_loops=True):
        self.use_loops = use_loops
        self.scalars = {}
        self.typed_on = False
        self.p, self.types = prog, types
        self.base_heap = heap or {}
        self.heap = {}
        self.phase1 = phase1
        self.maxpass = maxpass
        self.memo, self.done, self.active, self.rec, self.rloops = {}, set(), [], {}, {}
        self.events = {}
        self.lams = {}
        self.calls = {}
        self.loops = ()
        self.edges = {}       # (module, function) -> {(line, callee)}
        self.parent = {}
        self.alloc_loops = {}
        self.skip = skip
        self.sets = set()
        self.statics = {}
        self.ncalls = 0
        self.unresolved = {}
        self.funcs = {f.qual if f.cls else f.module.name + ':' + f.name: f for f in prog.all_funcs()}
        self.pargs = {}
        self.idx = {}
        self.bidx = {}
        for (o, f) in self.base_heap:
            self.bidx.setdefault(o, []).append((o, f))
        self.static, self.ctx, self.frame = False, None, None

    def index(self, src):
        return self.bidx if src is self.base_heap else self.idx

    def of_type(self, t, tag='', site=None):
        """objects that exist already and have this type"""
        if isinstance(t, Class):
            return frozenset(('I', c.name, '') for c in self.p.descendants(t))
        if t == 'obj' and 'Vehicle' in self.p.classes:
            return frozenset(('I', c.name, '') for n in ('Vehicle', 'RoadObject') if n in self.p.classes
                             for c in self.p.descendants(self.p.classes[n]))
        site = site or ('type', repr(t))
        if t == 'arr':
            return frozenset([('A', site, tag)])
        if t == 'dict':
            self.sets.add((site, 'dict'))
            return frozenset([('L', site, tag)])
        if isinstance(t, tuple) and t[0] in ('list', 'tuple'):
            o = ('L', site, tag)
            if t[0] == 'tuple':
                self.sets.add((site, 'tuple'))
                for i, x in enumerate(t[1]):
                    self.put_elem(o, self.of_type(x, tag, site + (i,)) if x is not None else E, i)
            elif t[1] is not None:
                self.put_elem(o, self.of_type(t[1], tag, site + ('elem',)))
            return frozenset([o])
        if t in ('num', 'str', 'bool'):
            return FC
        return E

    def entry(self, fn, tag='', classes=None):
        """argument sets of an entry: receivers that exist already, parameters of their annotated types"""
        a = fn.node.args
        out = []
        names = a.args + a.kwonlyargs
        for i, x in enumerate(names):
            if i == 0 and fn.cls is not None and not fn.is_static:
                ds = [d for d in self.p.descendants(fn.cls)
                      if (self.p.lookup_setter(d, fn.name) if fn.is_setter else self.p.lookup(d, fn.name)) is fn]
                if classes is not None:
                    ds = [d for d in ds if d in classes]
                out.append(frozenset(('CLS', d.name) if fn.is_class else ('I', d.name, '') for d in ds))
                continue
            t = self.declared(fn, x)
            v = self.of_type(t, tag, ('param', fn.qual, x.arg)) if t is not None else \
                (frozenset([('V', fn.qual + ':' + x.arg)]) if tag else E)
            if t is None and x.annotation is not None and tag:
                v = self.loose(x.annotation, tag, ('param', fn.qual, x.arg))
            d = None
            off = i - (len(a.args) - len(a.defaults))
            if i < len(a.args) and off >= 0:
                d = a.defaults[off]
            elif i >= len(a.args):
                d = a.kw_defaults[i - len(a.args)]
            if isinstance(d, ast.Constant):
                v = v | (FN if d.value is None else FC)
            out.append(v)
        return out

    def loose(self, ann, tag, site):
        """Union annotations and the like: containers of unknown content"""
        t = ast.unparse(ann)
        if any(w in t for w in ('List', 'Dict', 'ndarray', 'Sequence', 'Action', 'Vector', 'Iterable', 'dict', 'list')):
            return frozenset([('L', site, tag), ('A', site, tag)])
        return E

    # ------------------------------------------------------------------ heap
    def cls_of(self, o):
        b = base(o)
        return self.p.classes.get(b[1]) if b[0] == 'I' else None

    def fits(self, f, v):
        """values that a field can hold given its recorded type"""
        t = self.types.fields.get(f)
        if isinstance(t, Class) or t == 'obj':
            return frozenset(x for x in v if x == NONE or base(x)[0] in ('V', 'RNG') or (
                self.cls_of(x) is not None and (t == 'obj' or self.types.related(self.cls_of(x), t))))
        if t in ('num', 'str', 'bool'):
            return frozenset(x for x in v if x in (NONE, CONST))
        if t in ('arr', 'dict') or isinstance(t, tuple):
            return frozenset(x for x in v if base(x)[0] in ('L', 'A', 'V', 'N', 'C'))
        if t is None:
            return frozenset(x for x in v if not (x[0] == 'BM' and x[1].startswith('.')))
        return v

    def put(self, o, f, v):
        if not f.startswith('['):
            v = self.fits(f, v)
        if not v:
            return
        k = (o, f)
        old = self.heap.get(k, E)
        new = old | v
        if new is not old and len(new) != len(old):
            self.heap[k] = new
            self.changed = True
            self.idx.setdefault(o, set()).add(k)

    def clone(self, o):
        if self.phase1:
            return o
        if o[0] in ('K', 'N', 'C', 'CLS', 'MOD', 'EXT', 'FN', 'U', 'V'):
            return o if o[0] != 'V' else ('K', o)
        if o[0] == 'BM':
            return ('BM', o[1], self.clone(o[2]))
        if o[0] == 'LAM':
            return o
        return o if o[0] == 'K' else ('K', base(o))

    def raw(self, o, f, depth=0):
        r = self.heap.get((o, f), E)
        if o[0] == 'K':
            r = r | frozenset(self.clone(x) for x in self.raw(o[1], f, depth + 1))
        elif o[0] == 'S':
            r = r | self.raw(o[1], f, depth + 1)
        else:
            r = r | self.base_heap.get((o, f), E)
            if o[0] == 'I' and o[2] != '' and False:
                r = r
        return r

    def elems(self, v):
        """everything a container holds"""
        r = E
        for o in v:
            if o[0] in ('L', 'K', 'S', 'A', 'V', 'I'):
                r = r | self.raw(o, '[]')
        return r

    def items(self, v, key):
        """v[key] for a constant key"""
        r = E
        for o in v:
            if o[0] in ('L', 'K', 'S', 'A', 'V'):
                k = self.raw(o, '[%r]' % (key,))
                r = r | (k if k and base(o)[0] == 'L' and (base(o)[1], 'tuple') in self.sets else k | self.raw(o, '[*]')
                         if k else self.raw(o, '[]'))
        return r

    def put_elem(self, o, v, key=None):
        self.put(o, '[]', v)
        if key is not None:
            self.put(o, '[%r]' % (key,), v)
        else:
            self.put(o, '[*]', v)

    def new(self, kind, node, tag=None):
        """allocation at a syntax node"""
        site = (self.frame.module.rel, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        if self.static:
            t = 'static'
        elif self.phase1:
            t = ''
        else:
            t = 'new'
        o = (kind, site, t)
        if t == 'new':
            old = self.alloc_loops.get(o)
            if old is None or len(self.loops) < len(old):
                self.alloc_loops[o] = self.loops
        return o

    def instance(self, cname, node):
        if self.static:
            t = 'static'
        elif self.phase1:
            t = ''
        else:
            t = 'new@%s:%d:%d' % (self.frame.module.rel.split('/')[-1], getattr(node, 'lineno', 0),
                                  getattr(node, 'col_offset', 0))
        o = ('I', cname, t)
        if t:
            old = self.alloc_loops.get(o)
            if old is None or len(self.loops) < len(old):
                self.alloc_loops[o] = self.loops
        return o

    # ------------------------------------------------------------------ events
    def event(self, kind, recv, field, node, val=E):
        where = (self.frame.module.rel, getattr(node, 'lineno', 0), self.frame.qual)
        k = (kind, recv, field, where, self.loops if kind == 'store' else None)
        e = self.events.get(k)
        if e is None:
            self.events[k] = Ev(kind, recv, field, where, val, self.loops, self.ctx, node)
        else:
            e.val = e.val | val

    # ------------------------------------------------------------------ drive
    def run(self, entries):
        """entries: [(Func, [argument sets])]"""
        for i in range(self.maxpass):
            self.changed = False
            self.done = set()
            self.events = {}
            self.unresolved = {}
            self.loops = ()
            self.static = False
            for fn, args in entries:
                self.ctx = None
                if callable(fn):
                    fn(self)
                else:
                    self.invoke(fn, args)
            self.passes = i + 1
            if DEBUG: print("pass", i, len(self.heap), self.ncalls, flush=True)
            if not self.changed:
                if not self.phase1 or self.typed_on:
                    break
                self.typed_on = True
        return self

    def drive(self, module, code, env):
        """evaluates a piece of driver code (the history of calls under analysis) in a module of the package"""
        t = ast.parse(code)
        fn = Func(ast.FunctionDef(name='<driver>', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                                                                    defaults=[], vararg=None, kwarg=None),
                                  body=t.body, decorator_list=[], returns=None, lineno=0), module, None, '<driver>')
        ev = Eval(self, fn, (), None)
        ev.outer = dict(env)
        ev.go()

    def invoke(self, fn, args, parent=None, node=None):
        if fn.abstract and not fn.node.body:
            return E
        if fn.name in self.skip:
            return E
        n = len(self.positional(fn))
        args = tuple(args[:n + 2]) if len(args) > n + 2 else tuple(args)
        if self.phase1:
            old = self.pargs.get(fn, ())
            m = [None] * max(len(old), len(args))
            for i in range(len(m)):
                x = old[i] if i < len(old) else None
                y = args[i] if i < len(args) else None
                m[i] = x if y is None else y if x is None else x | y
            m = tuple(m)
            if m != old:
                self.pargs[fn] = m
                self.changed = True
            args = m
            key = (fn, 0, (), self.static)
            if key in self.done:
                return self.memo.get(key, E)
        else:
            key = (fn, args, self.loops, self.static)
            if self.active.count(fn) >= 2:
                old = self.rec.get(fn, ())
                m = tuple(frozenset().union(*[z[i] for z in (old, args) if i < len(z) and z[i] is not None])
                          if any(i < len(z) and z[i] is not None for z in (old, args)) else None
                          for i in range(max(len(old), len(args))))
                if m != old:
                    self.rec[fn] = m
                    self.changed = True
                args = m
                key = (fn, m, 'recursive', self.static)
        if node is not None:
            self.edges.setdefault((self.frame.module.rel, self.frame.qual), set()).add((getattr(node, 'lineno', 0), fn))
        if key not in self.parent:
            self.parent[key] = (parent if parent is not None else self.ctx,
                                (self.frame.module.rel, getattr(node, 'lineno', 0)) if node is not None else None)
        if key in self.done:
            return self.memo.get(key, E)
        self.done.add(key)
        self.ncalls += 1
        self.active.append(fn)
        lsv = self.loops
        if key[2] == 'recursive':
            self.loops = self.rloops.setdefault(fn, lsv)
        r = Eval(self, fn, args, key).go()
        self.loops = lsv
        self.active.pop()
        old = self.memo.get(key, E)
        if r - old:
            self.memo[key] = r | old
            self.changed = True
        return self.memo.get(key, E)

    def declared(self, fn, x):
        """the declared type of a parameter: its annotation, or the one it had in the pinned package"""
        if x.annotation is not None:
            return self.types.ann(fn.module, x.annotation)
        q = fn.qual if fn.cls else fn.module.name.split('.')[-1] + ':' + fn.name
        ts = PARAMS.get(q)
        names = self.positional(fn)
        if fn.cls and not fn.is_static and fn.node.args.args:
            names = names[1:]
        if not ts or len(ts) != len(names) or x.arg not in names:
            return None
        t = ts[names.index(x.arg)]
        return 'arr' if t == 'vec2' else self.types.decode(t)

    def scalar(self, fn, i):
        """is the parameter annotated as a number, a string or a truth value"""
        k = self.scalars.get(fn)
        if k is None:
            k = []
            for x in fn.node.args.args + fn.node.args.kwonlyargs:
                t = self.declared(fn, x)
                k.append(t in ('num', 'str', 'bool'))
            self.scalars[fn] = k
        return k[i] if i < len(k) else False

    def positional(self, fn):
        a = fn.node.args
        return [x.arg for x in a.args + a.kwonlyargs]

    def path(self, key, limit=12):
        """call path from the entry to a context"""
        out = []
        while key is not None and len(out) < limit:
            fn = key[0]
            par = self.parent.get(key, (None, None))
            out.append(fn.qual)
            key = par[0]
        return ' <- '.join(out)

    # ------------------------------------------------------------------ static values
    def static_value(self, kind, owner, name, node, module, cls=None):
        k = (kind, owner, name)
        if k in self.statics:
            return self.statics[k]
        self.statics[k] = E
        fn = Func(ast.FunctionDef(name='<%s>' % kind, args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                                                       kw_defaults=[], defaults=[], vararg=None,
                                                                       kwarg=None),
                                  body=[ast.Return(node)], decorator_list=[], returns=None, lineno=0), module, None,
                  '<%s %s>' % (kind, name))
        sv = (getattr(self, 'frame', None), self.ctx, self.static, self.loops)
        self.static, self.loops = True, ()
        ev = Eval(self, fn, (), None)
        ev.classbody = cls
        r = ev.go()
        self.frame, self.ctx, self.static, self.loops = sv
        self.statics[k] = r
        return r


class Frame(object):
    def __init__(self, module, qual):
        self.module, self.qual = module, qual


class Eval(object):
    """evaluates one function body in one context"""

    def __init__(self, an, fn, args, key):
        self.an, self.fn, self.args, self.key = an, fn, args, key
        self.ret = E
        self.classbody = None
        self.yields = None
        self.outer = {}

    def go(self):
        an, fn = self.an, self.fn
        sv = (getattr(an, 'frame', None), an.ctx)
        an.frame = Frame(fn.module, fn.qual)
        if self.key is not None:
            an.ctx = self.key
        env = {}
        a = fn.node.args
        names = [x.arg for x in a.args]
        for i, n in enumerate(names + [x.arg for x in a.kwonlyargs]):
            v = self.args[i] if i < len(self.args) else None
            env[n] = v if v is not None else self.default(n, i, a, names)
            if an.scalar(fn, i):
                env[n] = frozenset(o for o in env[n] if o in (NONE, CONST) or o[0] == 'V')
        for j, x in enumerate([a.vararg, a.kwarg]):
            if x is not None:
                o = an.new('L', fn.node)
                rest = self.args[len(names) + len(a.kwonlyargs) + j] if len(self.args) > len(names) + len(a.kwonlyargs) + j else None
                if rest:
                    an.put(o, '[]', rest)
                env[x.arg] = frozenset([o])
        self.env = env
        if fn.cls is not None and a.args:
            self.me = names[0]
        else:
            self.me = None
        self.block(fn.node.body)
        an.frame, an.ctx = sv
        return self.ret if self.yields is None else frozenset([self.yields])

    def default(self, n, i, a, names):
        an = self.an
        off = i - (len(names) - len(a.defaults))
        d = None
        if i < len(names) and off >= 0:
            d = a.defaults[off]
        elif i >= len(names):
            d = a.kw_defaults[i - len(names)]
        if d is None:
            return E
        if isinstance(d, ast.Constant):
            return FN if d.value is None else FC
        return an.static_value('default', self.fn.qual, n, d, self.fn.module, self.fn.cls)

    # ------------------------------------------------------------------ statements
    def block(self, body):
        """-> True when the end is not reached"""
        for s in body:
            if self.stmt(s):
                return True
        return False

    def join(self, envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return dict(self.env)
        out = dict(envs[0])
        for e in envs[1:]:
            for k, v in e.items():
                out[k] = out.get(k, E) | v
        return out

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m:
            return m(s)
        return False

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Return(self, s):
        self.ret = self.ret | (self.ev(s.value) if s.value is not None else FN)
        return True

    def s_Raise(self, s):
        if s.exc is not None:
            self.ev(s.exc)
        return True

    def s_Assert(self, s):
        self.ev(s.test)

    def s_Pass(self, s):
        pass

    def s_Break(self, s):
        if self.brk is not None:
            self.brk.append(dict(self.env))
        return True

    def s_Continue(self, s):
        if self.cont is not None:
            self.cont.append(dict(self.env))
        return True

    brk = cont = None

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.an.event('mutate', self.ev(t.value), 'del []', s)
                self.ev(t.slice)
            elif isinstance(t, ast.Attribute):
                self.an.event('store', self.ev(t.value), t.attr, s)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s, s.value)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s, s.value)

    def s_AugAssign(self, s):
        an = self.an
        v = self.ev(s.value)
        load = ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target) if isinstance(s.target, ast.Name) else s.target
        old = self.ev(load)
        mutable = frozenset(o for o in old if base(o)[0] in ('L', 'A', 'V') and not self.immut(o))
        if mutable:
            an.event('mutate', mutable, 'augmented assignment', s)
            if isinstance(s.op, ast.Add):
                for o in mutable:
                    if base(o)[0] == 'L':
                        an.put_elem(o, an.elems(v))
        fresh = E
        if any(base(o)[0] == 'A' for o in v) and not any(base(o)[0] == 'A' for o in old):
            fresh = frozenset([an.new('A', s)])
        if isinstance(s.target, ast.Name):
            self.env[s.target.id] = old | fresh
        elif isinstance(s.target, ast.Attribute):
            self.store_attr(self.ev(s.target.value), s.target.attr, old | fresh, s, None, fresh)
        elif isinstance(s.target, ast.Subscript):
            self.store_sub(s.target, old | fresh, s)

    def immut(self, o):
        b = base(o)
        return b[0] == 'L' and (b[1], 'tuple') in self.an.sets

    def s_If(self, s):
        self.ev(s.test)
        e0 = self.env
        can_t, can_f = self.possible(s.test)
        ends = []
        stop_t = stop_f = True
        if can_t:
            self.env = self.narrow(dict(e0), s.test, True)
            stop_t = self.block(s.body)
            if not stop_t:
                ends.append(self.env)
        if can_f:
            self.env = self.narrow(dict(e0), s.test, False)
            stop_f = self.block(s.orelse)
            if not stop_f:
                ends.append(self.env)
        if not ends:
            self.env = dict(e0)
            return True
        self.env = self.join(ends)
        return False

    def s_For(self, s):
        it = self.ev(s.iter)
        self.an.event('iterate', it, 'for', s.iter)
        if s.iter is not None and self.is_set(it):
            self.an.event('order', it, 'for', s)
        sv = (self.brk, self.cont)
        lsv = self.an.loops
        self.an.loops = lsv if not self.an.use_loops else lsv + ((self.an.frame.module.rel, s.lineno),)
        self.brk, self.cont = [], []
        outs = [dict(self.env)]
        for _ in range(2 if not self.an.phase1 else 2):
            self.env = self.join(outs)
            self.assign(s.target, self.iter_elems(it, s.iter), s, None, loop=True)
            if not self.block(s.body):
                outs.append(dict(self.env))
            outs += self.cont
            self.cont = []
        brk = self.brk
        self.brk, self.cont = sv
        self.an.loops = lsv
        self.env = self.join(outs)
        if s.orelse:
            self.block(s.orelse)
        self.env = self.join([self.env] + brk)
        return False

    def s_While(self, s):
        sv = (self.brk, self.cont)
        lsv = self.an.loops
        self.an.loops = lsv if not self.an.use_loops else lsv + ((self.an.frame.module.rel, s.lineno),)
        self.brk, self.cont = [], []
        outs = [dict(self.env)]
        for _ in range(2):
            self.env = self.join(outs)
            self.ev(s.test)
            self.env = self.narrow(self.env, s.test, True)
            if not self.block(s.body):
                outs.append(dict(self.env))
            outs += self.cont
            self.cont = []
        brk = self.brk
        self.brk, self.cont = sv
        self.an.loops = lsv
        self.env = self.join(outs)
        self.block(s.orelse)
        self.env = self.join([self.env] + brk)
        return False

    def s_Try(self, s):
        e0 = dict(self.env)
        stop = self.block(s.body)
        mid = self.join([e0, self.env])
        ends = []
        if not stop:
            stop = self.block(s.orelse)
            if not stop:
                ends.append(dict(self.env))
        for h in s.handlers:
            self.env = dict(mid)
            if h.name:
                self.env[h.name] = E
            if not self.block(h.body):
                ends.append(dict(self.env))
        self.env = self.join(ends) if ends else mid
        if s.finalbody:
            if self.block(s.finalbody):
                return True
        return not ends

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, s, None)
        return self.block(s.body)

    def s_FunctionDef(self, s):
        self.env[s.name] = frozenset([self.lam(s)])

    def s_Global(self, s):
        self.globals = getattr(self, 'globals', set()) | set(s.names)

    def s_Nonlocal(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            self.env[a.asname or a.name.split('.')[0]] = frozenset([self.extmod(a.name if a.asname else a.name.split('.')[0])])

    def s_ImportFrom(self, s):
        for a in s.names:
            m = self.an.p.modules.get(s.module or '')
            r = self.an.p.resolve(m, a.name) if m is not None else None
            self.env[a.asname or a.name] = self.ref(r) if r is not None else \
                frozenset([self.extmod((s.module or '') + '.' + a.name)])

    def extmod(self, name):
        return ('MOD', name) if name in self.an.p.modules else ('EXT', name)

    # ------------------------------------------------------------------ narrowing
    def possible(self, t):
        """can the test be true / false, judging by None-ness of points-to sets"""
        if isinstance(t, ast.Constant):
            return bool(t.value), not t.value
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.possible(t.operand)
            return b, a
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and \
                t.comparators[0].value is None and isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            v = self.ev(t.left)
            if v and NONE not in v and all(o[0] in ('I', 'K', 'S', 'RNG') for o in v) and not self.an.phase1:
                r = (False, True)
            elif v == FN and isinstance(t.left, ast.Name):
                r = (True, False)
            else:
                r = (True, True)
            return r if isinstance(t.ops[0], (ast.Is, ast.Eq)) else (r[1], r[0])
        if isinstance(t, ast.Name):
            v = self.env.get(t.id, E)
            if v and all(o[0] in ('I', 'RNG', 'MOD', 'EXT', 'CLS', 'FN') for o in v):
                return True, False
            if v == FN:
                return False, True
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and len(t.args) == 2:
            v = self.ev(t.args[0])
            ks = self.classes_of(t.args[1])
            if v and ks is not None and all(self.an.cls_of(o) is not None for o in v):
                m = [any(self.an.p.is_sub(self.an.cls_of(o), k) for k in ks) for o in v]
                return any(m), not all(m)
        if isinstance(t, ast.BoolOp):
            rs = [self.possible(x) for x in t.values]
            if isinstance(t.op, ast.And):
                return all(r[0] for r in rs), any(r[1] for r in rs)
            return any(r[0] for r in rs), all(r[1] for r in rs)
        return True, True

    def classes_of(self, e):
        es = e.elts if isinstance(e, (ast.Tuple, ast.List)) else [e]
        out = []
        for x in es:
            r = [o for o in self.ev(x) if o[0] == 'CLS']
            if not r:
                return None
            out += [self.an.p.classes[o[1]] for o in r]
        return out

    def narrow(self, env, t, pos):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.narrow(env, t.operand, not pos)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == pos:
                for x in t.values:
                    env = self.narrow(env, x, pos)
            return env
        if isinstance(t, ast.Name) and pos and t.id in env:
            env[t.id] = env[t.id] - FN
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in env and \
                isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            isn = isinstance(t.ops[0], (ast.Is, ast.Eq))
            if isn == pos:
                env[t.left.id] = FN if NONE in env[t.left.id] or not env[t.left.id] else env[t.left.id]
            else:
                env[t.left.id] = env[t.left.id] - FN
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and len(t.args) == 2 \
                and isinstance(t.args[0], ast.Name) and t.args[0].id in env:
            ks = self.classes_of(t.args[1])
            if ks is not None:
                def keep(o):
                    c = self.an.cls_of(o)
                    if c is None:
                        return o[0] not in ('N', 'C') if pos else True
                    return any(self.an.p.is_sub(c, k) for k in ks) == pos
                env[t.args[0].id] = frozenset(o for o in env[t.args[0].id] if keep(o))
        return env

    # ------------------------------------------------------------------ stores
    def assign(self, t, v, node, value, loop=False):
        if isinstance(t, ast.Name):
            if t.id in getattr(self, 'globals', ()):
                self.an.event('global', frozenset([('MOD', self.fn.module.name)]), t.id, node, v)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    o = self.an.new('L', x)
                    self.an.put(o, '[]', self.an.elems(v))
                    self.assign(x.value, frozenset([o]), node, None)
                else:
                    self.assign(x, self.pick(v, i), node, None)
        elif isinstance(t, ast.Attribute):
            self.store_attr(self.ev(t.value), t.attr, v, node, value)
        elif isinstance(t, ast.Subscript):
            self.store_sub(t, v, node)

    def pick(self, v, i):
        r = E
        for o in v:
            k = self.an.raw(o, '[%r]' % (i,))
            r = r | (k if k else self.an.raw(o, '[]'))
        return r

    def store_attr(self, recv, f, v, node, value, put=None):
        an = self.an
        rest = set()
        by = {}
        for o in recv:
            c = an.cls_of(o)
            s = an.p.lookup_setter(c, f) if c is not None else None
            if s is not None:
                by.setdefault(s, set()).add(o)
            else:
                rest.add(o)
        for s, os_ in by.items():
            an.invoke(s, (frozenset(os_), v), self.key, node)
        if rest:
            an.event('store', frozenset(rest), f, node, v if put is None else put)
            for o in rest:
                if o[0] in ('I', 'K', 'S', 'L', 'A', 'CLS', 'MOD', 'V', 'FN'):
                    an.put(o, f, v)

    def store_sub(self, t, v, node):
        an = self.an
        recv = self.ev(t.value)
        kv = self.ev(t.slice)
        sl = t.slice
        if isinstance(t.value, ast.Attribute) and t.value.attr == '__dict__':
            an.event('store', self.ev(t.value.value), '*', node, v)
            return
        an.event('mutate', recv, '[]=', node, v)
        by = {}
        for o in recv:
            c = an.cls_of(o)
            s = an.p.lookup(c, '__setitem__') if c is not None else None
            if s is not None:
                by.setdefault(s, set()).add(o)
            elif base(o)[0] != 'A':
                an.put_elem(o, v, sl.value if isinstance(sl, ast.Constant) else None)
                if self.is_dict(o) and kv:
                    an.put(o, 'keys', kv)
        for s, os_ in by.items():
            an.invoke(s, (frozenset(os_), E, v), self.key, node)

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        if e is None:
            return E
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return E

    def e_Constant(self, e):
        return FN if e.value is None else FC

    def ref(self, r):
        if isinstance(r, Class):
            return frozenset([('CLS', r.name)])
        if isinstance(r, Func):
            return frozenset([('FN', r.qual if r.cls else r.module.name + ':' + r.name)])
        if isinstance(r, Module):
            return frozenset([('MOD', r.name)])
        if isinstance(r, tuple) and r[0] == 'const':
            return self.an.static_value('global', r[1].name, r[2], r[1].consts[r[2]], r[1]) | \
                self.an.heap.get((('MOD', r[1].name), r[2]), E)
        if isinstance(r, tuple) and r[0] == 'ext':
            return frozenset([('EXT', r[1])])
        return E

    def e_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        if e.id in self.outer:
            return self.outer[e.id]
        if self.classbody is not None and e.id in self.classbody.attrs:
            return self.class_attr(self.classbody, e.id)
        r = self.an.p.resolve(self.an.frame.module, e.id)
        if r is None:
            return frozenset([('EXT', 'builtins.' + e.id)])
        return self.ref(r)

    def class_attr(self, c, f):
        ca = self.an.p.class_attr(c, f)
        if ca is None:
            return E
        k, node = ca
        return self.an.static_value('class', k.name, f, node, k.module, k) | self.an.heap.get((('CLS', k.name), f), E)

    def e_Attribute(self, e):
        return self.attr(self.ev(e.value), e.attr, e)

    def attr(self, recv, f, node):
        an = self.an
        r = E
        by = {}
        for o in recv:
            c = an.cls_of(o)
            if f == '__class__' and c is not None:
                r = r | frozenset([('CLS', c.name)])
                continue
            if f == '__dict__' and c is not None:
                x = ('D', o)
                r = r | frozenset([('L', ('__dict__', c.name, 0), '')])
                continue
            if c is not None:
                m = an.p.lookup(c, f)
                if m is not None:
                    if m.is_property:
                        by.setdefault(m, set()).add(o)
                    elif m.is_static:
                        r = r | frozenset([('FN', m.qual)])
                    elif m.is_class:
                        r = r | frozenset([('BM', m.qual, ('CLS', c.name))])
                    else:
                        r = r | frozenset([('BM', m.qual, o)])
                    continue
                v = an.raw(o, f)
                if NONE in v and any(x[0] == 'RNG' and x[1] == 'env' for x in v):
                    v = v - FN          # seeded before use: the constructor's order is an obligation of its own
                r = r | v | self.class_attr(c, f)
                if not v and not self.class_attr(c, f):
                    r = r | self.typed(f)
            elif o[0] == 'CLS':
                k = an.p.classes.get(o[1])
                m = an.p.lookup(k, f) if k else None
                if m is not None:
                    r = r | frozenset([('BM', m.qual, o) if m.is_class else ('FN', m.qual)])
                elif k is not None:
                    if f in ('__name__', '__mro__', '__bases__'):
                        continue
                    r = r | self.class_attr(k, f) | an.heap.get((o, f), E)
            elif o[0] == 'ANYCLS':
                for k in an.p.descendants(an.p.classes[o[1]]):
                    m = an.p.lookup(k, f)
                    if m is not None:
                        r = r | frozenset([('BM', m.qual, ('CLS', k.name)) if m.is_class else ('FN', m.qual)])
                    else:
                        r = r | self.class_attr(k, f)
            elif o[0] == 'MOD':
                md = an.p.modules.get(o[1])
                x = an.p.resolve(md, f) if md else None
                sub = an.p.modules.get(o[1] + '.' + f)
                r = r | (self.ref(x) if x is not None else self.ref(sub) if sub is not None else E)
            elif o[0] == 'EXT':
                r = r | frozenset([('EXT', o[1] + '.' + f)])
            elif base(o)[0] == 'A' and f in VIEWS:
                r = r | frozenset([o])
            elif base(o)[0] in ('L', 'A', 'RNG', 'V', 'U'):
                v = an.raw(o, f)
                r = r | v | frozenset([('BM', '.' + f, o)])
            elif o[0] == 'FN' or o[0] == 'LAM':
                r = r | an.heap.get((o, f), E)
            elif o[0] in ('N', 'C'):
                continue
        for m, os_ in by.items():
            r = r | an.invoke(m, (frozenset(os_),), self.key, node)
        return r

    def typed(self, f):
        """a field that no analysed code stores: by its recorded type"""
        if not self.an.phase1 or not self.an.typed_on:
            return E
        t = self.an.types.fields.get(f)
        return self.an.of_type(t) if t is not None else E

    def e_Subscript(self, e):
        v = self.ev(e.value)
        sl = e.slice
        if isinstance(sl, ast.Slice):
            for x in (sl.lower, sl.upper, sl.step):
                self.ev(x)
            r = frozenset(o for o in v if base(o)[0] in ('A',))
            cont = [o for o in v if base(o)[0] in ('L', 'V')]
            if cont:
                o = self.an.new('L', e)
                self.an.put(o, '[]', self.an.elems(cont))
                r = r | frozenset([o])
            return r
        kv = self.ev(sl)
        view = any(isinstance(x, ast.Slice) for x in ast.walk(sl)) or any(base(o)[0] in ('L', 'A') for o in kv) and \
            not isinstance(sl, ast.Tuple)
        r = frozenset(o for o in v if base(o)[0] == 'A' and (view or (base(o)[1], '2d') in self.an.sets))
        r = r | self.an.elems(frozenset(o for o in v if base(o)[0] == 'A'))
        v2 = frozenset(o for o in v if base(o)[0] != 'A')
        if isinstance(sl, ast.Constant):
            r = r | self.an.items(v2, sl.value)
        elif isinstance(sl, ast.UnaryOp):
            r = r | self.an.elems(v2)
        else:
            r = r | self.an.elems(v2)
        for o in v2:
            c = self.an.cls_of(o)
            m = self.an.p.lookup(c, '__getitem__') if c is not None else None
            if m is not None:
                r = r | self.an.invoke(m, (frozenset([o]), E), self.key, e)
        return r

    def seq(self, e, kind='L'):
        o = self.an.new(kind, e)
        for i, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                self.an.put_elem(o, self.an.elems(self.ev(x.value)))
            else:
                self.an.put_elem(o, self.ev(x), i)
        return frozenset([o])

    def e_List(self, e):
        return self.seq(e)

    def e_Tuple(self, e):
        r = self.seq(e)
        for o in r:
            self.an.sets.add((o[1], 'tuple'))
        return r

    def e_Set(self, e):
        r = self.seq(e)
        for o in r:
            self.an.sets.add((o[1], 'set'))
        return r

    def is_set(self, v):
        return any(base(o)[0] == 'L' and (base(o)[1], 'set') in self.an.sets for o in v)

    def e_Dict(self, e):
        o = self.an.new('L', e)
        self.an.sets.add((o[1], 'dict'))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.an.put_elem(o, self.an.elems(self.ev(v)))
                continue
            self.ev(k)
            self.an.put_elem(o, self.ev(v), k.value if isinstance(k, ast.Constant) else None)
            if not isinstance(k, ast.Constant):
                self.an.put(o, 'keys', self.ev(k))
        return frozenset([o])

    def gens(self, gs, k):
        saved = dict(self.env)
        lsv = self.an.loops
        for g in gs:
            it = self.ev(g.iter)
            self.an.event('iterate', it, 'comprehension', g.iter)
            if self.is_set(it):
                self.an.event('order', it, 'comprehension', g.iter)
            self.an.loops = self.an.loops if not self.an.use_loops else self.an.loops + ((self.an.frame.module.rel, g.iter.lineno, g.iter.col_offset),)
            self.assign(g.target, self.iter_elems(it, g.iter), g.iter, None)
            for c in g.ifs:
                self.ev(c)
                self.env = self.narrow(self.env, c, True)
        r = k()
        self.an.loops = lsv
        self.env = saved
        return r

    def e_ListComp(self, e):
        o = self.an.new('L', e)
        self.gens(e.generators, lambda: self.an.put_elem(o, self.ev(e.elt)))
        return frozenset([o])

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        r = self.e_ListComp(e)
        for o in r:
            self.an.sets.add((o[1], 'set'))
        return r

    def e_DictComp(self, e):
        o = self.an.new('L', e)

        def k():
            self.an.put(o, 'keys', self.ev(e.key))
            self.an.put_elem(o, self.ev(e.value))
        self.an.sets.add((o[1], 'dict'))
        self.gens(e.generators, k)
        return frozenset([o])

    def iter_elems(self, v, e=None):
        r = E
        for o in v:
            b = base(o)
            if b[0] == 'A':
                r = r | (frozenset([o]) if (b[1], '2d') in self.an.sets else E) | self.an.elems([o])
            elif b[0] in ('L', 'V', 'U'):
                ks = self.an.raw(o, 'keys')
                if self.is_dict(o):
                    r = r | ks
                else:
                    r = r | self.an.raw(o, '[]')
            elif self.an.cls_of(o) is not None:
                m = self.an.p.lookup(self.an.cls_of(o), '__iter__')
                if m is not None:
                    r = r | self.an.elems(self.an.invoke(m, (frozenset([o]),), self.key, e))
        return r

    def is_dict(self, o):
        b = base(o)
        return b[0] == 'L' and (b[1], 'dict') in self.an.sets

    def e_Lambda(self, e):
        return frozenset([self.lam(e)])

    def lam(self, node):
        k = (self.fn.module.rel, node.lineno, node.col_offset)
        self.an.lams[k] = (node, dict(self.outer, **self.env), self.fn)
        return ('LAM', k)

    def e_IfExp(self, e):
        self.ev(e.test)
        t, f = self.possible(e.test)
        sv = self.env
        r = E
        if t:
            self.env = self.narrow(dict(sv), e.test, True)
            r = r | self.ev(e.body)
        if f:
            self.env = self.narrow(dict(sv), e.test, False)
            r = r | self.ev(e.orelse)
        self.env = sv
        return r

    def e_BoolOp(self, e):
        r = E
        sv = self.env
        env = dict(sv)
        for i, x in enumerate(e.values):
            self.env = env
            v = self.ev(x)
            last = i == len(e.values) - 1
            if isinstance(e.op, ast.Or):
                definitely = bool(v) and all(o[0] in ('I', 'RNG', 'MOD', 'EXT', 'CLS', 'FN') for o in v)
                r = r | (v if last else v - FN)
                if definitely:
                    break
                env = self.narrow(dict(env), x, False)
            else:
                if last:
                    r = r | v
                else:
                    r = r | frozenset(o for o in v if o[0] in ('N', 'C', 'L', 'A', 'V'))
                if v == FN:
                    r = r | FN
                    break
                env = self.narrow(dict(env), x, True)
        self.env = sv
        return r

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.env[e.target.id] = v
        return v

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        r = E
        al, bl = ([o for o in v if base(o)[0] in ('L', 'V')] for v in (a, b))
        if any(base(o)[0] == 'A' for o in a | b) or any(base(o)[0] == 'V' for o in a | b):
            r = r | frozenset([self.an.new('A', e)])
            two = [any(base(o)[0] == 'A' and (base(o)[1], '2d') in self.an.sets for o in x) for x in (a, b)]
            if all(two) if isinstance(e.op, ast.MatMult) else any(two):
                for o in r:
                    self.an.sets.add((o[1], '2d'))
        if al or bl:
            o = self.an.new('L', e)
            self.an.put(o, '[]', self.an.elems(al) | self.an.elems(bl))
            if self.is_set(a | b):
                self.an.sets.add((o[1], 'set'))
            if all(self.immut(x) for x in al + bl):
                self.an.sets.add((o[1], 'tuple'))
            r = r | frozenset([o])
        for o in a:
            c = self.an.cls_of(o)
            nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__'}.get(type(e.op).__name__)
            m = self.an.p.lookup(c, nm) if c is not None and nm else None
            if m is not None:
                r = r | self.an.invoke(m, (frozenset([o]), b), self.key, e)
        return r | (FC if not r else E)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return FC
        if any(base(o)[0] in ('A', 'V') for o in v):
            return frozenset([self.an.new('A', e)])
        return FC

    def e_Compare(self, e):
        self.ev(e.left)
        vs = [self.ev(c) for c in e.comparators]
        return FC

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value)
        return FC

    def e_Starred(self, e):
        return self.an.elems(self.ev(e.value))

    def y(self, e):
        if self.yields is None:
            self.yields = self.an.new('L', self.fn.node)
        return self.yields

    def e_Yield(self, e):
        o = self.y(e)
        self.an.put_elem(o, self.ev(e.value))
        return E

    def e_YieldFrom(self, e):
        o = self.y(e)
        self.an.put_elem(o, self.an.elems(self.ev(e.value)))
        return E

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        an = self.an
        f = e.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and \
                f.value.func.id == 'super':
            return self.super_call(e, f.attr)
        if isinstance(f, ast.Name) and f.id == 'super':
            return E
        fv = self.ev(f)
        args = []
        spread = E
        for a in e.args:
            if isinstance(a, ast.Starred):
                sp = self.ev(a.value)
                spread = spread | an.elems(sp)
            else:
                args.append(self.ev(a))
        kws = {}
        kwspread = E
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                kwspread = kwspread | an.elems(v)
            else:
                kws[k.arg] = v
        r = E
        by = {}
        for o in fv:
            if o[0] == 'BM' and not o[1].startswith('.'):
                by.setdefault(('m', o[1]), set()).add(o[2])
            else:
                by.setdefault(('o', o), set()).add(o)
        for (k, q), os_ in by.items():
            if k == 'm':
                r = r | self.call_fn(an.funcs[q], [frozenset(os_)] + args, kws, spread, kwspread, e)
            else:
                r = r | self.call_obj(q, args, kws, spread, kwspread, e, f)
        if not fv:
            an.unresolved[(an.frame.module.rel, e.lineno)] = ast.unparse(f)
        return r

    def super_call(self, e, name):
        an = self.an
        me = self.env.get(self.me, E) if self.me else E
        args = [self.ev(a) for a in e.args if not isinstance(a, ast.Starred)]
        spread = E
        for a in e.args:
            if isinstance(a, ast.Starred):
                spread = spread | an.elems(self.ev(a.value))
        kws = {k.arg: self.ev(k.value) for k in e.keywords if k.arg}
        for k in e.keywords:
            if not k.arg:
                self.ev(k.value)
        by = {}
        for o in me:
            c = an.cls_of(o) if o[0] != 'CLS' else an.p.classes.get(o[1])
            if c is None:
                continue
            mro = an.p.mro(c)
            if self.fn.cls not in mro:
                continue
            for k in mro[mro.index(self.fn.cls) + 1:]:
                if name in k.methods:
                    by.setdefault(k.methods[name], set()).add(o)
                    break
        r = E
        for m, os_ in by.items():
            r = r | self.call_fn(m, ([] if m.is_static else [frozenset(os_)]) + args, kws, spread, E, e)
        return r

    def call_fn(self, fn, args, kws, spread, kwspread, node):
        an = self.an
        a = fn.node.args
        names = [x.arg for x in a.args] + [x.arg for x in a.kwonlyargs]
        npos = len(a.args)
        slots = [None] * len(names)
        extra = E
        for i, v in enumerate(args):
            if i < npos:
                slots[i] = v
            else:
                extra = extra | v
        if spread:
            for i in range(len(args), npos):
                slots[i] = spread
            extra = extra | spread
        kwextra = E
        for k, v in kws.items():
            if k in names:
                slots[names.index(k)] = v
            else:
                kwextra = kwextra | v
        if kwspread:
            kwextra = kwextra | kwspread
            for i in range(npos):
                if slots[i] is None:
                    slots[i] = None
        tail = []
        if a.vararg is not None or a.kwarg is not None:
            tail = [extra, kwextra] if a.vararg is not None else [kwextra]
        an.calls.setdefault((an.frame.module.rel, getattr(node, 'lineno', 0)), set()).add(fn.qual)
        return an.invoke(fn, tuple(slots + tail), self.key, node)

    def call_value(self, fv, args, node):
        """apply callables to argument sets (callbacks)"""
        r = E
        for o in fv:
            if o[0] == 'BM' and not o[1].startswith('.'):
                r = r | self.call_fn(self.an.funcs[o[1]], [frozenset([o[2]])] + args, {}, E, E, node)
            elif o[0] in ('FN', 'LAM', 'CLS', 'EXT'):
                r = r | self.call_obj(o, args, {}, E, E, node, None)
        return r

    def construct(self, c, args, kws, spread, kwspread, node):
        an = self.an
        o = an.instance(c.name, node)
        i = an.p.lookup(c, '__init__')
        if i is not None:
            self.call_fn(i, [frozenset([o])] + args, kws, spread, kwspread, node)
        return frozenset([o])

    def call_obj(self, o, args, kws, spread, kwspread, e, f):
        an = self.an
        k = o[0]
        if k == 'FN':
            fn = an.funcs.get(o[1])
            return self.call_fn(fn, args, kws, spread, kwspread, e) if fn is not None else E
        if k == 'CLS':
            c = an.p.classes.get(o[1])
            return self.construct(c, args, kws, spread, kwspread, e) if c is not None else E
        if k == 'ANYCLS':
            r = E
            root = an.p.classes.get(o[1])
            for c in an.p.descendants(root) if root is not None else ():
                r = r | self.construct(c, args, kws, spread, kwspread, e)
            return r
        if k == 'LAM':
            node, env, fn = an.lams[o[1]]
            return self.call_lam(o, node, env, fn, args, kws, spread, e)
        if k == 'I' or k in ('K', 'S'):
            c = an.cls_of(o)
            m = an.p.lookup(c, '__call__') if c is not None else None
            if m is not None:
                return self.call_fn(m, [frozenset([o])] + args, kws, spread, kwspread, e)
            return E
        if k == 'EXT':
            return self.external(o[1], args, kws, spread, e)
        if k == 'BM':
            return self.builtin_method(o[1][1:], o[2], args, kws, e)
        return E

    def call_lam(self, o, node, env, fn, args, kws, spread, e):
        an = self.an
        key = (o, tuple(args), an.loops if not an.phase1 else ())
        if key in an.done:
            return an.memo.get(key, E)
        an.done.add(key)
        sub = Eval(an, fn, (), self.key)
        sub.outer = env
        sub.env = {}
        names = [x.arg for x in node.args.args]
        for i, n in enumerate(names):
            sub.env[n] = args[i] if i < len(args) else kws.get(n, spread)
            if sub.env[n] is E and i >= len(names) - len(node.args.defaults):
                sub.env[n] = self.ev(node.args.defaults[i - len(names) + len(node.args.defaults)])
        sub.me = None
        sv = an.frame
        an.frame = Frame(fn.module, fn.qual)
        if isinstance(node, ast.Lambda):
            r = sub.ev(node.body)
        else:
            sub.block(node.body)
            r = sub.ret if sub.yields is None else frozenset([sub.yields])
        an.frame = sv
        old = an.memo.get(key, E)
        if r - old:
            an.memo[key] = r | old
            an.changed = True
        return an.memo.get(key, E)

    def fresh_list(self, e, content, set_=False):
        o = self.an.new('L', e)
        self.an.put(o, '[]', content)
        if set_:
            self.an.sets.add((o[1], 'set'))
        return frozenset([o])

    def external(self, name, args, kws, spread, e):
        an = self.an
        allargs = E
        for a in args:
            allargs = allargs | a
        allargs = allargs | spread
        for v in kws.values():
            allargs = allargs | v
        short = name.split('.')[-1]
        root = name.split('.')[0]
        if root == 'builtins':
            return self.builtin(short, args, kws, spread, e)
        if 'out' in kws:
            an.event('mutate', kws['out'], 'out=', e)
            return kws['out']
        if name in ('copy.deepcopy', 'deepcopy'):
            return frozenset(an.clone(o) for o in (args[0] if args else E))
        if name == 'copy.copy':
            r = E
            for o in (args[0] if args else E):
                if o[0] in ('I', 'K', 'S') and an.phase1:
                    r = r | frozenset([o])
                elif o[0] in ('I', 'K', 'S'):
                    site = (an.frame.module.rel, e.lineno, e.col_offset)
                    r = r | (frozenset([('S', o, site)]) if o[0] != 'S' else frozenset([o]))
                elif o[0] in ('L', 'V'):
                    n = an.new('L', e)
                    an.put(n, '[]', an.raw(o, '[]'))
                    r = r | frozenset([n])
                elif o[0] == 'A':
                    r = r | frozenset([an.new('A', e)])
                else:
                    r = r | frozenset([o])
            return r
        if any((name + '.').startswith(c if c.endswith('.') else c + '.') for c in CLOCKS):
            an.event('clock', E, name, e)
            return E
        if root in ('np', 'numpy'):
            sub = name.split('.')
            if len(sub) > 2 and sub[1] == 'random':
                if short in ('RandomState', 'default_rng', 'Generator', 'SeedSequence', 'PCG64', 'MT19937'):
                    o = ('RNG', 'static' if an.static else 'fresh', (an.frame.module.rel, e.lineno))
                    an.event('newrng', frozenset([o]), short, e, allargs)
                    return frozenset([o])
                an.event('draw', frozenset([('EXT', 'np.random')]), short, e)
                if short == 'shuffle' and args:
                    an.event('mutate', args[0], 'shuffle', e)
                if short == 'seed':
                    an.event('reseed', frozenset([('EXT', 'np.random')]), short, e)
                if short == 'choice' and args:
                    return an.elems(args[0])
                return frozenset([an.new('A', e)])
            if short in NPMUT and args:
                an.event('mutate', args[0], short, e)
                return FN
            if sub[1:2] == ['ufunc'] or short == 'at' and args:
                an.event('mutate', args[0], 'ufunc.at', e)
            if short in ELEMENTWISE and not any(base(o)[0] in ('A', 'L', 'V') for o in allargs) or \
                    short in REDUCTIONS and 'axis' not in kws:
                return FC
            r = frozenset([an.new('A', e)])
            if self.rows(short, e, args):
                for o in r:
                    an.sets.add((o[1], '2d'))
            if short in NPALIAS and args:
                r = r | frozenset(o for o in args[0] if base(o)[0] in ('A', 'V'))
            if short in ('array', 'stack', 'concatenate', 'vstack', 'hstack', 'asarray', 'apply_along_axis'):
                objs = self.deep_objects(allargs)
                for o in r:
                    if o[0] == 'A' and objs:
                        an.put(o, '[]', objs)
            if args and any(o[0] in ('LAM', 'FN', 'BM') for o in args[0]):
                self.call_value(args[0], [frozenset([an.new('A', e)])] * 1, e)
            return r
        if root == 'random':
            if short in ('Random', 'SystemRandom'):
                o = ('RNG', 'static' if an.static else 'fresh', (an.frame.module.rel, e.lineno))
                an.event('newrng', frozenset([o]), short, e, allargs)
                return frozenset([o])
            an.event('draw', frozenset([('EXT', 'random')]), short, e)
            if short == 'shuffle' and args:
                an.event('mutate', args[0], 'shuffle', e)
            return an.elems(args[0]) if args else E
        if short == 'np_random':
            o = an.new('L', e)
            an.put_elem(o, frozenset([('RNG', 'env')]), 0)
            an.put_elem(o, FC, 1)
            an.sets.add((o[1], 'tuple'))
            return frozenset([o])
        if name.startswith('itertools.') or name in ('collections.deque', 'collections.OrderedDict', 'functools.reduce'):
            if short in ('product', 'permutations', 'combinations', 'zip_longest'):
                t = an.new('L', e, 'pair')
                t = ('L', t[1] + (1,), t[2])
                an.sets.add((t[1], 'tuple'))
                for i, a in enumerate(args):
                    if self.is_set(a):
                        an.event('order', a, short, e)
                    an.put_elem(t, an.elems(a), i if short in ('product', 'zip_longest') and not kws else None)
                return self.fresh_list(e, frozenset([t]))
            if self.is_set(allargs):
                an.event('order', allargs, short, e)
            return self.fresh_list(e, an.elems(allargs) | (an.elems(an.elems(allargs)) if short in ('chain', 'from_iterable') else E))
        if root in ('gym', 'spaces') or '.spaces.' in name:
            if short == 'sample':
                an.event('draw', frozenset([('EXT', 'gym space')]), short, e)
                return E
            return frozenset([('EXT', name + '()')]) if short[:1].isupper() else E
        if name == 'functools.partial':
            return args[0] if args else E
        if short == 'import_module':
            return frozenset([('EXT', '?module')])
        if name.startswith('heapq.') and args:
            an.event('mutate', args[0], short, e)
            if len(args) > 1:
                for o in args[0]:
                    an.put_elem(o, args[1])
            return an.elems(args[0])
        return E

    def rows(self, short, e, args):
        """is the array known to have rows"""
        a = e.args[0] if e.args else None
        if short in ('eye', 'identity', 'diag', 'outer', 'vstack', 'atleast_2d', 'meshgrid', 'column_stack'):
            return True
        if short in ('zeros', 'ones', 'empty', 'full'):
            return isinstance(a, (ast.Tuple, ast.List)) and len(a.elts) > 1 or isinstance(a, (ast.Attribute, ast.Name))
        if short in ('array', 'asarray', 'stack', 'zeros_like', 'ones_like', 'copy'):
            for o in args[0] if args else ():
                if base(o)[0] == 'A' and (base(o)[1], '2d') in self.an.sets:
                    return True
                if base(o)[0] == 'L' and any(base(x)[0] in ('L', 'A') for x in self.an.elems([o])):
                    return True
        return False

    def deep_objects(self, v):
        """instances held by containers (arrays of objects keep them)"""
        r, seen, work = set(), set(), list(v)
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            if self.an.cls_of(o) is not None:
                r.add(o)
            elif base(o)[0] == 'L':
                work += self.an.raw(o, '[]')
        return frozenset(r)

    def builtin(self, n, args, kws, spread, e):
        an = self.an
        a0 = args[0] if args else spread
        key = kws.get('key')
        if n in ('min', 'max', 'sorted') and key is not None:
            els = an.elems(a0) if len(args) <= 1 else frozenset().union(*args)
            if len(args) <= 1:
                els = self.iter_elems(a0)
            self.call_value(key, [els], e)
            if any(o[0] == 'EXT' and o[1] in ('builtins.id', 'builtins.hash') for o in key):
                an.event('clock', E, 'order by id/hash', e)
        if n in ('id', 'hash') and args:
            an.event('identity', a0, n, e)
        if n in ('open', 'input'):
            an.event('clock', E, n, e)
        if n in ('min', 'max'):
            if len(args) > 1:
                return frozenset().union(*args)
            r = self.iter_elems(a0)
            d = kws.get('default')
            return r | (d or E)
        if n in ('list', 'tuple', 'reversed', 'iter'):
            if self.is_set(a0):
                an.event('order', a0, n, e)
            r = self.fresh_list(e, self.iter_elems(a0) if args else E)
            if n == 'tuple':
                for o in r:
                    an.sets.add((o[1], 'tuple'))
            for o in r:
                for x in a0:
                    for kk, vv in self.positional_items(x):
                        an.put(o, kk, vv)
            return r
        if n == 'sorted':
            return self.fresh_list(e, self.iter_elems(a0))
        if n in ('set', 'frozenset'):
            return self.fresh_list(e, self.iter_elems(a0) if args else E, True)
        if n == 'dict':
            o = an.new('L', e)
            an.sets.add((o[1], 'dict'))
            for x in a0 if args else ():
                for kk, vv in self.positional_items(x):
                    an.put(o, kk, vv)
                an.put(o, '[]', an.raw(x, '[]'))
                an.put(o, '[*]', an.raw(x, '[*]'))
                for y in an.raw(x, '[]'):
                    if base(y)[0] == 'L' and (base(y)[1], 'tuple') in an.sets:
                        an.put_elem(o, self.pick(frozenset([y]), 1))
            for kk, v in kws.items():
                an.put_elem(o, v, kk)
            return frozenset([o])
        if n in ('enumerate', 'zip'):
            t = an.new('L', e)
            t = ('L', t[1] + (n,), t[2])
            an.sets.add((t[1], 'tuple'))
            if n == 'enumerate':
                if self.is_set(a0):
                    an.event('order', a0, n, e)
                an.put_elem(t, FC, 0)
                an.put_elem(t, self.iter_elems(a0), 1)
            else:
                for i, a in enumerate(args):
                    if self.is_set(a):
                        an.event('order', a, n, e)
                    an.put_elem(t, self.iter_elems(a), i)
                if spread:
                    an.put_elem(t, an.elems(spread))
            return self.fresh_list(e, frozenset([t]))
        if n in ('map', 'filter') and len(args) >= 2:
            for a in args[1:]:
                if self.is_set(a):
                    an.event('order', a, n, e)
            r = self.call_value(args[0], [self.iter_elems(a) for a in args[1:]], e)
            return self.fresh_list(e, r if n == 'map' else self.iter_elems(args[1]))
        if n == 'next':
            d = args[1] if len(args) > 1 else E
            if self.is_set(a0):
                an.event('order', a0, n, e)
            return an.elems(a0) | d
        if n == 'getattr' and len(args) >= 2:
            k = e.args[1]
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                return self.attr(a0, k.value, e) | (args[2] if len(args) > 2 else E)
            r = args[2] if len(args) > 2 else E
            if any(o == ('EXT', '?module') for o in a0):
                return frozenset([('ANYCLS', 'Vehicle')])
            for o in a0:
                c = an.cls_of(o)
                if c is not None:
                    an.event('getattr', frozenset([o]), '*', e)
                    for src in (an.heap, an.base_heap):
                        for (oo, ff) in sorted(an.index(src).get(base(o), ()), key=lambda k: k[1]):
                            if not ff.startswith('['):
                                r = r | an.raw(o, ff)
            return r
        if n == 'setattr' and len(args) >= 3:
            k = e.args[1]
            self.store_attr(a0, k.value if isinstance(k, ast.Constant) else '*', args[2], e, None)
            return FN
        if n == 'delattr':
            an.event('store', a0, '*', e)
            return FN
        if n == 'type' and len(args) == 1:
            return frozenset(('CLS', an.cls_of(o).name) for o in a0 if an.cls_of(o) is not None)
        if n == 'vars' and args:
            return self.attr(a0, '__dict__', e)
        if n == 'sum':
            return an.elems(a0)
        return FC

    def positional_items(self, x):
        an = self.an
        out = []
        for src in (an.heap, an.base_heap):
            for (o, f) in an.index(src).get(base(x), ()):
                if f.startswith('[') and f not in ('[]', '[*]'):
                    out.append((f, an.raw(x, f)))
        return out

    def builtin_method(self, name, o, args, kws, e):
        """method of a container, an array, a generator or an unknown object"""
        an = self.an
        b = base(o)
        me = frozenset([o])
        if b[0] == 'RNG':
            if name in DRAWS:
                an.event('draw', me, name, e)
                if name == 'shuffle' and args:
                    an.event('mutate', args[0], 'shuffle', e)
                one = name in SINGLE and 'size' not in kws and len(args) <= SINGLE[name]      # a single draw is a number
                if name == 'choice' and args:
                    return an.elems(args[0]) | (E if one else frozenset([an.new('A', e)]))
                return E if one else frozenset([an.new('A', e)])
            if name in ('seed', 'set_state', '__setstate__'):
                an.event('reseed', me, name, e)
            return E
        if name == 'copy':
            if b[0] == 'A':
                return frozenset([an.new('A', e)])
            n = an.new('L', e)
            an.put(n, '[]', an.raw(o, '[]'))
            an.put(n, '[*]', an.raw(o, '[*]'))
            for kk, vv in self.positional_items(o):
                an.put(n, kk, vv)
            for kind in ('set', 'dict'):
                if b[0] == 'L' and (b[1], kind) in an.sets:
                    an.sets.add((n[1], kind))
            return frozenset([n])
        if name in MUT and not self.immut(o):
            an.event('mutate', me, '.' + name, e)
            i = ADDERS.get(name)
            if i is not None and len(args) > i:
                if name in ('extend', 'update', 'extendleft'):
                    an.put_elem(o, an.elems(args[i]))
                    for x in args[i]:
                        for kk, vv in self.positional_items(x):
                            an.put(o, kk, vv)
                else:
                    an.put_elem(o, args[i])
            if name == 'setdefault' and args:
                an.put(o, 'keys', args[0])
            if name == 'update':
                for x in args[0] if args else E:
                    an.put(o, 'keys', an.raw(x, 'keys'))
                for kk, v in kws.items():
                    an.put_elem(o, v, kk)
            if name == 'sort' and 'key' in kws:
                self.call_value(kws['key'], [an.elems(me)], e)
            if name == 'pop' and b[0] == 'L' and (b[1], 'set') in an.sets:
                an.event('order', me, 'pop', e)
            if name in ('pop', 'popleft', 'popitem', 'setdefault'):
                r = an.elems(me)
                return r | (args[1] if len(args) > 1 else E)
            return FN
        if name == 'get':
            k = e.args[0] if e.args else None
            r = an.items(me, k.value) if isinstance(k, ast.Constant) else an.elems(me)
            return r | (args[1] if len(args) > 1 else FN)
        if name == 'values':
            return self.fresh_list(e, an.elems(me))
        if name == 'keys':
            return self.fresh_list(e, an.raw(o, 'keys'))
        if name == 'items':
            t = ('L', (an.frame.module.rel, e.lineno, e.col_offset, 'items'), 'new')
            an.sets.add((t[1], 'tuple'))
            an.put_elem(t, an.raw(o, 'keys') or FC, 0)
            an.put_elem(t, an.elems(me), 1)
            return self.fresh_list(e, frozenset([t]))
        if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
            return self.fresh_list(e, an.elems(me) | an.elems(args[0] if args else E), True)
        if b[0] == 'A':
            if name in VIEWM:
                return me
            if name in ('tolist', 'item', 'flatten', 'astype', 'dot', 'sum', 'mean', 'clip', 'max', 'min', 'round', 'any', 'all'):
                n = an.new('A', e)
                an.put(n, '[]', an.raw(o, '[]'))
                return frozenset([n])
            return frozenset([an.new('A', e)])
        if b[0] == 'V':
            return E
        return FC


def phase1(prog, types):
    """whole-program points-to facts about the objects that exist before any analysed entry is called"""
    an = Analysis(prog, types, phase1=True, maxpass=30)
    es = []
    for f in prog.all_funcs():
        es.append((f, an.entry(f)))
    an.run(es)
    return an
