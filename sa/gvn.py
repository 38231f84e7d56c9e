"""Gated value numbering: a flow-sensitive abstract interpretation of the package's syntax trees into canonical terms.

One pass per function, joining (never forking) at merges; calls whose target is statically unique are inlined, others
stay uninterpreted.  Loops become canonical comprehension-like terms (any/sum/mapf/first/foreach) or general folds.
"""
import ast
from .terms import *
from . import terms as TM
from .front import Class, Func, Module

NORET = mk('noret')
EMPTY = mk('trace')
VEC2 = {'position', 'velocity', 'direction', 'start', 'end', 'center', 'direction_lateral', 'destination',
        'destination_direction', 'goal_position', 'position_'}
PURE_EXT = ('pygame.math.', 'np.', 'numpy.', 'math.', 'itertools.', 'copy.', 'operator.', 'functools.', 'collections.', 'typing.',
            'importlib.', 'os.', 'gym.', 'abc.', 'pd.', 'pandas.')
LOGCALLS = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'log', 'critical'}
RNG = {'rand', 'randn', 'randint', 'uniform', 'choice', 'normal', 'shuffle', 'random', 'random_sample', 'permutation',
       'integers', 'standard_normal'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault',
            'popitem', 'appendleft', 'popleft', 'add', 'discard', 'fill', 'extendleft', 'rotate'}
# functions whose callable parameter is a mapping from parameters to matrices (no effect of its own)
MAPPINGS = {'polytope', 'parameter_box_to_polytope', 'polytope_from_estimation'}
PURE_METHODS = {'copy', 'keys', 'values', 'items', 'get', 'index', 'count', 'format', 'join', 'split', 'startswith',
                'endswith', 'dot', 'any', 'all', 'sum', 'min', 'max', 'mean', 'astype', 'flatten', 'reshape', 'tolist',
                'item', 'ravel', 'transpose', 'round', 'clip', 'argmin', 'argmax', 'from_records', 'lower', 'upper',
                'strip', 'squeeze', 'cumsum', 'prod', 'std', 'nonzero', 'is_integer', 'append_', 'isdisjoint', 'union',
                'get_width', 'get_height', 'get_size', 'rotate'}


NPALIAS = {'amin': 'min', 'amax': 'max', 'row_stack': 'vstack', 'product': 'prod', 'identity': 'eye', 'radians': 'deg2rad',
           'degrees': 'rad2deg', 'alltrue': 'all', 'sometrue': 'any', 'cumproduct': 'cumprod', 'absolute': 'abs',
           'asanyarray': 'asarray', 'fix': 'trunc', 'in1d': 'isin', 'float_': 'float64', 'ndim': 'ndim'}
NPMETHODS = {'dot', 'any', 'all', 'sum', 'min', 'max', 'mean', 'reshape', 'ravel', 'transpose', 'round', 'clip', 'argmin',
             'argmax', 'squeeze', 'cumsum', 'prod', 'std', 'nonzero'}
# parameter names of library functions whose arguments may be given by position or by name
SIGNATURES = {
    'np.roll': ('a', 'shift', 'axis'), 'np.concatenate': ('arrays', 'axis'), 'np.repeat': ('a', 'repeats', 'axis'),
    'np.linspace': ('start', 'stop', 'num'), 'np.tile': ('A', 'reps'), 'np.reshape': ('a', 'newshape'),
    'np.full': ('shape', 'fill_value', 'dtype'), 'np.zeros': ('shape', 'dtype'), 'np.ones': ('shape', 'dtype'),
    'np.flip': ('m', 'axis'), 'np.moveaxis': ('a', 'source', 'destination'), 'np.stack': ('arrays', 'axis'),
    'np.transpose': ('a', 'axes'), 'np.fromfunction': ('function', 'shape'), 'np.interp': ('x', 'xp', 'fp'),
    'np.linalg.norm': ('x', 'ord', 'axis'), 'np.round': ('a', 'decimals'), 'np.tensordot': ('a', 'b', 'axes'),
    'np.min': ('a', 'axis'), 'np.max': ('a', 'axis'), 'np.amin': ('a', 'axis'), 'np.amax': ('a', 'axis'),
    'np.sum': ('a', 'axis'), 'np.mean': ('a', 'axis'), 'np.prod': ('a', 'axis'), 'np.any': ('a', 'axis'),
    'np.all': ('a', 'axis'), 'np.argmin': ('a', 'axis'), 'np.argmax': ('a', 'axis'), 'np.cumsum': ('a', 'axis'),
    'np.sort': ('a', 'axis'), 'np.argsort': ('a', 'axis'), 'np.expand_dims': ('a', 'axis'), 'np.diag': ('v', 'k'),
    'np.squeeze': ('a', 'axis'), 'np.eye': ('N',), 'np.ravel_multi_index': ('multi_index', 'dims'),
    'gym.spaces.Box': ('low', 'high', 'shape', 'dtype'), 'gym.spaces.Discrete': ('n',), 'gym.spaces.Tuple': ('spaces',),
    'gym.spaces.Dict': ('spaces',), 'pandas.DataFrame': ('data', 'index', 'columns', 'dtype', 'copy'),
    'pygame.Surface': ('size', 'flags'), 'pygame.draw.rect': ('surface', 'color', 'rect', 'width'),
    'pygame.draw.line': ('surface', 'color', 'start_pos', 'end_pos', 'width'),
    'pygame.draw.polygon': ('surface', 'color', 'points', 'width')}


class Unsupported(Exception):
    pass


class Summary(object):
    def __init__(self, ret, st, it):
        self.ret, self.heap, self.trace, self.raised, self.it = ret, st.heap, st.trace, st.raised, it
        self.st = st
        self.events = it.events


class St(object):
    __slots__ = ('locals', 'heap', 'live', 'flive', 'ret', 'raised', 'trace', 'ver', 'brk', 'cont', 'allocs')

    def copy(self):
        s = St()
        s.locals, s.heap, s.ver = dict(self.locals), dict(self.heap), dict(self.ver)
        s.live, s.flive, s.ret, s.raised, s.trace = self.live, self.flive, self.ret, self.raised, self.trace
        s.brk, s.cont = self.brk, self.cont
        s.allocs = self.allocs
        return s


class Frame(object):
    def __init__(self, module, cls, func, selfcls=None, parent=None):
        self.module, self.cls, self.func, self.selfcls, self.parent = module, cls, func, selfcls, parent


def contains_op(t, ops):
    return any(x.op in ops for x in subterms(t))


class Interp(object):
    def __init__(self, prog, types, baseline=(), spec_module=None, max_depth=14, no_inline=(), unroll=True):
        self.unroll = unroll
        self.instead = {}       # functions read by their reference definition
        self.p, self.types, self.baseline = prog, types, baseline
        self.st = self.frame = None
        self.max_depth, self.no_inline = max_depth, set(no_inline)
        self.events, self.n, self.stack, self.side = [], 0, [], {}
        self.guards = [TRUE]
        self.exact = {}          # ground object term -> exact Class
        self.unknowns = []
        self.inlined = set()
        self.nodes = 0
        self.swap, self.twice = frozenset(), set()
        TM.is_object[0] = self.is_object

    # ------------------------------------------------------------------ types
    def is_object(self, t):
        ty = self.tyof(t)
        return isinstance(ty, Class) or ty == 'obj'

    def tyof(self, t):
        if t in self.exact:
            return self.exact[t]
        if t.op == 'sym':
            return self.types.syms.get(t.args[0])
        if t.op == 'attr':
            return self.types.fields.get(t.args[1])
        if t.op == 'idx':
            b = self.tyof(t.args[0])
            if isinstance(b, tuple):
                if b[0] == 'list':
                    return b[1]
                if b[0] == 'tuple' and t.args[1].op == 'num':
                    i = int(t.args[1].args[0])
                    return b[1][i] if 0 <= i < len(b[1]) else None
            if b == 'dict' and t.args[0].op == 'attr' and t.args[0].args[1] == 'graph':
                return 'dict'       # RoadNetwork.graph: origin -> destination -> lanes
            if t.args[0].op == 'concat':
                es = [self.tyof(x) for x in t.args[0].args]
                if all(isinstance(e, tuple) and e[0] == 'list' for e in es):
                    return self.types.join([e[1] for e in es])
            return None
        if t.op == 'vcall':
            return self.types.rets.get(t.args[0])
        if t.op == 'call' and t.args[0] == 'deepcopy':
            return self.tyof(t.args[1])
        if t.op == 'call' and t.args[0] in ('minby', 'maxby'):
            b = self.tyof(t.args[1])
            return b[1] if isinstance(b, tuple) and b[0] == 'list' else None
        if t.op in ('first', 'fold'):
            return self.types.anyty(self, t)
        if t.op == 'new':
            return self.p.classes.get(t.args[0])
        if t.op == 'mu':
            return None
        return None

    # ------------------------------------------------------------------ entry
    given = {}      # position of a parameter that may be None -> whether it is passed, in the case looked at

    def run(self, func, self_cls=None, args=None, self_term=None, live=TRUE, ptypes=None):
        reset_budget()
        self.ptypes = ptypes
        st = St()
        st.locals, st.heap, st.ver, st.allocs = {}, {}, {}, {}
        st.live = st.flive = live
        st.ret, st.raised, st.trace, st.brk, st.cont = NORET, FALSE, EMPTY, FALSE, FALSE
        self.st = st
        a = func.node.args
        names = [x.arg for x in a.args]
        env = {}
        selfcls = self_cls
        if func.cls and not func.is_static and names:
            if func.is_class:
                env[names[0]] = mk('cls', self_cls.name if self_cls else func.cls.name)
            else:
                s = self_term or sym('self')
                env[names[0]] = s
                if self_cls is not None:
                    self.exact[s] = self_cls
            names = names[1:]
        for i, n in enumerate(names):
            env[n] = (args or {}).get(n) or (args or {}).get(i) or self.param_sym(func, n, i)
        for x in a.kwonlyargs:
            env[x.arg] = (args or {}).get(x.arg) or self.param_sym(func, x.arg, None)
        if a.vararg:
            env[a.vararg.arg] = sym('*' + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = sym('**' + a.kwarg.arg)
        st.locals = env
        self.frame = Frame(func.module, func.cls, func, selfcls)
        self.stack = [func]
        ret = self.body(func)
        st = self.st
        ret = constrain(ret, NOT(st.raised)) if st.raised is not FALSE else ret
        ret = ite(st.raised, mk('RAISE'), ret)
        return Summary(self.freeze_out(ret), st, self)

    def param_sym(self, func, n, i):
        """parameters are numbered, so that renaming one changes nothing"""
        if i in self.given:
            if not self.given[i]:
                return NONE
            s = sym('p%d given' % i)
        else:
            s = sym('p%d' % i if i is not None else 'k_' + n)
        if self.ptypes is not None and i is not None and i < len(self.ptypes):
            ty = self.types.decode(self.ptypes[i])
            self.types.syms[s.args[0]] = ty
            if ty == 'vec2':
                return self.param_vec(func, n, s)
            return truthy(s) if ty == 'bool' else s
        ann = next((x.annotation for x in func.node.args.args + func.node.args.kwonlyargs if x.arg == n), None)
        ty = self.types.ann(func.module, ann) if ann is not None else None
        self.types.syms[s.args[0]] = ty
        if ty == 'vec2' or n in VEC2:
            return self.param_vec(func, n, s)
        if ty == 'bool':
            return truthy(s)
        return s

    def param_vec(self, func, n, s):
        """a point of the plane, or None where that is the default"""
        v = mk('vec', mk('idx', s, ZERO), mk('idx', s, ONE))
        a = func.node.args
        ds = dict(zip([x.arg for x in a.args][::-1], a.defaults[::-1]))
        ds.update((x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
        d = ds.get(n)
        return ite(isnone(s), NONE, v) if isinstance(d, ast.Constant) and d.value is None else v

    def body(self, func):
        gen = self.is_gen(func.node)
        if gen:
            o = self.newobj(mk('list'))
            self.st.locals['@yield'] = o
        entry = self.st.live
        self.block(func.node.body)
        r = subst_leaf(self.st.ret, NORET, NONE)
        if entry is not TRUE:
            r = constrain(r, entry)
        return self.st.locals['@yield'] if gen else r

    _gen = {}

    def is_gen(self, node):
        r = self._gen.get(node)
        if r is None:
            r = False
            st = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
            while st:
                x = st.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    continue
                st += list(ast.iter_child_nodes(x))
            self._gen[node] = r
        return r

    # ------------------------------------------------------------------ heap
    def newobj(self, content):
        self.n += 1
        o = mk('obj', self.n)
        self.st.heap[(o, '[]')] = content
        return o

    def distinct(self, t, again):
        """an object made by the same expression on the same operands as an earlier one is another object"""
        def one(x):
            n = self.st.allocs.get(x, 0)
            self.st.allocs = dict(self.st.allocs)
            self.st.allocs[x] = n + 1
            if n:
                self.twice.add(x)
            if x in self.swap and n < 2:
                n = 1 - n
            return again(x, num(n)) if n else x
        return self.map_ite(t, one)

    def deref(self, t):
        """container content of a value"""
        if t.op == 'ite':
            return lift('deref%d' % id(self.st.heap), lambda x: self.deref(x), t) if False else \
                self.map_ite(t, self.deref)
        return self.st.heap.get((t, '[]'), t)

    def map_ite(self, t, f):
        if t.op != 'ite':
            return f(t)
        c = mk('ite', t.args[0], TRUE, FALSE)
        return ite(c, self.map_ite(t.args[1], f), self.map_ite(t.args[2], f))

    def freeze(self, t, seen=(), keep=()):
        """replace fresh containers by their content, closures by canonical functions"""
        memo = {}

        def go(x, path):
            if x in memo:
                return memo[x]
            if x.op == 'obj':
                c = self.st.heap.get((x, '[]'))
                if x in keep:
                    return x
                if c is None or x in path:
                    return mk('cyc')
                r = go(defined(c), path + (x,))
            elif x.op in ('lam', 'bound', 'func') and x.op != 'func':
                r = self.fnterm(x)
            elif not hits(x):
                r = x
            else:
                r = rebuild(x, lambda y: go(y, path))
            memo[x] = r
            return r
        hm = {}

        def hits(x):
            r = hm.get(x)
            if r is None:
                r = x.op in ('obj', 'lam', 'bound') or any(TM._any(a, hits) for a in x.args)
                hm[x] = r
            return r
        return go(t, ())

    def freeze_out(self, t):
        """a value that outlives the call: a fresh container holding the whole content of one that existed before is a
        copy of it, and not that container"""
        if t.op == 'ite' and any(x.op == 'obj' for x in leaves(t)):
            return self.freeze(self.map_ite(t, self.freeze_out))
        if t.op == 'obj':
            c = self.st.heap.get((t, '[]'))
            if c is not None and c.op == 'ite':
                return self.map_ite(c, self.out_of)
            if c is not None:
                return self.out_of(c)
        return self.freeze(t)

    def out_of(self, c):
        c = self.freeze(c)
        return mk('call', 'copy', c) if c.op in ('sym', 'attr', 'idx') else c

    def fnterm(self, f, nargs=None):
        """canonical form of a callable: its body over canonical argument binders"""
        if f in self.side and self.side[f][0] == 'fn':
            return self.side[f][1]
        if nargs is None:
            nargs = self.nargs(f)
        tmps = [self.tmp('a') for _ in range(nargs)]
        sv, svst = self.guards, self.st
        self.st = self.st.copy()
        self.st.trace = EMPTY
        try:
            v = self.apply(f, tmps, {})
            v = self.freeze(v)
        finally:
            self.st = svst
        h = height(v)
        m = {t: mk('ix', h + i) for i, t in enumerate(tmps)}
        return mk('fn', subst(v, m), num(h), num(nargs))

    def nargs(self, f):
        if f.op == 'lam':
            node = self.side[f][0]
            return len(node.args.args)
        if f.op == 'bound':
            fn = self.side[f][0]
            return len(fn.node.args.args) - 1
        if f.op == 'func':
            return len(self.side[f].node.args.args)
        return 1

    def tmp(self, k='t'):
        self.n += 1
        return mk('tmp', '%s%d' % (k, self.n))

    def unknown(self, node, why=''):
        self.n += 1
        u = mk('unknown', self.n)
        self.unknowns.append((getattr(node, 'lineno', 0), type(node).__name__ + ' ' + why))
        return u

    def load_attr(self, o, f, node=None):
        if o.op == 'ite':
            return self.map_live(o, lambda x: self.load_attr(x, f, node))
        self.event('deref', (o, f), node)
        k = (o, f)
        if k in self.st.heap:
            return self.st.heap[k]
        if f == 'shape' and o.op == 'call' and o.args[0] in ('np.zeros', 'np.ones') and o.args[1].op in ('tuple', 'list'):
            return mk('tuple', *o.args[1].args)
        if f == 'T':
            return self.ext_call('np.transpose', [o], {}, node)
        if f == 'shape' and o.op == 'idx' and o.args[1].op in ('list', 'vec') and \
                all(x.op == 'num' for x in o.args[1].args):     # of a selection: only how many are taken matters
            o = index(o.args[0], mk(o.args[1].op, *[num(i) for i in range(len(o.args[1].args))]))
        return self.init_attr(o, f, node)

    def map_live(self, t, f):
        """apply an effectful function over the leaves of a diagram, each under its guard"""
        if t.op != 'ite':
            return f(t)
        c = mk('ite', t.args[0], TRUE, FALSE)
        return self.branch(c, lambda: self.map_live(t.args[1], f), lambda: self.map_live(t.args[2], f))

    def branch(self, c, fa, fb, cont=None):
        """value of (fa() if c else fb()), with effects merged"""
        c = self.known(c)
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        st = self.st
        a, b = st.copy(), st.copy()
        a.live = a.flive = AND(st.live, c)
        b.live = b.flive = AND(st.live, NOT(c))
        if a.live is FALSE:
            return fb()
        if b.live is FALSE:
            return fa()
        self.st = a
        x = fa()
        a = self.st
        self.st = b
        y = fb()
        b = self.st
        if cont is not None:
            a, b = cont(a, b)
        self.st = self.merge(c, a, b, st)
        return ite(c, x, y)

    def known(self, c):
        """simplify a condition by the current path condition"""
        if c.op != 'ite' or self.st.live is TRUE:
            return c
        if AND(self.st.live, c) is FALSE:
            return FALSE
        if AND(self.st.live, NOT(c)) is FALSE:
            return TRUE
        return c

    def merge(self, c, a, b, st):
        r = st.copy()
        r.live = OR(a.live, b.live)
        r.ret = ite(c, a.ret, b.ret)
        r.raised = OR(a.raised, b.raised)
        r.trace = ite(c, a.trace, b.trace)
        r.brk, r.cont = OR(a.brk, b.brk), OR(a.cont, b.cont)
        if a.allocs is not b.allocs:
            r.allocs = {k: max(a.allocs.get(k, 0), b.allocs.get(k, 0)) for k in list(a.allocs) + list(b.allocs)}
        else:
            r.allocs = a.allocs
        if a.live is FALSE and b.live is not FALSE and a.cont is st.cont and a.brk is st.brk:
            r.locals = dict(b.locals)
        elif b.live is FALSE and a.live is not FALSE and b.cont is st.cont and b.brk is st.brk:
            r.locals = dict(a.locals)
        else:
            r.locals = {}
            for k in list(a.locals) + [k for k in b.locals if k not in a.locals]:
                x, y = a.locals.get(k, UNDEF), b.locals.get(k, UNDEF)
                r.locals[k] = x if x is y else ite(c, x, y)
        for k in set(a.heap) | set(b.heap):
            x = a.heap.get(k)
            y = b.heap.get(k)
            if x is y:
                r.heap[k] = x
                continue
            if x is None:
                x = self.default(k, a)
            if y is None:
                y = self.default(k, b)
            r.heap[k] = ite(c, x, y)
        for k in set(a.ver) | set(b.ver):
            x, y = a.ver.get(k, ZERO), b.ver.get(k, ZERO)
            if x is not y:
                r.ver[k] = ite(c, x, y)
        if st.live is not st.flive:
            # paths that left by break/continue before this statement keep what they had
            g = st.live
            for k, v in list(r.locals.items()):
                o = st.locals.get(k, UNDEF)
                if v is not o:
                    r.locals[k] = ite(g, v, o)
            for k, v in list(r.heap.items()):
                o = st.heap.get(k)
                if v is not o:
                    r.heap[k] = ite(g, v, self.default(k, st) if o is None else o)
            for k, v in list(r.ver.items()):
                o = st.ver.get(k, ZERO)
                if v is not o:
                    r.ver[k] = ite(g, v, o)
            if r.trace is not st.trace:
                r.trace = ite(g, r.trace, st.trace)
            if r.ret is not st.ret:
                r.ret = ite(g, r.ret, st.ret)
        return r

    def default(self, k, st):
        sv, self.st = self.st, st
        try:
            if k[1] == '[]':
                if k[0].op == 'obj':
                    return UNDEF
                return k[0]
            if isinstance(k[1], T):
                return UNDEF
            return self.raw_attr(k[0], k[1])
        finally:
            self.st = sv

    def raw_attr(self, o, f):
        v = self.st.ver.get(f)
        if f in VEC2 and o.op not in ('cls', 'mod') and not self.scalar(o, f):
            b = self.mk_attr(o, f, v)
            return self.map_ite(b, lambda t: mk('vec', mk('idx', t, ZERO), mk('idx', t, ONE)))
        r = self.mk_attr(o, f, v)
        if f in self.types.boolfields and o.op != 'mod':
            return truthy(r)
        return r

    def scalar(self, o, f):
        """the turning direction of a circular lane is a sign"""
        ty = self.tyof(o) if f == 'direction' else None
        return isinstance(ty, Class) and any(c.name == 'CircularLane' for c in self.p.mro(ty))

    def mk_attr(self, o, f, v):
        if v is None or v is ZERO:
            return mk('attr', o, f)
        return lift('attrv', lambda x: mk('attr', o, f) if x is ZERO else mk('attr', o, f, x), v)

    def init_attr(self, o, f, node):
        p = self.p
        if o.op == 'mod':
            m = p.modules[o.args[0]]
            return self.global_name(m, f, node)
        if o.op == 'extmod':
            return self.ext(o.args[0] + '.' + f)
        if o.op == 'cls':
            c = p.classes.get(o.args[0])
            if f == '__name__':
                return strc(o.args[0])
            if c is None:
                return mk('attr', o, f)
            fn = p.lookup(c, f)
            if fn is not None:
                return self.bound_class(fn, o)
            ca = p.class_attr(c, f)
            if ca:
                if f in self.baseline and not self.is_table(ca[1]):
                    return mk('attr', mk('cls', ca[0].name), f)
                return self.class_const(ca[0], f, ca[1])
            return mk('attr', o, f)
        if o.op == 'super':
            return self.bound_super(o, f)
        if o is NONE:
            return mk('raise', 'AttributeError')
        ty = self.tyof(o)
        if f == '__class__':
            return mk('call', 'type', o)
        if f == '__dict__':
            return mk('attr', o, f)
        impls = self.impls(o, ty, f)
        if impls:
            if len(impls) == 1:
                fn = next(iter(impls))
                if fn.is_property:
                    if not fn.abstract and self.can_inline(fn):
                        return self.call_func(fn, [o], {}, selfcls=ty if o in self.exact else None)
                    return self.raw_attr(o, f)
                return self.bind(fn, o)
            if any(fn.is_property for fn in impls):
                return self.raw_attr(o, f)
            return self.bind_virtual(f, o)
        if isinstance(ty, Class):
            ca = p.class_attr(ty, f)
            if ca and (f not in self.baseline or self.is_table(ca[1])) and f not in self.types.written:
                subs = [d for d in p.descendants(ty) if f in d.attrs]
                if o in self.exact or not [d for d in subs if d is not ca[0]]:
                    return self.class_const(ca[0], f, ca[1])
        else:
            # receiver of unknown type: a class-level constant introduced by a refactoring
            defs = [c for c in p.classes.values() if f in c.attrs]
            if len(defs) == 1 and f not in self.baseline and f not in self.types.written:
                return self.class_const(defs[0], f, defs[0].attrs[f])
        return self.raw_attr(o, f)

    def is_table(self, e):
        return isinstance(e, ast.Dict)

    def impls(self, o, ty, f):
        """the functions an attribute name may denote on this receiver"""
        p = self.p
        if isinstance(ty, Class):
            base = p.lookup(ty, f)
            if o in self.exact and not (base and self.is_stub(base)):
                return {base} if base else set()
            s = set()            # an unimplemented method stands for whatever the subclasses define
            for d in p.descendants(ty):
                m = p.lookup(d, f)
                if m is not None and not (m.abstract or self.is_stub(m)):
                    s.add(m)
            if not s and base:
                s.add(base)
            return s
        if ty is None and o.op not in ('num', 'poly', 'vec', 'list', 'tuple', 'dict', 'str', 'obj', 'mapf', 'concat', 'flatmap'):
            s = {c.methods[f] for c in p.classes.values() if f in c.methods and
                 not (c.methods[f].abstract or self.is_stub(c.methods[f]))}
            if f in PURE_METHODS or f in MUTATORS or f in RNG:
                return set()
            return s
        return set()

    def is_stub(self, fn):
        b = [x for x in fn.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        return len(b) == 1 and isinstance(b[0], ast.Raise) or not b or len(b) == 1 and isinstance(b[0], ast.Pass)

    def is_hook(self, fn):
        """a method left to subclasses: all it does is raise NotImplementedError"""
        b = [x for x in fn.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        return len(b) == 1 and isinstance(b[0], ast.Raise) and b[0].exc is not None and \
            'NotImplementedError' in ast.unparse(b[0].exc)

    def bind(self, fn, o):
        if fn.is_static:
            return self.funcref(fn)
        if fn.is_class:
            ty = self.tyof(o)
            c = mk('cls', ty.name) if isinstance(ty, Class) and o in self.exact else mk('call', 'type', o)
            if not (isinstance(ty, Class) and o in self.exact):
                c = mk('cls', fn.cls.name) if not fn.cls.subclasses else c
            b = mk('bound', fn.module.name + ':' + fn.qual, c)
            self.side[b] = (fn, c)
            return b
        b = mk('bound', fn.module.name + ':' + fn.qual, o)
        self.side[b] = (fn, o)
        return b

    def bind_virtual(self, name, o):
        b = mk('vbound', name, o)
        return b

    def bound_class(self, fn, c):
        if fn.is_class:
            b = mk('bound', fn.module.name + ':' + fn.qual, c)
            self.side[b] = (fn, c)
            return b
        return self.funcref(fn)

    def funcref(self, fn):
        t = mk('func', fn.module.name + ':' + fn.qual)
        self.side[t] = fn
        return t

    def bound_super(self, o, f):
        s = o.args[1]
        dyn = self.p.classes[o.args[2]]
        start = self.p.classes[o.args[0]]
        mro = self.p.mro(dyn)
        for c in mro[mro.index(start) + 1:]:
            if f in c.methods:
                fn = c.methods[f]
                if fn.is_property:
                    return self.call_func(fn, [s], {}, selfcls=self.exact.get(s))
                b = mk('bound', fn.module.name + ':' + fn.qual, s)
                self.side[b] = (fn, s)
                return b
            if f in c.attrs:
                return self.class_const(c, f, c.attrs[f])
        if f == '__init__':
            ext = [ast.unparse(b) for c in mro[mro.index(start):] for b in c.node.bases
                   if not isinstance(self.p.resolve_expr(c.module, b), Class)]
            if not [b for b in ext if b.split('.')[0] == 'pygame']:
                return mk('builtin', 'object.__init__')
        return mk('vbound', 'super.' + f, s)

    def class_const(self, c, f, e):
        key = ('cc', c.name, f)
        if key in self.side:
            v = self.side[key]
            return v
        v = self.const_expr(c.module, e, c)
        self.side[key] = v
        return v

    def const_expr(self, module, e, cls=None):
        sv, svf = self.st, self.frame
        st = St()
        st.locals, st.heap, st.ver = {}, {}, {}
        st.live = st.flive = TRUE
        st.ret, st.raised, st.trace, st.brk, st.cont = NORET, FALSE, EMPTY, FALSE, FALSE
        self.st = st
        self.frame = Frame(module, cls, None)
        self.frame.classbody = cls
        try:
            v = self.expr(e)
            return self.freeze(v)
        finally:
            self.st, self.frame = sv, svf

    def store_attr(self, o, f, v, node=None):
        if o.op == 'ite':
            self.map_live(o, lambda x: (self.store_attr(x, f, v, node), NONE)[1])
            return
        ty = self.tyof(o)
        if isinstance(ty, Class):
            s = self.p.lookup_setter(ty, f)
            if s is not None and self.can_inline(s):
                self.call_func(s, [o, v], {}, selfcls=self.exact.get(o))
                return
        self.event('store', (o, f, v), node)
        self.store_key((o, f), v)

    def store_key(self, k, v):
        st = self.st
        if st.live is not st.flive:
            old = st.heap.get(k)
            if old is None:
                old = self.default(k, st)
            v = ite(st.live, v, old)
        st.heap[k] = v

    def set_content(self, o, v):
        if o.op == 'ite':
            self.map_live(o, lambda x: (self.set_content(x, v if not callable(v) else v), NONE)[1])
            return
        self.store_key((o, '[]'), v)

    def set_local(self, n, v):
        st = self.st
        if st.live is not st.flive and n in st.locals and st.locals[n] is not UNDEF:
            v = ite(st.live, v, st.locals[n])
        st.locals[n] = v

    def effect(self, eff):
        st = self.st

        def app(t):
            return self.map_ite(t, lambda x: mk('trace', *(x.args + (eff,))))
        new = app(st.trace)
        st.trace = new if st.live is st.flive else ite(st.live, new, st.trace)

    def event(self, kind, data, node):
        self.events.append((kind, list(self.guards), self.st.live, data,
                            (self.frame.module.rel, getattr(node, 'lineno', 0),
                             self.frame.func.qual if self.frame.func else '?')))

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        for i, s in enumerate(stmts):
            if self.st.live is FALSE:
                return
            if isinstance(s, ast.If) and i + 1 < len(stmts):
                if self.if_then(s, stmts[i + 1:]):
                    return
                continue
            self.stmt(s)

    def if_then(self, s, rest):
        """an `if` of which one branch leaves the block: the rest of the block belongs to the other branch"""
        self.nodes += 1
        done = []

        def cont(a, b):
            if a.live is FALSE and b.live is not FALSE or b.live is FALSE and a.live is not FALSE:
                done.append(True)
                v = b if a.live is FALSE else a
                self.st = v
                self.block(rest)
                return (a, self.st) if a.live is FALSE else (self.st, b)
            return a, b
        c = truthy(self.cond(s.test))
        self.branch(c, lambda: (self.block(s.body), NONE)[1], lambda: (self.block(s.orelse), NONE)[1], cont)
        return bool(done)

    def stmt(self, s):
        self.nodes += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('%s:%d %s' % (self.frame.module.rel, s.lineno, type(s).__name__))
        m(s)

    def s_Pass(self, s):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            self.set_local(n, mk('extmod', n if a.asname else a.name.split('.')[0]))

    def s_ImportFrom(self, s):
        for a in s.names:
            full = (s.module or '') + '.' + a.name
            if full in self.p.modules:
                self.set_local(a.asname or a.name, mk('mod', full))
            elif s.module in self.p.modules:
                self.set_local(a.asname or a.name, self.global_name(self.p.modules[s.module], a.name, s))
            else:
                self.set_local(a.asname or a.name, self.ext(full))

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            o = self.st.locals['@yield']
            self.append(o, self.expr(s.value.value))
            return
        self.expr(s.value)

    def s_Assign(self, s):
        v = self.expr(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.expr(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            v = self.augop(cur, s)
            if v is not None:
                self.set_local(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            cur = self.load_attr(o, t.attr, t)
            v = self.augop(cur, s)
            if v is not None:
                self.store_attr(o, t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.slice(t.slice)
            cur = self.subscript(o, k, t)
            v = self.augop(cur, s)
            if v is not None:
                self.store_sub(t.value, o, k, v, s)
        else:
            raise Unsupported('augassign')

    def augop(self, cur, s):
        rhs = self.expr(s.value)
        if isinstance(s.op, ast.Add) and cur.op == 'obj':
            self.set_content(cur, add(self.deref(cur), self.deref(rhs)))
            return None
        return self.binop(type(s.op).__name__, cur, rhs, s)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.set_local(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.store_attr(self.expr(t.value), t.attr, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                v = self.deref(v)
                k = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                for i, e in enumerate(t.elts[:k]):
                    self.assign(e, self.subscript(v, num(i), t))
                after = n - k - 1
                hi = NONE if after == 0 else num(-after)
                sl = mk('slice', num(k), hi, NONE)
                self.assign(t.elts[k].value, index(v, sl))
                for j, e in enumerate(t.elts[k + 1:]):
                    self.assign(e, self.subscript(v, num(j - after), t))
                return
            vals = [self.subscript(v, num(i), t) for i in range(n)]
            for e, x in zip(t.elts, vals):
                self.assign(e, x)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            self.store_sub(t.value, o, self.slice(t.slice), v, t)
        else:
            raise Unsupported('assign ' + type(t).__name__)

    def store_sub(self, lv, o, k, v, node):
        """o[k] = v; containers live in the heap, arrays are values updated through their l-value"""
        self.event('setitem', (o, k, v), node)

        def upd(x):
            c = self.deref(x)
            if x.op in ('obj',) or (x, '[]') in self.st.heap or not (c.op == 'vec'):
                if c.op == 'vec':
                    return self.store_key((x, '[]'), self.vec_set(c, k, v))
                self.store_key((x, '[]'), self.map_ite(c, lambda cc: self.put(cc, k, v)))
            else:
                new = self.vec_set(c, k, v)
                if isinstance(lv, ast.Name):
                    self.set_local(lv.id, new)
                elif isinstance(lv, ast.Attribute):
                    self.store_attr(self.expr(lv.value), lv.attr, new, node)
                elif isinstance(lv, ast.Subscript):
                    self.store_sub(lv.value, self.expr(lv.value), self.slice(lv.slice), new, node)
        if o.op == 'ite':
            self.map_live(o, lambda x: (upd(x), NONE)[1])
        else:
            upd(o)

    def vec_set(self, c, k, v):
        if k.op == 'num' and -len(c.args) <= int(k.args[0]) < len(c.args):
            l = list(c.args)
            l[int(k.args[0])] = v
            return mk('vec', *l)
        if k.op == 'tuple' and len(k.args) == 2 and c.args and all(x.op == 'vec' for x in c.args):
            # elements, rows, columns and blocks of a literal matrix
            rows, cols = positions(k.args[0], len(c.args)), positions(k.args[1], len(c.args[0].args))
            if rows is not None and cols is not None:
                w = self.freeze(v)
                shape = ([len(rows)] if k.args[0].op == 'slice' else []) + ([len(cols)] if k.args[1].op == 'slice' else [])
                if not shape or w.op == 'num':
                    val = lambda a, b: w
                elif len(shape) == 1 and w.op in ('vec', 'list') and len(w.args) == shape[0] and \
                        all(x.op not in ('vec', 'list') for x in w.args):
                    val = (lambda a, b: w.args[a]) if k.args[0].op == 'slice' else (lambda a, b: w.args[b])
                else:
                    val = None
                if val is not None and (w.op not in ('vec', 'list') or shape):
                    m = [list(r.args) for r in c.args]
                    for a, i in enumerate(rows):
                        for b, j in enumerate(cols):
                            m[i][j] = val(a, b)
                    return mk('vec', *[mk('vec', *r) for r in m])
        return mk('call', 'put', c, k, self.freeze(v))

    def put(self, c, k, v):
        if k.op == 'ite':
            return self.map_ite(k, lambda kk: self.put(c, kk, v))
        if k is mk('slice', NONE, NONE, NONE) and v.op == 'obj':
            v = self.freeze(v)
        if k is mk('slice', NONE, NONE, NONE) and v.op == 'mapf' and v.args[0] is c and v.args[1] is TRUE:
            el = mk('idx', c, mk('ix', int(v.args[3].args[0])))        # elements replaced one by one
            g = self.map_ite(v.args[2], lambda x: FALSE if x is el else TRUE)
            w = self.map_ite(v.args[2], lambda x: UNDEF if x is el else mk('tuple', el.args[1], x))
            return mk('mapd', c, c, g, constrain(w, g) if g is not TRUE else w, v.args[3]) if g is not FALSE else c
        if c.op not in ('dict', 'list', 'obj'):
            old = index(c, k)
            if v is old:        # the element is written back
                return c
            if v.op == 'ite' and any(x is old for x in leaves(v)):
                return self.map_ite(v, lambda vv: self.put(c, k, vv))
        if c.op == 'dict':
            items = list(c.args)
            for i, (kk, _) in enumerate(items):
                if kk is k:
                    items[i] = (k, v)
                    return mk('dict', *items)
            if all(kk.op in ('str', 'num') for kk, _ in items) and k.op in ('str', 'num'):
                items.append((k, v))
                items.sort(key=lambda kv: kv[0].dig)
                return mk('dict', *items)
            return mk('call', 'put', c, k, v)
        if c.op == 'list' and k.op == 'num' and k.args[0].denominator == 1 and -len(c.args) <= k.args[0] < len(c.args):
            l = list(c.args)
            l[int(k.args[0])] = v
            return mk('list', *l)
        # successive writes to the same or to different constant keys
        if c.op == 'call' and c.args[0] == 'put' and len(c.args) == 4:
            if c.args[2] is k:
                return self.put(c.args[1], k, v)
            if k.op in ('str',) and c.args[2].op == 'str' and k.dig < c.args[2].dig:
                return mk('call', 'put', self.put(c.args[1], k, v), c.args[2], c.args[3])
        return mk('call', 'put', c, k, v)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.expr(t.value)
                k = self.slice(t.slice)
                self.set_content(o, call('deleted', self.deref(o), k))
            elif isinstance(t, ast.Name):
                self.set_local(t.id, UNDEF)
            elif isinstance(t, ast.Attribute):
                self.effect(mk('eff', call('delattr', self.freeze(self.expr(t.value)), strc(t.attr))))

    def s_Return(self, s):
        v = self.expr(s.value) if s.value is not None else NONE
        st = self.st
        st.ret = ite(st.live, v, st.ret)
        st.live = FALSE

    def s_Raise(self, s):
        st = self.st
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = e.id if isinstance(e, ast.Name) else 'exc'
        else:
            name = 'reraise'
        self.event('raise', (name,), s)
        st.raised = OR(st.raised, st.live)
        st.live = FALSE

    def s_Assert(self, s):
        self.event('assert', (), s)

    def s_If(self, s):
        c = truthy(self.cond(s.test))
        self.if_(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def cond(self, e):
        v = self.expr(e)
        if v.op == 'obj' or v.op == 'ite':
            v = self.deref(v)
        elif (v, '[]') in self.st.heap:
            v = self.deref(v)
        return v

    def if_(self, c, fa, fb):
        self.branch(c, lambda: (fa(), NONE)[1], lambda: (fb(), NONE)[1])

    def s_With(self, s):
        for i in s.items:
            v = self.expr(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        self.block(s.body)

    @staticmethod
    def within(a):
        st = []
        TM._collect(a, st)
        r = set()
        for x in st:
            subterms(x, r)
        return r

    def lookups(self, sig):
        """dictionary look-ups behind the values sig, or nothing if something else in them may miss a key as well"""
        r = []
        for x in {y for t in sig for y in subterms(t)}:
            if x.op == 'idx' and self.tyof(x.args[0]) == 'dict':
                r.append(x)
            elif not (x.op in ('idx', 'len', 'keys', 'sym', 'attr', 'num', 'poly', 'tuple', 'ver', 'str', 'none') or
                      x.op == 'vcall' and x.args[0] in RNG):
                return ()
        return r

    def s_Try(self, s):
        st = self.st
        body = st.copy()
        body.flive = body.live
        pre = st.copy()
        self.st = body
        self.block(s.body)
        self.block(s.orelse)
        body = self.st
        # what the protected block computes identifies the exceptional condition
        sig = []
        for k, v in body.locals.items():
            if pre.locals.get(k) is not v:
                sig.append(self.freeze(v))
        for k, v in body.heap.items():
            if pre.heap.get(k) is not v and k[0].op != 'obj':
                sig.append(self.freeze(v))
        if body.trace is not pre.trace:
            sig.append(body.trace)
        if body.ret is not pre.ret:
            sig.append(self.freeze(body.ret))
        sub = set()         # intermediate results do not matter, only what they end up in
        todo = [x for t in set(sig) for x in t.args]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo += x
            elif isinstance(x, T) and x not in sub:
                sub.add(x)
                todo += x.args
        sig = sorted({t for t in sig if t not in sub and t.op not in ('str', 'num', 'none', 'lastval')}, key=lambda t: t.dig)
        st2 = body
        for h in reversed(s.handlers):
            nm = ast.unparse(h.type) if h.type is not None else 'Exception'
            c = None
            if nm == 'NotImplementedError':         # only a call can raise it
                def calls(st_):
                    vs = list(st_.locals.values()) + [v for k, v in st_.heap.items()] + [st_.ret]
                    r = set()
                    for v in vs:
                        if isinstance(v, T):
                            subterms(v, r)
                    return {x for x in r if x.op == 'vcall'}
                made = calls(body) - calls(pre)
                inner = {y for x in made for z in x.args for y in self.within(z)}
                if made and body.trace is pre.trace:
                    sig = sorted(made - inner, key=lambda t: t.dig)
            looks = self.lookups(sig) if nm == 'KeyError' else ()
            if len(looks) == 1:         # the one look-up that may fail
                c = NOT(truthy(self.contains(looks[0].args[1], looks[0].args[0])))
            if c is None:
                c = atom(mk('raises', nm, mk('tuple', *sig)))
            hs = pre.copy()
            hs.live = hs.flive = AND(pre.live, c)
            self.st = hs
            if h.name:
                self.st.locals[h.name] = sym('exc')
            self.block(h.body)
            hs = self.st
            b2 = st2.copy()
            b2.live = AND(b2.live, NOT(c))
            b2.raised = AND(b2.raised, NOT(c))
            b2.brk, b2.cont = AND(b2.brk, NOT(c)) if b2.brk is not pre.brk else b2.brk, \
                AND(b2.cont, NOT(c)) if b2.cont is not pre.cont else b2.cont
            st2 = self.merge(c, hs, b2, pre)
        self.st = st2
        self.block(s.finalbody)

    def s_FunctionDef(self, s):
        self.set_local(s.name, self.closure(s))

    def s_ClassDef(self, s):
        raise Unsupported('nested class')

    def s_Break(self, s):
        st = self.st
        st.brk = OR(st.brk, st.live)
        st.live = FALSE

    def s_Continue(self, s):
        st = self.st
        st.cont = OR(st.cont, st.live)
        st.live = FALSE

    def s_For(self, s):
        it = self.expr(s.iter)
        clean = self.st.live is self.st.flive

        def body(el):
            st = self.st
            if clean and st.brk is FALSE and st.live is not st.flive:
                # the paths that are gone have returned: nobody reads their variables any more
                sv, st.flive = st.flive, st.live
                self.assign(s.target, el)
                self.st.flive = sv
            else:
                self.assign(s.target, el)
            self.block(s.body)
        self.loop(it, body,
                  self.assigned(s.body) | self.target_names(s.target), s, s.orelse)

    _asg = {}

    def assigned(self, body):
        key = id(body[0]) if body else 0
        if key in self._asg and self._asg[key][0] is (body[0] if body else None):
            return self._asg[key][1]
        r = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    r.add(x.id)
                if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
                    pass
                if isinstance(x, ast.FunctionDef):
                    r.add(x.name)
                # array element updates through a local name
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        while isinstance(t, (ast.Subscript,)):
                            t = t.value
                        if isinstance(t, ast.Name):
                            r.add(t.id)
        self._asg[key] = (body[0] if body else None, r)
        return r

    def target_names(self, t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}

    def s_While(self, s):
        def body(el):
            c = truthy(self.cond(s.test))
            self.if_(c, lambda: self.block(s.body), lambda: self.s_Break(s))
        if isinstance(s.test, ast.Constant) and s.test.value:
            body = lambda el: self.block(s.body)
        self.loop(mk('forever'), body, self.assigned(s.body), s, s.orelse)

    # ------------------------------------------------------------------ loops
    def loop(self, it, body, names, node, orelse=()):
        st = self.st
        sv = (st.brk, st.cont)
        st.brk = st.cont = FALSE
        entry = st.live
        self.loop_over(it, body, names, node)
        if orelse:
            self.block(orelse)
        st = self.st
        st.live = OR(st.live, st.brk)
        st.brk, st.cont = sv

    def loop_over(self, it, body, names, node, content=False):
        if self.st.live is FALSE:
            return
        if it.op == 'ite':
            c = mk('ite', it.args[0], TRUE, FALSE)
            self.if_(c, lambda: self.loop_over(it.args[1], body, names, node, content),
                     lambda: self.loop_over(it.args[2], body, names, node, content))
            return
        d = it if content else self.deref(it)       # inside a content, a location stands for its old content
        if d is not it:
            self.loop_over(d, body, names, node, True)
            return
        if it.op == 'concat' and (any(x.op in ('list', 'tuple', 'vec') for x in it.args) or not isinstance(node, ast.For) or
                                  not any(isinstance(x, (ast.Break, ast.Return)) for y in node.body for x in ast.walk(y))):
            for part in it.args:
                self.loop_over(part, body, names, node, True)
            return
        if it.op == 'flatmap' and (not isinstance(node, ast.For) or
                                   not any(isinstance(x, (ast.Break, ast.Return)) for y in node.body for x in ast.walk(y))):
            self.symbolic(mk('parts', it), lambda x: self.inner(x, body, names, node), names, node)
            return
        els = self.concrete(it)
        if els is not None and (self.unroll or len(els) < 2 or not isinstance(node, ast.For)):
            for el in els:
                if self.st.live is FALSE:
                    break
                body(el)
                st = self.st
                st.live = OR(st.live, st.cont)
                st.cont = FALSE
            return
        if els is not None and it.op == 'tuple':
            it = mk('list', *it.args)
        if it.op == 'idx' and it.args[1].op == 'slice' and it.args[0].op == 'call' and \
                it.args[0].args[0] == 'np.linspace' and len(it.args[0].args) == 4 and \
                it.args[1].args[0] is NONE and it.args[1].args[2] is NONE and \
                it.args[1].args[1] in (num(-1), sub(it.args[0].args[3], ONE)):      # all samples but the last, in order
            self.symbolic(mk('range', ZERO, sub(it.args[0].args[3], ONE), ONE),
                          lambda x: body(index(it.args[0], x)), names, node)
            return
        if it.op == 'call' and it.args[0] == 'itertools.product' and len(it.args) == 3:
            self.loop_over(it.args[1], lambda x: self.inner(it.args[2], lambda y: body(mk('tuple', x, y)), names, node),
                           names, node)
            return
        sl = it.args[0] if it.op == 'enumerate' and it.args[1] is ZERO else it
        if sl.op == 'idx' and sl.args[1].op == 'slice' and sl.args[1].args[2] is NONE:      # a slice of a sequence, by position
            x, (a, b, _) = sl.args[0], sl.args[1].args
            if self.tyof(x) != 'arr' and x.op in ('attr', 'sym', 'idx') and \
                    (a is NONE or a.op == 'num' and a.args[0] >= 0) and (b is NONE or b.op == 'num' and b.args[0] >= 0) and \
                    (a is NONE or sl is it):
                n = self.len_(x)
                hi = n if b is NONE else self.builtin('min', [n, b], {}, node)
                self.symbolic(mk('range', ZERO if a is NONE else a, hi, ONE),
                              lambda i: body(index(x, i) if sl is it else mk('tuple', i, index(x, i))), names, node)
                return
        self.symbolic(it, body, names, node)

    def inner(self, it, body, names, node):
        self.loop(it, body, names, node)

    def concrete(self, it):
        if it.op in ('list', 'tuple', 'vec') and len(it.args) <= 24:
            return list(it.args)
        if it.op == 'sym' and self.tyof(it) == 'pair':
            return [index(it, ZERO), index(it, ONE)]
        if it.op == 'idx' and self.tyof(it.args[0]) == 'pair' and it.args[1].op == 'tuple' and len(it.args[1].args) == 2 \
                and it.args[1].args[0] is mk('slice', NONE, NONE, NONE):          # one coordinate of both bounds
            return [index(index(it.args[0], num(i)), it.args[1].args[1]) for i in (0, 1)]
        if it.op == 'dict' and len(it.args) <= 24:
            return [k for k, _ in it.args]
        if it.op == 'range' and all(a.op == 'num' for a in it.args):
            lo, hi, s = [int(a.args[0]) for a in it.args]
            if s and len(range(lo, hi, s)) <= 16:
                return [num(i) for i in range(lo, hi, s)]
        if it.op == 'items' and it.args[0].op == 'dict':
            return [mk('tuple', k, v) for k, v in it.args[0].args]
        if it.op == 'keys' and it.args[0].op == 'dict':
            return [k for k, v in it.args[0].args]
        if it.op == 'values' and it.args[0].op == 'dict':
            return [v for k, v in it.args[0].args]
        if it.op == 'enumerate':
            e = self.concrete(it.args[0])
            if e is not None:
                return [mk('tuple', add(num(i), it.args[1]), x) for i, x in enumerate(e)]
        if it.op == 'zip':
            es = [self.concrete(x) for x in it.args]
            if all(e is not None for e in es):
                return [mk('tuple', *z) for z in zip(*es)]
            ns = [len(e) for e in es if e is not None]
            if ns and all(e is not None or x.op == 'attr' and x.args[1] == 'shape' for e, x in zip(es, it.args)):
                return [mk('tuple', *[index(x, num(i)) if e is None else e[i] for e, x in zip(es, it.args)])
                        for i in range(min(ns))]
        if it.op == 'reversed':
            e = self.concrete(it.args[0])
            return None if e is None else e[::-1]
        if it.op == 'str' and len(it.args[0]) <= 4:
            return [strc(c) for c in it.args[0]]
        return None

    def domain(self, it, ix):
        """-> (domain term, element term, guard)"""
        if it.op == 'range':
            lo, hi, s = it.args
            if s is ONE:
                n = sub(hi, lo)
                if n.op == 'len':
                    return n.args[0], add(lo, ix), TRUE
                z = shorter(n)
                if z:
                    return mk('zip', *sorted(z, key=lambda t: t.dig)), add(lo, ix), TRUE
                return mk('range', ZERO, n, ONE), add(lo, ix), TRUE
            return it, add(lo, mul(ix, s)), TRUE
        if it.op == 'enumerate':
            d, e, g = self.domain(it.args[0], ix)
            if g is not TRUE:
                e0 = mk('idx', it.args[0], ix)
                return it.args[0], mk('tuple', add(ix, it.args[1]), e0), TRUE
            return d, mk('tuple', add(ix, it.args[1]), e), TRUE
        if it.op == 'zip':
            w = [self.window(x) for x in it.args]
            if all(x is not None for x in w) and len({x[0] for x in w}) == 1 and any(x[1] or x[2] for x in w):
                n = add(self.len_(w[0][0]), num(-max(a + b for _, a, b in w)))
                return mk('range', ZERO, n, ONE), mk('tuple', *[index(x, add(ix, num(a))) for x, a, b in w]), TRUE
            ds = [self.domain(x, ix) for x in it.args]
            if all(g is TRUE for _, _, g in ds):
                doms = []
                for d, _, _ in ds:
                    if d not in doms:
                        doms.append(d)
                el = mk('tuple', *[e for _, e, _ in ds])
                if len(doms) == 1:
                    return doms[0], el, TRUE
                flat = {y for d in doms for y in (d.args if d.op == 'zip' else (d,))}
                return mk('zip', *sorted(flat, key=lambda t: t.dig)), el, TRUE
            return it, mk('tuple', *[index(x, ix) for x in it.args]), TRUE
        if it.op in ('items', 'keys', 'values'):
            d = it.args[0]
            kd = mk('keys', d)
            k = mk('idx', kd, ix)
            return kd, {'items': mk('tuple', k, index(d, k)), 'keys': k, 'values': index(d, k)}[it.op], TRUE
        if it.op == 'mapf' or it.op == 'parts':
            d, g, v, h = it.args if it.op == 'mapf' else it.args[0].args
            m = {mk('ix', int(h.args[0])): ix}
            return d, subst(v, m), subst(g, m)
        if it.op == 'forever':
            return it, ix, TRUE
        w = self.window(it)
        if w and (w[1] or w[2]):
            return mk('range', ZERO, add(self.len_(w[0]), num(-w[1] - w[2])), ONE), index(w[0], add(ix, num(w[1]))), TRUE
        ty = self.tyof(it)
        if ty == 'dict':
            kd = mk('keys', it)
            return kd, mk('idx', kd, ix), TRUE
        return it, mk('idx', it, ix), TRUE

    def window(self, it):
        """(sequence, elements dropped at its start, elements dropped at its end) of a slice with constant bounds"""
        if it.op == 'idx' and it.args[1].op == 'slice':
            lo, hi, step = it.args[1].args
            lo, hi = [ZERO if x is NONE else x for x in (lo, hi)]
            if (step is NONE or step is ONE) and lo.op == 'num' and hi.op == 'num' and lo.args[0] >= 0 >= hi.args[0] and \
                    not (hi is ZERO and it.args[1].args[1] is ZERO):
                return it.args[0], int(lo.args[0]), -int(hi.args[0])
            return None
        return (it, 0, 0) if it.op in ('attr', 'idx', 'sym', 'call', 'vcall', 'heapv') else None

    def symbolic(self, it, body, names, node, ind=None):
        """ind: local name -> (initial value, step) of the counters found by a first pass; their value in iteration ix
        is known in closed form"""
        st = self.st
        ix = self.tmp('ix')
        dom, el, guard = self.domain(it, ix)
        names = sorted(n for n in names)
        keys = []
        inv = set()
        vers = {}
        for attempt in range(8):
            mus = {}
            b = st.copy()
            for n in names:
                if n in inv:
                    continue
                if ind and n in ind:
                    b.locals[n] = add(ind[n][0], mul(ix, ind[n][1]))
                elif n in st.locals and st.locals[n] is not UNDEF:
                    mus[n] = self.tmp('m')
                    b.locals[n] = mus[n]
                else:
                    b.locals[n] = UNDEF
            for k in keys:
                if k in inv:
                    continue
                mus[k] = self.tmp('m')
                b.heap[k] = mus[k]
            for f, v in vers.items():
                b.ver[f] = v
                for kk in [kk for kk in b.heap if kk[1] == f]:
                    if kk not in keys:
                        del b.heap[kk]
            b.live = b.flive = TRUE
            b.ret, b.brk, b.cont, b.trace, b.raised = NORET, FALSE, FALSE, EMPTY, FALSE
            entry_heap = dict(b.heap)
            entry_ver = dict(b.ver)
            entry_loc = dict(b.locals)
            ev0 = len(self.events)
            self.guards.append(AND(self.guards[-1], TRUE) if False else st.live)
            self.st = b
            if guard is TRUE:
                body(el)
            else:
                self.if_(guard, lambda: body(el), lambda: None)
            b = self.st
            self.guards.pop()
            new = [k for k in b.heap if b.heap[k] is not entry_heap.get(k) and k not in keys and
                   not self.has_tmp(k[0], ix) and not (free_tmps(k[0]) & set(mus.values())) and not (k[0].op == 'obj' and k not in st.heap and
                                                       (k[0], '[]') not in st.heap)]
            nver = [f for f in b.ver if b.ver[f] is not entry_ver.get(f) and f not in vers]
            inv2 = {k for k in mus if (b.locals.get(k) if not isinstance(k, tuple) else b.heap.get(k)) is mus[k]}
            if new or nver or inv2 - inv:
                keys += new
                inv |= inv2
                keys = [k for k in keys]
                for f in nver:
                    vers[f] = self.tmp('v')
                del self.events[ev0:]
                self.st = st
                continue
            break
        else:
            raise Unsupported('loop does not stabilise')
        self.st = st
        if guard is TRUE and it.op != 'forever' and OR(b.brk, self.isret(b.ret)) is TRUE:
            # left in its first iteration, whatever happens: that iteration is all there is
            d0, e0, _ = self.domain(it, ZERO)
            del self.events[ev0:]
            self.if_(mk_any(d0, TRUE), lambda: body(e0), lambda: None)
            return
        if ind is None:
            cnt = self.counters(b, st, names, mus, ix)
            if cnt:
                del self.events[ev0:]
                self.symbolic(it, body, names, node, cnt)
                return
        elif ind:
            stop0 = OR(b.brk, self.isret(b.ret))
            for n, (i0, d) in ind.items():
                w = constrain(b.locals[n], NOT(stop0)) if stop0 is not TRUE else UNDEF
                if w is not add(add(i0, mul(ix, d)), d):
                    del self.events[ev0:]
                    self.symbolic(it, body, names, node, {})
                    return
            if it.op == 'forever':
                r = self.counted(b, st, ind, mus, vers, ix, entry_loc, entry_heap)
                if r is not None:
                    cc = self.concrete(r)
                    if cc is not None and self.unroll:
                        del self.events[ev0:]
                        self.st = st
                        for _ in cc:
                            if self.st.live is FALSE:
                                break
                            body(ZERO)
                            st = self.st
                            st.live = OR(st.live, st.cont)
                            st.cont = FALSE
                        return
                    dom = r
        if vers:
            self.name_versions(b, {v: mk('iver', f, num(len(self.guards))) for f, v in vers.items()})
        # ---- a list whose element number i + c is replaced in iteration i, and only there: until then it is unchanged
        own = {}
        for k in keys:
            if k in inv or k not in b.heap:
                continue
            lv = leaves(b.heap[k])
            ks = {x.args[2] for x in lv if x is not mus[k] and x.op == 'call' and x.args[0] == 'put' and
                  x.args[1] is mus[k]}
            if len(ks) == 1 and all(x is mus[k] or x.op == 'call' and x.args[0] == 'put' and x.args[1] is mus[k] for x in lv):
                kk = ks.pop()
                init = st.heap.get(k)
                init = self.default(k, st) if init is None else init
                if sub(kk, ix).op == 'num' and init.op != 'ite':
                    own[mk('idx', mus[k], kk)] = index(init, kk)
        if own:
            self.name_versions(b, own, {mus[k] for k in mus})
        # ---- slots
        slots = {}
        for n in names:
            if n in inv:
                continue
            v = b.locals.get(n, UNDEF)
            if ind and n in ind:
                m = self.tmp('m')
                slots[n] = (ind[n][0], m, add(m, ind[n][1]))
            if n in mus:
                slots[n] = (st.locals[n], mus[n], v)
        for k in keys:
            if k in inv or k not in b.heap:
                continue
            init = st.heap.get(k)
            if init is None:
                init = self.default(k, st)
            slots[k] = (init, mus[k], b.heap[k])
        # a carried array or container changed in place: what the loop hands on is its changed content
        changed = {m: b.heap[(m, '[]')] for m in mus.values() if (m, '[]') in b.heap and (m, '[]') not in entry_heap}
        for m, c in changed.items():
            hit = [k for k, (_, _, v) in slots.items() if any(x is m for x in leaves(v))]
            for k in hit:
                i0, m0, v = slots[k]
                slots[k] = (i0, m0, self.map_ite(v, lambda x: c if x is m else x))
            made = lambda x: x is m or x in (NONE, UNDEF) or x.op in ('vec', 'list', 'dict', 'num', 'poly', 'put', 'mapf') or \
                x.op == 'call' and x.args[0] != 'heap'
            if hit and all(made(x) for k in hit for y in (slots[k][0], b.locals.get(k, UNDEF) if isinstance(k, str) else UNDEF)
                           for x in leaves(y)):
                del b.heap[(m, '[]')]
        outer = {k[0] for k in st.heap if k[0].op == 'obj'}
        fresh = {k[0] for k in b.heap if k[0].op == 'obj'} - outer
        if fresh:
            # containers made by the iteration: what the loop hands on is their content at its end
            sv, self.st = self.st, b
            for k, (i0, m, v) in slots.items():
                if any(x in fresh for x in subterms(v)):
                    slots[k] = (i0, m, self.freeze(v, keep=outer))
            self.st = sv
        derived = {}
        if 1 < len(slots) <= 8:
            for k in sorted(slots, key=str):
                # a variable kept equal to a function of the other ones is that function of them
                i0, m, v = slots[k]
                js = {i: mm for j, (i, mm, _) in slots.items() if j != k and j not in derived and
                      i.op in ('sym', 'attr', 'idx', 'vcall', 'poly', 'call')}
                if i0.op not in ('vcall', 'call', 'attr', 'idx', 'poly') or i0 in js or len(js) != len(
                        [1 for j, (i, _, _) in slots.items() if j != k and j not in derived and
                         i.op in ('sym', 'attr', 'idx', 'vcall', 'poly', 'call')]):
                    continue
                f = subst(i0, js)
                if f is i0 or self.has_tmp(f, ix):
                    continue
                nxt = {mm: v2 for j, (_, mm, v2) in slots.items() if j != k and j not in derived}
                if m in set().union(*[free_tmps(x) for x in nxt.values()]):
                    nxt = {mm: subst(x, {m: f}) for mm, x in nxt.items()}
                if subst(v, {m: f}) is lifted_subst(f, nxt):
                    derived[k] = f
                    self.name_versions(b, {m: f})
                    slots = {j: (i, mm, subst(x, {m: f})) for j, (i, mm, x) in slots.items()}
        mvar = {k: m for k, (_, m, _) in slots.items()}
        for k in derived:
            del slots[k]
        broke = b.brk
        returned = self.isret(b.ret)
        stop = OR(broke, returned)
        if stop is not FALSE:
            # a variable that changes only in the iteration that leaves the loop has its initial value until then
            same = {}
            for k, (i0, m, v) in slots.items():
                if m in free_tmps(stop) | free_tmps(b.trace) or any(m in free_tmps(w) for _, _, w in slots.values()):
                    if i0.op != 'obj' and constrain(v, NOT(stop)) is m:
                        same[m] = i0
            if same:
                self.name_versions(b, same)
                slots = {k: (i0, m, self.sub_live(v, same, m, stop)) for k, (i0, m, v) in slots.items()}
                broke = b.brk
                returned = self.isret(b.ret)
                stop = OR(broke, returned)
        allmus = {m for _, m, _ in slots.values()}
        res = {}
        self.ctx = None
        if stop is not FALSE:
            mb = self.tmp('m')
            slots['@brk'] = (FALSE, mb, ite(truthy(mb), TRUE, stop))
            allmus.add(mb)
        # effects and stores to per-element objects
        stores = []
        for k, v in b.heap.items():
            if v is not entry_heap.get(k) and k[0].op != 'obj' and k not in slots and \
                    (self.has_tmp(k[0], ix) or free_tmps(k[0]) & set(mus.values())):
                stores.append((k, self.freeze_in(b, v)))
        close = lambda t, h: subst(t, {ix: mk('ix', h)})
        eff = None
        tr = b.trace
        if tr is not EMPTY or stores:
            tr = self.freeze_in(b, tr)
            parts = [tr] + [v for _, v in stores] + [k[0] for k, _ in stores]
            act = TRUE
            if stop is not FALSE and not (free_tmps(stop) & allmus):
                # first iteration satisfying stop ends the loop: effects happen up to it
                parts.append(stop)
                act = stop
            h = max([height(x) for x in parts])
            sset = sorted([(close(k[0], h), k[1] if isinstance(k[1], str) else '[]', close(v, h)) for k, v in stores],
                          key=lambda z: (z[0].dig, z[1]))
            trc = close(tr, h)
            if free_tmps(trc) - self.outer_tmps(st) or any((free_tmps(v) | free_tmps(k[0])) & allmus for k, v in stores):
                trc = self.name_mus(trc, slots, ix, h)
                sset = [(self.name_mus(o, slots, ix, h), f, self.name_mus(v, slots, ix, h)) for o, f, v in sset]
            eff = mk('foreach', dom, trc, tuple(sset), close(act, h) if act is not TRUE else FALSE, num(h))
        # ---- results
        for k in list(slots):
            res[k] = self.fold(k, slots, dom, ix, stop, st)
        for k, f in reversed(list(derived.items())):
            res[k] = lifted_subst(f, {mvar[j]: x for j, x in res.items() if j in mvar})
        st = self.st
        live0 = st.live
        for k, v in res.items():
            if k == '@brk':
                continue
            if isinstance(k, tuple):
                self.store_key(k, v)
            else:
                self.set_local(k, v)
        for n in names:
            if n not in inv and n not in mus and n not in st.locals:
                v = b.locals.get(n, UNDEF)
                if v is not UNDEF:
                    v = self.freeze_in(b, v)
                    if not (free_tmps(v) & allmus):
                        h = height(v)
                        st.locals[n] = mk('lastval', dom, close(v, h), num(h))
                    else:
                        st.locals[n] = self.unknown(node, 'value leaking from a loop')
        if eff is not None:
            self.effect(eff)
            touched = {k[1] for k, _ in stores} | set(vers)
            for f in touched:
                if f == '[]':
                    continue
                nv = mk('ver', f, eff)
                self.bump(f, nv)
        elif vers:
            for f in vers:
                if f == '@rng':
                    self.bump(f, mk('ver', f, dom))
                else:
                    self.bump(f, mk('ver', f, dom))
        if stop is not FALSE:
            rb = res['@brk']
            cond = truthy(rb)
            if returned is FALSE:
                st.brk = OR(st.brk, AND(live0, cond))
                st.live = AND(live0, NOT(cond))
            else:
                if broke is FALSE:
                    rc = cond
                else:
                    rslots = dict(slots)
                    mr = self.tmp('m')
                    rslots['@rf'] = (FALSE, mr, ite(truthy(slots['@brk'][1]), mr, ite(returned, TRUE, mr)))
                    rc = truthy(self.fold('@rf', rslots, dom, ix, stop, st))
                    st.brk = OR(st.brk, AND(live0, AND(cond, NOT(rc))))
                rv = self.freeze_keep(b, b.ret)
                rslots = dict(slots)
                mr = self.tmp('m')
                rslots['@rv'] = (NORET, mr, self.map_ite(rv, lambda x: mr if x is NORET else x))
                val = self.fold('@rv', rslots, dom, ix, stop, st)
                val = self.strip_noret(val)
                st.ret = ite(AND(live0, rc), val, st.ret)
                st.live = AND(live0, NOT(cond))
        if b.raised is not FALSE:
            rr = b.raised
            if not (free_tmps(rr) & allmus):
                h = height(rr)
                c = mk_any(dom, close(rr, h))
                st.raised = OR(st.raised, AND(st.live, c))
                st.live = AND(st.live, NOT(c))

    def counters(self, b, st, names, mus, ix):
        """local counters of a loop: variables that every iteration not leaving it increases by the same number"""
        stop = OR(b.brk, self.isret(b.ret))
        if stop is TRUE:
            return None
        out = {}
        for n in names:
            m = mus.get(n)
            i0 = st.locals.get(n)
            if m is None or i0.op not in ('num', 'poly', 'attr', 'sym', 'len', 'idx', 'call'):
                continue
            v = b.locals.get(n, UNDEF)
            if v is m:
                continue
            w = constrain(v, NOT(stop)) if stop is not FALSE else v
            if w.op not in ('poly', 'num', 'tmp') or m not in free_tmps(w):
                continue
            d = sub(w, m)
            if d.op == 'num' and d is not ZERO:
                out[n] = (i0, d)
        return out

    def counted(self, b, st, ind, mus, vers, ix, entry_loc, entry_heap):
        """a while loop whose head leaves it when a counter reaches a bound that it does not change: -> its range"""
        stop = OR(b.brk, self.isret(b.ret))
        bad = set(mus.values()) | set(vers.values())
        for a in self.atoms(stop):
            if a.op not in ('lt0', 'eq0') or ix not in free_tmps(a) or free_tmps(a) & bad:
                continue
            at = atom(a)
            if constrain(stop, at) is TRUE:
                out, pos = at, False            # leaves when the atom holds
            elif constrain(stop, NOT(at)) is TRUE:
                out, pos = NOT(at), True
            else:
                continue
            e = a.args[0]
            k = subst(e, {ix: ZERO})
            c = sub(subst(e, {ix: ONE}), k)
            if c.op != 'num' or c is ZERO or add(k, mul(c, ix)) is not e or ix in free_tmps(k):
                continue
            c = c.args[0]
            n = None
            if a.op == 'lt0' and pos and c > 0:         # goes on while c ix + k < 0
                n = mk('range', ZERO, neg(k), num(c)) if c != 1 else mk('range', ZERO, neg(k), ONE)
                if c != 1:
                    n = mk('range', k, ZERO, num(c))
            elif a.op == 'lt0' and not pos and c < 0:   # goes on while c ix + k >= 0
                n = mk('range', ZERO, add(k, ONE), ONE) if c == -1 else mk('range', neg(k), ONE, num(-c))
            elif a.op == 'eq0' and not pos and abs(c) == 1:
                n = mk('range', ZERO, neg(k) if c == 1 else k, ONE)
            if n is None:
                continue
            on = NOT(out)
            # nothing happens in the iteration that finds the bound reached
            if constrain(b.trace, out) is not EMPTY or any(
                    constrain(x, out) is not NORET for x in (b.ret,)):
                continue
            ok = all(constrain(b.locals.get(nm, UNDEF), out) is m for nm, m in mus.items() if not isinstance(nm, tuple))
            ok = ok and all(constrain(b.heap[kk], out) is entry_heap.get(kk) for kk in b.heap
                            if kk[0].op != 'obj' and b.heap[kk] is not entry_heap.get(kk) and kk in entry_heap)
            if not ok:
                continue

            def go(t):
                return constrain(t, on)
            b.locals = {kk: go(v) if isinstance(v, T) else v for kk, v in b.locals.items()}
            b.heap = {kk: go(v) for kk, v in b.heap.items()}
            b.ret, b.brk, b.cont, b.trace, b.raised = go(b.ret), go(b.brk), go(b.cont), go(b.trace), go(b.raised)
            if n.args[1].op == 'len' and n.args[0] is ZERO and n.args[2] is ONE:
                return n.args[1].args[0]
            return n
        return None

    def atoms(self, t):
        out, work, seen = [], [t], set()
        while work:
            x = work.pop()
            if x in seen or x.op != 'ite':
                continue
            seen.add(x)
            if x.args[0] not in out:
                out.append(x.args[0])
            work += x.args[1:]
        return out

    def sub_live(self, v, same, m, stop):
        d = {k: x for k, x in same.items() if k is not m}
        v = subst(v, d)
        if m in same:
            # keep `unchanged` leaves, replace the other uses
            mark = self.tmp('m')
            w = self.map_ite(v, lambda x: mark if x is m else x)
            v = subst(subst(w, {m: same[m]}), {mark: m})
        return v

    def name_versions(self, b, m, tm=None):
        """field versions at the start of an iteration become canonical symbols"""
        tm = tm or set(m)

        def sb(t):
            return subst(t, m) if free_tmps(t) & tm else t
        b.locals = {k: sb(v) if isinstance(v, T) else v for k, v in b.locals.items()}
        b.heap = {((sb(k[0]), k[1]) if isinstance(k[0], T) else k): sb(v) for k, v in b.heap.items()}
        b.ret, b.brk, b.cont, b.trace, b.raised = sb(b.ret), sb(b.brk), sb(b.cont), sb(b.trace), sb(b.raised)

    def strip_noret(self, v):
        return self.map_ite(v, lambda x: mk('first', *(x.args[:3] + (NONE,) + x.args[4:]))
                            if x.op == 'first' and x.args[3] is NORET else (NONE if x is NORET else x))

    def bump(self, f, nv):
        st = self.st
        old = st.ver.get(f, ZERO)
        st.ver[f] = nv if st.live is st.flive else ite(st.live, nv, old)
        if f.startswith('@'):
            return
        for k in [k for k in st.heap if k[1] == f and k[0].op != 'obj']:
            del st.heap[k]

    def outer_tmps(self, st):
        return frozenset()

    def has_tmp(self, t, ix):
        return ix in free_tmps(t)

    def isret(self, r):
        return self.map_ite(r, lambda x: FALSE if x is NORET else TRUE)

    def freeze_in(self, b, t):
        sv, self.st = self.st, b
        try:
            return self.freeze(t)
        finally:
            self.st = sv

    freeze_keep = freeze_in

    def name_mus(self, t, slots, ix, h):
        """effects that mention loop-carried values: close them over the canonical fold of those values"""
        for k, (init, m, v) in slots.items():
            if m in free_tmps(t):
                f = self.fold(k, slots, mk('prefix'), ix, FALSE, self.st)
                t = subst(t, {m: f if f.op != 'ite' else mk('carried', f)})
        return t

    def fold(self, k, slots, dom, ix, stop, st):
        init, mu, val = slots[k]
        val = self.freeze_in_body(val)
        allm = {m: kk for kk, (_, m, _) in slots.items()}
        dep = free_tmps(val) & set(allm)
        h_of = lambda *ts: max(height(t) for t in ts)
        cl = lambda t, h: subst(t, {ix: mk('ix', h)})
        finit = init
        # boolean normalisation of leaves
        if init in (TRUE, FALSE) or (init.op == 'ite' and all(x in (TRUE, FALSE) for x in leaves(init))):
            if all(x in (TRUE, FALSE, mu) for x in leaves(val)):
                val = self.map_ite(val, lambda x: truthy(mu) if x is mu else x)
                isb = True
            else:
                isb = False
        else:
            isb = False
        brk = slots.get('@brk')
        if k == '@brk' or (brk is None):
            if isb:
                a = mk('truthy', mu)
                hi, lo = self.cofactor(val, a)
                if not (free_tmps(hi) & set(allm)) and not (free_tmps(lo) & set(allm)):
                    if hi is TRUE:
                        h = height(lo)
                        return OR(finit, mk_any(dom, cl(lo, h)) if lo is not FALSE else FALSE)
                    if lo is FALSE:
                        h = height(hi)
                        return AND(finit, NOT(mk_any(dom, cl(NOT(hi), h))))
            elif k != '@brk':
                r = self.accumulate(val, mu, init, allm, dom, ix, cl)
                if r is not None:
                    return r
        elif not (free_tmps(stop) & set(allm)):
            # the loop ends at the first element satisfying stop
            hi, lo = constrain(val, stop), constrain(val, NOT(stop))
            if isb:
                lo_is_mu = lo is truthy(mu) or lo is mu
            else:
                lo_is_mu = lo is mu
            if lo_is_mu and hi is (truthy(mu) if isb else mu):
                return finit
            if lo_is_mu and not (free_tmps(hi) & set(allm)):
                h = h_of(hi, stop)
                c = mk_any(dom, cl(stop, height(stop)))
                if ix not in free_tmps(hi):
                    return ite(c, hi, finit)
                if finit.op == 'ite' or True:
                    first = mk('first', dom, cl(stop, h), cl(hi, h), NONE, num(h))
                    if finit is NONE:
                        return first
                    if finit is NORET:
                        return mk('first', dom, cl(stop, h), cl(hi, h), NORET, num(h))
                    return ite(c, first, finit)
        # general fold over the dependency closure
        clos, work = [], [k]
        vals = {}
        while work:
            x = work.pop()
            if x in clos:
                continue
            clos.append(x)
            i2, m2, v2 = slots[x]
            v2 = self.freeze_in_body(v2)
            if brk is not None and x != '@brk' and x != '@rf':
                v2 = ite(truthy(brk[1]), m2, v2)
            vals[x] = v2
            for t in free_tmps(v2) & set(allm):
                work.append(allm[t])
        # canonical numbering by colour refinement on digests
        color = {x: '' for x in clos}
        for rnd in range(3):
            m = {slots[x][1]: mk('ref', color[x]) for x in clos}
            m[ix] = mk('ix', 10 ** 6)
            newc = {}
            for x in clos:
                mm = dict(m)
                mm[slots[x][1]] = mk('selfref', color[x])
                newc[x] = subst(vals[x], mm).dig + self.freeze(slots[x][0]).dig
            color = newc
        order = sorted(clos, key=lambda x: (x != k, color[x]))
        h = max(height(vals[x]) for x in clos)
        m = {slots[x][1]: mk('mu', h, i) for i, x in enumerate(order)}
        m[ix] = mk('ix', h)
        inits = [self.freeze(slots[x][0]) for x in order]
        bodies = [subst(vals[x], m) for x in order]
        return mk('fold', dom, mk('tuple', *inits), tuple(bodies), num(h))

    def freeze_in_body(self, t):
        return self.freeze(t) if contains_op(t, ('obj', 'lam', 'bound')) else t

    def cofactor(self, t, a):
        """values of the diagram with atom a true / false"""
        c = mk('ite', a, TRUE, FALSE)
        return constrain(t, c), constrain(t, NOT(c))

    def accumulate(self, val, mu, init, allm, dom, ix, cl):
        others = set(allm)
        lvs = leaves(val)
        # list building
        islist = init.op in ('list', 'concat', 'mapf', 'flatmap') or any(
            x.op == 'concat' and x.args[0] is mu for x in lvs)
        if islist and all(x is mu or (x.op == 'concat' and x.args[0] is mu and len(x.args) == 2 and
                                      x.args[1].op in ('list', 'mapf', 'flatmap', 'attr', 'idx', 'call', 'vcall')) for x in lvs):
            g = self.map_ite(val, lambda x: FALSE if x is mu else TRUE)
            if free_tmps(g) & others:
                return None
            item = self.map_ite(val, lambda x: UNDEF if x is mu else x.args[1])
            item = constrain(item, g) if g is not TRUE else item
            if free_tmps(item) & others:
                return None
            tails = leaves(item)
            if all(x.op == 'list' and len(x.args) == 1 for x in tails):
                v = self.map_ite(item, lambda x: x.args[0])
                h = max(height(v), height(g))
                r = mk('mapf', dom, cl(g, h), cl(v, h), num(h))
                # identity comprehension: [x for x in xs]
            else:
                h = max(height(item), height(g))
                r = mk('flatmap', dom, cl(g, h), cl(item, h), num(h))
            return self.map_ite(init, lambda i: concat(i, r))
        if all(x is mu or (x.op == 'call' and x.args[0] == 'put' and x.args[1] is mu) for x in lvs) and \
                any(x is not mu for x in lvs):
            olds = {index(init, ix), index(mu, ix)}

            def unwritten(x):       # each key written once: writing back the initial element changes nothing
                if x is mu or x.args[2] is not ix or not any(l in olds for l in leaves(x.args[3])):
                    return x
                return self.map_ite(x.args[3], lambda v: mu if v in olds else mk('call', 'put', mu, ix, v))
            val = self.map_ite(val, unwritten)
            if val is mu:
                return init
            g = self.map_ite(val, lambda x: FALSE if x is mu else TRUE)
            kv = self.map_ite(val, lambda x: UNDEF if x is mu else mk('tuple', x.args[2], x.args[3]))
            kv = constrain(kv, g) if g is not TRUE else kv
            if (free_tmps(g) | free_tmps(kv)) & others:
                return None
            h = max(height(g), height(kv))
            return mk('mapd', init, dom, cl(g, h), cl(kv, h), num(h))
        if any(x.op in ('list', 'concat', 'str', 'none', 'dict', 'obj', 'tuple', 'undef', 'bool') for x in lvs):
            return None
        if init.op in ('none', 'str', 'undef', 'list', 'dict', 'tuple'):
            return None
        d = sub(val, mu)
        if not (free_tmps(d) & others):
            # x += e   (also x = x0 + sum e)
            if all(x.op in ('num', 'poly', 'attr', 'idx', 'call', 'sym', 'vcall', 'min0', 'sum', 'tmp', 'len', 'vec')
                   for x in leaves(d)):
                return add(init, self.mk_sum(dom, d, ix))
        return None

    def mk_sum(self, dom, d, ix):
        if d is ZERO:
            return ZERO
        if d.op == 'vec':
            return mk('vec', *[self.mk_sum(dom, x, ix) for x in d.args])
        if d.op == 'num' and dom.op in ('call', 'attr', 'sym', 'keys') and self.tyof(dom) != 'dict':     # a count of elements
            return mul(d, self.len_(dom))
        h = height(d)
        return mk('sum', dom, subst(d, {ix: mk('ix', h)}), num(h))

    # ------------------------------------------------------------------ expressions
    def expr(self, e):
        self.nodes += 1
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.unknown(e)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if v is True or v is False:
            return boolc(v)
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return strc(v)
        if v is Ellipsis:
            return sym('...')
        return mk('const', repr(v))

    def e_Name(self, e):
        v = self.st.locals.get(e.id)
        if v is not None:
            if v is UNDEF:
                return self.unknown(e, 'unbound ' + e.id)
            if v.op == 'ite' and any(x is UNDEF for x in leaves(v)):
                v = self.map_ite(v, lambda x: mk('raise', 'UnboundLocalError') if x is UNDEF else x)
            return v
        cb = getattr(self.frame, 'classbody', None)
        if cb is not None and e.id in cb.attrs:
            return self.class_const(cb, e.id, cb.attrs[e.id])
        return self.global_name(self.frame.module, e.id, e)

    def global_name(self, m, name, node):
        r = self.p.resolve(m, name)
        if r is None:
            if name in BUILTINS:
                return mk('builtin', name)
            r = self.p.classes.get(name)
            if r is None:
                c = [x for x in self.p.modules.values() if x.name.endswith('.' + name)]
                if len(c) == 1:
                    return mk('mod', c[0].name)
                return mk('extname', name)
        if isinstance(r, Class):
            return mk('cls', r.name)
        if isinstance(r, Func):
            return self.funcref(r)
        if isinstance(r, Module):
            return mk('mod', r.name)
        if r[0] == 'const':
            key = ('gc', r[1].name, r[2])
            if key not in self.side:
                self.side[key] = self.const_expr(r[1], r[1].consts[r[2]])
            return self.side[key]
        return self.ext(r[1])

    def ext(self, dotted):
        if dotted.startswith('numpy'):
            dotted = 'np' + dotted[5:]
        if dotted in ('np.pi', 'math.pi'):
            return sym('pi')
        if dotted in ('np.inf', 'math.inf', 'np.Inf', 'np.infty'):
            return sym('inf')
        if dotted in ('np.nan', 'math.nan', 'np.NaN'):
            return sym('nan')
        if dotted.startswith('pygame.') and (dotted[7:9] == 'K_' or dotted[7:] in ('KEYDOWN', 'KEYUP', 'QUIT')):
            return strc(dotted)         # distinct constants
        return mk('extmod', dotted)

    def e_Attribute(self, e):
        o = self.expr(e.value)
        return self.load_attr(o, e.attr, e)

    def e_Tuple(self, e):
        return self.display('tuple', e)

    def e_List(self, e):
        return self.newobj(self.display('list', e))

    def e_Set(self, e):
        return mk('call', 'set', self.display('list', e))

    def display(self, op, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = mk(op)
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    r = self.chain(r, self.aslist(self.deref(self.expr(x.value)), op))
                else:
                    r = self.chain(r, mk(op, self.expr(x)))
            return r
        return mk(op, *[self.expr(x) for x in e.elts])

    def chain(self, a, b):
        return lift('concat', lambda x, y: mk(x.op, *(x.args + y.args)) if x.op == y.op and x.op in ('list', 'tuple')
                    else TM.concat(x, y), a, b)

    def aslist(self, t, op='list'):
        t = self.spread(t)
        return mk(op, *t.args) if t.op in ('tuple', 'vec', 'list') else t

    def spread(self, t):
        """the elements of a constant that every class defines with the same number of elements"""
        if t.op == 'ite':
            return self.map_ite(t, self.spread)
        if t.op != 'attr' or t.args[1] not in self.baseline:
            return t
        ns = set()
        for c in self.p.classes.values():
            e, k = c.attrs.get(t.args[1]), 0
            while isinstance(e, ast.Name) and k < 4:
                e, k = c.attrs.get(e.id), k + 1
            if t.args[1] in c.attrs:
                ns.add(len(e.elts) if isinstance(e, (ast.Tuple, ast.List)) else None)
        n = ns.pop() if len(ns) == 1 else None
        return t if n is None else mk('tuple', *[index(t, num(i)) for i in range(n)])

    def e_Dict(self, e):
        items, base = [], None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.deref(self.expr(v))
                if d.op == 'dict':
                    for kk, vv in d.args:
                        items = [x for x in items if x[0] is not kk] + [(kk, vv)]
                else:
                    base = d if base is None and not items else mk('call', 'merge', base or mk('dict', *items), d)
                    items = []
            else:
                kk = self.expr(k)
                vv = self.expr(v)
                items = [x for x in items if x[0] is not kk] + [(kk, vv)]
        if all(k.op in ('str', 'num') for k, _ in items):
            items.sort(key=lambda kv: kv[0].dig)
        d = mk('dict', *items)
        if base is not None:
            d = mk('call', 'merge', base, d) if items else base
        return self.newobj(d)

    def e_JoinedStr(self, e):
        return TM.fstr([self.fpart(v) if isinstance(v, ast.FormattedValue) else strc(v.value) for v in e.values])

    def fpart(self, v):
        x = self.freeze(self.expr(v.value))
        if v.conversion not in (-1, 115) or v.format_spec is not None:
            spec = self.e_JoinedStr(v.format_spec) if v.format_spec is not None else strc('')
            return mk('call', 'fmt', x, spec, strc(str(v.conversion)))
        return x

    def template(self, d, args, kw):
        """literal.format(...) as the parts of the text, or None"""
        import string
        parts, auto = [], 0
        try:
            for text, field, spec, conv in string.Formatter().parse(d.args[0]):
                parts.append(strc(text))
                if field is None:
                    continue
                if field == '':
                    x, auto = args[auto], auto + 1
                elif field.isdigit():
                    x = args[int(field)]
                else:
                    x = kw[field]
                x = self.freeze(x)
                if spec or conv not in (None, 's'):
                    x = mk('call', 'fmt', x, strc(spec or ''), strc(str(ord(conv)) if conv else '-1'))
                parts.append(x)
        except (ValueError, IndexError, KeyError):
            return None
        return TM.fstr(parts)

    def percent(self, a, b):
        import re
        bits = re.split(r'(%%|%[sdi])', a.args[0])
        if any('%' in t and t not in ('%%', '%s', '%d', '%i') for t in bits):
            return None
        args = list(b.args) if b.op in ('tuple', 'vec') else [b]
        if sum(t in ('%s', '%d', '%i') for t in bits) != len(args):
            return None
        return TM.fstr([self.freeze(args.pop(0)) if t in ('%s', '%d', '%i') else strc('%' if t == '%%' else t)
                        for t in bits])

    def e_BoolOp(self, e):
        return self.boolop(e.values, isinstance(e.op, ast.And))

    def boolop(self, vals, isand):
        v = self.cond_value(vals[0])
        if len(vals) == 1:
            return v
        c = truthy(self.deref(v) if v.op in ('obj', 'ite') or (v, '[]') in self.st.heap else v)
        if isand:
            return self.branch(c, lambda: self.boolop(vals[1:], True), lambda: self.falsy(v))
        return self.branch(c, lambda: v, lambda: self.boolop(vals[1:], False))

    def falsy(self, v):
        """value of a false operand of `and`: false when it is a boolean"""
        return v

    def cond_value(self, e):
        return self.expr(e)

    def e_UnaryOp(self, e):
        v = self.expr(e.operand)
        if isinstance(e.op, ast.Not):
            return NOT(truthy(self.deref(v)))
        if isinstance(e.op, ast.USub):
            return lift('negx', TM._negx, self.asnum(v))
        if isinstance(e.op, ast.UAdd):
            return v
        return call('invert', v)

    def asnum(self, v):
        v = self.deref(v)
        return v

    def e_BinOp(self, e):
        a = self.expr(e.left)
        b = self.expr(e.right)
        return self.binop(type(e.op).__name__, a, b, e)

    def binop(self, op, a, b, node):
        a, b = self.deref(a), self.deref(b)
        if op == 'Add':
            if self.islist(a) and self.islist(b):
                r = lift('cat', concat, a, b)
                return self.newobj(r)
            r = add(a, b)
            if any(x.op in ('list', 'concat') for x in leaves(r)):
                return self.newobj(r)
            return r
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mult':
            r = mul(a, b)
            if r.op == 'list':
                return self.newobj(r)
            return r
        if op == 'Div':
            self.event('div', (a, b), node)
            return div(a, b)
        if op == 'Pow':
            self.event('pow', (a, b), node)
            return power(a, b)
        if op == 'FloorDiv':
            self.event('div', (a, b), node)
            return lift('floordiv', lambda x, y: num(x.args[0] // y.args[0])
                        if x.op == 'num' and y.op == 'num' and y.args[0] else self.floor(_div(x, y)), a, b)
        if op == 'Mod':
            self.event('div', (a, b), node)
            if a.op == 'str':
                r = self.percent(a, b)
                return mk('call', 'strfmt', a, self.freeze(b)) if r is None else r
            return lift('mod', lambda x, y: num(x.args[0] % y.args[0])
                        if x.op == 'num' and y.op == 'num' and y.args[0] else mk('call', 'mod', x, y), a, b)
        if op == 'MatMult':
            return self.matmul(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if all(x in (TRUE, FALSE) for x in leaves(a)) and all(x in (TRUE, FALSE) for x in leaves(b)):
                return AND(a, b) if op == 'BitAnd' else OR(a, b) if op == 'BitOr' else ite(a, NOT(b), b)
        return call(op, a, b)

    def islist(self, t):
        def one(x):
            ty = self.tyof(x)
            return x.op in ('list', 'concat', 'mapf', 'flatmap') or isinstance(ty, tuple) and ty[0] == 'list'
        return all(one(x) for x in leaves(t))

    def floor(self, x):
        if x.op == 'num':
            return num(x.args[0].numerator // x.args[0].denominator)
        return mk('call', 'floor', x)

    def transpose(self, d):
        if d.op == 'vec' and d.args:
            if all(x.op == 'vec' and len(x.args) == len(d.args[0].args) for x in d.args):
                return mk('vec', *[mk('vec', *c) for c in zip(*[x.args for x in d.args])])
            if all(x.op in ('num', 'poly') for x in d.args):
                return d
        return None

    def matmul(self, a, b):
        a, b = self.deref(a), self.deref(b)
        f = lambda x: lift('tovec', TM.tovec, x)
        return lift('matmul', self._matmul, f(a), f(b))

    def _matmul(self, a, b):
        if a.op == 'vec' and b.op == 'vec' and a.args:
            if all(x.op == 'vec' for x in a.args):
                if all(len(x.args) == len(b.args) for x in a.args):
                    return mk('vec', *[self._matmul(x, b) for x in a.args])
            elif len(a.args) == len(b.args) and not any(x.op == 'vec' for x in a.args):
                r = None
                for x, y in zip(a.args, b.args):
                    r = mul(x, y) if r is None else add(r, mul(x, y))
                return r
        if a.op == 'num' or b.op == 'num':
            return mul(a, b)
        (x, a), (y, b) = self.scalars(a), self.scalars(b)
        return mul(mul(x, y), mk('call', 'matmul', a, b))

    def scalars(self, t):
        """a product as (its scalar factors, the rest)"""
        if t.op != 'poly' or len(t.args) != 1:
            return ONE, t
        (m, c), = t.args
        rest = tuple(x for x in m if x[1] > 0 and self.tyof(x[0]) not in ('float', 'int', 'num'))
        if not rest:
            return ONE, t
        return TM.from_poly({tuple(x for x in m if x not in rest): c}), TM.from_poly({rest: 1})

    def e_Compare(self, e):
        l = self.expr(e.left)
        r = TRUE
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            x = self.expr(c)
            v = self.compare(type(op).__name__, l, x, e)
            if len(e.ops) == 1:
                return v
            r = AND(r, truthy(v))
            l = x
        return r

    def compare(self, op, a, b, node):
        if op in ('Is', 'IsNot'):
            r = is_(a, b)
            return r if op == 'Is' else NOT(r)
        if op in ('In', 'NotIn'):
            r = self.contains(a, self.deref(b))
            return r if op == 'In' else NOT(r)
        a, b = self.freeze(self.deref(a)), self.freeze(self.deref(b))
        if op == 'Eq':
            return eq(a, b)
        if op == 'NotEq':
            r = eq(a, b)
            return self.vnot(r)
        if op == 'Lt':
            return lt(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'LtE':
            return le(a, b)
        return le(b, a)

    def vnot(self, r):
        return self.map_ite(r, lambda x: mk('vec', *[NOT(y) for y in x.args])) if r.op == 'vec' else NOT(r)

    def contains(self, a, c):
        if c.op == 'ite':
            return self.map_ite(c, lambda x: self.contains(a, x))
        if c.op in ('list', 'tuple', 'vec'):
            r = FALSE
            for x in c.args:
                r = OR(r, eq(a, x))
            return r
        if c.op == 'dict':
            r = FALSE
            for k, _ in c.args:
                r = OR(r, eq(a, k))
            return r
        if c.op == 'concat':
            r = FALSE
            for x in c.args:
                r = OR(r, self.contains(a, x))
            return r
        if c.op == 'call' and c.args[0] in ('set', 'list', 'tuple', 'frozenset') and len(c.args) == 2:
            return self.contains(a, c.args[1])
        if c.op == 'keys':
            return self.contains(a, c.args[0])
        if c.op == 'call' and c.args[0] == 'put' and c.args[2].op == 'str':
            return OR(eq(a, c.args[2]), self.contains(a, c.args[1]))
        if c.op == 'mapf':
            d, g, v, h = c.args
            t = self.tmp('ix')
            m = {mk('ix', int(h.args[0])): t}
            cond = AND(subst(g, m), eq(subst(v, m), a))
            hh = height(cond)
            return mk_any(d, subst(cond, {t: mk('ix', hh)}))
        return lift('in', lambda x, y: atom(mk('in', x, y)), self.freeze(a), c)

    def e_IfExp(self, e):
        c = truthy(self.cond(e.test))
        return self.branch(c, lambda: self.expr(e.body), lambda: self.expr(e.orelse))

    def e_Lambda(self, e):
        return self.closure(e)

    def closure(self, node):
        self.n += 1
        t = mk('lam', self.n)
        self.side[t] = (node, self.frame, self.st.locals)
        return t

    def e_Starred(self, e):
        return self.expr(e.value)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.assign(e.target, v)
        return v

    def slice(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.expr(x) if x is not None else NONE
            st = f(s.step)
            lo = f(s.lower)
            return call_slice(lo if lo is not ZERO else NONE, f(s.upper), NONE if st is ONE else st)
        if isinstance(s, ast.Index):
            return self.expr(s.value)
        if isinstance(s, ast.Tuple):
            return mk('tuple', *[self.slice(x) for x in s.elts])
        return self.expr(s)

    def e_Subscript(self, e):
        o = self.expr(e.value)
        k = self.slice(e.slice)
        return self.subscript(o, k, e)

    def subscript(self, o, k, node):
        d = self.deref(o)
        k = self.freeze(k) if k.op == 'obj' else k
        self.event('index', (d, k), node)
        if d.op == 'attr' and d.args[1] == 'shape' and k.op == 'num' and k.args[0] < 0 and self.is_grid(d.args[0]):
            k = num(k.args[0] + 3)
        # concatenations: constant positions in the literal prefix
        if d.op == 'concat' and k.op == 'num':
            i = int(k.args[0])
            if d.args[0].op == 'list' and 0 <= i < len(d.args[0].args):
                return d.args[0].args[i]
            if d.args[-1].op == 'list' and i < 0 and -i <= len(d.args[-1].args):
                return d.args[-1].args[i]
        if d.op == 'mapf' and k.op not in ('slice',):
            if d.args[1] is TRUE and k.op == 'num' and k.args[0] >= 0 or d.args[1] is TRUE and k.op in ('ix', 'tmp'):
                return subst(d.args[2], {mk('ix', int(d.args[3].args[0])): k})
        if k.op == 'slice' and all(x is NONE or x.op == 'num' for x in k.args):
            ty = self.tyof(d)
            if isinstance(ty, tuple) and ty[0] == 'tuple':
                d = mk('tuple', *[index(d, num(i)) for i in range(len(ty[1]))])
            d = self.spread(d)
            if d.op == 'attr' and d.args[1] == 'shape' and self.is_grid(d.args[0]):
                d = mk('tuple', *[index(d, num(i)) for i in range(3)])
        r = self.map_ite(d, lambda x: index(x, k))
        if d.op in ('list', 'dict') and k.op == 'slice':
            return self.newobj(r)
        return r

    @staticmethod
    def is_grid(x):
        """the occupancy grid, which has three dimensions"""
        while x.op.startswith('after_') or x.op == 'after':
            x = x.args[0]
        return x.op == 'attr' and x.args[1] == 'grid'

    def comp(self, e, kind):
        o = self.newobj(mk('list') if kind != 'dict' else mk('dict'))
        saved = dict(self.st.locals)

        def rec(i):
            if i == len(e.generators):
                if kind == 'dict':
                    k = self.expr(e.key)
                    v = self.expr(e.value)
                    self.set_content(o, self.map_ite(self.deref(o), lambda c: self.put(c, k, v)))
                else:
                    self.append(o, self.expr(e.elt))
                return
            g = e.generators[i]
            it = self.expr(g.iter)

            def body(el):
                self.assign(g.target, el)
                self.conds(g.ifs, lambda: rec(i + 1))
            self.loop(it, body, set(), e)
        # comprehension variables are local to it
        rec(0)
        for g in e.generators:
            for n in self.target_names(g.target):
                if n in saved:
                    self.st.locals[n] = saved[n]
                else:
                    self.st.locals.pop(n, None)
        return o

    def conds(self, ifs, k):
        if not ifs:
            k()
            return
        c = truthy(self.cond(ifs[0]))
        self.if_(c, lambda: self.conds(ifs[1:], k), lambda: None)

    def e_ListComp(self, e):
        return self.comp(e, 'list')

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        return mk('call', 'set', self.freeze(self.comp(e, 'list')))

    def e_DictComp(self, e):
        return self.comp(e, 'dict')

    def append(self, o, v):
        self.set_content(o, self.map_ite(self.deref(o), lambda c: concat(c, mk('list', v))))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        f = e.func
        args = []
        star = None
        if isinstance(f, ast.Name) and f.id == 'super' and f.id not in self.st.locals:
            return self.super_(e)
        recv = None
        if isinstance(f, ast.Attribute):
            recv = self.expr(f.value)
            fv = None
        else:
            fv = self.expr(f)
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.deref(self.expr(a.value))
                if v.op in ('list', 'tuple', 'vec'):
                    args += list(v.args)
                elif isinstance(self.tyof(v), tuple) and self.tyof(v)[0] == 'tuple':
                    args += [index(v, num(i)) for i in range(len(self.tyof(v)[1]))]
                else:
                    args.append(mk('star', self.freeze(v)))
            else:
                args.append(self.expr(a))
        kw = {}
        for k in e.keywords:
            v = self.expr(k.value)
            if k.arg is None:
                d = self.deref(v)
                if d.op == 'dict' and all(kk.op == 'str' for kk, _ in d.args):
                    for kk, vv in d.args:
                        kw[kk.args[0]] = vv
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        if recv is not None and isinstance(f.value, ast.Name) and f.attr in LOGCALLS and self.is_logger(recv):
            return NONE
        if recv is not None:
            return self.map_live(recv, lambda r: self.method(r, f.attr, args, kw, e)) if recv.op == 'ite' and \
                not all(x.op in ('num', 'poly', 'vec') for x in leaves(recv)) else \
                self.method(recv, f.attr, args, kw, e)
        return self.map_live(fv, lambda x: self.apply(x, args, kw, e))

    def is_logger(self, r):
        """log messages and warnings are no behaviour of the simulation"""
        r = self.deref(r)
        return r.op in ('extmod', 'extname') and r.args[0] in ('logging', 'warnings', 'logger') or \
            'logging.getLogger' in show(r)[:60]

    def super_(self, e):
        fr = self.frame
        while fr.func is None or fr.cls is None:
            fr = fr.parent
        first = fr.func.node.args.args[0].arg
        s = fr.selfterm if getattr(fr, 'selfterm', None) is not None else self.st.locals[first]
        dyn = self.exact.get(s) or fr.selfcls or fr.cls
        if s.op == 'cls':
            dyn = self.p.classes[s.args[0]]
        if not self.p.is_sub(dyn, fr.cls):
            dyn = fr.cls
        return mk('super', fr.cls.name, s, dyn.name)

    def method(self, o, name, args, kw, node):
        if o.op in ('mod', 'extmod', 'cls', 'super'):
            return self.apply(self.load_attr(o, name, node), args, kw, node)
        r = self.builtin_method(o, name, args, kw, node)
        if r is not None:
            return r
        f = self.load_attr(o, name, node)
        return self.map_live(f, lambda x: self.apply(x, args, kw, node))

    def builtin_method(self, o, name, args, kw, node):
        d = self.deref(o)
        ty = self.tyof(o)
        if isinstance(ty, Class) and self.p.lookup(ty, name):
            return None
        if (o, name) in self.st.heap:
            return None
        if ty is None and o.op not in ('obj', 'vec', 'list', 'tuple', 'dict', 'str', 'num', 'poly') and \
                name not in MUTATORS and name not in RNG and name not in PURE_METHODS:
            return None
        if name == 'append' and args and (kw or all(x.op == 'call' and str(x.args[0]).startswith('pandas.') for x in leaves(o))):
            # a table with more rows: a new table
            return self.map_ite(o, lambda x: mk('call', 'm_append', x, *[self.freeze(a) for a in args],
                                                *[mk('tuple', strc(k), self.freeze(v)) for k, v in sorted(kw.items())]))
        if name in ('append', 'appendleft') and len(args) == 1:
            self.event('mutate', (o, name, args), node)
            c = self.map_ite(d, lambda x: concat(x, mk('list', args[0])) if name == 'append'
                             else concat(mk('list', args[0]), x))
            self.set_content(o, c)
            return NONE
        if name == 'extend' and len(args) == 1:
            self.event('mutate', (o, name, args), node)
            src = self.deref(args[0])
            if len(self.guards) > 1 and src.op not in ('list', 'tuple', 'vec', 'concat', 'ite') and o.op == 'obj':
                self.loop(args[0], lambda el: self.append(o, el), set(), node)
                return NONE
            self.set_content(o, add(d, self.aslist(self.deref(args[0]))))
            return NONE
        if name == 'update' and len(args) <= 1 and not (isinstance(ty, Class)):
            self.event('mutate', (o, name, args), node)
            new = self.deref(args[0]) if args else mk('dict')
            if kw:
                new2 = mk('dict', *sorted(((strc(k), v) for k, v in kw.items()), key=lambda kv: kv[0].dig))
                new = new2 if not args else call('merge', new, new2)
            if new.op == 'dict':
                c = d
                for k, v in new.args:
                    c = self.map_ite(c, lambda x: self.put(x, k, v))
            else:
                c = call('merge', d, self.freeze(new))
            self.set_content(o, c)
            return NONE
        if name == 'setdefault' and 1 <= len(args) <= 2 and not isinstance(ty, Class):
            df = args[1] if len(args) > 1 else NONE
            self.if_(NOT(truthy(self.contains(self.freeze(args[0]), d))),
                     lambda: self.store_sub(None, o, args[0], df, node), lambda: None)
            return self.subscript(o, args[0], node)
        if name in MUTATORS and not (name == 'rotate' and all(x.op == 'call' and str(x.args[0]).startswith('pygame.')
                                                              for x in leaves(o))):
            if name == 'pop' and d.op == 'list' and not kw and all(a.op == 'num' for a in args):
                i = int(args[0].args[0]) if args else -1
                if -len(d.args) <= i < len(d.args):
                    l = list(d.args)
                    v = l.pop(i)
                    self.set_content(o, mk('list', *l))
                    return v
            self.event('mutate', (o, name, args), node)
            fr = [self.freeze(a) for a in args or ([num(-1)] if name == 'pop' else [])]
            kws = [mk('tuple', strc(k), self.freeze(v)) for k, v in sorted(kw.items())]
            if name == 'remove' and len(fr) == 1 and fr[0].op == 'tuple' and fr[0].args:        # removed by value: all parts of x are x
                x = fr[0].args[0].args[0] if fr[0].args[0].op == 'idx' else None
                if x is not None and all(y is index(x, num(i)) for i, y in enumerate(fr[0].args)):
                    fr = [x]
            if name == 'sort':
                self.set_content(o, call('sorted', d, *kws))
                return NONE
            self.set_content(o, call('after_' + name, d, *(fr + kws)))
            return call('res_' + name, d, *(fr + kws)) if name in ('pop', 'popitem', 'setdefault', 'popleft') else NONE
        if name in RNG and (ty is None or not isinstance(ty, Class)):
            fr = [self.freeze(a) for a in args] + [mk('tuple', strc(k), self.freeze(v)) for k, v in sorted(kw.items())]
            v = self.st.ver.get('@rng', ZERO)
            val = self.map_ite(v, lambda x: mk('vcall', name, o, tuple(fr), x))
            self.bump('@rng', lift('vr', lambda x: mk('ver', '@rng', x), val))
            self.event('draw', (o, name), node)
            if name == 'shuffle' and args:
                self.set_content(args[0], call('shuffled', self.deref(args[0]), val))
            return val
        if name in ('keys', 'values', 'items') and not args:
            return mk(name, d) if d.op != 'ite' else self.map_ite(d, lambda x: mk(name, x))
        if name == 'get' and 1 <= len(args) <= 2:
            df = args[1] if len(args) > 1 else NONE
            return self.map_ite(d, lambda x: self.dict_get(x, args[0], df))
        if name == 'index' and len(args) == 1 and not kw and any(x.op == 'call' and x.args[0] in ('min', 'max')
                                                                  for x in leaves(args[0])):
            r = lift('index', lambda x, y: self.argext(y.args[0], x) if y.op == 'call' and y.args[0] in ('min', 'max') and
                     y.args[1:] == (x,) else UNDEF, self.freeze(d), args[0])
            if UNDEF not in leaves(r):
                return r
        if name == 'copy' and not args:
            if d.op in ('list', 'dict', 'concat', 'mapf', 'flatmap', 'sym', 'attr', 'idx', 'vcall') or o.op == 'obj':
                return self.newobj(d)
            return d
        if name == 'astype' and args:
            self.event('dtype', (d, args[0]), node)
            t = args[0]
            if t.op in ('builtin', 'extmod') and t.args[0] in ('float', 'np.float', 'np.float64', 'np.float_') or \
                    t.op == 'str' and t.args[0] in ('float', 'float64'):
                return d
        if name in ('astype', 'flatten', 'ravel', 'tolist', 'squeeze', 'item') and d.op != 'ite':
            if d.op == 'vec' and not any(x.op == 'vec' for x in d.args) or d.op in ('attr', 'idx', 'poly', 'num') and \
                    name in ('astype', 'tolist', 'item'):
                if args and name == 'astype':
                    t = args[0]
                    if t.op in ('builtin', 'extmod') and t.args[0] in ('int', 'bool', 'np.int', 'np.bool', 'np.int64') \
                            or t.op == 'str' and t.args[0] == 'int':
                        return call1('int', d)
                return d
            return call('m_' + name, d, *[self.freeze(a) for a in args])
        if name == 'dot' and len(args) == 1:
            return self.matmul(d, args[0])
        if name in ('any', 'all') and not args:
            return self.anyall(name, d)
        if name in ('sum', 'min', 'max') and not args and not kw:
            return self.builtin(name, [d], {}, node)
        if name == 'format' and d.op == 'str':
            r = self.template(d, args, kw)
            if r is not None:
                return r
            return mk('call', 'format', d, *[self.freeze(a) for a in args])
        if name in NPMETHODS and ty != 'str' and d.op not in ('str', 'list', 'dict'):
            return self.ext_call('np.' + name, [d] + (
                [mk('tuple', *args)] if name == 'reshape' and len(args) > 1 else list(args)), kw, node)
        if name in PURE_METHODS:
            return call('m_' + name, self.freeze(d), *([self.freeze(self.deref(a)) for a in args] +
                        [mk('tuple', strc(k), self.freeze(v)) for k, v in sorted(kw.items())]))
        return None

    def dict_get(self, d, k, df):
        if d.op == 'dict' and all(kk.op in ('str', 'num') for kk, _ in d.args):
            r = index(d, k)
            return self.map_ite(r, lambda x: df if x.op == 'raise' else x)
        return self.map_ite(k, lambda kk: ite(atom(mk('in', kk, d)), index(d, kk), df))

    def anyall(self, name, d):
        d = self.deref(d)
        if d.op == 'ite':
            return self.map_ite(d, lambda x: self.anyall(name, x))
        if d.op in ('list', 'tuple', 'vec'):
            r = FALSE if name == 'any' else TRUE
            for x in d.args:
                if x.op == 'vec':
                    x = self.anyall(name, x)
                r = OR(r, truthy(x)) if name == 'any' else AND(r, truthy(x))
            return r
        if d.op == 'mapf':
            dom, g, v, h = d.args
            t = self.tmp('ix')
            m = {mk('ix', int(h.args[0])): t}
            g, v = subst(g, m), truthy(subst(v, m))
            c = AND(g, v) if name == 'any' else AND(g, NOT(v))
            r = mk_any(dom, subst(c, {t: mk('ix', height(c))}))
            return r if name == 'any' else NOT(r)
        if d.op == 'concat':
            r = FALSE if name == 'any' else TRUE
            for x in d.args:
                y = self.anyall(name, x)
                r = OR(r, y) if name == 'any' else AND(r, y)
            return r
        if d.op == 'bool':
            return d
        return truthy(mk('call', name, d))

    def can_inline(self, fn):
        if fn.qual in self.no_inline or len(self.stack) >= self.max_depth or fn.abstract or \
                fn.cls is not None and self.is_hook(fn):
            return False
        return self.stack.count(fn) < 2

    def apply(self, f, args, kw, node=None):
        if f.op == 'bound':
            fn, o = self.side[f]
            return self.call_or_opaque(fn, o, args, kw, node)
        if f.op == 'func':
            fn = self.side[f]
            if fn.cls is not None and not fn.is_static and not fn.is_class and args and not self.can_inline(fn):
                return self.call_or_opaque(fn, args[0], args[1:], kw, node)
            if self.can_inline(fn):
                cls = None
                sc = None
                if fn.cls is not None and args and args[0] in self.exact:
                    sc = self.exact[args[0]]
                return self.call_func(fn, args, kw, selfcls=sc)
            return self.opaque(fn.name, None, fn, args, kw, node)
        if f.op == 'lam':
            return self.call_closure(f, args, kw)
        if f.op == 'vbound':
            name, o = f.args
            impls = self.impls(o, self.tyof(o), name)
            fn = None
            if impls:
                fn = sorted(impls, key=lambda m: (len(self.p.mro(m.cls)), m.qual))[0]
            return self.opaque(name, o, fn, args, kw, node, impls)
        if f.op == 'builtin':
            return self.builtin(f.args[0], args, kw, node)
        if f.op == 'extmod':
            return self.ext_call(f.args[0], args, kw, node)
        if f.op == 'cls':
            return self.construct(f, args, kw, node)
        if f.op == 'partial':
            return self.apply(f.args[0], list(f.args[1]) + args, dict(list(f.args[2]) + list(kw.items())), node)
        if f.op == 'extname':
            return self.ext_call(f.args[0], args, kw, node)
        if f.op == 'fn':
            lvl, n = int(f.args[1].args[0]), int(f.args[2].args[0])
            return subst(f.args[0], {mk('ix', lvl + i): a for i, a in enumerate(args[:n])})
        if f.op == 'attr' and f.args[0].op not in ('cls',):
            return self.opaque(f.args[1], f.args[0], None, args, kw, node)
        if f.op == 'raise':         # looking the function up has failed: its arguments do not matter
            args, kw = [], {}
        return self.opaque('apply', f, None, args, kw, node)

    def call_or_opaque(self, fn, o, args, kw, node):
        if self.can_inline(fn):
            sc = self.exact.get(o)
            return self.call_func(fn, [o] + args, kw, selfcls=sc)
        return self.opaque(fn.name, o, fn, args, kw, node, {fn})

    def bindargs(self, fn, args, kw, with_self):
        """argument binding -> dict or None"""
        a = fn.node.args
        names = [x.arg for x in a.args]
        env = {}
        pos = list(args)
        if any(x.op == 'star' for x in pos):
            return None
        extra = pos[len(names):]
        for n, v in zip(names, pos):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = mk('tuple', *extra)
        elif extra:
            return None
        rest = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                rest[k] = v
        if rest and not a.kwarg:
            return None
        if a.kwarg:
            if '**' in rest:
                env[a.kwarg.arg] = rest['**']
            else:
                env[a.kwarg.arg] = mk('dict', *sorted(((strc(k), v) for k, v in rest.items()),
                                                     key=lambda kv: kv[0].dig))
        return env

    def call_func(self, fn, args, kw, selfcls=None):
        fn = self.instead.get(fn.qual, fn) if fn.cls is not None else fn
        if '**' in kw:
            # f(**config): every named parameter may come from the mapping
            d = kw.pop('**')
            dd = self.freeze(self.deref(d))
            names = [x.arg for x in fn.node.args.args][len(args):]
            defaults = dict(zip([x.arg for x in fn.node.args.args][::-1], fn.node.args.defaults[::-1]))
            kw = dict(kw)
            for n in names:
                if n not in kw:
                    df = self.const_expr(fn.module, defaults[n], fn.cls) if n in defaults else mk('raise', 'TypeError')
                    kw[n] = self.map_ite(dd, lambda x: self.dict_get(x, strc(n), df))
            if fn.node.args.kwarg:
                kw['**'] = d
        env = self.bindargs(fn, args, kw, True)
        if env is None:
            return self.opaque(fn.name, args[0] if fn.cls and args else None, fn, args[1:] if fn.cls else args, kw, None)
        a = fn.node.args
        names = [x.arg for x in a.args]
        for n, dv in zip(names[::-1], a.defaults[::-1]):
            if n not in env:
                env[n] = self.const_expr(fn.module, dv, None)
        for x, dv in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and dv is not None:
                env[x.arg] = self.const_expr(fn.module, dv, None)
        for n in names:
            if n not in env:
                env[n] = self.unknown(fn.node, 'missing argument ' + n)
        if fn.is_class and args and args[0].op not in ('cls',):
            pass
        self.inlined.add(fn)
        return self.run_body(fn, env, Frame(fn.module, fn.cls, fn, selfcls))

    def run_body(self, fn, env, frame):
        st = self.st
        saved, sret, sfr = st.locals, st.ret, self.frame
        sbrk, scont, sraised = st.brk, st.cont, st.raised
        entry, sflive = st.live, st.flive
        st.flive = st.live
        st.locals, st.ret, st.brk, st.cont = env, NORET, FALSE, FALSE
        self.frame = frame
        self.stack.append(fn)
        try:
            r = self.body(fn)
        finally:
            self.stack.pop()
            self.frame = sfr
        st = self.st
        st.locals, st.ret, st.brk, st.cont = saved, sret, sbrk, scont
        newraise = AND(entry, st.raised) if st.raised is not sraised else FALSE
        st.live = AND(entry, NOT(st.raised)) if st.raised is not sraised else entry
        st.flive = sflive
        return r

    def call_closure(self, f, args, kw):
        node, frame, env0 = self.side[f]
        st = self.st
        env = dict(env0)
        a = node.args
        names = [x.arg for x in a.args]
        given = {}
        for n, v in zip(names, args):
            given[n] = v
        given.update({k: v for k, v in kw.items()})
        for n, dv in zip(names[::-1], a.defaults[::-1]):
            if n not in given:
                sv = st.locals
                st.locals = env
                given[n] = self.expr(dv)
                st = self.st
                st.locals = sv
        env.update(given)
        if a.vararg:
            env[a.vararg.arg] = mk('tuple', *args[len(names):])
        if isinstance(node, ast.Lambda):
            saved, sfr = st.locals, self.frame
            st.locals = env
            self.frame = frame
            try:
                v = self.expr(node.body)
            finally:
                self.frame = sfr
                self.st.locals = saved
            return v
        if len(self.stack) >= self.max_depth:
            return self.unknown(node, 'closure recursion')
        fn = Func(node, frame.module, None, node.name)
        fr = Frame(frame.module, frame.cls, frame.func, frame.selfcls, frame)
        first = frame.func.node.args.args[0].arg if frame.func and frame.func.cls and frame.func.node.args.args else None
        fr.selfterm = env0.get(first) if first else None
        return self.run_body(fn, env, fr)

    def opaque(self, name, o, fn, args, kw, node, impls=None):
        """uninterpreted call: arguments are normalised to the callee's parameter names"""
        pairs = None
        if fn is None and not impls and o is not None and '**' not in kw:
            one = [f for f in self.named(name) if f.cls is not None and not f.is_static and not f.is_class and not f.is_property]
            if one and len({ast.dump(f.node.args) for f in one}) == 1:       # whoever has this method, its parameters are these
                fn = sorted(one, key=lambda f: f.qual)[0]
                env = self.bindargs(fn, [o] + list(args), kw, True)
                if env is not None:
                    names = [x.arg for x in fn.node.args.args]
                    for i, n in enumerate(names[1:]):
                        if n not in env:
                            break
                    else:
                        i = len(names) - 1
                    args, kw = [env[n] for n in names[1:i + 1]], {n: env[n] for n in names[i + 2:] if n in env}
                fn = None
        if fn is not None:
            full = ([o] if o is not None and fn.cls and not fn.is_static else []) + list(args)
            if '**' not in kw:
                env = self.bindargs(fn, full, kw, True)
                if env is not None:
                    names = [x.arg for x in fn.node.args.args]
                    if fn.cls and not fn.is_static and names:
                        env.pop(names[0], None)
                    defaults = dict(zip(names[::-1], fn.node.args.defaults[::-1]))
                    pairs = []
                    for i, n in enumerate(names):
                        if n in env:
                            pairs.append(mk('tuple', num(i), self.freeze(self.arg(env[n]))))
                        elif n in defaults:
                            pairs.append(mk('tuple', num(i), self.const_expr(fn.module, defaults[n], None)))
        if pairs is None:
            if args and '**' not in kw and self.makes_vehicle(name, o, fn, impls):   # by the constructor's parameter names
                names = self.vehicle_params()
                if not any(n in kw for n in names[:len(args)]) and not any(a.op == 'star' for a in args):
                    k = min(len(names), len(args))
                    args, kw = list(args[k:]), dict(list(kw.items()) + list(zip(names, args)))
            pairs = [self.freeze(self.arg(a)) for a in args] + \
                    [mk('tuple', strc(k), self.freeze(self.arg(v))) for k, v in sorted(kw.items())]
        o2 = NONE if o is None else self.freeze(o)
        fs = impls if impls else ({fn} if fn else self.named(name))
        if fs and all(f.is_property for f in fs):     # the value of a property is called: here always a vehicle class
            fs = {i for i in (self.p.lookup(c, '__init__') for c in self.p.descendants(self.p.cls('RoadObject'))) if i}
            self.types.reads(fs, name)
            writes, rng, known = self.types.effects(fs, name)
            known = False
        else:
            writes, rng, known = self.types.effects(fs, name)
        reads = self.types.reads(fs, name)
        vs = live_state(sorted(((f, self.freeze(v)) for f, v in self.heap_state(reads)),
                               key=lambda z: (z[0], z[1].dig)))
        tag = name
        if fn is not None and fn.cls is not None and impls == {fn} and o in self.exact and \
                self.p.lookup(self.exact[o], name) is not fn:
            tag = fn.qual            # a statically chosen (inherited) implementation
        val = lift('vcall:%s:%d:%d' % (tag, len(pairs), len(vs)),
                   lambda oo, *ps: mk('vcall', tag, oo, tuple(ps), vs) if vs else mk('vcall', tag, oo, tuple(ps)),
                   o2, *pairs)
        made = val
        if name in self.types.allocators:
            val = self.distinct(val, lambda x, n: mk('vcall', x.args[0], x.args[1],
                                                     x.args[2] + (mk('tuple', strc('#'), n),), *x.args[3:])
                                if x.op == 'vcall' else x)
        self.event('call', (name, o, args, kw), node)
        if name == 'apply' and o2.op == 'sym' and self.stack[0].name in MAPPINGS:
            writes, rng, known = (), False, True
        if writes or not known:
            self.effect(mk('eff', made))
            for f in sorted(writes):
                self.bump(f, mk('ver', f, mk('eff', made)))
            if any('@param' in self.types.direct_of(x) for x in fs):     # a container handed over is changed in place
                for x in list(args) + list(kw.values()):
                    for y in leaves(x):
                        if y.op == 'attr' and isinstance(y.args[1], str):
                            self.bump(y.args[1], mk('ver', y.args[1], mk('eff', made)))
        if rng:
            self.bump('@rng', mk('ver', '@rng', mk('eff', made)))
        if name in VEC2RET:
            val = self.map_ite(val, lambda t: mk('vec', mk('idx', t, ZERO), mk('idx', t, ONE)))
        if self.types.rets.get(name) == 'bool':
            val = truthy(val)
        if fs and all(self.types.void(f) for f in fs):
            return NONE
        return val

    def makes_vehicle(self, name, o, fn, impls):
        """the callee is a vehicle class picked at run time"""
        if name == 'apply':
            return o is not None and o.op == 'vcall' and o.args[0] == 'class_from_path'
        fs = impls if impls else ({fn} if fn else self.named(name))
        return bool(fs) and all(f.is_property for f in fs)

    def vehicle_params(self):
        """leading constructor parameters all vehicle classes agree on"""
        out = []
        for z in zip(*[[x.arg for x in i.node.args.args[1:]] for i in
                       (self.p.lookup(c, '__init__') for c in self.p.descendants(self.p.cls('Vehicle'))) if i]):
            if len(set(z)) > 1:
                break
            out.append(z[0])
        return out

    def arg(self, v):
        return v

    def named(self, name):
        return {c.methods[name] for c in self.p.classes.values() if name in c.methods} | \
               {m.funcs[name] for m in self.p.modules.values() if name in m.funcs}

    def heap_state(self, reads):
        """the part of the modified heap an opaque callee may observe"""
        out = []
        for (o, f), v in self.st.heap.items():
            if f == '[]' or not isinstance(f, str) or o.op == 'obj':
                continue
            if self.types.may_read(reads, self.tyof(o), f):
                out.append((f, mk('tuple', o, v)))
        for f, v in self.st.ver.items():
            if f in reads and v is not ZERO:
                out.append((f, v))
        return out

    def construct(self, c, args, kw, node):
        cls = self.p.classes.get(c.args[0])
        if cls is None:
            return self.ext_call(c.args[0], args, kw, node)
        init = self.p.lookup(cls, '__init__')
        if c.args[0] in self.types.value_classes and init is not None:
            pass
        pairs = None
        if init is not None:
            s = sym('new')
            env = self.bindargs(init, [s] + list(args), kw, True) if '**' not in kw else None
            if env is not None:
                names = [x.arg for x in init.node.args.args]
                env.pop(names[0], None)
                defaults = dict(zip(names[::-1], init.node.args.defaults[::-1]))
                pairs = []
                for n in sorted(env):
                    v = self.freeze(env[n])
                    if n in defaults and self.const_expr(init.module, defaults[n], None) is v:
                        continue
                    if init.node.args.kwarg and n == init.node.args.kwarg.arg and v.op == 'dict' and not v.args:
                        continue
                    pairs.append(mk('tuple', strc(n), v))
        if pairs is None:
            pairs = [self.freeze(a) for a in args] + [mk('tuple', strc(k), self.freeze(v)) for k, v in sorted(kw.items())]
        self.event('new', (cls, args, kw), node)
        return self.distinct(lift('new:%s' % cls.name, lambda *ps: mk('new', cls.name, tuple(ps)), *pairs),
                             lambda x, n: mk('new', cls.name, x.args[1], n))

    # ------------------------------------------------------------------ builtins and numpy
    def builtin(self, n, args, kw, node):
        a = args
        if n == 'object.__init__':
            return NONE
        if n == 'isinstance' and len(a) == 2:
            return self.isinstance_(a[0], a[1])
        if n == 'len' and len(a) == 1:
            return self.map_ite(self.deref(a[0]), self.len_)
        if n == 'abs':
            return absolute(self.deref(a[0]))
        if n in ('min', 'max'):
            return self.minmax(n, a, kw, node)
        if n == 'sum':
            return self.sum_(a, node)
        if n in ('any', 'all'):
            return self.anyall(n, a[0])
        if n == 'range':
            lo, hi, s = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else a[:3]
            return lift('range', lambda x, y, z: mk('range', x, y, z), lo, hi, s)
        if n == 'enumerate':
            s = a[1] if len(a) > 1 else kw.get('start', ZERO)
            return self.map_ite(self.deref(a[0]), lambda x: mk('enumerate', x, s))
        if n == 'zip':
            return lift('zip', lambda *x: mk('zip', *x), *[self.deref(x) for x in a])
        if n == 'reversed':
            return mk('reversed', self.deref(a[0]))
        if n == 'list' or n == 'tuple':
            if not a:
                r = mk(n)
            else:
                d = self.deref(a[0])
                d = self.map_ite(d, lambda x: mk('keys', x) if x.op != 'dict' and self.tyof(x) == 'dict' else x)
                els = self.concrete(d) if d.op != 'ite' else None
                if els is not None:
                    r = mk(n, *els)
                elif n == 'list' and d.op in ('attr', 'sym') and self.tyof(d) in (None, 'array'):
                    o = self.newobj(mk('list'))
                    self.loop(d, lambda el: self.append(o, el), set(), node)
                    r = self.deref(o)
                elif d.op in ('range', 'enumerate', 'zip', 'items', 'values', 'reversed'):
                    o = self.newobj(mk('list'))
                    self.loop(d, lambda el: self.append(o, el), set(), node)
                    r = self.deref(o)
                else:
                    r = d
            return self.newobj(r) if n == 'list' else r
        if n == 'dict':
            if a:
                d = self.deref(a[0])
                if all(x.op in ('list', 'mapf', 'flatmap', 'concat', 'zip', 'tuple') for x in leaves(d)):
                    o = self.newobj(mk('dict'))

                    def pair(el):
                        self.set_content(o, self.map_ite(self.deref(o), lambda c: self.put(c, index(el, ZERO),
                                                                                           index(el, ONE))))
                    self.loop(d, pair, set(), node)
                    if not kw:
                        return o
                    d = self.deref(o)
                if kw:
                    d = call('merge', d, mk('dict', *sorted(((strc(k), v) for k, v in kw.items()),
                                                            key=lambda kv: kv[0].dig)))
                return self.newobj(d)
            return self.newobj(mk('dict', *sorted(((strc(k), v) for k, v in kw.items()), key=lambda kv: kv[0].dig)))
        if n == 'set':
            return mk('call', 'set', self.freeze(a[0])) if a else mk('call', 'set')
        if n == 'map' and len(a) >= 2:
            o = self.newobj(mk('list'))
            it = self.deref(a[1]) if len(a) == 2 else mk('zip', *[self.deref(x) for x in a[1:]])
            self.loop(it, lambda el: self.append(o, self.apply(a[0], [el] if len(a) == 2 else
                                                 [index(el, num(i)) for i in range(len(a) - 1)], {}, node)), set(), node)
            return o
        if n == 'filter':
            o = self.newobj(mk('list'))
            self.loop(self.deref(a[1]), lambda el: self.if_(
                truthy(el if a[0] is NONE else self.apply(a[0], [el], {}, node)),
                lambda: self.append(o, el), lambda: None), set(), node)
            return o
        if n == 'float':
            return self.deref(a[0]) if a else ZERO
        if n == 'int':
            return lift('int', self.int_, self.deref(a[0]))
        if n == 'bool':
            return truthy(self.deref(a[0]))
        if n == 'round' and len(a) == 1:
            return call1('round', self.deref(a[0]))
        if n == 'getattr' and a[1].op == 'str':
            nm = a[1].args[0]
            if len(a) == 2:
                return self.load_attr(a[0], nm, node)
            return self.map_live(a[0], lambda o: self.branch(self.hasattr_(o, nm), lambda: self.load_attr(o, nm, node),
                                                             lambda: a[2]))
        if n == 'hasattr' and a[1].op == 'str':
            return self.map_ite(a[0], lambda o: self.hasattr_(o, a[1].args[0]))
        if n == 'setattr' and a[1].op == 'str':
            self.store_attr(a[0], a[1].args[0], a[2], node)
            return NONE
        if n == 'setattr':
            self.effect(mk('eff', call('setattr', *[self.freeze(x) for x in a])))
            return NONE
        if n == 'type' and len(a) == 1:
            ty = self.tyof(a[0])
            if a[0] in self.exact:
                return mk('cls', self.exact[a[0]].name)
            return call('type', a[0])
        if n == 'sorted':
            fr = [mk('tuple', strc(k), self.fnarg(v)) for k, v in sorted(kw.items())]
            return self.newobj(call('sorted', self.freeze(self.deref(a[0])), *fr))
        if n == 'next':
            d = self.deref(a[0])
            df = a[1] if len(a) > 1 else mk('raise', 'StopIteration')
            return self.map_ite(d, lambda x: self.next_(x, df))
        if n == 'iter':
            return a[0]
        if n == 'print':
            return NONE
        if n == 'str' and len(a) == 1:
            x = self.freeze(self.deref(a[0]))
            return lift('str', lambda y: strc(str(y.args[0])) if y.op == 'num' and y.args[0].denominator == 1 and
                        not isinstance(y.args[0], float) else TM.fstr([y]), x)
        if n == 'callable':
            return truthy(call('callable', self.freeze(a[0])))
        if n == 'slice':
            return call_slice(*([a[0], a[1], NONE] if len(a) == 2 else [NONE, a[0], NONE] if len(a) == 1 else a))
        if n == 'pow':
            return power(a[0], a[1])
        if n == 'divmod':
            return mk('tuple', self.binop('FloorDiv', a[0], a[1], node), self.binop('Mod', a[0], a[1], node))
        return call(n, *[self.freeze(self.arg(x)) for x in a])

    def int_(self, x):
        if x.op == 'num':
            return num(int(x.args[0]))
        if x.op == 'call' and x.args[0] in ('round', 'floor', 'ceil', 'int', 'len') or \
                x.op == 'call' and x.args[0] in ('np.argmin', 'np.argmax') and len(x.args) == 2:
            return x
        if x.op in ('len',):
            return x
        return mk('call', 'int', x)

    def fnarg(self, v):
        if v.op in ('lam', 'bound', 'func'):
            return self.fnterm(v)
        return self.freeze(v)

    def next_(self, d, df):
        if d.op == 'mapf':
            dom, g, v, h = d.args
            if g is TRUE:
                return ite(truthy(dom), index0(self, d), df)
            c = mk_any(dom, g if height(g) - 1 == int(h.args[0]) or True else g)
            t = self.tmp('ix')
            gg = subst(g, {mk('ix', int(h.args[0])): t})
            c = mk_any(dom, subst(gg, {t: mk('ix', height(gg))}))
            first = mk('first', dom, g, v, NONE, h)
            return first if df is NONE else ite(c, first, df)
        if d.op in ('list', 'tuple'):
            return d.args[0] if d.args else df
        if d.op in ('vcall', 'keys', 'attr', 'idx', 'sym') and df.op != 'raise':
            return ite(truthy(d), index(d, ZERO), df)
        return mk('call', 'next', d, df)

    def hasattr_(self, o, f):
        if (o, f) in self.st.heap:
            return TRUE
        ty = self.tyof(o)
        if isinstance(ty, Class):
            if self.p.lookup(ty, f) or self.p.class_attr(ty, f):
                return TRUE
        return atom(mk('hasattr', o, strc(f)))

    def len_(self, x):
        if x.op in ('list', 'tuple', 'vec', 'dict'):
            return num(len(x.args))
        if x.op == 'concat':
            r = ZERO
            for y in x.args:
                r = add(r, self.len_(y))
            return r
        if x.op == 'mapf':
            dom, g, v, h = x.args
            if g is TRUE:
                return self.len_(dom)
            t = self.tmp('ix')
            gg = subst(g, {mk('ix', int(h.args[0])): t})
            return self.mk_sum(dom, ite(gg, ONE, ZERO), t)
        if x.op in ('keys', 'values', 'items'):
            return self.len_(x.args[0])
        if x.op == 'range' and x.args[2] is ONE and x.args[0] is ZERO:
            return x.args[1]
        if x.op == 'str':
            return num(len(x.args[0]))
        return mk('len', x)

    def isinstance_(self, o, c):
        if c.op in ('tuple',):
            r = FALSE
            for x in c.args:
                r = OR(r, self.isinstance_(o, x))
            return r
        return self.map_ite(o, lambda x: self._isinst(x, c))

    def _isinst(self, x, c):
        if x is NONE:
            return FALSE
        cn = c.args[0] if c.op in ('cls', 'builtin', 'extmod') else None
        if cn is None:
            return atom(mk('isinst2', x, c))
        if c.op == 'cls':
            if x in self.exact:
                return boolc(self.p.is_sub(self.exact[x], self.p.classes[cn]))
            if x.op == 'new' and x.args[0] in self.p.classes:
                return boolc(self.p.is_sub(self.p.classes[x.args[0]], self.p.classes[cn]))
        if c.op == 'builtin':
            known = {'str': 'str', 'dict': 'dict', 'tuple': 'tuple', 'list': 'list'}
            d = self.deref(x)
            if d.op in ('str', 'dict', 'tuple', 'list', 'num'):
                return boolc(known.get(cn) == d.op or (d.op == 'num' and cn in ('int', 'float')))
        return atom(mk('isinst', x, cn))

    def sum_(self, a, node):
        d = self.deref(a[0])
        start = a[1] if len(a) > 1 else ZERO
        if d.op == 'ite':
            return self.map_ite(d, lambda x: self.sum_([x] + a[1:], node))
        if d.op in ('list', 'tuple', 'vec'):
            r = start
            for x in d.args:
                r = add(r, self.deref(x))
            return r
        if d.op == 'mapf':
            dom, g, v, h = d.args
            t = self.tmp('ix')
            m = {mk('ix', int(h.args[0])): t}
            v = subst(v, m)
            if all(x in (TRUE, FALSE) for x in leaves(v)):
                v = ite(v, ONE, ZERO)
            return add(start, self.mk_sum(dom, ite(subst(g, m), v, ZERO), t))
        if d.op == 'concat':
            r = start
            for x in d.args:
                r = add(r, self.sum_([x], node))
            return r
        if d.op == 'values' and d.args[0].op == 'dict':
            r = start
            for _, x in d.args[0].args:
                r = add(r, x)
            return r
        t = self.tmp('ix')
        dm, el, g = self.domain(d, t)
        return add(start, self.mk_sum(dm, ite(g, el, ZERO), t))

    def minmax(self, n, a, kw, node):
        key = kw.get('key')
        if len(a) == 1:
            d = self.deref(a[0])
            if d.op == 'ite':
                return self.map_ite(d, lambda x: self.minmax(n, [x], kw, node))
            els = list(d.args) if d.op in ('list', 'tuple', 'vec') else None
        else:
            d, els = None, [self.deref(x) if key is None else x for x in a]
        if els is not None and els:
            if key is None:
                r = els[0]
                for x in els[1:]:
                    r = minimum(r, x) if n == 'min' else maximum(r, x)
                return r
            r = els[0]
            kr = self.apply(key, [r], {}, node) if key.op != 'builtin' else self.builtin(key.args[0], [r], {}, node)
            for x in els[1:]:
                kx = self.apply(key, [x], {}, node)
                c = lt(kx, kr) if n == 'min' else lt(kr, kx)
                r, kr = ite(c, x, r), ite(c, kx, kr)
            return r
        if d is not None and d.op == 'mapf' and d.args[1] is TRUE and key is None:
            pass
        rest = [mk('tuple', strc(k), self.fnarg(v)) for k, v in sorted(kw.items())]
        if key is not None and len(rest) == 1 and d is not None:    # the element at the position of the extreme key
            keys = self.deref(self.builtin('map', [key, a[0]], {}, node))
            at = self.argext(n, keys)
            return self.domain(d, at)[1] if d.op == 'range' else index(d, at)
        if key is not None:
            return mk('call', n + 'by', self.freeze(d if d is not None else mk('list', *els)), *rest)
        return mk('call', n, self.freeze(d), *rest)

    def argext(self, n, keys):
        return mk('call', 'np.arg' + n, self.freeze(lift('tovec', TM.tovec, keys)))

    def ext_call(self, n, args, kw, node):
        if kw and n in SIGNATURES:
            args, kw = list(args), dict(kw)
            for p in SIGNATURES[n][len(args):]:
                if p not in kw:
                    break
                args.append(kw.pop(p))
        a = [self.deref(x) if x.op != 'lam' else x for x in args]
        s = n.split('.')[-1]
        root = n.split('.')[0]
        if n == 'np.shape' and len(a) == 1 and a[0].op not in ('vec', 'list', 'tuple'):
            return self.map_live(args[0], lambda x: self.load_attr(x, 'shape', node))
        if root == 'np':
            s = NPALIAS.get(s, s)
            n = n.rsplit('.', 1)[0] + '.' + s
            if s in ('deg2rad', 'rad2deg') and len(a) == 1 and not kw:
                k = div(sym('pi'), num(180))
                return mul(self.freeze_shallow(lift('tovec', TM.tovec, a[0])), k if s == 'deg2rad' else div(ONE, k))
            if s in ('concatenate', 'stack', 'vstack', 'hstack', 'reshape', 'tile', 'zeros', 'ones', 'full', 'fromfunction',
                     'column_stack', 'ravel_multi_index', 'transpose'):
                a = [self.map_ite(x, lambda y: mk('tuple', *y.args) if y.op == 'list' else y) for x in a]
        if root in ('np', 'math'):
            r = self.numpy(n, s, a, kw, node)
            if r is not None:
                return r
        if n in ('os.environ.get', 'os.getenv') and len(a) == 2 and a[1] is NONE and not kw:
            a = a[:1]
        if n == 'itertools.islice' and len(a) == 4 and not kw and a[1] is ZERO:
            a[1] = NONE
        if n == 'copy.deepcopy':
            memo = [self.freeze(x) for x in a[1:]] + [self.freeze(self.deref(v)) for _, v in sorted(kw.items())]
            return self.distinct(lift('deepcopy', lambda x: mk('call', 'deepcopy', x, *memo), self.freeze(a[0])),
                                 self.again)
        if n == 'copy.copy':
            return self.newobj(a[0]) if a[0].op in ('list', 'dict') else \
                self.distinct(lift('copy', copied, self.freeze(a[0])), self.again)
        if n == 'functools.partial':
            return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        if n == 'functools.reduce':
            return call('reduce', *[self.fnarg(x) for x in a])
        if n == 'itertools.product':
            return mk('call', 'itertools.product', *[self.freeze(x) for x in a],
                      *[mk('tuple', strc(k), self.freeze(self.deref(v))) for k, v in sorted(kw.items())])
        if n in ('operator.attrgetter', 'operator.itemgetter'):
            return call(n, *a)
        fr = [self.fnarg(x) if x.op in ('lam', 'bound', 'func') else self.freeze(x) for x in a] + \
             [mk('tuple', strc(k), self.freeze(self.deref(v)) if v.op not in ('lam', 'bound', 'func') else self.fnarg(v))
              for k, v in sorted(kw.items())]
        self.event('ext', (n, args, kw), node)
        val = call(n, *fr)
        if n in ('np.put', 'np.copyto', 'np.place', 'np.putmask', 'np.put_along_axis', 'np.fill_diagonal') and args:
            self.map_live(args[0], lambda x: (self.store_key((x, '[]'), val), NONE)[1])     # changed in place
            return NONE
        if not any((n + '.').startswith(p) or n.startswith(p) for p in PURE_EXT):
            self.effect(mk('eff', val))
        elif n.startswith('np.random'):
            self.bump('@rng', mk('ver', '@rng', mk('eff', val)))
        return val

    def numpy(self, n, s, a, kw, node):
        kwv = lambda k, d=None: self.deref(kw[k]) if k in kw else d
        vec = lambda x: lift('tovec', TM.tovec, self.freeze_shallow(x))
        if s in ('array', 'asarray', 'asfarray', 'ascontiguousarray') and a:
            dt = kwv('dtype') or (a[1] if len(a) > 1 else None)
            v = vec(a[0])
            self.event('dtype', (v, dt), node)
            return v
        if s in ('cos', 'sin', 'tan', 'arctan', 'arcsin', 'arccos', 'exp', 'log', 'sqrt', 'sign', 'cosh', 'sinh', 'tanh',
                 'atan', 'asin', 'acos') and len(a) == 1:
            s = {'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos'}.get(s, s)
            self.event('fn', (s, a[0]), node)
            return call1(s, vec(a[0]))
        if s in ('arctan2', 'atan2'):
            return call('arctan2', a[0], a[1])
        if s in ('abs', 'absolute', 'fabs'):
            return absolute(vec(a[0]))
        if s == 'flip' and len(a) + len(kw) <= 2:
            x, ax = vec(a[0]), a[1] if len(a) > 1 else kwv('axis') or NONE
            if x.op == 'vec' and not any(y.op in ('vec', 'ite') for y in x.args) and (ax is ZERO or ax is NONE):
                return mk('vec', *reversed(x.args))
        if s == 'square':
            return power(vec(a[0]), num(2))
        if s in ('power', 'pow'):
            return power(vec(a[0]), a[1])
        if s == 'clip' and len(a) + len(kw) == 3:
            lo = a[1] if len(a) > 1 else kwv('a_min')
            hi = a[2] if len(a) > 2 else kwv('a_max')
            x = vec(a[0])
            self.event('clip', (x, lo, hi), node)
            if lo is not NONE:
                x = maximum(x, vec(lo))
            if hi is not NONE:
                x = minimum(x, vec(hi))
            return x
        if s in ('minimum', 'fmin') and len(a) == 2:
            return minimum(vec(a[0]), vec(a[1]))
        if s in ('maximum', 'fmax') and len(a) == 2:
            return maximum(vec(a[0]), vec(a[1]))
        if s == 'norm' and len(a) == 1 and not kw:
            v = vec(a[0])
            return lift('norm', lambda x: call1('sqrt', self._matmul(x, x)) if x.op == 'vec' else
                        mk('call', 'norm', x), v)
        if s == 'hypot':
            return call1('sqrt', add(power(a[0], num(2)), power(a[1], num(2))))
        if s in ('dot', 'matmul', 'inner') and len(a) == 2:
            return self.matmul(a[0], a[1])
        if s == 'sum' and len(a) == 1 and not kw:
            return self.sum_([a[0]], node)
        if s in ('max', 'amax', 'min', 'amin') and len(a) == 1 and not kw:
            return self.minmax('max' if 'max' in s else 'min', [a[0]], {}, node)
        if s in ('any', 'all') and len(a) == 1 and not kw:
            return self.anyall(s, a[0])
        if s == 'isnan' and len(a) == 1:
            return lift('isnan', lambda x: TRUE if x is sym('nan') else FALSE if x.op == 'num' else
                        atom(mk('truthy', mk('call', 'isnan', x))), a[0])
        if s == 'zeros' and a and not kw or s == 'zeros' and a and set(kw) <= {'dtype'}:
            z = self.zeros(self.freeze(a[0]), ZERO)
            if z is not None:
                return z
        if s == 'ones' and a and set(kw) <= {'dtype'}:
            z = self.zeros(self.freeze(a[0]), ONE)
            if z is not None:
                return z
        if s == 'diag' and len(a) == 1 and not kw:
            v = self.freeze(a[0])
            if v.op in ('list', 'vec', 'tuple') and 0 < len(v.args) <= 4 and not any(x.op in ('list', 'vec', 'tuple') for x in v.args):
                return mk('vec', *[mk('vec', *[x if i == j else ZERO for j in range(len(v.args))])
                                   for i, x in enumerate(v.args)])
        if s in ('eye', 'identity') and len(a) == 1 and set(kw) <= {'dtype'} and a[0].op == 'num' and 0 < a[0].args[0] <= 4:
            n_ = int(a[0].args[0])
            return mk('vec', *[mk('vec', *[ONE if i == j else ZERO for j in range(n_)]) for i in range(n_)])
        if s in ('round', 'rint', 'around') and len(a) == 1:
            return call1('round', a[0])
        if s in ('floor', 'ceil') and len(a) == 1:
            return call1(s, a[0])
        if s in ('int', 'int64', 'int32', 'int_', 'int8') and len(a) == 1:
            return lift('int', self.int_, a[0])
        if s in ('float', 'float64', 'float_', 'float32') and len(a) == 1:
            return a[0]
        if s in ('bool', 'bool_') and len(a) == 1:
            return truthy(a[0])
        if s == 'multiply' and len(a) == 2:
            return mul(vec(a[0]), vec(a[1]))
        if s == 'add' and len(a) == 2:
            return add(vec(a[0]), vec(a[1]))
        if s == 'subtract' and len(a) == 2:
            return sub(vec(a[0]), vec(a[1]))
        if s in ('divide', 'true_divide') and len(a) == 2:
            self.event('div', (a[0], a[1]), node)
            return div(vec(a[0]), vec(a[1]))
        if s == 'negative' and len(a) == 1:
            return lift('negx', TM._negx, vec(a[0]))
        if s in ('logical_and', 'logical_or') and len(a) == 2:
            return AND(truthy(a[0]), truthy(a[1])) if s == 'logical_and' else OR(truthy(a[0]), truthy(a[1]))
        if s == 'logical_not':
            return NOT(truthy(a[0]))
        if s == 'where' and len(a) == 3 and a[0].op in ('ite', 'bool'):
            return ite(truthy(a[0]), a[1], a[2])
        if s == 'transpose' and len(a) == 1:
            v = vec(a[0])
            if self.transpose(v) is not None:
                return self.transpose(v)
            if v.op == 'vec' and all(x.op == 'vec' for x in v.args) and len({len(x.args) for x in v.args}) == 1:
                return mk('vec', *[mk('vec', *z) for z in zip(*[x.args for x in v.args])])
            if v.op == 'vec' and any(x.op not in ('vec', 'num', 'poly') for x in v.args):
                return mk('call', 'transpose', self.freeze(v))
        if s in ('squeeze', 'ravel') and len(a) == 1 and not kw:
            v = vec(a[0])
            if v.op == 'vec' and len(v.args) > 1 and not any(x.op == 'vec' for x in v.args):
                return v
        if s == 'cross' and len(a) == 2:
            x, y = vec(a[0]), vec(a[1])
            if x.op == 'vec' and y.op == 'vec' and len(x.args) == len(y.args) == 2:
                return sub(mul(x.args[0], y.args[1]), mul(x.args[1], y.args[0]))
        if s == 'outer' and len(a) == 2:
            x, y = vec(a[0]), vec(a[1])
            if x.op == 'vec' and y.op == 'vec':
                return mk('vec', *[mk('vec', *[mul(p, q) for q in y.args]) for p in x.args])
        return None

    def again(self, x, n):
        return mk('call', x.args[0], x.args[1], n) if x.op == 'call' and self.is_object(x.args[1]) else x

    def freeze_shallow(self, x):
        return self.freeze(x) if contains_op(x, ('obj',)) else x

    def zeros(self, shape, z):
        if shape.op == 'num' and shape.args[0].denominator == 1 and 0 < shape.args[0] <= 4:
            return mk('vec', *([z] * int(shape.args[0])))
        if shape.op in ('tuple', 'list', 'vec') and len(shape.args) == 1:
            return self.zeros(shape.args[0], z)
        if shape.op in ('tuple', 'list', 'vec') and len(shape.args) == 2:
            r, c = shape.args
            if r.op == 'num' and c.op == 'num' and r.args[0] * c.args[0] <= 16:
                return mk('vec', *[mk('vec', *([z] * int(c.args[0]))) for _ in range(int(r.args[0]))])
        return None


def positions(k, n):
    """the positions a constant index or slice selects among n"""
    def c(x):
        if x is NONE:
            return None
        if x.op == 'num' and x.args[0].denominator == 1:
            return int(x.args[0])
        raise ValueError
    try:
        if k.op == 'slice':
            return list(range(n))[slice(*[c(x) for x in k.args])]
        i = c(k) if k.op == 'num' else None
        return [i % n] if i is not None and -n <= i < n else None
    except ValueError:
        return None


VEC2RET = {'position'}


def lifted_subst(t, m):
    """substitution that keeps choices outermost"""
    m = {k: v for k, v in m.items() if k in free_tmps(t)}
    at = None
    for v in m.values():
        if v.op == 'ite' and (at is None or v.args[0].dig < at.dig):
            at = v.args[0]
    if at is None:
        return subst(t, m)
    c = [{k: TM.cof(v, at)[i] for k, v in m.items()} for i in (0, 1)]
    return ite(mk('ite', at, TRUE, FALSE), lifted_subst(t, c[0]), lifted_subst(t, c[1]))


def defined(c):
    """the content of a container where it exists"""
    if c.op != 'ite':
        return c
    x, y = defined(c.args[1]), defined(c.args[2])
    if x is UNDEF:
        return y
    return x if y is UNDEF or x is y else mk('ite', c.args[0], x, y)


def copied(x):
    if x.op in ('num', 'str', 'none', 'tuple', 'poly', 'bool'):
        return x
    return ite(isnone(x), NONE, mk('call', 'copy', x)) if x.op in ('sym', 'attr', 'idx') else mk('call', 'copy', x)


def shorter(n):
    """the two sequences of min(len(x), len(y))"""
    if n.op != 'poly':
        return None
    q = P(n)
    ls = [m[0][0] for m, k in q.items() if k == 1 and len(m) == 1 and m[0][1] == 1]
    a = [t for t in ls if t.op == 'len']
    b = [t for t in ls if t.op == 'min0']
    if len(q) == 2 and len(a) == 1 and len(b) == 1:
        o = add(a[0], b[0].args[0])
        if o.op == 'len':
            return [a[0].args[0], o.args[0]]
    return None



def index0(it, d):
    return subst(d.args[2], {mk('ix', int(d.args[3].args[0])): ZERO})


def call_slice(a, b, c):
    return lift('slice', lambda x, y, z: mk('slice', x, y, z), a, b, c)


def subst_leaf(t, old, new):
    if t is old:
        return new
    if t.op != 'ite':
        return t
    if old not in leaves(t):
        return t
    c = mk('ite', t.args[0], TRUE, FALSE)
    return ite(c, subst_leaf(t.args[1], old, new), subst_leaf(t.args[2], old, new))


def _div(x, y):
    return TM._div(x, y)


BUILTINS = {'isinstance', 'len', 'abs', 'min', 'max', 'sum', 'any', 'all', 'range', 'enumerate', 'zip', 'reversed', 'list',
            'tuple', 'dict', 'set', 'map', 'filter', 'float', 'int', 'bool', 'round', 'getattr', 'hasattr', 'setattr',
            'type', 'sorted', 'next', 'iter', 'print', 'callable', 'slice', 'pow', 'divmod', 'str', 'repr', 'id', 'hash',
            'super', 'object', 'property', 'ord', 'chr', 'frozenset', 'ValueError', 'KeyError', 'TypeError',
            'NotImplementedError', 'StopIteration', 'Exception', 'AttributeError', 'IndexError', 'vars', 'issubclass',
            'complex', 'bytes', 'open', 'ZeroDivisionError', 'RuntimeError'}
