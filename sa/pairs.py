"""Comparison of each implementation function with its reference definition by value numbering.

A reference module (spec/*.py) holds classes named like those of the package; each method of such a class is the
reference of the method of the same name, evaluated by the same value-numbering engine on the implementation's class
(so `self`, `super()` and imported names resolve to the implementation).  `name__alt1`, ... are further accepted
definitions.  Module-level functions listed in the module's PUBLIC tuple are references of package functions; other
module-level functions are helpers of the references."""
import ast
import json
import os
import time
from .front import Program, Module, Func, Class, AnchorMissing, shapes_once
from .gvn import Interp, Unsupported, RNG
from .types import Types
from .equiv import Equiv, Diff
from .terms import *
from . import terms as TM

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = json.load(open(os.path.join(HERE, 'baseline.json')))
PARAMS = BASE['params']
for _q, _n in (('vector_interval_section', 1), ('interval_absolute_to_local', 1), ('interval_local_to_absolute', 2),
               ('intervals_diff', 2)):
    PARAMS['interval:' + _q][:_n] = ['pair'] * _n         # [lower, upper]
DRAWING = ('EnvViewer', 'WorldSurface', 'LaneGraphics', 'RoadGraphics', 'VehicleGraphics', 'RoadObjectGraphics')
FIELDS, CONSTS = set(BASE['fields']), set(BASE['consts'])
CONSTS -= {'NONE', 'STRIPED', 'CONTINUOUS', 'CONTINUOUS_LINE'}      # told apart: the values are compared on their own


OPAQUE_UTILS = ('has_corner_inside', 'rotated_rectangles_intersect', 'is_consistent_dataset', 'is_valid_observation',
                'confidence_ellipsoid', 'confidence_polytope', 'class_from_path')


class Specs(object):
    def __init__(self, prog):
        self.p = prog
        self.byclass = {}     # class name -> {method: [Func,...]}
        self.funcs = {}       # 'module:func' -> [Func]
        self.setters = {}
        self.pre = {}
        self.consts = {}      # class name -> {constant: (module, expression)}
        d = os.path.join(os.path.dirname(HERE), 'spec')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                self.load(f, open(os.path.join(d, f)).read())

    def load(self, name, text):
        tree = shapes_once(ast.parse(text, name))
        m = Module('spec.' + name[:-3], 'spec/' + name, tree)
        m.text = text
        self.p._scan(m, tree.body, False)
        classes, m.classes = m.classes, {}
        for cn, c in classes.items():
            for k, e in c.attrs.items():
                self.consts.setdefault(cn, {})[k] = (m, e)
        for cn, c in classes.items():
            impl = self.p.classes.get(cn)
            for tbl, out in ((c.methods, self.byclass), (c.setters, self.setters)):
                for fn, f in tbl.items():
                    f.cls = impl
                    base = fn.split('__alt')[0]
                    if fn.endswith('__pre'):        # the arguments the reference is stated for
                        self.pre[cn, fn[:-5]] = f
                        f.cls, f.name = impl, fn[:-5]
                        continue
                    f.name = base
                    f.spec_of = cn
                    out.setdefault(cn, {}).setdefault(base, []).append(f)
        pub = m.consts.get('PUBLIC')
        for e in (pub.elts if pub is not None else []):
            q = e.value
            fn = q.split(':')[1]
            alts = [fn] + sorted(k for k in m.funcs if k.startswith(fn + '__alt'))
            self.funcs[q] = [m.funcs[a] for a in alts]
            if fn + '__pre' in m.funcs:
                self.pre[None, fn] = m.funcs[fn + '__pre']
        # elsewhere in the reference module such a name means the implementation's function
        for q in self.funcs:
            if self.funcs[q][0].module is m:
                fn = q.split(':')[1]
                m.funcs.pop(fn, None)
                mods = [x.name for x in self.p.modules.values() if x.name.split('.')[-1] == q.split(':')[0]]
                m.imports.setdefault(fn, ('from', mods[0] if mods else '?', fn))


def is_const(t):
    if t.op in ('num', 'str', 'bool', 'none', 'true', 'false'):
        return True
    if t.op in ('vec', 'list', 'tuple'):
        return all(is_const(x) for x in t.args)
    if t.op == 'dict':
        return all(is_const(a) and is_const(b) for a, b in t.args)
    return False


HOOKS = ('_reset', '_reward', '_cost', '_is_terminal')


def private(name):
    return name.startswith('_') and not name.startswith('__') and name not in HOOKS


class Result(object):
    def __init__(self, name, status, detail='', where='', stats=None):
        self.name, self.status, self.detail, self.where, self.stats = name, status, detail, where, stats or {}


def defaults(fn):
    a = fn.node.args
    names = [x.arg for x in a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return names, d


class Pairs(object):
    def __init__(self, prog, budget=None):
        self.p = prog
        self.types = Types(prog, *[{k: v for k, v in BASE[n].items()} for n in ('types', 'rets', 'bools')])
        self.specs = Specs(prog)
        self.cache = {}
        self.nodes = 0
        self.inlined = set()
        self.budget = budget
        self._iface = None
        self.excused = set()

    # ------------------------------------------------------------ what to run
    def spec_for(self, cls, name, setter=False):
        tbl = self.specs.setters if setter else self.specs.byclass
        for k in self.p.mro(cls):
            if name in tbl.get(k.name, {}):
                return k, tbl[k.name][name]
        return None, None

    def jobs(self, qual):
        """'Class.method' -> (class, implementation, references) for the class and every descendant that differs"""
        if ':' in qual:
            return [(None, self.p.method(qual), self.specs.funcs[qual])]
        setter = qual.endswith('=')
        cn, fn = qual.rstrip('=').split('.')
        c0 = self.p.cls(cn)
        out, seen = [], set()
        for c in self.p.descendants(c0):
            _, sp = self.spec_for(c, fn, setter)
            im = self.p.lookup_setter(c, fn) if setter else self.p.lookup(c, fn)
            if im is None:
                if c is c0:
                    raise AnchorMissing('method %s' % qual)
                continue
            k = (id(im), id(sp))
            if k in seen:
                continue
            seen.add(k)
            if im.cls is not c0 and c is not c0 and im.qual + ('=' if setter else '') in PARAMS:
                # an override of the pinned tree: compared where a property lists it by its own name
                if im.name not in (self.specs.setters if setter else self.specs.byclass).get(im.cls.name, {}):
                    self.excused.add(im.qual)
                continue
            out.append((c, im, sp))
        return out

    def interface(self):
        """functions compared on their own: calls to them stay calls (arguments normalised, effects by field)"""
        if self._iface is None:
            s = set()
            for cn, tbl in self.specs.byclass.items():
                c = self.p.classes.get(cn)
                for fn in tbl:
                    m = c.methods.get(fn) if c else None
                    if m is not None and fn != '__init__' and not m.is_property:
                        s.add(m.qual)
            for cn in DRAWING:
                c = self.p.classes.get(cn)
                for fn in c.methods if c else ():
                    if '%s.%s' % (cn, fn) in PARAMS and fn != '__init__':
                        s.add('%s.%s' % (cn, fn))
            for q in self.specs.funcs:
                if not q.startswith('utils:') or q.split(':')[1] in OPAQUE_UTILS:
                    s.add(q.split(':')[1])
            self._iface = s
        return self._iface

    def ptypes(self, fn):
        q = fn.qual if fn.cls else fn.module.name.split('.')[-1] + ':' + fn.name
        return PARAMS.get(q + ('=' if fn.is_setter else ''))

    def analyse(self, fn, cls, modular, pt=None, swap=frozenset(), reference=False, given={}):
        closed = self.interface() if modular else ()
        if modular == 'private':
            closed = {q for q in closed if not private(q.split('.')[-1])}
        it = Interp(self.p, self.types.fresh(), CONSTS, no_inline=closed,
                    unroll=modular != 'loops')
        it.swap, it.given = swap, given
        if modular == 'private' and reference:
            it.instead = self.private_refs()
        s = it.run(fn, cls, ptypes=pt)
        self.twice = it.twice
        self.nodes += it.nodes
        self.inlined |= {f if isinstance(f, str) else getattr(f, 'qual', str(f)) for f in it.inlined}
        return s

    def outputs(self, s, init=False):
        it = s.it
        o = {'return value': s.ret, 'effects': it.freeze(s.trace), 'exceptions': s.raised}
        heap = {}
        for k, v in s.heap.items():
            if k[0].op == 'obj':
                continue
            f = k[1]
            if isinstance(f, str) and f != '[]' and f not in FIELDS:
                continue
            if k[0].op == 'vcall' and k[0].args[0] in RNG and self.own_draw(k[0], s):
                continue
            if init and s.raised is not FALSE:      # a constructor that raises publishes no object
                v = ite(s.raised, mk('RAISE'), v)
            heap[(it.freeze(k[0]), f if isinstance(f, str) else it.freeze(f))] = (k, it.freeze_out(v))
        return o, heap

    @staticmethod
    def own_draw(x, s):
        """an array drawn here that only its elements leave"""
        st, seen = [s.ret, s.trace] + [v for k, v in s.heap.items() if k[0] is not x], set()
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t is x:
                return False
            if t.op == 'idx' and t.args[0] is x or t.op == 'ver':
                st += [a for a in t.args[1:] if isinstance(a, T) and t.op == 'idx']
                continue
            if t.op == 'call' and t.args[0] == 'put' and t.args[1] is x:
                st += [a for a in t.args[2:] if isinstance(a, T)]
                continue
            for a in t.args:
                TM._collect(a, st)
        return True

    def compare(self, name, cls, impl, spec):
        """calls between compared functions kept as calls, then (if that differs) everything inlined"""
        twice = {}
        r = self.compare1(name, cls, impl, spec, True)
        twice[True] = self.twice_in
        if r.status == 'undecided' and r.detail.startswith('TooBig'):     # loops over literal lists kept as loops
            r = self.compare1(name, cls, impl, spec, 'loops')
        if r.status != 'ok':
            q = self.compare1(name, cls, impl, spec, False)
            twice[False] = self.twice_in
            if q.status == 'ok':
                return q
            if r.status == 'undecided' and q.status == 'diff':
                r = q
            if any(private(x.split('.')[-1]) for x in self.interface() & self.called(impl)):
                z = self.compare1(name, cls, impl, spec, 'private')     # work moved between helpers
                if z.status == 'ok':
                    return z
            opt = self.optional(impl)
            if 0 < len(opt) <= 2 and opt == self.optional(spec) and (r.detail.startswith('TooBig') or q.detail.startswith('TooBig')):
                cases = [{}]            # an object passed or left out: one case after the other
                for i in opt:
                    cases = [dict(c, **{i: g}) for c in cases for g in (False, True)]
                if all(self.case(name, cls, impl, spec, {int(i): g for i, g in c.items()}) for c in cases):
                    return Result(name, 'ok', '', impl.where, r.stats)
            for m in (True, False):     # like objects made in another order
                tw = sorted((x for x in twice.get(m, ()) if x is not NONE), key=lambda x: x.dig)
                if not tw or len(tw) > 3 or m is False and q.status == 'undecided':
                    continue
                for k in range(1, 2 ** len(tw)):
                    z = self.compare1(name, cls, impl, spec, m, frozenset(x for i, x in enumerate(tw) if k >> i & 1))
                    if z.status == 'ok':
                        return z
        return r

    def case(self, name, cls, impl, spec, given):
        pre = self.specs.pre.get((getattr(spec, 'spec_of', None), impl.name))
        try:
            if pre is not None:         # the reference is stated for this case only
                c = truthy(self.analyse(pre, cls, True, self.ptypes(impl), given=given).ret)
                if c.op == 'ite' and c.args[1] is TRUE and c.args[2] is FALSE:
                    TM.assume({c.args[0]: TRUE})
            return any(self.compare1(name, cls, impl, spec, m, given=given).status == 'ok' for m in (True, 'loops'))
        finally:
            TM.assume({})

    def optional(self, fn):
        """positions of the parameters that are an object of a known class or, by default, None"""
        pt = self.ptypes(fn) or ()
        names = [x.arg for x in fn.node.args.args]
        if fn.cls is not None and not fn.is_static:
            names = names[1:]
        ds = dict(zip(names[::-1], fn.node.args.defaults[::-1]))
        return [str(i) for i, n in enumerate(names) if i < len(pt) and isinstance(pt[i], str) and pt[i].startswith('C:') and
                isinstance(ds.get(n), ast.Constant) and ds[n].value is None]

    def private_refs(self):
        return {'%s.%s' % (cn, fn): l[0] for cn, tbl in self.specs.byclass.items() for fn, l in tbl.items()
                if private(fn)}

    def called(self, fn):
        names = {n.attr for n in ast.walk(fn.node) if isinstance(n, ast.Attribute)}
        return {m.qual for c in self.p.classes.values() for m in c.methods.values() if m.name in names}

    def through_callers(self, impl):
        """a private helper does other work than before, but in every class that has it, everything that calls it still
        does the same"""
        n = impl.name
        if impl.cls is None:
            return False
        fns = [f for c in self.p.classes.values() for f in c.methods.values()] + \
              [f for m in self.p.modules.values() for f in m.funcs.values()]
        for f in fns:       # called on the object itself only
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and x.attr == n and \
                        not (isinstance(x.value, ast.Name) and x.value.id in ('self', 'cls')):
                    return False
        classes = [c for c in self.p.descendants(impl.cls) if self.p.lookup(c, n) is impl]
        for c in classes:
            callers = {}
            for k in self.p.mro(c):
                for f in k.methods.values():
                    if f is not impl and self.p.lookup(c, f.name) is f and \
                            any(isinstance(x, ast.Attribute) and x.attr == n for x in ast.walk(f.node)):
                        callers[f.qual] = f
            if not callers:
                return False
            for f in callers.values():
                _, sp = self.spec_for(c, f.name)
                if sp is None or not any(self.compare1(f.qual, c, f, x, 'private').status == 'ok' for x in sp):
                    return False
        return True

    def compare1(self, name, cls, impl, spec, modular, swap=frozenset(), given={}):
        t0 = time.time()
        TM.deadline[0] = t0 + (self.budget or 40) * (1 if modular else 0.4)
        try:
            pt = self.ptypes(impl)
            self.twice_in = frozenset()
            a = self.analyse(impl, cls, modular, pt, swap, given=given)
            self.twice_in = frozenset(self.twice)
            b = self.analyse(spec, cls, modular, pt, reference=True, given=given)
            oa, ha = self.outputs(a, impl.name == '__init__')
            ob, hb = self.outputs(b, impl.name == '__init__')
            eq = Equiv(self.p)
            pre = self.specs.pre.get((getattr(spec, 'spec_of', None), impl.name))
            if pre is not None:
                c = truthy(self.analyse(pre, cls, modular, pt, given=given).ret)
                oa, ob = [{k: ite(c, v, UNDEF) for k, v in o.items()} for o in (oa, ob)]
                ha, hb = [{k: (v[0], ite(c, v[1], UNDEF)) for k, v in h.items()} for h in (ha, hb)]
            bad = []
            n = 0
            for k in oa:
                n += 1
                d = eq.same(oa[k], ob[k])
                if d is not None:
                    bad.append((k, d))
            for k in sorted(set(ha) | set(hb), key=lambda k: (show(k[0]), k[1] if isinstance(k[1], str) else show(k[1]))):
                n += 1
                x = ha[k][1] if k in ha else a.it.freeze(a.it.default(hb[k][0], a.st))
                y = hb[k][1] if k in hb else b.it.freeze(b.it.default(ha[k][0], b.st))
                d = eq.same(x, y)
                if d is not None:
                    nm = '%s%s' % (show(k[0]), '[...]' if k[1] == '[]' else '.' + k[1] if isinstance(k[1], str)
                                   else '[%s]' % show(k[1]))
                    bad.append((nm, d))
        except (TooBig, Unsupported, RecursionError) as e:
            return Result(name, 'undecided', '%s: %s' % (type(e).__name__, e), impl.where)
        except AnchorMissing as e:
            return Result(name, 'undecided', 'name not found: %s' % e, impl.where)
        except Exception as e:      # a construct the engine does not model: no verdict
            if os.environ.get('VERIF_DEBUG'):
                raise
            return Result(name, 'undecided', 'internal %s: %s' % (type(e).__name__, e), impl.where)
        st = dict(outputs=n, seconds=round(time.time() - t0, 3))
        dd = self.sig_diff(impl, spec)
        if dd:
            return Result(name, 'diff', dd, impl.where, st)
        real = [(k, d) for k, d in bad if not d.has_unknown()]
        if not bad:
            return Result(name, 'ok', '', impl.where, st)
        if real:
            k, d = real[0]
            return Result(name, 'diff', '%s differs: %s' % (k, d), impl.where, st)
        return Result(name, 'undecided', 'unmodelled construct in %s: %s' % (bad[0][0], bad[0][1]), impl.where, st)

    def sig_diff(self, impl, spec):
        na, da = defaults(impl)
        nb, db = defaults(spec)
        for i, n in enumerate(nb):
            if n in db:
                m = n if n in na else na[i] if i < len(na) else None
                if m is None:
                    return 'parameter %s is missing' % n
                if m not in da:
                    return 'parameter %s lost its default value' % n
                it = Interp(self.p, self.types.fresh(), ())
                try:
                    x = it.const_expr(impl.module, da[m])
                    y = it.const_expr(spec.module, db[n])
                except Exception:
                    continue
                if x is not y and 'unknown' not in (x.op, y.op):
                    return 'default of parameter %s is %s instead of %s' % (n, show(x), show(y))
        return None

    def constants(self, cn):
        """the parameters of a class, for it and every descendant that is not given another value"""
        out = []
        try:
            c0 = self.p.cls(cn)
        except AnchorMissing as e:
            return [Result(cn, 'missing', str(e))]
        for k, (m, e) in sorted(self.specs.consts.get(cn, {}).items()):
            want = Interp(self.p, self.types.fresh(), ()).const_expr(m, e)
            for c in self.p.descendants(c0):
                owner = [d.name for d in self.p.mro(c) if k in self.specs.consts.get(d.name, {})]
                if owner and owner[0] != cn:
                    continue
                nm = '%s.%s' % (c.name, k)
                ca = self.p.class_attr(c, k)
                if ca is None:
                    out.append(Result(nm, 'undecided', 'not a class constant any more'))
                    continue
                where = '%s:%d %s' % (ca[0].module.rel, getattr(ca[1], 'lineno', 0), ca[0].name)
                try:
                    got = Interp(self.p, self.types.fresh(), ()).class_const(ca[0], k, ca[1])
                except Exception as ex:
                    out.append(Result(nm, 'undecided', '%s: %s' % (type(ex).__name__, ex), where))
                    continue
                if got is want:
                    out.append(Result(nm, 'ok', '', where, dict(outputs=1)))
                elif not is_const(got):
                    out.append(Result(nm, 'undecided', 'value %s' % show(got)[:200], where))
                else:
                    out.append(Result(nm, 'diff', 'is %s instead of the documented %s' % (show(got), show(want)), where))
        return out

    def check(self, qual):
        """list of Results"""
        if qual.endswith('::'):
            return self.constants(qual[:-2])
        if qual in self.cache:
            return self.cache[qual]
        out = []
        try:
            jobs = self.jobs(qual)
        except AnchorMissing as e:
            out = [Result(qual, 'missing', str(e))]
            jobs = []
        for c, im, sp in jobs:
            nm = qual if c is None else '%s.%s' % (c.name, im.name)
            if sp is None:
                out.append(Result(nm, 'undecided', 'no reference definition', im.where))
                continue
            key = (id(im), id(sp))
            if key in self.cache:
                out.append(self.cache[key])
                continue
            best = None
            for s in sp:
                r = self.compare(nm, c, im, s)
                if r.status == 'ok':
                    best = r
                    break
                if best is None or best.status == 'diff' and r.status == 'undecided':
                    best = r
            if best.status == 'diff' and private(im.name) and self.through_callers(im):
                best = Result(best.name, 'ok', 'through its callers', best.where, best.stats)
            self.cache[key] = best
            out.append(best)
        self.cache[qual] = out
        return out
