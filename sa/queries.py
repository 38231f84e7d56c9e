"""Query rules over the ownership and effect analysis and over the syntax trees."""
import ast
from . import own
from .pairs import PARAMS
from .front import Class, Func, AnchorMissing
from .own import base, show

RENDER = ('graphics.py',)


def where(e):
    return '%s:%d %s' % (e.where[0], e.where[1], e.where[2])


class Facts(object):
    """points-to runs shared by the rules of one check"""

    def __init__(self, prog, types):
        self.p, self.types = prog, types
        self._p1 = None

    @property
    def p1(self):
        if self._p1 is None:
            self._p1 = own.phase1(self.p, self.types)
        return self._p1

    def env_classes(self):
        return [c for c in self.p.descendants(self.p.cls('AbstractEnv'))]

    def histories(self):
        """every environment: construction, seeding, reset, steps, exports and planning copies, over the whole call graph"""
        an = own.Analysis(self.p, self.types, use_loops=False)
        es = []
        
        for c in self.env_classes():
            code = '''
env = C()
env.seed(0)
for i in range(9):
    env.reset()
    for j in range(9):
        obs, reward, done, info = env.step(ACT)
        env.get_available_actions()
        env.close_vehicles = None
    copies = [env.simplify(), env.change_vehicles('x'), env.set_preferred_lane(0), env.set_route_at_intersection('x'),
              env.set_vehicle_field(('x', 0)), env.call_vehicle_method(('x', ())), env.randomize_behaviour()]
    env.to_finite_mdp()
    for v in env.road.vehicles:
        v.predict_trajectory([], 1, 1, 1)
        v.predict_trajectory_constant_speed([])
    env.__deepcopy__({})
    env.render()
    env.close()
'''
            code = code.replace('        env.close_vehicles = None\n', '')
            env = {'C': frozenset([('CLS', c.name)]), 'ACT': frozenset([('V', 'action')])}
            es.append((lambda an, c=c, code=code, env=env: an.drive(c.module, code, env), None))
        return an.run(es)


def parents(tree):
    m = {}
    for x in ast.walk(tree):
        for y in ast.iter_child_nodes(x):
            m[y] = x
    return m


def rendering(e):
    return e.where[0].endswith(RENDER) or e.where[2].split('.')[-1] in ('__str__', '__repr__')


def rng_rule(run):
    """C01: every draw of the scene, the simulation, the observation and the reward comes from the environment's generator"""
    f = run.facts()
    an = f.histories()
    run.extra['points_to'] = dict(contexts=an.ncalls, events=len(an.events), passes=an.passes,
                                  unresolved_calls=len(an.unresolved))
    rule = 'randomness comes from the generator made by the environment\'s seed()'
    draws = 0
    for e in an.events.values():
        if rendering(e) and e.kind != 'draw':
            continue
        if e.kind == 'draw':
            draws += 1
            other = [o for o in e.recv if base(o) != ('RNG', 'env')]
            if other:
                run.bad('%s draws %s' % (e.where[2], e.field), rule, where(e),
                        'draws from %s, reached by %s' % (', '.join(sorted(set(map(origin, other)))), an.path(e.ctx)))
            else:
                run.ok('draw %s at %s' % (e.field, where(e)))
        elif e.kind == 'clock':
            if e.field.startswith(('os.environ', 'os.getenv')) and 'default_config' in an.path(e.ctx, 40):
                run.ok('environment variable read for the configuration at %s' % where(e))
                continue
            run.bad('%s reads %s' % (e.where[2], e.field), 'no clock, process or system state is read', where(e),
                    'reads %s, reached by %s' % (e.field, an.path(e.ctx)))
        elif e.kind == 'identity':
            use = identity_use(run, e)
            if use:
                run.bad('%s uses %s()' % (e.where[2], e.field), 'object identities and hashes do not influence the run',
                        where(e), '%s() of an object is %s' % (e.field, use))
        elif e.kind == 'order':
            if order_matters(run, e):
                run.bad('%s iterates over a set' % e.where[2], 'no result depends on the iteration order of a set', where(e),
                        'iteration (%s) over a set, reached by %s' % (e.field, an.path(e.ctx)))
        elif e.kind == 'reseed':
            if e.where[2].split('.')[-1] != 'seed':
                run.bad('%s reseeds' % e.where[2], rule, where(e), 'a generator is reseeded during a run')
        elif e.kind == 'store' and any(base(o) == ('RNG', 'env') for o in e.val):
            envs = [o for o in e.recv if an.cls_of(o) is not None and run.p.is_sub(an.cls_of(o), run.p.cls('AbstractEnv'))]
            rest = [o for o in e.recv if o not in envs]
            pth = an.path(e.ctx, 40).split(' <- ')
            fresh = any(x.split('.')[-1] in ('reset', '_reset', 'define_spaces', '_simulate', 'step') for x in pth)
            if rest and not fresh and not e.where[2].endswith('__deepcopy__'):
                run.bad('%s keeps the generator in %s' % (e.where[2], e.field),
                        'an object that outlives a reset does not keep an earlier generator', where(e),
                        '%s.%s holds the generator of the environment from before it is seeded' % (show(rest[0]), e.field))
            else:
                run.ok('generator stored at %s' % where(e))
    if not draws:
        run.broken = 'no random draw found'


def origin(o):
    b = base(o)
    if b[0] == 'EXT':
        return 'the process-wide generator of %s' % b[1]
    if b[0] == 'RNG':
        return {'fresh': 'a generator made at %s:%s that seed() does not reach',
                'static': 'a module-level generator made at %s:%s'}.get(b[1], '%s %s') % tuple(b[2])
    return show(o)


def node_at(run, e, test):
    m = next(m for m in run.p.modules.values() if m.rel == e.where[0])
    pm = parents(m.tree)
    return [(n, pm) for n in ast.walk(m.tree) if getattr(n, 'lineno', -1) == e.where[1] and test(n)]


def identity_use(run, e):
    """how an id() or hash() takes part in a computation; membership and equality tests are harmless"""
    for n, pm in node_at(run, e, lambda n: isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == e.field):
        p = pm.get(n)
        while isinstance(p, (ast.Tuple,)):
            p = pm.get(p)
        if isinstance(p, ast.BinOp):
            return 'used in arithmetic'
        if isinstance(p, ast.Lambda):
            return 'used as a sort key'
        if isinstance(p, ast.Compare) and not all(isinstance(o, (ast.In, ast.NotIn, ast.Eq, ast.NotEq, ast.Is, ast.IsNot))
                                                  for o in p.ops):
            return 'compared by order'
        if isinstance(p, ast.Call) and p.func is not n and isinstance(p.func, (ast.Name, ast.Attribute)):
            nm = p.func.id if isinstance(p.func, ast.Name) else p.func.attr
            if nm in ('int', 'float', 'RandomState', 'default_rng', 'seed', 'Random', 'min', 'max', 'sorted'):
                return 'passed to %s' % nm
    return None


INSENSITIVE = {'sorted', 'min', 'max', 'sum', 'any', 'all', 'len', 'set', 'frozenset'}


def order_matters(run, e):
    if e.field == 'for':
        loops = node_at(run, e, lambda n: isinstance(n, ast.For))
        for n, pm in loops:
            if not commutative(n.body):
                return True
        return not loops
    if e.field == 'comprehension':
        for n, pm in node_at(run, e, lambda n: isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp))):
            if isinstance(n, ast.SetComp):
                return False
            p = pm.get(n)
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in INSENSITIVE:
                return False
    if e.field in ('list', 'tuple', 'iter', 'map', 'filter', 'zip', 'enumerate'):
        for n, pm in node_at(run, e, lambda n: isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == e.field):
            p = pm.get(n)
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in INSENSITIVE:
                return False
    return True


def commutative(body):
    """a loop body that only collects into sets, counts, or tests without leaving the loop with a value of the element"""
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Assign, ast.Yield, ast.YieldFrom, ast.Break, ast.AnnAssign)):
                return False
            if isinstance(x, ast.Return) and not isinstance(x.value, (ast.Constant, type(None))):
                return False
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr not in ('add', 'discard', 'is_connected_road'):
                return False
    return True


def shared_rule(run):
    """C02: nothing that is shared between instances is written after import"""
    f = run.facts()
    an = f.histories()
    run.extra['points_to'] = dict(contexts=an.ncalls, events=len(an.events), passes=an.passes,
                                  unresolved_calls=len(an.unresolved))
    n = 0
    for e in an.events.values():
        if e.kind in ('store', 'mutate', 'global', 'reseed', 'draw'):
            n += 1
            sh = [o for o in e.recv if shared(o)]
            if e.kind in ('draw', 'reseed'):
                sh = [o for o in sh if o[0] == 'RNG' or o[0] == 'EXT']
            if sh:
                what = {'store': 'assigns %s of ' % e.field, 'global': 'assigns the module variable %s of ' % e.field,
                        'draw': 'advances ', 'reseed': 'reseeds '}.get(e.kind, 'modifies (%s) ' % e.field)
                key = '%s:%s' % (e.where[2], e.field)
                if e.kind == 'store' and any(base(o)[0] in ('CLS', 'ANYCLS') for o in sh):
                    key = '%s:class-attribute:%s' % (e.where[2].split('.')[0], e.field)
                run.bad(key, 'state shared between instances is never modified after import',
                        where(e), what + ', '.join(sorted(set(map(shown, sh)))) + ', reached by ' + an.path(e.ctx))
    for m in an.memo:
        if isinstance(m[0], Func) and any(d in ('lru_cache', 'cache', 'cached_property') for d in m[0].decos):
            mut = [o for o in an.memo[m] if o[0] in ('A', 'I', 'K') or (o[0] == 'L' and (o[1], 'tuple') not in an.sets)]
            if mut and 'cached_property' not in m[0].decos:
                run.bad('%s caches' % m[0].qual, 'state shared between instances is never modified after import', m[0].where,
                        'a process-wide cache hands the same %s to every caller' % show(mut[0]))
    run.ok('%d stores and mutations in %d contexts' % (n, an.ncalls))


def shared(o):
    b = base(o)
    if o[0] in ('K',):
        return False
    if b[0] in ('CLS', 'MOD', 'FN', 'ANYCLS'):
        return True
    if b[0] in ('L', 'A', 'I') and b[2] == 'static':
        return True
    if b[0] == 'RNG' and b[1] == 'static':
        return True
    return b[0] == 'EXT' and b[1] in ('np.random', 'random')


def shown(o):
    b = base(o)
    if b[0] in ('CLS', 'ANYCLS'):
        return 'class %s' % b[1] if b[0] == 'CLS' else 'a vehicle class'
    if b[0] == 'MOD':
        return 'module %s' % b[1]
    if b[0] == 'EXT':
        return 'the process-wide generator of %s' % b[1]
    return 'an object made while importing (%s)' % show(o)


# ---------------------------------------------------------------------- C04: queries have no effect on the simulation
ENVQ = ['_reward', '_cost', '_is_terminal', '_agent_reward', '_agent_is_terminal', 'has_arrived', 'get_available_actions',
        'compute_reward', '_is_success', 'to_finite_mdp', 'vehicle', '_info', 'reward']
ROADQ = ['close_vehicles_to', 'neighbour_vehicles', 'is_conflict_possible', '__repr__']
NETQ = ['get_lane', 'get_closest_lane_index', 'bfs_paths', 'shortest_path', 'all_side_lanes', 'side_lanes', 'is_same_road',
        'is_leading_to_road', 'is_connected_road', 'lanes_list', 'position_heading_along_route']
OBJQ = ['to_dict', 'lane_distance_to', 'front_distance_to', 'on_road', 'velocity', 'direction', 'destination',
        'destination_direction', 'lane_offset', 'predict_trajectory', 'predict_trajectory_constant_speed',
        'get_routes_at_intersection', 'speed_to_index', 'index_to_speed', 'get_speed_index', 'acceleration', 'desired_gap',
        'mobil', 'steering_control', 'speed_control', 'acceleration_features', 'steering_features', '_is_colliding',
        'state', 'derivative', '__str__', '__repr__', 'heading_', 'get_corners', 'polygon']
MODQ = ['finite_mdp']
SPACEQ = ['space', 'observe', 'observer_vehicle', 'vehicle_class', 'controlled_vehicle']


def documented(f):
    """a function of the package's interface (helpers a change adds are analysed from their callers)"""
    q = f.qual if f.cls else f.module.name.split('.')[-1] + ':' + f.name
    return q in PARAMS


def query_entries(p):
    out = []
    spec = [('AbstractEnv', ENVQ), ('Road', ROADQ), ('RoadNetwork', NETQ), ('Vehicle', OBJQ), ('RoadObject', OBJQ),
            ('AbstractLane', None), ('ObservationType', SPACEQ), ('ActionType', SPACEQ)]
    for cn, names in spec:
        if cn not in p.classes:
            continue
        for c in p.descendants(p.classes[cn]):
            for f in c.methods.values():
                if names is None and not f.name.startswith('_') and documented(f) or names is not None and f.name in names:
                    out.append(f)
    for m in p.modules.values():
        if m.name.split('.')[-1] in MODQ:
            out += [f for f in m.funcs.values() if documented(f)]
    return out


def simulation_object(p, o):
    """an instance of a simulation class (not an observation, action, viewer or predictor object)"""
    b = base(o)
    if b[0] != 'I' or b[1] not in p.classes:
        return False
    c = p.classes[b[1]]
    return any(n in p.classes and p.is_sub(c, p.classes[n]) for n in ('AbstractEnv', 'Road', 'RoadNetwork', 'Vehicle',
                                                                    'RoadObject', 'AbstractLane', 'ActionType'))


def held_by(p, an, depth=4):
    """containers and arrays -> the fields of objects through which they are reached"""
    out = {}
    for src in (an.base_heap, an.heap):
        for (o, f), v in src.items():
            if base(o)[0] == 'I' and not f.startswith('['):
                for x in v:
                    if base(x)[0] in ('L', 'A'):
                        out.setdefault(base(x), set()).add((base(o)[1], f))
    for _ in range(depth):
        n = sum(map(len, out.values()))
        for src in (an.base_heap, an.heap):
            for (o, f), v in src.items():
                if base(o)[0] == 'L' and base(o) in out:
                    for x in v:
                        if base(x)[0] in ('L', 'A'):
                            out.setdefault(base(x), set()).update(out[base(o)])
        if n == sum(map(len, out.values())):
            break
    return out


def preexisting(o):
    if o[0] == 'K':
        return False
    if o[0] == 'S':
        return False
    b = base(o)
    if b[0] in ('L', 'A', 'I'):
        return b[2] in ('', 'static', 'arg')
    return b[0] in ('CLS', 'MOD', 'FN', 'ANYCLS', 'V')


def effects(run, an, held, allow=lambda e, o: False):
    """stores and mutations of objects that existed before the entry"""
    p = run.p
    for e in an.events.values():
        if e.kind not in ('store', 'mutate', 'global', 'reseed'):
            continue
        hit = [o for o in e.recv if preexisting(o) and not allow(e, o)]
        hit = [o for o in hit if simulation_object(p, o) or base(o)[0] in ('CLS', 'MOD', 'FN', 'ANYCLS', 'V') or
               (base(o)[0] in ('L', 'A') and (base(o)[2] in ('static', 'arg') or any(
                   simulation_object(p, ('I', c, '')) for c, f in held.get(base(o), ()))))]
        if hit:
            yield e, hit


def observation_method(run, e):
    c = run.p.classes.get(e.where[2].split('.')[0])
    return c is not None and 'ObservationType' in run.p.classes and run.p.is_sub(c, run.p.classes['ObservationType'])


def pure_rule(run):
    """C04: no query stores into, mutates or draws from anything that existed when it was called"""
    f = run.facts()
    entries = query_entries(run.p)
    an = own.Analysis(run.p, f.types, heap=f.p1.heap, use_loops=False, skip=('render',))
    an.sets |= f.p1.sets
    an.run([(q, an.entry(q, 'arg')) for q in entries])
    run.extra['points_to'] = dict(entries=len(entries), contexts=an.ncalls, events=len(an.events), passes=an.passes)
    held = held_by(run.p, an)
    seen = 0
    for e, hit in effects(run, an, held):
        run.bad('%s:%s' % (e.where[2], e.field), 'a query modifies nothing that existed when it was called', where(e),
                '%s %s of %s, reached by %s' % (e.kind, e.field, ', '.join(sorted(set(map(show, hit)))[:3]), an.path(e.ctx)))
    for e in an.events.values():
        if e.kind == 'draw':
            old = [o for o in e.recv if not (o[0] == 'K')]
            if e.field == 'shuffle' and observation_method(run, e):
                run.ok('documented draw of the row order at %s' % where(e))
                continue
            if old:
                run.bad('%s draws %s' % (e.where[2], e.field), 'a query draws nothing from the generator', where(e),
                        'draw from %s, reached by %s' % (show(old[0]), an.path(e.ctx)))
    run.ok('%d queries, %d contexts' % (len(entries), an.ncalls))


# ---------------------------------------------------------------------- C03: planning copies
COPIES = '''
for k in [e.simplify(), e.change_vehicles('x'), e.set_preferred_lane(0), e.set_route_at_intersection('x'),
          e.set_vehicle_field(('x', 0)), e.call_vehicle_method(('x', ())), e.randomize_behaviour(), copy.deepcopy(e)]:
    k.step(ACT)
    k.reset()
    k.simplify().step(ACT)
'''
HOOKS = ('__deepcopy__', '__copy__', '__getstate__', '__setstate__', '__reduce__', '__reduce_ex__')


def copies_rule(run):
    """C03: making and running a planning copy writes nothing of the original and draws nothing from its generator"""
    f = run.facts()
    p = run.p
    n = 0
    envs = f.env_classes()
    groups = [envs] if run.tier != 'thorough' else [[c] for c in envs]
    for g in groups:
        an = own.Analysis(p, f.types, heap=f.p1.heap, use_loops=False, skip=('render',))
        an.sets |= f.p1.sets
        es = []
        for c in g:
            env = {'e': frozenset([('I', c.name, '')]), 'ACT': frozenset([('V', 'action')]),
                   'copy': frozenset([('EXT', 'copy')])}
            es.append((lambda an, c=c, env=env: an.drive(c.module, COPIES, env), None))
        an.run(es)
        held = held_by(p, an)
        for e, hit in effects(run, an, held):
            hit = [o for o in hit if base(o)[0] in ('I', 'L', 'A') and base(o)[2] != 'static']
            if observation_method(run, e) and e.kind == 'store' or not hit:
                continue
            run.bad('%s:%s' % (e.where[2], e.field), 'a planning copy shares no mutable state with the original', where(e),
                    '%s %s of the original %s, reached by %s' % (e.kind, e.field, ', '.join(sorted(set(map(show, hit)))[:3]),
                                                                 an.path(e.ctx)))
        for e in an.events.values():
            if e.kind == 'draw':
                old = [o for o in e.recv if o[0] != 'K' and base(o) == ('RNG', 'env')]
                if old:
                    run.bad('%s draws %s' % (e.where[2], e.field), 'a planning copy has its own generator', where(e),
                            'draw from the generator of the original, reached by %s' % an.path(e.ctx))
        n += an.ncalls
        run.extra['points_to'] = dict(contexts=n, events=len(an.events), passes=an.passes)
    for c in p.classes.values():
        for h in HOOKS:
            if h in c.methods and not (h == '__deepcopy__' and c.name == 'AbstractEnv'):
                hook(run, f, c, c.methods[h])
    run.ok('copies of %d environment classes made, stepped and reset in %d contexts' % (len(envs), n))


def hook(run, f, c, m):
    """a class that customises copying: what it hands out may not be what it was copied from"""
    an = own.Analysis(run.p, f.types, heap=f.p1.heap, use_loops=False)
    an.sets |= f.p1.sets
    me = frozenset([('I', c.name, '')])
    an.run([(m, [me] + [E_ARG(an, m, x) for x in an.positional(m)[1:]])])
    out = frozenset().union(*[v for k, v in an.memo.items() if k[0] is m]) if an.memo else frozenset()
    bad = set()
    if m.name in ('__deepcopy__', '__copy__', '__getstate__'):
        for o in out:
            if preexisting(o) and base(o)[0] in ('I', 'L', 'A'):
                bad.add(o)
            for (oo, ff), v in an.heap.items():
                if oo == o:
                    bad |= {x for x in v if preexisting(x) and base(x)[0] in ('I', 'L', 'A')}
    if bad and m.name != '__getstate__':
        run.bad('%s shares' % m.qual, 'a planning copy shares no mutable state with the original', m.where,
                'the copy holds %s of the original' % ', '.join(sorted(map(show, bad))[:3]))
    else:
        run.ok('copy hook %s' % m.qual)


def E_ARG(an, m, x):
    return frozenset([('V', m.qual + ':' + x)])


# ---------------------------------------------------------------------- C05: ownership
OWNED = {'Vehicle': ('position', 'action', 'route', 'history'), 'RoadObject': ('position',),
         'AbstractLane': ('start', 'end', 'center', 'direction', 'direction_lateral'), 'AbstractEnv': ('config',)}
# containers that a function receives to fill, to consume or to keep, by its documentation
BY_CONTRACT = {('next_lane', 'route'), ('__init__', 'vehicles'), ('__init__', 'road_objects'), ('__init__', 'data'),
               ('__init__', 'possible_routes'), ('add_features', 'data'), ('__deepcopy__', 'memo'),
               ('normalize_obs', 'df'), ('normalize', 'df')}


def owned_rule(run):
    """C05: owned fields only ever receive containers made for them; containers of the caller are never modified"""
    f = run.facts()
    p = run.p
    funcs = [q for q in p.all_funcs() if not q.module.rel.endswith(RENDER) and documented(q)]
    an = own.Analysis(p, f.types, heap=f.p1.heap, use_loops=False, skip=('render',))
    an.sets |= f.p1.sets
    an.run([(q, an.entry(q, 'arg')) for q in funcs])
    run.extra['points_to'] = dict(entries=len(funcs), contexts=an.ncalls, events=len(an.events), passes=an.passes)
    stores = 0
    for e in an.events.values():
        if e.kind == 'store':
            for cn, fields in OWNED.items():
                if e.field not in fields or cn not in p.classes:
                    continue
                if not any(an.cls_of(o) is not None and p.is_sub(an.cls_of(o), p.classes[cn]) for o in e.recv):
                    continue
                stores += 1
                old = [o for o in e.val if preexisting(o) and base(o)[0] in ('L', 'A', 'V') and not immutable(an, o)]
                if old:
                    run.bad('%s:%s' % (e.where[2], e.field), 'owned fields only receive containers made for them', where(e),
                            '%s.%s is made to share %s, reached by %s' % (cn, e.field, show(old[0]), an.path(e.ctx)))
        elif e.kind == 'mutate':
            old = [o for o in e.recv if base(o)[0] in ('L', 'A', 'V') and o[0] != 'K' and not immutable(an, o) and
                   (base(o)[0] == 'V' or base(o)[2] == 'arg')]
            old = [o for o in old if not contract(o)]
            if old:
                run.bad('%s:%s' % (e.where[2], e.field), 'containers passed in by a caller are not modified', where(e),
                        '%s of the argument %s, reached by %s' % (e.field, show(old[0]), an.path(e.ctx)))
    run.ok('%d stores into owned fields and %d functions, %d contexts' % (stores, len(funcs), an.ncalls))


def contract(o):
    s = base(o)[1]
    fn, arg = (s[1], s[2]) if isinstance(s, tuple) else s.rsplit(':', 1)
    return (fn.split('.')[-1], arg) in BY_CONTRACT


def immutable(an, o):
    b = base(o)
    return b[0] == 'L' and (b[1], 'tuple') in an.sets


# ---------------------------------------------------------------------- C09: lists are not resized while iterated
RESIZE = ('.append', '.remove', '.pop', '.insert', '.extend', '.clear', '.popleft', '.appendleft', '.discard', '.add',
          'del []', '.update', '.popitem')


def reachable(an, starts):
    """functions reachable over the call graph of a points-to run"""
    seen, work = set(), list(starts)
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        for _, f in an.edges.get(k, ()):
            work.append((f.module.rel, f.qual))
    return seen


def iteration_rule(run):
    """C09: the body of a loop over a container does not resize that container (unless it leaves the loop at once)"""
    f = run.facts()
    an = f.histories()
    loops = {}
    for e in an.events.values():
        if e.kind == 'iterate' and e.field == 'for':
            loops.setdefault((e.where[0], e.where[1], e.where[2]), set()).update(e.recv)
    muts = [e for e in an.events.values() if e.kind == 'mutate' and e.field in RESIZE]
    bymod = {}
    for m in run.p.modules.values():
        for node in ast.walk(m.tree):
            if isinstance(node, ast.For):
                bymod[m.rel, node.iter.lineno] = node
    n = 0
    for (rel, line, qual), objs in sorted(loops.items(), key=lambda z: z[0][:2]):
        loop = bymod.get((rel, line))
        if loop is None:
            continue
        n += 1
        objs = {o for o in objs if o[0] in ('L', 'A', 'I', 'K') or True}
        lo, hi = loop.body[0].lineno, max(getattr(x, 'end_lineno', 0) or 0 for x in loop.body)
        calls = [(ff.module.rel, ff.qual) for l, ff in an.edges.get((rel, qual), ()) if lo <= l <= hi]
        inside = reachable(an, calls)
        for e in muts:
            here = e.where[0] == rel and e.where[2] == qual and lo <= e.where[1] <= hi
            if not here and (e.where[0], e.where[2]) not in inside:
                continue
            hit = [o for o in e.recv if o in objs]
            if hit and not (here and leaves_at_once(loop, e.node)) and \
                    not made_here(run.p, e, loop if here else None):
                run.bad('%s:%s' % (qual, e.field), 'a container is not resized while it is iterated',
                        '%s:%d %s' % (rel, line, qual),
                        'the loop over %s resizes it at %s' % (show(hit[0]), where(e)))
    run.ok('%d loops over containers' % n)


FRESH = ('list', 'dict', 'set', 'sorted', 'tuple', 'copy', 'deepcopy', 'array', 'zeros', 'ones', 'deque')


def made_here(p, e, loop):
    """the container resized is a local made by this very call of the function: it is not the one iterated, unless the
    loop of the same function could have got hold of it before"""
    tree = next((m.tree for m in p.modules.values() if m.rel == e.where[0]), None)
    fn = None
    for n in ast.walk(tree) if tree is not None else ():
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and any(x is e.node for x in ast.walk(n)):
            fn = n                      # the innermost: ast.walk goes from the outside to the inside
    if not isinstance(fn, ast.FunctionDef):
        return False
    r = e.node
    if isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute):
        r = r.func.value
    elif isinstance(r, ast.AugAssign):
        r = r.target
    while isinstance(r, ast.Subscript):
        r = r.value
    if not isinstance(r, ast.Name):
        return False
    if r.id in [a.arg for a in fn.args.args + fn.args.kwonlyargs]:
        return False
    made = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r.id for t in n.targets):
            v = n.value
            name = v.func.attr if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) else \
                v.func.id if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) else None
            if not isinstance(v, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp)) and \
                    name not in FRESH or len(n.targets) > 1:
                return False
            made.append(n)
        elif isinstance(n, ast.Name) and n.id == r.id and not isinstance(n.ctx, ast.Load):
            if not any(n in a.targets for a in ast.walk(fn) if isinstance(a, ast.Assign)) and \
                    not any(n is a.target for a in ast.walk(fn) if isinstance(a, ast.AugAssign)):
                return False
    if not made:
        return False
    if loop is None:
        return True
    inner = set(ast.walk(loop))
    if all(a in inner for a in made):
        return True
    outer = loop
    for n in [x for x in ast.walk(fn) if isinstance(x, (ast.For, ast.While)) and loop in ast.walk(x)][::-1]:
        body = list(ast.walk(n))
        if any(a in body for a in made):    # made anew in each round of this loop
            break
        outer = n
    end = max(getattr(x, 'end_lineno', 0) or 0 for x in ast.walk(outer))
    own = set()
    for n in ast.walk(fn):              # uses that give the container to nobody
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            own.add(n.func.value)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'sum', 'min', 'max', 'any', 'all'):
            own.update(n.args)
        elif isinstance(n, ast.Subscript):
            own.add(n.value)
        elif isinstance(n, ast.Compare):
            own.add(n.left)
            own.update(n.comparators)
    return not any(isinstance(n, ast.Name) and n.id == r.id and isinstance(n.ctx, ast.Load) and n.lineno <= end and
                   n not in own for n in ast.walk(fn))


def leaves_at_once(loop, node):
    """the statement is followed, in its block, by a statement that leaves the loop"""
    for b in ast.walk(loop):
        for block in (getattr(b, 'body', None), getattr(b, 'orelse', None)):
            if not isinstance(block, list):
                continue
            for i, s in enumerate(block):
                if any(x is node for x in ast.walk(s)) and not isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    return any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for x in block[i + 1:i + 2])
    return False


# ---------------------------------------------------------------------- C16: nothing clears the crashed flag
def crashed_rule(run):
    """C16: outside constructors the crashed flag is only ever raised"""
    n = 0
    for fn in sorted(run.p.allfuncs(), key=lambda x: x.where):
        if fn.name == '__init__':
            continue
        for s in ast.walk(fn.node):
            tv = []
            if isinstance(s, ast.Assign):
                tv = [(t, s.value) for t in s.targets]
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                tv = [(s.target, s.value)]
            elif isinstance(s, ast.AugAssign):
                tv = [(s.target, s)]
            elif isinstance(s, ast.Delete):
                tv = [(t, ast.Constant(False)) for t in s.targets]
            elif isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id == 'setattr' and len(s.args) == 3 and \
                    isinstance(s.args[1], ast.Constant):
                tv = [(ast.Attribute(s.args[0], s.args[1].value, ast.Store()), s.args[2])]
            flat = []
            for t, v in tv:
                if isinstance(t, (ast.Tuple, ast.List)):
                    vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
                    flat += list(zip(t.elts, vs))
                else:
                    flat.append((t, v))
            for t, v in flat:
                if not (isinstance(t, ast.Attribute) and t.attr == 'crashed'):
                    continue
                n += 1
                w = '%s:%d %s' % (fn.module.rel, s.lineno, fn.qual)
                r = raises_flag(fn, t, v)
                if r is False:
                    run.bad('%s clears crashed' % fn.qual, 'nothing clears the crashed flag', w,
                            'assigns %s to the flag' % (ast.unparse(v) if isinstance(v, ast.expr) else 'a computed value'))
                elif r is None:
                    run.skip('%s: value of the crashed flag not a constant' % w)
    run.ok('%d assignments of the crashed flag' % n)


def raises_flag(fn, t, v, depth=0):
    """True: stays set; False: can be cleared; None: unknown"""
    if isinstance(v, ast.Constant):
        return bool(v.value)
    if isinstance(v, ast.BoolOp) and isinstance(v.op, ast.Or):
        rs = [raises_flag(fn, t, x, depth) for x in v.values]
        if any(r is True for r in rs) or any(ast.dump(x).replace('Load', 'Store') == ast.dump(t) for x in v.values):
            return True
        return None
    if isinstance(v, ast.BoolOp):
        same = [ast.dump(x).replace('Load', 'Store') == ast.dump(t) for x in v.values]
        if any(same):                               # x.crashed = x.crashed and ...
            rs = [True if m else raises_flag(fn, t, x, depth) for m, x in zip(same, v.values)]
            return all(r is True for r in rs)
        return None
    if isinstance(v, ast.IfExp):
        a, b = raises_flag(fn, t, v.body, depth), raises_flag(fn, t, v.orelse, depth)
        return False if False in (a, b) else True if (a, b) == (True, True) else None
    if isinstance(v, ast.Name) and depth < 3:
        vals = [s.value for s in ast.walk(fn.node) if isinstance(s, ast.Assign)
                for x in s.targets if isinstance(x, ast.Name) and x.id == v.id]
        if vals and v.id not in [a.arg for a in fn.node.args.args]:
            rs = [raises_flag(fn, t, x, depth + 1) for x in vals]
            return True if all(r is True for r in rs) else False if any(r is False for r in rs) else None
    if isinstance(v, (ast.Attribute,)) and ast.dump(v).replace('Load', 'Store') == ast.dump(t):
        return True
    return None


# ---------------------------------------------------------------------- C35: configuration keys and registered identifiers
IDS = {'highway-v0': 'HighwayEnv', 'merge-v0': 'MergeEnv', 'roundabout-v0': 'RoundaboutEnv', 'two-way-v0': 'TwoWayEnv',
       'intersection-v0': 'IntersectionEnv', 'intersection-multi-agent-v0': 'MultiAgentIntersectionEnv',
       'intersection-multi-agent-v1': 'TupleMultiAgentIntersectionEnv', 'parking-v0': 'ParkingEnv',
       'parking-ActionRepeat-v0': 'ParkingEnvActionRepeat', 'summon-v0': 'SummonEnv',
       'summon-ActionRepeat-v0': 'SummonEnvActionRepeat', 'lane-keeping-v0': 'LaneKeepingEnv'}


def dict_keys(t):
    """string keys of a dictionary value, None if it is not known entirely"""
    if t.op == 'dict':
        ks = [k.args[0] if k.op == 'str' else None for k, _ in t.args]
        return None if None in ks else set(ks)
    if t.op == 'call' and t.args[0] == 'put' and t.args[2].op == 'str':
        r = dict_keys(t.args[1])
        return None if r is None else r | {t.args[2].args[0]}
    return None


def config_reads(fn, inenv):
    """(key, line) of configuration entries a function requires"""
    aliases = set()

    def is_config(e):
        if isinstance(e, ast.Name):
            return e.id in aliases
        if not (isinstance(e, ast.Attribute) and e.attr == 'config'):
            return False
        b = e.value
        if isinstance(b, ast.Name):
            return b.id in (('self', 'env') if inenv else ('env',))
        return isinstance(b, ast.Attribute) and b.attr == 'env'
    for s in ast.walk(fn.node):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and is_config(s.value):
            aliases.add(s.targets[0].id)
    guarded = set()
    for s in ast.walk(fn.node):
        if isinstance(s, ast.Compare) and len(s.ops) == 1 and isinstance(s.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(s.left, ast.Constant) and is_config(s.comparators[0]):
            guarded.add(s.left.value)
    written = {s.slice.value for s in ast.walk(fn.node) if isinstance(s, ast.Subscript) and isinstance(s.ctx, ast.Store) and
               isinstance(s.slice, ast.Constant) and is_config(s.value)}
    for s in ast.walk(fn.node):
        if isinstance(s, ast.Subscript) and isinstance(s.ctx, ast.Load) and is_config(s.value) and \
                isinstance(s.slice, ast.Constant) and s.slice.value not in guarded | written:
            yield s.slice.value, s.lineno


EXPORTS = ('to_finite_mdp', 'finite_mdp', 'compute_ttc_grid', 'transition_model')


def config_rule(run):
    """C35: every key an environment reads while it is built, reset, stepped, observed or rendered has a default"""
    if run.pairs is None:
        from .pairs import Pairs
        run.pairs = Pairs(run.p)
    p = run.p
    shared = []
    for fn in p.allfuncs():
        if fn.module.rel.endswith(('common/graphics.py', 'common/observation.py', 'common/action.py', 'road/graphics.py',
                                   'vehicle/graphics.py')):
            shared += [(k, l, fn) for k, l in config_reads(fn, False)]
    n = 0
    for c in p.descendants(p.cls('AbstractEnv')):
        d = p.lookup(c, 'default_config')
        if d is None:
            run.skip('%s has no default configuration' % c.name)
            continue
        try:
            keys = dict_keys(run.pairs.analyse(d, c, False).ret)
        except Exception as e:
            keys = None
        if keys is None:
            run.skip('default configuration of %s not a literal dictionary' % c.name)
            continue
        funcs, names = [], set()
        for k in p.mro(c):
            for nm, fn in k.methods.items():
                if nm not in EXPORTS:
                    if nm in names and not any(calls_super(g, nm) for g in funcs if g.name == nm):
                        continue
                    funcs.append(fn)
                    names.add(nm)
        reads = [(k, l, fn) for fn in funcs for k, l in config_reads(fn, True)] + shared
        n += len(reads)
        for k, l, fn in reads:
            if k not in keys:
                run.bad('%s reads %s' % (c.name, k), 'every configuration key read has a default',
                        '%s:%d %s' % (fn.module.rel, l, fn.qual),
                        'key "%s" is not in the default configuration of %s' % (k, c.name))
    run.ok('%d configuration reads' % n)


def calls_super(fn, name):
    return any(isinstance(x, ast.Attribute) and x.attr == name and
               not (isinstance(x.value, ast.Name) and x.value.id == 'self') for x in ast.walk(fn.node))


def exported(p, mod, name, seen=()):
    """class that `name` denotes in a module, following imports"""
    m = p.modules.get(mod) or p.modules.get(mod + '.__init__')
    if m is None or mod in seen:
        return None
    if name in m.classes:
        return m.classes[name]
    for s in m.tree.body:
        if isinstance(s, ast.ImportFrom) and s.module and s.level == 0:
            for a in s.names:
                if a.name == '*' or (a.asname or a.name) == name:
                    r = exported(p, s.module, name if a.name == '*' else a.name, seen + (mod,))
                    if r is not None:
                        return r
        elif isinstance(s, ast.ImportFrom) and s.level:
            pkg = mod.split('.') if m.rel.endswith('__init__.py') else mod.split('.')[:-1]
            pkg = pkg[:len(pkg) - s.level + 1]
            for a in s.names:
                if a.name == '*' or (a.asname or a.name) == name:
                    r = exported(p, '.'.join(pkg + ([s.module] if s.module else [])), name if a.name == '*' else a.name,
                                 seen + (mod,))
                    if r is not None:
                        return r
    return None


def register_rule(run):
    """C35: every documented identifier is registered for its environment, which needs no constructor argument"""
    p = run.p
    found = {}
    for m in p.modules.values():
        for s in m.tree.body:
            for x in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == 'register' or
                                                isinstance(x.func, ast.Attribute) and x.func.attr == 'register'):
                    kw = {k.arg: k.value for k in x.keywords}
                    args = dict(zip(('id', 'entry_point'), x.args))
                    args.update(kw)
                    if not all(isinstance(args.get(k), ast.Constant) for k in ('id', 'entry_point')):
                        run.skip('%s:%d registration with computed arguments' % (m.rel, x.lineno))
                        found[None] = None
                        continue
                    i = args['id'].value
                    w = '%s:%d' % (m.rel, x.lineno)
                    if i in found:
                        run.bad('%s twice' % i, 'identifiers are unique', w, 'registered again')
                    found[i] = (args['entry_point'].value, w, args.get('kwargs'))
    for i, cn in sorted(IDS.items()):
        if i not in found:
            if None not in found:
                run.bad(i, 'every documented identifier is registered', 'highway_env/envs', 'no registration of %s' % i)
            continue
        ep, w, kw = found[i]
        mod, _, name = ep.partition(':')
        c = exported(p, mod, name)
        if c is None:
            run.bad(i, 'identifiers resolve to a class', w, '%s is not exported by %s' % (name, mod))
            continue
        want = p.classes.get(cn)
        if want is not None and c is not want:
            run.bad(i, 'identifiers resolve to the documented class', w, '%s instead of %s' % (c.name, cn))
        init = p.lookup(c, '__init__')
        if init is not None:
            a = init.node.args
            req = [x.arg for x in a.args[1:len(a.args) - len(a.defaults)]] + \
                  [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
            if req and kw is None:
                run.bad(i, 'registered environments need no constructor argument', w, '%s requires %s' % (c.name, req))
        run.ok('%s is %s' % (i, c.name))


# ---------------------------------------------------------------------- C08: reset rewrites what an episode changed
NOT_EPISODE = {'viewer'}                    # the window outlives an episode; closing it is C10's matter


def written_fields(p, fn):
    """fields of its environment that a method stores or changes in place"""
    me = fn.node.args.args[0].arg if fn.node.args.args and not fn.is_static else None
    out = {}

    def base(t):
        while isinstance(t, ast.Subscript):
            t = t.value
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
            return t.attr
        return None
    for s in ast.walk(fn.node):
        ts = s.targets if isinstance(s, (ast.Assign, ast.Delete)) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) \
            and getattr(s, 'value', None) is not None else []
        for t in ts:
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                f = base(x)
                if f is not None:
                    whole = isinstance(x, ast.Attribute) and not isinstance(s, (ast.AugAssign, ast.Delete))
                    out.setdefault(f, []).append((s.lineno, whole))
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and '.' + s.func.attr in RESIZE:
            f = base(s.func.value)
            if f is not None:
                out.setdefault(f, []).append((s.lineno, False))
    return out


def reset_rule(run):
    """C08: every field of an environment that stepping changes is assigned afresh by its reset"""
    an = run.facts().histories()
    p = run.p
    top = p.cls('AbstractEnv')
    n = 0
    for c in [top] + list(p.descendants(top)):
        if c is top:
            continue
        mro = p.mro(c)

        def methods(entries):
            """methods of this environment reached from its entry points"""
            seen, work = {}, [p.lookup(c, e) for e in entries]
            while work:
                fn = work.pop()
                if fn is None or (fn.module.rel, fn.qual) in seen:
                    continue
                seen[fn.module.rel, fn.qual] = fn
                for _, g in an.edges.get((fn.module.rel, fn.qual), ()):
                    if g.cls is not None and top in p.mro(g.cls):
                        if g.cls not in mro:
                            continue
                        h = p.lookup(c, g.name) if not calls_super(fn, g.name) else g
                        work += [g] if h is None or g.is_setter else [h]
                    else:
                        work.append(g)
            return [f for f in seen.values() if f.cls is not None and f.cls in mro and
                    (p.lookup(c, f.name) is f or True)]
        step, reset = methods(['step']), methods(['reset'])
        fresh = {f for fn in reset for f, ws in written_fields(p, fn).items() if any(w for _, w in ws)}
        setters = {nm for k in mro for nm in k.setters}
        for fn in step:
            for f, ws in written_fields(p, fn).items():
                n += 1
                if f not in fresh and f not in NOT_EPISODE and f not in setters:
                    run.bad('%s keeps %s' % (c.name, f), 'reset assigns every field that stepping changes',
                            '%s:%d %s' % (fn.module.rel, ws[0][0], fn.qual),
                            'stepping %s changes %s, which its reset never assigns' % (c.name, f))
    run.ok('%d fields changed while stepping' % n)


FLOAT_STATE = {'C15': [('RoadObject', ('position',)), ('Vehicle', ('position',))], 'C34': [('LPV', ('a0',))],
               'C46': [('VehicleInterval', ('position', 'speed', 'heading'))]}
FLOATS = ('float', 'double', 'np.float', 'np.float64', 'np.float32', 'np.double', 'np.float_', 'np.single', 'f8', 'd', 'f')


def float_rule(run):
    """arrays that the simulation updates in place are made of floats, whatever numbers they are built from"""
    from .pairs import Interp, CONSTS
    from .terms import subterms
    for cn, fields in FLOAT_STATE.get(run.pid, ()):
        for c in run.p.descendants(run.p.cls(cn)):
            fn = c.methods.get('__init__')
            if fn is None:
                continue
            types = run.facts().types.fresh() if hasattr(run.facts(), 'types') else run.pairs.types.fresh()
            it = Interp(run.p, types, CONSTS, no_inline=(), unroll='loops')
            try:
                s = it.run(fn, c, ptypes=PARAMS.get(fn.qual))
                vals = {k[1]: it.freeze(v) for k, v in s.heap.items() if k[0].op == 'sym' and k[0].args[0] == 'self'}
                casts, plain = [], []
                for kind, guards, live, data, w in it.events:
                    if kind == 'dtype':
                        v, dt = data
                        name = dt.args[0] if dt is not None and dt.op in ('builtin', 'extmod', 'extname', 'str') else None
                        (casts if name in FLOATS else plain).append((it.freeze(v), w))
            except Exception as e:
                run.skip('%s: element type of %s (%s)' % (fn.where, ', '.join(fields), type(e).__name__))
                continue
            for f in fields:
                if f not in vals:
                    continue
                subs = set(subterms(vals[f])) | {vals[f]}
                names = [x.arg for x in fn.node.args.args[1:]]
                if f in names:          # built from the argument of that name
                    subs = {x for x in subs if x.op == 'sym' and x.args[0] == 'p%d' % names.index(f) or
                            x.op == 'vec' and x.args and x.args[0].op == 'idx' and x.args[0].args[0].op == 'sym' and
                            x.args[0].args[0].args[0] == 'p%d' % names.index(f)} or subs
                if any(v in subs for v, _ in casts):
                    run.ok('%s: %s holds floats' % (fn.qual, f))
                    continue
                hit = [w for v, w in plain if v in subs and v.op != 'num']
                if hit:
                    w = hit[-1]
                    run.bad('%s.%s element type' % (c.name, f), 'state that is updated in place is an array of floats',
                            '%s:%d %s' % w, '%s is built by an array conversion that keeps the element type of what it is '
                            'given: whole numbers make an integer array, and adding a displacement to it fails' % f)
                else:
                    run.skip('%s: element type of %s' % (fn.where, f))
