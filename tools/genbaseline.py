#!/usr/bin/env python3
"""Writes sa/baseline.json from the pinned package: attribute and class-constant names (names a refactoring adds are not
observable behaviour; the names listed here are) and the declared types of parameters."""
import ast, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.front import Program, Class
from sa.types import Types
from sa.gvn import VEC2
p = Program()
t = Types(p)
fields, consts, params = set(), set(), {}


def enc(x):
    if isinstance(x, Class):
        return 'C:' + x.name
    if isinstance(x, tuple):
        return [x[0], [enc(y) for y in x[1]] if x[0] == 'tuple' else enc(x[1])]
    return x


def fn(q, f, m):
    a = f.node.args
    names = a.args + a.kwonlyargs
    if f.cls and not f.is_static and a.args:
        names = names[1:]
    out = []
    for x in names:
        y = t.ann(m, x.annotation) if x.annotation is not None else None
        if x.arg in VEC2 and y in (None, 'arr'):
            y = 'vec2'
        out.append(enc(y))
    params[q] = out


for m in p.modules.values():
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            fields.add(n.attr)
    for c in m.classes.values():
        consts |= set(c.attrs)
        fields |= set(c.ann)
        for f in c.methods.values():
            fn(f.qual, f, m)
        for f in c.setters.values():
            fn(f.qual + '=', f, m)
    for f in m.funcs.values():
        fn(m.name.split('.')[-1] + ':' + f.name, f, m)
params['utils:point_in_rectangle'] = ['vec2'] * 3     # Vector covers any sequence; these are points of the plane
params['utils:point_in_rotated_rectangle'][0] = 'vec2'
names = fields | consts
types = {k: enc(t.fields.get(k)) for k in names}
rets = {k: enc(t.rets.get(k)) for k in {q.split('.')[-1].split(':')[-1].rstrip('=') for q in params}}
bools = {k: k in t.boolfields for k in names}
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa', 'baseline.json')
json.dump(dict(fields=sorted(fields | consts), consts=sorted(consts), params=params, types=types, rets=rets, bools=bools), open(out, 'w'), indent=0, sort_keys=True)
