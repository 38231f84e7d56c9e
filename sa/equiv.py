"""Equality of canonical terms modulo the elementary theory of the atoms (orderings of one linear form, type tests,
None tests, distinct constants, piecewise-linear min)."""
import math
import time
from fractions import Fraction
from .terms import *
from .terms import _collect
from . import terms as TM

EVENOP = ()


class Ctx(object):
    """a consistent set of decided atoms"""
    def __init__(self, prog=None):
        self.p = prog
        self.b = {}       # linear form (poly without constant, lead 1) -> (lo, lo_strict, hi, hi_strict)
        self.ne = {}      # linear form -> set of excluded values
        self.tv = {}      # atom -> bool
        self.eqc = {}     # term -> constant it equals

    def copy(self):
        c = Ctx(self.p)
        c.b, c.ne, c.tv, c.eqc = dict(self.b), {k: set(v) for k, v in self.ne.items()}, dict(self.tv), dict(self.eqc)
        return c

    def norm(self, p):
        """p = k*(q + c) with q constant-free and lead 1"""
        k = lead(p)
        q = pscale(p, 1 / k)
        c = const(q)
        q = {m: v for m, v in q.items() if m != ()}
        return k, from_poly(q), c

    def bounds(self, q):
        b = self.b.get(q, (None, False, None, False))
        if q.op in ('ix', 'len') and (b[0] is None or b[0] < 0):
            b = (0, False) + b[2:]
        if (b[1] or b[3]) and self.isint(q):
            lo, ls, hi, hs = b
            if ls and lo is not None:
                lo, ls = math.floor(lo) + 1, False
            if hs and hi is not None:
                hi, hs = math.ceil(hi) - 1, False
            return lo, ls, hi, hs
        return b

    def isint(self, q):
        """a linear form with integer coefficients over terms known to be integers"""
        for m, k in P(q).items():
            if k.denominator != 1 if hasattr(k, 'denominator') else k != int(k):
                return False
            for t, _ in m:
                if t.op not in ('len', 'ix') and self.tv.get(mk('isinst', t, 'int')) is not True:
                    return False
        return True

    def implied(self, a):
        """truth value of atom a in this context, or None"""
        if a in self.tv:
            return self.tv[a]
        if a.op == 'lt0':
            k, q, c = self.norm(P(a.args[0]))
            lo, ls, hi, hs = self.bounds(q)
            t = -c
            if k > 0:     # q < t
                if hi is not None and (hi < t or hi == t and hs):
                    return True
                if lo is not None and lo >= t:
                    return False
            else:         # q > t
                if lo is not None and (lo > t or lo == t and ls):
                    return True
                if hi is not None and hi <= t:
                    return False
            return None
        if a.op == 'eq0':
            k, q, c = self.norm(P(a.args[0]))
            t = -c
            lo, ls, hi, hs = self.bounds(q)
            if lo is not None and (lo > t or lo == t and ls) or hi is not None and (hi < t or hi == t and hs):
                return False
            if lo is not None and lo == hi == t:
                return True
            if t in self.ne.get(q, ()):
                return False
            return None
        if a.op == 'eq':
            x, y = a.args
            for u, v in ((x, y), (y, x)):
                if v.op in ('str', 'num', 'none', 'cls', 'tuple') and u in self.eqc:
                    return self.eqc[u] is v
                if v.op == 'str' and self.tv.get(mk('isnone', u)) is True:
                    return False
            return None
        if a.op == 'truthy':
            x = a.args[0]
            if self.tv.get(mk('isnone', x)) is True:
                return False
            if x in self.eqc:
                c = truthy(self.eqc[x])
                if c in (TRUE, FALSE):
                    return c is TRUE
            n = mk('len', x)
            if n in self.b or n in self.ne:
                z = self.implied(mk('eq0', n))
                if z is not None:
                    return not z
            z = self.implied(mk('eq0', x)) if x.op in ('attr', 'idx', 'call', 'sym', 'vcall') else None
            if z is not None and mk('eq0', x) in self.tv:
                return not z
            return None
        if a.op == 'isnone':
            x = a.args[0]
            if self.tv.get(mk('truthy', x)) is True:
                return False
            if x in self.eqc and self.eqc[x].op != 'none':
                return False
            for t, v in self.tv.items():
                if v and t.op == 'isinst' and t.args[0] is x:
                    return False
            return None
        if a.op == 'isinst':
            x, cn = a.args
            if self.tv.get(mk('isnone', x)) is True:
                return False
            if self.p is None:
                return None
            cs = self.p.classes
            for t, v in self.tv.items():
                if t.op == 'isinst' and t.args[0] is x and cn in cs and t.args[1] in cs:
                    d = cs[t.args[1]]
                    if v and self.p.is_sub(d, cs[cn]):
                        return True
                    if v and not self.p.is_sub(d, cs[cn]) and not self.p.is_sub(cs[cn], d):
                        # unrelated classes without a common descendant
                        if not set(self.p.descendants(d)) & set(self.p.descendants(cs[cn])):
                            return False
                    if not v and self.p.is_sub(cs[cn], d):
                        return False
            return None
        return None

    def decide(self, a, v):
        c = self.copy()
        c.tv[a] = v
        if a.op == 'lt0':
            k, q, cc = c.norm(P(a.args[0]))
            t = -cc
            lo, ls, hi, hs = c.bounds(q)
            up = (k > 0) == v      # q < t (strict) when v, or q <= t
            strict = v
            if up:
                if hi is None or t < hi or t == hi and strict:
                    hi, hs = t, strict
            else:
                if lo is None or t > lo or t == lo and strict:
                    lo, ls = t, strict
            ls, hs = ls or lo in c.ne.get(q, ()), hs or hi in c.ne.get(q, ())
            c.b[q] = (lo, ls, hi, hs)
        elif a.op == 'eq0':
            k, q, cc = c.norm(P(a.args[0]))
            if v:
                c.b[q] = (-cc, False, -cc, False)
            else:
                c.ne.setdefault(q, set()).add(-cc)
                lo, ls, hi, hs = c.bounds(q)
                if lo == -cc:
                    ls = True
                if hi == -cc:
                    hs = True
                if lo is not None or hi is not None:
                    c.b[q] = (lo, ls, hi, hs)
        elif a.op == 'truthy':
            n = mk('len', a.args[0])
            lo, ls, hi, hs = c.bounds(n)
            c.b[n] = (0, True, hi, hs) if v and (lo is None or lo <= 0) else (lo, ls, hi, hs) if v else (0, False, 0, False)
        elif a.op == 'eq' and v:
            x, y = a.args
            if y.op in ('str', 'num', 'none', 'cls', 'tuple'):
                c.eqc[x] = y
            if x.op in ('str', 'num', 'none', 'cls', 'tuple'):
                c.eqc[y] = x
        return c

    def equalities(self):
        """linear forms pinned to a value: list of polynomials equal to zero"""
        out = []
        for q, (lo, ls, hi, hs) in self.b.items():
            if lo is not None and lo == hi and not ls and not hs:
                out.append(psub(P(q), {(): lo}))
        return out


    def infeasible(self):
        """the decided linear inequalities contradict each other (interval bounds closed under non-negative
        combination: Fourier-Motzkin elimination over the monomials, with a size limit)"""
        rows = []       # (poly, strict): poly >= 0 or > 0
        for q, (lo, ls, hi, hs) in self.b.items():
            pq = P(q)
            if lo is not None:
                rows.append((psub(pq, {(): lo}), ls))
            if hi is not None:
                rows.append((psub({(): hi}, pq), hs))
        if len(rows) < 3 or len(rows) > 40:
            return False
        while True:
            vs = {}
            for r, _ in rows:
                for m in r:
                    if m != ():
                        u = vs.setdefault(m, [0, 0])
                        u[r[m] > 0] += 1
            for r, st in rows:
                if all(m == () for m in r):
                    c = r.get((), 0)
                    if c < 0 or c == 0 and st:
                        return True
            rows = [x for x in rows if any(m != () for m in x[0])]
            if not vs:
                return False
            v = min(vs, key=lambda m: (vs[m][0] * vs[m][1], str(m)))
            pos = [x for x in rows if x[0].get(v, 0) > 0]
            neg = [x for x in rows if x[0].get(v, 0) < 0]
            rows = [x for x in rows if v not in x[0]]
            if len(rows) + len(pos) * len(neg) > 60:
                return False
            for r, s1 in pos:
                for t, s2 in neg:
                    k = {}
                    for m, c in r.items():
                        k[m] = k.get(m, 0) + c * -t[v]
                    for m, c in t.items():
                        k[m] = k.get(m, 0) + c * r[v]
                    rows.append(({m: c for m, c in k.items() if c != 0}, s1 or s2))


class Diff(object):
    def __init__(self, guard, a, b):
        self.guard, self.a, self.b = guard, a, b

    def __str__(self):
        g = ' and '.join(('' if v else 'not ') + '(%s)' % show(a) for a, v in self.guard) or 'always'
        return 'when %s: code gives %s, rule gives %s' % (clip(g, 700), clip(show(self.a), 700), clip(show(self.b), 700))

    def has_unknown(self):
        return any(x.op == 'unknown' for t in [self.a, self.b] + [g for g, _ in self.guard] for x in subterms(t))


def clip(s, n):
    return s if len(s) <= n else s[:n] + '…'


def evaluated(t):
    """the subterms certainly evaluated with t: not the branches of a conditional inside it"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            st.append(x.args[0])
        elif x.op in ('mapf', 'mapd', 'fold', 'foreach', 'first', 'sum', 'any', 'fn', 'mu', 'while'):      # per element: maybe no element
            if x.args and isinstance(x.args[0], T):
                st.append(x.args[0])
        else:
            for a in x.args:
                _collect(a, st)
    return seen


def computes(t, x):
    """t is computed by arithmetic with x"""
    return any(p.op == 'poly' and any(f is x for m, _ in p.args for f, _ in m) for p in evaluated(t))


class Step(tuple):
    """a condition decided on the way, with the two values it was decided for"""
    def __new__(cls, at, val, a, b):
        s = tuple.__new__(cls, (at, val))
        s.a, s.b = a, b
        return s


def restrict(t, lits, memo):
    if t.op != 'ite':
        return t
    r = memo.get(t)
    if r is None:
        c = t.args[0]
        if c in lits:
            r = restrict(t.args[1] if lits[c] else t.args[2], lits, memo)
        else:
            x, y = restrict(t.args[1], lits, memo), restrict(t.args[2], lits, memo)
            r = x if x is y else mk('ite', c, x, y)
        memo[t] = r
    return r


def reached(path, i, of=all):
    """do both values (or one of them) still depend on the i-th condition, given the ones decided after it? if not, its
    evaluation is an artefact of the order of the conditions, or a failure of one side only"""
    s = path[i]
    if not isinstance(s, Step):
        return True
    lits = dict(path[:i] + path[i + 1:])
    return of(restrict(t, {**lits, s[0]: True}, {}) is not restrict(t, {**lits, s[0]: False}, {}) for t in (s.a, s.b))


class Equiv(object):
    def __init__(self, prog=None, budget=60000):
        self.p, self.budget = prog, budget
        self.count = 0
        self.memo = {}
        self.hi, self.hx = {}, {}
        self.rcount, self.rstart = 0, 0

    def same(self, a, b, ctx=None):
        """None when equal on every consistent assignment, else a Diff"""
        return self._same(a, b, ctx or Ctx(self.p), [])

    def _same(self, a, b, ctx, path):
        if a is b:
            return None
        self.count += 1
        if self.count > self.budget or not self.count & 63 and time.time() > TM.deadline[0]:
            raise TooBig()
        at = None
        for x in (a, b):
            if x.op == 'ite' and (at is None or x.args[0].dig < at.dig):
                at = x.args[0]
        if at is not None:
            a1, a0 = cof(a, at)
            b1, b0 = cof(b, at)
            imp = ctx.implied(at)
            if imp is True:
                return self._same(a1, b1, ctx, path)
            if imp is False:
                return self._same(a0, b0, ctx, path)
            d = self._same(a1, b1, ctx.decide(at, True), path + [Step(at, True, a, b)])
            if d is not None:
                return d
            return self._same(a0, b0, ctx.decide(at, False), path + [Step(at, False, a, b)])
        # ground
        if a is UNDEF or b is UNDEF:
            return None
        if path and ctx.infeasible():
            return None
        if (a.op == 'raise' or b.op == 'raise') and any(
                g.op in ('truthy', 'isnone', 'isinst', 'eq0', 'lt0', 'eq') and any(x is r for x in evaluated(g)) and
                reached(path, i, any) for r in (a, b) if r.op == 'raise' for i, (g, _) in enumerate(path)):
            return None         # both got this far only by evaluating the failing expression
        if any(v and g.op == 'isnone' and (computes(a, g.args[0]) or computes(b, g.args[0])) for g, v in path):
            return None         # arithmetic with a value that is None here: this path ends in an exception
        if a.op in ('concat', 'mapf') or b.op in ('concat', 'mapf'):
            a2, b2 = self.inhabited(a, ctx), self.inhabited(b, ctx)
            if a2 is not a or b2 is not b:
                return self._same(a2, b2, ctx, path)
        if a.op == b.op and a.op in CONT and len(a.args) == len(b.args):
            if a.op == 'dict':
                da, db = dict(a.args), dict(b.args)
                if set(da) == set(db):
                    for k in da:
                        d = self._same(da[k], db[k], ctx, path)
                        if d is not None:
                            return d
                    return None
            else:
                for x, y in zip(a.args, b.args):
                    d = self._same(x, y, ctx, path)
                    if d is not None:
                        return d
                return None
        if a.op == b.op and a.op in CONT:
            return self.refine(a, b, ctx, path)
        # case split on min(q,0) atoms
        for t in (a, b):
            for m in top_min0(t):
                q = m.args[0]
                at = lt(q, ZERO)
                if at in (TRUE, FALSE):
                    continue
                c = at.args[0]
                flip = at.args[1] is FALSE
                imp = ctx.implied(c)
                res = None
                for val in ((True, False) if imp is None else (imp,)):
                    z = q if val != flip else ZERO
                    a2, b2 = subst(a, {m: z}), subst(b, {m: z})
                    if imp is None:
                        res = self._same(a2, b2, ctx.decide(c, val), path + [(c, val)])
                    else:
                        res = self._same(a2, b2, ctx, path)
                    if res is not None:
                        return res
                return None
        if numericish(a) or numericish(b):
            d = psub(P(a), P(b)) if a.op not in ('str', 'none') and b.op not in ('str', 'none') else None
            if d is not None:
                if not d:
                    return None
                for e in ctx.equalities():
                    d2 = reduce_by(d, e)
                    if not d2:
                        return None
                    d = d2
        # substitute pinned values / congruence
        if a.op == b.op and len(a.args) == len(b.args) and a.op not in ('num', 'str', 'poly', 'sym', 'ix', 'mu', 'bool',
                                                                       'cls', 'unknown', 'tmp', 'obj', 'none'):
            return self.congruent(a, b, ctx, path)
        if a.op == 'poly' and b.op == 'poly':
            r = self.poly_match(a, b, ctx, path)
            if r is not None:
                return r if isinstance(r, Diff) else None
        return self.refine(a, b, ctx, path)

    def inhabited(self, t, ctx):
        """a concatenation without the comprehensions over what is known to be empty"""
        parts = t.args if t.op == 'concat' else (t,)
        keep = [x for x in parts if not (x.op == 'mapf' and self.vacant(x.args[0], ctx))]
        if len(keep) == len(parts):
            return t
        return mk('list') if not keep else keep[0] if len(keep) == 1 else mk('concat', *keep)

    def vacant(self, d, ctx):
        if d.op == 'range':
            if d.args[0] is not ZERO or d.args[2] is not TM.ONE:
                return False
            c = lt(ZERO, d.args[1])
        else:
            c = truthy(d)
        v = None
        if c.op == 'ite' and c.args[1] in (TRUE, FALSE) and c.args[2] in (TRUE, FALSE):
            v = ctx.implied(c.args[0])
            v = None if v is None else v == (c.args[1] is TRUE)
        return c is FALSE or v is False

    def refine(self, a, b, ctx, path):
        """a difference found on this path: decide the conditions nested inside atoms and values before believing it"""
        bad = {x for t in (a, b) for x in subterms(t) if x.op == 'raise'}
        if bad and any(x in bad and reached(path, i) for i, (g, _) in enumerate(path) for x in evaluated(g)):
            return None         # both evaluated the failing expression before
        self.rcount += 1
        if self.rcount > 600 or self.rstart and time.time() - self.rstart > 6:
            return Diff(path, a, b)
        if self.hopeless(a, b) and not path:
            return Diff(path, a, b)
        cands = {}
        seen = set()
        for t in [x for x, _ in path] + [a, b]:
            for s in subterms(t):
                if s in seen:
                    continue
                seen.add(s)
                if s.op == 'ite':
                    cands[s.args[0]] = cands.get(s.args[0], 0) + 1
        cands = {c: n for c, n in cands.items() if not self.has_ite(c) and not self.has_ix(c)}
        if not cands:
            return Diff(path, a, b)
        if not self.rstart:
            self.rstart = time.time()
        c = min(cands, key=lambda c: (ctx.implied(c) is None, -cands[c], c.dig))
        imp = ctx.implied(c)
        for val in ((True, False) if imp is None else (imp,)):
            sb = {c: TRUE if val else FALSE}
            nctx, npath, ok = Ctx(self.p).decide(c, val), [(c, val)], True
            for t0 in path:
                t, v = t0
                if t is c:
                    if v != val:
                        ok = False
                        break
                    continue
                t2 = subst(t if t.op == 'ite' else mk('ite', t, TRUE, FALSE), sb)
                if t2.op == 'ite' and t2.args[1] in (TRUE, FALSE) and t2.args[2] in (TRUE, FALSE):
                    v = v == (t2.args[1] is TRUE)
                    t2 = t2.args[0]
                if t2 is TRUE or t2 is FALSE:
                    if (t2 is TRUE) != v:
                        ok = False
                        break
                    continue
                i2 = nctx.implied(t2)
                if i2 is not None:
                    if i2 != v:
                        ok = False
                        break
                    continue
                if t2.op == 'ite':
                    nctx = nctx.copy()
                    nctx.tv[t2] = v
                else:
                    nctx = nctx.decide(t2, v)
                npath.append(Step(t2, v, subst(t0.a, sb), subst(t0.b, sb)) if bad and isinstance(t0, Step) else (t2, v))
            if not ok:
                continue
            d = self._same(subst(a, sb), subst(b, sb), nctx, npath)
            if d is not None:
                return d
        return None

    def hopeless(self, a, b):
        return False

    def has_ite(self, t):
        r = self.hi.get(t)
        if r is None:
            r = self.hi[t] = any(s.op == 'ite' for s in subterms(t))
        return r

    def has_ix(self, t):
        r = self.hx.get(t)
        if r is None:
            r = self.hx[t] = any(s.op in ('ix', 'mu') for s in subterms(t))
        return r

    def poly_match(self, a, b, ctx, path):
        """polynomials whose atoms correspond one to one (atoms differ inside, e.g. equal loops in different shapes)"""
        xa = {t for m, _ in a.args for t, _ in m}
        xb = {t for m, _ in b.args for t, _ in m}
        da, db = sorted(xa - xb, key=lambda t: (t.op, t.dig)), sorted(xb - xa, key=lambda t: (t.op, t.dig))
        if not da or len(da) != len(db) or len(da) > 4:
            return None
        used, mp, last = set(), {}, None
        for x in da:
            for y in db:
                if y in used or x.op != y.op:
                    continue
                d = self._same(x, y, ctx, path)
                if d is None:
                    mp[x] = y
                    used.add(y)
                    break
                last = d
        if len(mp) == len(da) and subst(a, mp) is b:
            return True
        return last

    def congruent(self, a, b, ctx, path):
        # facts decided outside a binder hold inside: levels are heights, so no free index of a fact is bound here
        d = self.args_same(a.args, b.args, ctx, path)
        if d == 'shape':
            return self.refine(a, b, ctx, path)
        return d

    def args_same(self, xs, ys, ctx, path):
        if len(xs) != len(ys):
            return 'shape'
        for x, y in zip(xs, ys):
            if isinstance(x, TM.T) and isinstance(y, TM.T):
                d = self._same(x, y, ctx, path)
                if d is not None:
                    return d
            elif isinstance(x, tuple) and isinstance(y, tuple):
                d = self.args_same(x, y, ctx, path)
                if d is not None:
                    return d
            elif x != y:
                return 'shape'
        return None


def top_min0(t):
    """min0 atoms of a ground numeric term that occur in its polynomial (innermost first)"""
    out = []
    if t.op == 'min0':
        out.append(t)
    if t.op == 'poly':
        for m, _ in t.args:
            for a, _ in m:
                if a.op == 'min0':
                    out.append(a)
                elif a.op in ('psum',):
                    out += top_min0(a.args[0])
                elif a.op == 'call':
                    for z in a.args[1:]:
                        if isinstance(z, TM.T):
                            out += top_min0(z)
    if t.op == 'call':
        for z in t.args[1:]:
            if isinstance(z, TM.T):
                out += top_min0(z)
    if t.op == 'psum':
        out += top_min0(t.args[0])
    inner = []
    for m in out:
        inner += top_min0(m.args[0])
    return sorted(set(inner), key=lambda x: x.dig) + sorted(set(out) - set(inner), key=lambda x: x.dig)


def reduce_by(d, e):
    """reduce polynomial d modulo e = 0 by eliminating an atom that occurs linearly in e"""
    for m, c in sorted(e.items(), key=lambda mc: mkey(mc[0])):
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            if any(x in [a for a, _ in mm] for mm in e if mm != m):
                continue
            val = pscale({k: v for k, v in e.items() if k != m}, -1 / c)
            return P(subst(from_poly(d), {x: from_poly(val)}))
    return d
