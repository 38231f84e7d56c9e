"""Hash-consed canonical terms.

Ground terms are constants, polynomials over atoms (exact rational coefficients), uninterpreted reads/calls and
containers.  Conditionals are kept as a multi-terminal decision diagram (op 'ite') over ordered boolean atoms, so two
expressions that compute the same gated polynomial have the same term, however the source spells it.
"""
import time
from fractions import Fraction
import hashlib


class TooBig(Exception):
    """the normal form exceeds the size budget: the analysis gives up (undecided), it does not guess"""


class T(object):
    __slots__ = ('op', 'args', 'dig', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}


def _enc(a):
    if isinstance(a, T):
        return a.dig
    if isinstance(a, tuple):
        return '(' + ','.join(_enc(x) for x in a) + ')'
    if isinstance(a, Fraction):
        return 'q%s' % a
    return type(a).__name__ + repr(a)


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args = op, args
        t.dig = hashlib.blake2b((op + _enc(args)).encode(), digest_size=9).hexdigest()
        _tab[key] = t
    return t


TRUE = mk('bool', True)
FALSE = mk('bool', False)
NONE = mk('none')
UNDEF = mk('undef')


def num(x):
    return mk('num', frac(x))


_pi = 3.141592653589793


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(x))


ZERO, ONE = num(0), num(1)


def boolc(b):
    return TRUE if b else FALSE


def strc(s):
    return mk('str', s)


def sym(n):
    return mk('sym', n)


# ----------------------------------------------------------------------------------------------- decision diagrams
_budget = [0, 400000]
deadline = [float('inf')]


def tick(n=1):
    _budget[0] += n
    if _budget[0] > _budget[1] or not _budget[0] & 255 and time.time() > deadline[0]:
        raise TooBig()


def reset_budget(n=400000):
    _budget[0], _budget[1] = 0, n


CONT = ('vec', 'tuple', 'list', 'dict')


def same_shape(a, b):
    if a.op != b.op or a.op not in CONT:
        return False
    if a.op == 'dict':
        return tuple(k for k, _ in a.args) == tuple(k for k, _ in b.args)
    return len(a.args) == len(b.args)


_ite = {}


def atom_node(a, hi, lo):
    """canonical node; hi and lo do not test anything before a"""
    if hi is lo:
        return hi
    if hi.op != 'ite' and lo.op != 'ite':
        if same_shape(hi, lo):
            c = mk('ite', a, TRUE, FALSE)
            if hi.op == 'dict':
                return mk('dict', *[(k, ite(c, v, w)) for (k, v), (_, w) in zip(hi.args, lo.args)])
            return mk(hi.op, *[ite(c, v, w) for v, w in zip(hi.args, lo.args)])
        if a.op == 'lt0' and numericish(hi) and numericish(lo):
            d = psub(P(hi), P(lo))
            if d and len(d) <= 6:
                p = P(a.args[0])
                k = proportional(d, p)
                if k is not None:
                    # hi - lo = k p:  lo + k*min(p,0)
                    return from_poly(padd(P(lo), pscale(P(relu(p)), k)))
    return mk('ite', a, hi, lo)


def numericish(t):
    return t.op in ('num', 'poly', 'attr', 'idx', 'call', 'sym', 'sum', 'vcall', 'min0', 'mu', 'ix', 'len', 'fold', 'first')


def ite(c, t, e):
    if c is TRUE or t is e:
        return t
    if c is FALSE:
        return e
    if c.op != 'ite':
        raise AssertionError('not a condition: %r' % (c,))
    key = (c, t, e)
    r = _ite.get(key)
    if r is not None:
        return r
    tick()
    a = c.args[0]
    for x in (t, e):
        if x.op == 'ite' and x.args[0].dig < a.dig:
            a = x.args[0]
    c1, c0 = cof(c, a)
    t1, t0 = cof(t, a)
    e1, e0 = cof(e, a)
    r = atom_node(a, ite(c1, t1, e1), ite(c0, t0, e0))
    _ite[key] = r
    return r


def cof(t, a):
    if t.op == 'ite' and t.args[0] is a:
        return t.args[1], t.args[2]
    return t, t


assumed = {}        # conditions on the initial state fixed in the case looked at


def assume(d):
    assumed.clear()
    assumed.update(d)
    _lift.clear()


def atom(a):
    if assumed and a in assumed:
        return assumed[a]
    return mk('ite', a, TRUE, FALSE)


def NOT(c):
    return ite(c, FALSE, TRUE)


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


_lift = {}


def lift(name, f, *args):
    """apply the ground function f over the diagrams of its arguments"""
    if all(x.op != 'ite' for x in args):
        return f(*args)
    key = (name, args)
    r = _lift.get(key)
    if r is not None:
        return r
    tick()
    a = None
    for x in args:
        if x.op == 'ite' and (a is None or x.args[0].dig < a.dig):
            a = x.args[0]
    his, los = [], []
    for x in args:
        h, l = cof(x, a)
        his.append(h)
        los.append(l)
    r = ite(mk('ite', a, TRUE, FALSE), lift(name, f, *his), lift(name, f, *los))
    _lift[key] = r
    return r


_constr = {}


def constrain(f, c):
    """generalised cofactor: depends only on the values of f where c holds"""
    if c is TRUE or c is FALSE:
        return f
    if f.op in CONT:
        if f.op == 'dict':
            return mk('dict', *[(k, constrain(v, c)) for k, v in f.args])
        return mk(f.op, *[constrain(v, c) for v in f.args])
    if f.op != 'ite':
        return f
    key = (f, c)
    r = _constr.get(key)
    if r is not None:
        return r
    tick()
    a = c.args[0] if f.args[0].dig > c.args[0].dig else f.args[0]
    c1, c0 = cof(c, a)
    f1, f0 = cof(f, a)
    if c1 is FALSE:
        r = constrain(f0, c0)
    elif c0 is FALSE:
        r = constrain(f1, c1)
    else:
        r = ite(mk('ite', a, TRUE, FALSE), constrain(f1, c1), constrain(f0, c0))
    _constr[key] = r
    return r


def leaves(t):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            st += [x.args[1], x.args[2]]
        else:
            out.append(x)
    return out


# -------------------------------------------------------------------------------------------------- polynomials
def P(t):
    """term -> {monomial: coef}"""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args)
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


def mkey(m):
    return tuple((a.dig, e) for a, e in m)


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', *sorted(p.items(), key=lambda mc: mkey(mc[0])))


def padd(p, q):
    r = dict(p)
    for m, c in q.items():
        c2 = r.get(m, 0) + c
        if c2:
            r[m] = c2
        else:
            r.pop(m, None)
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def psub(p, q):
    return padd(p, pscale(q, Fraction(-1)))


def mono_mul(m, n):
    """product of monomials -> polynomial (sqrt atoms are reduced)"""
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    extra = None
    for a in list(d):
        if d[a] == 0:
            del d[a]
        elif a.op == 'call' and a.args[0] == 'sqrt' and abs(d[a]) >= 2:
            e = d[a]
            k = e // 2 if e > 0 else -((-e) // 2)
            r = e - 2 * k
            if r:
                d[a] = r
            else:
                del d[a]
            f = ppow(P(a.args[1]), k)
            extra = f if extra is None else pmul(extra, f)
    mono = tuple(sorted(d.items(), key=lambda ae: (ae[0].dig, ae[1])))
    r = {mono: Fraction(1)}
    return r if extra is None else pmul(r, extra)


def pmul(p, q):
    tick(len(p) * len(q))
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            if not m or not n:
                mm = m or n
                r[mm] = r.get(mm, 0) + c * d
            else:
                for mm, k in mono_mul(m, n).items():
                    r[mm] = r.get(mm, 0) + c * d * k
    return {m: c for m, c in r.items() if c}


def ppow(p, n):
    if n < 0:
        return ppow(pinv(p), -n)
    r = {(): Fraction(1)}
    for _ in range(n):
        r = pmul(r, p)
    return r


def pinv(p):
    if not p:
        return {((mk('divzero'), 1),): Fraction(1)}
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -e) for a, e in m): 1 / c}
    k = lead(p)
    s = mk('psum', from_poly(pscale(p, 1 / k)))
    return {((s, -1),): 1 / k}


def lead(p):
    """coefficient of the first non-constant monomial"""
    ms = sorted((m for m in p if m), key=mkey)
    return p[ms[0]] if ms else p.get((), Fraction(0))


def proportional(p, q):
    if len(p) != len(q) or not q:
        return None
    k = None
    for m, c in q.items():
        if m not in p:
            return None
        r = p[m] / c
        if k is None:
            k = r
        elif k != r:
            return None
    return k


def is_const(p):
    return all(m == () for m in p)


def const(p):
    return p.get((), Fraction(0))


def relu(p):
    """the term min(p, 0) for a polynomial p"""
    if is_const(p):
        return num(min(const(p), Fraction(0)))
    k = lead(p)
    if k < 0:
        # min(-q,0) = min(q,0) - q
        q = pscale(p, Fraction(-1))
        return from_poly(psub(P(relu(q)), q))
    if k != 1:
        return from_poly(pscale(P(relu(pscale(p, 1 / k))), k))
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'min0':
            r = P(m[0][0].args[0])
            rest = psub(p, {m: c})
            if is_const(rest):
                K = const(rest)
                if c > 0:
                    if K <= 0:
                        return from_poly(p)
                    return relu(padd(pscale(r, c), {(): K}))
                if K >= 0:
                    return ZERO
            rr = padd(rest, pscale(r, c))      # rest = -c r + K ?
            if is_const(rr):
                K = const(rr)
                if c < 0:
                    if K >= 0:
                        return ZERO
                    s = pscale(r, -c)
                    return from_poly(psub(P(relu(padd(s, {(): K}))), P(relu(s))))
                if K <= 0:
                    return from_poly(p)
                return relu(padd(pscale(r, -c), {(): K}))
    if nonneg(p):
        return ZERO
    return mk('min0', from_poly(p))


def nonneg(p):
    """syntactic non-negativity: every monomial is an even power / absolute value / square root with coef > 0"""
    rest = dict(p)
    # fold |x| = x - 2 min(x,0)
    for m, c in list(p.items()):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'min0' and c < 0:
            q = P(m[0][0].args[0])
            if is_const(psub(q, {k: v for k, v in q.items() if k != ()})) or True:
                rest2 = psub(rest, {m: c})
                # c*min(q,0) with c<0 contributes >= 0
                rest = rest2
                # |q| needs (-c/2)*q present: otherwise the remaining part must be nonneg by itself
                s = pscale(q, -c / 2)
                if all(rest.get(mm) == cc for mm, cc in s.items()):
                    rest = psub(rest, s)
    for m, c in rest.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not (a.op == 'call' and a.args[0] in ('sqrt', 'exp')) and not a.op == 'len' \
                    and not (a.op == 'sym' and a.args[0] == 'pi'):
                return False
    return True


def _arith_arg(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return t


def vecwise(name, f, a, b):
    if a.op == 'vec' and b.op == 'vec':
        if len(a.args) == len(b.args):
            return mk('vec', *[f(x, y) for x, y in zip(a.args, b.args)])
        return mk('call', name, a, b)
    if a.op == 'vec':
        return mk('vec', *[f(x, b) for x in a.args])
    return mk('vec', *[f(a, y) for y in b.args])


def _add(a, b):
    if a.op == 'vec' or b.op == 'vec':
        if (a.op in ('list', 'tuple') or b.op in ('list', 'tuple')):
            a, b = tovec(a), tovec(b)
        return vecwise('add', add, a, b)
    if a.op == 'str' and b.op == 'str':
        return strc(a.args[0] + b.args[0])
    if a.op == b.op and a.op in ('list', 'tuple'):
        return mk(a.op, *(a.args + b.args))
    if a.op in ('list', 'tuple', 'mapf', 'concat', 'flatmap') or b.op in ('list', 'tuple', 'mapf', 'concat', 'flatmap'):
        return concat(a, b)
    if is_text(a) or is_text(b):
        return fstr([a, b])
    if a.op == 'none' or b.op == 'none':
        return mk('call', 'add', a, b)
    return from_poly(padd(P(_arith_arg(a)), P(_arith_arg(b))))


def is_text(t):
    return t.op == 'str' or t.op == 'call' and t.args[0] == 'fstr'


def fstr(parts):
    """text made of literal and formatted parts: '..{}'.format(x), f'..{x}', '..%s' % x and '..' + str(x) are one value"""
    flat = []
    for x in parts:
        for y in x.args[1:] if x.op == 'call' and x.args[0] == 'fstr' else [x]:
            if y.op == 'str' and flat and flat[-1].op == 'str':
                flat[-1] = strc(flat[-1].args[0] + y.args[0])
            elif not (y.op == 'str' and not y.args[0]):
                flat.append(y)
    if not flat:
        return strc('')
    if len(flat) == 1 and flat[0].op == 'str':
        return flat[0]
    return mk('call', 'fstr', *flat)


def concat(a, b):
    xs = list(a.args) if a.op == 'concat' else [a]
    ys = list(b.args) if b.op == 'concat' else [b]
    xs = [x for x in xs if not (x.op in ('list', 'tuple') and not x.args)]
    ys = [y for y in ys if not (y.op in ('list', 'tuple') and not y.args)]
    if not xs:
        return ys[0] if len(ys) == 1 else (mk('concat', *ys) if ys else mk('list'))
    if not ys:
        return xs[0] if len(xs) == 1 else mk('concat', *xs)
    if xs[-1].op == 'list' and ys[0].op == 'list':
        z = mk('list', *(xs[-1].args + ys[0].args))
        xs, ys = xs[:-1], [z] + ys[1:]
    r = xs + ys
    return r[0] if len(r) == 1 else mk('concat', *r)


def tovec(a):
    if a.op in ('list', 'tuple'):
        return mk('vec', *[tovec(x) if x.op in ('list', 'tuple') else x for x in a.args])
    return a


def add(a, b):
    return lift('add', _add, a, b)


def _mul(a, b):
    if a.op in ('list', 'tuple') and b.op == 'num' or b.op in ('list', 'tuple') and a.op == 'num':
        l, n = (a, b) if a.op in ('list', 'tuple') else (b, a)
        k = int(n.args[0]) if n.args[0].denominator == 1 else 99
        if k <= 8:
            return mk(l.op, *(l.args * k))
        return mk('call', 'repeat', l, n)
    if a.op == 'vec' or b.op == 'vec':
        return vecwise('mul', mul, tovec(a), tovec(b))
    if a.op in ('list', 'tuple', 'str', 'concat', 'mapf') or b.op in ('list', 'tuple', 'str', 'concat', 'mapf'):
        return mk('call', 'repeat', a, b)
    return from_poly(pmul(P(_arith_arg(a)), P(_arith_arg(b))))


def mul(a, b):
    return lift('mul', _mul, a, b)


MINUS1 = num(-1)


def neg(a):
    return mul(MINUS1, a)


def sub(a, b):
    return add(a, lift('negx', _negx, b))


def _negx(b):
    if b.op in ('list', 'tuple'):
        b = tovec(b)
    return mul(MINUS1, b)


def _div(a, b):
    if a.op in ('vec', 'list', 'tuple') or b.op in ('vec', 'list', 'tuple'):
        return vecwise('div', div, tovec(a), tovec(b))
    return from_poly(pmul(P(_arith_arg(a)), pinv(P(_arith_arg(b)))))


def div(a, b):
    return lift('div', _div, a, b)


def _pow(a, b):
    if a.op == 'vec':
        return mk('vec', *[power(x, b) for x in a.args])
    if b.op == 'num':
        e = b.args[0]
        if e.denominator == 1 and abs(e) <= 6:
            return from_poly(ppow(P(_arith_arg(a)), int(e)))
        if e == Fraction(1, 2):
            return call1('sqrt', a)
    return mk('call', 'pow', a, b)


def power(a, b):
    return lift('pow', _pow, a, b)


ODD = ('sin', 'tan', 'arctan', 'arcsin', 'sinh', 'tanh', 'cbrt', 'sign')
EVEN = ('cos', 'cosh')


POINTWISE = ODD + EVEN + ('arccos', 'exp', 'log', 'sqrt', 'abs', 'floor', 'ceil', 'round', 'int', 'rint', 'trunc', 'radians',
                         'degrees', 'deg2rad', 'rad2deg', 'isnan', 'log2', 'log10', 'log1p', 'expm1', 'square')


def _call1(fn, a):
    if a.op == 'vec' and fn.split('.')[-1] in POINTWISE:
        return mk('vec', *[call1(fn, x) for x in a.args])
    if a.op in ('poly', 'num') and (fn in ODD or fn in EVEN):
        p = P(a)
        if not p:
            return ONE if fn in EVEN else ZERO
        if (lead(p) if not is_const(p) else const(p)) < 0:
            r = mk('call', fn, from_poly(pscale(p, Fraction(-1))))
            return r if fn in EVEN else neg(r)
    if fn == 'sqrt' and a.op == 'num' and a.args[0] >= 0:
        import math
        n, d = a.args[0].numerator, a.args[0].denominator
        if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return num(Fraction(math.isqrt(n), math.isqrt(d)))
    if fn == 'exp' and a is ZERO:
        return ONE
    return mk('call', fn, a)


def call1(fn, a):
    return lift('call1:' + fn, lambda x: _call1(fn, x), a)


def call(fn, *args):
    return lift('call:' + fn, lambda *xs: mk('call', fn, *xs), *args)


def minimum(a, b):
    return add(b, lift('relu', lambda x: vrelu(x), sub(a, b)))


def maximum(a, b):
    return sub(a, lift('relu', lambda x: vrelu(x), sub(a, b)))


def vrelu(x):
    if x.op == 'vec':
        return mk('vec', *[lift('relu', vrelu, y) for y in x.args])
    return relu(P(_arith_arg(x)))


def absolute(a):
    return sub(a, mul(num(2), lift('relu', vrelu, a)))


# ------------------------------------------------------------------------------------------------ boolean atoms
def _lt(a, b):
    if a.op == 'vec' or b.op == 'vec':
        return vecwise('lt', lt, tovec(a), tovec(b))
    if a.op == 'str' and b.op == 'str':
        return boolc(a.args[0] < b.args[0])
    p = psub(P(_arith_arg(a)), P(_arith_arg(b)))
    if is_const(p):
        return boolc(const(p) < 0)
    # infinities
    for s, o in ((a, b), (b, a)):
        if s.op == 'sym' and s.args[0] == 'inf' and o.op == 'num':
            return boolc(s is b)
    k = abs(lead(p))
    p = pscale(p, 1 / k)
    if lead(p) > 0 and nonneg(p):
        return FALSE
    if len(p) <= 2:
        m = next(m for m in p if m)
        if len(m) == 1 and m[0][0].op == 'len' and m[0][1] == 1:
            if p == {m: -1}:
                return truthy(m[0][0].args[0])
            if p == {m: 1, (): -1}:
                return NOT(truthy(m[0][0].args[0]))
    if lead(p) < 0 and all(y.op == 'len' for m in p for y, _ in m) and all(c == int(c) for c in p.values()):
        q = psub({(): -1}, p)       # integers: p < 0 unless -p - 1 < 0
        return NOT(atom(mk('lt0', from_poly(q))))
    return atom(mk('lt0', from_poly(p)))


def lt(a, b):
    return lift('lt', _lt, a, b)


def le(a, b):
    return lift('le', _le, a, b)


def _le(a, b):
    if a.op == 'vec' or b.op == 'vec':
        return vecwise('le', le, tovec(a), tovec(b))
    return NOT(_lt(b, a))


NOEQ = ('str', 'none', 'tuple', 'list', 'dict', 'cls', 'obj', 'func')


def _eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'vec' or b.op == 'vec':
        if a.op in ('vec', 'list', 'tuple', 'num', 'attr', 'idx', 'call', 'poly', 'sym', 'vcall') and \
                b.op in ('vec', 'list', 'tuple', 'num', 'attr', 'idx', 'call', 'poly', 'sym', 'vcall'):
            return vecwise('eq', eq, tovec(a), tovec(b))
        return FALSE
    consts = ('num', 'str', 'none', 'bool')
    if a.op in consts and b.op in consts:
        if a.op == 'bool' or b.op == 'bool':
            x, y = _arith_arg(a), _arith_arg(b)
            return boolc(x is y)
        return boolc(a is b)
    if a.op == 'tuple' and b.op == 'tuple' or a.op == 'list' and b.op == 'list':
        if len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = AND(r, eq(x, y))
        return r
    for x, y in ((a, b), (b, a)):
        if y.op == 'tuple' and x.op in ('attr', 'idx', 'call', 'vcall', 'sym', 'ix', 'first', 'fold'):
            # unknown value against a tuple display: compare length and components
            r = atom(mk('arity', x, num(len(y.args))))
            for i, c in enumerate(y.args):
                r = AND(r, eq(index(x, num(i)), c))
            return r
    if a.op in ('bool',) or b.op in ('bool',):
        a, b = _arith_arg(a), _arith_arg(b)
    if a.op in NOEQ or b.op in NOEQ:
        if a.op in ('cls', 'func', 'obj') and b.op in ('cls', 'func', 'obj'):
            return FALSE
        if b.dig < a.dig:
            a, b = b, a
        return atom(mk('eq', a, b))
    p = psub(P(a), P(b))
    if is_const(p):
        return boolc(const(p) == 0)
    p = pscale(p, 1 / lead(p))
    if len(p) == 1:
        m = next(iter(p))
        if len(m) == 1 and m[0][0].op == 'len' and m[0][1] == 1:
            return NOT(truthy(m[0][0].args[0]))
    return atom(mk('eq0', from_poly(p)))


def eq(a, b):
    return lift('eq', _eq, a, b)


def _isnone(a):
    if a.op == 'idx' and a.args[0].op in ('list', 'tuple') and a.args[0].args and a.args[1].op != 'slice' and \
            all(x.op in ('str', 'num', 'list', 'tuple', 'dict', 'vec') for x in a.args[0].args):
        return FALSE
    if a is NONE:
        return TRUE
    if a.op == 'idx' and a.args[0].op == 'poly' and a.args[1].op == 'num':      # an element of an array
        return FALSE
    if a.op in ('num', 'poly', 'str', 'bool', 'vec', 'tuple', 'list', 'dict', 'cls', 'obj', 'func', 'bound', 'lam',
                'mapf', 'concat', 'flatmap', 'sum', 'new', 'fold_list', 'ix'):
        return FALSE
    if a.op == 'sym' and a.args[0].endswith(' given'):      # a parameter, in the case that it is passed
        return FALSE
    return atom(mk('isnone', a))


def isnone(a):
    return lift('isnone', _isnone, a)


def _is(a, b):
    if a is b:
        return TRUE
    if a is NONE or b is NONE:
        return _isnone(a if b is NONE else b)
    if a.op in ('bool',) and b.op in ('bool',):
        return FALSE
    if a.op in ('cls', 'func', 'obj') and b.op in ('cls', 'func', 'obj'):
        return FALSE
    if a.op == 'bool' or b.op == 'bool':
        return eq(a, b)
    if b.dig < a.dig:
        a, b = b, a
    return atom(mk('is', a, b))


def is_(a, b):
    return lift('is', _is, a, b)


# hooks set by the interpreter: is this ground term object-typed (truthy iff not None) / boolean typed?
is_object = [lambda t: False]


def _truthy(a):
    if a.op == 'bool':
        return a
    if a.op == 'num':
        return boolc(a.args[0] != 0)
    if a is NONE:
        return FALSE
    if a.op == 'str':
        return boolc(a.args[0] != '')
    if a.op in ('tuple', 'list', 'dict'):
        return boolc(len(a.args) > 0)
    if a.op in ('cls', 'obj', 'func', 'bound', 'lam', 'new'):
        return TRUE
    if a.op == 'len':
        return _truthy(a.args[0])
    if a.op == 'poly' or a.op in ('sum', 'min0'):
        return NOT(eq(a, ZERO))
    if a.op == 'mapf':
        return mk_any(a.args[0], a.args[1])
    if a.op == 'concat':
        r = FALSE
        for x in a.args:
            r = OR(r, truthy(x))
        return r
    if is_object[0](a):
        return NOT(_isnone(a))
    return atom(mk('truthy', a))


def truthy(a):
    return lift('truthy', _truthy, a)


def mk_any(dom, cond):
    if cond is FALSE:
        return FALSE
    if cond is TRUE:
        return truthy(dom)if dom.op not in ('range',) else lt(ZERO, dom.args[1])
    return atom(mk('any', dom, cond))


def _index(o, k):
    if k.op == 'tuple' and len(k.args) > 1 and all(x.op == 'num' for x in k.args) and o.op not in ('dict', 'vcall') and \
            not (o.op == 'call' and o.args[0] == 'put'):        # x[i, j]: the array element x[i][j]
        for x in k.args:
            o = index(o, x)
        return o
    if o.op in ('vec', 'tuple', 'list') and k.op == 'num' and k.args[0].denominator == 1:
        i = int(k.args[0])
        if -len(o.args) <= i < len(o.args):
            return o.args[i]
        return mk('raise', 'IndexError')
    if o.op == 'dict':
        for kk, v in o.args:
            if kk is k:
                return v
        if k.op in ('str', 'num', 'none') and all(kk.op in ('str', 'num', 'none') for kk, _ in o.args):
            return mk('raise', 'KeyError')
        if all(kk.op in ('str', 'num', 'none') for kk, _ in o.args) and len(o.args) <= 12:
            r = mk('raise', 'KeyError')
            for kk, v in o.args:
                r = ite(eq(k, kk), v, r)
            return r
    if o.op == 'vec' and k.op == 'slice':
        return slice_(o, k)
    if o.op in ('list', 'tuple') and k.op == 'slice':
        return slice_(o, k)
    if o.op == 'idx' and o.args[1].op == 'slice' and k.op == 'num' and k.args[0].denominator == 1 and k.args[0] >= 0 and \
            o.args[1].args[0] is NONE and o.args[1].args[2] is NONE and o.args[1].args[1].op == 'num' and \
            o.args[1].args[1].args[0] > k.args[0]:
        return index(o.args[0], k)
    if o.op == 'idx' and o.args[1].op == 'list' and o.args[1].args and k.op == 'num' and k.args[0].denominator == 1 and \
            all(x.op == 'num' for x in o.args[1].args):         # x[[i, j]][0] is x[i]
        i = int(k.args[0])
        n = len(o.args[1].args)
        return index(o.args[0], o.args[1].args[i]) if -n <= i < n else mk('raise', 'IndexError')
    if o.op == 'raise':
        return o
    if o.op == 'call' and o.args[0] == 'put' and len(o.args) == 4:
        if o.args[2] is k:
            return o.args[3]
        if k.op in ('str', 'num') and o.args[2].op in ('str', 'num') and \
                not (k.op == 'num' and (k.args[0] < 0 or o.args[2].op == 'num' and o.args[2].args[0] < 0)):
            return index(o.args[1], k)
    if o.op == 'vec' and k.op == 'tuple' and len(k.args) >= 1:
        a = index(o, k.args[0])
        rest = None if len(k.args) == 1 else mk('tuple', *k.args[1:]) if len(k.args) > 2 else k.args[1]
        if rest is None:
            return a
        if k.args[0].op == 'slice':         # the rest selects within every row
            return mk('vec', *[index(x, rest) for x in a.args]) if a.op == 'vec' else mk('idx', o, k)
        return index(a, rest)
    return mk('idx', o, k)


def slice_(o, k):
    a, b, c = k.args

    def v(x):
        if x is NONE:
            return None
        if x.op == 'num' and x.args[0].denominator == 1:
            return int(x.args[0])
        raise KeyError
    try:
        return mk(o.op, *o.args[slice(v(a), v(b), v(c))])
    except KeyError:
        return mk('idx', o, k)


def index(o, k):
    return lift('index', _index, o, k)


# --------------------------------------------------------------------------------------------------- rebuilding
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            _collect(a, st)
    return seen


def _collect(a, st):
    if isinstance(a, T):
        st.append(a)
    elif isinstance(a, tuple):
        for b in a:
            _collect(b, st)


_occ = {}


def free_tmps(t):
    """temporary symbols (op 'tmp') occurring in t"""
    r = _occ.get(t)
    if r is None:
        if t.op == 'tmp':
            r = frozenset([t])
        else:
            s = set()
            for a in t.args:
                _ft(a, s)
            r = frozenset(s)
        _occ[t] = r
    return r


def _ft(a, s):
    if isinstance(a, T):
        s |= free_tmps(a)
    elif isinstance(a, tuple):
        for b in a:
            _ft(b, s)


_hgt = {}


def height(t):
    """1 + the largest binder level used in t (0 when it binds nothing)"""
    r = _hgt.get(t)
    if r is None:
        r = 0
        if t.op in ('ix', 'mu'):
            r = t.args[0] + 1
        for a in t.args:
            r = max(r, _h(a))
        _hgt[t] = r
    return r


def _h(a):
    if isinstance(a, T):
        return height(a)
    if isinstance(a, tuple):
        return max([_h(b) for b in a] or [0])
    return 0


def subst(t, m, memo=None):
    """replace temporaries / terms by the map m, rebuilding canonical forms"""
    memo = {} if memo is None else memo
    keys = set(m)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif not hits(x):
            r = x
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    go.m = m
    hm = {}

    def hits(x):
        r = hm.get(x)
        if r is None:
            r = x in keys or any(_any(a, hits) for a in x.args)
            hm[x] = r
        return r
    return go(t)


def _any(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return any(_any(b, f) for b in a)
    return False


def live_state(vs):
    """entries of a call's observed heap that say nothing (initial version, initial value) dropped"""
    vs = [z for z in vs if z[1] is not ZERO]
    ver = {z[0] for z in vs if not (z[1].op == 'tuple' and len(z[1].args) == 2)}
    return tuple(z for z in vs if z[0] in ver or not (
        z[1].args[1].op == 'attr' and z[1].args[1].args == (z[1].args[0], z[0])))


def rebuild(x, go):
    op, a = x.op, x.args
    if op == 'ite':
        c = getattr(go, 'm', {}).get(a[0])
        if c is TRUE or c is FALSE:
            return go(a[1] if c is TRUE else a[2])
        return ite(go_atom(a[0], go), go(a[1]), go(a[2]))
    if op == 'poly':
        r = ZERO
        for m, c in a:
            p = mk('num', c)
            for at, e in m:
                g = go(at)
                if e > 0:
                    for _ in range(e):
                        p = mul(p, g)
                else:
                    for _ in range(-e):
                        p = div(p, g)
            r = add(r, p)
        return r
    if op == 'psum':
        return go(a[0])
    if op == 'min0':
        return lift('relu', vrelu, go(a[0]))
    if op in ('attr',):
        return lift('attr', lambda o, *r: mk('attr', o, a[1], *r), go(a[0]), *[go(z) for z in a[2:]])
    if op == 'idx':
        return index(go(a[0]), go(a[1]))
    if op == 'call':
        if len(a) == 2 and isinstance(a[1], T):
            return call1(a[0], go(a[1]))
        if a[0] == 'pow':
            return power(go(a[1]), go(a[2]))
        return call(a[0], *[go(z) for z in a[1:]])
    if op == 'dict':
        return mk('dict', *[(go(k), go(v)) for k, v in a])
    if op in CONT:
        return mk(op, *[go(z) for z in a])
    if op == 'concat':
        r = None
        for z in a:
            r = go(z) if r is None else lift('concat', concat, r, go(z))
        return r
    if op in ('lt0', 'eq0', 'eq', 'is', 'isnone', 'truthy', 'isinst', 'in', 'any', 'raises', 'hasattr', 'battr'):
        raise AssertionError('bare atom in value position')
    if op == 'vcall' and len(a) > 3 and isinstance(a[3], tuple):
        vs = live_state(_map(a[3], go))
        z = [_map(z, go) for z in a[:3]]
        return mk(op, *z, vs) if vs else mk(op, *z)
    if op in ('mapf', 'flatmap', 'sum', 'first', 'fold', 'foreach', 'mapd', 'trace', 'eff', 'vcall', 'len', 'range', 'zip',
              'slice', 'bound', 'new', 'ver', 'item'):
        return mk(op, *[_map(z, go) for z in a])
    return mk(op, *[_map(z, go) for z in a])


def _map(z, go):
    if isinstance(z, T):
        return go(z)
    if isinstance(z, tuple):
        return tuple(_map(y, go) for y in z)
    return z


def go_atom(x, go):
    op, a = x.op, x.args
    if op == 'lt0':
        return lt(go(a[0]), ZERO)
    if op == 'eq0':
        return eq(go(a[0]), ZERO)
    if op == 'eq':
        return eq(go(a[0]), go(a[1]))
    if op == 'is':
        return is_(go(a[0]), go(a[1]))
    if op == 'isnone':
        return isnone(go(a[0]))
    if op == 'truthy':
        return truthy(go(a[0]))
    if op == 'any':
        return lift('any', lambda d: mk_any(d, go(a[1])), go(a[0]))
    return lift('atom:' + op, lambda *xs: atom(mk(op, *fill(a, xs))), *[go(z) for z in a if isinstance(z, T)])


def fill(a, xs):
    it = iter(xs)
    return [next(it) if isinstance(z, T) else z for z in a]


# ------------------------------------------------------------------------------------------------------- display
def show(t, d=0):
    op, a = t.op, t.args
    if d > 14:
        return '…'
    s = lambda x: show(x, d + 1)
    if op == 'num':
        f = a[0]
        return str(f.numerator) if f.denominator == 1 else ('%g' % float(f) if abs(float(f)) < 1e6 else str(f))
    if op == 'bool':
        return str(a[0])
    if op == 'none':
        return 'None'
    if op == 'str':
        return repr(a[0])
    if op in ('sym', 'tmp'):
        return str(a[0])
    if op == 'ix':
        return 'i%d' % a[0]
    if op == 'mu':
        return 'mu%d.%d' % a[:2]
    if op == 'attr':
        return s(a[0]) + '.' + a[1] + ("'" if len(a) > 2 else '')
    if op == 'idx':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'poly':
        out = []
        for m, c in a:
            ms = '*'.join(s(x) + ('^%d' % e if e != 1 else '') for x, e in m)
            cs = show(mk('num', c))
            out.append(cs if not m else (ms if c == 1 else '-' + ms if c == -1 else cs + '*' + ms))
        return '(' + ' + '.join(out).replace('+ -', '- ') + ')'
    if op == 'min0':
        return 'min(%s,0)' % s(a[0])
    if op == 'ite':
        return '(%s if %s else %s)' % (s(a[1]), s(a[0]), s(a[2])) if not (a[1] is TRUE and a[2] is FALSE) \
            else '[%s]' % s(a[0])
    if op == 'lt0':
        return s(a[0]) + '<0'
    if op == 'eq0':
        return s(a[0]) + '==0'
    if op == 'vec':
        return 'vec(' + ', '.join(map(s, a)) + ')'
    if op == 'list':
        return '[' + ', '.join(map(s, a)) + ']'
    if op == 'tuple':
        return '(' + ', '.join(map(s, a)) + ',)'
    if op == 'dict':
        return '{' + ', '.join('%s: %s' % (s(k), s(v)) for k, v in a) + '}'
    if op == 'call':
        return '%s(%s)' % (a[0], ', '.join(_sh(x, d) for x in a[1:]))
    return '%s(%s)' % (op, ', '.join(_sh(x, d) for x in a))


def _sh(x, d):
    if isinstance(x, T):
        return show(x, d + 1)
    if isinstance(x, tuple):
        return '<' + ', '.join(_sh(y, d) for y in x) + '>'
    return str(x)
