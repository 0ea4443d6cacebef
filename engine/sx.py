"""Symbolic scalars, path exploration and the prover.

Numbers of the executed program are python ints, Fractions (every float literal of the
source is read as the exact rational it is written as), IX (integer polynomials over
symbolic integers: sizes, indices, counters) or SR (z3 real terms).  Conditions are python
bools or SB (z3 bools); using an SB as a truth value forks the path."""
import math, time, itertools, subprocess, os, sys
from fractions import Fraction
import z3

z3.set_param('model.completion', True)


class EngineStop(BaseException):
    pass


class Unsupported(EngineStop):
    """the engine cannot execute or decide this: the contract falls back to its bounded stand-in"""


class NoFork(EngineStop): pass


class PathEnd(EngineStop):
    """this path is infeasible or was explored only for its obligations"""


# ---------------------------------------------------------------- integer polynomials
_ATOM = {}          # atom name -> z3 Int term
_ATOM_OF = {}       # z3 ast id -> (atom name, term)


def ix_atom(term, name=None):
    k = term.get_id()
    if k in _ATOM_OF:
        return IX({(_ATOM_OF[k][0],): 1})
    if name is None:
        name = '@%d' % len(_ATOM_OF)
    _ATOM[name] = term
    _ATOM_OF[k] = (name, term)
    return IX({(name,): 1})


def ix_var(name):
    return ix_atom(z3.Int(name), name)


def _norm(d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return 0
    if len(d) == 1 and () in d:
        return d[()]
    return IX(d)


def poly(x):
    if isinstance(x, IX):
        return x.d
    if isinstance(x, bool):
        return {(): int(x)} if x else {}
    if isinstance(x, int):
        return {(): x} if x else {}
    raise Unsupported('integer expected, got %s' % type(x).__name__)


class IX:
    __slots__ = ('d', '_z', '_k')
    __array_priority__ = 1000

    def __init__(self, d):
        self.d = d
        self._z = None
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def z(self):
        if self._z is None:
            ts = []
            for m, c in self.key():
                t = None
                for a in m:
                    t = _ATOM[a] if t is None else t * _ATOM[a]
                if t is None:
                    ts.append(z3.IntVal(c))
                else:
                    ts.append(t if c == 1 else z3.IntVal(c) * t)
            self._z = ts[0] if len(ts) == 1 else z3.Sum(ts)
        return self._z

    def __add__(s, o):
        if isinstance(o, (IX, int)):
            d = dict(s.d)
            for k, v in poly(o).items():
                d[k] = d.get(k, 0) + v
            return _norm(d)
        if isinstance(o, (Fraction, float, SR)):
            return SR(zr(s)) + o
        return NotImplemented
    __radd__ = __add__

    def __neg__(s):
        return _norm({k: -v for k, v in s.d.items()})

    def __pos__(s):
        return s

    def __sub__(s, o):
        if isinstance(o, (IX, int)):
            return s + (-o)
        if isinstance(o, (Fraction, float, SR)):
            return SR(zr(s)) - o
        return NotImplemented

    def __rsub__(s, o):
        return (-s) + o

    def __mul__(s, o):
        if isinstance(o, (IX, int)):
            d = {}
            for k, v in s.d.items():
                for k2, v2 in poly(o).items():
                    kk = tuple(sorted(k + k2))
                    d[kk] = d.get(kk, 0) + v * v2
            return _norm(d)
        if isinstance(o, (Fraction, float, SR)):
            return SR(zr(s)) * o
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(s, o):
        return div(s, o)

    def __rtruediv__(s, o):
        return div(o, s)

    def __floordiv__(s, o):
        return ix_divmod(s, o)[0] if isinstance(o, (IX, int)) else NotImplemented

    def __mod__(s, o):
        return ix_divmod(s, o)[1] if isinstance(o, (IX, int)) else NotImplemented

    def __rfloordiv__(s, o):
        return ix_divmod(o, s)[0]

    def __rmod__(s, o):
        return ix_divmod(o, s)[1]

    def __pow__(s, o):
        return pow_(s, o)

    def __abs__(s):
        return sel(s >= 0, s, -s)

    def __lt__(s, o): return cmp_(s, o, '<')
    def __le__(s, o): return cmp_(s, o, '<=')
    def __gt__(s, o): return cmp_(s, o, '>')
    def __ge__(s, o): return cmp_(s, o, '>=')

    def __eq__(s, o):
        if isinstance(o, (IX, SR, int, Fraction, float)):
            return cmp_(s, o, '==')
        return NotImplemented

    def __ne__(s, o):
        if isinstance(o, (IX, SR, int, Fraction, float)):
            return not_(cmp_(s, o, '=='))
        return NotImplemented

    def __hash__(s):
        return hash(s.key())

    def __bool__(s):
        return bool(s != 0)

    def __index__(s):
        raise Unsupported('symbolic integer used where a concrete one is needed')

    def __float__(s):
        raise Unsupported('native float() of a symbolic integer')

    def __format__(s, spec):
        return '<sym>'

    def __repr__(s):
        return 'IX(%s)' % s.z()

    def item(s):
        return s


def _mono_div(m, w):
    """monomial m / w (tuples of atom names) or None"""
    m = list(m)
    for a in w:
        if a in m:
            m.remove(a)
        else:
            return None
    return tuple(m)


def ix_split(t, w):
    """t = q*w + r with q collecting every term divisible by the single-term weight w"""
    if isinstance(w, int):
        wm, wc = (), w
    else:
        if len(w.d) != 1: return ix_longdiv(t, w)
        (wm, wc), = w.d.items()
    q, r = {}, {}
    for m, c in poly(t).items():
        mm = _mono_div(m, wm)
        if mm is None:
            r[m] = c
            continue
        qq, rr = divmod(c, wc) if wc > 0 else (0, c)
        if qq:
            q[mm] = q.get(mm, 0) + qq
        if rr:
            r[m] = rr
    return _norm(q), _norm(r)


def ix_longdiv(t, w):
    """division by a weight of several terms, by its leading term"""
    top = max(len(m) for m in w.d)
    lead = [m for m in w.d if len(m) == top]
    if len(lead) != 1 or w.d[lead[0]] != 1: return None
    q, r = 0, t
    for _ in range(4):
        part = {}
        for m, c in poly(r).items():
            mm = _mono_div(m, lead[0])
            if mm is not None: part[mm] = part.get(mm, 0) + c
        part = _norm(part)
        if isinstance(part, int) and part == 0: break
        q, r = q + part, r - part * w
    return q, r


def ix_divmod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return divmod(a, b)
    s = ix_split(a, b)
    if s is not None:
        q, r = s
        if CTX.implied(and_(cmp_(r, 0, '>='), cmp_(r, b, '<'))):
            return q, r
    az, bz = zi(a), zi(b)
    if not CTX.implied(cmp_(b, 0, '>')):
        raise Unsupported('// or % by a possibly non-positive number')
    q = ix_atom(az / bz)
    return q, a - q * b


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x.z()


def digits(t, radices):
    """mixed-radix digits of the flat index t; checks 0 <= digit < radix"""
    n = len(radices)
    if n == 1:
        return (t,)
    w = [1] * n
    for k in range(n - 2, -1, -1):
        w[k] = w[k + 1] * radices[k + 1]
    out = []
    rest = t
    for k in range(n):
        if k == n - 1:
            q, rest = rest, 0
        elif isinstance(radices[k], int) and radices[k] == 1:
            q = 0
        else:
            s = ix_split(rest, w[k])
            if s is None:
                raise Unsupported('flat index with non-monomial weights')
            q, rest = s
        out.append(q)
    ok = True
    for q, r in zip(out, radices):
        ok = and_(ok, and_(cmp_(q, 0, '>='), cmp_(q, r, '<')))
    if ok is not True and not CTX.implied(ok):
        raise Unsupported('flat index is not a cell of the grid: %r' % (t,))
    return tuple(out)


def undigits(ds, radices):
    t = 0
    for d, r in zip(ds, radices):
        t = t * r + d
    return t


# ---------------------------------------------------------------- reals and bools
def zr(x):
    if isinstance(x, SR):
        return x.e
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, IX):
        x = CTX.pins.get(x.key(), x) if CTX.pins else x
        return z3.RealVal(x) if isinstance(x, int) else z3.ToReal(x.z())
    if isinstance(x, float):
        return z3.RealVal(str(fr(x)))
    if isinstance(x, SB):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    it = getattr(x, 'scalar', None)
    if it is not None:
        return zr(x.scalar())
    raise Unsupported('number expected, got %s' % type(x).__name__)


def fr(x):
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported('infinite or NaN constant')
        return Fraction(repr(x))
    return x


def native(x):
    return isinstance(x, (int, Fraction, float)) and not isinstance(x, bool)


class SR:
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(o, s)
    def __pow__(s, o): return pow_(s, o)
    def __rpow__(s, o): return pow_(o, s)
    def __neg__(s): return SR(-s.e)
    def __pos__(s): return s
    def __abs__(s): return sel(cmp_(s, 0, '>='), s, -s)
    def __lt__(s, o): return cmp_(s, o, '<')
    def __le__(s, o): return cmp_(s, o, '<=')
    def __gt__(s, o): return cmp_(s, o, '>')
    def __ge__(s, o): return cmp_(s, o, '>=')

    def __eq__(s, o):
        return cmp_(s, o, '==') if isinstance(o, NUM) else NotImplemented

    def __ne__(s, o):
        return not_(cmp_(s, o, '==')) if isinstance(o, NUM) else NotImplemented

    def __hash__(s):
        return s.e.get_id()

    def __bool__(s):
        return bool(cmp_(s, 0, '==').__invert__())

    def __float__(s):
        raise Unsupported('native float() of a symbolic number')

    def __int__(s):
        raise Unsupported('native int() of a symbolic number')

    def __format__(s, spec):
        return '<sym>'

    def __repr__(s):
        t = str(s.e)
        return 'SR(%s)' % (t if len(t) < 200 else t[:200] + '...')

    def item(s): return s
    def scalar(s): return s


NUM = (int, Fraction, float, IX, SR)


def _isT(o):
    return hasattr(o, '_is_tensor')


def add(a, b):
    if _isT(b) or not isinstance(b, NUM): return NotImplemented
    if not isinstance(a, NUM): return NotImplemented
    if native(a) and a == 0: return b
    if native(b) and b == 0: return a
    return SR(zr(a) + zr(b))


def sub(a, b):
    if _isT(b) or not isinstance(b, NUM): return NotImplemented
    if native(b) and b == 0: return a
    if native(a) and a == 0: return SR(-zr(b))
    x, y = zr(a), zr(b)
    if x.eq(y): return Fraction(0)
    return SR(x - y)


def mul(a, b):
    if _isT(b) or not isinstance(b, NUM): return NotImplemented
    for x, y in ((a, b), (b, a)):
        if native(x):
            if x == 0: return Fraction(0)
            if x == 1: return y
    return SR(zr(a) * zr(b))


def div(a, b):
    """true division"""
    if _isT(a) or _isT(b):
        return a.__truediv__(b) if _isT(a) else b.__rtruediv__(a)
    if hasattr(a, '_linvec'): return a / b
    if not isinstance(a, NUM) or not isinstance(b, NUM):
        if isinstance(a, NUM) or isinstance(b, NUM):
            f = getattr(type(b), '__rtruediv__', None)
            if f: return f(b, a)
            f = getattr(type(a), '__truediv__', None)
            if f: return f(a, b)
        return a / b
    if native(a) and native(b):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return Fraction(fr(a)) / Fraction(fr(b))
    if native(b):
        if b == 1: return a if isinstance(a, SR) else SR(zr(a))
        if b == 0: raise Unsupported('division by the constant 0')
        return SR(zr(a) * zr(1 / Fraction(fr(b))))
    if native(a) and a == 0: return Fraction(0)
    CTX.note_div(b)
    return SR(zr(a) / zr(b))


POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
EXP = z3.Function('exp', z3.RealSort(), z3.RealSort())
LOG = z3.Function('log', z3.RealSort(), z3.RealSort())
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())


def pow_(a, b):
    if _isT(a) or _isT(b):
        return NotImplemented
    if native(b) and Fraction(fr(b)).denominator == 1:
        n = int(b)
        if native(a):
            return Fraction(fr(a)) ** n if n < 0 else (a ** n if isinstance(a, int) else Fraction(fr(a)) ** n)
        if 0 <= n <= 4:
            r = 1
            for _ in range(n):
                r = r * a
            return r
        if -4 <= n <= -1:
            return div(1, pow_(a, -n))
    if native(a) and native(b):
        v = float(a) ** float(b)
        if Fraction(fr(a)) == 1: return Fraction(1)
        # an irrational power of constants: keep as an uninterpreted application
        return SR(POW(zr(a), zr(b)))
    return SR(POW(zr(a), zr(b)))


def exp_(a):
    if native(a) and a == 0: return Fraction(1)
    return SR(EXP(zr(a)))


def log_(a):
    if native(a) and a == 1: return Fraction(0)
    return SR(LOG(zr(a)))


def sqrt_(a):
    return SR(SQRT(zr(a)))


def cmp_(a, b, op):
    if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
        fa = a if isinstance(a, float) and math.isinf(a) else 0.0
        fb = b if isinstance(b, float) and math.isinf(b) else 0.0
        return {'<': fa < fb, '<=': fa <= fb, '>': fa > fb, '>=': fa >= fb, '==': fa == fb}[op]
    if hasattr(a, 'scalar') and not isinstance(a, SR): a = a.scalar()
    if hasattr(b, 'scalar') and not isinstance(b, SR): b = b.scalar()
    if native(a) and native(b) or isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)):
            a, b = fr(a), fr(b)
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b}[op]
    if isinstance(a, (int, IX)) and isinstance(b, (int, IX)):
        d = a - b
        if isinstance(d, int):
            return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0, '==': d == 0}[op]
        x, y = zi(a), zi(b)
        ix = True
    else:
        if not isinstance(a, NUM) or not isinstance(b, NUM):
            if op == '==': return False
            raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))
        x, y = zr(a), zr(b)
        ix = False
        if x.eq(y):
            return op in ('<=', '>=', '==')
    e = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y}[op]
    return SB(e, ix)


class SB:
    __slots__ = ('e', 'ix')

    def __init__(self, e, ix=False):
        self.e = e
        self.ix = ix

    def __bool__(s): return CTX.decide(s)
    def __and__(s, o): return and_(s, o) if isinstance(o, (SB, bool)) else NotImplemented
    __rand__ = __and__
    def __or__(s, o): return or_(s, o) if isinstance(o, (SB, bool)) else NotImplemented
    __ror__ = __or__
    def __invert__(s): return not_(s)
    def __eq__(s, o):
        if isinstance(o, SB): return SB(s.e == o.e, s.ix and o.ix)
        if isinstance(o, bool): return s if o else not_(s)
        return NotImplemented
    def __hash__(s): return s.e.get_id()
    def __format__(s, spec): return '<sym>'
    def item(s): return s
    def __add__(s, o): return SR(zr(s)) + o
    __radd__ = __add__
    def __mul__(s, o): return SR(zr(s)) * o
    __rmul__ = __mul__


def zb(x):
    if isinstance(x, SB): return x.e
    if isinstance(x, bool): return z3.BoolVal(x)
    if z3.is_expr(x): return x
    if hasattr(x, 'scalar'): return zb(x.scalar())
    if isinstance(x, NUM): return zb(not_(cmp_(x, 0, '==')))
    raise Unsupported('condition expected, got %s' % type(x).__name__)


def and_(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    return SB(z3.And(zb(a), zb(b)), getattr(a, 'ix', False) and getattr(b, 'ix', False))


def or_(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    return SB(z3.Or(zb(a), zb(b)), getattr(a, 'ix', False) and getattr(b, 'ix', False))


def not_(a):
    if isinstance(a, bool): return not a
    if isinstance(a, SB): return SB(z3.Not(a.e), a.ix)
    raise Unsupported('not of %s' % type(a).__name__)


def sel(c, a, b):
    """if c then a else b"""
    if isinstance(c, bool): return a if c else b
    if hasattr(c, 'scalar'): return sel(c.scalar(), a, b)
    if isinstance(a, NUM) and isinstance(b, NUM):
        if native(a) and native(b) and a == b: return a
        if isinstance(a, (int, IX)) and isinstance(b, (int, IX)) and c.ix:
            return ix_atom(z3.If(c.e, zi(a), zi(b)))
        x, y = zr(a), zr(b)
        if x.eq(y): return a
        return SR(z3.If(c.e, x, y))
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        if a is b: return a
        return SB(z3.If(c.e, zb(a), zb(b)), c.ix and getattr(a, 'ix', True) and getattr(b, 'ix', True))
    if hasattr(a, 'scalar') or hasattr(b, 'scalar'):
        return sel(c, a.scalar() if hasattr(a, 'scalar') else a, b.scalar() if hasattr(b, 'scalar') else b)
    raise Unsupported('choice between %s and %s' % (type(a).__name__, type(b).__name__))


def eq_(a, b):
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        if isinstance(a, bool): a, b = b, a
        if isinstance(a, bool): return a == b
        return (a == b)
    return cmp_(a, b, '==')


def toint(x):
    """int(x): truncation towards zero"""
    if native(x): return int(fr(x))
    if isinstance(x, IX): return x
    if isinstance(x, SB): return ix_atom(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    if hasattr(x, 'scalar') and not isinstance(x, SR): return toint(x.scalar())
    e = z3.simplify(x.e)
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return ix_atom(e.arg(0))
    if CTX.implied(cmp_(x, 0, '>=')):
        return ix_atom(z3.ToInt(e))
    return ix_atom(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def ceil_(x):
    if native(x): return math.ceil(fr(x))
    if isinstance(x, IX): return x
    return -ix_atom(z3.ToInt(z3.simplify(-zr(x))))


def floor_(x):
    if native(x): return math.floor(fr(x))
    if isinstance(x, IX): return x
    return ix_atom(z3.ToInt(z3.simplify(zr(x))))


def key_of(x):
    if isinstance(x, int): return x
    if isinstance(x, IX): return x.key()
    if isinstance(x, tuple): return tuple(key_of(y) for y in x)
    raise Unsupported('index of type %s' % type(x).__name__)


# ---------------------------------------------------------------- axioms on demand
AXIOMS = {}         # decl name -> function(app) -> list of z3 bools
PAIR_AXIOMS = {}    # decl name -> function(app, app) -> list


def _ax_pow(t):
    x, n = t.arg(0), t.arg(1)
    return [z3.Implies(x >= 0, t >= 0), z3.Implies(x > 0, t > 0),
            z3.Implies(z3.And(x == 0, n > 0), t == 0), z3.Implies(x == 1, t == 1),
            z3.Implies(n == 0, t == 1), z3.Implies(n == 1, t == x),
            z3.Implies(z3.And(x >= 0, x <= 1, n >= 0), t <= 1),
            z3.Implies(z3.And(x > 0, x <= 1, n <= 0), t >= 1),
            z3.Implies(z3.And(x >= 1, n >= 0), t >= 1),
            z3.Implies(z3.And(x >= 0, x <= 1, n >= 1), t <= x)]


def _ax_pow2(s, t):
    x, n, y, m = s.arg(0), s.arg(1), t.arg(0), t.arg(1)
    return [z3.Implies(z3.And(n == m, n > 0, x >= 0, x < y), s < t), z3.Implies(z3.And(n == m, n > 0, y >= 0, y < x), t < s),
            z3.Implies(z3.And(n == m, n >= 0, x >= 0, x <= y), s <= t),
            z3.Implies(z3.And(n == m, n >= 0, y >= 0, y <= x), t <= s),
            z3.Implies(z3.And(n == m, n <= 0, x > 0, x <= y), s >= t),
            z3.Implies(z3.And(n == m, n <= 0, y > 0, y <= x), t >= s),
            z3.Implies(z3.And(x == y, n == m + 1, x >= 0), s == t * x),
            z3.Implies(z3.And(x == y, m == n + 1, x >= 0), t == s * x)]


AXIOMS['pow'] = _ax_pow
PAIR_AXIOMS['pow'] = _ax_pow2
AXIOMS['exp'] = lambda t: [t > 0, z3.Implies(t.arg(0) == 0, t == 1), z3.Implies(t.arg(0) <= 0, t <= 1),
                           z3.Implies(t.arg(0) >= 0, t >= 1)]
PAIR_AXIOMS['exp'] = lambda s, t: [z3.Implies(s.arg(0) <= t.arg(0), s <= t), z3.Implies(t.arg(0) <= s.arg(0), t <= s)]
AXIOMS['log'] = lambda t: [z3.Implies(t.arg(0) == 1, t == 0), z3.Implies(t.arg(0) > 1, t > 0),
                           z3.Implies(z3.And(t.arg(0) > 0, t.arg(0) < 1), t < 0)]
AXIOMS['sqrt'] = lambda t: [z3.Implies(t.arg(0) >= 0, z3.And(t >= 0, t * t == t.arg(0)))]
PAIR_AXIOMS['sqrt'] = lambda s, t: [z3.Implies(z3.And(s.arg(0) >= 0, s.arg(0) <= t.arg(0)), s <= t)]


class Node:
    """what occurs in a term: ids of uninterpreted applications, names of constants, integers"""
    __slots__ = ('e', 'apps', 'consts', 'int', 'real')

    def __init__(self, e, apps, consts, isint, isreal):
        self.e, self.apps, self.consts, self.int, self.real = e, apps, consts, isint, isreal


NODES = {}
CONST = {}
NONE = frozenset()
PURE = {}
PTABLE = {}


def forget():
    if len(NODES) > 400000:
        NODES.clear(); PURE.clear(); PTABLE.clear()


def node(e):
    i = e.get_id()
    if i in NODES: return NODES[i]
    stack = [(e, i, None)]
    while stack:
        x, i, ch = stack.pop()
        if i in NODES: continue
        if ch is None:
            ch = x.children() if z3.is_app(x) else []
            ids = [c.get_id() for c in ch]
            todo = [(c, j, None) for c, j in zip(ch, ids) if j not in NODES]
            if todo:
                stack.append((x, i, ch))
                stack += todo
                continue
        ns = [NODES[c.get_id()] for c in ch]
        ap, co = NONE, NONE
        isint = isreal = False
        for n in ns:
            if n.apps and not n.apps <= ap: ap = (ap | n.apps) if ap else n.apps
            if n.consts and not n.consts <= co: co = (co | n.consts) if co else n.consts
            isint = isint or n.int
            isreal = isreal or n.real
        if not isint and z3.is_arith(x) and x.is_int() and not z3.is_int_value(x): isint = True
        if not isreal and z3.is_arith(x) and x.is_real(): isreal = True
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if ch: ap = ap | {i}
            else:
                nm = x.decl().name()
                CONST[nm] = x
                co = frozenset((nm,))
        NODES[i] = Node(x, ap, co, isint, isreal)
    return NODES[e.get_id()]


def apps(exprs, seen=None):
    """uninterpreted applications with arguments occurring in the expressions"""
    ids = set()
    for e in exprs: ids |= node(e).apps
    if seen is not None:
        ids -= seen
        seen |= ids
    return [NODES[i].e for i in sorted(ids)]


def consts(exprs):
    out = set()
    for e in exprs: out |= node(e).consts
    return {n: CONST[n] for n in sorted(out)}


def axioms_for(exprs):
    """instances of the registered axioms for every application occurring in exprs, to a fixpoint"""
    seen = set()
    out = []
    todo = apps(exprs, seen)
    byname = {}
    rounds = 0
    cdone = set()
    new_c = consts(exprs)
    while todo or new_c:
        rounds += 1
        if rounds > 8: break
        fresh = []
        for nm in list(new_c):
            if nm in CONST_AXIOMS and nm not in cdone:
                fresh += CONST_AXIOMS[nm]
            cdone.add(nm)
        for t in todo:
            n = t.decl().name()
            f = AXIOMS.get(n)
            if f: fresh += f(t)
            g = PAIR_AXIOMS.get(n)
            if g and rounds <= 2:
                for u in byname.setdefault(n, []):
                    fresh += g(u, t)
                if len(byname[n]) < 12:
                    byname[n].append(t)
        fresh = [zb(f) for f in fresh]
        out += fresh
        todo = apps(fresh, seen)
        new_c = {k: v for k, v in consts(fresh).items() if k not in cdone}
    return out


CONST_AXIOMS = {}    # constant name -> list of z3 bools that always hold of it


# ---------------------------------------------------------------- the prover
class Stats:
    def __init__(s):
        s.solver_s = 0.0
        s.by = {}
        s.queries = 0
        s.kinds = {}


STATS = Stats()
PROVE_MS = 6000


def argkey(c):
    """the same for arguments equal as rational functions"""
    if not z3.is_real(c) or z3.is_const(c): return c.get_id()
    from . import ratnf
    return ratnf.normal_key(c) or c.get_id()


def _purify(fs):
    """replace every uninterpreted application by a constant, bottom-up (sound for validity)"""
    def go(e):
        stack = [e]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in PURE:
                stack.pop()
                continue
            n = node(x)
            if not n.apps:
                PURE[i] = x
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in PURE]
            if todo:
                stack += todo
                continue
            nc = [PURE[c.get_id()] for c in ch]
            y = x
            if any(not a.eq(b) for a, b in zip(ch, nc)): y = x.decl()(*nc)
            if ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                k = (x.decl().name(), tuple(argkey(c) for c in nc))
                if k not in PTABLE: PTABLE[k] = (z3.Const('#%s_%d' % (x.decl().name(), len(PTABLE)), x.sort()), nc)
                y = PTABLE[k][0]
            PURE[i] = y
            stack.pop()
        return PURE[e.get_id()]
    return [go(f) for f in fs], any(node(f).apps for f in fs)


def check_sat(fs, timeout_ms, tactic=None):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', int(timeout_ms))
    for f in fs: s.add(f)
    t = time.time()
    r = s.check()
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    return str(r), (s.model() if r == z3.sat else None)


def _has_int(fs):
    return any(node(f).int for f in fs)


def pin(hyps, goal):
    """replace integers the hypotheses leave a single value for"""
    seen, todo, ts = set(), [goal], []
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if not node(e).int: continue
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_INT: ts.append(e)
        todo += e.children()
    if not ts or len(ts) > 3: return goal
    sub = []
    for t in ts:
        s = z3.Solver(); s.set('timeout', 200)
        for h in hyps:
            if not node(h).real or t.get_id() in _ids(h): s.add(z3.substitute(h, (t, z3.Int('pin!'))))
        if s.check() != z3.sat: continue
        v = s.model().eval(z3.Int('pin!'))
        if not z3.is_int_value(v): continue
        s.add(z3.Int('pin!') != v)
        if s.check() == z3.unsat: sub.append((t, v))
    return z3.simplify(z3.substitute(goal, *sub), som=False) if sub else goal


def pinned(x):
    """the value of an integer the path leaves a single one for (the number of substeps ..), or x itself"""
    if not isinstance(x, IX) or CTX is None: return x
    r = pin([h for h in CTX.conds if node(h).int], x.z())
    r = z3.simplify(r)
    if not z3.is_int_value(r): return x
    CTX.pins = {**CTX.pins, x.key(): r.as_long()}
    return r.as_long()


def _ids(h):
    out, todo = set(), [h]
    while todo:
        e = todo.pop()
        if e.get_id() in out: continue
        out.add(e.get_id())
        todo += e.children()
    return out


def prove(hyps, goal, timeout_ms=None):
    """returns (status, model, backend); status in proved / refuted / unknown"""
    to = timeout_ms or PROVE_MS
    g = z3.simplify(goal)
    if z3.is_true(g):
        STATS.by['simplify'] = STATS.by.get('simplify', 0) + 1
        return 'proved', None, 'z3 simplify'
    goal = pin(hyps, goal)
    ng = z3.Not(goal)
    ax = axioms_for([ng] + list(hyps))
    base = list(hyps) + ax
    fs = base + [ng]
    pure, table = _purify(fs)
    res = None

    def win(b):
        STATS.by[b] = STATS.by.get(b, 0) + 1
        return 'proved', None, b
    # rational normal form with case splits
    from . import ratnf

    def normal_form(seconds):
        t = time.time()
        try: return ratnf.prove(pure[:-1], pure[-1].arg(0), seconds)
        except ratnf.GiveUp: return False
        finally: STATS.solver_s += time.time() - t
    t = time.time()
    try: same = ratnf.quick(pure[:-1], pure[-1].arg(0))
    except ratnf.GiveUp: same = False
    STATS.solver_s += time.time() - t
    if same: return win('rational normal form')
    ints = _has_int(pure)
    plans = []
    noint = not ints or not _has_int(pure[-1:])
    if noint:
        r = check_sat([f for f in pure if not _has_int([f])], 300, 'qfnra-nlsat')[0]
        if r == 'unsat': return win('z3 qfnra-nlsat')
    if normal_form(0.3): return win('rational normal form')
    if ints and noint:
        # the integer facts (index ranges) first left out: nonlinear real arithmetic decides more
        r = check_sat([f for f in pure if not _has_int([f])], min(to, 3000), 'qfnra-nlsat')[0]
        if r == 'unsat': return win('z3 qfnra-nlsat')
    if not ints:
        plans.append(('qfnra-nlsat', min(to, 3000)))
    plans.append((None, to))
    if not ints: plans.append(('qfnra-nlsat', to * 2))
    if z3.is_eq(goal) or z3.is_and(goal):
        for tac, ms in plans[:1]:
            try: r, m = check_sat(pure, min(ms, 2000), tac)
            except z3.Z3Exception: break
            if r == 'unsat': return win('z3 ' + (tac or 'smt'))
            if r == 'unknown' and normal_form(8): return win('rational normal form')
    for tac, ms in plans:
        try:
            r, m = check_sat(pure, ms, tac)
        except z3.Z3Exception:
            continue
        if r == 'unsat':
            return win('z3 ' + (tac or 'smt'))
        if r == 'sat' and not table:
            return 'refuted', m, 'z3'
        if r == 'sat':
            # may be an artefact of the abstraction: decide with the functions back in
            break
    r, m = check_sat(fs, to)
    if r == 'unsat':
        return win('z3 smt+uf')
    if r == 'sat':
        return 'refuted', m, 'z3'
    # cvc5 as a second opinion
    r = cvc5_check(fs, to)
    if r == 'unsat':
        return win('cvc5')
    return 'unknown', None, 'unknown'


def quick(hyps, goal, ms=800):
    """one short attempt: the goal follows, or None"""
    if z3.is_true(z3.simplify(goal)): return 'z3 simplify'
    ng = z3.Not(goal)
    pure, _ = _purify(list(hyps) + axioms_for([ng] + list(hyps)) + [ng])
    for tac in ((None,) if _has_int(pure[-1:]) else ('qfnra-nlsat', None)):
        fs = pure if tac is None else [f for f in pure if not _has_int([f])]
        try:
            if check_sat(fs, ms, tac)[0] == 'unsat':
                b = 'z3 ' + (tac or 'smt')
                STATS.by[b] = STATS.by.get(b, 0) + 1
                return b
        except z3.Z3Exception: pass
    return None


def cvc5_check(fs, ms):
    s = z3.Solver()
    for f in fs: s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t = time.time()
    try:
        p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit', str(int(ms)), '-q'], input=txt,
                           capture_output=True, text=True, timeout=ms / 1000 + 5)
        out = p.stdout.split()
        r = out[0] if out else 'unknown'
    except Exception:
        r = 'unknown'
    STATS.solver_s += time.time() - t
    return r


# ---------------------------------------------------------------- paths
class Explorer:
    """depth-first enumeration of decision sequences; run(fn) re-executes fn per sequence"""

    def __init__(self, prefix=()):
        self.pending = [list(prefix)]
        self.cur = None
        self.pos = 0


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        forget()
        self.conds = []            # z3 assumptions of the current path
        self.solver = z3.Solver()
        self.solver.set('timeout', 400)
        # integer facts alone: index decisions do not need the real arithmetic
        self.isolver = z3.Solver()
        self.isolver.set('timeout', 400)
        self.levels = 0
        self.ex = []               # explorer stack
        self.fresh = {}
        self.scope = 0
        self.scope_n = 0
        self.univ = []             # (shape, fn idx -> SB): facts true at every index
        self.sums = []
        self.points = []
        self.lazy = []
        self.nofork = False
        self.merge_writes = False
        self.implied_cache = {}
        self.known = set()
        self.divs = []
        self.subst = []
        self.pins = {}             # integers the path leaves a single value for
        self.ndec = 0
        self.restart = False
        self.max_paths = 4000
        self.paths = 0
        self.deadline = None
        self.trace = []

    def name(self, base):
        n = self.fresh.get(base, 0)
        self.fresh[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    def real(self, base):
        return SR(z3.Real(self.name(base)))

    def int(self, base):
        return ix_var(self.name(base))

    def bool(self, base):
        return SB(z3.Bool(self.name(base)))

    def note_div(self, b):
        pass

    def infeasible(self):
        return self._feasible(z3.BoolVal(True)) == z3.unsat

    def sub(self, e):
        for m in self.subst: e = z3.substitute(e, m)
        return e

    def later(self, shape, idx):
        """facts that hold at every index of this shape may be wanted at idx"""
        self.points.append((tuple(shape), tuple(idx)))

    def wanted(self):
        return bool(self.lazy or any(len(sh) == len(p) for sh, _ in self.univ for p, _ in self.points))

    def force(self):
        """assume all pending facts (inside a scope: evaluating them may split cases)"""
        for sh, idx in list(self.points): self.instantiate(sh, idx)
        for f in list(self.lazy):
            try: self.assume(f())
            except Unsupported: pass

    def instantiate(self, shape, idx):
        n = len(self.univ)
        for sh, fn in list(self.univ[:n]):
            if len(sh) != len(shape): continue
            if all(isinstance(a - b, int) and a - b == 0 for a, b in zip(sh, shape)):
                self.assume(fn(idx))

    def assume(self, c):
        if c is True: return
        if c is False: raise PathEnd()
        e = self.sub(zb(c))
        if z3.is_and(e):
            for x in e.children(): self._push(x)
        else:
            self._push(e)

    def _push(self, e):
        self.conds.append(e)
        self.solver.add(e)
        if not node(e).real: self.isolver.add(e)
        self.known.add(e.get_id())
        self._sync([e])

    def _sync(self, es):
        for a in axioms_for(es):
            if a.get_id() not in self.known:
                self.known.add(a.get_id())
                self.conds.append(a)
                self.solver.add(a)
                if not node(a).real: self.isolver.add(a)

    def _feasible(self, e):
        t = time.time()
        ints = not node(e).real and not z3.is_true(e)
        s = self.isolver if ints else self.solver
        s.push()
        try:
            s.add(e)
            r = s.check()
        finally:
            s.pop()
        t = time.time() - t
        STATS.solver_s += t
        k = STATS.kinds.setdefault(('int' if ints else 'real', str(r)), [0, 0.0])
        k[0] += 1; k[1] += t
        return r

    def implied(self, c):
        if isinstance(c, bool): return c
        e = self.sub(zb(c))
        if e.get_id() in self.known: return True
        k = (e.get_id(), len(self.conds))
        if k in self.implied_cache: return self.implied_cache[k][0]
        s = z3.simplify(e)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        ax = axioms_for([e])
        r = self._feasible(z3.Not(e) if not ax else z3.And(z3.Not(e), *ax)) == z3.unsat
        self.implied_cache[k] = (r, e)
        return r

    def decide(self, c):
        if isinstance(c, bool): return c
        e = z3.simplify(self.sub(zb(c)))
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        if self.nofork: raise NoFork()
        self.ndec += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the symbolic run is used up')
        ex = self.ex[-1]
        if ex.pos < len(ex.cur):
            v, forced = ex.cur[ex.pos]
            ex.pos += 1
            self._push(e if v else z3.Not(e))
            return v
        self._sync([e])
        ft = self._feasible(e)
        ff = self._feasible(z3.Not(e)) if ft != z3.unsat else z3.sat
        if ft == z3.unsat and ff == z3.unsat:
            raise PathEnd()
        if ft == z3.unsat: v, forced = False, True
        elif ff == z3.unsat: v, forced = True, True
        else:
            v, forced = True, False
            ex.pending.append(ex.cur[:ex.pos] + [(False, False)])
        ex.cur.append((v, forced))
        ex.pos += 1
        self._push(e if v else z3.Not(e))
        return v

    def choose(self, n):
        """enumerate 0..n-1 (n concrete)"""
        ex = self.ex[-1]
        if ex.pos < len(ex.cur):
            v, _ = ex.cur[ex.pos]
            ex.pos += 1
            return v
        for k in range(n - 1, 0, -1):
            ex.pending.append(ex.cur[:ex.pos] + [(k, False)])
        ex.cur.append((0, False))
        ex.pos += 1
        return 0

    def scoped(self, body):
        """run body under every combination of the decisions it takes, undoing its assumptions"""
        ex = Explorer()
        self.ex.append(ex)
        old_scope = self.scope
        saved_fresh = dict(self.fresh)
        n = 0
        try:
            while ex.pending:
                ex.cur = ex.pending.pop()
                ex.pos = 0
                n += 1
                self.scope_n += 1
                self.scope = self.scope_n
                self.fresh = dict(saved_fresh)
                nc, nu, ns = len(self.conds), len(self.univ), len(self.sums)
                np_, nl = len(self.points), len(self.lazy)
                known, pins = set(self.known), self.pins
                self.solver.push()
                self.isolver.push()
                try:
                    body()
                except PathEnd:
                    pass
                finally:
                    self.solver.pop()
                    self.isolver.pop()
                    del self.conds[nc:]
                    del self.univ[nu:]
                    del self.sums[ns:]
                    del self.points[np_:]
                    del self.lazy[nl:]
                    self.known, self.pins = known, pins
                    self.implied_cache = {}
                if n > 3000:
                    raise Unsupported('too many cases in one obligation')
        finally:
            self.ex.pop()
            self.scope = old_scope
        return n


CTX = Ctx()


PATH_START = []


def subst_eval(fn, idx, atom_term, value):
    """fn(idx) with the symbolic integer atom_term instantiated by value"""
    old, osc = CTX.subst, CTX.scope
    CTX.subst = [(atom_term, zi(value))] and [[(atom_term, zi(value))]] + old
    CTX.scope = ('s', atom_term.get_id(), key_of(value), osc)
    try:
        v = fn(idx)
    finally:
        CTX.subst, CTX.scope = old, osc
    m = [(atom_term, zi(value))]
    if isinstance(v, SR): return SR(z3.substitute(v.e, m))
    if isinstance(v, IX): return ix_atom(z3.substitute(v.z(), m))
    if isinstance(v, SB): return SB(z3.substitute(v.e, m), v.ix)
    return v


def explore(fn, max_paths=4000, deadline=None):
    """run fn once per feasible decision sequence; returns number of paths"""
    CTX.reset()
    ex = Explorer()
    n = 0
    while ex.pending:
        cur = ex.pending.pop()
        pend = ex.pending
        CTX.reset()
        CTX.deadline = deadline
        ex.pending = pend
        ex.cur = cur
        ex.pos = 0
        CTX.ex = [ex]
        n += 1
        for h in PATH_START: h()
        try:
            fn()
        except PathEnd:
            pass
        if n > max_paths:
            raise Unsupported('too many paths')
    return n
