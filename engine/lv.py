"""Abstract vectors: elements of a real vector space of unknown dimension, as linear combinations of
named vectors under named linear maps (a matrix, division by a diagonal).  The algebra is that of any
vector space with any linear map, so what is proved holds for every size and every matrix.  Vectors
are mutable objects like tensors: in-place arithmetic is seen through every alias."""
import z3
from . import sx, st, loops
from .sx import SR, SB, CTX, Unsupported, Fraction

RULES = {}      # base -> combination it stands for (assumed loop invariants); cleared for every path
NORMED = []


def reset(): RULES.clear()


def num(x):
    if isinstance(x, st.T):
        if x.ndim: raise Unsupported('vector times tensor')
        x = x.scalar()
    if isinstance(x, float): x = sx.fr(x)
    return x


def zero(c): return isinstance(c, (int, Fraction)) and c == 0


def add(c, w, v):
    r = c[w] + v if w in c else v
    if zero(r): c.pop(w, None)
    else: c[w] = r


def normal(c):
    """with the rules applied"""
    out = {}
    for (ops, base), v in c.items():
        if base in RULES:
            for (o2, b2), v2 in normal(RULES[base]).items(): add(out, (ops + o2, b2), v * v2)
        else: add(out, (ops, base), v)
    return out


class Eq(SB):
    """equality of two vectors; assumed, it defines one of the arbitrary vectors in it"""
    __slots__ = ('d',)

    def __init__(self, d):
        e = z3.And([sx.zb(sx.eq_(v, 0)) for v in d.values()]) if d else z3.BoolVal(True)
        SB.__init__(self, e)
        self.d = d

    def orient(self):
        for (ops, base), v in self.d.items():
            if ops or not base.startswith('h:') or not isinstance(v, (int, Fraction)): continue
            if any(b == base for (o, b) in self.d if (o, b) != (ops, base)): continue
            RULES[base] = {w: -c / Fraction(v) if isinstance(c, (int, Fraction)) else -c * (1 / Fraction(v)) for w, c in self.d.items() if w != (ops, base)}
            return True
        return False


class V:
    _linvec = True

    def __init__(self, c, col=False, cell=None):
        # the contents and when they were created; shared by views
        self.cell_ = cell if cell is not None else [dict(c), st.LOG.clock()]
        self.col = col

    @property
    def c(self): return self.cell_[0]

    def put(self, c):
        for r in loops.STACK:
            if r.recording: r.vectors[id(self.cell_)] = self.cell_
        self.cell_[0] = dict(c)
        return self

    def fresh_like(self, nm):
        """an arbitrary vector in place of this one, wherever it is referred to"""
        self.cell_[0] = {((), CTX.name(nm)): 1}
        return self

    def _o(self, o):
        if isinstance(o, V):
            if o.col != self.col: raise Unsupported('row and column vector')
            return o.c
        if isinstance(o, (int, float)) and o == 0: return {}
        raise Unsupported('vector plus number')

    def _lin(self, o, s):
        r = dict(self.c)
        for w, v in self._o(o).items(): add(r, w, v if s == 1 else -v)
        return r

    def __add__(self, o): return V(self._lin(o, 1), self.col)
    __radd__ = __add__
    def __sub__(self, o): return V(self._lin(o, -1), self.col)
    def __rsub__(self, o): return (-self) + o
    def __neg__(self): return V({w: -v for w, v in self.c.items()}, self.col)
    def __iadd__(self, o): return self.put(self._lin(o, 1))
    def __isub__(self, o): return self.put(self._lin(o, -1))
    def add_(self, o, alpha=1): return self.put(self._lin(o * alpha if not (isinstance(alpha, int) and alpha == 1) else o, 1))
    def sub_(self, o, alpha=1): return self.put(self._lin(o * alpha if not (isinstance(alpha, int) and alpha == 1) else o, -1))
    def add(self, o, alpha=1): return self.clone().add_(o, alpha)
    def sub(self, o, alpha=1): return self.clone().sub_(o, alpha)

    def scaled(self, k):
        k = num(k)
        r = {}
        for w, v in self.c.items(): add(r, w, v * k)
        return r

    def diag(self):
        """the name of the input vector this is, to use it as a diagonal"""
        if len(self.c) == 1:
            (ops, base), v = next(iter(self.c.items()))
            if not ops and isinstance(v, int) and v == 1 and not base.startswith('h:') and base not in RULES: return base
        raise Unsupported('elementwise product with a computed vector')

    def __mul__(self, o):
        if isinstance(o, Inv): return o * self
        if isinstance(o, V): return Prod(self, o)
        return V(self.scaled(o), self.col)
    __rmul__ = __mul__

    def __imul__(self, o): return self.put(self.scaled(o))
    mul_ = __imul__
    mul = __mul__

    def _over(self, o):
        if isinstance(o, V):
            if o.col != self.col: raise Unsupported('row and column vector')
            return mapped(self.c, '/' + o.diag())
        return self.scaled(sx.div(1, num(o)))

    def __truediv__(self, o): return V(self._over(o), self.col)
    def __itruediv__(self, o): return self.put(self._over(o))
    div, div_ = __truediv__, __itruediv__

    def __rtruediv__(self, o):
        if isinstance(o, (int, float)) and o == 1: return Inv(self.diag(), self.col)
        raise Unsupported('number over vector')

    def reciprocal(self): return 1 / self

    def dot(self, o):
        if not isinstance(o, V): raise Unsupported('dot')
        r = 0
        b = normal(o.c)
        for w1, v1 in sorted(normal(self.c).items(), key=lambda t: str(t[0])):
            for w2, v2 in sorted(b.items(), key=lambda t: str(t[0])):
                r = r + v1 * v2 * atom(w1, w2)
        return st.scalar_tensor(r)
    __matmul__ = dot

    def norm(self, *a, **k):
        if a or k: raise Unsupported('norm')
        return st.scalar_tensor(sx.sqrt_(self.dot(self).scalar()))

    def clone(self, *a, **k): return V(self.c, self.col)
    def detach(self): return self
    def contiguous(self): return self
    def to(self, *a, **k): return self
    def double(self): return self
    def alias(self, col):
        return V({}, col, self.cell_)

    def snapshot(self): return V(self.c, self.col)

    def unsqueeze(self, d):
        if self.col or d not in (1, -1): raise Unsupported('unsqueeze')
        return self.alias(True)

    def squeeze(self, d=None):
        if not self.col or d not in (1, -1, None): raise Unsupported('squeeze')
        return self.alias(False)

    def view(self, *s):
        if s == (-1, 1): return self.alias(True)
        if s == (-1,): return self.alias(False)
        raise Unsupported('reshape of a vector')
    reshape = view
    def flatten(self): return self.alias(False)

    def zero_(self): return self.put({})
    def copy_(self, o): return self.put(self._o(o))
    def zeros(self): return V({}, self.col)

    def __setitem__(self, k, o):
        if k is Ellipsis or k == slice(None): self.put(self._o(o))
        else: raise Unsupported('part of a vector')

    @property
    def device(self): return st.DEVICE
    @property
    def dtype(self): return st.DTYPES['f']
    @property
    def is_cuda(self): return False
    def dim(self): return 2 if self.col else 1
    @property
    def ndim(self): return self.dim()
    def __bool__(self): raise Unsupported('truth of a vector')
    def __getattr__(self, n): raise Unsupported('vector.' + n) if not n.startswith('_') else AttributeError(n)


class Prod:
    """elementwise product, good only for summing up"""
    def __init__(self, u, v): self.u, self.v = V(u.c, u.col), V(v.c, v.col)
    def sum(self): return self.u.dot(self.v)


class Inv:
    """1 / diagonal"""
    def __init__(self, d, col): self.d, self.col = d, col
    def __mul__(self, o):
        if not isinstance(o, V) or o.col != self.col: raise Unsupported('diagonal times this')
        return V(mapped(o.c, '/' + self.d), o.col)
    __rmul__ = __mul__


def mapped(c, op): return {((op,) + ops, b): v for (ops, b), v in c.items()}


class Map:
    """an arbitrary matrix"""
    _linop = True

    def __init__(self, name): self.name = name

    def apply(self, x):
        if not isinstance(x, V): raise Unsupported('matrix times this')
        return V(mapped(x.c, self.name), x.col)
    __matmul__ = mv = apply

    def mm(self, x):
        if not x.col: raise Unsupported('mm with a vector')
        return self.apply(x)

    def coalesce(self): return self
    def to_sparse_csr(self): return self
    @property
    def is_sparse(self): return True
    @property
    def device(self): return st.DEVICE


def atom(w1, w2):
    a, b = sorted(('.'.join(o + (x,)) for o, x in (w1, w2)))
    nm = '<%s|%s>' % (a, b)
    if 'h:' in nm: nm = 'h:' + nm
    return SR(z3.Real(nm))


def vector(name): return V({((), name): 1})


def eq(u, v):
    d = normal(u.c)
    for w, x in normal(v.c).items(): add(d, w, -x)
    return Eq(d)
