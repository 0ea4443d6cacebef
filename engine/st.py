"""Symbolic tensors: unbounded shapes, elements are functions of the index, slices are
write-through views of their storage (torch semantics), sparse matrices as entry families."""
import math
from fractions import Fraction
import z3
from . import sx
from .sx import (IX, SR, SB, CTX, Unsupported, NUM, cmp_, and_, or_, not_, sel, key_of, zr, native, fr,
                 ix_var, digits, undigits)


def prod(xs):
    r = 1
    for x in xs: r = r * x
    return r


def same(a, b):
    """structurally or provably equal sizes"""
    if isinstance(a, int) and isinstance(b, int): return a == b
    c = cmp_(a, b, '==')
    return c if isinstance(c, bool) else CTX.implied(c)


class Flat:
    """structure of a flattened axis: index = mixed-radix number over radices"""
    __slots__ = ('r',)

    def __init__(self, r): self.r = tuple(r)


class Storage:
    def __init__(self, fn, label=None):
        self.set(fn)
        self.label = label
        self.born = LOG.clock()

    kind = 'f'

    def set(self, fn):
        cache = {}
        clock = LOG.clock()
        leaf = hasattr(fn, 'uf')

        def memo(idx):
            if ABS[0] is not None and clock < ABS[0] and not leaf and self.kind in 'fb': return abstract(clock, self.kind, idx)
            k = (key_of(tuple(idx)), CTX.scope)
            if k in cache: return cache[k]
            v = fn(idx)
            cache[k] = v
            return v
        self.fn = memo


def merged(f, i, g, b):
    """the value both branches of a write agree on, or None"""
    was, CTX.nofork = CTX.nofork, True
    try:
        u, v = g(b), f(i)
        if u is v or (sx.native(u) and sx.native(v) and u == v): return u
        if isinstance(u, SR) and isinstance(v, SR) and u.e.eq(v.e): return u
    except sx.NoFork: pass
    finally: CTX.nofork = was


class WriteLog:
    """what the bodies of symbolic loops modify (see loops.py)"""
    def __init__(self):
        self.active = []
        self.n = 0

    def clock(self):
        self.n += 1
        return self.n

    def storage(self, st):
        for a in self.active: a.storages[id(st)] = st


# While ABS[0] is a clock value, tensors written before it are read as arbitrary values (a
# generalisation: what is proved so holds for the real values as well)
ABS = [None]


def abstract(clock, kind, idx):
    n = 'abs!%d!%s' % (clock, key_of(tuple(idx)))
    return SR(z3.Real(n)) if kind == 'f' else SB(z3.Bool(n))


LOG = WriteLog()
GRIDS = []     # known grid shapes (tuples), to give structure to flat axes of that size


def flat_of(size):
    if isinstance(size, int): return None
    for g in GRIDS:
        if same_poly(prod(g), size): return Flat(g)
        if same_poly(prod(g) * 2, size): return Flat(tuple(g) + (2,))
    return None


def fresh_index(shape, name='q'):
    """an arbitrary index of a shape; an axis of grid size is indexed through its cell"""
    out = []
    for n in shape:
        f = flat_of(n)
        ds = []
        for r in (f.r if f is not None else (n,)):
            i = CTX.int(name)
            CTX.assume(cmp_(i, 0, '>=')); CTX.assume(cmp_(i, r, '<'))
            ds.append(i)
        out.append(sx.undigits(ds, f.r) if f is not None else ds[0])
    return out


def same_poly(a, b):
    d = a - b
    return isinstance(d, int) and d == 0


class View:
    __slots__ = ('fwd', 'inv')

    def __init__(self, fwd, inv): self.fwd, self.inv = fwd, inv


IDV = View(lambda i: i, lambda b: (True, b))


class T:
    _is_tensor = True
    __array_priority__ = 2000

    def __init__(self, shape, fn=None, st=None, view=None, dtype='f', sp=None, mask=None):
        self.shape_ = tuple(shape)
        self.st = st if st is not None else Storage(fn)
        if st is None: self.st.kind = dtype
        self.view_ = view or IDV
        self.dtype_ = dtype
        # structure of axes: Flat or None
        self.sp = tuple(sp) if sp is not None else tuple(flat_of(s) for s in self.shape_)
        self.mask = mask
        self._from = None

    # -- reading
    def reader(self):
        f, fwd = self.st.fn, self.view_.fwd
        return lambda idx: f(fwd(idx))

    def at(self, *idx):
        return self.st.fn(self.view_.fwd(tuple(idx)))

    def scalar(self):
        if self.shape_ == (): return self.at()
        if all(isinstance(s, int) and s == 1 for s in self.shape_): return self.at(*([0] * len(self.shape_)))
        raise Unsupported('a tensor with more than one element used as a number')

    # -- shape
    @property
    def shape(self): return Size(self.shape_)

    def size(self, d=None):
        return Size(self.shape_) if d is None else self.shape_[d]

    def dim(self): return len(self.shape_)

    @property
    def ndim(self): return len(self.shape_)

    def numel(self): return prod(self.shape_)

    def nelement(self): return self.numel()

    def __len__(self):
        n = self.shape_[0]
        if isinstance(n, int): return n
        raise Unsupported('native len() of a symbolic size')

    def __iter__(self):
        n = self.shape_[0]
        if not isinstance(n, int): raise Unsupported('iteration over a symbolic axis')
        return iter([self[i] for i in range(n)])

    @property
    def device(self): return DEVICE

    @property
    def dtype(self): return DTYPES[self.dtype_]

    @property
    def is_cuda(self): return False

    @property
    def is_sparse(self): return False

    @property
    def layout(self): return 'strided'

    @property
    def T(self): return self.t()

    def t(self):
        if self.ndim != 2: raise Unsupported('transpose of a %d-d tensor' % self.ndim)
        f = self.reader()
        return T((self.shape_[1], self.shape_[0]), lambda i: f((i[1], i[0])), dtype=self.dtype_)

    # -- copies and casts
    def clone(self, *a, **k):
        return T(self.shape_, self.reader(), dtype=self.dtype_, sp=self.sp, mask=self.mask)

    def detach(self): return self
    def contiguous(self): return self
    def cpu(self): return self
    def cuda(self, *a): return self
    def numpy(self): return self
    def requires_grad_(self, *a): return self

    def to(self, *a, **k):
        d = k.get('dtype')
        for x in a:
            if isinstance(x, DType): d = x
        return self.cast(d) if d is not None else self

    def cast(self, d):
        k = d.kind
        if k == self.dtype_ or (k == 'f' and self.dtype_ == 'f'): return self
        f = self.reader()
        if k == 'f': g = lambda i: (SR(zr(f(i))) if not native(f(i)) else f(i))
        elif k == 'i': g = lambda i: sx.toint(f(i))
        else: g = lambda i: not_(cmp_(f(i), 0, '=='))
        return T(self.shape_, g, dtype=k, sp=self.sp, mask=self.mask)

    def astype(self, d, **k): return self.cast(as_dtype(d))
    def double(self): return self.cast(DTYPES['f'])
    def float(self): return self.cast(DTYPES['f'])
    def long(self): return self.cast(DTYPES['i'])
    def int(self): return self.cast(DTYPES['i'])
    def bool(self): return self.cast(DTYPES['b'])
    def type_as(self, o): return self.cast(o.dtype)

    def item(self): return self.scalar()
    def tolist(self):
        if self.ndim == 0: return self.at()
        return [x.tolist() for x in self]

    def __float__(self): raise Unsupported('native float() of a symbolic tensor')
    def __bool__(self):
        v = self.scalar()
        return bool(v) if not isinstance(v, bool) else v
    def __format__(self, s): return '<tensor>'
    def __repr__(self): return 'T%r' % (self.shape_,)
    __hash__ = object.__hash__

    def __int__(self): raise Unsupported('native int() of a symbolic tensor')

    # -- reshaping
    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        if order != 'C':
            # the same array read and placed in Fortran order is unchanged
            if len(shape) == self.ndim and all(same(a, b) for a, b in zip(shape, self.shape_)): return self
            raise Unsupported('Fortran-order reshape')
        if any(isinstance(s, int) and s == -1 for s in shape):
            known = prod(s for s in shape if not (isinstance(s, int) and s == -1))
            tot = prod(self.shape_)
            if isinstance(known, int) and known == 1: m = tot
            elif isinstance(tot, int) and isinstance(known, int): m = tot // known
            else:
                s = sx.ix_split(tot, known)
                if s is None or not (isinstance(s[1], int) and s[1] == 0): raise Unsupported('reshape with -1')
                m = s[0]
            shape = tuple(m if (isinstance(s, int) and s == -1) else s for s in shape)
        if len(shape) == self.ndim and all(same(a, b) for a, b in zip(shape, self.shape_)):
            return T(self.shape_, st=self.st, view=self.view_, dtype=self.dtype_, sp=self.sp)
        src = self.axes()
        dst = []
        tot_src = prod(self.shape_)
        if not same_poly_or_eq(tot_src, prod(shape)):
            raise Unsupported('reshape to a different number of elements')
        # drop unit axes on both sides, then match the radix lists
        dst_groups = []
        for s in shape: dst_groups.append(s)
        rsrc = [r for r in src if not (isinstance(r, int) and r == 1)]
        # each destination axis consumes consecutive source radices
        k = 0
        plan = []       # per dst axis: list of radices
        for s in dst_groups:
            if isinstance(s, int) and s == 1:
                plan.append([]); continue
            acc = []
            p = 1
            while not same_poly_or_eq(p, s):
                if k >= len(rsrc): raise Unsupported('reshape that splits an axis')
                acc.append(rsrc[k]); p = p * rsrc[k]; k += 1
                if isinstance(p, int) and isinstance(s, int) and p > s:
                    return self._reshape_concrete(shape)
            plan.append(acc)
        if k < len(rsrc):
            raise Unsupported('reshape that leaves axes over')
        old = self.view_
        sshape, ssp = self.shape_, self.sp

        def fwd(idx):
            ds = []
            for i, acc in zip(idx, plan):
                if not acc: continue
                ds += list(digits(i, acc)) if len(acc) > 1 else [i]
            ds = iter(ds)
            full = [0 if (isinstance(r, int) and r == 1) else next(ds) for r in src]
            # regroup into the source's own axes
            out, p = [], 0
            for s, f in zip(sshape, ssp):
                n = len(f.r) if f is not None else 1
                out.append(undigits(full[p:p + n], f.r) if f is not None else full[p])
                p += n
            return old.fwd(tuple(out))

        def inv(b):
            c, idx = old.inv(b)
            full = []
            for i, s, f in zip(idx, sshape, ssp):
                full += list(digits(i, f.r)) if f is not None else [i]
            ds = iter([d for d, r in zip(full, src) if not (isinstance(r, int) and r == 1)])
            out = []
            for acc in plan:
                if not acc: out.append(0); continue
                out.append(undigits([next(ds) for _ in acc], acc))
            return c, tuple(out)
        sp = [Flat(acc) if len(acc) > 1 else None for acc in plan]
        return T(shape, st=self.st, view=View(fwd, inv), dtype=self.dtype_, sp=sp)

    def _reshape_concrete(self, shape):
        if not all(isinstance(s, int) for s in tuple(shape) + self.shape_): raise Unsupported('reshape')
        old, ss = self.view_, self.shape_
        return T(shape, st=self.st, dtype=self.dtype_,
                 view=View(lambda i: old.fwd(digits(undigits(i, shape), ss)),
                           lambda b: (lambda ci: (ci[0], digits(undigits(ci[1], ss), shape)))(old.inv(b))))

    def axes(self):
        out = []
        for s, f in zip(self.shape_, self.sp):
            if f is not None: out += list(f.r)
            else: out.append(s)
        return out

    def view(self, *s): return self.reshape(*s)
    def view_as(self, o): return self.reshape(o.shape_)
    def flatten(self, *a, order='C'):
        if order == 'F':
            return self.permute(*range(self.ndim - 1, -1, -1)).reshape(-1)
        return self.reshape(-1)
    def ravel(self, *a): return self.reshape(-1)

    def permute(self, *d):
        if len(d) == 1 and isinstance(d[0], (tuple, list)): d = tuple(d[0])
        f = self.reader()
        invd = [d.index(k) for k in range(len(d))]
        return T(tuple(self.shape_[k] for k in d), lambda i: f(tuple(i[k] for k in invd)), dtype=self.dtype_,
                 sp=tuple(self.sp[k] for k in d))

    def transpose(self, a, b):
        d = list(range(self.ndim)); d[a], d[b] = d[b], d[a]
        return self.permute(*d)

    def unsqueeze(self, d):
        n = self.ndim
        d = d if d >= 0 else n + 1 + d
        old = self.view_
        return T(self.shape_[:d] + (1,) + self.shape_[d:], st=self.st, dtype=self.dtype_,
                 view=View(lambda i: old.fwd(i[:d] + i[d + 1:]),
                           lambda b: (lambda ci: (ci[0], ci[1][:d] + (0,) + ci[1][d:]))(old.inv(b))),
                 sp=self.sp[:d] + (None,) + self.sp[d:])

    def squeeze(self, d=None):
        if d is None:
            t = self
            for k in range(self.ndim - 1, -1, -1):
                if isinstance(self.shape_[k], int) and self.shape_[k] == 1: t = t.squeeze(k)
            return t
        d = d if d >= 0 else self.ndim + d
        if not (isinstance(self.shape_[d], int) and self.shape_[d] == 1):
            if isinstance(self.shape_[d], IX): raise Unsupported('squeeze of a symbolic axis')
            return self
        old = self.view_
        return T(self.shape_[:d] + self.shape_[d + 1:], st=self.st, dtype=self.dtype_,
                 view=View(lambda i: old.fwd(i[:d] + (0,) + i[d:]),
                           lambda b: (lambda ci: (ci[0], ci[1][:d] + ci[1][d + 1:]))(old.inv(b))),
                 sp=self.sp[:d] + self.sp[d + 1:])

    def expand(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        return broadcast_to(self, shape)

    def expand_as(self, o): return broadcast_to(self, o.shape_)

    # -- indexing
    def _key(self, key):
        """returns (shape, View, sp) for basic indexing"""
        if not isinstance(key, tuple): key = (key,)
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - n_real)
            else: out.append(k)
        key = out + [slice(None)] * (self.ndim - sum(1 for k in out if k is not None))
        shape, sp, ops = [], [], []
        ax = 0
        for k in key:
            if k is None:
                ops.append(('new',)); shape.append(1); sp.append(None); continue
            n = self.shape_[ax]
            f = self.sp[ax]
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step in (None, 1):
                    ops.append(('all',)); shape.append(n); sp.append(f)
                elif k.step not in (None, 1):
                    st = k.step
                    if f is not None and len(f.r) > 1 and isinstance(f.r[-1], int) and f.r[-1] == st and k.stop is None:
                        off = k.start or 0
                        if not (isinstance(off, int) and 0 <= off < st): raise Unsupported('strided slice')
                        r = f.r[:-1]
                        ops.append(('stride', st, off))
                        shape.append(prod(r)); sp.append(Flat(r) if len(r) > 1 else None)
                    elif isinstance(n, int) and all(isinstance(x, (int, type(None))) for x in (k.start, k.stop, st)) and st > 0:
                        a, b, c = slice(k.start, k.stop, st).indices(n)
                        m = len(range(a, b, c))
                        ops.append(('stridec', a, c, m)); shape.append(m); sp.append(None)
                    else: raise Unsupported('strided slice')
                else:
                    a = self._bound(k.start, n, 0)
                    b = self._bound(k.stop, n, n)
                    if isinstance(n, int) and isinstance(a, int) and isinstance(b, int):
                        a, b, _ = slice(a, b).indices(n)
                        b = max(a, b)
                    m = b - a
                    if not isinstance(m, int) or not isinstance(a, int) or not isinstance(b, int):
                        ok = and_(cmp_(a, 0, '>='), and_(cmp_(m, 0, '>='), cmp_(b, n, '<=')))
                        if ok is not True and not CTX.implied(ok):
                            raise Unsupported('slice bounds not provably inside the axis')
                    ops.append(('rng', a, m)); shape.append(m)
                    sp.append(f if (f is not None and same_poly_or_eq(m, n)) else None)
            elif isinstance(k, (int, IX)) and not isinstance(k, bool):
                if isinstance(k, int) and k < 0: k = n + k
                elif isinstance(k, IX) or isinstance(n, IX):
                    ok = and_(cmp_(k, 0, '>='), cmp_(k, n, '<'))
                    if ok is False: raise IndexError('index out of range')
                    if ok is not True and not CTX.implied(ok):
                        if not CTX.decide(sx.SB(sx.zb(ok), True)):
                            raise IndexError('index out of range')
                elif not (0 <= k < n):
                    raise IndexError('index %d is out of bounds for size %d' % (k, n))
                ops.append(('at', k))
            elif _isT(k) and k.shape_ == () and k.dtype_ == 'i':
                ops.append(('at', k.scalar()))
            else:
                return None
            ax += 1
        old = self.view_

        def fwd(idx):
            it = iter(idx)
            o = []
            for op in ops:
                if op[0] == 'new': next(it)
                elif op[0] == 'all': o.append(next(it))
                elif op[0] == 'rng': o.append(next(it) + op[1])
                elif op[0] == 'stride': o.append(next(it) * op[1] + op[2])
                elif op[0] == 'stridec': o.append(next(it) * op[2] + op[1])
                else: o.append(op[1])
            return old.fwd(tuple(o))

        def inv(b):
            c, idx = old.inv(b)
            it = iter(idx)
            o = []
            for op in ops:
                if op[0] == 'new': o.append(0)
                elif op[0] == 'all': o.append(next(it))
                elif op[0] == 'rng':
                    i = next(it) - op[1]
                    c = and_(c, and_(cmp_(i, 0, '>='), cmp_(i, op[2], '<')))
                    o.append(i)
                elif op[0] == 'stride':
                    q, r = sx.ix_divmod(next(it), op[1])
                    c = and_(c, cmp_(r, op[2], '=='))
                    o.append(q)
                elif op[0] == 'stridec':
                    q, r = sx.ix_divmod(next(it) - op[1], op[2])
                    c = and_(c, and_(cmp_(r, 0, '=='), and_(cmp_(q, 0, '>='), cmp_(q, op[3], '<'))))
                    o.append(q)
                else:
                    c = and_(c, cmp_(next(it), op[1], '=='))
            return c, tuple(o)
        return tuple(shape), View(fwd, inv), tuple(sp)

    @staticmethod
    def _bound(x, n, dflt):
        if x is None: return dflt
        if _isT(x): x = x.scalar()
        if isinstance(x, int):
            if x < 0:
                return n + x
            if isinstance(n, IX):
                return x
            return min(x, n)
        return x

    def __getitem__(self, key):
        if _isT(key) and key.dtype_ == 'b':
            if len(key.shape_) != self.ndim: raise Unsupported('partial mask')
            if getattr(self, 'mask', None) is not None: raise Unsupported('mask of a masked tensor')
            return T(self.shape_, self.reader(), dtype=self.dtype_, sp=self.sp, mask=key)
        if _isT(key) and key.dtype_ == 'i' and key.ndim == 1 and self.ndim == 1:
            f, g = self.reader(), key.reader()
            return T(key.shape_, lambda i: f((g(i),)), dtype=self.dtype_, sp=key.sp)
        if isinstance(key, tuple) and any(_isT(k) and k.ndim > 0 for k in key):
            raise Unsupported('advanced indexing')
        if isinstance(key, list): raise Unsupported('list indexing')
        r = self._key(key)
        if r is None: raise Unsupported('indexing with %r' % (key,))
        shape, view, sp = r
        t = T(shape, st=self.st, view=view, dtype=self.dtype_, sp=sp)
        t._from = (self, key if not isinstance(key, tuple) else tuple(key))
        return t

    def _write(self, valfn, view=None):
        view = view or self.view_
        old = self.st.fn
        LOG.storage(self.st)

        def fn(b):
            c, i = view.inv(b)
            if c is True: return valfn(i)
            if c is False: return old(b)
            e = sx.z3.simplify(c.e)
            if z3.is_true(e): return valfn(i)
            if z3.is_false(e): return old(b)
            if c.ix:
                if CTX.merge_writes:
                    v = merged(valfn, i, old, b)
                    if v is not None: return v
                return valfn(i) if CTX.decide(c) else old(b)
            return sel(c, valfn(i), old(b))
        self.st.set(fn)

    def __setitem__(self, key, val):
        if _isT(key) and key.dtype_ == 'b':
            m = key.reader()
            old = self.reader()
            if _isT(val) and val.mask is not None:
                if val.mask is not key and val.mask.st is not key.st: raise Unsupported('assignment through a different mask')
                v = val.reader()
            elif _isT(val) and val.ndim > 0:
                raise Unsupported('masked assignment of a dense tensor')
            else:
                v0 = val.scalar() if _isT(val) else val
                v = lambda i: v0
            self._write(lambda i: sel(m(i), v(i), old(i)))
            return
        if _isT(val) and val._from is not None and val.st is self.st and val._from[0] is self and val._inplace_done:
            return
        r = self._key(key) if not (_isT(key) and key.ndim) else None
        if r is None: raise Unsupported('assignment with this index')
        shape, view, sp = r
        if _isT(val):
            v = broadcast_to(val, shape)
            if v.mask is not None: raise Unsupported('assignment of a masked tensor')
            f = v.reader()
        else:
            if isinstance(val, (list, tuple)): raise Unsupported('assignment of a list')
            f = lambda i: val
        if self.dtype_ == 'f':
            g = f
        elif self.dtype_ == 'b':
            g = f
        else:
            g = f
        self._write(g, view)

    _inplace_done = False

    # -- arithmetic
    def _el(self, o, fn, dtype=None):
        return elementwise(fn, [self, o], dtype)

    def __add__(s, o): return s._el(o, sx_add)
    def __radd__(s, o): return elementwise(sx_add, [o, s])
    def __sub__(s, o): return s._el(o, sx_sub)
    def __rsub__(s, o): return elementwise(sx_sub, [o, s])
    def __mul__(s, o): return s._el(o, sx_mul)
    def __rmul__(s, o): return elementwise(sx_mul, [o, s])
    def __truediv__(s, o): return s._el(o, sx.div, 'f')
    def __rtruediv__(s, o): return elementwise(sx.div, [o, s], 'f')
    def __floordiv__(s, o): return s._el(o, lambda a, b: a // b, 'i')
    def __mod__(s, o): return s._el(o, lambda a, b: a % b, 'i')
    def __pow__(s, o): return s._el(o, sx_pow)
    def __rpow__(s, o): return elementwise(sx_pow, [o, s])
    def __neg__(s): return elementwise(lambda a: -a, [s])
    def __pos__(s): return s
    def __abs__(s): return elementwise(lambda a: abs(a), [s])
    def __lt__(s, o): return s._el(o, lambda a, b: cmp_(a, b, '<'), 'b')
    def __le__(s, o): return s._el(o, lambda a, b: cmp_(a, b, '<='), 'b')
    def __gt__(s, o): return s._el(o, lambda a, b: cmp_(a, b, '>'), 'b')
    def __ge__(s, o): return s._el(o, lambda a, b: cmp_(a, b, '>='), 'b')
    def __eq__(s, o): return s._el(o, lambda a, b: cmp_(a, b, '=='), 'b')
    def __ne__(s, o): return s._el(o, lambda a, b: not_(cmp_(a, b, '==')), 'b')
    def __and__(s, o): return s._el(o, and_, 'b')
    def __or__(s, o): return s._el(o, or_, 'b')
    def __invert__(s): return elementwise(not_, [s], 'b')
    abs = __abs__
    add = __add__
    sub = __sub__
    mul = __mul__
    def div(s, o): return s / o
    def pow(s, o): return s ** o
    def sqrt(s): return elementwise(sx.sqrt_, [s])
    def ceil(s): return elementwise(sx.ceil_, [s])
    def floor(s): return elementwise(sx.floor_, [s])
    def neg(s): return -s
    def where(s, c, o): return where(c, s, o)
    def maximum(s, o): return maximum(s, o)
    def minimum(s, o): return minimum(s, o)

    def _inplace(self, r):
        if _isT(r) and tuple(r.shape_) != tuple(self.shape_):
            r = broadcast_to(r, self.shape_)
        f = r.reader()
        self._write(f)
        self._inplace_done = True
        return self

    def __iadd__(s, o): return s._inplace(s + o)
    def __isub__(s, o): return s._inplace(s - o)
    def __imul__(s, o): return s._inplace(s * o)
    def __itruediv__(s, o): return s._inplace(s / o)
    def add_(s, o, alpha=1): return s._inplace(s + (o if alpha == 1 else alpha * o))
    def sub_(s, o, alpha=1): return s._inplace(s - (o if alpha == 1 else alpha * o))
    def mul_(s, o): return s._inplace(s * o)
    def div_(s, o): return s._inplace(s / o)
    def zero_(s): return s._inplace(full(s.shape_, 0))
    def fill_(s, v): return s._inplace(full(s.shape_, v))
    def copy_(s, o): return s._inplace(broadcast_to(o, s.shape_))

    def clamp(self, min=None, max=None): return clamp(self, min, max)
    def clip(self, min=None, max=None): return clamp(self, min, max)
    def clamp_(self, min=None, max=None): return self._inplace(clamp(self, min, max))
    def clamp_min(self, m): return clamp(self, m, None)
    def clamp_max(self, m): return clamp(self, None, m)

    # -- reductions
    def _red(self, kind):
        if self.mask is not None: raise Unsupported('reduction of a masked tensor')
        if all(isinstance(s, int) for s in self.shape_):
            import itertools
            vals = [self.at(*i) for i in itertools.product(*[range(s) for s in self.shape_])]
            return vals
        return None

    def max(self, *a, **k):
        if a or k: raise Unsupported('max along an axis')
        return reduce_ext(self, 'max')

    def min(self, *a, **k):
        if a or k: raise Unsupported('min along an axis')
        return reduce_ext(self, 'min')

    def sum(self, *a, **k):
        if a or k: raise Unsupported('sum along an axis')
        vals = self._red('sum')
        if vals is not None:
            r = 0
            for v in vals: r = (SR(zr(v)) if isinstance(v, (SB,)) else (int(v) if isinstance(v, bool) else v)) + r
            return scalar_tensor(r, 'i' if self.dtype_ in 'bi' else 'f')
        f = self.reader()
        s = CTX.real('sum')
        CTX.sums.append((s, self.shape_, f))
        if self.dtype_ == 'b':
            CTX.assume(cmp_(s, 0, '>='))
        return scalar_tensor(s)

    def mean(self, *a, **k):
        if a or k: raise Unsupported('mean along an axis')
        return scalar_tensor(self.sum().scalar() / self.numel())

    def prod(self):
        vals = self._red('prod')
        if vals is None: raise Unsupported('product over a symbolic axis')
        r = 1
        for v in vals: r = r * v
        return scalar_tensor(r)

    def norm(self, *a, **k):
        r = CTX.real('norm')
        CTX.assume(cmp_(r, 0, '>='))
        return scalar_tensor(r)

    def any(self): raise Unsupported('any')
    def all(self): raise Unsupported('all')

    def std(self, *a): raise Unsupported('std')

    def scatter_add_(self, dim, index, src):
        if dim != 0 or self.ndim != 1: raise Unsupported('scatter_add_')
        segs = [x for x in align_segments(index, src) if x is not None]
        f = self.reader()
        radices = self.sp[0].r if self.sp[0] is not None else (self.shape_[0],)
        parts = [SegInv(ix, radices) for ix, _ in segs]
        vals = [v.reader() for _, v in segs]

        def fn(i):
            r = f(i)
            for s, v in zip(parts, vals):
                c, p = s.inverse(i[0])
                if c is False: continue
                if c is True or CTX.decide(c):
                    r = r + v(p)
            return r
        self._write(fn)
        return self

    def index_add_(self, dim, index, src, alpha=1):
        return self.scatter_add_(dim, index, src if alpha == 1 else src * alpha)

    def __getattr__(self, name):
        if name.startswith('_'): raise AttributeError(name)
        raise Unsupported('tensor.%s is not modelled' % name)


def same_poly_or_eq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    d = a - b
    if isinstance(d, int): return d == 0
    return False


def sx_add(a, b):
    return _b2n(a) + _b2n(b)


def sx_sub(a, b): return _b2n(a) - _b2n(b)
def sx_mul(a, b): return _b2n(a) * _b2n(b)
def sx_pow(a, b):
    return sx.pow_(a, b)


def _b2n(x):
    if isinstance(x, SB): return SR(zr(x))
    if isinstance(x, bool): return int(x)
    if isinstance(x, float): return fr(x)
    return x


def _isT(o): return isinstance(o, T)


class SegInv:
    """inverse of an index family rows(p) = p + constant shift, digit by digit"""

    def __init__(self, seg, radices):
        self.R = seg.sp[0].r if seg.sp[0] is not None else (seg.shape_[0],)
        self.radices = radices
        if len(self.R) != len(radices): raise Unsupported('index family of another shape than its target')
        box = {}
        f = seg.reader()

        def body():
            p = [CTX.int('p') for _ in self.R]
            for d, r in zip(p, self.R):
                CTX.assume(cmp_(d, 0, '>=')); CTX.assume(cmp_(d, r, '<'))
            t = f((undigits(p, self.R),))
            ds = digits(t, radices)
            sh = []
            for a, b, rad in zip(ds, p, radices):
                c = a - b
                if not isinstance(c, int):
                    if isinstance(rad, int) and rad == 1 and isinstance(a, int) and a == 0: c = 0
                    else: raise Unsupported('index family is not a shift')
                sh.append(c)
            if 'sh' in box and box['sh'] != sh: raise Unsupported('index family with several shifts')
            box['sh'] = sh
        CTX.scoped(body)
        self.sh = box.get('sh')     # None: the family is empty

    def inverse(self, b):
        if self.sh is None: return False, None
        ds = digits(b, self.radices)
        c = True
        p = []
        for d, s, r in zip(ds, self.sh, self.R):
            q = d - s
            c = and_(c, and_(cmp_(q, 0, '>='), cmp_(q, r, '<')))
            p.append(q)
        if isinstance(c, SB):
            if CTX.implied(c): c = True
            elif CTX.implied(not_(c)): c = False
        return c, (Digits(p, self.R),)


def Digits(p, R):
    return undigits(p, R)


class CatT(T):
    """1-D concatenation, kept as its segments"""

    def __init__(self, segs, dtype):
        self.segs = segs
        n = 0
        for s in segs: n = n + s.shape_[0]
        T.__init__(self, (n,), self._fn, dtype=dtype, sp=(None,))

    def _fn(self, idx):
        i = idx[0]
        for s in self.segs:
            if CTX.decide(cmp_(i, s.shape_[0], '<')) if not isinstance(cmp_(i, s.shape_[0], '<'), bool) else cmp_(i, s.shape_[0], '<'):
                return s.at(i)
            i = i - s.shape_[0]
        raise IndexError('index out of range')

    def map(self, f, dtype=None):
        return CatT([f(s) for s in self.segs], dtype or self.dtype_)


def box_of_mask(t):
    """a masked 1-D tensor over a flattened grid whose mask selects a box: as a dense tensor of that box"""
    if t.mask is None: return t
    m = t.mask
    if m.ndim != 1: raise Unsupported('masked selection of a multi-dimensional tensor')
    if isinstance(m.shape_[0], int):
        mf, f = m.reader(), t.reader()
        keep = []
        for i in range(m.shape_[0]):
            c = mf((i,))
            if not isinstance(c, bool): raise Unsupported('data-dependent selection')
            if c: keep.append(i)
        return T((len(keep),), lambda idx: f((keep[idx[0]],)), dtype=t.dtype_, sp=(None,)) if True else None
    fl = m.sp[0]
    if fl is None: raise Unsupported('selection on an unstructured axis')
    R = fl.r
    mf, f = m.reader(), t.reader()
    cands = [(None, 0, 0)] + [(d, lo, 1) for d in range(len(R)) for lo in (0, 1)]
    for d, lo, cut in cands:
        good = [True]

        def body():
            p = [CTX.int('m') for _ in R]
            for a, r in zip(p, R):
                CTX.assume(cmp_(a, 0, '>=')); CTX.assume(cmp_(a, r, '<'))
            c = mf((undigits(p, R),))
            inb = True if d is None else (cmp_(p[d], R[d] - 1, '<') if lo == 0 else cmp_(p[d], 1, '>='))
            e = sx.zb(c) == sx.zb(inb)
            if not CTX.implied(SB(e)): good[0] = False
        CTX.scoped(body)
        if good[0]:
            newR = tuple(r - 1 if k == d and cut else r for k, r in enumerate(R))

            def g(idx, d=d, lo=lo, newR=newR):
                p = list(digits(idx[0], newR))
                if d is not None: p[d] = p[d] + lo
                return f((undigits(p, R),))
            return T((prod(newR),), g, dtype=t.dtype_, sp=(Flat(newR),))
    raise Unsupported('selection that is not a box')


def cat(ts, dim=0):
    ts = list(ts)
    if dim not in (0,) : raise Unsupported('cat along another axis')
    segs = []
    for t in ts:
        if isinstance(t, CatT): segs += t.segs
        else: segs.append(box_of_mask(t))
    if segs[0].ndim != 1: raise Unsupported('cat of multi-dimensional tensors')
    dt = 'f' if any(s.dtype_ == 'f' for s in segs) else segs[0].dtype_
    return CatT(segs, dt)


def align_segments(a, b):
    sa = a.segs if isinstance(a, CatT) else [box_of_mask(a)]
    sb = b.segs if isinstance(b, CatT) else [box_of_mask(b)]
    if len(sa) != len(sb): raise Unsupported('index and value families do not line up')
    out = []
    for x, y in zip(sa, sb):
        rx = x.sp[0].r if x.sp[0] is not None else (x.shape_[0],)
        ry = y.sp[0].r if y.sp[0] is not None else (y.shape_[0],)
        ux, uy = ([q for q in r if not (isinstance(q, int) and q == 1)] for r in (rx, ry))
        if len(ux) != len(uy) or not all(same_poly_or_eq(p, q) for p, q in zip(ux, uy)):
            if all(any(CTX.implied(cmp_(p, 0, '<=')) for p in r) for r in (rx, ry)):
                out.append(None)        # both empty
                continue
            raise Unsupported('index and value families have different shapes: %r %r' % (rx, ry))
        out.append((x, y))
    return out


class COO:
    """sparse matrix: families of entries (row(p), col(p), val(p))"""
    _is_sparse_sym = True

    def __init__(self, rows, cols, vals, size):
        rc = align_segments(rows, cols)
        rv = align_segments(rows, vals)
        self.rows_, self.cols_, self.vals_ = rows, cols, vals
        self.size_ = tuple(size)
        self.fam = [(a[0], a[1], b[1]) for a, b in zip(rc, rv) if a is not None and b is not None]
        f = flat_of(size[0])
        self.radices = f.r if f is not None else (size[0],)
        self.inv = None

    def coalesce(self): return self
    def size(self, d=None): return Size(self.size_) if d is None else self.size_[d]

    @property
    def shape(self): return Size(self.size_)

    @property
    def device(self): return DEVICE

    def values(self): return self.vals_
    def indices(self): return IndexPair(self.rows_, self.cols_)
    def to(self, *a, **k): return self
    def double(self): return self

    def entry(self, r, c):
        """sum of the entries stored at (row, col)"""
        if self.inv is None: self.inv = [SegInv(f[0], self.radices) for f in self.fam]
        tot = Fraction(0)
        cd = digits(c, self.radices)
        for (rw, cl, vl), s in zip(self.fam, self.inv):
            ok, p = s.inverse(r)
            if ok is False: continue
            if ok is not True and not CTX.decide(ok): continue
            d = digits(cl.at(*p), self.radices)
            e = True
            for x, y in zip(d, cd): e = and_(e, cmp_(x, y, '=='))
            if e is False: continue
            if e is True or CTX.decide(e):
                tot = tot + vl.at(*p)
        return tot

    def matvec(self, xf):
        """row r of A x, as a function of the flat row index"""
        if self.inv is None: self.inv = [SegInv(f[0], self.radices) for f in self.fam]

        def row(r):
            tot = Fraction(0)
            for (rw, cl, vl), s in zip(self.fam, self.inv):
                ok, p = s.inverse(r)
                if ok is False: continue
                if ok is not True and not CTX.decide(ok): continue
                tot = tot + vl.at(*p) * xf(cl.at(*p))
            return tot
        return row

    def __getattr__(self, name):
        if name.startswith('_'): raise AttributeError(name)
        raise Unsupported('sparse.%s is not modelled' % name)


class IndexPair:
    def __init__(self, r, c): self.r, self.c = r, c


# ---------------------------------------------------------------- constructors
class Size(tuple):
    def numel(self): return prod(self)


class DType:
    def __init__(self, kind, name): self.kind, self.name = kind, name
    def __repr__(self): return self.name


DTYPES = {'f': DType('f', 'float'), 'i': DType('i', 'int64'), 'b': DType('b', 'bool')}


def as_dtype(d):
    if isinstance(d, DType): return d
    n = getattr(d, '__name__', str(d))
    if 'float' in n: return DTYPES['f']
    if 'int' in n: return DTYPES['i']
    if 'bool' in n: return DTYPES['b']
    raise Unsupported('dtype %s' % n)


class Device:
    type = 'cpu'
    index = None
    def __eq__(self, o): return isinstance(o, Device) or o == 'cpu'
    def __hash__(self): return 1
    def __format__(self, s): return 'cpu'
    def __str__(self): return 'cpu'


DEVICE = Device()


def _shape(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)): a = tuple(a[0])
    return tuple(x.scalar() if _isT(x) else x for x in a)


def full(shape, v, dtype=None, device=None, **k):
    if isinstance(shape, (int, IX)): shape = (shape,)
    v = v.scalar() if _isT(v) else fr(v) if isinstance(v, float) else v
    dt = as_dtype(dtype).kind if dtype is not None else ('b' if isinstance(v, (bool, SB)) else 'f')
    return T(_shape((shape,)), lambda i: v, dtype=dt)


def zeros(*shape, dtype=None, device=None, **k):
    return full(_shape(shape), False if dtype is not None and as_dtype(dtype).kind == 'b' else 0, dtype or DTYPES['f'])


def ones(*shape, dtype=None, device=None, **k):
    return full(_shape(shape), True if dtype is not None and as_dtype(dtype).kind == 'b' else 1, dtype or DTYPES['f'])


def _like(t, v, dtype):
    r = full(t.shape_, v, dtype or t.dtype)
    r.sp = t.sp
    r.mask = t.mask
    return r


def zeros_like(t, dtype=None, **k):
    if hasattr(type(t), 'zeros_like'): return t.zeros_like()
    return _like(t, False if t.dtype_ == 'b' else 0, dtype)
def ones_like(t, dtype=None, **k): return _like(t, 1, dtype)
def full_like(t, v, dtype=None, **k): return _like(t, v, dtype)


def scalar_tensor(v, dtype='f'):
    return T((), lambda i: v, dtype=dtype)


def tensor(data, dtype=None, device=None, **k):
    if _isT(data): return data.clone()
    if isinstance(data, (list, tuple)):
        def shp(d): return (len(d),) + shp(d[0]) if isinstance(d, (list, tuple)) and d else ((0,) if isinstance(d, (list, tuple)) else ())
        sh = shp(data)

        def fn(i):
            d = data
            for x in i:
                if not isinstance(x, int):
                    if isinstance(x, IX):
                        r = d[-1]
                        for q in range(len(d) - 2, -1, -1): r = sel(cmp_(x, q, '=='), d[q], r)
                        return r
                d = d[x]
            return d.scalar() if _isT(d) else fr(d)
        flat = data
        while isinstance(flat, (list, tuple)) and flat: flat = flat[0]
        kind = as_dtype(dtype).kind if dtype is not None else ('i' if isinstance(flat, (int, IX)) and not isinstance(flat, bool) else 'f')
        return T(sh, fn, dtype=kind)
    v = fr(data) if isinstance(data, float) else data
    return scalar_tensor(v, as_dtype(dtype).kind if dtype is not None else ('i' if isinstance(v, (int, IX)) else 'f'))


def arange(*a, device=None, dtype=None, **k):
    a = tuple(x.scalar() if _isT(x) else x for x in a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if not (isinstance(st, int) and st == 1):
        raise Unsupported('arange with a step')
    if not isinstance(lo, (int, IX)) or not isinstance(hi, (int, IX)): raise Unsupported('arange of reals')
    return T((hi - lo,), lambda i: i[0] + lo, dtype='i')


def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        ds = [s[len(s) - n + k] for s in shapes if len(s) - n + k >= 0]
        r = 1
        for d in ds:
            if isinstance(d, int) and d == 1: continue
            if isinstance(r, int) and r == 1: r = d; continue
            if not same(r, d):
                if isinstance(r, int) and isinstance(d, int):
                    raise RuntimeError('The size of tensor a (%d) must match the size of tensor b (%d)' % (r, d))
                # sizes that may differ: broadcasting of a symbolic axis of size 1, or an error
                if CTX.decide(cmp_(r, d, '==')): continue
                raise RuntimeError('The sizes of two tensors do not match')
        out.append(r)
    return tuple(out)


def broadcast_to(t, shape):
    shape = tuple(shape)
    if not _isT(t): return full(shape, t)
    if tuple(t.shape_) == shape: return t
    k = len(shape) - t.ndim
    if k < 0:
        # assignment drops leading unit axes
        if all(isinstance(s, int) and s == 1 for s in t.shape_[:-k]):
            u = t
            for _ in range(-k): u = u.squeeze(0)
            return broadcast_to(u, shape)
        raise RuntimeError('shape mismatch')
    ones_ = []
    for a, b in zip(t.shape_, shape[k:]):
        if isinstance(a, int) and a == 1: ones_.append(True)
        elif same(a, b): ones_.append(False)
        else:
            if isinstance(a, int) and isinstance(b, int): raise RuntimeError('shape mismatch: %r to %r' % (t.shape_, shape))
            if CTX.decide(cmp_(a, b, '==')): ones_.append(False)
            else: raise RuntimeError('shape mismatch')
    f = t.reader()
    return T(shape, lambda i: f(tuple(0 if o else x for o, x in zip(ones_, i[k:]))), dtype=t.dtype_)


def elementwise(fn, args, dtype=None):
    for a in args:
        if hasattr(a, '_linvec'): return NotImplemented
        if not (_isT(a) or isinstance(a, NUM) or isinstance(a, (bool, SB))):
            return NotImplemented
    cats = [a for a in args if isinstance(a, CatT)]
    if cats:
        n = len(cats[0].segs)
        if any(len(c.segs) != n for c in cats) or any(_isT(a) and not isinstance(a, CatT) and a.ndim for a in args):
            raise Unsupported('mixing concatenated and plain tensors')
        return CatT([elementwise(fn, [a.segs[k] if isinstance(a, CatT) else a for a in args], dtype) for k in range(n)],
                    dtype or ('f' if any(c.dtype_ == 'f' for c in cats) else cats[0].dtype_))
    ts = [a for a in args if _isT(a)]
    masks = [a.mask for a in ts if a.mask is not None]
    mask = masks[0] if masks else None
    for m in masks:
        if m is not mask and m.st is not mask.st: raise Unsupported('combining differently masked tensors')
    if mask is not None and any(a.mask is None and a.ndim for a in ts):
        raise Unsupported('combining masked and dense tensors')
    shape = bshape([a.shape_ for a in ts]) if len(ts) > 1 else ts[0].shape_
    fs = []
    sp = None
    for a in args:
        if _isT(a):
            b = broadcast_to(a, shape)
            if a.ndim == len(shape) and sp is None: sp = list(a.sp)
            elif a.ndim == len(shape):
                sp = [x or y for x, y in zip(sp, a.sp)]
            fs.append(b.reader())
        else:
            v = fr(a) if isinstance(a, float) else a
            fs.append(lambda i, v=v: v)
    if dtype is None:
        dtype = 'f' if any((_isT(a) and a.dtype_ == 'f') or isinstance(a, (Fraction, float, SR)) for a in args) else (
            'i' if any((_isT(a) and a.dtype_ == 'i') or isinstance(a, (int, IX)) and not isinstance(a, bool) for a in args) else 'b')
    return T(shape, lambda i: fn(*[f(i) for f in fs]), dtype=dtype, sp=sp, mask=mask)


def where(c, a, b):
    if not _isT(c): c = scalar_tensor(c, 'b')
    dt = 'f' if any(_isT(x) and x.dtype_ == 'f' or isinstance(x, (Fraction, SR, float)) for x in (a, b)) else None
    return elementwise(sel, [c, a, b], dt or 'i')


def _max2(a, b):
    if native(a) and native(b): return max(fr(a), fr(b))
    return sel(cmp_(a, b, '>='), a, b)


def _min2(a, b):
    if native(a) and native(b): return min(fr(a), fr(b))
    return sel(cmp_(a, b, '<='), a, b)


def maximum(a, b): return elementwise(_max2, [a, b])
def minimum(a, b): return elementwise(_min2, [a, b])


def clamp(t, min=None, max=None):
    # torch.clamp(x, lo, hi) = min(max(x, lo), hi)
    r = t
    if min is not None: r = elementwise(_max2, [r, min])
    if max is not None: r = elementwise(_min2, [r, max])
    return r


def reduce_ext(t, kind):
    vals = t._red(kind)
    if vals is not None:
        r = vals[0]
        for v in vals[1:]: r = (_max2 if kind == 'max' else _min2)(r, v)
        return scalar_tensor(r, t.dtype_)
    m = CTX.real(kind)
    f = t.reader()
    op = '>=' if kind == 'max' else '<='
    CTX.univ.append((t.shape_, lambda i: cmp_(m, f(i), op)))
    # attained somewhere
    w = [CTX.int('w') for _ in t.shape_]
    for a, n in zip(w, t.shape_):
        CTX.assume(cmp_(a, 0, '>=')); CTX.assume(cmp_(a, n, '<'))
    CTX.nofork = True
    try: v = f(tuple(w))
    except sx.NoFork: v = None
    except Unsupported: v = False
    finally: CTX.nofork = False
    if v is not None and v is not False: CTX.assume(cmp_(m, v, '=='))
    elif v is None: CTX.lazy.append(lambda: cmp_(m, f(tuple(w)), '=='))
    return scalar_tensor(m, t.dtype_)
