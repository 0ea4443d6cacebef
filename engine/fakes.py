"""Symbolic counterparts of the libraries the repository imports.  Anything not listed is refused
(Unsupported), never guessed."""
import math, types
from fractions import Fraction
import z3
from . import sx, st, loops
from .sx import SR, SB, IX, CTX, Unsupported, cmp_, and_, or_, not_, sel, native, fr
from .st import T


class Ns:
    def __init__(self, _name, **k):
        self.__dict__.update(k)
        self.__dict__['_name'] = _name

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('%s.%s is not modelled' % (self.__dict__['_name'], n))


def el1(f, dt=None):
    def g(x, *a, **k):
        if isinstance(x, T): return st.elementwise(f, [x], dt)
        return f(x)
    return g


def t_max(*a, **k):
    if len(a) == 1 and isinstance(a[0], T) and not k: return a[0].max()
    if len(a) == 2 and isinstance(a[1], T): return st.maximum(*a)
    raise Unsupported('max with axis')


def t_min(*a, **k):
    if len(a) == 1 and isinstance(a[0], T) and not k: return a[0].min()
    if len(a) == 2 and isinstance(a[1], T): return st.minimum(*a)
    raise Unsupported('min with axis')


def t_dot(a, b):
    if hasattr(a, '_linvec'): return a.dot(b)
    if hasattr(b, '_linvec'): raise Unsupported('dot')
    return (a * b).sum()


def t_zeros_like(x, *a, **k): return x.zeros() if hasattr(x, '_linvec') else st.zeros_like(x, *a, **k)


def t_mm(a, b):
    if hasattr(a, '_linop') or hasattr(a, '_linvec'): return a @ b
    raise Unsupported('matrix product')


def t_norm(x, *a, **k):
    if hasattr(x, '_linvec'): return x.norm()
    return x.norm()


def t_abs(x):
    return abs(x)


def sparse_coo(idx, vals, size=None, device=None, dtype=None, **k):
    if isinstance(idx, st.IndexPair): return st.COO(idx.r, idx.c, vals, size)
    if isinstance(idx, Stack2): return st.COO(idx.a, idx.b, vals, size)
    if isinstance(idx, (list, tuple)) and len(idx) == 2: return st.COO(idx[0], idx[1], vals, size)
    raise Unsupported('sparse_coo_tensor with these indices')


class Stack2:
    def __init__(self, a, b): self.a, self.b = a, b
    def to(self, *a, **k): return self
    def long(self): return self


def t_stack(ts, dim=0):
    ts = list(ts)
    if len(ts) == 2 and dim == 0 and ts[0].ndim == 1: return Stack2(ts[0], ts[1])
    n = len(ts)
    if dim == 0:
        fs = [t.reader() for t in ts]

        def fn(i):
            k = i[0]
            if isinstance(k, int): return fs[k](i[1:])
            r = fs[-1](i[1:])
            for q in range(n - 2, -1, -1): r = sel(cmp_(k, q, '=='), fs[q](i[1:]), r)
            return r
        return T((n,) + ts[0].shape_, fn, dtype=ts[0].dtype_)
    raise Unsupported('stack along another axis')


def sparse_mm(A, x):
    if hasattr(A, '_linop'): return A.apply(x)
    if isinstance(A, st.COO):
        if x.ndim != 2: raise Unsupported('sparse.mm with a vector')
        f = x.reader()
        return T((A.size_[0], x.shape_[1]), lambda i: A.matvec(lambda c: f((c, i[1])))(i[0]))
    raise Unsupported('sparse.mm')


def t_isfinite(x):
    return st.elementwise(lambda a: True, [x], 'b')


def t_isnan(x):
    if isinstance(x, T): return st.elementwise(lambda a: False, [x], 'b')
    return False


def t_nan_to_num(x, *a, **k): return x


def t_where(c, *ab):
    if not ab: raise Unsupported('where with one argument')
    return st.where(c, *ab)


def t_pow(a, b): return a ** b if isinstance(a, T) or isinstance(b, T) else sx.pow_(a, b)


def t_linalg_solve(A, b): raise Unsupported('dense linear solve')


def make_device(*a, **k): return st.DEVICE


class NoGrad:
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __call__(self, f): return f


class TensorMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, T) or hasattr(x, '_linvec')


class Tensor(metaclass=TensorMeta):
    _tensor_class = True


def make_torch():
    D = st.DTYPES
    return Ns('torch', tensor=st.tensor, as_tensor=st.tensor, zeros=st.zeros, ones=st.ones, full=st.full,
              empty=st.zeros, zeros_like=t_zeros_like, ones_like=st.ones_like, full_like=st.full_like,
              empty_like=st.zeros_like, where=t_where, clamp=st.clamp, clip=st.clamp, maximum=st.maximum, minimum=st.minimum,
              max=t_max, min=t_min, abs=t_abs, exp=el1(sx.exp_, 'f'), log=el1(sx.log_, 'f'), sqrt=el1(sx.sqrt_, 'f'),
              pow=t_pow, cat=st.cat, concat=st.cat, concatenate=st.cat, stack=t_stack, arange=st.arange,
              ceil=el1(sx.ceil_), floor=el1(sx.floor_), sum=lambda x, *a, **k: x.sum(*a, **k), mean=lambda x: x.mean(),
              dot=t_dot, norm=t_norm, mm=t_mm, mv=t_mm, matmul=t_mm, isnan=t_isnan, isinf=t_isnan, isfinite=t_isfinite, nan_to_num=t_nan_to_num,
              from_numpy=lambda x: x, device=make_device, Tensor=Tensor, no_grad=NoGrad, is_tensor=lambda x: isinstance(x, Tensor),
              float32=D['f'], float64=D['f'], double=D['f'], float=D['f'], long=D['i'], int64=D['i'], int32=D['i'], int=D['i'], bool=D['b'],
              cuda=Ns('torch.cuda', is_available=lambda: False), sparse_coo_tensor=sparse_coo,
              sparse=Ns('torch.sparse', mm=sparse_mm), linalg=Ns('torch.linalg', solve=t_linalg_solve, norm=t_norm),
              jit=Ns('torch.jit', script=lambda f: f), set_default_dtype=lambda d: None,
              get_default_dtype=lambda: D['f'], multiply=lambda a, b: a * b, add=lambda a, b: a + b,
              sub=lambda a, b: a - b, mul=lambda a, b: a * b, div=lambda a, b: sx.div(a, b), square=lambda x: x * x,
              logical_and=lambda a, b: a & b, logical_or=lambda a, b: a | b, logical_not=lambda a: ~a,
              neg=lambda x: -x, clone=lambda x: x.clone(), flatten=lambda x: x.flatten(), reshape=lambda x, s: x.reshape(s),
              roll=_refuse('roll'), diff=t_diff, lt=lambda a, b: a < b, gt=lambda a, b: a > b, le=lambda a, b: a <= b, ge=lambda a, b: a >= b)


def _refuse(n):
    def f(*a, **k): raise Unsupported('torch.%s is not modelled' % n)
    return f


def t_diff(x, dim=-1):
    d = dim if dim >= 0 else x.ndim + dim
    a = tuple(slice(1, None) if k == d else slice(None) for k in range(x.ndim))
    b = tuple(slice(None, -1) if k == d else slice(None) for k in range(x.ndim))
    return x[a] - x[b]


# ---------------------------------------------------------------- numpy
SEG = {}


def np_interp(x, xp, fp, left=None, right=None, period=None):
    """numpy.interp for increasing xp: flat beyond the ends (or left/right), piecewise linear between"""
    n = xp.shape_[0]
    L = fp.at(0) if left is None else (left.scalar() if isinstance(left, T) else left)
    R = fp.at(n - 1) if right is None else (right.scalar() if isinstance(right, T) else right)

    def one(v):
        key = (id(xp), str(sx.zr(v)))
        if key not in SEG: SEG[key] = (CTX.int('seg'), xp)
        j = SEG[key][0]
        # v <= xp[0] / v >= xp[-1] / inside segment j
        lo, hi = xp.at(0), xp.at(n - 1)
        if CTX.decide(cmp_(v, lo, '<')): return L
        if CTX.decide(cmp_(v, hi, '>')): return R
        if CTX.decide(cmp_(v, hi, '==')): return fp.at(n - 1)
        CTX.assume(cmp_(j, 0, '>=')); CTX.assume(cmp_(j, n - 1, '<'))
        a, b = xp.at(j), xp.at(j + 1)
        CTX.assume(cmp_(v, a, '>=')); CTX.assume(cmp_(v, b, '<'))
        fa, fb = fp.at(j), fp.at(j + 1)
        return fa + sx.div(fb - fa, b - a) * (v - a)
    if isinstance(x, T): return st.elementwise(one, [x], 'f')
    return one(x)


def np_asarray(x, dtype=None, **k):
    if isinstance(x, T): return x if dtype is None else x.cast(st.as_dtype(dtype))
    if isinstance(x, SymCol): return x.tensor()
    return st.tensor(x, dtype=dtype)


class GymEnv:
    def reset(self, *, seed=None, options=None): pass
    def step(self, action): pass
    def close(self): pass


def json_load(h):
    if type(h).__name__ == 'Handle': return h.data
    raise Unsupported('json.load')


class SymCol:
    """a JSON array of symbolic length"""
    def __init__(self, name, n, fn): self.name, self.n, self.fn = name, n, fn
    def tensor(self): return T((self.n,), lambda i: self.fn(i[0]))


def np_linspace(a, b, n, **k):
    def fn(i): return a + (b - a) * sx.div(i[0], n - 1) if not (isinstance(n, int) and n == 1) else a
    return T((n,), fn)


def np_full(s, v, dtype=None): return st.full(s, v)


def np_where(*a): return t_where(*a)


def np_clip(x, a=None, b=None, **k):
    return st.clamp(x, k.get('a_min', a), k.get('a_max', b)) if isinstance(x, T) else _clip(x, a, b)


def _clip(x, a, b):
    if a is not None: x = st._max2(x, a)
    if b is not None: x = st._min2(x, b)
    return x


def np_concat(ts, axis=0): return st.cat(ts)


def np_savez(path, *a, **k):
    from . import load, loops
    if a or loops.STACK: raise Unsupported('savez')
    load.SAVED.append({n: v.clone() for n, v in k.items()})


def make_numpy():
    D = st.DTYPES

    def dt(name, kind):
        def f(x=0): return x.cast(D[kind]) if isinstance(x, T) else (fr(x) if isinstance(x, float) else x)
        f.__name__ = name
        return f
    el2 = lambda f: (lambda a, b, *r, **k: st.elementwise(f, [a, b]) if isinstance(a, T) or isinstance(b, T) else f(a, b))
    return Ns('numpy', asarray=np_asarray, array=np_asarray, ascontiguousarray=np_asarray, zeros_like=st.zeros_like, ones_like=st.ones_like,
              zeros=lambda s, dtype=None: st.zeros(s), ones=lambda s, dtype=None: st.ones(s), full=np_full, full_like=st.full_like,
              interp=np_interp, float64=dt('float64', 'f'), float32=dt('float32', 'f'), int64=dt('int64', 'i'), int32=dt('int32', 'i'),
              linspace=np_linspace, where=np_where, clip=np_clip, minimum=el2(st._min2), maximum=el2(st._max2),
              exp=el1(sx.exp_, 'f'), log=el1(sx.log_, 'f'), log10=el1(log10, 'f'), sqrt=el1(sx.sqrt_, 'f'), abs=el1(abs),
              power=lambda a, b: t_pow(a, b), pi=Fraction(repr(math.pi)), inf=math.inf, ndarray=Tensor, concatenate=np_concat,
              isnan=t_isnan, isinf=t_isnan, isfinite=t_isfinite, arange=st.arange, sum=lambda x: x.sum(), max=t_max, min=t_min,
              mean=lambda x: x.mean(), square=lambda x: x * x, floor=el1(sx.floor_), ceil=el1(sx.ceil_), savez=np_savez, savez_compressed=np_savez,
              array2string=lambda *a, **k: '', any=_refuse('any'))


def log10(x):
    return sx.div(sx.log_(x), SR(sx.LOG(z3.RealVal(10))))


def make_math():
    return Ns('math', pi=Fraction(repr(math.pi)), e=Fraction(repr(math.e)), inf=math.inf, log=lambda x, *b: sx.div(sx.log_(x), sx.log_(b[0])) if b else sx.log_(x),
              exp=sx.exp_, sqrt=lambda x: Fraction(math.isqrt(x)) if isinstance(x, int) and math.isqrt(x) ** 2 == x else sx.sqrt_(x),
              ceil=lambda x: sx.ceil_(_s(x)), floor=lambda x: sx.floor_(_s(x)), isnan=lambda x: False, isinf=lambda x: isinstance(x, float) and math.isinf(x),
              isfinite=lambda x: not (isinstance(x, float) and math.isinf(x)), pow=sx.pow_, fabs=abs, isclose=_refuse('isclose'), log10=log10)


def _s(x): return x.scalar() if isinstance(x, T) else x


class Absorb:
    """a stand-in for libraries whose results the properties never look at (plotting, clocks)"""
    def __init__(self, name='absorb'): self.__dict__['_n'] = name
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Absorb(self._n + '.' + n)
    def __call__(self, *a, **k): return Absorb(self._n + '()')
    def __iter__(self): return iter((Absorb(), Absorb()))
    def __getitem__(self, k): return Absorb()
    def __setitem__(self, k, v): pass
    def __setattr__(self, k, v): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __sub__(self, o): return Fraction(0)
    def __add__(self, o): return Absorb()
    __radd__ = __rsub__ = __add__
    def __format__(self, s): return ''


GYM = Ns('gymnasium', Env=GymEnv, spaces=Absorb('spaces'), Space=Absorb('Space'))


def make_fakes(extra=None):
    path = Ns('os.path', join=lambda *a: '/'.join(str(x) for x in a), exists=lambda p: True, dirname=lambda p: p.rpartition('/')[0],
              basename=lambda p: p.rpartition('/')[2], abspath=lambda p: p, splitext=lambda p: __import__('os').path.splitext(p),
              isdir=lambda p: True, isfile=lambda p: True)
    import os as _os
    f = {'torch': make_torch(), 'numpy': make_numpy(), 'math': make_math(), 'time': Ns('time', time=lambda: Fraction(0), perf_counter=lambda: Fraction(0)),
         'os': Ns('os', path=path, environ={}, makedirs=lambda *a, **k: None, listdir=_refuse('listdir'), getenv=lambda *a: a[1] if len(a) > 1 else None),
         'datetime': Absorb('datetime'), 'matplotlib': Absorb('matplotlib'), 'scipy': Absorb('scipy'), 'tqdm': Ns('tqdm', tqdm=lambda x=None, *a, **k: x, trange=None),
         'sys': Absorb('sys'), 'imageio': Absorb('imageio'), 'glob': Absorb('glob'), 'json': Ns('json', load=json_load, dump=_refuse('json.dump')),
         'gymnasium': GYM, 'gym': GYM, 'argparse': Absorb('argparse'), 'random': _refuse_ns('random'), 'logging': Absorb('logging'),
         'vtk': Absorb('vtk'), 'pyevtk': Absorb('pyevtk'), 'traceback': Absorb('traceback')}
    if extra: f.update(extra)
    return f


def _refuse_ns(n): return Ns(n)
