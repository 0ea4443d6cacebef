"""Symbolic environment of a contract: inputs are arbitrary, checks are proof obligations."""
import math, time, sys
from fractions import Fraction
import z3
from . import sx, st, loops, fakes, load, lv
from .sx import SR, SB, IX, CTX, Unsupported, PathEnd, cmp_, and_, or_, not_, sel, native, fr
from .st import T
from .spec import Stub as spec_Stub


class TrialFail(Exception): pass


class Ob:
    def __init__(self, name):
        self.name = name
        self.vcs = 0
        self.proved = 0
        self.fail = []      # (status, inputs or None, detail)
        self.by = {}


class E:
    symbolic = True

    def __init__(self, contract):
        self.c = contract
        self.obs = {}
        self.covers = {}
        self.stop_at_fail = True
        self.thorough = False

    def begin(self):
        self.inputs = {}
        self._ks = []
        self.trial = None
        self.cuts = ()
        loops.CLASSIC[0] = False
        loops.GUESS[0] = True
        self.loader = load.Loader(fakes.make_fakes())
        del st.GRIDS[:]
        lv.reset()
        self.funcs = []
        load.FILES.clear(); fakes.SEG.clear(); del load.SAVED[:]
        self.pathn = getattr(self, 'pathn', 0) + 1

    # -- inputs
    def real(self, name, lo=None, hi=None, pos=False, samp=None, log=False):
        v = CTX.real(name)
        self.inputs[name] = ('real', v.e)
        if pos: CTX.assume(cmp_(v, 0, '>'))
        if lo is not None: CTX.assume(cmp_(v, _v(lo), '>='))
        if hi is not None: CTX.assume(cmp_(v, _v(hi), '<='))
        return v

    def int(self, name, lo=None, hi=None, samp=None):
        v = CTX.int(name)
        self.inputs[name] = ('int', v.z())
        if lo is not None: CTX.assume(cmp_(v, lo, '>='))
        if hi is not None: CTX.assume(cmp_(v, hi, '<='))
        return v

    def bool(self, name):
        v = CTX.bool(name)
        self.inputs[name] = ('bool', v.e)
        return v

    def flag(self, name):
        """a concrete boolean: both values are explored"""
        b = CTX.choose(2) == 1
        self.inputs[name] = ('const', b)
        return b

    def choice(self, name, options):
        k = CTX.choose(len(options))
        self.inputs[name] = ('const', k)
        return options[k]

    def grid(self, name='n', nz1=False, lo=1):
        g = []
        for a in 'xyz':
            v = CTX.int(name + a)
            self.inputs[name + a] = ('int', v.z())
            CTX.assume(cmp_(v, lo, '>='))
            g.append(v)
        if nz1: g[2] = 1
        g = tuple(g)
        st.GRIDS.append(g)
        return g

    def cell(self, g, name='c'):
        out = []
        for a, n in zip('ijk', g):
            v = CTX.int(name + a)
            self.inputs[name + a] = ('int', v.z())
            CTX.assume(cmp_(v, 0, '>=')); CTX.assume(cmp_(v, n, '<'))
            out.append(v)
        return tuple(out)

    def field(self, name, shape, lo=None, hi=None, pos=False, samp=None, log=False, nonzero=False):
        t = T(shape, lambda i: 0)
        f = loops.fresh_uf(name, shape, t.sp, 'f')
        if lo is not None or hi is not None or pos:
            def ax(a):
                o = []
                if pos: o.append(a > 0)
                if lo is not None: o.append(a >= sx.zr(_v(lo)))
                if hi is not None: o.append(a <= sx.zr(_v(hi)))
                return o
            sx.AXIOMS[f.uf] = ax
        else: sx.AXIOMS.pop(f.uf, None)
        self.inputs[name] = ('field', f.uf, tuple(shape), f)
        return T(shape, f, sp=t.sp)

    def sat(self, g, swc, sgc, sor, names=('sw0', 'sg0')):
        """saturation fields inside the window"""
        ts = []
        for n in names:
            t = T(g, lambda i: 0)
            f = loops.fresh_uf(n, g, t.sp, 'f')
            self.inputs[n] = ('field', f.uf, tuple(g), f)
            ts.append((f.uf, T(g, f)))
        (uw, w), (ug, gg) = ts
        FW = lambda a: z3.Function(uw, *([z3.IntSort()] * 3 + [z3.RealSort()]))(*a)
        FG = lambda a: z3.Function(ug, *([z3.IntSort()] * 3 + [z3.RealSort()]))(*a)

        def ax(t):
            a = t.children()
            x, y = FW(a), FG(a)
            return [x >= sx.zr(swc), y >= sx.zr(sgc), x + y <= 1 - sx.zr(sor)]
        sx.AXIOMS[uw] = ax
        sx.AXIOMS[ug] = ax
        return w, gg

    # -- code under contract
    def mod(self, name): return self.loader.load(name)

    def cls(self, mod, name):
        return getattr(self.mod(mod), name)

    def patch(self, obj, name, fn): setattr(obj, name, fn)

    @property
    def saved(self): return load.SAVED

    def put(self, obj, name, v):
        """write to ghost state (or to an object of the code) from a stub, visible to the loop rule"""
        for r in loops.STACK:
            if r.recording and not r.building and isinstance(obj, spec_Stub) and id(obj) not in r.entry_walk: raise Unsupported('ghost state that the loop does not reach')
        loops.note_attr(obj, name)
        setattr(obj, name, v)
    putf = put

    # -- logic
    def assume(self, c, label=None):
        c = _b(c)
        if c is False: raise PathEnd()
        CTX.assume(c)
        if CTX.infeasible(): raise PathEnd()

    def eq(self, a, b, scale=0, tol=None):
        a, b = _v(a), _v(b)
        if isinstance(a, float) or isinstance(b, float):
            if math.isinf(a if isinstance(a, float) else 0) or math.isinf(b if isinstance(b, float) else 0): return a == b
        return sx.eq_(a, b)

    def same(self, a, b): return a is b or (isinstance(a, (str, type(None), bool)) and a == b)

    def approx(self, a, b, eps):
        """|a - b| <= eps (eps is part of the property)"""
        d = _v(a) - _v(b)
        e = _v(eps)
        return and_(cmp_(d, e, '<='), cmp_(d, -e, '>='))

    def le(self, a, b, scale=0, tol=None): return cmp_(_v(a), _v(b), '<=')
    def lt(self, a, b): return cmp_(_v(a), _v(b), '<')
    def ge(self, a, b, scale=0, tol=None): return cmp_(_v(a), _v(b), '>=')
    def gt(self, a, b): return cmp_(_v(a), _v(b), '>')
    def ne(self, a, b): return not_(cmp_(_v(a), _v(b), '=='))
    def and_(self, *cs):
        r = True
        for c in cs: r = and_(r, _b(c))
        return r
    def or_(self, *cs):
        r = False
        for c in cs: r = or_(r, _b(c))
        return r
    def not_(self, c): return not_(_b(c))
    def implies(self, a, b): return or_(not_(_b(a)), _b(b))
    def ite(self, c, a, b): return sel(_b(c), _v(a), _v(b))
    def max(self, a, b): return st._max2(_v(a), _v(b))
    def min(self, a, b): return st._min2(_v(a), _v(b))
    def abs(self, a): return abs(_v(a))
    def pow(self, a, b): return sx.pow_(_v(a), _v(b))
    def div(self, a, b): return sx.div(_v(a), _v(b))
    def F(self, s): return Fraction(str(s))
    def num(self, x): return _v(x)
    def istrue(self, c): return CTX.decide(_b(c))
    def fork(self, c):
        """case distinction on a condition"""
        return CTX.decide(_b(c))

    def at(self, t, *idx):
        return t.at(*idx) if isinstance(t, T) else t[idx]

    def shape(self, t): return t.shape_

    def idx(self, g, i, j, k): return (i * g[1] + j) * g[2] + k

    # -- obligations
    def _ob(self, name):
        if name not in self.obs: self.obs[name] = Ob(name)
        return self.obs[name]

    def cover(self, name, c=True):
        """the assumptions made so far (and c) must be satisfiable on some path"""
        if self.covers.get(name): return
        r = CTX._feasible(sx.zb(_b(c)))
        self.covers[name] = (str(r) != 'unsat')

    def check(self, name, cond, timeout=None):
        if CTX.restart:
            CTX.restart.maponly = False
            raise loops.Restart()
        if self.inferring: return
        ob = self._ob(name)
        if ob.fail and self.stop_at_fail: return
        c = _b(cond)
        if not isinstance(c, bool) and any(n.startswith('dead!') for n in sx.consts([c.e])):
            raise Unsupported('variable of a parallel loop used after the loop')
        if self.trial is not None:
            b = 'evaluation' if c is True else None if c is False else sx.quick(CTX.conds, sx.zb(c))
            if b is None: raise TrialFail()
            self.trial.append((ob, b))
            return
        ob.vcs += 1
        if c is True:
            ob.proved += 1
            ob.by['evaluation'] = ob.by.get('evaluation', 0) + 1
            return
        if c is False:
            if CTX.infeasible():
                ob.proved += 1; ob.by['infeasible path'] = ob.by.get('infeasible path', 0) + 1
                return
            st_, m, b = sx.prove(CTX.conds, z3.BoolVal(False), timeout)
        else:
            st_, m, b = sx.prove(CTX.conds, sx.zb(c), timeout)
        if st_ == 'proved':
            ob.proved += 1
            ob.by[b] = ob.by.get(b, 0) + 1
            return
        if CTX.wanted():
            box = []

            def again():
                if any(x[0] != 'proved' for x in box): return
                CTX.force()
                if CTX.infeasible(): return
                r = sx.prove(CTX.conds, z3.BoolVal(False) if c is False else sx.zb(c), timeout)
                box.append(r)
                if r[0] == 'refuted': models.append(self.model(sx.zb(c), r[1]))
            models = []
            CTX.scoped(again)
            if all(x[0] == 'proved' for x in box):
                ob.proved += 1
                b = box[0][2] if box else 'infeasible path'
                ob.by[b] = ob.by.get(b, 0) + 1
                return
            st_, m, b = next(x for x in box if x[0] != 'proved')
            inputs, hav = models[0] if models else (None, False)
            ob.fail.append((st_, inputs, hav, b))
            return
        inputs = None
        hav = False
        if st_ == 'refuted':
            inputs, hav = self.model(sx.zb(c) if not isinstance(c, bool) else z3.BoolVal(c), m)
        ob.fail.append((st_, inputs, hav, b))
        if DEBUG: print('FAILED', name, st_, inputs, file=sys.stderr)

    def forall(self, shape, fn, name='q', lo=None):
        """fn(idx) runs its checks at an arbitrary index"""
        if self.inferring: return

        def body():
            idx = st.fresh_index(shape, name)
            if CTX.infeasible(): raise PathEnd()
            CTX.later(shape, idx)
            fn(*idx)
        if self.cuts and self.trial is None:
            # first with what was computed early on read as arbitrary values: a generalisation, so
            # what is proved of it holds; later cuts generalise more
            now = st.LOG.clock()
            for d in self.cuts:
                self.trial, st.ABS[0] = [], now - d
                try:
                    CTX.scoped(body)
                    for ob, b in self.trial:
                        ob.vcs += 1; ob.proved += 1
                        ob.by[b] = ob.by.get(b, 0) + 1
                    return
                except (TrialFail, Unsupported): pass
                finally: self.trial, st.ABS[0] = None, None
        CTX.scoped(body)

    def scoped(self, fn): CTX.scoped(fn)

    def under(self, conds, fn):
        """fn's checks under further assumptions"""
        def body():
            for c in conds:
                c = _b(c)
                if c is False: return
                if c is not True: CTX.assume(c)
            fn()
        CTX.scoped(body)

    def masked(self, t, idx, only):
        """t with every element but the one at idx set to zero (only), or with that one set to zero"""
        def at(i):
            c = self.and_(*[cmp_(a, b, '==') for a, b in zip(i, idx)])
            if not isinstance(c, bool):
                if CTX.implied(c): c = True
                elif CTX.implied(not_(c)): c = False
            return sel(c, t.at(*i), 0) if only else sel(c, 0, t.at(*i))
        return T(t.shape_, at, sp=t.sp)

    def sometimes(self, name): return True

    def merge_writes(self): CTX.merge_writes = True

    def exit_by_invariant(self): loops.CLASSIC[0] = True

    def stated_invariants_only(self): loops.GUESS[0] = False

    def sumeq(self, name, value, shape, fn, scale=0):
        """value equals the sum of fn over all indices of shape: value is a linear combination of
        sums the code formed over that shape, and the summands agree at an arbitrary index"""
        v = _v(value)
        if native(v): v = SR(sx.zr(v))
        if self.inferring: return
        used = [(s, sh, f) for s, sh, f in CTX.sums if str(s.e) in sx.consts([v.e])]
        names = {str(s.e) for s, _, _ in used}
        at0 = z3.substitute(v.e, *[(s.e, z3.RealVal(0)) for s, _, _ in used]) if used else v.e
        cs = []
        for s, sh, f in used:
            if len(sh) != len(shape): raise Unsupported('sum over another shape')
            for a, b in zip(sh, shape): self.check(name, sx.eq_(a, b))
            one = z3.substitute(v.e, *[(t.e, z3.RealVal(1 if t is s else 0)) for t, _, _ in used])
            cs.append((SR(z3.simplify(one - at0)), f))
        lin = at0
        for (c, f), (s, _, _) in zip(cs, used): lin = lin + c.e * s.e
        self.check(name, sx.eq_(v, SR(lin)))

        def body(*idx):
            t = SR(at0) if not used else 0
            for c, f in cs: t = t + c * f(tuple(idx))
            self.check(name, sx.eq_(t, _v(fn(*idx))))
        if used: self.check(name, sx.eq_(SR(at0), 0))
        self.forall(shape, body)

    def model(self, c, m0):
        fs = list(CTX.conds) + [z3.Not(c)]
        fs += sx.axioms_for(fs)
        hav = any(a.startswith('h:') for a in sx.consts(fs)) or any(x.decl().name().startswith('h:') for x in sx.apps(fs))
        ints = [v[1] for v in self.inputs.values() if v[0] == 'int']
        m = None
        for cap in (3, 5):
            s = z3.Solver(); s.set('timeout', 4000)
            for f in fs: s.add(f)
            for i in ints: s.add(i <= cap)
            if s.check() == z3.sat:
                m = s.model(); break
        if m is None: m = m0
        if m is None: return None, hav
        out = {}
        try:
            for n, v in self.inputs.items():
                if v[0] in ('real', 'int'): out[n] = _mv(m.eval(v[1], model_completion=True))
                elif v[0] == 'bool': out[n] = z3.is_true(m.eval(v[1], model_completion=True))
                elif v[0] == 'const': out[n] = v[1]
                elif v[0] == 'field':
                    out[n] = self._field_model(m, v)
        except (Unsupported, ValueError, OverflowError): return None, hav
        return out, hav

    def _field_model(self, m, v):
        import itertools
        dims = []
        for s in v[2]: dims.append(s if isinstance(s, int) else int(str(m.eval(s.z(), model_completion=True))))
        if any(d > 6 for d in dims): raise ValueError
        F = z3.Function(v[1], *([z3.IntSort()] * len(dims) + [z3.RealSort()]))
        vals = [_mv(m.eval(F(*[z3.IntVal(x) for x in i]), model_completion=True)) for i in itertools.product(*[range(d) for d in dims])]
        return {'shape': dims, 'values': vals}

    # -- helpers that differ between the two worlds
    def pvt(self, name='pvt'):
        return SymPVT(self)

    def curve(self, name, lo=None, hi=None):
        """an arbitrary point-wise function with values in [lo, hi], applied element by element"""
        def ax(t):
            o = []
            if lo is not None: o.append(t >= sx.zr(_v(lo)))
            if hi is not None: o.append(t <= sx.zr(_v(hi)))
            return o

        def f(*xs):
            if lo is not None or hi is not None: sx.AXIOMS['curve_' + name] = ax
            F = z3.Function('curve_' + name, *([z3.RealSort()] * (len(xs) + 1)))
            return st.elementwise(lambda *v: SR(F(*[z3.simplify(sx.zr(x)) for x in v])), list(xs), 'f')
        return f

    def column(self, name, n, increasing=False, **kw):
        """a JSON array of n numbers"""
        t = self.field(name, (n,), **kw)
        uf = self.inputs[name][1]
        sx.PAIR_AXIOMS.pop(uf, None)
        if increasing:
            sx.PAIR_AXIOMS[uf] = lambda s, t: [z3.Implies(s.arg(0) < t.arg(0), s < t), z3.Implies(t.arg(0) < s.arg(0), t < s)]
        return fakes.SymCol(name, n, lambda i: t.at(i))

    def colat(self, col, i): return col.fn(i)

    def json_file(self, data):
        p = '/contract/file%d.json' % len(load.FILES)
        load.FILES[p] = data
        return p

    def vec(self, t):
        """an array handed to numpy code"""
        return t

    def raises(self, fn):
        try: fn()
        except (Unsupported, PathEnd, loops.Restart, sx.EngineStop): raise
        except Exception as x: return type(x).__name__
        return None

    def pvtval(self, pvt, key, p): return pvt.value(key, p)

    def tmpdir(self): return '/nowhere'

    def seq(self, name, gen, lo=0, conc=None):
        """a list of arbitrary length; gen(k) makes element k"""
        n = CTX.int(name + '_len')
        CTX.assume(cmp_(n, lo, '>='))
        return loops.SymSeq(n, gen)

    def len(self, l): return load.b_len(l)

    def pairs(self, ls, fn):
        """fn(i, j, elements i, elements j) for arbitrary i < j"""
        es = [self._elems(l) for l in ls]
        m = min(len(e[1]) for e in es)
        if m == 2:
            (i, j) = es[0][1]
            vs = [e[0] for e in es]
            fn(i, j, [v[0] for v in vs], [v[1] for v in vs])

    def each(self, ls, fn):
        """fn(i, elements i) for arbitrary i"""
        es = [self._elems(l) for l in ls]
        for q in range(min(len(e[1]) for e in es)):
            fn(es[0][1][q], [e[0][q] for e in es])

    def _elems(self, l):
        if isinstance(l, loops.BList) and l.sym:
            self._ks = [k for k, _ in l.sym[1]]
            return [v for _, v in l.sym[1]], self._ks
        if isinstance(l, loops.SymSeq):
            if not self._ks: self._ks = list(l.keys.values())
            return [l.elem(k) for k in self._ks], self._ks
        return [], []

    def hint(self, fn): loops.HINTS.append(fn)

    def entry(self, A, r, c): return A.entry(r, c)

    def row_times(self, A, r, fn):
        """row r of A times the vector whose c-th component is fn(c)"""
        return A.matvec(fn)(r)

    def fold(self, name, seq, fn): return Fold(self, name, seq, fn)

    # -- linear systems of any size
    def spd(self, name, samp=(1, 8)): return lv.Map(name)

    def vector(self, name, n=None, samp=(-2, 2), pos=False): return lv.vector(name)

    def vcopy(self, v): return v.clone() if hasattr(v, 'clone') else v
    def vsize(self, b, x): return 0
    def vsub(self, u, v): return u - v
    def vmul(self, A, x): return A.apply(x)
    def vdiv(self, u, m): return u / m
    def vdot(self, u, v): return u.dot(v).scalar()
    def veq(self, u, v, scale=0): return lv.eq(u, v)
    def diag(self, A, name): return lv.vector(name)
    def sqrt(self, x): return sx.sqrt_(_v(x))

    def vector_hint(self, rel, most=8):
        """loop invariant: rel(u, v) for some pair of vectors the loop changes"""
        for j in range(most):
            def h(L, p, entry, val, vals, k, n, j=j):
                qs = [q for q in sorted(vals, key=str) if q != p and loops.kind(vals[q]) == 'v']
                return [((), lambda i: rel(val, vals[qs[j]]))] if j < len(qs) and loops.kind(val) == 'v' else []
            loops.HINTS.append(h)


class Fold:
    """sum over the elements of a list: fold(0) = 0, fold(k+1) = fold(k) + fn(element k)"""
    def __init__(self, env, name, seq, fn):
        self.seq, self.fn, self.name = seq, fn, CTX.name('fold!' + name)

    def at(self, K, *idx):
        if isinstance(K, int):
            t = 0
            for k in range(K): t = t + self.fn(self.seq.elem(k), *idx)
            return t
        if CTX.implied(cmp_(K, 0, '==')): return 0
        for k in list(self.seq.keys.values()):
            if CTX.implied(cmp_(K, k + 1, '==')): return self.at(k, *idx) + self.fn(self.seq.elem(k), *idx)
        F = z3.Function(self.name, *([z3.IntSort()] * (1 + len(idx)) + [z3.RealSort()]))
        return SR(F(sx.zi(K), *[sx.zi(i) for i in idx]))

    def total(self, *idx): return self.at(self.seq.n, *idx)

    def hint(self, g):
        """loop invariant: after k elements a (flat) tensor over the grid holds the partial sums"""
        size = g[0] * g[1] * g[2]

        def h(L, p, entry, val, vals, k, n):
            if getattr(L.it, 's', L.it) is not self.seq or not isinstance(val, T): return []
            if len(val.shape_) == 3: return [(val.shape_, lambda i: sx.eq_(val.at(*i), _v(entry.at(*i)) + self.at(k, *i)))]
            if len(val.shape_) == 1 and st.same_poly_or_eq(val.shape_[0], size):
                return [(val.shape_, lambda i: sx.eq_(val.at(*i), _v(entry.at(*i)) + self.at(k, *st.digits(i[0], g))))]
            return []
        loops.HINTS.append(h)


class SymPVT:
    """contract of PVTTable.eval (C11): every column is a function of pressure; formation volume
    factors and viscosities positive, dissolved and vaporised ratios non-negative"""
    P = None

    def __init__(self, env): self.env = env

    def eval(self, p):
        out = {}
        for key in ('Bo', 'Bw', 'Bg', 'mu_o', 'mu_w', 'mu_g', 'Rs', 'Rv'):
            F = z3.Function('pvt_' + key, z3.RealSort(), z3.RealSort())
            sx.AXIOMS['pvt_' + key] = (lambda t: [t >= 0]) if key in ('Rs', 'Rv') else (lambda t: [t > 0])
            out[key] = st.elementwise(lambda x, F=F: SR(F(sx.zr(x))), [p], 'f')
        return out

    def value(self, key, p):
        F = z3.Function('pvt_' + key, z3.RealSort(), z3.RealSort())
        sx.AXIOMS['pvt_' + key] = (lambda t: [t >= 0]) if key in ('Rs', 'Rv') else (lambda t: [t > 0])
        return SR(F(z3.simplify(sx.zr(p))))


DEBUG = False


def _v(x):
    if isinstance(x, T): return x.scalar()
    if isinstance(x, float): return fr(x) if not math.isinf(x) else x
    return x


def _b(c):
    if isinstance(c, T): c = c.scalar()
    if isinstance(c, (bool, SB)): return c
    if type(c).__name__ == 'bool_': return bool(c)
    raise Unsupported('condition of type %s' % type(c).__name__)


def _mv(v):
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return str(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return str(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    raise ValueError


def verify(c, budget, thorough=False):
    """explore one contract; returns a result dictionary"""
    loops.reset()
    sx.AXIOMS_BASE = sx.AXIOMS_BASE if hasattr(sx, 'AXIOMS_BASE') else dict(sx.AXIOMS)
    t0 = time.time()
    e = E(c)
    e.thorough = thorough
    restarts = 0
    status = 'ok'
    why = None
    paths = 0

    def start():
        st.LOG.active.clear()
        del loops.STACK[:]
        del loops.RECORDS[:]
        loops.SEQOBJS.clear()
        del loops.HINTS[:]
        sx.AXIOMS.clear(); sx.AXIOMS.update(sx.AXIOMS_BASE)
        e.begin()
    sx.PATH_START[:] = [start]
    # first the loop invariants settle (no obligation is looked at), then everything is proved
    e.inferring = True
    while True:
        e.obs = {}
        e.covers = {}
        try:
            paths = sx.explore(lambda: c.fn(e), deadline=t0 + budget)
            if e.inferring and loops.TABLE:
                e.inferring = False
                e.infer_s = time.time() - t0
                continue
            if e.inferring:
                e.inferring = False
                continue
            break
        except loops.Restart:
            restarts += 1
            e.inferring = True
            if restarts > 300 or time.time() - t0 > budget:
                status, why = 'unsupported', 'loop invariants did not settle'
                break
        except Unsupported as u:
            status, why = 'unsupported', str(u)
            if DEBUG:
                import traceback; traceback.print_exc()
            break
        except sx.EngineStop as u:
            status, why = 'unsupported', repr(u); break
        except Exception as x:
            # the code under contract (or the contract) raised on an abstract input
            import traceback
            tb = traceback.format_exc().splitlines()
            status, why = 'exception', tb[-1] + ' @ ' + (tb[-3].strip() if len(tb) > 2 else '')
            if DEBUG: traceback.print_exc()
            break
    res = {'contract': c.name, 'status': status, 'why': why, 'paths': paths, 'restarts': restarts, 'wall': time.time() - t0,
           'solver_s': sx.STATS.solver_s, 'queries': sx.STATS.queries, 'covers': e.covers,
           'invariants': sorted(str(k) for i in loops.TABLE.values() for k in i.kept),
           'obligations': [{'name': o.name, 'vcs': o.vcs, 'proved': o.proved, 'by': o.by,
                            'fail': [{'status': f[0], 'inputs': f[1], 'havoc': f[2], 'backend': f[3]} for f in o.fail]} for o in e.obs.values()]}
    return res
