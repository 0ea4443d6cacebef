"""Concrete environment of a contract: the same contract text, run against the real modules of the
repository under the project's own interpreter, on random or given inputs.  Used to replay
counter-models, to look for failing inputs of failed obligations, and as the (bounded) stand-in for
contracts the prover cannot reach."""
import sys, os, math, random, json, time, hashlib, importlib, itertools, traceback, io, contextlib, tempfile, shutil
from fractions import Fraction
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(REPO, 'src'))
import numpy as np
os.environ.setdefault('MPLBACKEND', 'Agg')
try:
    import torch
    torch.set_num_threads(1)
    F32 = torch.float32
    F64 = torch.float64
except ImportError: torch = None
from . import spec


class Skip(Exception): pass


def widen(on=True):
    """run the real code in double precision, so that rounding stays far below the tolerances"""
    if torch is None: return
    torch.float32 = F64 if on else F32
    torch.set_default_dtype(F64 if on else F32)


class E:
    symbolic = False

    def __init__(self, contract, seed, given=None, thorough=False):
        self.c = contract
        self.rng = random.Random(seed)
        self.given = given
        self.inputs = {}
        self.pre = ''
        self.failures = []
        self.ran = 0
        self.covers = set()
        self.undo = []
        self.thorough = thorough
        self.dirs = []
        self.tol = 1e-7

    # -- inputs
    def _given(self, name):
        if self.given is not None and name in self.given: return True, self.given[name]
        return False, None

    def _rec(self, name, v):
        self.inputs[name] = v

    def real(self, name, lo=None, hi=None, pos=False, samp=None, log=False):
        name = name + self.pre
        ok, v = self._given(name)
        if ok: v = float(Fraction(v))
        else: v = self._sample(lo, hi, pos, samp, log)
        self._rec(name, repr(v))
        return v

    def _sample(self, lo, hi, pos, samp, log):
        lo = None if lo is None else float(lo)
        hi = None if hi is None else float(hi)
        a, b = samp if samp else (lo if lo is not None else (0.0 if pos else -10.0), hi if hi is not None else (lo or 0.0) + 10.0)
        a, b = float(a), float(b)
        r = self.rng.random()
        if r < 0.06 and lo is not None and not (pos and lo <= 0): return lo
        if 0.06 <= r < 0.12 and hi is not None: return hi
        if log:
            a = max(a, 1e-300)
            return math.exp(self.rng.uniform(math.log(a), math.log(b)))
        v = self.rng.uniform(a, b)
        if pos and v <= 0: v = (a + b) / 2 or 1.0
        return v

    def int(self, name, lo=None, hi=None, samp=None):
        name = name + self.pre
        ok, v = self._given(name)
        if ok: v = int(Fraction(v))
        else:
            if samp: a, b = samp
            else:
                a = lo if lo is not None else 0
                b = hi if hi is not None else a + 4
            v = self.rng.randint(int(a), int(b))
        self._rec(name, v)
        return v

    def bool(self, name):
        name = name + self.pre
        ok, v = self._given(name)
        v = bool(v) if ok else self.rng.random() < 0.5
        self._rec(name, v)
        return v

    flag = bool

    def choice(self, name, options):
        name = name + self.pre
        ok, v = self._given(name)
        v = int(v) if ok else self.rng.randrange(len(options))
        self._rec(name, v)
        return options[v]

    def grid(self, name='n', nz1=False, lo=1):
        g = []
        for a in 'xyz':
            ok, v = self._given(name + a)
            g.append(int(v) if ok else max(lo, self.rng.choice([1, 2, 2, 3, 3, 4])))
            self._rec(name + a, g[-1])
        if nz1: g[2] = 1
        return tuple(g)

    def cell(self, g, name='c'):
        out = []
        for a, n in zip('ijk', g):
            ok, v = self._given(name + a + self.pre)
            out.append(int(v) if ok else self.rng.randrange(n))
            self._rec(name + a + self.pre, out[-1])
        return tuple(out)

    def field(self, name, shape, lo=None, hi=None, pos=False, samp=None, log=False, nonzero=False):
        name = name + self.pre
        ok, v = self._given(name)
        shape = tuple(int(s) for s in shape)
        n = int(np.prod(shape)) if shape else 1
        if ok:
            vals = [float(Fraction(x)) for x in v['values']]
        elif self.rng.random() < 0.1:
            vals = [self._sample(lo, hi, pos, samp, log)] * n
        else:
            vals = [self._sample(lo, hi, pos, samp, log) for _ in range(n)]
        self._rec(name, {'shape': list(shape), 'values': [repr(x) for x in vals]})
        return torch.tensor(np.array(vals, dtype=np.float64).reshape(shape), dtype=F64)

    def sat(self, g, swc, sgc, sor, names=('sw0', 'sg0')):
        swc, sgc, sor = float(swc), float(sgc), float(sor)
        g = tuple(int(x) for x in g)
        n = int(np.prod(g))
        ok, w = self._given(names[0])
        ok2, s = self._given(names[1])
        if ok and ok2:
            w = [float(Fraction(x)) for x in w['values']]
            s = [float(Fraction(x)) for x in s['values']]
        else:
            w, s = [], []
            mode = self.rng.random()
            for _ in range(n):
                room = max(0.0, 1 - swc - sgc - sor)
                a, b = sorted((self.rng.random(), self.rng.random()))
                u, v = a, b - a
                r = self.rng.random()
                if r < 0.12: u = 0.0
                elif r < 0.24: v = 0.0
                elif r < 0.36: u, v = 1.0 - v, v
                elif r < 0.40: u, v = 1.0, 0.0
                elif r < 0.44: u, v = 0.0, 1.0
                if mode < 0.1: v = 0.0
                w.append(swc + room * u); s.append(sgc + room * v)
        self._rec(names[0], {'shape': list(g), 'values': [repr(x) for x in w]})
        self._rec(names[1], {'shape': list(g), 'values': [repr(x) for x in s]})
        mk = lambda v: torch.tensor(np.array(v, dtype=np.float64).reshape(g), dtype=F64)
        return mk(w), mk(s)

    # -- code under contract
    def mod(self, name): return importlib.import_module(name)
    def cls(self, mod, name): return getattr(self.mod(mod), name)

    def patch(self, obj, name, fn):
        had = name in getattr(obj, '__dict__', {})
        self.undo.append((obj, name, had, obj.__dict__.get(name) if had else None))
        setattr(obj, name, fn)

    def put(self, obj, name, v): setattr(obj, name, v)
    putf = put

    def finish(self):
        for obj, name, had, old in reversed(self.undo):
            if had: setattr(obj, name, old)
            else:
                try: delattr(obj, name)
                except AttributeError: pass
        for d in self.dirs: shutil.rmtree(d, ignore_errors=True)

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix='verif')
        self.dirs.append(d)
        return d

    # -- logic
    def assume(self, c, label=None):
        if not bool(c): raise Skip()

    def _close(self, a, b, scale, tol):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b): return False
        if math.isinf(a) or math.isinf(b): return a == b
        return abs(a - b) <= (tol or self.tol) * max(abs(a), abs(b), abs(float(scale))) + 1e-300

    def eq(self, a, b, scale=0, tol=None): return self._close(a, b, scale, tol)
    def same(self, a, b): return a is b or (isinstance(a, (str, type(None), bool)) and a == b)
    def approx(self, a, b, eps): return abs(float(a) - float(b)) <= float(eps) * (1 + 1e-9) + 1e-300

    def le(self, a, b, scale=0, tol=None):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b): return False
        return a <= b or self._close(a, b, scale, tol)

    def lt(self, a, b): return float(a) < float(b)
    def gt(self, a, b): return float(a) > float(b)
    def ge(self, a, b, scale=0, tol=None): return self.le(b, a, scale, tol)
    def ne(self, a, b): return float(a) != float(b)
    def and_(self, *cs): return all(bool(c) for c in cs)
    def or_(self, *cs): return any(bool(c) for c in cs)
    def not_(self, c): return not bool(c)
    def implies(self, a, b): return (not bool(a)) or bool(b)
    def ite(self, c, a, b): return a if bool(c) else b
    def max(self, a, b): return max(float(a), float(b))
    def min(self, a, b): return min(float(a), float(b))
    def abs(self, a): return abs(float(a))
    def pow(self, a, b): return float(a) ** float(b)
    def div(self, a, b):
        if float(b) == 0: raise Skip()
        return float(a) / float(b)
    def F(self, s): return float(s)
    def num(self, x): return float(x)
    def istrue(self, c): return bool(c)
    def fork(self, c): return bool(c)

    def at(self, t, *idx):
        v = t[tuple(int(i) for i in idx)] if not isinstance(t, (list, tuple)) else t[idx[0]]
        return float(v)

    def shape(self, t): return tuple(t.shape)
    def idx(self, g, i, j, k): return (i * g[1] + j) * g[2] + k

    # -- obligations
    def cover(self, name, c=True):
        if bool(c): self.covers.add(name)

    def check(self, name, cond, timeout=None):
        self.ran += 1
        if not bool(cond): self.failures.append((name, None))

    def forall(self, shape, fn, name='q', lo=None):
        shape = [int(s) for s in shape]
        idx = list(itertools.product(*[range(s) for s in shape]))
        if len(idx) > 64: idx = self.rng.sample(idx, 64)
        for i in idx:
            try: fn(*i)
            except Skip: pass

    def sumeq(self, name, value, shape, fn, scale=0):
        shape = [int(x) for x in shape]
        ts = [float(fn(*i)) for i in itertools.product(*[range(x) for x in shape])]
        self.check(name, self.eq(value, math.fsum(ts), scale=sum(abs(t) for t in ts) + float(scale)))

    def scoped(self, fn):
        try: fn()
        except Skip: pass

    # -- helpers
    def pvt(self, name='pvt'):
        """a real PVTTable read from a random, well-formed JSON table"""
        ok, tab = self._given(name + ':table')
        if not ok:
            r = self.rng
            n = r.randint(2, 5)
            p = sorted(r.uniform(1, 40) for _ in range(n))
            col = lambda a, b: [r.uniform(a, b) for _ in range(n)]
            tab = {'pressure_MPa': p, 'Bo': col(1.0, 1.6), 'Bw': col(0.98, 1.05), 'Bg': col(0.003, 0.05), 'mu_o_cP': col(0.5, 5),
                   'mu_w_cP': col(0.3, 1), 'mu_g_cP': col(0.01, 0.04), 'Rs_m3m3': col(0, 150), 'Rv_m3m3': col(0, 0.001)}
            if r.random() < 0.2: tab['Rs_m3m3'] = [0.0] * n
            if r.random() < 0.4: tab['Rv_m3m3'] = [0.0] * n
        self._rec(name + ':table', tab)
        d = self.tmpdir()
        f = os.path.join(d, 'pvt.json')
        with open(f, 'w') as h: json.dump(tab, h)
        P = self.mod('simulator.pvt').PVTTable(f)
        return P

    def column(self, name, n, increasing=False, **kw):
        t = [float(x) for x in self.field(name, (n,), **kw)]
        if increasing and any(b <= a for a, b in zip(t, t[1:])):
            t = sorted(set(t))
            if len(t) < n: raise Skip()
        return t

    def colat(self, col, i): return col[i]

    def json_file(self, data):
        d = self.tmpdir()
        f = os.path.join(d, 'data.json')
        with open(f, 'w') as h: json.dump(data, h)
        return f

    def vec(self, t): return t.numpy()

    def raises(self, fn):
        try: fn()
        except Skip: raise
        except Exception as x: return type(x).__name__
        return None

    def pvtval(self, pvt, key, p):
        return float(np.asarray(pvt.eval(np.array([float(p)], dtype=np.float64))[key]).reshape(-1)[0])

    def seq(self, name, gen, lo=0, conc=None):
        n = self.int(name + '_len', lo=lo, hi=(conc or lo + 4))
        out = []
        for k in range(n):
            old = self.pre
            self.pre = old + '#%d' % k
            try: out.append(gen(k))
            finally: self.pre = old
        return out

    def len(self, l): return len(l)

    def pairs(self, ls, fn):
        n = min(len(l) for l in ls)
        for i in range(n):
            for j in range(i + 1, n): fn(i, j, [l[i] for l in ls], [l[j] for l in ls])

    def each(self, ls, fn):
        for i in range(min(len(l) for l in ls)): fn(i, [l[i] for l in ls])

    def hint(self, fn): pass

    def _dense(self, A):
        if getattr(self, '_A', (None,))[0] is not A: self._A = (A, A.coalesce().to_dense().numpy())
        return self._A[1]

    def entry(self, A, r, c): return float(self._dense(A)[int(r), int(c)])

    def row_times(self, A, r, fn):
        D = self._dense(A)
        return math.fsum(float(D[int(r), c]) * float(fn(c)) for c in range(D.shape[1]))

    def under(self, conds, fn):
        if all(bool(c) for c in conds): fn()

    def masked(self, t, idx, only):
        m = torch.zeros_like(t)
        m[tuple(int(i) for i in idx)] = 1
        return t * m if only else t * (1 - m)

    def sometimes(self, name):
        """optional part of a setting: always present symbolically, half of the time here"""
        if self.given is not None and name + self.pre not in self.given:
            self._rec(name + self.pre, True)
            return True
        return self.flag(name)

    def merge_writes(self): pass

    def exit_by_invariant(self): pass

    def stated_invariants_only(self): pass

    def fold(self, name, seq, fn): return Fold(seq, fn)

    # -- linear systems
    def spd(self, name, samp=(1, 8)):
        n = self.int(name + '_n', lo=1, samp=samp)
        k = self.choice(name + '_kind', ['chain', 'dense', 'diagonal'])
        d = self.field(name + '_d', (n,), pos=True, samp=(0.2, 3))
        e = self.field(name + '_e', (n, n), samp=(-1, 1))
        if k == 'dense': M = e @ e.T + torch.diag(d)
        elif k == 'diagonal': M = torch.diag(d)
        else:
            M = torch.diag(d)
            for i in range(n - 1):
                t = abs(float(e[i, i])) * 5
                M[i, i] += t; M[i + 1, i + 1] += t; M[i, i + 1] -= t; M[i + 1, i] -= t
        self.size = n
        return M.to_sparse_coo().coalesce()

    def vector(self, name, n=None, samp=(-2, 2), pos=False): return self.field(name, (n or self.size,), samp=samp, pos=pos)
    def vcopy(self, v): return v.clone() if v is not None else None
    def vsize(self, b, x): return 1 + float(b.norm()) + 20 * float(x.norm())
    def vsub(self, u, v): return u - v
    def vmul(self, A, x): return torch.sparse.mm(A, x.unsqueeze(1)).squeeze(1)
    def vdiv(self, u, m): return u / m
    def vdot(self, u, v): return float((u * v).sum())
    def veq(self, u, v, scale=0): return u.shape == v.shape and all(self._close(a, b, scale, None) for a, b in zip(u.tolist(), v.tolist()))
    def diag(self, A, name): return A.to_dense().diagonal().clone()
    def sqrt(self, x): return math.sqrt(x) if x >= 0 else math.nan
    def vector_hint(self, rel, most=8): pass


class Fold:
    def __init__(self, seq, fn): self.seq, self.fn = seq, fn
    def total(self, *idx): return math.fsum(float(self.fn(w, *idx)) for w in self.seq)
    def hint(self, g): pass


def own_frame(tb):
    """innermost frame of a traceback: 'repo', 'contract' or 'lib' (called from which of the two)"""
    where = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(os.path.join(REPO, 'src')): where = 'repo'
        elif f.filename.startswith(os.path.join(ROOT, 'contracts')): where = 'contract'
    return where


def trial(c, seed, given=None, thorough=False):
    """one concrete run; returns (status, failures, inputs, ran, covers)"""
    e = E(c, seed, given, thorough)
    np.random.seed(seed % 2**31); random.seed(seed)
    if torch is not None: torch.manual_seed(seed)
    widen(True)
    status = 'ok'
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'):
            import warnings
            warnings.simplefilter('ignore')
            c.fn(e)
    except Skip: status = 'skip' if not e.failures else 'ok'
    except Exception as x:
        w = own_frame(x.__traceback__)
        if w == 'repo' and not (isinstance(x, AttributeError) and getattr(x, 'obj', None) is not None and isinstance(x.obj, spec.Stub)) and not isinstance(x, MemoryError):
            e.failures.append(('runs without an exception', '%s: %s' % (type(x).__name__, str(x)[:300])))
        else:
            status = 'interface'
            e.note = '%s: %s @ %s' % (type(x).__name__, str(x)[:300], traceback.format_exc().splitlines()[-3].strip()[:200])
    finally:
        e.finish(); widen(False)
    return status, e.failures, e.inputs, e.ran, e.covers, getattr(e, 'note', None)


def run(c, seconds, trials, seed0, thorough, known=None):
    t0 = time.time()
    n = ok = skip = ran = 0
    notes = []
    fails = []
    covers = set()
    knownhits = {}
    seen = set()
    sample = None
    k = 0
    while k < trials and time.time() - t0 < seconds:
        s = (seed0 * 1000003 + k * 7919 + 17) % (2**31)
        k += 1
        st, fl, inp, r, cv, note = trial(c, s, None, thorough)
        if st == 'interface':
            notes.append(note)
            if len(notes) > 5: break
            continue
        if st == 'skip': skip += 1; continue
        n += 1; ran += r; covers |= cv
        if r:
            h = hashlib.sha1(json.dumps(inp, sort_keys=True, default=str).encode()).hexdigest()
            if h not in seen:
                seen.add(h)
                if sample is None: sample = {'seed': s, 'inputs': {k: v for k, v in list(inp.items())[:40]}, 'checks': r}
        new = []
        for f in fl:
            key = (c.name, f[0])
            if known and key in known: knownhits.setdefault(f[0], 0); knownhits[f[0]] += 1
            else: new.append(f)
        if new:
            fails.append({'contract': c.name, 'seed': s, 'inputs': inp, 'failed': [list(f) for f in new]})
            if len(fails) >= 3: break
    return {'contract': c.name, 'runs': n, 'skipped': skip, 'checks': ran, 'covers': sorted(covers), 'notes': notes, 'fails': fails,
            'wall': time.time() - t0, 'known': knownhits, 'distinct': len(seen), 'sample': sample}


def main():
    job = json.load(open(sys.argv[1]))
    cs = {c.name: c for c in spec.load(job['prop'])}
    known = {(k['contract'], k['obligation']) for k in job.get('known', [])}
    out = []
    for j in job['jobs']:
        c = cs[j['contract']]
        r = {'contract': c.name, 'replays': []}
        for g in j.get('given', []):
            st, fl, inp, ran, cv, note = trial(c, 1, g, job.get('thorough', False))
            fl = [f for f in fl if (c.name, f[0]) not in known]
            r['replays'].append({'status': st, 'failed': [list(f) for f in fl], 'note': note, 'inputs': inp})
        r.update(run(c, j['seconds'], j['trials'], job['seed'], job.get('thorough', False), known))
        out.append(r)
    with open(sys.argv[2], 'w') as f: json.dump(out, f)


if __name__ == '__main__':
    main()
