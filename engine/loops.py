"""Loops over symbolic iterables: the standard inductive rule.

A loop whose iterable has a symbolic length is executed as (a) no iteration, or (b) its last
iteration k (any k with 0 <= k < n): every variable and heap location the body may change is given
an arbitrary value restricted by the loop's invariants, the body runs once, and execution goes on
after the loop.  At the end of the body every invariant is re-established for k+1 (an obligation).
The modified locations are discovered by running the body; when a run finds one that was not
accounted for, everything is restarted with the larger set.  Invariants are candidates (value
unchanged, equal to another, non-negative, counter) and the hints a contract supplies; a candidate
that is not established or not preserved is dropped and everything restarts (Houdini)."""
import math
from fractions import Fraction
from . import sx, st
from .sx import SR, SB, IX, CTX, Unsupported, PathEnd, cmp_, and_, or_, not_, native, fr, key_of
from .st import T


class Restart(BaseException):
    pass


class Info:
    def __init__(self):
        self.mods = {}          # path -> kind
        self.kinds = {}         # local name -> kind
        self.dropped = set()
        self.kept = set()
        self.maponly = None
        self.own = set()        # attributes of the elements the body writes
        self.spoils = False     # the body writes parts of the elements below that
        self.maps = set()       # storages written slab by slab (parallel loop)
        self.nomap = set()
        self.poison = set()     # locals whose tensor the body changes in place
        self.build = None       # True: the loop only appends one element per iteration to lists


TABLE = {}          # site -> Info; lives as long as one contract is being verified
HINTS = []          # functions (record, path, entry, value, idx, k, n) -> SB or None, set by the contract
RECORDS = []        # the loops of the current path, in order of completion
STACK = []
OBLIG = [None]      # set by env: function(name, cond) recording a loop obligation


def reset():
    TABLE.clear()
    del HINTS[:]
    del RECORDS[:]
    del STACK[:]
    SEQOBJS.clear()


def building(): return any(r.building for r in STACK)


class SymRange:
    def __init__(self, lo, hi, step=1):
        if not (isinstance(step, int) and step == 1):
            raise Unsupported('range with a step over symbolic bounds')
        for x in (lo, hi):
            if not isinstance(x, (int, IX)): raise Unsupported('range over a non-integer')
        self.lo, self.hi = lo, hi
        self.n = hi - lo

    def elem(self, k): return self.lo + k

    def __iter__(self): raise Unsupported('native iteration over a symbolic range')


class SymSeq:
    """a sequence of symbolic length; gen(k) makes its k-th element"""
    def __init__(self, n, gen):
        self.n, self.gen = n, gen
        self.memo = {}
        self.keys = {}

    spoiled = False
    unknown = frozenset()

    def elem(self, k):
        if self.spoiled: raise Unsupported('element of a sequence whose elements an earlier loop changed')
        kk = key_of(k)
        if kk not in self.memo:
            for r in STACK:
                if r.building and not any(k is q for q in r.ks): raise Unsupported('iteration reaches another element')
            for q, k0 in self.keys.items():
                if not CTX.implied(sx.not_(cmp_(k0, k, '=='))): raise Unsupported('elements that may be the same')
            self.memo[kk] = v = self.gen(k)
            self.keys[kk] = k
            mark(v)
            blur(v, self.unknown)
        return self.memo[kk]

    def __getitem__(self, k):
        if isinstance(k, (int, IX)): return self.elem(k)
        raise Unsupported('slice of a symbolic sequence')

    def __bool__(self): return bool(cmp_(self.n, 0, '>'))
    def __iter__(self): raise Unsupported('native iteration over a symbolic sequence')
    def __len__(self): raise Unsupported('native len of a symbolic sequence')


class SymEnum:
    def __init__(self, s, start): self.s, self.n, self.start = s, s.n, start
    def elem(self, k): return (k + self.start, self.s.elem(k))
    def __iter__(self): raise Unsupported('native iteration over a symbolic sequence')


class SymZip:
    def __init__(self, xs, n): self.xs, self.n = xs, n
    def elem(self, k): return tuple(x.at(k) if isinstance(x, T) else x.elem(k) for x in self.xs)
    def __iter__(self): raise Unsupported('native iteration over a symbolic sequence')


SEQOBJS = {}


def mark(v, depth=0):
    """remember what belongs to an element of a symbolic sequence"""
    if depth > 3 or isinstance(v, (int, str, float, Fraction, SR, SB, IX, type(None), type)): return
    SEQOBJS[id(v)] = v
    if isinstance(v, T): SEQOBJS[id(v.st)] = v.st
    elif isinstance(v, dict):
        for x in v.values(): mark(x, depth + 1)
    elif isinstance(v, (list, tuple)):
        for x in v: mark(x, depth + 1)
    elif hasattr(v, '__dict__'):
        for x in v.__dict__.values(): mark(x, depth + 1)


class BList(list):
    """a list the code built; after a loop of symbolic length only the elements of two arbitrary iterations are known"""
    sym = None

    def __iter__(self):
        if self.sym: raise Unsupported('iteration over a list of symbolic length')
        return list.__iter__(self)

    def __len__(self):
        if self.sym: raise Unsupported('native len of a list of symbolic length')
        return list.__len__(self)

    def __bool__(self):
        if self.sym: return bool(cmp_(self.sym[0], 0, '>'))
        return list.__len__(self) > 0

    def __getitem__(self, k):
        if not self.sym: return list.__getitem__(self, k)
        for i, v in self.sym[1]:
            if isinstance(k, (int, IX)) and CTX.implied(cmp_(i, k, '==')): return v
        raise Unsupported('element of a list of symbolic length')


def append(o, v):
    if type(o) is BList:
        if o.sym: raise Unsupported('append after a symbolic loop')
        for r in STACK:
            if r.recording and id(o) in r.entry_walk:
                if r.building and r is STACK[-1] and len(STACK) == 1:
                    r.appends.setdefault(id(o), (o, []))[1].append((r.k, v))
                    return
                r.appended[id(o)] = o
                return
    for r in STACK:
        if r.recording: r.anys[id(o)] = o
    o.append(v)


class While:
    """while loops: unrolled as long as their condition is decided; not inductive"""
    def __init__(self, site): self.site = site

    def __iter__(self):
        for k in range(400): yield k
        raise Unsupported('while loop without a bound: ' + self.site)


def comp_iter(it):
    if isinstance(it, (SymRange, SymSeq, SymEnum, SymZip)): raise Unsupported('comprehension over a symbolic sequence')
    return it


def make(it, site, names, may_leave=False):
    if isinstance(it, (SymRange, SymSeq, SymEnum, SymZip)): return Loop(it, site, names, may_leave)
    return Native(it)


def elements(x):
    return [y for z in x for y in elements(z)] if isinstance(x, tuple) else [x]


def blur(v, attrs):
    for a in attrs:
        if hasattr(v, '__dict__'): v.__dict__[a] = Opaque('%s set by an earlier loop' % a)


def opaque_element(it):
    if isinstance(it, SymEnum): return Opaque('loop variable'), opaque_element(it.s)
    if isinstance(it, SymZip): return tuple(opaque_element(x) for x in it.xs)
    return Opaque('loop variable')


class Native:
    sym = leave = False

    def __init__(self, it): self.it = it
    def __iter__(self): return iter(self.it)
    def havoc(self, l, n): raise AssertionError
    def end(self, l): pass


class Opaque:
    """a value the loop changes in a way that is not tracked; using it is refused"""
    def __init__(self, what): object.__setattr__(self, 'w', what)
    def __getattr__(self, n): raise Unsupported('use of untracked value ' + self.w)
    def append(self, *a): pass
    def extend(self, *a): pass
    def __bool__(self): raise Unsupported('use of untracked value ' + self.w)
    def __eq__(self, o): raise Unsupported('use of untracked value ' + self.w)
    __hash__ = object.__hash__


def kind(v):
    if isinstance(v, (bool, SB)): return 'b'
    if isinstance(v, (int, IX)): return 'i'
    if isinstance(v, float) and (math.isinf(v)): return 'inf'
    if isinstance(v, (Fraction, SR, float)): return 'r'
    if isinstance(v, T): return 't' if v.ndim else 'r'
    if v is None: return 'n'
    if isinstance(v, Opaque): return 'x'
    if hasattr(v, '_linvec'): return 'v'
    return 'o'


def join(a, b):
    if a == b or a is None: return b
    if b is None: return a
    s = {a, b}
    if 'x' in s: return 'x'
    if s == {'i', 'r'}: return 'r'
    if s <= {'inf', 'r', 'i', 'rinf'}: return 'rinf'
    if 'n' in s:
        o = (s - {'n'}).pop()
        return o if o.startswith('?') else '?' + o
    if any(x.startswith('?') for x in s):
        return '?' + join(a.lstrip('?'), b.lstrip('?'))
    return 'x'


class Box:
    """a storage location: local variable or heap path"""
    def __init__(self, path, get, put): self.path, self.get, self.put = path, get, put


def walk(root_locals):
    """objects reachable from the locals: id -> (path, obj)"""
    seen = {}
    todo = [((('L', n),), v) for n, v in sorted(root_locals.items()) if not n.startswith('__')]
    while todo:
        path, v = todo.pop(0)
        if isinstance(v, (int, str, float, Fraction, SR, SB, IX, type(None), type, bytes)) or id(v) in seen or len(path) > 7: continue
        if callable(v) and not hasattr(v, '__dict__'): continue
        t = type(v)
        if t.__module__ in ('builtins',) and not isinstance(v, (dict, list, tuple)): continue
        if t.__name__ in ('module', 'function', 'method', 'builtin_function_or_method'): continue
        seen[id(v)] = (path, v)
        if isinstance(v, T):
            if id(v.st) not in seen: seen[id(v.st)] = (path + (('S',),), v.st)
            continue
        if isinstance(v, dict):
            for k in v:
                if isinstance(k, (str, int)): todo.append((path + (('K', k),), v[k]))
        elif isinstance(v, (list, tuple)):
            for k, x in enumerate(v): todo.append((path + (('K', k),), x))
        elif hasattr(v, '__dict__') and not isinstance(v, (SymRange, SymSeq, SymEnum, SymZip, Loop, Native)):
            for k, x in sorted(v.__dict__.items()): todo.append((path + (('A', k),), x))
    return seen


def resolve(path, root):
    v = root
    for s in path:
        if s[0] == 'L': v = v[s[1]]
        elif s[0] == 'A': v = getattr(v, s[1])
        elif s[0] == 'K': v = v[s[1]]
        elif s[0] == 'S': v = v.st
    return v


def note_attr(o, a):
    for r in STACK:
        if r.recording: r.attrs[(id(o), a)] = o


def note_item(o, k):
    if isinstance(o, T): return
    for r in STACK:
        if r.recording:
            try: r.items[(id(o), k)] = o
            except TypeError: r.anys[id(o)] = o


def note_any(o):
    if isinstance(o, T): return
    for r in STACK:
        if r.recording: r.anys[id(o)] = o


# True: what follows a loop starts from its invariants at the last index; False: from the last iteration
CLASSIC = [False]
# False: only the invariants the contract states are tried
GUESS = [True]


def info_maps(info): return bool(info.maps)


class Loop:
    sym = True

    leave = False

    def __init__(self, it, site, names, may_leave=False):
        self.it, self.site, self.names = it, site, names
        self.may_leave = may_leave
        self.info = TABLE.setdefault(site, Info())
        self.n = it.n
        self.recording = False
        self.attrs, self.items, self.anys, self.storages, self.vectors = {}, {}, {}, {}, {}
        self.pre = {}           # path -> (entry value, havoced value)
        self.k = None
        self.ended = False
        self.after = []
        self.elem = None
        self.mapped = {}
        self.building = False
        self.appends = {}
        self.appended = {}

    def spoil(self):
        """the loop changed the elements themselves: what they hold afterwards is not tracked"""
        if not (self.info.own or self.info.spoils): return
        todo = [self.it]
        last = [id(x) for x in elements(self.elem)]
        while todo:
            s = todo.pop()
            if isinstance(s, SymEnum): todo.append(s.s)
            elif isinstance(s, SymZip): todo += s.xs
            elif isinstance(s, SymSeq):
                s.spoiled |= self.info.spoils
                s.unknown = s.unknown | self.info.own
                for v in s.memo.values():
                    if id(v) not in last: blur(v, self.info.own)

    def build_iter(self):
        self.building = True
        self.ks = ()
        case = CTX.choose(3)
        if case == 0:
            CTX.assume(cmp_(self.n, 0, '<=')); ks = []
        elif case == 1:
            CTX.assume(cmp_(self.n, 1, '==')); ks = [0]
        else:
            CTX.assume(cmp_(self.n, 2, '>='))
            ks = [CTX.int('k'), CTX.int('k')]
            CTX.assume(cmp_(ks[0], 0, '>=')); CTX.assume(cmp_(ks[0], ks[1], '<')); CTX.assume(cmp_(ks[1], self.n, '<'))
        self.ks = ks
        if CTX.infeasible(): raise PathEnd()
        for j, k in enumerate(ks):
            self.k = k
            STACK.append(self); st.LOG.active.append(self)
            try:
                self.elem = self.it.elem(k)
                yield self.elem
            finally:
                if self in STACK: STACK.remove(self)
                if self in st.LOG.active: st.LOG.active.remove(self)
                self.recording = False
            if any(len(v) != j + 1 for _, v in self.appends.values()):
                self.info.build = False
                raise Restart()
        for o, v in self.appends.values():
            if list.__len__(o):
                self.info.build = False
                raise Restart()
            o.sym = (self.n, v)
        if not ks:
            # an empty list stays a concrete empty list
            pass

    def build_havoc(self, loc, names):
        if not self.appends: self.entry_walk = walk(loc)
        self.recording = True
        self.attrs, self.items, self.anys, self.storages, self.vectors = {}, {}, {}, {}, {}
        return tuple(Opaque(n) for n in names)

    def build_end(self, loc):
        self.recording = False
        w = {i: v for i, v in self.entry_walk.items() if i not in SEQOBJS}
        if any(i in w for i, _ in self.attrs) or any(i in w for i, _ in self.items) or any(i in w for i in self.anys) or any(i in w for i in self.storages) or self.appended:
            self.info.build = False
            raise Restart()

    def __iter__(self):
        if self.info.build and not STACK:
            yield from self.build_iter()
            return
        if self.info.maponly:
            # a parallel loop: its closed form holds for any number of iterations
            nc, known = len(CTX.conds), set(CTX.known)
            CTX.solver.push(); CTX.isolver.push()
            try:
                self.k = CTX.int('dead!k')
                CTX.assume(cmp_(self.n, 1, '>='))
                CTX.assume(cmp_(self.k, 0, '>=')); CTX.assume(cmp_(self.k, self.n, '<'))
                if CTX.infeasible():
                    # the loop never runs
                    return
                STACK.append(self); st.LOG.active.append(self)
                self.elem = self.it.elem(self.k)
                yield self.elem
                for s, r in self.after: s.set(r)
                self.done = True
            finally:
                if self in STACK: STACK.remove(self)
                if self in st.LOG.active: st.LOG.active.remove(self)
                self.recording = False
                CTX.solver.pop(); CTX.isolver.pop()
                del CTX.conds[nc:]
                CTX.known = known
                CTX.implied_cache = {}
                if self in (getattr(self, 'started', None),) and not getattr(self, 'done', False):
                    CTX.restart = self.info
            return
        if CLASSIC[0] and self.may_leave and not info_maps(self.info):
            # the state after the loop is any state the invariants allow after n iterations
            if CTX.choose(2) == 1:
                CTX.assume(cmp_(self.n, 0, '>='))
                if CTX.infeasible(): raise PathEnd()
                self.zero, self.leave, self.k = False, True, self.n
                try: yield opaque_element(self.it)
                finally:
                    self.recording = False
                    self.spoil()
                    RECORDS.append(self)
                return
            zero = False
        else: zero = CTX.choose(2) == 0
        if zero:
            self.zero = True
            CTX.assume(cmp_(self.n, 0, '<='))
            if CTX.infeasible(): raise PathEnd()
            RECORDS.append(self)
            return
        self.zero = False
        CTX.assume(cmp_(self.n, 1, '>='))
        if CTX.infeasible(): raise PathEnd()
        self.k = CTX.int('k')
        CTX.assume(cmp_(self.k, 0, '>='))
        CTX.assume(cmp_(self.k, self.n, '<'))
        STACK.append(self)
        st.LOG.active.append(self)
        try:
            self.elem = self.it.elem(self.k)
            yield self.elem
            if CLASSIC[0] and self.may_leave and not info_maps(self.info): raise PathEnd()
            CTX.assume(cmp_(self.k, self.n - 1, '=='))
            if CTX.infeasible(): raise PathEnd()
            for s, r in self.after: s.set(r)
            self.spoil()
        finally:
            if self in STACK: STACK.remove(self)
            if self in st.LOG.active: st.LOG.active.remove(self)
            self.recording = False
            RECORDS.append(self)

    # -- havoc
    def fresh(self, path, v, kd):
        nm = 'h:' + self.site.rpartition('.')[2] + ':' + '.'.join(str(s[-1]) for s in path)
        if kd.startswith('?'):
            if CTX.choose(2) == 0: return None
            return self.fresh(path, v, kd[1:])
        if kd == 'rinf':
            if CTX.choose(2) == 0: return math.inf
            return CTX.real(nm)
        if kd == 'inf': return v
        if kd == 'i': return CTX.int(nm)
        if kd == 'r':
            r = CTX.real(nm)
            return st.scalar_tensor(r) if isinstance(v, T) else r
        if kd == 'b': return CTX.bool(nm)
        if kd == 't':
            if not isinstance(v, T): raise Unsupported('loop turns %s into a tensor' % nm)
            return self.fresh_tensor(path, v, nm)
        if kd == 'v':
            if not hasattr(v, '_linvec'): raise Unsupported('loop turns %s into a vector' % nm)
            return v.fresh_like(nm)
        if kd in ('n', 'o'): return v
        return Opaque(nm)

    def fresh_tensor(self, path, v, nm):
        f = fresh_uf(nm, v.shape_, v.sp, v.dtype_)
        t = T(v.shape_, f, dtype=v.dtype_, sp=v.sp)
        t._facts = f.facts
        t._uf = f.uf
        return t

    def havoc(self, loc, names):
        if self.building: return self.build_havoc(loc, names)
        info = self.info
        self.started = self
        self.entry_walk = walk(loc)
        self.root = dict(loc)
        self.clock = st.LOG.clock()
        self.entry = {}
        # locals
        vals = {}
        for n in names:
            if n not in loc: continue
            p = (('L', n),)
            kd = join(info.kinds.get(n), kind(loc[n]))
            info.kinds[n] = kd
            self.entry[p] = loc[n]
            if p in info.poison and isinstance(loc[n], T):
                v = loc[n]
                if v.view_ is not st.IDV: raise Unsupported('loop writes through a partial view')
                self.entry[p] = T(v.shape_, v.reader(), dtype=v.dtype_, sp=v.sp)
                v.st.set(poison(n))
        # heap
        for p, kd in sorted(info.mods.items(), key=str):
            try: v = resolve(p, self.root)
            except (KeyError, AttributeError, IndexError): continue
            except Unsupported: continue      # under a value that is not tracked: reading it is refused
            if p[-1] == ('S',):
                owner = resolve(p[:-1], self.root)
                self.entry[p] = owner
            else: self.entry[p] = v
        self.cur = {}
        self.mapped = {}
        vs = [id(v.cell_) for v in self.entry.values() if kind(v) == 'v']
        if len(set(vs)) < len(vs): raise Unsupported('two names for a vector the loop changes')
        for p, v in self.entry.items():
            if p[-1] == ('S',):
                old = self.snapshot_storage(v)
                whole = T(v.shape_, old, dtype=v.dtype_, sp=v.sp)
                f = self.fresh_tensor(p, v, 'h:' + self.site.rpartition('.')[2] + ':' + '.'.join(str(s[-1]) for s in p[:-1]))
                self.entry[p] = whole
                if p in info.maps:
                    self.mapped[p] = (v.st, old)
                    self.cur[p] = f
                    self.storage_put(v.st, f.reader())
                    continue
                # the whole storage becomes arbitrary; only dense identity views are supported
                if v.view_ is not st.IDV: raise Unsupported('loop writes through a partial view')
                self.cur[p] = f
                self.storage_put(v.st, f.reader())
                continue
            kd = info.kinds[p[0][1]] if len(p) == 1 and p[0][0] == 'L' else info.mods[p]
            kd = join(kd, kind(v))
            if kd == 'v': self.entry[p] = v.snapshot()
            h = self.fresh(p, v, kd)
            self.cur[p] = h
            if len(p) > 1: self.store(p, h)
            else: vals[p[0][1]] = h
        for p in self.mapped: self.entry.pop(p)
        self.assume_invariants()
        self.ndec0 = CTX.ndec
        self.recording = True
        self.pre = {p: (self.entry[p], self.cur[p]) for p in self.entry}
        self.attrs, self.items, self.anys, self.storages, self.vectors = {}, {}, {}, {}, {}
        self.appended = {}
        return tuple(vals.get(n, loc[n] if n in loc else Opaque(n)) for n in names)

    def snapshot_storage(self, t):
        return t.reader()

    def storage_put(self, s, fn): s.set(fn)

    def store(self, p, v):
        o = resolve(p[:-1], self.root)
        s = p[-1]
        if s[0] == 'A': setattr(o, s[1], v)
        else: o[s[1]] = v

    def current(self, loc):
        out = {}
        for p in self.entry:
            if len(p) == 1: out[p] = loc.get(p[0][1])
            elif p[-1] == ('S',):
                out[p] = resolve(p[:-1], self.root)
            else: out[p] = resolve(p, self.root)
        return out

    # -- invariants
    def candidates(self):
        ps = [p for p in sorted(self.entry, key=str) if not isinstance(self.cur[p], Opaque) and self.cur[p] is not None
              and kind(self.entry[p]) not in ('x', 'n') and kind(self.cur[p]) == kind(self.entry[p])]
        for p in ps if GUESS[0] else ():
            e = self.entry[p]
            kd = kind(e)
            if kd in ('i', 'r', 'b', 't'): yield ('eq', p)
            if kd in ('i', 'r'): yield ('ge0', p)
            if kd == 'i': yield ('cnt', p)
        for a in range(len(ps) if GUESS[0] else 0):
            for b in range(a + 1, len(ps)):
                if self.pairable(self.entry[ps[a]], self.entry[ps[b]]): yield ('pair', ps[a], ps[b])
        for hk, h in enumerate(HINTS):
            for p in ps:
                if kind(self.entry[p]) in ('t', 'r', 'i', 'v'): yield ('hint', hk, p)

    def pairable(self, a, b):
        ka, kb = kind(a), kind(b)
        if ka != kb or ka not in ('i', 'r', 't'): return False
        if ka == 't': return a is b or (a.st is b.st and a.view_ is b.view_)
        try:
            c = cmp_(_num(a), _num(b), '==')
        except Unsupported: return False
        return c is True

    def formula(self, c, val, k):
        """list of (shape, fn) universally quantified or plain conditions"""
        kd = c[0]
        if kd == 'eq':
            v, e = val[c[1]], self.entry[c[1]]
            return eq_formula(v, e)
        if kd == 'ge0':
            v = val[c[1]]
            return [((), lambda i: cmp_(_num(v), 0, '>='))]
        if kd == 'cnt':
            v, e = val[c[1]], self.entry[c[1]]
            return [((), lambda i: cmp_(_num(v), e + k, '=='))]
        if kd == 'pair':
            return eq_formula(val[c[1]], val[c[2]])
        if kd == 'hint':
            h = HINTS[c[1]]
            return h(self, c[2], self.entry[c[2]], val[c[2]], val, k, self.n) or []

    def assume_invariants(self):
        info = self.info
        self.cands = [c for c in self.candidates() if c not in info.dropped]
        # establishment
        bad = []
        for c in list(self.cands):
            if c[0] in ('eq', 'pair'): continue       # true at entry by construction
            try: fs = self.formula(c, self.entry, 0)
            except Unsupported: fs = None
            if fs is None or not all(prove_forall(s, f) for s, f in fs): bad.append(c)
        if bad:
            info.dropped.update(bad)
            raise Restart()
        for c in self.cands:
            for s, f in self.formula(c, self.cur, self.k):
                if not s and f(()) is False:
                    info.dropped.add(c)
                    raise Restart()
                assume_forall(s, f, self.cur)

    def end(self, loc):
        if self.building: return self.build_end(loc)
        self.recording = False
        info = self.info
        grow = False
        own = any(i in SEQOBJS for i, _ in self.attrs) or any(i in SEQOBJS for i, _ in self.items) or any(i in SEQOBJS for i in self.storages)
        if self.appended or own:
            if info.build is None and len(STACK) == 1 and not any(i not in SEQOBJS for i in self.storages):
                info.build = True
                raise Restart()
            self.anys.update(self.appended)
            for i, a in self.attrs:
                if i not in SEQOBJS: continue
                if any(id(x) == i for x in elements(self.elem)): info.own.add(a)
                else: info.spoils = True
            if any(i in SEQOBJS for i, _ in self.items) or any(i in SEQOBJS for i in self.storages): info.spoils = True
        # newly discovered modifications of pre-existing state
        for (i, a), o in self.attrs.items():
            if i in self.entry_walk:
                p = self.entry_walk[i][0] + (('A', a),)
                grow |= self.note_mod(p, getattr(o, a, None))
        for (i, k), o in self.items.items():
            if i in self.entry_walk:
                p = self.entry_walk[i][0] + (('K', k),)
                try: v = o[k]
                except Exception: v = None
                grow |= self.note_mod(p, v)
        for i, o in self.anys.items():
            if i in self.entry_walk:
                p = self.entry_walk[i][0]
                if info.mods.get(p) != 'x' and not (len(p) == 1):
                    info.mods[p] = 'x'; grow = True
                elif len(p) == 1 and info.kinds.get(p[0][1]) != 'x':
                    info.kinds[p[0][1]] = 'x'
                    if p not in self.entry: info.mods[p] = 'x'
                    grow = True
        for i, s in self.storages.items():
            if i in self.entry_walk:
                p = self.entry_walk[i][0][:-1]
                q = p + (('S',),)
                # a local variable that is rebound every iteration may not own the storage at entry
                if q not in info.mods:
                    info.mods[q] = 't'; grow = True
                    if isinstance(self.it, SymRange): info.maps.add(q)
            elif s.born < self.clock:
                if not any(h.st is s for h in self.cur.values() if isinstance(h, T)):
                    raise Unsupported('loop writes a tensor that is not reachable from its variables')
        for n in list(info.kinds):
            if n in loc and (('L', n),) in self.entry:
                kd = join(info.kinds[n], kind(loc[n]))
                if kd != info.kinds[n]: info.kinds[n] = kd; grow = True
        for p, h in self.cur.items():
            if len(p) == 1 and isinstance(h, T) and isinstance(self.entry[p], T) and id(h.st) in self.storages and p not in info.poison:
                info.poison.add(p); grow = True
        grow |= self.end_vectors(loc)
        if grow: raise Restart()
        for p, (s, old) in self.mapped.items():
            try: r = self.map_result(p, s, old)
            except Unsupported: r = None
            if r is None:
                info.maps.discard(p)
                raise Restart()
            self.after.append((s, r))
        val = self.current(loc)
        for p, e in self.entry.items():
            v = val[p]
            if isinstance(self.cur[p], Opaque): continue
            if isinstance(e, T) and isinstance(v, T):
                if len(e.shape_) != len(v.shape_) or not all(st.same(a, b) for a, b in zip(e.shape_, v.shape_)):
                    if len(p) == 1: info.kinds[p[0][1]] = 'x'
                    else: info.mods[p] = 'x'
                    raise Restart()
            elif kind(e) == 'o' and v is not e and not isinstance(v, Opaque) and kind(self.cur[p]) == 'o':
                kdp = info.kinds.get(p[0][1]) if len(p) == 1 else info.mods.get(p)
                if kdp == 'o':
                    if len(p) == 1: info.kinds[p[0][1]] = 'x'
                    else: info.mods[p] = 'x'
                    raise Restart()
        # preservation
        bad = [c for c in self.cands if not self.preserved(c, val)]
        if bad:
            info.dropped.update(bad)
            raise Restart()
        info.kept = {c for c in self.cands if c[0] != 'hint' or self.formula(c, self.entry, 0)}
        if info.maponly is None and self.mapped and all(p in self.mapped for p in info.mods) and isinstance(self.it, SymRange) \
                and all(isinstance(v, Opaque) or kind(v) == 'x' for p, v in self.cur.items() if p not in self.mapped):
            info.maponly = True
            raise Restart()
        self.ended = True

    def end_vectors(self, loc):
        grow = False
        known = {id(v.cell_) for p, v in self.cur.items() if kind(v) == 'v'}
        for i, cell in self.vectors.items():
            if i in known: continue
            hit = [(p, o) for p, o in self.entry_walk.values() if hasattr(o, '_linvec') and id(o.cell_) == i]
            if hit: grow |= self.note_mod(*hit[0])
            elif cell[1] < self.clock: raise Unsupported('loop changes a vector that is not reachable from its variables')
        if grow: return True
        seen = set()
        val = self.current(loc)
        for p, v in val.items():
            if kind(v) != 'v': continue
            if id(v.cell_) in seen: raise Unsupported('two names for a vector the loop changes')
            seen.add(id(v.cell_))
            if isinstance(self.cur[p], Opaque): continue
            if v.cell_ is not self.cur[p].cell_ and v.cell_[1] < self.clock: raise Unsupported('a vector from before the loop')
        return False

    def preserved(self, c, val):
        # first with everything computed before the loop read as arbitrary values
        for ab in (self.clock, None) if c[0] == 'hint' else (None,):
            st.ABS[0] = ab
            try:
                fs = self.formula(c, val, self.k + 1)
                if all(prove_forall(s, f) for s, f in fs): return True
            except Unsupported: pass
            finally: st.ABS[0] = None
        return False

    def map_result(self, p, s, old):
        """the storage after all iterations of a loop whose iteration k writes only its own slab"""
        if CTX.ndec != self.ndec0: return None
        t = self.cur[p]
        owner = resolve(p[:-1], self.root)
        radices = owner.shape_
        body = s.fn
        kz = sx.zi(self.k)
        found = []
        bad = [False]

        def probe():
            b = []
            for r in radices:
                i = CTX.int('b')
                CTX.assume(cmp_(i, 0, '>=')); CTX.assume(cmp_(i, r, '<'))
                b.append(i)
            v = body(tuple(b))
            poison = t.at(*b)
            if isinstance(v, (SR, SB)) and v.e.eq(poison.e): 
                found.append((False, None))
                return
            if isinstance(v, (SR, SB)):
                for a in list(sx.consts([v.e])) + [x.decl().name() for x in sx.apps([v.e])]:
                    if str(a).startswith('h:'): bad[0] = True
            axes = {ax for ax in range(len(b)) if CTX.implied(cmp_(b[ax] - self.k, 0, '=='))}
            found.append((True, axes))
        CTX.scoped(probe)
        wr = [a for w, a in found if w]
        if bad[0] or not wr: return None
        axes = set.intersection(*wr)
        if not axes: return None
        ax = min(axes)
        # complement: every index in the slab is written
        miss = [False]

        def probe2():
            b = []
            for q, r in enumerate(radices):
                if q == ax: b.append(self.k); continue
                i = CTX.int('b')
                CTX.assume(cmp_(i, 0, '>=')); CTX.assume(cmp_(i, r, '<'))
                b.append(i)
            v = body(tuple(b))
            if isinstance(v, (SR, SB)) and v.e.eq(t.at(*b).e): miss[0] = True
        CTX.scoped(probe2)
        if miss[0]: return None
        n, lo = self.n, 0

        def final(b):
            k0 = b[ax]
            c = and_(cmp_(k0, 0, '>='), cmp_(k0, n, '<'))
            if c is True or (c is not False and CTX.decide(c)):
                return sx.subst_eval(body, b, kz, k0)
            return old(b)
        return final

    def note_mod(self, p, v):
        info = self.info
        kd = kind(v)
        old = info.mods.get(p)
        # combine with the value at entry
        j = join(old, kd)
        if old is None or j != old:
            info.mods[p] = j
            return True
        return False


def _num(x): return x.scalar() if isinstance(x, T) else x


def eq_formula(v, e):
    if v is e: return []
    if isinstance(e, T) and e.ndim:
        if not isinstance(v, T): return [((), lambda i: False)]
        return [(e.shape_, lambda i: sx.eq_(v.at(*i), e.at(*i)))]
    if kind(v) not in ('i', 'r', 'b') or kind(e) not in ('i', 'r', 'b'): return [((), lambda i: False)]
    return [((), lambda i: sx.eq_(_num(v), _num(e)))]


def fresh_uf(nm, shape, sp, dtype, axiom=None):
    name = CTX.name(nm)
    radices = []
    for s, f in zip(shape, sp): radices += list(f.r) if f is not None else [s]
    res = {'f': sx.z3.RealSort(), 'i': sx.z3.IntSort(), 'b': sx.z3.BoolSort()}[dtype]
    if radices:
        F = sx.z3.Function(name, *([sx.z3.IntSort()] * len(radices) + [res]))
    facts = []

    def fn(idx):
        ds = []
        for i, s, f in zip(idx, shape, sp):
            ds += list(st.digits(i, f.r)) if f is not None else [i]
        t = F(*[sx.zi(d) for d in ds]) if ds else sx.z3.Const(name, res)
        v = SR(t) if dtype == 'f' else (sx.ix_atom(t) if dtype == 'i' else SB(t))
        for g in facts: CTX.assume(g(idx))
        return v
    fn.facts = facts
    fn.uf = name
    return fn


def poison(n):
    def fn(idx): raise Unsupported('another name for the tensor %s, which the loop changes in place' % n)
    return fn


class No(Exception): pass


def prove_forall(shape, f):
    """decide a universally quantified condition on the current path"""
    def body():
        idx = st.fresh_index(shape)
        c = f(tuple(idx))
        if c is True: return
        if c is False:
            if not CTX.infeasible(): raise No()
            return
        r, m, b = sx.prove(CTX.conds, sx.zb(c), 2500)
        if r == 'proved': return
        CTX.later(shape, idx)
        if not CTX.wanted(): raise No()

        def again():
            CTX.force()
            if not CTX.infeasible() and sx.prove(CTX.conds, sx.zb(c), 2500)[0] != 'proved': raise No()
        CTX.scoped(again)
    try: CTX.scoped(body)
    except (Unsupported, No): return False
    return True


def assume_forall(shape, f, cur):
    if not shape:
        c = f(())
        if hasattr(c, 'orient') and c.orient(): return
        CTX.assume(c)
        return
    # attach to the fresh tensors of that shape: assumed at every index that is read
    busy = [False]

    def g(idx):
        if busy[0]: return True
        busy[0] = True
        try: return f(idx)
        finally: busy[0] = False
    CTX.univ.append((tuple(shape), f))
    for t in cur.values():
        if isinstance(t, T) and hasattr_facts(t) and len(t.shape_) == len(shape) and all(st.same_poly_or_eq(a, b) for a, b in zip(t.shape_, shape)):
            t._facts.append(g)


def hasattr_facts(t): return '_facts' in t.__dict__
