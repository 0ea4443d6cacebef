"""Equalities of rational functions with if-then-else, decided by normal forms.

prove(hyps, goal): goal is a conjunction of equalities (or disequality-free); every
if-then-else is case-split; a case whose numerators differ must be infeasible (checked with z3).
Denominators are assumed non-zero exactly as the goal's own divisions assume it."""
from fractions import Fraction
import time
import z3

MAXTERMS = 4000
MAXCASES = 256
DBG = 0


class GiveUp(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, c):
        self.c = c


def padd(a, b, s=1):
    if len(b) > len(a) and s == 1:
        a, b = b, a
    r = dict(a)
    for k, v in b.items():
        w = r.get(k, 0) + s * v
        if w: r[k] = w
        else: r.pop(k, None)
    return r


def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for k, e in n:
        if k[0] == 'i': d[k] = 1             # indicators are 0 or 1
        else:
            e += d.get(k, 0)
            if e: d[k] = e
            else: del d[k]
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > MAXTERMS * 4: raise GiveUp()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            w = r.get(k, 0) + c * d
            if w: r[k] = w
            else: r.pop(k, None)
    if len(r) > MAXTERMS: raise GiveUp()
    return r


ONE = {(): Fraction(1)}


def rmul(a, b):
    return pmul(a[0], b[0]), pmul(a[1], b[1])


def radd(a, b, s=1):
    if a[1] == b[1]:
        return padd(a[0], b[0], s), a[1]
    return padd(pmul(a[0], b[1]), pmul(b[0], a[1]), s), pmul(a[1], b[1])


SIGNS = {'>': frozenset('+'), '>=': frozenset('+0'), '<': frozenset('-'), '<=': frozenset('-0'), '==': frozenset('0'), '!=': frozenset('+-')}
ALL = frozenset('+-0')
FLIP = {'+': '-', '-': '+', '0': '0'}
OPS = {z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '>=', z3.Z3_OP_LT: '<', z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '==', z3.Z3_OP_DISTINCT: '!='}


def sign_key(r):
    """(key, flipped): rational functions of equal (opposite when flipped) sign share a key"""
    p = r[0] if r[1] == ONE else pmul(*r)
    if not p: return None, False
    # even powers common to every term do not matter, nor does a positive factor
    com = None
    for m in p:
        d = dict(m)
        if com is None: com = d
        else:
            com = {a: min(e, d.get(a, 0)) for a, e in com.items()}
            for a, e in m:
                if a not in com and e < 0: com[a] = e
    com = {a: e - e % 2 for a, e in com.items() if e - e % 2}
    if com:
        q = {}
        for m, c in p.items():
            d = dict(m)
            for a, e in com.items(): d[a] = d.get(a, 0) - e
            q[tuple(sorted((a, e) for a, e in d.items() if e))] = c
        p = q
    lead = min(p)
    c = p[lead]
    return frozenset((m, v / c) for m, v in p.items()), c < 0


# normal forms and comparisons of terms without if-then-else: the same under all assumptions
PLAINS, LEARNT, ISCMP, INVERSES = [({}, {}), ({}, {})], {}, {}, {}


def inverse(p):
    """1 / p as a polynomial over inverse atoms"""
    if len(p) == 1:
        (m, c), = p.items()
        if not any(a[0] == 'i' for a, _ in m): return {tuple((a, -e) for a, e in m): 1 / c}
    lead = p[min(p)]
    k = frozenset((m, c / lead) for m, c in p.items())
    if k not in INVERSES: INVERSES[k] = 'v%d' % len(INVERSES)
    return {((INVERSES[k], 1),): 1 / lead}


def indicators(p): return sorted({a for m in p for a, _ in m if a[0] == 'i'})


def fix(p, n, one):
    """p with indicator n set to 1 or 0"""
    r = {}
    for m, c in p.items():
        if (n, 1) in m:
            if not one: continue
            m = tuple(x for x in m if x[0] != n)
        c = r.get(m, 0) + c
        if c: r[m] = c
        else: r.pop(m, None)
    return r


class Conv:
    """normal forms under assumptions about signs and Boolean atoms; a condition that is not
    decided by them raises NeedSplit, or (atoms=True) turns its if-then-else into an atom"""
    def __init__(self, split, signs, atoms, inv=False):
        self.inv = inv          # quotients by way of inverse atoms instead of fractions
        self.plain, self.plaincmp = PLAINS[inv]
        self.split = split      # id of a Boolean atom -> bool
        self.signs = signs      # sign key -> signs it can have
        self.atoms = atoms
        self.cache = {}
        self.names, self.keys = {}, {}
        self.dep = False
        self.deep = False       # also conclude from comparisons what their conditions must be

    def compare(self, c):
        """(key, signs for which the comparison holds), or a Boolean"""
        i = c.get_id()
        if i in self.plaincmp: return self.plaincmp[i][1]
        old, self.dep = self.dep, False
        try:
            r = self._compare(c)
            if not self.dep: self.plaincmp[i] = (c, r)
            return r
        finally: self.dep = old or self.dep

    def _compare(self, c):
        op = OPS.get(c.decl().kind())
        if op is None or not z3.is_real(c.arg(0)): return None
        d = radd(self.go(c.arg(0)), self.go(c.arg(1)), -1)
        k, fl = sign_key(d)
        want = SIGNS[op]
        if k is None: return '0' in want
        if fl: want = frozenset(FLIP[x] for x in want)
        if len(k) == 1:
            (m, v), = k
            if not m: return ('+' if v > 0 else '-') in want
        return k, want

    def cond(self, c):
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if z3.is_not(c): return not self.cond(c.arg(0))
        if c.get_id() in self.split: return self.split[c.get_id()]
        if z3.is_and(c):
            need = None
            for x in c.children():
                try:
                    if not self.cond(x): return False
                except NeedSplit as s: need = need or s
            if need: raise need
            return True
        if z3.is_or(c):
            need = None
            for x in c.children():
                try:
                    if self.cond(x): return True
                except NeedSplit as s: need = need or s
            if need: raise need
            return False
        r = self.compare(c)
        if r is None: raise NeedSplit(c)
        if isinstance(r, bool): return r
        have = self.signs.get(r[0], ALL)
        if have <= r[1]: return True
        if not have & r[1]: return False
        raise NeedSplit(c)

    def learn(self, c, v=True):
        """take a hypothesis into account; False when it contradicts what is known"""
        if z3.is_not(c): return self.learn(c.arg(0), not v)
        if v and z3.is_and(c) or not v and z3.is_or(c): return all([self.learn(x, v) for x in c.children()])
        if z3.is_and(c) or z3.is_or(c): return True
        try: r = self.compare(c) if z3.is_app(c) and c.num_args() == 2 else None
        except (NeedSplit, GiveUp): return True
        if r is None: return True
        if isinstance(r, bool): return r == v
        w = r[1] if v else ALL - r[1]
        self.signs[r[0]] = self.signs.get(r[0], ALL) & w
        return bool(self.signs[r[0]]) and self.propagate(r[0], w)

    def propagate(self, k, w):
        """indicators one value of which makes a comparison (sign of k in w) fail have the other value"""
        if not self.deep or len(k) > 1500: return True
        p = dict(k)
        for n in indicators(p):
            key = self.keys.get(n)
            if key is None or key[0] == 'c': continue
            for one in (1, 0):
                if not self.refuted(fix(p, n, one), w, {key[0]: key[1] if one else ALL - key[1]}, 1): continue
                want = ALL - key[1] if one else key[1]
                self.signs[key[0]] = self.signs.get(key[0], ALL) & want
                if not self.signs[key[0]]: return False
        return True

    def refuted(self, p, w, more, depth):
        """p cannot have a sign in w"""
        q, fl = sign_key((p, ONE))
        if q is None: have = frozenset('0')
        else:
            have = self.signs.get(q, ALL) & more.get(q, ALL)
            if len(q) == 1:
                (m, c), = q
                if not m: have = frozenset('+' if c > 0 else '-')
            if fl: have = frozenset(FLIP[x] for x in have)
        if not have & w: return True
        if not depth: return False
        for n in indicators(p):
            key = self.keys.get(n)
            if key is None or key[0] == 'c': continue
            if all(self.refuted(fix(p, n, one), w, {**more, key[0]: key[1] if one else ALL - key[1]}, depth - 1) for one in (1, 0)):
                return True
        return False

    def go(self, e):
        i = e.get_id()
        if i in self.plain: return self.plain[i][1]
        if i in self.cache:
            self.dep = True
            return self.cache[i]
        old, self.dep = self.dep, False
        try:
            r = self._go(e)
            if self.dep: self.cache[i] = r
            else: self.plain[i] = (e, r)
            return r
        finally: self.dep = old or self.dep

    def atom(self, key):
        if key not in self.names:
            self.names[key] = 'i%d' % len(self.names)
            self.keys[self.names[key]] = key
        return {((self.names[key], 1),): Fraction(1)}, ONE

    def _go(self, e):
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return ({(): f} if f else {}), ONE
        if z3.is_int_value(e):
            f = Fraction(e.as_long())
            return ({(): f} if f else {}), ONE
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = self.go(ch[0])
            for c in ch[1:]: r = radd(r, self.go(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.go(ch[0])
            for c in ch[1:]: r = radd(r, self.go(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            a = self.go(ch[0])
            return {m: -c for m, c in a[0].items()}, a[1]
        if k == z3.Z3_OP_MUL:
            r = self.go(ch[0])
            for c in ch[1:]: r = rmul(r, self.go(c))
            return r
        if k == z3.Z3_OP_DIV:
            a, b = self.go(ch[0]), self.go(ch[1])
            if not b[0]: raise GiveUp()
            if self.inv: return pmul(a[0], inverse(b[0])), ONE
            return pmul(a[0], b[1]), pmul(a[1], b[0])
        if k == z3.Z3_OP_TO_REAL:
            return self.go(ch[0])
        if k == z3.Z3_OP_ITE:
            self.dep = True
            try: return self.go(ch[1] if self.cond(ch[0]) else ch[2])
            except NeedSplit:
                if not self.atoms: raise
            c, a, b = ch[0], ch[1], ch[2]
            while z3.is_not(c): c, a, b = c.arg(0), b, a
            a, b = self.go(a), self.go(b)
            if a == b: return a
            # ite(c, a, b) = b + [c] (a - b) with an indicator [c] that is 0 or 1
            r = self.compare(c) if z3.is_app(c) and c.num_args() == 2 and not z3.is_and(c) and not z3.is_or(c) else None
            if r is None: key = ('c', c.get_id())
            else:
                key, want = r
                if '+' not in want: want, a, b = ALL - want, b, a
                key = (key, want)
            return radd(b, rmul(self.atom(key), radd(a, b, -1)))
        if k == z3.Z3_OP_POWER: raise GiveUp()
        return {((('a%d' % e.get_id()), 1),): Fraction(1)}, ONE


def comparisons(h, out):
    """the comparisons of real terms a hypothesis consists of"""
    x = h
    while z3.is_not(x): x = x.arg(0)
    if z3.is_and(x) or z3.is_or(x):
        for y in x.children(): 
            if comparisons(y, out): return True
        return False
    return z3.is_app(x) and x.num_args() == 2 and x.decl().kind() in OPS and z3.is_real(x.arg(0))


def normal_key(e):
    """a key shared by all spellings of a rational function without if-then-else"""
    cv = Conv({}, {}, False, True)
    try: p, _ = cv.go(e)
    except (GiveUp, NeedSplit): return None
    return None if cv.dep else frozenset(p.items())


def iscmp(h):
    i = h.get_id()
    if i not in ISCMP: ISCMP[i] = (h, comparisons(h, None))
    return ISCMP[i][1]


def quick(hyps, goal):
    """the two sides have the same normal form (with indicators for undecided conditions)"""
    if z3.is_and(goal): return all(quick(hyps, g) for g in goal.children())
    if not (z3.is_eq(goal) and z3.is_arith(goal.arg(0))): return False
    gave = None
    for inv, deep in ((True, False), (True, True), (False, False)):
        try:
            if _quick(hyps, goal.arg(0), goal.arg(1), inv, deep): return True
        except GiveUp as g: gave = g
    if gave: raise gave
    return False


def _quick(hyps, a, b, inv, deep=False):
    if len(PLAINS[inv][0]) + len(ISCMP) > 300000:
        PLAINS[inv] = ({}, {})
        LEARNT.clear(); ISCMP.clear()
    cv = Conv({}, {}, True, inv)
    cv.deep = deep
    if not radd(cv.go(a), cv.go(b), -1)[0]: return True
    known = [h for h in hyps if iscmp(h)]
    ids = [h.get_id() for h in known]
    if (inv, deep) in LEARNT and LEARNT[inv, deep][0] == ids:
        cv = LEARNT[inv, deep][2]
        if cv is None: return True
    else:
        # hypotheses repeatedly: one round decides conditions inside the others
        ok, size = True, None
        for i in range(16 if deep else 2):
            cv.cache = {}
            ok = ok and all([cv.learn(h) for h in known])
            old, size = size, (len(cv.signs), sum(len(x) for x in cv.signs.values()))
            if DBG: print('round',i,size,ok)
            if not ok or i and old == size: break
        LEARNT[inv, deep] = (ids, known, cv if ok else None)
        if not ok: return True
        cv.cache = {}
    return not radd(cv.go(a), cv.go(b), -1)[0]


def prove(hyps, goal, seconds=6):
    if z3.is_and(goal):
        return all(prove(hyps, g, seconds) for g in goal.children())
    if not (z3.is_eq(goal) and z3.is_arith(goal.arg(0))):
        return False
    a, b = goal.arg(0), goal.arg(1)
    n = [0]
    end = time.time() + seconds
    known = [h for h in hyps if comparisons(h, None)]

    def conv(split, lits):
        cv = Conv(split, {}, False)
        ok = all([cv.learn(x) for x in lits])
        return cv, ok and all([cv.learn(h) for h in known])

    def rec(split, lits):
        n[0] += 1
        if n[0] > MAXCASES or time.time() > end: raise GiveUp()
        cv, ok = conv(split, lits)
        if not ok: return True
        try:
            d = radd(cv.go(a), cv.go(b), -1)
            if not d[0]: return True
        except NeedSplit as s:
            for v in (True, False):
                sp = dict(split)
                sp[s.c.get_id()] = v
                if not rec(sp, lits + [s.c if v else z3.Not(s.c)]):
                    return False
            return True
        # differing numerators: the case must be infeasible
        if not lits: return False
        s = z3.Solver()
        s.set('timeout', int(max(50, min(600, 1000 * (end - time.time())))))
        for h in hyps: s.add(h)
        for l in lits: s.add(l)
        return s.check() == z3.unsat
    return rec({}, [])
