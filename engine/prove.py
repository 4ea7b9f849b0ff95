"""Discharging of the verification conditions.

Real-valued equalities are decided by a normaliser (multivariate polynomials over canonical atoms,
case splitting on conditional values, reduction by equality hypotheses, elimination of quotients
and square roots with their side conditions); inequalities and boolean goals go to Z3 (linear
abstraction, then nonlinear real arithmetic) and cvc5.
"""
import os
import time
from fractions import Fraction
import z3
from terms import *
import terms as tm

TOL = Fraction(1, 10 ** 12)
STAT = {'z3': 0, 'z3_s': 0.0, 'cvc5': 0, 'cvc5_s': 0.0, 'poly': 0, 'poly_s': 0.0, 'splits': 0}


class GiveUp(Exception):
    pass


# ------------------------------------------------------------------------------ coefficients
def co(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


# ------------------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'cond', 'depth', 'has_ite', 'sub')


_atab = {}
ATOMS = []


def atom(kind, name=None, args=(), cond=None):
    """args: poly ids"""
    key = (kind, name, args, cond.id if cond is not None else None)
    a = _atab.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind; a.name = name; a.args = args; a.cond = cond
        d = 0
        ite_ = kind == 'ite'
        s = {a.id}
        for p in args:
            d = max(d, PDEPTH[p] + 1); ite_ = ite_ or PITE[p]; s |= PSUB[p]
        if cond is not None:
            d = max(d, cond.depth + 1); ite_ = ite_ or cond.has_ite; s |= cond.sub
        a.depth = d; a.has_ite = ite_
        a.sub = frozenset(s)
        ATOMS.append(a)
        _atab[key] = a
    return a


# ------------------------------------------------------------------------------ polynomials
_ptab = {}
POLYS = []
PDEPTH = []
PITE = []
PSUB = []


def pid(p):
    key = tuple(sorted(p.items()))
    i = _ptab.get(key)
    if i is None:
        i = len(POLYS)
        _ptab[key] = i
        POLYS.append(p)
        d = 0; it = False
        s = set()
        for m in p:
            for a, e in m:
                A = ATOMS[a]
                if A.depth > d:
                    d = A.depth
                it = it or A.has_ite
                s |= A.sub
        PDEPTH.append(d); PITE.append(it)
        PSUB.append(frozenset(s))
    return i


def pconst(c):
    c = co(c)
    return {(): c} if c != 0 else {}


def pvar(a):
    return {((a.id, 1),): 1}


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            n = o + c
            if n == 0:
                del r[m]
            elif isinstance(n, Fraction) and abs(n) <= TOL * abs(c):
                del r[m]           # constants are rounded doubles
            else:
                r[m] = co(n)
    return r


def pscale(p, k):
    if k == 1:
        return p
    if k == 0:
        return {}
    return {m: co(c * k) for m, c in p.items()}


_mm = {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = _mm.get((a, b))
    if r is None:
        i = j = 0
        out = []
        na, nb = len(a), len(b)
        while i < na and j < nb:
            x, y = a[i], b[j]
            if x[0] == y[0]:
                e = x[1] + y[1]
                if e:
                    out.append((x[0], e))
                i += 1; j += 1
            elif x[0] < y[0]:
                out.append(x); i += 1
            else:
                out.append(y); j += 1
        out.extend(a[i:]); out.extend(b[j:])
        r = tuple(out)
        if len(_mm) > 2000000:
            _mm.clear()
        _mm[(a, b)] = r
    return r


LIMIT = [60000]


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) * len(q) > 3000000:
        raise GiveUp('polynomial too large')
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return pscale(q, c)
    if len(q) == 1:
        (m, c), = q.items()
        if not m:
            return pscale(p, c)
    r = {}
    mx = {}
    if len(p) * len(q) > 5000 and past_soft():
        raise GiveUp('time budget')
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            c = c1 * c2
            o = r.get(m)
            r[m] = c if o is None else o + c
            if isinstance(c, Fraction):
                if abs(c) > mx.get(m, 0):
                    mx[m] = abs(c)
    if len(r) > LIMIT[0]:
        raise GiveUp('polynomial too large')
    return {m: co(c) for m, c in r.items() if c != 0 and not (m in mx and abs(c) <= TOL * mx[m])}


def ppow(p, n):
    r = {(): 1}
    for _ in range(n):
        r = pmul(r, p)
    return r


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def cval(p):
    return p.get((), 0)


# ------------------------------------------------------------------------------ conditions
class Cond:
    __slots__ = ('id', 'k', 'x', 'neg', 'depth', 'has_ite', 'sub')


_ctab = {}


def cmk(k, x):
    key = (k, tuple(c.id for c in x) if k in ('and', 'or', 'not') else x)
    c = _ctab.get(key)
    if c is None:
        c = Cond()
        c.id = len(_ctab)
        c.k = k; c.x = x; c.neg = None
        c.depth = 0; c.has_ite = False; c.sub = frozenset()
        if k in ('lt', 'eq'):
            c.depth = PDEPTH[x]; c.has_ite = PITE[x]; c.sub = PSUB[x]
        elif k == 'bfn':
            for p in x[1]:
                c.depth = max(c.depth, PDEPTH[p]); c.has_ite = c.has_ite or PITE[p]; c.sub |= PSUB[p]
        elif k in ('and', 'or', 'not'):
            for y in x:
                c.depth = max(c.depth, y.depth); c.has_ite = c.has_ite or y.has_ite; c.sub |= y.sub
        _ctab[key] = c
    return c


CT = cmk('true', ())
CF = cmk('false', ())
CT.neg = CF
CF.neg = CT


def cnot(c):
    if c.neg is None:
        if c.k == 'and':
            n = cor([cnot(y) for y in c.x])
        elif c.k == 'or':
            n = cand([cnot(y) for y in c.x])
        elif c.k == 'not':
            n = c.x[0]
        else:
            n = cmk('not', (c,))
        c.neg = n
        if n.neg is None:
            n.neg = c
    return c.neg


def cand(cs):
    out = {}
    for c in cs:
        for y in (c.x if c.k == 'and' else (c,)):
            if y is CF:
                return CF
            if y is not CT:
                out[y.id] = y
    for y in out.values():
        if y.neg is not None and y.neg.id in out:
            return CF
        if y.k not in ('and', 'or') and cnot(y).id in out:
            return CF
    # absorption of disjuncts already known
    if not out:
        return CT
    if len(out) == 1:
        return next(iter(out.values()))
    return cmk('and', tuple(out[i] for i in sorted(out)))


def cor(cs):
    out = {}
    for c in cs:
        for y in (c.x if c.k == 'or' else (c,)):
            if y is CT:
                return CT
            if y is not CF:
                out[y.id] = y
    for y in out.values():
        if y.k not in ('and', 'or') and cnot(y).id in out:
            return CT
        if y.neg is not None and y.neg.id in out:
            return CT
    if not out:
        return CF
    if len(out) == 1:
        return next(iter(out.values()))
    return cmk('or', tuple(out[i] for i in sorted(out)))


def lead(p):
    """coefficient used for scaling"""
    return p[max(p)]


def clt(p):
    """p < 0"""
    if is_const(p):
        return CT if cval(p) < 0 else CF
    s = abs(lead(p))
    return cmk('lt', pid(pscale(p, 1 / Fraction(s))))


def ceq(p):
    if is_const(p):
        return CT if cval(p) == 0 else CF
    s = lead(p)
    return cmk('eq', pid(pscale(p, 1 / Fraction(s))))


def cle(p):
    """p <= 0  ==  not (-p < 0)"""
    return cnot(clt(pscale(p, -1)))


# ------------------------------------------------------------------------------ contexts
_ctxmemo = {}


SOS = {}


def sos_sign(p):
    """sign of a polynomial that is, or whose negation is, a sum of squares (exact LDL of a Gram matrix)"""
    if len(p) > 150 or len(p) < 3:
        return None
    i = pid(p)
    if i not in SOS:
        r = None
        c0 = p.get((), 0)
        if c0 >= 0 and sos(p, False):
            r = 'pos' if c0 > 0 else 'nonneg'
        elif c0 <= 0 and sos(pscale(p, -1), False):
            r = 'neg' if c0 < 0 else 'nonpos'
        elif c0 > 0 and sos(p, True):
            r = 'nonneg'
        elif c0 < 0 and sos(pscale(p, -1), True):
            r = 'nonpos'
        SOS[i] = r
    return SOS[i]


def sos(p, const):
    basis = [()] if const else []
    for m, c in p.items():
        if m and c > 0 and all(e % 2 == 0 for a, e in m):
            basis.append(tuple((a, e // 2) for a, e in m))
    n = len(basis)
    if n > 24:
        return False
    pair = {}
    for i in range(n):
        for j in range(i + 1, n):
            d = dict(basis[i])
            for a, e in basis[j]:
                d[a] = d.get(a, 0) + e
            pair.setdefault(tuple(sorted(d.items())), (i, j))
    G = [[Fraction(0)] * n for _ in range(n)]
    sq = {tuple(sorted((a, 2 * e) for a, e in b)): i for i, b in enumerate(basis)}
    for m, c in p.items():
        if not m and not const:
            continue
        k = tuple(sorted(m))
        if k in sq:
            G[sq[k]][sq[k]] = Fraction(c)
        elif k in pair:
            i, j = pair[k]
            G[i][j] = G[j][i] = Fraction(c) / 2
        else:
            return False
    # positive semidefinite?
    left = list(range(n))
    while left:
        k = next((x for x in left if G[x][x] > 0), None)
        if any(G[x][x] < 0 for x in left):
            return False
        if k is None:
            return all(G[x][y] == 0 for x in left for y in left)
        left.remove(k)
        for x in left:
            f = G[x][k] / G[k][k]
            if f:
                for y in left:
                    G[x][y] -= f * G[k][y]
    return True


class Ctx:
    """hypotheses, with the rewriting they induce"""

    def __init__(self):
        self.facts = []
        self.true = set()
        self.rules = {}        # atom id -> (exp, poly)
        self.nmemo = {}
        self.smemo = {}
        self.amemo = {}
        self.cmemo = {}
        self.pos = {}          # atom id -> 'pos' | 'nonneg' | 'neg' | 'nonpos'
        self.nonzero = set()   # poly ids
        self.dead = False
        self.pmemo = {}
        self.signmemo = {}
        self.zeros = []        # atoms found to be both >= 0 and <= 0

    def child(self):
        c = Ctx()
        c.facts = list(self.facts)
        c.true = set(self.true)
        c.rules = dict(self.rules)
        c.pos = dict(self.pos)
        c.nonzero = set(self.nonzero)
        c.dead = self.dead
        c.zeros = list(self.zeros)
        return c

    def add(self, c):
        """assume canonical condition"""
        c = self.csimp(c)
        if c is CT:
            return
        if c is CF:
            self.dead = True
            return
        if c.k == 'and':
            for y in c.x:
                self.add(y)
            return
        if c.id in self.true:
            return
        self.facts.append(c)
        self.true.add(c.id)
        self.nmemo = {}; self.smemo = {}; self.amemo = {}; self.cmemo = {}; self.pmemo = {}; self.signmemo = {}
        if c.k == 'eq':
            self.add_rule(POLYS[c.x])
        self.learn(c)
        while self.zeros and not self.dead:
            a = self.zeros.pop()
            self.add(ceq(pvar(ATOMS[a])))
        # unit propagation through the disjunctions
        if c.k != 'or':
            ors = [f for f in self.facts if f.k == 'or' and (f.sub & c.sub or not c.sub)]
            for f in ors:
                if self.dead or f.id not in self.true:
                    continue
                self.true.discard(f.id)
                g = cor([self.csimp0(y) for y in f.x])
                if g is f:
                    self.true.add(f.id)
                    continue
                self.facts = [x for x in self.facts if x is not f]
                self.cmemo = {}
                self.add(g)

    def learn(self, c):
        """sign facts"""
        k, x = c.k, c.x
        if k == 'not' and x[0].k == 'eq':
            self.nonzero.add(x[0].x)
            return
        if k == 'lt':
            self.sign_fact(POLYS[x], 'neg')
            self.nonzero.add(self.monic(POLYS[x]))
        elif k == 'not' and x[0].k == 'lt':
            self.sign_fact(POLYS[x[0].x], 'nonneg')

    def monic(self, p):
        return pid(pscale(p, 1 / Fraction(lead(p))))

    def sign_fact(self, p, s):
        """p is s; single atom (+ const) forms only"""
        ms = [m for m in p if m]
        if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
            return
        a = ms[0][0][0]
        c = p[ms[0]]
        k = Fraction(cval(p))
        # c*a + k  s  0    ->  a  ?  -k/c
        b = -k / c
        lowstrict = s in ('neg',)
        if s == 'neg':
            up = c > 0
        else:
            up = c < 0
        # up: a < b (or <=) ; else a > b (or >=)
        old = self.pos.get(a)
        new = None
        if up:
            if b < 0 or (b == 0 and lowstrict):
                new = 'neg'
            elif b == 0:
                new = 'nonpos'
        else:
            if b > 0 or (b == 0 and lowstrict):
                new = 'pos'
            elif b == 0:
                new = 'nonneg'
        if not new:
            return
        if old in ('pos', 'nonneg') and new in ('neg', 'nonpos') or old in ('neg', 'nonpos') and new in ('pos', 'nonneg'):
            if old == 'pos' or old == 'neg' or new == 'pos' or new == 'neg':
                self.dead = True
            else:
                self.zeros.append(a)
            return
        if old not in ('pos', 'neg'):
            self.pos[a] = new

    def add_rule(self, p):
        # linear elimination of a plain variable, else of a square
        best = None
        for m, c in p.items():
            if len(m) == 1 and ATOMS[m[0][0]].kind in ('v', 'i', 'sqrt', 'fn', 'inv') and m[0][0] not in self.rules:
                a, e = m[0]
                if e > 2 or e < 1:
                    continue
                if ATOMS[a].kind != 'v' and e != 1:
                    continue
                # must not occur elsewhere
                occ = 0
                for m2 in p:
                    for a2, e2 in m2:
                        if a2 == a or a in ATOMS[a2].sub:
                            occ += 1
                if occ != 1:
                    continue
                sc = (e, -ATOMS[a].depth, -a)
                if best is None or sc < best[0]:
                    best = (sc, a, e, m, c)
        if best is None:
            return
        _, a, e, m, c = best
        rest = {k: v for k, v in p.items() if k != m}
        rhs = pscale(rest, -1 / Fraction(c))
        self.rules[a] = (e, rhs)
        # bring the facts up to date
        old = self.facts
        self.facts = []
        self.true = set()
        self.smemo = {}; self.amemo = {}; self.cmemo = {}; self.nmemo = {}
        for f in old:
            if f.k == 'eq' and POLYS[f.x] is p:
                self.facts.append(f); self.true.add(f.id)
                continue
            g = self.csimp(f)
            if g is CT:
                continue
            if g is CF:
                self.dead = True
                continue
            for y in (g.x if g.k == 'and' else (g,)):
                self.facts.append(y); self.true.add(y.id)
                self.learn(y)

    # ---- normalisation of terms
    def norm(self, t):
        r = self.nmemo.get(t.id)
        if r is not None:
            return r
        st = [t]
        while st:
            x = st[-1]
            if x.id in self.nmemo:
                st.pop(); continue
            todo = [y for y in x.a if y.s == 'R' and y.id not in self.nmemo and x.op in ('add', 'mul', 'div', 'sqrt', 'fn', 'ite')]
            if x.op == 'ite':
                c = self.cond(x.a[0])
                if c is CT:
                    todo = [x.a[1]] if x.a[1].id not in self.nmemo else []
                elif c is CF:
                    todo = [x.a[2]] if x.a[2].id not in self.nmemo else []
            if todo:
                st.extend(todo); continue
            self.nmemo[x.id] = self.norm1(x)
            st.pop()
        return self.nmemo[t.id]

    def norm1(self, t):
        op = t.op
        n = self.nmemo
        if op == 'c':
            return pconst(t.v)
        if op == 'v':
            return self.red(pvar(atom('v', t.v)))
        if op == 'add':
            return padd(n[t.a[0].id], n[t.a[1].id])
        if op == 'mul':
            return self.red(pmul(n[t.a[0].id], n[t.a[1].id]))
        if op == 'div':
            if not n[t.a[1].id]:
                # division by zero: not a number or infinite, never simplified away
                return pvar(atom('fn', 'divided_by_zero', (pid(n[t.a[0].id]),)))
            return self.red(pmul(n[t.a[0].id], self.inv(n[t.a[1].id])))
        if op == 'sqrt':
            return self.sqrt(n[t.a[0].id])
        if op == 'fn':
            return self.red(self.func(t.v, [n[x.id] for x in t.a]))
        if op == 'ite':
            c = self.cond(t.a[0])
            if c is CT:
                return n[t.a[1].id]
            if c is CF:
                return n[t.a[2].id]
            return self.pite(c, n[t.a[1].id], n[t.a[2].id])
        if op == 'i2r':
            return self.red(self.inorm(t.a[0]))
        raise GiveUp('term ' + op)

    def inorm(self, t):
        op = t.op
        if op == 'ic':
            return pconst(t.v)
        if op == 'iv':
            return pvar(atom('i', t.v))
        if op == 'iadd':
            return padd(self.inorm(t.a[0]), self.inorm(t.a[1]))
        if op == 'imul':
            return pmul(self.inorm(t.a[0]), self.inorm(t.a[1]))
        if op in ('floor', 'trunc'):
            return pvar(atom(op, None, (pid(self.norm(t.a[0])),)))
        if op == 'ite':
            c = self.cond(t.a[0])
            if c is CT:
                return self.inorm(t.a[1])
            if c is CF:
                return self.inorm(t.a[2])
            return self.pite(c, self.inorm(t.a[1]), self.inorm(t.a[2]))
        if op == 'ifn':
            return pvar(atom('ifn', t.v, tuple(pid(self.inorm(x) if x.s == 'I' else self.norm(x)) for x in t.a)))
        raise GiveUp('int term ' + op)

    def pite(self, c, p, q):
        if p == q:
            return p
        if c.k == 'not':
            c = c.x[0]; p, q = q, p
        # conditional values whose guards are known
        return pvar(atom('ite', None, (pid(p), pid(q)), c))

    def inv(self, p):
        if is_const(p):
            k = cval(p)
            if k == 0:
                return pvar(atom('inv', None, (pid({}),)))
            return pconst(1 / Fraction(k))
        if len(p) == 1:
            (m, c), = p.items()
            # monomial: distribute
            out = []
            r = pconst(1 / Fraction(c))
            for a, e in m:
                A = ATOMS[a]
                if A.kind == 'inv':
                    r = pmul(r, ppow(POLYS[A.args[0]], e))
                else:
                    r = pmul(r, ppow(pvar(atom('inv', None, (pid(pvar(A)),))), e))
            return r
        k = lead(p)
        return pscale(pvar(atom('inv', None, (pid(pscale(p, 1 / Fraction(k))),))), 1 / Fraction(k))

    def sqrt(self, p):
        if is_const(p):
            t = tm.sqrt(C(cval(p)))
            if t.op == 'c':
                return pconst(t.v)
            if cval(p) > 0:
                # constants are doubles anyway
                import math
                return pconst(Fraction(math.sqrt(cval(p))))
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and all(e % 2 == 0 for a, e in m):
                t = tm.sqrt(C(c))
                if t.op == 'c':
                    r = pconst(t.v)
                    for a, e in m:
                        x = ppow(pvar(ATOMS[a]), e // 2)
                        if (e // 2) % 2 == 0 or self.asign(a) in ('pos', 'nonneg'):
                            r = pmul(r, x)
                        elif self.asign(a) in ('neg', 'nonpos'):
                            r = pmul(r, pscale(x, -1))
                        else:
                            c_ = clt(pvar(ATOMS[a]))
                            r = pmul(r, self.pite(c_, pscale(x, -1), x))
                    return self.red(r)
        c = self.content(p, ('v', 'inv', 'sqrt')) if len(p) > 1 else None
        if c:
            c = {a: e - e % 2 for a, e in c.items() if e > 1 and self.asign(a) in ('pos', 'nonneg')
                 and (ATOMS[a].kind != 'inv' or self.nz(POLYS[ATOMS[a].args[0]]))}
        if c:
            r = self.sqrt(self.red(self.strip(p, c)))
            for a, e in c.items():
                r = pmul(r, ppow(pvar(ATOMS[a]), e // 2))
            return self.red(r)
        return self.red(pvar(atom('sqrt', None, (pid(p),))))

    def func(self, name, args):
        if all(is_const(a) for a in args):
            import math
            f = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
                 'atan2': math.atan2, 'exp': math.exp}.get(name)
            if f:
                try:
                    return pconst(Fraction(f(*[float(cval(a)) for a in args])))
                except ValueError:
                    pass
        if name in ('sin', 'tan', 'asin', 'atan') and args[0] and lead(args[0]) < 0:
            return pscale(self.func(name, [pscale(args[0], -1)]), -1)
        if name == 'cos' and args[0] and lead(args[0]) < 0:
            return self.func(name, [pscale(args[0], -1)])
        if name == 'rnd32' and not args[0]:
            return {}
        return pvar(atom('fn', name, tuple(pid(a) for a in args)))

    def red(self, p):
        """apply the rewrite rules, sqrt^2, sin^2, x*inv(x) with x known non zero"""
        while True:
            hit = None
            for m in p:
                for idx, (a, e) in enumerate(m):
                    A = ATOMS[a]
                    r = self.rules.get(a)
                    if r is not None and e >= r[0]:
                        hit = (a, r[0], r[1]); break
                    if e >= 2:
                        if A.kind == 'sqrt' and self.nonneg(POLYS[A.args[0]]):
                            hit = (a, 2, POLYS[A.args[0]]); break
                        if A.kind == 'fn' and A.name == 'sin':
                            cs = atom('fn', 'cos', A.args)
                            hit = (a, 2, {(): 1, ((cs.id, 2),): -1}); break
                    if A.kind == 'inv' and len(m) > 1:
                        b = POLYS[A.args[0]]
                        if len(b) == 1:
                            (bm, bc), = b.items()
                            if len(bm) == 1 and any(x == bm[0][0] for x, _ in m) and self.nz(b):
                                hit = ('cancel', a, bm[0][0]); break
                if hit:
                    break
            if hit is None:
                return self.whole(p)
            if hit[0] == 'cancel':
                _, ia, ba = hit
                q = {}
                for m, c in p.items():
                    d = dict(m)
                    if ia in d and ba in d:
                        k = min(d[ia], d[ba])
                        d[ia] -= k; d[ba] -= k
                        m = tuple(sorted((x, y) for x, y in d.items() if y))
                    q[m] = q.get(m, 0) + c
                p = {m: co(c) for m, c in q.items() if c != 0}
                continue
            a, e, rhs = hit
            q = {}
            groups = {}
            for m, c in p.items():
                d = [(x, y) for x, y in m if x == a]
                if d and d[0][1] >= e:
                    n, rem = divmod(d[0][1], e)
                    rest = tuple((x, y) for x, y in m if x != a)
                    if rem:
                        rest = mmul(rest, ((a, rem),))
                    groups.setdefault(n, {})[rest] = c
                else:
                    q[m] = c
            for n, g in groups.items():
                q = padd(q, pmul(g, ppow(rhs, n)))
            p = q

    def content(self, p, kinds):
        """powers of the atoms of these kinds that divide every monomial"""
        c = None
        for m in p:
            if c is None:
                c = {a: e for a, e in m if ATOMS[a].kind in kinds}
            else:
                d = dict(m)
                c = {a: min(e, d[a]) for a, e in c.items() if a in d}
            if not c:
                return None
        return c

    def strip(self, p, c):
        q = {}
        for m, k in p.items():
            q[tuple((a, e - c.get(a, 0)) for a, e in m if e > c.get(a, 0))] = k
        return q

    def whole(self, p):
        """N/D with N a constant multiple of D is that constant"""
        if len(p) < 2:
            return p
        c = self.content(p, ('inv',))
        if not c:
            return p
        D = pconst(1)
        for a, e in c.items():
            D = pmul(D, ppow(POLYS[ATOMS[a].args[0]], e))
            if len(D) > 4000:
                return p
        D = self.red(D)
        if len(D) != len(p):
            return p
        N = self.strip(p, c)
        m0 = next(iter(D))
        if m0 not in N:
            return p
        k = Fraction(N[m0]) / D[m0]
        if all(N.get(m) == v * k for m, v in D.items()) and all(self.nz(POLYS[ATOMS[a].args[0]]) for a in c):
            return pconst(k)
        return p

    def asign(self, a):
        A = ATOMS[a]
        r = self.pos.get(a)
        if r:
            return r
        if A.kind == 'sqrt':
            return 'nonneg'
        if A.kind == 'inv':
            return self.psign(POLYS[A.args[0]])
        if A.kind == 'ite':
            x, y = self.psign(POLYS[A.args[0]]), self.psign(POLYS[A.args[1]])
            if x is None or y is None:
                return None
            s = {x, y}
            if s <= {'pos'}: return 'pos'
            if s <= {'neg'}: return 'neg'
            if s <= {'pos', 'nonneg', 'zero'}: return 'nonneg'
            if s <= {'neg', 'nonpos', 'zero'}: return 'nonpos'
        if A.kind == 'fn' and A.name in ('exp',):
            return 'pos'
        return None

    def msign(self, m):
        s = 1; strict = True
        for a, e in m:
            x = self.asign(a)
            if e % 2 == 0:
                if x not in ('pos', 'neg'):
                    strict = False
                continue
            if x is None:
                return None
            if x in ('neg', 'nonpos'):
                s = -s
            if x in ('nonneg', 'nonpos'):
                strict = False
        return (s, strict)

    def psign(self, p):
        s = self.psign0(p)
        return sos_sign(p) if s is None else s

    def psign0(self, p):
        """'pos','nonneg','neg','nonpos','zero' or None, by inspection"""
        if not p:
            return 'zero'
        s = None; strict = False
        for m, c in p.items():
            x = self.msign(m) if m else (1, True)
            if x is None:
                return None
            k = x[0] * (1 if c > 0 else -1)
            if s is None:
                s = k
            elif s != k:
                return None
            strict = strict or x[1]
        return {(1, True): 'pos', (1, False): 'nonneg', (-1, True): 'neg', (-1, False): 'nonpos'}[(s, strict)]

    def nonneg(self, p):
        i = pid(p)
        r = self.signmemo.get(i)
        if r is None:
            r = self.psign(p) in ('pos', 'nonneg', 'zero')
            if not r:
                r = linear(self, cnot(clt(p)), 200000) is True
            self.signmemo[i] = r
        return r

    def nz(self, p, deep=False):
        s = self.psign(p)
        if s in ('pos', 'neg'):
            return True
        if is_const(p):
            return cval(p) != 0
        if self.monic(p) in self.nonzero:
            return True
        q = self.clear_pos(p)
        if q is not p and self.nz(q):
            return True
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) > 1 or m[0][1] > 1:
                return all(self.nz(pvar(ATOMS[a]), deep) for a, e in m)
            A = ATOMS[m[0][0]]
            if A.kind == 'sqrt':
                return self.nz(POLYS[A.args[0]], deep) and self.nonneg(POLYS[A.args[0]])
            if A.kind == 'inv':
                return self.nz(POLYS[A.args[0]], deep)
        if deep:
            if linear(self, clt(p)) is True or linear(self, clt(pscale(p, -1))) is True:
                return True
            return solve(self, cnot(ceq(p)), quick=True) is True
        return False

    # ---- conditions
    def cond(self, t):
        r = self.cmemo.get(('t', t.id))
        if r is None:
            r = self.csimp0(self.cond1(t))
            self.cmemo[('t', t.id)] = r
        return r

    def cond1(self, t):
        op = t.op
        if op == 'true':
            return CT
        if op == 'false':
            return CF
        if op == 'not':
            return cnot(self.cond(t.a[0]))
        if op == 'and':
            return cand([self.cond(x) for x in t.a])
        if op == 'or':
            return cor([self.cond(x) for x in t.a])
        if op == 'lt':
            return clt(padd(self.norm(t.a[0]), pscale(self.norm(t.a[1]), -1)))
        if op == 'le':
            return cle(padd(self.norm(t.a[0]), pscale(self.norm(t.a[1]), -1)))
        if op == 'eq':
            return ceq(padd(self.norm(t.a[0]), pscale(self.norm(t.a[1]), -1)))
        if op == 'ilt':
            # integers: a<b  <=>  a-b+1 <= 0 ; kept as a strict real comparison
            return clt(padd(self.inorm(t.a[0]), pscale(self.inorm(t.a[1]), -1)))
        if op == 'ieq':
            return ceq(padd(self.inorm(t.a[0]), pscale(self.inorm(t.a[1]), -1)))
        if op == 'bv':
            return cmk('bv', t.v)
        if op == 'bfn':
            return cmk('bfn', (t.v, tuple(pid(self.inorm(x) if x.s == 'I' else self.norm(x)) for x in t.a)))
        if op == 'ite':
            c = self.cond(t.a[0])
            return cor([cand([c, self.cond(t.a[1])]), cand([cnot(c), self.cond(t.a[2])])])
        raise GiveUp('bool ' + op)

    def csimp0(self, c):
        """known facts, signs"""
        if c is CT or c is CF:
            return c
        if c.id in self.true:
            return CT
        k = c.k
        if k in ('and', 'or'):
            xs = [self.csimp0(y) for y in c.x]
            return cand(xs) if k == 'and' else cor(xs)
        if cnot(c).id in self.true:
            return CF
        if k == 'not':
            r = self.csimp0(c.x[0])
            return cnot(r)
        if k == 'lt':
            p = POLYS[c.x]
            s = self.psign(p)
            if s == 'neg':
                return CT
            if s in ('pos', 'nonneg', 'zero'):
                return CF
            q = clt(pscale(p, -1))
            if q.id in self.true:      # -p < 0
                return CF
            r = self.clear_pos(p)
            if r is not p:
                return self.csimp0(clt(r))
            if () not in p and len(p) > 1:
                # common factor of known sign
                g = None
                for m in p:
                    d = dict(m)
                    g = d if g is None else {a: min(e, d[a]) for a, e in g.items() if a in d}
                    if not g:
                        break
                if g:
                    s_ = self.msign(tuple(sorted(g.items())))
                    if s_ is not None and s_[1]:
                        r = {}
                        for m, c_ in p.items():
                            d = dict(m)
                            for a, e in g.items():
                                d[a] -= e
                            r[tuple(sorted((a, e) for a, e in d.items() if e))] = c_ * s_[0]
                        return self.csimp0(clt(r))
        if k == 'eq':
            p = POLYS[c.x]
            if self.psign(p) in ('pos', 'neg'):
                return CF
            if clt(p).id in self.true or clt(pscale(p, -1)).id in self.true:
                return CF
            # a <= b and a >= b
            if cle(p).id in self.true and cle(pscale(p, -1)).id in self.true:
                return CT
        return c

    def clear_pos(self, p):
        """multiply by the denominators that are single quantities known to be positive"""
        while True:
            deg = {}
            for m in p:
                for a, e in m:
                    A = ATOMS[a]
                    if A.kind == 'inv' and e > deg.get(a, 0):
                        b = POLYS[A.args[0]]
                        if len(b) == 1:
                            (bm, bc), = b.items()
                            if len(bm) == 1 and bm[0][1] == 1 and ATOMS[bm[0][0]].kind == 'v' and self.pos.get(bm[0][0]) == 'pos' and bc > 0:
                                deg[a] = e
            if not deg:
                return p
            q = {}
            for m, c in p.items():
                d = dict(m)
                for a, e in deg.items():
                    b, = POLYS[ATOMS[a].args[0]].items()
                    n = e - d.pop(a, 0)
                    if n:
                        v = b[0][0][0]
                        d[v] = d.get(v, 0) + n
                    c = c * Fraction(b[1]) ** n
                m = tuple(sorted(d.items()))
                q[m] = q.get(m, 0) + c
            p = self.red({m: co(c) for m, c in q.items() if c != 0})

    # ---- re-simplification of canonical objects under this context
    def psimp(self, i):
        r = self.smemo.get(i)
        if r is not None:
            return r
        p = POLYS[i]
        touched = False
        for m in p:
            for a, e in m:
                if self.asimp(a) is not None:
                    touched = True
        if touched:
            q = {}
            plain = {}
            for m, c in p.items():
                ch = [(a, e) for a, e in m if self.asimp(a) is not None]
                if not ch:
                    plain[m] = c
                    continue
                t = {tuple((a, e) for a, e in m if self.asimp(a) is None): c}
                for a, e in ch:
                    t = pmul(t, ppow(self.asimp(a), e))
                q = padd(q, t)
            r = self.red(padd(plain, q))
        else:
            r = self.red(p)
        self.smemo[i] = r
        return r

    def asimp(self, a):
        """None if unchanged, else poly"""
        if a in self.amemo:
            return self.amemo[a]
        A = ATOMS[a]
        r = None
        k = A.kind
        if k in ('v', 'i'):
            r = None
        elif k == 'ite':
            c = self.csimp(A.cond)
            if c is CT:
                r = self.psimp(A.args[0])
            elif c is CF:
                r = self.psimp(A.args[1])
            else:
                p, q = self.psimp(A.args[0]), self.psimp(A.args[1])
                n = self.pite(c, p, q)
                if n != pvar(A):
                    r = n
        elif k == 'sqrt':
            n = self.sqrt(self.psimp(A.args[0]))
            if n != pvar(A):
                r = n
        elif k == 'inv':
            n = self.red(self.inv(self.psimp(A.args[0])))
            if n != pvar(A):
                r = n
        elif k == 'fn':
            n = self.red(self.func(A.name, [self.psimp(x) for x in A.args]))
            if n != pvar(A):
                r = n
        elif k in ('floor', 'trunc', 'ifn'):
            n = pvar(atom(k, A.name, tuple(pid(self.psimp(x)) for x in A.args)))
            if n != pvar(A):
                r = n
        self.amemo[a] = r
        return r

    def csimp(self, c):
        r = self.cmemo.get(c.id)
        if r is not None:
            return r
        r = self.csimp0(c)
        if r.k in ('lt', 'eq'):
            p = self.psimp(r.x)
            if p is not POLYS[r.x]:
                n = clt(p) if r.k == 'lt' else ceq(p)
                r = self.csimp0(n) if n is not r else r
        elif r.k == 'not':
            r = cnot(self.csimp(r.x[0]))
        elif r.k == 'and':
            r = cand([self.csimp(y) for y in r.x])
        elif r.k == 'or':
            r = cor([self.csimp(y) for y in r.x])
        elif r.k == 'bfn':
            r = cmk('bfn', (r.x[0], tuple(pid(self.psimp(p)) for p in r.x[1])))
            r = self.csimp0(r)
        self.cmemo[c.id] = r
        return r


def ctx_of(pc):
    """context of a path condition (list of terms), built incrementally"""
    key = tuple(t.id for t in pc)
    c = _ctxmemo.get(key)
    if c is not None:
        return c
    # longest known prefix
    n = len(key)
    k = n
    base = None
    while k > 0:
        k -= 1
        base = _ctxmemo.get(key[:k])
        if base is not None:
            break
    if base is None:
        base = Ctx(); k = 0
        _ctxmemo[()] = base
    for j in range(k, n):
        c = base.child()
        try:
            c.add(c.cond(pc[j]))
        except GiveUp:
            pass
        _ctxmemo[key[:j + 1]] = c
        base = c
    return base


# ------------------------------------------------------------------------------ Z3
class Enc:
    """translation to Z3; linear=True abstracts non linear monomials, quotients and roots"""

    def __init__(self, ctx, linear):
        self.ctx = ctx; self.lin = linear
        self.side = []
        self.am = {}
        self.pm = {}
        self.mm = {}
        self.cm = {}

    def atom(self, a):
        r = self.am.get(a)
        if r is not None:
            return r
        A = ATOMS[a]
        k = A.kind
        if k == 'v':
            r = z3.Real('v:%s' % A.name)
        elif k == 'i':
            r = z3.ToReal(z3.Int('i:%s' % A.name))
        elif k == 'ite':
            r = z3.If(self.cond(A.cond), self.poly(A.args[0]), self.poly(A.args[1]))
        elif k == 'sqrt':
            r = z3.Real('a%d' % a)
            self.side.append(r >= 0)
            if not self.lin:
                x = self.poly(A.args[0])
                self.side.append(z3.Or(x < 0, r * r == x))
            else:
                # monotone facts: sqrt(x)=0 iff x=0 ; x<=1 -> sqrt<=1
                q = POLYS[A.args[0]]
                self.am[a] = r
                pos = self.cond(self.ctx.csimp0(clt(pscale(q, -1))))
                neg = self.cond(self.ctx.csimp0(clt(q)))
                self.side.append(z3.Implies(pos, r > 0))
                self.side.append(z3.Or(pos, neg, r == 0))
        elif k == 'inv':
            r = z3.Real('a%d' % a)
            x = self.poly(A.args[0])
            if not self.lin:
                self.side.append(z3.Or(x == 0, r * x == 1))
            else:
                self.side.append(z3.Implies(x > 0, r > 0))
                self.side.append(z3.Implies(x < 0, r < 0))
        elif k == 'fn':
            r = z3.Real('a%d' % a)
            if A.name in ('sin', 'cos'):
                self.side += [r >= -1, r <= 1]
            if A.name == 'exp':
                self.side += [r > 0]
            if A.name == 'acos':
                self.side += [r >= 0, r <= z3.Q(31415927, 10000000)]
            if A.name in ('asin', 'atan'):
                self.side += [r >= -z3.Q(15707964, 10000000), r <= z3.Q(15707964, 10000000)]
            if A.name == 'atan2':
                self.side += [r >= -z3.Q(31415927, 10000000), r <= z3.Q(31415927, 10000000)]
            if not self.lin and A.name == 'cos':
                s = atom('fn', 'sin', A.args)
                q = z3.Real('a%d' % s.id)
                self.side.append(q * q + r * r == 1)
        elif k == 'floor':
            n = z3.Int('n%d' % a)
            r = z3.ToReal(n)
            x = self.poly(A.args[0])
            self.side += [r <= x, x < r + 1]
        elif k == 'trunc':
            n = z3.Int('n%d' % a)
            r = z3.ToReal(n)
            x = self.poly(A.args[0])
            self.side += [z3.Implies(x >= 0, z3.And(r <= x, x < r + 1)), z3.Implies(x < 0, z3.And(r >= x, x > r - 1))]
        else:
            r = z3.ToReal(z3.Int('n%d' % a))
        if k in ('v', 'i'):
            sg = self.ctx.pos.get(a)
            if sg == 'pos':
                self.side.append(r > 0)
            elif sg == 'nonneg':
                self.side.append(r >= 0)
            elif sg == 'neg':
                self.side.append(r < 0)
            elif sg == 'nonpos':
                self.side.append(r <= 0)
        self.am[a] = r
        return r

    def mono(self, m):
        r = self.mm.get(m)
        if r is not None:
            return r
        if not m:
            r = z3.RealVal(1)
        elif len(m) == 1 and m[0][1] == 1:
            r = self.atom(m[0][0])
        elif self.lin:
            r = z3.Real('m' + '_'.join('%d^%d' % x for x in m))
            s = self.ctx.msign(m)
            if s is not None:
                k, strict = s
                if k > 0:
                    self.side.append(r > 0 if strict else r >= 0)
                else:
                    self.side.append(r < 0 if strict else r <= 0)
        else:
            r = None
            for a, e in m:
                x = self.atom(a)
                for _ in range(e):
                    r = x if r is None else r * x
        self.mm[m] = r
        return r

    def poly(self, i):
        r = self.pm.get(i)
        if r is None:
            ts = []
            for m, c in POLYS[i].items():
                k = z3.RealVal(str(Fraction(c)))
                ts.append(k if not m else (self.mono(m) if c == 1 else k * self.mono(m)))
            r = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
            self.pm[i] = r
        return r

    def cond(self, c):
        r = self.cm.get(c.id)
        if r is not None:
            return r
        k = c.k
        if k == 'true':
            r = z3.BoolVal(True)
        elif k == 'false':
            r = z3.BoolVal(False)
        elif k == 'lt':
            r = self.poly(c.x) < 0
        elif k == 'eq':
            r = self.poly(c.x) == 0
        elif k == 'not':
            r = z3.Not(self.cond(c.x[0]))
        elif k == 'and':
            r = z3.And([self.cond(x) for x in c.x])
        elif k == 'or':
            r = z3.Or([self.cond(x) for x in c.x])
        elif k == 'bv':
            r = z3.Bool('b:%s' % c.x)
        elif k == 'bfn':
            r = z3.Bool('c%d' % c.id)
        self.cm[c.id] = r
        return r


def linear(ctx, goal, rlimit=400000):
    """True: ctx |- goal, False: ctx |- not goal, None"""
    key = ('lin', goal.id)
    if key in ctx.pmemo:
        return ctx.pmemo[key]
    goal = ctx.csimp0(goal)
    if goal is CT or goal is CF:
        ctx.pmemo[key] = goal is CT
        return goal is CT
    t0 = time.time()
    enc = Enc(ctx, True)
    s = z3.Solver()
    s.set('rlimit', rlimit)
    s.set('timeout', ztime(10000))
    g = enc.cond(goal)
    rel = relevant(ctx.facts, goal)
    fs = [enc.cond(f) for f in rel]
    for f in fs + enc.side:
        s.add(f)
    s.push()
    s.add(z3.Not(g))
    r1 = s.check()
    if r1 == z3.unsat:
        r = True
    else:
        s.pop()
        s.add(g)
        r = False if s.check() == z3.unsat else None
    STAT['z3'] += 1; STAT['z3_s'] += time.time() - t0
    ctx.pmemo[key] = r
    return r


def relevant(facts, goal):
    """facts that share (transitively) an atom with the goal"""
    sub = set(goal.sub)
    if not goal.sub:
        return facts
    fs = [f for f in facts]
    out = []
    changed = True
    bools = [f for f in fs if not f.sub]
    fs = [f for f in fs if f.sub]
    while changed and fs:
        changed = False
        rest = []
        for f in fs:
            if f.sub & sub:
                out.append(f); sub |= f.sub; changed = True
            else:
                rest.append(f)
        fs = rest
    return out + bools


def unsat_facts(ctx, deep=False, ms=5000):
    if ctx.dead:
        return True
    r = ctx.pmemo.get(('unsat', deep))
    if r is not None:
        return r
    t0 = time.time()
    enc = Enc(ctx, not deep)
    s = z3.Solver() if not deep else z3.Tactic('qfnra-nlsat').solver() if False else z3.Solver()
    s.set('rlimit', 3000000 if not deep else 20000000)
    s.set('timeout', ztime(2000 if not deep else ms))
    for f in [enc.cond(f) for f in ctx.facts] + enc.side:
        s.add(f)
    r = s.check() == z3.unsat
    STAT['z3'] += 1; STAT['z3_s'] += time.time() - t0
    ctx.pmemo[('unsat', deep)] = r
    return r


def cleared_unsat(ctx):
    """contradiction among the facts once their quotients are multiplied out"""
    r = ctx.pmemo.get('cleared')
    if r is not None:
        return r
    new = []
    for f in ctx.facts:
        g = f
        for _ in range(6):
            h = clear_inv(ctx, g)
            if h is g:
                break
            g = h
        if g is not f:
            new.append(g)
    r = False
    if new:
        ch = ctx.child()
        for g in new:
            ch.add(g)
        r = unsat_facts(ch)
    ctx.pmemo['cleared'] = r
    return r


def leaves(sub):
    return {a for a in sub if ATOMS[a].kind in ('v', 'i')}


def close_facts(facts, goal):
    """facts that speak only of the variables of the goal"""
    v = leaves(goal.sub)
    return [f for f in facts if f.sub and leaves(f.sub) <= v]


def nra(ctx, goal, ms):
    rel = relevant(ctx.facts, goal)
    cl = close_facts(ctx.facts, goal)
    if len(cl) < len(rel):
        if nra1(ctx, goal, min(ms, 6000), cl) is True:
            return True
        # widen by the variables of one more fact
        v = leaves(goal.sub)
        ext = []
        for f in ctx.facts:
            lf = leaves(f.sub)
            if lf & v and not lf <= v and len(lf - v) <= 6:
                w = frozenset(lf | v)
                if w not in ext:
                    ext.append(w)
        ext.sort(key=len)
        done = {tuple(f.id for f in cl)}
        for w in ext[:8]:
            fs = [f for f in ctx.facts if f.sub and leaves(f.sub) <= w]
            if tuple(f.id for f in fs) in done or len(fs) >= len(rel):
                continue
            done.add(tuple(f.id for f in fs))
            if past_deadline():
                break
            if nra1(ctx, goal, min(ms, 2500), fs) is True:
                return True
    return nra1(ctx, goal, ms, rel)


def nra1(ctx, goal, ms, rel):
    """non linear: True if proved; model (dict) if refuted; None"""
    enc = Enc(ctx, False)
    g = z3.Not(enc.cond(goal))
    fs = [enc.cond(f) for f in rel]
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', ztime(ms))
    for f in fs + enc.side + [g]:
        s.add(f)
    r = s.check()
    STAT['z3'] += 1; STAT['z3_s'] += time.time() - t0
    if r == z3.unsat:
        return True
    if r == z3.sat:
        return get_model(s)
    return None


def get_model(s):
    m = s.model()
    d = {}
    for v in m.decls():
        n = v.name()
        if n[:2] in ('v:', 'i:', 'b:'):
            x = m[v]
            try:
                if n[0] == 'b':
                    d[n[2:]] = z3.is_true(x)
                elif z3.is_algebraic_value(x):
                    x = x.approx(20)
                    d[n[2:]] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
                elif z3.is_int_value(x):
                    d[n[2:]] = x.as_long()
                else:
                    d[n[2:]] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            except Exception:
                pass
    return d


def cvc5_unsat(ctx, goal, ms):
    import subprocess
    enc = Enc(ctx, False)
    g = z3.Not(enc.cond(goal))
    rel = relevant(ctx.facts, goal)
    cl = close_facts(ctx.facts, goal)
    fs = [enc.cond(f) for f in (cl if sum(len(f.sub) for f in cl) * 4 < sum(len(f.sub) for f in rel) else rel)]
    s = z3.Solver()
    for f in fs + enc.side + [g]:
        s.add(f)
    txt = s.to_smt2()
    t0 = time.time()
    try:
        o = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(ms * load()), '--nl-cov' if False else '--quiet'],
                           input='(set-logic ALL)\n' + txt, capture_output=True, text=True, timeout=ms * load() / 1000 + 5).stdout
    except Exception:
        o = ''
    STAT['cvc5'] += 1; STAT['cvc5_s'] += time.time() - t0
    return o.strip().startswith('unsat')


def solve(ctx, goal, quick=False):
    """prove a canonical goal: True / model / None"""
    goal = ctx.csimp(goal)
    if goal is CT:
        return True
    if ctx.dead:
        return True
    key = ('solve', goal.id, quick)
    if key in ctx.pmemo:
        return ctx.pmemo[key]
    r = linear(ctx, goal)
    if r is not True:
        ms = 2000 if quick else BUDGET['nra_ms']
        r = nra(ctx, goal, ms)
        if r is None and not quick:
            if cvc5_unsat(ctx, goal, BUDGET['cvc5_ms']):
                r = True
    ctx.pmemo[key] = r
    return r


BUDGET = {'nra_ms': 20000, 'cvc5_ms': 20000, 'splits': 3000, 'deadline': None}


_T0 = [None]


def clock():
    """processor time of this process and its solver children: limits do not depend on the load of the machine"""
    t = os.times()
    return t[0] + t[1] + t[2] + t[3]


def load():
    if _T0[0] is None:
        _T0[0] = (time.time(), clock())
        return 1.0
    w, c = time.time() - _T0[0][0], clock() - _T0[0][1]
    return min(6.0, max(1.0, (w + 1) / (c + 1)))


def past_deadline():
    return (BUDGET['deadline'] is not None and clock() > BUDGET['deadline']) or past_soft()


SOFT = [None]


def ztime(ms):
    now = clock()
    for d in (SOFT[0], BUDGET['deadline']):
        if d is not None:
            ms = min(ms, max(50, int((d - now) * 1000)))
    return int(ms * load())


def past_soft():
    return SOFT[0] is not None and clock() > SOFT[0]


class limited:
    """a bounded attempt: wall time, polynomial size, case splits"""

    def __init__(self, secs, size, splits):
        self.v = (secs, size, splits)

    def __enter__(self):
        self.old = (SOFT[0], LIMIT[0], BUDGET['splits'], BUDGET['nra_ms'], BUDGET['cvc5_ms'])
        secs, size, splits = self.v
        t = clock() + secs
        SOFT[0] = t if SOFT[0] is None else min(t, SOFT[0])
        LIMIT[0] = min(size, LIMIT[0])
        BUDGET['splits'] = min(splits, BUDGET['splits'])
        BUDGET['nra_ms'] = min(int(secs * 1000), BUDGET['nra_ms'])
        BUDGET['cvc5_ms'] = min(int(secs * 1000), BUDGET['cvc5_ms'])

    def __exit__(self, *a):
        SOFT[0], LIMIT[0], BUDGET['splits'], BUDGET['nra_ms'], BUDGET['cvc5_ms'] = self.old
        return False


# ------------------------------------------------------------------------------ cut points
_height = {}


def height(t):
    r = _height.get(t.id)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x.id in _height:
            st.pop(); continue
        todo = [y for y in x.a if y.id not in _height]
        if todo:
            st.extend(todo); continue
        # constants factors do not count
        _height[x.id] = (1 + max(_height[y.id] for y in x.a)) if x.a else 0
        st.pop()
    return _height[t.id]


CUTOPS = ('add', 'mul', 'div', 'sqrt', 'fn', 'ite', 'i2r')


def cut_levels(ts):
    """heights of the shared real subterms of the goal, largest first"""
    occ = {}
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        for y in x.a:
            if y.s == 'R' and y.a and y.op in CUTOPS:
                o = occ.get(y.id)
                occ[y.id] = (o[0] + 1, y) if o else (1, y)
            st.append(y)
    sh = {height(y) for n, y in occ.values() if n > 1 and y.op not in ('i2r',)}
    top = max(sh) if sh else 0
    hs = sorted({height(y) for n, y in occ.values() if height(y) <= top}, reverse=True)
    return hs, len(seen)


def cut(goal, pc, h):
    """the real subterms of the goal up to height h become variables, in the goal and in the hypotheses"""
    memo = {}
    m = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if not t.a:
            r = t
        elif t.s == 'R' and t.op in CUTOPS and height(t) <= h:
            r = V('cut#%d' % t.id)
            m[t.id] = r
        else:
            a = [go(x) for x in t.a]
            r = t if all(x is y for x, y in zip(a, t.a)) else tm.rebuild(t, a)
        memo[t.id] = r
        return r
    g = [go(t) for t in goal]
    mm = {}
    return g, [x for x in (subst(t, m, mm) for t in pc) if x is not TRUE]


CUT_S = [12.0]


def with_cuts(pc, goal, attempt):
    """generalise the goal: the subterms up to some height become free variables (sound: a proof of
    the generalised goal is a proof of every instance)"""
    hs, n = cut_levels(goal)
    if n < 40:
        return False
    t0 = clock()
    if len(hs) > 30:
        hs = hs[:16] + hs[16::max(1, (len(hs) - 16) // 12)]
    for h in hs:
        if clock() - t0 > CUT_S[0]:
            return False
        g, p = cut(goal, pc, h)
        try:
            with limited(3.0, 1500, 150):
                r, why = attempt(p, g)
            if r:
                STAT['cuts'] = STAT.get('cuts', 0) + 1
                return True
        except GiveUp:
            pass
    return False


# ------------------------------------------------------------------------------ goals
def pick_ite(p):
    """an undetermined ite atom of polynomial p: innermost condition without ite first"""
    best = None
    seen = set()
    st = [a for m in p for a, e in m]
    while st:
        a = st.pop()
        if a in seen:
            continue
        seen.add(a)
        A = ATOMS[a]
        if not A.has_ite:
            continue
        if A.kind == 'ite':
            if not A.cond.has_ite:
                sc = (A.depth,)
                if best is None or sc > best[0]:
                    best = (sc, A.cond)
            else:
                st.extend(cond_atoms(A.cond))
        for q in A.args:
            for m in POLYS[q]:
                st.extend(x for x, e in m)
    return best[1] if best else None


CATOMS = {}


def cond_atoms(c):
    r = CATOMS.get(c.id)
    if r is None:
        if c.k in ('lt', 'eq'):
            r = [a for m in POLYS[c.x] for a, e in m]
        elif c.k == 'bfn':
            r = [a for p in c.x[1] for m in POLYS[p] for a, e in m]
        elif c.k in ('and', 'or', 'not'):
            r = [a for y in c.x for a in cond_atoms(y)]
        else:
            r = []
        r = CATOMS[c.id] = tuple(dict.fromkeys(r))
    return r


def literal_of(c):
    """pick a literal of a compound condition"""
    while c.k in ('and', 'or', 'not'):
        c = c.x[0]
    return c


class Budget:
    def __init__(self, n):
        self.n = n


def prove_zero(ctx, p, bud, why):
    """p == 0 under ctx; True or False (why gets the residual)"""
    if not p:
        return True
    if ctx.dead:
        return True
    if past_deadline():
        raise GiveUp('time budget')
    bud.n -= 1
    if bud.n < 0:
        raise GiveUp('case split budget')
    i = pid(p)
    key = ('zero', i)
    if key in ctx.pmemo:
        return ctx.pmemo[key]
    q = ctx.psimp(i)
    if not q:
        return True
    c = pick_ite(q)
    if c is not None:
        if by_groups(ctx, q, bud):
            ctx.pmemo[key] = True
            return True
        c = literal_of(c)
        d = linear(ctx, c)
        r = True
        for v, cc in ((True, c), (False, cnot(c))):
            if d is not None and d != v:
                continue
            STAT['splits'] += 1
            ch = sub_ctx(ctx, cc)
            if ch.dead:
                continue
            if not prove_zero(ch, ch.psimp(pid(q)), bud, why):
                r = False
                break
        ctx.pmemo[key] = r
        return r
    r = zero_leaf(ctx, q)
    if not r:
        if unsat_facts(ctx) or cleared_unsat(ctx) or unsat_facts(ctx, True):
            r = True
        else:
            w = ctx.clear_pos(q)
            r = solve(ctx, ceq(w), quick=True) is True
    if not r:
        why.append((ctx, q))
    ctx.pmemo[key] = r
    return r


def sub_ctx(ctx, c):
    key = ('child', c.id)
    r = ctx.pmemo.get(key)
    if r is None:
        r = ctx.child()
        r.add(c)
        ctx.pmemo[key] = r
    return r


def zero_leaf(ctx, p):
    """no conditionals left: clear quotients and roots"""
    for _ in range(30):
        p = ctx.red(p)
        if not p:
            return True
        # quotients, deepest first
        inv = None
        for m in p:
            for a, e in m:
                if ATOMS[a].kind == 'inv' and (inv is None or ATOMS[a].depth > ATOMS[inv].depth):
                    inv = a
        if inv is not None:
            B = POLYS[ATOMS[inv].args[0]]
            if not ctx.nz(B):
                if unsat_facts(ctx) or cleared_unsat(ctx):
                    return True
                if not ctx.nz(B, True):
                    return False
            deg = max(dict(m).get(inv, 0) for m in p)
            q = {}
            by = {}
            for m, c in p.items():
                e = dict(m).get(inv, 0)
                by.setdefault(e, {})[tuple(x for x in m if x[0] != inv)] = c
            for e, g in by.items():
                q = padd(q, pmul(g, ppow(B, deg - e)))
            p = q
            continue
        # group by square roots: p = A + s*B  -> zero if both are (sufficient)
        s = None
        for m in p:
            for a, e in m:
                if ATOMS[a].kind == 'sqrt' and (s is None or ATOMS[a].depth > ATOMS[s].depth):
                    s = a
        if s is not None:
            parts = {}
            for m, c in p.items():
                e = dict(m).get(s, 0)
                parts.setdefault(e, {})[tuple(x for x in m if x[0] != s)] = c
            if max(parts) >= 2:
                return False
            if 0 not in parts or 1 not in parts:
                p = parts.get(0) or parts.get(1)
                if 1 in parts and 0 not in parts:
                    if not zero_leaf(ctx, p):
                        return False
                    return True
                continue
            return zero_leaf(ctx, parts[0]) and zero_leaf(ctx, parts[1])
        return False
    return False


def prove_eq(pc, a, b, splits=None):
    return staged(pc, [a, b], lambda p, g: prove_eq1(p, g[0], g[1], splits), True)


def staged(pc, goal, attempt, exact):
    try:
        with limited(4.0, 2500, 300):
            r = attempt(pc, goal)
        if r[0] or (exact and not past_soft()):
            return r
    except GiveUp:
        r = None
    if with_cuts(pc, goal, attempt):
        return True, None
    if r is not None and exact:
        return r
    return attempt(pc, goal)


def prove_eq1(pc, a, b, splits=None):
    t0 = time.time()
    try:
        ctx = ctx_of(pc)
        if ctx.dead:
            return True, None
        p = padd(ctx.norm(a), pscale(ctx.norm(b), -1))
        why = []
        r = prove_zero(ctx, p, Budget(splits or BUDGET['splits']), why)
        return r, (why[0] if why else None)
    finally:
        STAT['poly'] += 1
        STAT['poly_s'] += time.time() - t0


def prove_cond(ctx, g, bud, why):
    g = ctx.csimp(g)
    if g is CT or ctx.dead:
        return True
    if past_deadline():
        raise GiveUp('time budget')
    if g.k == 'and':
        return all(prove_cond(ctx, y, bud, why) for y in g.x)
    if g.k == 'eq':
        return prove_zero(ctx, POLYS[g.x], bud, why)
    if g is CF:
        if unsat_facts(ctx) or unsat_facts(ctx, True):
            return True
        why.append((ctx, CF))
        return False
    if linear(ctx, g, 4000000) is True:
        return True
    if g.k == 'or':
        # assume the negation of the simpler disjuncts
        ys = list(g.x)
        # prefer an arithmetic goal literal last
        for y in ys:
            c2 = ctx
            for z in ys:
                if z is not y:
                    c2 = sub_ctx(c2, cnot(z))
            if c2.dead:
                return True
            y2 = c2.csimp(y)
            if y2 is CT or linear(c2, y2, 2000000) is True:
                return True
    # case split on conditional values
    pick = None
    for p in cond_polys(g):
        pick = pick_ite(POLYS[p])
        if pick is not None:
            break
    if pick is not None:
        bud.n -= 1
        if bud.n < 0:
            raise GiveUp('case split budget')
        c = literal_of(pick)
        d = linear(ctx, c)
        for v, cc in ((True, c), (False, cnot(c))):
            if d is not None and d != v:
                continue
            STAT['splits'] += 1
            ch = sub_ctx(ctx, cc)
            if ch.dead:
                continue
            if not prove_cond(ch, g, bud, why):
                return False
        return True
    # a common factor of unknown sign: split on its sign
    a = factor_split(ctx, g)
    if a is not None:
        bud.n -= 1
        if bud.n < 0:
            raise GiveUp('case split budget')
        v = pvar(ATOMS[a])
        for cc in (clt(v), ceq(v), clt(pscale(v, -1))):
            ch = sub_ctx(ctx, cc)
            if ch.dead:
                continue
            if not prove_cond(ch, g, bud, why):
                return False
        return True
    g2 = clear_inv(ctx, g)
    if g2 is not g:
        return prove_cond(ctx, g2, bud, why)
    r = solve(ctx, g)
    if r is True:
        return True
    if g.k == 'or':
        ys = list(g.x)
        for y in ys:
            c2 = ctx
            for z in ys:
                if z is not y:
                    c2 = sub_ctx(c2, cnot(z))
            if c2.dead or solve(c2, y) is True:
                return True
    if unsat_facts(ctx, True):
        return True
    why.append((ctx, g, r if isinstance(r, dict) else None))
    return False


def clear_inv(ctx, g):
    """p < 0 with quotients whose denominators have a known sign: multiply by the denominators"""
    if g.k == 'not':
        x = clear_inv(ctx, g.x[0])
        return g if x is g.x[0] else cnot(x)
    if g.k != 'lt':
        return g
    p = POLYS[g.x]
    inv = None
    for m in p:
        for a, e in m:
            if ATOMS[a].kind == 'inv' and (inv is None or ATOMS[a].depth > ATOMS[inv].depth):
                inv = a
    if inv is None:
        return g
    B = POLYS[ATOMS[inv].args[0]]
    s = ctx.psign(B)
    if s not in ('pos', 'neg'):
        if linear(ctx, clt(pscale(B, -1))) is True:
            s = 'pos'
        elif linear(ctx, clt(B)) is True:
            s = 'neg'
        else:
            return g
    deg = max(dict(m).get(inv, 0) for m in p)
    q = {}
    by = {}
    for m, c in p.items():
        by.setdefault(dict(m).get(inv, 0), {})[tuple(x for x in m if x[0] != inv)] = c
    for e, h in by.items():
        q = padd(q, pmul(h, ppow(B, deg - e)))
    if s == 'neg' and deg % 2:
        q = pscale(q, -1)
    return clt(ctx.red(q))


BVARS = {}


def bool_vars(c):
    r = BVARS.get(c.id)
    if r is None:
        if c.k == 'bv':
            r = frozenset([-1 - c.id])
        elif c.k in ('and', 'or', 'not'):
            r = frozenset().union(*[bool_vars(y) for y in c.x])
        else:
            r = frozenset()
        BVARS[c.id] = r
    return r


def ite_support(p):
    """leaf variables of the conditions of the conditionals in the monomials of p: {monomial: [support]}"""
    out = {}
    for m in p:
        ss = {}
        seen = set()
        for a, e in m:
            if not ATOMS[a].has_ite:
                continue
            st = [a]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                A = ATOMS[x]
                if A.kind == 'ite':
                    ss[frozenset(leaves(A.cond.sub)) | bool_vars(A.cond)] = 1
                    st.extend(y for y in cond_atoms(A.cond) if ATOMS[y].has_ite)
                for q in A.args:
                    for mm in POLYS[q]:
                        st.extend(y for y, _ in mm if ATOMS[y].has_ite)
        out[m] = list(ss)
    return out


def ite_groups(p, mode):
    sup = ite_support(p)
    allv = [s for ss in sup.values() for s in ss]
    if len(set(allv)) < 2:
        return None
    par = {}

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    us = sorted(set(allv), key=lambda s: (len(s), sorted(s)))
    for s in us:
        par[s] = s
    common = frozenset.intersection(*us)
    for i, x in enumerate(us):
        for y in us[i + 1:]:
            if (x <= y or y <= x) if mode == 0 else (x & y) - common:
                par[find(x)] = find(y)
    for ss in sup.values():
        for s in ss[1:]:
            par[find(s)] = find(ss[0])
    gs = {}
    rest = {}
    for m, c in p.items():
        if sup[m]:
            gs.setdefault(find(sup[m][0]), {})[m] = c
        else:
            rest[m] = c
    if len(gs) < 2:
        return None
    return list(gs.values()), rest


def case_value(ctx, p, bud, acc):
    """the value of p, the same in every case of its conditionals: acc[0]; False if it is not"""
    if ctx.dead:
        return True
    if past_deadline():
        raise GiveUp('time budget')
    bud.n -= 1
    if bud.n < 0:
        raise GiveUp('case split budget')
    q = ctx.psimp(pid(p))
    if acc and padd(q, pscale(acc[0], -1)) == {}:
        return True
    c = pick_ite(q)
    if c is None:
        q = ctx.red(q)
        if not acc:
            acc.append(q)
            return True
        d = padd(q, pscale(acc[0], -1))
        if not d or zero_leaf(ctx, ctx.psimp(pid(d))):
            return True
        return bool(unsat_facts(ctx)) or solve(ctx, ceq(d), quick=True) is True
    c = literal_of(c)
    d = linear(ctx, c)
    for v, cc in ((True, c), (False, cnot(c))):
        if d is not None and d != v:
            continue
        STAT['splits'] += 1
        if not case_value(sub_ctx(ctx, cc), q, bud, acc):
            return False
    return True


def by_groups(ctx, p, bud):
    """p = rest + groups of monomials with unrelated conditionals, each of which has one value"""
    for mode in (0, 1):
        g = ite_groups(p, mode)
        if g is None:
            continue
        groups, rest = g
        tot = rest
        ok = True
        for q in groups:
            acc = []
            try:
                if not case_value(ctx, q, Budget(min(bud.n, 400)), acc):
                    ok = False
                    break
            except GiveUp:
                if past_deadline():
                    raise
                ok = False
                break
            if not acc:
                return True        # no case is possible
            tot = padd(tot, acc[0])
        if ok and prove_zero(ctx, tot, bud, []):
            return True
    return False


def factor_split(ctx, g):
    for i in cond_polys(g):
        p = POLYS[i]
        if () in p or len(p) < 2:
            continue
        f = None
        for m in p:
            d = {a for a, e in m}
            f = d if f is None else f & d
            if not f:
                break
        for a in sorted(f):
            if ctx.asign(a) not in ('pos', 'neg') and ATOMS[a].kind in ('v', 'i', 'fn', 'sqrt'):
                return a
    return None


def cond_polys(c):
    if c.k in ('lt', 'eq'):
        return [c.x]
    if c.k == 'bfn':
        return list(c.x[1])
    if c.k in ('and', 'or', 'not'):
        return [p for y in c.x for p in cond_polys(y)]
    return []


def prove_bool(pc, t):
    return staged(pc, [t], lambda p, g: prove_bool1(p, g[0]), False)


def prove_bool1(pc, t):
    ctx = ctx_of(pc)
    if ctx.dead:
        return True, None
    why = []
    r = prove_cond(ctx, ctx.cond(t), Budget(BUDGET['splits']), why)
    return r, (why[0] if why else None)


def prove_unreachable(pc):
    return prove_bool(pc, FALSE)


def reachable(pc):
    """True when the path condition is shown satisfiable or at least not refuted"""
    ctx = ctx_of(pc)
    if ctx.dead or unsat_facts(ctx):
        return False
    return not unsat_facts(ctx, True, 800)


# ------------------------------------------------------------------------------ used by the executor
_dm = {}


def decide(pc, c):
    key = (tuple(t.id for t in pc), c.id)
    if key in _dm:
        return _dm[key]
    try:
        ctx = ctx_of(pc)
        g = ctx.csimp(ctx.cond(c))
        if ctx.dead:
            r = True
        elif g is CT:
            r = True
        elif g is CF:
            r = False
        else:
            r = linear(ctx, g, 200000)
    except GiveUp:
        r = None
    _dm[key] = r
    return r


def prove_eq_b(pc, a, b):
    try:
        return prove_eq(pc, a, b, 200)[0]
    except GiveUp:
        return False


def normal_zero(t):
    try:
        return not Ctx().norm(t)
    except GiveUp:
        return False


def poly_term(p):
    """canonical polynomial back to a term"""
    r = ZERO
    for m, c in p.items():
        t = C(c)
        for a, e in m:
            x = atom_term(a)
            for _ in range(e):
                t = mul(t, x)
        r = add(r, t)
    return r


def atom_term(a):
    A = ATOMS[a]
    k = A.kind
    if k == 'v':
        return V(A.name)
    if k == 'i':
        return i2r(IV(A.name))
    xs = [poly_term(POLYS[q]) for q in A.args]
    if k == 'inv':
        return div(ONE, xs[0])
    if k == 'sqrt':
        return tm.sqrt(xs[0])
    if k == 'fn':
        return fn(A.name, *xs)
    if k == 'ite':
        return ite(cond_term(A.cond), xs[0], xs[1])
    if k == 'floor':
        return rfloor(xs[0])
    raise GiveUp('atom_term ' + k)


def cond_term(c):
    k = c.k
    if k == 'true':
        return TRUE
    if k == 'false':
        return FALSE
    if k == 'lt':
        return lt(poly_term(POLYS[c.x]), ZERO)
    if k == 'eq':
        return eq(poly_term(POLYS[c.x]), ZERO)
    if k == 'not':
        return bnot(cond_term(c.x[0]))
    if k == 'and':
        return band(*[cond_term(y) for y in c.x])
    if k == 'or':
        return bor(*[cond_term(y) for y in c.x])
    if k == 'bv':
        return BV(c.x)
    if k == 'bfn':
        return bfn(c.x[0], *[poly_term(POLYS[q]) for q in c.x[1]])
    raise GiveUp('cond_term ' + k)


def show_poly(p, n=8, d=3):
    if isinstance(p, Cond):
        return show_cond(p, d)
    out = []
    for k, (m, c) in enumerate(p.items()):
        if k >= n:
            out.append('... (%d terms)' % len(p)); break
        out.append('%.6g*%s' % (float(c), '*'.join(show_atom(a, d) + ('^%d' % e if e > 1 else '') for a, e in m) or '1'))
    return ' + '.join(out) or '0'


def show_atom(a, d=3):
    A = ATOMS[a]
    if A.kind in ('v', 'i'):
        return A.name
    if d <= 0:
        return '...'
    if A.kind == 'ite':
        return 'ite(%s)' % show_cond(A.cond, d - 1)
    return '%s(%s)' % (A.name or A.kind, ', '.join(show_poly(POLYS[x], 4, d - 1) for x in A.args))


def show_cond(c, d=3):
    if d <= 0:
        return '...'
    if c.k == 'lt':
        return '%s < 0' % show_poly(POLYS[c.x], 5, d - 1)
    if c.k == 'eq':
        return '%s = 0' % show_poly(POLYS[c.x], 5, d - 1)
    if c.k in ('and', 'or', 'not'):
        return '%s(%s)' % (c.k, ', '.join(show_cond(x, d - 1) for x in c.x[:6]))
    return '%s:%s' % (c.k, c.x)
