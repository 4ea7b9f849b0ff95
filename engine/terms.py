"""Hash-consed terms: reals (R), integers (I), booleans (B)."""
from fractions import Fraction
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ('op', 'a', 'v', 's', 'id', '__weakref__')

    def __repr__(self):
        return show(self, 6)


_tab = {}
_n = [0]


def mk(op, s, a=(), v=None):
    key = (op, s, v, tuple([x.id for x in a]))
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op; t.a = tuple(a); t.v = v; t.s = s
        _n[0] += 1
        t.id = _n[0]
        _tab[key] = t
    return t


def show(t, d=100):
    if t.op in ('c', 'ic'):
        return str(t.v) if not (isinstance(t.v, Fraction) and t.v.denominator > 10 ** 6) else '%.6g' % float(t.v)
    if t.op in ('v', 'iv', 'bv'):
        return t.v
    if t is TRUE:
        return 'true'
    if t is FALSE:
        return 'false'
    if d <= 0:
        return '…'
    return '(' + t.op + (':' + str(t.v) if t.v is not None else '') + ' ' + ' '.join(show(x, d - 1) for x in t.a) + ')'


TRUE = mk('true', 'B')
FALSE = mk('false', 'B')


def C(x):
    return mk('c', 'R', (), x if isinstance(x, Fraction) else Fraction(x))


ZERO = C(0)
ONE = C(1)
MONE = C(-1)


def IC(x):
    return mk('ic', 'I', (), int(x))


def V(name):
    return mk('v', 'R', (), name)


def IV(name):
    return mk('iv', 'I', (), name)


def BV(name):
    return mk('bv', 'B', (), name)


_fresh = [0]


def fresh(prefix, s='R'):
    _fresh[0] += 1
    n = '%s!%d' % (prefix, _fresh[0])
    return {'R': V, 'I': IV, 'B': BV}[s](n)


def add(a, b):
    if a.op == 'c' and b.op == 'c':
        return C(a.v + b.v)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c' and a.op == 'add':
        # constants of a sum are kept together
        for i in (0, 1):
            if a.a[i].op == 'c':
                return add(a.a[1 - i], C(a.a[i].v + b.v))
    if a.id > b.id:
        a, b = b, a
    return mk('add', 'R', (a, b))


def mul(a, b):
    if a.op == 'c' and b.op == 'c':
        return C(a.v * b.v)
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if b.op == 'c' or (a.op != 'c' and a.id > b.id):
        a, b = b, a
    if a.op == 'c' and b.op == 'mul' and b.a[0].op == 'c':
        return mul(C(a.v * b.a[0].v), b.a[1])
    return mk('mul', 'R', (a, b))


def neg(a):
    return mul(MONE, a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def div(a, b):
    if b.op == 'c' and b.v != 0:
        return mul(C(1 / b.v), a)
    if a is ZERO and b.op == 'c':
        return mk('div', 'R', (a, b))
    return mk('div', 'R', (a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.s == 'B':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return bnot(c)
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
        if b is FALSE:
            return band(c, a)
        return band(bor(bnot(c), a), bor(c, b))
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk('ite', a.s, (c, a, b))


def fn(name, *args):
    return mk('fn', 'R', args, name)


def bfn(name, *args):
    return mk('bfn', 'B', args, name)


def ifn(name, *args):
    return mk('ifn', 'I', args, name)


def sqrt(a):
    if a.op == 'c' and a.v >= 0:
        import math
        n, d = math.isqrt(a.v.numerator), math.isqrt(a.v.denominator)
        if n * n == a.v.numerator and d * d == a.v.denominator:
            return C(Fraction(n, d))
    return mk('sqrt', 'R', (a,))


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.a[0]
    if a.op == 'lt':
        return le(a.a[1], a.a[0])
    if a.op == 'le':
        return lt(a.a[1], a.a[0])
    return mk('not', 'B', (a,))


def band(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.a if x.op == 'and' else (x,)
        for y in ys:
            if y is TRUE or y.id in seen:
                continue
            if y is FALSE:
                return FALSE
            seen.add(y.id)
            out.append(y)
    for y in out:
        if bnot(y).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', 'B', out)


def bor(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.a if x.op == 'or' else (x,)
        for y in ys:
            if y is FALSE or y.id in seen:
                continue
            if y is TRUE:
                return TRUE
            seen.add(y.id)
            out.append(y)
    for y in out:
        if bnot(y).id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('or', 'B', out)


def bxor(a, b):
    return bor(band(a, bnot(b)), band(bnot(a), b))


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.v < b.v else FALSE
    return mk('lt', 'B', (a, b))


def le(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.v <= b.v else FALSE
    return mk('le', 'B', (a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.v == b.v else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', 'B', (a, b))


# integers -------------------------------------------------------------
def _ii(x):
    return IC(x) if isinstance(x, int) else x


def iadd(a, b):
    if a.op == 'ic' and b.op == 'ic':
        return IC(a.v + b.v)
    if a.op == 'ic' and a.v == 0:
        return b
    if b.op == 'ic' and b.v == 0:
        return a
    return mk('iadd', 'I', (a, b))


def imul(a, b):
    if a.op == 'ic' and b.op == 'ic':
        return IC(a.v * b.v)
    if (a.op == 'ic' and a.v == 0) or (b.op == 'ic' and b.v == 0):
        return IC(0)
    if a.op == 'ic' and a.v == 1:
        return b
    if b.op == 'ic' and b.v == 1:
        return a
    return mk('imul', 'I', (a, b))


def ieq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ic' and b.op == 'ic':
        return TRUE if a.v == b.v else FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and y.op == 'ic' and (x.a[1].op in ('ic', 'ite')) and (x.a[2].op in ('ic', 'ite')):
            return ite(x.a[0], ieq(x.a[1], y), ieq(x.a[2], y))
    if a.id > b.id:
        a, b = b, a
    return mk('ieq', 'B', (a, b))


def ilt(a, b):
    if a is b:
        return FALSE
    if a.op == 'ic' and b.op == 'ic':
        return TRUE if a.v < b.v else FALSE
    if a.op == 'ite' and b.op == 'ic':
        return ite(a.a[0], ilt(a.a[1], b), ilt(a.a[2], b))
    if b.op == 'ite' and a.op == 'ic':
        return ite(b.a[0], ilt(a, b.a[1]), ilt(a, b.a[2]))
    return mk('ilt', 'B', (a, b))


def ile(a, b):
    return bnot_int(ilt(b, a))


def bnot_int(x):
    return bnot(x)


def i2r(a):
    if a.op == 'ic':
        return C(a.v)
    if a.op == 'ite':
        return ite(a.a[0], i2r(a.a[1]), i2r(a.a[2]))
    if a.op == 'iadd':
        return add(i2r(a.a[0]), i2r(a.a[1]))
    if a.op == 'imul':
        return mul(i2r(a.a[0]), i2r(a.a[1]))
    return mk('i2r', 'R', (a,))


def r2i_trunc(a):
    """fptosi"""
    if a.op == 'c':
        q = abs(a.v.numerator) // a.v.denominator
        return IC(q if a.v >= 0 else -q)
    if a.op == 'i2r':
        return a.a[0]
    if a.op == 'ite':
        return ite(a.a[0], r2i_trunc(a.a[1]), r2i_trunc(a.a[2]))
    return mk('trunc', 'I', (a,))


def rfloor(a):
    """floor as a real"""
    if a.op == 'c':
        return C(a.v.numerator // a.v.denominator)
    if a.op == 'i2r':
        return a
    return i2r(mk('floor', 'I', (a,)))


def rceil(a):
    return neg(rfloor(neg(a)))


def subst(t, m, memo=None):
    """substitute by term id -> term"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.id in m:
        r = m[t.id]
    elif not t.a:
        r = t
    else:
        a = [subst(x, m, memo) for x in t.a]
        r = t if all(x is y for x, y in zip(a, t.a)) else rebuild(t, a)
    memo[t.id] = r
    return r


_B = {'add': add, 'mul': mul, 'div': div, 'ite': ite, 'sqrt': sqrt, 'not': bnot, 'and': band, 'or': bor, 'lt': lt,
      'le': le, 'eq': eq, 'iadd': iadd, 'imul': imul, 'ieq': ieq, 'ilt': ilt, 'i2r': i2r, 'trunc': r2i_trunc}


def rebuild(t, a):
    f = _B.get(t.op)
    if f:
        return f(*a)
    return mk(t.op, t.s, a, t.v)


def atoms(t, seen=None, out=None):
    """all subterms"""
    if seen is None:
        seen = set(); out = []
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        st.extend(x.a)
    return out
