"""Formulas extracted from the program, evaluated in a finite field with a conjugation: GF(P^2) = GF(P)[i], P = -1 mod 8 lcm(1..40).
Square roots of squares, roots of unity of small order and conjugation are exact, so two formulas that agree as algebraic expressions agree
here, and formulas that differ agree only by accident (probability about 1/P).  Functions without an algebraic law (singular vectors, cosine)
are arbitrary functions of the value of their argument."""
from fractions import Fraction as Fr
import hashlib
import itertools
import math

from . import terms as T
from .small import Small, Nd, lift, bcast, integer, _prod
from .ident import Undecided


def _prime(n):
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


L = 8 * math.lcm(*range(1, 41))
P = next(k * L - 1 for k in itertools.count(1) if _prime(k * L - 1))


class F:
    __slots__ = ('a', 'b')

    def __init__(self, a, b=0):
        self.a, self.b = a % P, b % P

    @staticmethod
    def of(x):
        if isinstance(x, F):
            return x
        if isinstance(x, bool) or not isinstance(x, (int, Fr)):
            raise Undecided(f'number {x!r}'[:80])
        x = Fr(x)
        return F(x.numerator * pow(x.denominator, -1, P))

    def __add__(self, o):
        o = F.of(o)
        return F(self.a + o.a, self.b + o.b)

    def __mul__(self, o):
        o = F.of(o)
        return F(self.a * o.a - self.b * o.b, self.a * o.b + self.b * o.a)

    __radd__, __rmul__ = __add__, __mul__

    def __neg__(self):
        return F(-self.a, -self.b)

    def __sub__(self, o):
        return self + (-F.of(o))

    def inv(self):
        n = pow(self.a * self.a + self.b * self.b, -1, P)
        return F(self.a * n, -self.b * n)

    def __pow__(self, e):
        r, x = F(1), self
        if e < 0:
            x, e = self.inv(), -e
        while e:
            if e & 1:
                r = r * x
            x = x * x
            e >>= 1
        return r

    def conj(self):
        return F(self.a, -self.b)

    def __eq__(self, o):
        return not isinstance(o, bool) and isinstance(o, (F, int, Fr)) and (lambda o: (self.a, self.b) == (o.a, o.b))(F.of(o))

    def __hash__(self):
        return hash((self.a, self.b))

    def __repr__(self):
        return f'<{self.a % 9973}+{self.b % 9973}i>'


def zero(x):
    return F.of(x) == F(0)


def root(x):
    """square root of a real number; multiplicative, and exact for squares and small integers"""
    if isinstance(x, Fr):
        n, d = math.isqrt(x.numerator) if x >= 0 else -1, math.isqrt(x.denominator)
        if x >= 0 and n * n == x.numerator and d * d == x.denominator:
            return Fr(n, d)
    x = F.of(x)
    if x.b:
        raise Undecided('square root of a complex number')
    return F(pow(x.a, (P + 1) // 4, P))


def power(x, e):
    e = Fr(e)
    if e.denominator == 2:
        return power(root(x), e.numerator)
    if e.denominator != 1:
        raise Undecided('power')
    e = int(e)
    if e < 0 and zero(x):
        raise ZeroDivisionError
    return x ** e


def leaf(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(h[:16], 'big')


def rnd(*key):
    return F(leaf('re', *key))


def crnd(*key):
    return F(leaf('re', *key), leaf('im', *key))


def unity(n):
    """a root of unity of order n, its conjugate being its inverse"""
    for k in range(1, 200):
        z = F(k, k * k + 1)
        w = (z.conj() * z.inv()) ** ((P + 1) // n)
        if all(w ** (n // q) != F(1) for q in range(2, n + 1) if n % q == 0):
            return w
    raise Undecided('root of unity')


def canon(v):
    if isinstance(v, Nd):
        return ('nd', v.shape, tuple(canon(q) for q in v.data))
    x = F.of(v)
    return (x.a, x.b)


def matmul(x, y):
    (n, k), (k2, m) = x.shape, y.shape
    if k != k2:
        raise ValueError('product')
    return Nd((n, m), [sum((x.data[i * k + l] * y.data[l * m + j] for l in range(k)), Fr(0)) for i in range(n) for j in range(m)])


def transpose(x):
    n, m = x.shape
    return Nd((m, n), [x.data[i * m + j] for j in range(m) for i in range(n)])


def conj(x):
    if isinstance(x, Nd):
        return Nd(x.shape, [conj(q) for q in x.data])
    return x.conj() if isinstance(x, F) else x


def vstack(xs):
    return Nd((sum(x.shape[0] for x in xs), xs[0].shape[1]), [q for x in xs for q in x.data])


def hstack(xs):
    return transpose(vstack([transpose(x) for x in xs]))


def singular(k):
    """leading factor and values of a singular value decomposition: some matrices determined by the argument"""
    n, m = k.shape
    r = min(n, m)
    key = canon(k)
    return (Nd((n, r), [crnd('svd_u', key, i, j) for i in range(n) for j in range(r)]), Nd((r,), [rnd('svd_s', key, i) for i in range(r)]))


def cosine(x):
    x = F.of(x)
    return rnd('cos', canon(x * x))


def arr2(v):
    if isinstance(v, Nd):
        return v if len(v.shape) == 2 else Nd((1,) * (2 - len(v.shape)) + v.shape, v.data)
    return Nd((1, 1), [v])


class Num(Small):
    def with_(self, more):
        f = super().with_(more)
        f.__class__ = Num
        return f

    def scalar(self, f, v):
        return Nd(v.shape, [f(q) for q in v.data]) if isinstance(v, Nd) else f(v)

    def red(self, fn, v, axis):
        try:
            return super().red(fn, v, axis)
        except Undecided:
            if fn not in ('sum', 'mean') or not isinstance(v, Nd):
                raise
            if axis is T.NONE:
                s = sum((F.of(q) for q in v.data), F(0))
                return s if fn == 'sum' else s * Fr(1, len(v.data))
            k = integer(self(axis))
            k += len(v.shape) if k < 0 else 0
            st = v.strides()
            rest = v.shape[:k] + v.shape[k + 1:]
            out = []
            for ii in itertools.product(*[range(m) if i != k else [0] for i, m in enumerate(v.shape)]):
                o = sum(i * m for i, m in zip(ii, st))
                s = sum((F.of(v.data[o + j * st[k]]) for j in range(v.shape[k])), F(0))
                out.append(s if fn == 'sum' else s * Fr(1, v.shape[k]))
            return Nd(rest, out) if rest else out[0]

    def hook(self, x, go):
        if x in self.arrays:
            return self.arrays[x]
        if self.extra is not None:
            r = self.extra(self, x)
            if r is not None:
                return r
        op = x.op
        if op == 'poly':
            tot = None
            for c, m in x.args[0]:
                if isinstance(c, complex):
                    c = F(0, 1) * Fr(c.imag) + Fr(c.real)
                p = c if isinstance(c, F) else Fr(c)
                for a, e in m:
                    q = go(a)
                    if isinstance(q, tuple):
                        q = Nd((len(q),), q)
                    p = lift(lambda s, t: s * t, p, self.scalar(lambda z: power(z, e), q) if e != 1 else q)
                tot = p if tot is None else lift(lambda s, t: s + t, tot, p)
            return Fr(0) if tot is None else tot
        if op in ('le0', 'lt0', 'eq0'):
            v = go(x.args[0])
            if isinstance(v, Nd) and len(v.data) == 1:
                v = v.data[0]
            if isinstance(v, F) and op == 'eq0':
                return v == F(0)
            if not isinstance(v, Fr):
                raise Undecided('order of values')
            return v <= 0 if op == 'le0' else v < 0 if op == 'lt0' else v == 0
        if op == 'iunit':
            return F(0, 1)
        if op in ('conj', 'real', 'imag'):
            v = go(x.args[0])
            if op == 'conj':
                return conj(v)
            return self.scalar(lambda q: Fr(q if op == 'real' else 0) if isinstance(q, Fr) else F(q.a if op == 'real' else q.b), v)
        if op == 'abs':
            v = go(x.args[0])
            return self.scalar(lambda q: abs(q) if isinstance(q, Fr) else root(q * q.conj()), v)
        if op == 'pow':
            e = x.args[1]
            e = go(e) if isinstance(e, T.Term) else e
            return self.scalar(lambda q: power(q, e), go(x.args[0]))
        if op == 'matmul':
            r = go(x.args[0])
            for y in x.args[1:]:
                r = self.mat(r, go(y))
            return r
        if op == 'transpose' and (len(x.args) < 2 or isinstance(x.args[1], tuple) and not x.args[1] or isinstance(x.args[1], T.Term) and x.args[1].op == 'tuple' and not x.args[1].args):
            v = go(x.args[0])
            if isinstance(v, Nd) and len(v.shape) > 2:
                raise Undecided('transpose')
            return transpose(v) if isinstance(v, Nd) and len(v.shape) == 2 else v
        if op == 'call':
            nm = x.args[0]
            if nm in ('numpy.hstack', 'numpy.vstack', 'numpy.concatenate', 'numpy.block', 'numpy.column_stack', 'numpy.row_stack'):
                vs = go(x.args[1])
                if nm == 'numpy.block' and isinstance(vs, tuple) and all(isinstance(q, tuple) for q in vs):
                    return vstack([hstack([arr2(z) for z in q]) for q in vs])
                ax = go(x.args[2]) if len(x.args) > 2 and isinstance(x.args[2], T.Term) and x.args[2].op == 'num' else Fr(0)
                if isinstance(vs, tuple) and any(isinstance(q, Nd) and len(q.shape) == 2 for q in vs):
                    vs = [arr2(q) for q in vs]
                    return hstack(vs) if nm in ('numpy.hstack', 'numpy.column_stack') or nm == 'numpy.concatenate' and ax in (1, -1) else vstack(vs)
            if nm == 'numpy.diag':
                v = go(x.args[1])
                if isinstance(v, Nd) and len(v.shape) == 1:
                    n = v.shape[0]
                    return Nd((n, n), [v.data[i] if i == j else Fr(0) for i in range(n) for j in range(n)])
                if isinstance(v, Nd) and len(v.shape) == 2:
                    return Nd((min(v.shape),), [v.data[i * v.shape[1] + i] for i in range(min(v.shape))])
            if nm in ('svd_u', 'svd_s', 'svd_v'):
                v = go(x.args[1])
                if nm == 'svd_v' or not isinstance(v, Nd):
                    raise Undecided(nm)
                return singular(v)[0 if nm == 'svd_u' else 1]
            if nm in ('numpy.identity', 'numpy.eye') and len(x.args) == 2:
                n = integer(go(x.args[1]))
                return Nd((n, n), [Fr(int(i == j)) for i in range(n) for j in range(n)])
            if nm == 'numpy.cos':
                return self.scalar(cosine, go(x.args[1]))
            if nm == 'fft' and len(x.args) == 3:
                v, ax = go(x.args[1]), integer(go(x.args[2]))
                if isinstance(v, Nd) and len(v.shape) <= 2:
                    v1, flat = arr2(v), len(v.shape) == 1
                    t = not flat and ax % 2 == 0
                    if t:
                        v1 = transpose(v1)
                    n = v1.shape[1]
                    w = unity(n).conj()
                    r = matmul(v1, Nd((n, n), [w ** (i * j % n) for i in range(n) for j in range(n)]))
                    return Nd((n,), r.data) if flat else transpose(r) if t else r
        return super().hook(x, go)

    def mat(self, a, b):
        if not isinstance(a, Nd) or not isinstance(b, Nd):
            raise Undecided('product of scalars')
        if len(a.shape) == 1 and len(b.shape) == 1:
            return matmul(Nd((1,) + a.shape, a.data), Nd(b.shape + (1,), b.data)).data[0]
        if len(a.shape) == 1:
            r = matmul(Nd((1,) + a.shape, a.data), b)
            return Nd((r.shape[1],), r.data)
        if len(b.shape) == 1:
            r = matmul(a, Nd(b.shape + (1,), b.data))
            return Nd((r.shape[0],), r.data)
        return matmul(a, b)
