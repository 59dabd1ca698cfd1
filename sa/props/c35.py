"""C35 orthogonality check of stored modes"""
from fractions import Fraction as Fr
import itertools
import math
from ._spod import *
from .. import harness as H
from ..small import Nd, lift, integer
from ..ident import Undecided
from .c29 import Cx, G, each
from ..field import Num

F_, M1, M2 = isym('f_id', 0), isym('m_id1', 0), isym('m_id2', 0)
TOL = Fr(2, 10 ** 6)


def root(q):
    """modulus, exact or rounded in the 40th digit: only its order relative to the tolerance matters"""
    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return Fr(a, b)
    return Fr(math.isqrt(q.numerator * q.denominator * 10 ** 80), q.denominator * 10 ** 40)


def clean(v):
    return each(lambda q: q.a if isinstance(q, G) and not q.b else q, v)


class Ox(Cx):
    def with_(self, more):
        f = super().with_(more)
        f.__class__ = Ox
        return f

    def hook(self, x, go):
        op = x.op
        if op == 'abs':
            return each(lambda q: root(G.of(q).a ** 2 + G.of(q).b ** 2), go(x.args[0]))
        if op in ('lt0', 'le0', 'eq0'):
            v = clean(go(x.args[0]))

            def c(q):
                if isinstance(q, G) and op != 'eq0':
                    raise Undecided('order')
                return q == 0 if op == 'eq0' else q < 0 if op == 'lt0' else q <= 0
            return each(c, v)
        if op == 'ndim':
            v = go(x.args[0])
            return Fr(len(v.shape)) if isinstance(v, Nd) else Fr(0)
        if op == 'sl':
            return slice(*(None if a is END else integer(go(a)) for a in x.args[:2]), integer(go(x.args[2])))
        if op in ('eq', 'ne') and len(x.args) == 2:
            a, b = go(x.args[0]), go(x.args[1])
            if isinstance(a, Nd) or isinstance(b, Nd):
                raise Undecided('comparison of arrays')
            return (a == b) == (op == 'eq')
        if op in ('and', 'or', 'not'):
            if op == 'not':
                return each(lambda q: not q, go(x.args[0]))
            r = None
            for y in x.args:
                v = go(y)
                v = v.data[0] if isinstance(v, Nd) and len(v.data) == 1 else v
                if isinstance(v, Nd):
                    raise Undecided('truth of an array')
                if bool(v) == (op == 'or'):
                    return v
                r = v
            return r
        if op == 'matmul':
            r = go(x.args[0])
            for y in x.args[1:]:
                r = self.mat(r, go(y))
            return r
        if op == 'einsum' or op == 'call' and x.args[0] in ('einsum', 'numpy.einsum'):
            a = x.args[1:] if op == 'call' else x.args
            spec = a[0] if isinstance(a[0], str) else a[0].args[0]
            vs = [go(y) for y in a[1:]]
            if '->' not in spec or '.' in spec or not all(isinstance(v, Nd) for v in vs):
                raise Undecided('einsum')
            i, o = spec.replace(' ', '').split('->')
            return self.contract(list(zip(vs, map(tuple, i.split(',')))), tuple(o))
        if op == 'call' and x.args[0] in ('numpy.vdot', 'numpy.inner', 'numpy.dot') and len(x.args) == 3:
            a, b = go(x.args[1]), go(x.args[2])
            if isinstance(a, Nd) and isinstance(b, Nd):
                if x.args[0] == 'numpy.vdot':
                    a, b = Nd((len(a.data),), [G(G.of(q).a, -G.of(q).b) for q in a.data]), Nd((len(b.data),), b.data)
                    return self.mat(a, b)
                if x.args[0] == 'numpy.dot' or len(b.shape) == 1:
                    return self.mat(a, b)
                return self.contract([(a, ('x',) * (len(a.shape) - 1) + ('k',)), (b, ('y',) * (len(b.shape) - 1) + ('k',))], ('x',) * (len(a.shape) - 1) + ('y',) * (len(b.shape) - 1))
        if op == 'call' and x.args[0] == 'numpy.atleast_1d' and len(x.args) == 2:
            v = go(x.args[1])
            return v if isinstance(v, Nd) else Nd((len(v),), v) if isinstance(v, tuple) else Nd((1,), [v])
        if op == 'call' and x.args[0].startswith('mpi.allreduce') and self.ranks is not None:
            vs = [f(x.args[1]) for f in self.ranks]
            if (x.args[2].args[0] if len(x.args) > 2 else 'SUM') != 'SUM':
                raise Undecided('reduction')
            t = vs[0]
            for v in vs[1:]:
                t = lift(lambda a, b: a + b, t, v)
            return t
        return super().hook(x, go)

    def pw(self, z, e):
        if Fr(e) == Fr(1, 2) and isinstance(z, Fr) and z >= 0:
            return root(z)
        return super().pw(z, e)

    def red(self, fn, v, axis):
        if fn != 'sum' or not isinstance(v, Nd):
            return super().red(fn, v, axis)
        n = len(v.shape)
        ks = range(n) if axis is NONE else [integer(q) % n for q in (lambda a: a if isinstance(a, tuple) else (a,))(self(axis))]
        return self.contract([(v, tuple(range(n)))], tuple(i for i in range(n) if i not in ks))

    def contract(self, ops, out):
        dims = {}
        for v, ii in ops:
            if len(ii) != len(v.shape):
                raise ValueError('einsum')
            for i, m in zip(ii, v.shape):
                if dims.setdefault(i, m) != m and 1 not in (m, dims[i]):
                    raise ValueError('einsum')
                dims[i] = max(dims[i], m)
        inner = [i for i in dims if i not in out]
        res = []
        for o in itertools.product(*[range(dims[i]) for i in out]):
            t = Fr(0)
            for q in itertools.product(*[range(dims[i]) for i in inner]):
                at = dict(zip(out, o)) | dict(zip(inner, q))
                p = Fr(1)
                for v, ii in ops:
                    p = p * v.data[sum((at[i] if m > 1 else 0) * st for i, m, st in zip(ii, v.shape, v.strides()))]
                t = t + p
            res.append(t)
        return Nd(tuple(dims[i] for i in out), res) if out else res[0]

    def axes(self, shape, es):
        out = []
        for e in es:
            if isinstance(e, T.Term) and e.op == 'ixlist':
                v = self(e.args[0])
                if isinstance(v, tuple) and any(isinstance(q, slice) for q in v):
                    # the index is the whole list: one entry per axis
                    out += [sl(*(END if c is None else num(c) for c in (q.start, q.stop)), num(q.step or 1)) if isinstance(q, slice) else num(integer(q)) for q in v]
                    continue
            out.append(e)
        return super().axes(shape, out)

    def mat(self, a, b):
        if not isinstance(a, Nd) or not isinstance(b, Nd):
            raise Undecided('product of scalars')
        A = a if len(a.shape) == 2 else Nd((1,) + a.shape, a.data)
        B = b if len(b.shape) == 2 else Nd(b.shape + (1,), b.data)
        if A.shape[1] != B.shape[0]:
            raise ValueError(f'product of {a.shape} and {b.shape}')
        out = []
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                s = Fr(0)
                for k in range(A.shape[1]):
                    s = s + A.data[i * A.shape[1] + k] * B.data[k * B.shape[1] + j]
                out.append(s)
        sh = a.shape[:-1] + b.shape[1:]
        return Nd(sh, out) if sh else out[0]


def scalar(v):
    """the number in an array of one entry"""
    v = clean(v)
    while isinstance(v, (Nd, tuple)):
        d = v.data if isinstance(v, Nd) else v
        if len(d) != 1:
            return None
        v = d[0]
    return v


def eps(k):
    """deviations from orthogonality: modulus below and above the tolerance"""
    m = [Fr(0), Fr(19, 10), Fr(21, 10), Fr(19, 10), Fr(21, 10), Fr(100000)][k] * Fr(1, 10 ** 6)
    return G(m) if k in (0, 1, 2) else G(m * Fr(3, 5), m * Fr(-4, 5))


def check(ctx):
    ctx.rule('value', 'the value is the weighted inner product of the two modes over all points and variables, the first one conjugated')
    ctx.rule('verdict', 'the verdict is true exactly if the value is within 2e-6 of one (same mode) or of zero (different modes)')
    ctx.rule('number', 'one number and one truth value are returned for one pair of modes')
    n = 0
    cfgs = [('ids', (M1, M2), F_), ('the same id', (M1, M1), F_),
            ('lists', ((lambda r: r.list([M1])), (lambda r: r.list([M2]))), (lambda r: r.list([F_]))),
            ('lists with the same id', ((lambda r: r.list([M1])), (lambda r: r.list([M1]))), (lambda r: r.list([F_])))]
    for par in (False, True):
        for xd, nv in ((1, num(1)), (1, None), (2, num(1)), (2, None)):
            for what, (m1, m2), fq in cfgs:
                r = S.util(ctx, 'pyspod.spod.utils', 'check_orthogonality', par=par, xd=xd, nv=nv, data=False, args=(m1, m2, fq))
                ctx.need(not r.ip.unknown, f'{r.ip.unknown[:1]}')
                same = 'same' in what
                ret = r.val(r.ret)
                ctx.need(ret.op == 'tuple' and len(ret.args) == 2, 'the check returns two values')
                n += one(ctx, r, ret, what, same, par, xd, nv)
    ctx.floor('instances compared', n, 100)


def one(ctx, r, ret, what, same, par, xd, nv):
    n = 0
    sizes = {1: [(3,), (4,)], 2: [(2, 3), (3, 2)]}[xd]
    vs = 1 if nv is not None else 2
    for sh in sizes:
        full = sh + (vs,)
        N = math.prod(full)
        nf, nm = 3, 3
        for size in ((1, 2, 3) if par else (1,)):
            for k in range(6):
                f0 = (k + size) % 3
                a = (f0 + 1 + k % 2) % 3
                b = a if same else (a + 1 + k // 2 % 2) % 3
                w = [Fr(i + 2, 3) for i in range(N)]
                ph = {}
                for f in range(nf):
                    for m in range(nm):
                        for i in range(N):
                            ph[f, i, m] = G(Fr((3 * i + 5 * m * m + 7 * f) % 11 - 4, 3), Fr((i * i + 2 * m + f) % 7 - 2, 5))
                if same and k < 5:
                    # norm 1, 1 + 1.9e-6, 1 + 2.1e-6, 1 - 1.9e-6, 1 - 2.1e-6
                    for i in range(N):
                        ph[f0, i, a] = G(0)
                    ph[f0, 1, a] = G(Fr(3, 5), Fr(4, 5))
                    w[1] = 1 + (eps(k).a if k < 3 else -eps(k - 2).a)
                elif not same and k < 5:
                    for i in range(N):
                        ph[f0, i, a], ph[f0, i, b] = G(0), G(1, 2) if i > 1 else G(0)
                    ph[f0, 1, a] = G(Fr(3, 5), Fr(4, 5))
                    ph[f0, 1, b] = eps(k) * Fr(1) * G(Fr(1) / w[1])
                d = r.disk
                env = {NT: Fr(20), NDFT: Fr(8), OVL: Fr(50), NV: Fr(vs), NSAVE: Fr(nm), H.NF: Fr(nf), DT: Fr(1), SIZE: Fr(size), RANK: Fr(0), F_: Fr(f0), M1: Fr(a), M2: Fr(b)}
                for s, q in zip(NX, sh):
                    env[s] = Fr(q)
                arrays = {d.W: Nd(full, w), d.MODES: Nd((nf,) + full + (nm,), [ph[f, i, m] for f in range(nf) for i in range(N) for m in range(nm)]),
                          d.FREQ: Nd((nf,), [Fr(i, 7) for i in range(nf)])}
                evs = [Ox({**env, RANK: Fr(q)}, None, dict(arrays)) for q in range(size)]
                for e in evs:
                    e.ranks = evs
                O = G(0)
                for i in range(N):
                    p = ph[f0, i, a]
                    O = O + G(p.a, -p.b) * w[i] * ph[f0, i, b]
                dev = O + G(-1 if same else 0)
                flag = dev.a ** 2 + dev.b ** 2 < TOL ** 2
                tag = f'{what}, {"x".join(map(str, full))}, {size} processes, case {k}'
                for q, e in enumerate(evs):
                    try:
                        got = scalar(e(ret.args[1]))
                        if not ctx.ob('number', tag + f', process {q}', got is not None, 'pyspod/spod/utils.py:check_orthogonality', 'the value of one pair of modes is an array'):
                            break
                        ctx.ob('value', tag + f', process {q}', G.of(got) == O, 'pyspod/spod/utils.py:check_orthogonality', f'{got} instead of {O}')
                        v = scalar(e(ret.args[0]))
                        if not ctx.ob('number', tag + f', process {q}, verdict', v is not None, 'pyspod/spod/utils.py:check_orthogonality', 'the verdict on one pair of modes is an array'):
                            break
                        ctx.ob('verdict', tag + f', process {q}', bool(v) == flag, 'pyspod/spod/utils.py:check_orthogonality', f'{v} for a deviation of {dev}')
                    except (ValueError, IndexError) as x:
                        ctx.ob('value', tag + f', process {q}', False, 'pyspod/spod/utils.py:check_orthogonality', str(x)[:80])
                    n += 1
    return n
