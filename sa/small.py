"""Formulas extracted from the program, instantiated for small groups of processes: index sets, message lists and buffer layouts as explicit
finite objects.  Array entries are labels or rationals; arithmetic is only done on rationals."""
from fractions import Fraction as Fr
import itertools

from . import terms as T
from . import ident
from .ident import Undecided

MAXN = 2000


class Nd:
    """a small array: shape and entries in C order"""
    __slots__ = ('shape', 'data')

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), list(data)

    def __eq__(self, o):
        return isinstance(o, Nd) and self.shape == o.shape and self.data == o.data

    def __hash__(self):
        return hash((self.shape, tuple(self.data)))

    def __repr__(self):
        return f'Nd{self.shape}{self.data[:8]}'

    @staticmethod
    def full(shape, x):
        n = 1
        for s in shape:
            n *= s
        return Nd(shape, [x] * n)

    def strides(self):
        out, n = [], 1
        for s in reversed(self.shape):
            out.append(n)
            n *= s
        return out[::-1]


def integer(x):
    if isinstance(x, bool) or not isinstance(x, Fr) or x.denominator != 1:
        raise Undecided('integer')
    return int(x)


class Small:
    """env: value of symbols on one process; ranks(term) -> [value on every process] for collectives; arrays: {term: Nd}"""

    def __init__(self, env, ranks=None, arrays=None, extra=None):
        self.env, self.ranks, self.arrays, self.extra = env, ranks, arrays or {}, extra
        self.memo = {}

    def with_(self, more):
        e = dict(self.env)
        e.update({k: v for k, v in more.items() if not isinstance(v, Nd)})
        a = dict(self.arrays)
        a.update({k: v for k, v in more.items() if isinstance(v, Nd)})
        return Small(e, self.ranks, a, self.extra)

    def __call__(self, t):
        return ident.ev(t, self.env, Fr(0), 0, self.memo, self.hook)

    # ---- indices
    def axes(self, shape, es):
        """per axis of the result: list of positions (kept) or a position (dropped); None for a new axis"""
        es = list(es)
        n = sum(1 for e in es if e is not T.NONE and e is not T.ELL)
        if T.ELL in es:
            i = es.index(T.ELL)
            es[i:i + 1] = [T.ALL] * (len(shape) - n)
        else:
            es += [T.ALL] * (len(shape) - n)
        out = []
        p = 0
        for e in es:
            if e is T.NONE:
                out.append(None)
                continue
            if p >= len(shape):
                raise Undecided('too many indices')
            m = shape[p]
            if e.op == 'sl':
                st = integer(self(e.args[2])) if e.args[2] is not T.ONE else 1
                lo = None if e.args[0] is T.END else integer(self(e.args[0]))
                hi = None if e.args[1] is T.END else integer(self(e.args[1]))
                if st < 0 and e.args[0] is T.ZERO:
                    lo = None
                out.append(list(range(m))[slice(lo, hi, st)])
            else:
                v = self(e.args[0] if e.op == 'ixlist' else e)
                if isinstance(v, Nd) and len(v.shape) == 1:
                    v = tuple(v.data)
                if isinstance(v, tuple):
                    js = [integer(q) for q in v]
                    js = [j + m if j < 0 else j for j in js]
                    if any(not 0 <= j < m for j in js):
                        raise IndexError
                    out.append(js)
                else:
                    j = integer(v)
                    j = j + m if j < 0 else j
                    if not 0 <= j < m:
                        raise IndexError
                    out.append(j)
            p += 1
        return out

    def take(self, x, es):
        ax = self.axes(x.shape, es)
        st = x.strides()
        shape = [1 if a is None else len(a) for a in ax if not isinstance(a, int)]
        cols = [[0] if a is None else ([a] if isinstance(a, int) else a) for a in ax]
        k = 0
        mul = []
        for a in ax:
            if a is None:
                mul.append(0)
            else:
                mul.append(st[k])
                k += 1
        data = [x.data[sum(i * m for i, m in zip(ii, mul))] for ii in itertools.product(*cols)]
        if not shape:
            return data[0]
        return Nd(shape, data)

    def put(self, x, es, v):
        ax = self.axes(x.shape, es)
        if any(a is None for a in ax):
            raise Undecided('newaxis store')
        st = x.strides()
        cols = [[a] if isinstance(a, int) else a for a in ax]
        shape = [len(a) for a in ax if not isinstance(a, int)]
        pos = [sum(i * m for i, m in zip(ii, st)) for ii in itertools.product(*cols)]
        data = list(x.data)
        if isinstance(v, Nd):
            v = bcast(v, shape)
            for p, q in zip(pos, v.data):
                data[p] = q
        else:
            for p in pos:
                data[p] = v
        return Nd(x.shape, data)

    def red(self, fn, v, axis):
        f = dict(sum=lambda xs: sum(xs, Fr(0)), max=max, min=min, prod=lambda xs: _prod(xs), mean=lambda xs: sum(xs, Fr(0)) / len(xs)).get(fn)
        if f is None:
            raise Undecided(fn)
        if isinstance(v, tuple):
            v = Nd((len(v),), v)
        if not isinstance(v, Nd):
            return v
        if any(not isinstance(q, Fr) for q in v.data):
            raise Undecided('sum of labels')
        if axis is T.NONE:
            return f(v.data)
        k = integer(self(axis)) if isinstance(axis, T.Term) and axis.op != 'tuple' else None
        if k is None:
            raise Undecided('axis')
        k = k + len(v.shape) if k < 0 else k
        st = v.strides()
        rest = v.shape[:k] + v.shape[k + 1:]
        cols = [range(m) if i != k else [0] for i, m in enumerate(v.shape)]
        out = []
        for ii in itertools.product(*cols):
            o = sum(i * m for i, m in zip(ii, st))
            out.append(f([v.data[o + j * st[k]] for j in range(v.shape[k])]))
        return Nd(rest, out) if rest else out[0]

    def hook(self, x, go):
        if x in self.arrays:
            return self.arrays[x]
        if self.extra is not None:
            r = self.extra(self, x)
            if r is not None:
                return r
        op = x.op
        if op == 'none':
            return ()
        if op == 'str':
            return x.args[0]
        if op in ('floor', 'ceil', 'int', 'abs'):
            v = go(x.args[0])
            if isinstance(v, Nd) and len(v.data) == 1 and op == 'int':
                v = v.data[0]
            if not isinstance(v, Fr):
                raise Undecided(op)
            return Fr(v.__floor__() if op == 'floor' else v.__ceil__() if op == 'ceil' else v.__trunc__()) if op != 'abs' else abs(v)
        if op == 'truth':
            v = go(x.args[0])
            return bool(v) if not isinstance(v, Fr) else v != 0
        if op == 'alloc':
            sh = go(x.args[1])
            sh = tuple(integer(q) for q in (sh if isinstance(sh, tuple) else (sh,)))
            return Nd.full(sh, Fr(1) if x.args[0] == 'ones' else Fr(0))
        if op in ('store', 'scatter', 'getitem', 'append', 'listcomp', 'rep', 'concat'):
            return getattr(self, 'do_' + op)(x, go)
        if op == 'edict':
            return ('dict',)
        if op == 'rec':
            ps, nexts, inits, v, k = T.rec_parts(x)
            n = integer(go(k))
            if n > MAXN:
                raise Undecided('count of a loop')
            cur = [go(i) for i in inits]
            for j in range(n):
                f = self.with_({**dict(zip(ps, cur)), v: Fr(j)})
                # one equation may refer to the values of the round before only
                cur = [f(b) for b in nexts]
            return cur[0]
        if op == 'all':
            v, lo, hi, b = x.args[:4]
            return all(self.with_({v: Fr(j)})(b) for j in range(integer(go(lo)), integer(go(hi))))
        if op == 'sum':
            v, lo, hi, b = x.args[0], x.args[1], x.args[2], x.args[3]
            s = Fr(0)
            for j in range(integer(go(lo)), integer(go(hi))):
                s = lift(lambda p, q: p + q, s, self.with_({v: Fr(j)})(b))
            return s
        if op == 'range1':
            lo, hi, st = (integer(go(q)) for q in x.args)
            return Nd((len(range(lo, hi, st)),), [Fr(q) for q in range(lo, hi, st)])
        if op == 'len':
            v = go(x.args[0])
            if isinstance(v, tuple) and v[:1] == ('dict',):
                return Fr(len(v) - 1)
            return Fr(len(v)) if isinstance(v, tuple) else Fr(v.shape[0])
        if op in ('keys', 'tolist'):
            v = go(x.args[0])
            if isinstance(v, Nd) and len(v.shape) == 1:
                return tuple(v.data)
            return tuple(k for k, _ in v[1:]) if v[:1] == ('dict',) else v
        if op == 'shape':
            v = go(x.args[0])
            if isinstance(v, Nd):
                return tuple(Fr(q) for q in v.shape)
            if isinstance(v, tuple) and v[:1] != ('dict',) and all(isinstance(q, Fr) for q in v):
                return (Fr(len(v)),)
            raise Undecided(T.show(x, 3)[:100])
        if op == 'sorted':
            return tuple(sorted(go(x.args[0])))
        if op == 'transpose' and len(x.args) > 1:
            v = go(x.args[0])
            p = x.args[1]
            p = [integer(q) for q in go(p)] if isinstance(p, T.Term) else [int(q) for q in p]
            if not isinstance(v, Nd) or sorted(p) != list(range(len(v.shape))):
                raise Undecided('transpose')
            st = v.strides()
            sh = [v.shape[i] for i in p]
            return Nd(sh, [v.data[sum(i * st[q] for i, q in zip(ii, p))] for ii in itertools.product(*map(range, sh))])
        if op == 'reshape':
            v = go(x.args[0])
            sh = go(x.args[1])
            sh = [integer(q) for q in (sh if isinstance(sh, tuple) else (sh,))]
            if not isinstance(v, Nd):
                raise Undecided('reshape')
            if -1 in sh:
                r = -_prod(sh)
                sh[sh.index(-1)] = len(v.data) // r if r else 0
            if _prod(sh) != len(v.data):
                raise ValueError(f'{len(v.data)} entries reshaped to {tuple(sh)}')
            return Nd(sh, v.data)
        if op == 'red':
            return self.red(x.args[0], go(x.args[1]), x.args[2] if len(x.args) > 2 else T.NONE)
        if op in ('astype', 'copyof', 'conj', 'real'):
            return go(x.args[0])
        if op == 'poly' and any(T.kind(a) == 'arr' for c, m in x.args[0] for a, e in m):
            tot = None
            for c, m in x.args[0]:
                p = Fr(c) if not isinstance(c, complex) else None
                if p is None:
                    raise Undecided('complex')
                for a, e in m:
                    q = go(a)
                    if isinstance(q, tuple):
                        q = Nd((len(q),), q)
                    if isinstance(q, Fr) and isinstance(e, (int, Fr)) and Fr(e).denominator == 1 and (q != 0 or e > 0):
                        q, e = q ** int(e), 1
                    if not isinstance(e, (int, Fr)) or e != 1:
                        raise Undecided('power')
                    p = lift(lambda s, t: s * t, p, q)
                tot = p if tot is None else lift(lambda s, t: s + t, tot, p)
            return tot
        if op == 'bcast':
            v = go(x.args[0])
            return bcast(v if isinstance(v, Nd) else Nd((), [v]), [integer(q) for q in go(x.args[1])])
        if op == 'call':
            nm = x.args[0]
            if nm.startswith(('mpi.allgather', 'mpi.allreduce')) and self.ranks is not None:
                vs = [f(x.args[1]) for f in self.ranks]
                if nm.startswith('mpi.allgather'):
                    return Nd((len(vs),), vs) if all(isinstance(v, Fr) for v in vs) else tuple(vs)
                o = x.args[2].args[0] if len(x.args) > 2 else 'SUM'
                f = {'MAX': max, 'MIN': min, 'SUM': sum}.get(o)
                if f is None or not all(isinstance(v, Fr) for v in vs):
                    raise Undecided(nm)
                return Fr(f(vs))
            if nm == 'mpi.request':
                kw = {q.args[0] if isinstance(q.args[0], str) else q.args[0].args[0]: q.args[1] for q in x.args[2:] if q.op == 'kw'}
                return Req(x.args[1].args[0], tuple(sorted((k, go(v)) for k, v in kw.items() if k in ('dest', 'source', 'root', 'tag'))))
            if nm == 'numpy.cumsum' and len(x.args) >= 2:
                v = go(x.args[1])
                out, s = [], Fr(0)
                for q in v.data if isinstance(v, Nd) else v:
                    s += q
                    out.append(s)
                return Nd((len(out),), out)
            if nm in ('numpy.array', 'numpy.concatenate', 'numpy.hstack'):
                v = go(x.args[1])
                if isinstance(v, tuple) and all(isinstance(q, Fr) for q in v) and nm == 'numpy.array':
                    return Nd((len(v),), v)
                if isinstance(v, tuple) and all(isinstance(q, Nd) and len(q.shape) == 1 for q in v) and nm != 'numpy.array':
                    d = [e for q in v for e in q.data]
                    return Nd((len(d),), d)
            if nm in ('numpy.argmax', 'numpy.argmin') and len(x.args) == 2:
                v = go(x.args[1])
                d = v.data if isinstance(v, Nd) else v
                if isinstance(d, (tuple, list)) and d and all(isinstance(q, Fr) for q in d):
                    return Fr(list(d).index((max if nm == 'numpy.argmax' else min)(d)))
            if nm == 'dictview':
                v = go(x.args[1])
                if isinstance(v, tuple) and v[:1] == ('dict',):
                    return tuple(v[1:])
            if nm == 'size':
                v = go(x.args[1])
                return Fr(len(v.data)) if isinstance(v, Nd) else Fr(1)
        if op == 'method' and len(x.args) == 2 and str(getattr(x.args[1], 'args', [x.args[1]])[0]) == 'size':
            v = go(x.args[0])
            return Fr(len(v.data)) if isinstance(v, Nd) else Fr(1)
        if op == 'size':
            v = go(x.args[0])
            return Fr(len(v.data)) if isinstance(v, Nd) else Fr(1)
        if op in ('sym', 'var', 'red', 'call', 'shape', 'dtype', 'lib'):
            raise Undecided(T.show(x, 3)[:100])
        return None

    def do_store(self, x, go):
        b, es, v = go(x.args[0]), x.args[1].args, x.args[2]
        if v.op == 'ite':
            # kept entries are not looked up
            own = [q.op == 'getitem' and q.args[0] is x.args[0] and q.args[1] is x.args[1] for q in v.args[1:]]
            if any(own):
                c = go(v.args[0])
                if own[0 if c else 1]:
                    return b
                v = v.args[1 if c else 2]
        if isinstance(b, Nd):
            return self.put(b, es, go(v))
        if isinstance(b, tuple) and len(es) == 1 and b[:1] != ('dict',):
            i = integer(go(es[0]))
            b = list(b)
            b[i] = go(v)
            return tuple(b)
        if isinstance(b, tuple) and len(es) == 1:
            return set_key(b, go(es[0]), go(v))
        raise Undecided('store')

    def do_scatter(self, x, go):
        b, v, lo, hi, pat, val = x.args
        b = go(b)
        n = integer(go(hi))
        if n > MAXN:
            raise Undecided('count of a loop')
        for j in range(integer(go(lo)), n):
            f = self.with_({v: Fr(j)})
            if isinstance(b, Nd):
                b = f.put(b, pat.args, f(val))
            elif isinstance(b, tuple) and len(pat.args) == 1:
                if b[:1] == ('dict',):
                    b = set_key(b, f(pat.args[0]), f(val))
                else:
                    c = list(b)
                    c[integer(f(pat.args[0]))] = f(val)
                    b = tuple(c)
            else:
                raise Undecided('scatter')
        return b

    def do_getitem(self, x, go):
        b = go(x.args[0])
        es = x.args[1].args
        if isinstance(b, Nd):
            return self.take(b, es)
        if isinstance(b, tuple):
            if b[:1] == ('dict',):
                k = go(es[0])
                for q, v in b[1:]:
                    if q == k:
                        b = v
                        break
                else:
                    raise KeyError(k)
                if len(es) == 1:
                    return b
                return self.take(b, es[1:])
            for q in es:
                if q.op == 'sl':
                    lo, hi = (None if a is T.END else integer(go(a)) for a in q.args[:2])
                    b = b[slice(lo, hi, integer(go(q.args[2])))]
                    continue
                i = integer(go(q))
                if not isinstance(b, tuple) or not -len(b) <= i < len(b):
                    raise IndexError
                b = b[i]
            return b
        raise Undecided('item of ' + T.show(x.args[0], 3)[:80])

    def do_append(self, x, go):
        return go(x.args[0]) + (go(x.args[1]),)

    def do_concat(self, x, go):
        out = ()
        for c in x.args:
            v = go(c)
            out += tuple(v.data) if isinstance(v, Nd) else v
        return out

    def do_rep(self, x, go):
        return (go(x.args[0]),) * integer(go(x.args[1]))

    def do_listcomp(self, x, go):
        init, v, lo, hi, cond, val = x.args
        out = go(init)
        n = integer(go(hi))
        if n > MAXN:
            raise Undecided('count of a loop')
        for j in range(integer(go(lo)), n):
            f = self.with_({v: Fr(j)})
            if f(cond):
                out = out + (f(val),)
        return out


class Req(tuple):
    """a request: kind and its named arguments"""

    def __new__(cls, kind, kw):
        return tuple.__new__(cls, (kind, kw))


def set_key(b, k, v):
    out = [q for q in b[1:] if q[0] != k]
    return ('dict',) + tuple(out) + ((k, v),)


def _prod(xs):
    n = 1
    for q in xs:
        n *= q
    return n


def bcast(v, shape):
    shape = list(shape)
    if list(v.shape) == shape:
        return v
    vs = list(v.shape)
    while len(vs) > len(shape) and vs[0] == 1:
        vs = vs[1:]
    if len(vs) > len(shape):
        raise ValueError(f'shape {tuple(v.shape)} into {tuple(shape)}')
    vs = [1] * (len(shape) - len(vs)) + vs
    st, n = [], 1
    for s in reversed(vs):
        st.append(n)
        n *= s
    st = st[::-1]
    for a, b in zip(vs, shape):
        if a != b and a != 1:
            raise ValueError(f'shape {tuple(v.shape)} into {tuple(shape)}')
    return Nd(shape, [v.data[sum((0 if a == 1 else i) * m for i, m, a in zip(ii, st, vs))] for ii in itertools.product(*map(range, shape))])


def lift(f, a, b):
    if not isinstance(a, Nd) and not isinstance(b, Nd):
        return f(a, b)
    a = a if isinstance(a, Nd) else Nd((), [a])
    b = b if isinstance(b, Nd) else Nd((), [b])
    n = max(len(a.shape), len(b.shape))
    sa, sb = (1,) * (n - len(a.shape)) + a.shape, (1,) * (n - len(b.shape)) + b.shape
    sh = [max(p, q) if 0 not in (p, q) else 0 for p, q in zip(sa, sb)]
    a, b = bcast(a, sh), bcast(b, sh)
    return Nd(sh, [f(p, q) for p, q in zip(a.data, b.data)])
