"""How a value computed by every rank of a parallel run relates to the value of the single-process reading of the same program.

  rep        every rank holds the global value
  shard(a)   a rank holds its range of axis a of the global value (ranges in rank order, every element on one rank)
  part       the global value is the sum over ranks of the local ones
  zero       zeros / not yet filled
  loc        none of these (with the construct that lost the relation)

The global value is what the term denotes for rank 0 of 1 (reductions are identities), so equality with the serial program is decided on that
reading, and this inference shows that the reading is what the ranks hold together."""
from fractions import Fraction as Fr

from . import terms as T, lin, models
from .terms import mk, num, ZERO, ONE, NONE, ALL, END, ELL, ix, sl
from .harness import RANK, SIZE, isym
from .prop import NotUnderstood

NLOC, SLOC = isym('n_local', 0), isym('start_local', 0)
L1 = ((NLOC,), 0)


class Ty:
    __slots__ = ('k', 'ax', 'lay', 'why')

    def __init__(self, k, ax=None, lay=None, why=None):
        self.k, self.ax, self.lay, self.why = k, ax, lay, why

    def __eq__(self, o):
        return self.k == o.k and self.ax == o.ax and self.lay == o.lay

    def __repr__(self):
        if self.k == 'shard':
            return f'shard(axis {self.ax})' if self.lay in (None, L1) else f'shard(axis {self.ax} of merged axes)'
        return self.k


REP, PART, ZEROS = Ty('rep'), Ty('part'), Ty('zero')


def loc(t, why):
    return Ty('loc', why=(t, why))


def shard(a, lay=L1):
    return Ty('shard', a, lay)


def partitions(ts):
    """(lo, hi, axis length) of every rank-dependent range selected from an axis"""
    out = {}
    for t in ts:
        for s in T.subterms(t):
            if s.op == 'getitem' and s.args[1].op == 'ix' and any(e.op == 'sl' and RANK in set(T.subterms(e)) for e in s.args[1].args):
                d = T._dims(s.args[0])
                if d is None:
                    raise NotUnderstood(f'range of unknown extent {T.show(s, 3)[:150]}')
                j = 0
                for e in s.args[1].args:
                    if e.op == 'sl' and RANK in set(T.subterms(e)) and j < len(d):
                        out.setdefault((e, d[j]), s)
                    if e is not NONE:
                        j += 1
    return out


def tiles(lo, hi, N):
    h = [RANK, T.sub(T.sub(SIZE, ONE), RANK), T.sub(SIZE, ONE), N]
    at = lambda t, r: T.subst(t, {RANK: r})
    last = T.sub(SIZE, ONE)
    return (lin.prove_eq(at(lo, ZERO), ZERO, [SIZE, last, N]) and
            lin.prove_eq(at(lo, T.add(RANK, ONE)), hi, h + [T.sub(last, T.add(RANK, ONE))]) and
            lin.prove_eq(at(hi, last), N, [last, N]) and lin.prove(T.sub(hi, lo), h))


def alone(c):
    """the condition implies a single process"""
    d = T.sub(ONE, SIZE)
    if c.op == 'eq0':
        return lin.prove(d, [c.args[0], SIZE]) or lin.prove(d, [T.neg(c.args[0]), SIZE])
    if c.op == 'le0':
        return lin.prove(d, [T.neg(c.args[0]), SIZE])
    if c.op == 'lt0':
        return lin.prove(d, [T.sub(T.neg(c.args[0]), ONE), SIZE])
    if c.op == 'and':
        return any(alone(x) for x in T.children(c))
    return False


class Sharding:
    """the partition used by a set of values of one run, for one choice of the longest axis"""

    def __init__(self, values):
        parts = partitions(values)
        self.bad = []
        self.N = None
        self.lo = self.n = None
        self.sls = {}
        for (e, N), s in sorted(parts.items(), key=lambda kv: kv[0][0].key):
            lo, hi = e.args[:2]
            if e.args[2] is not ONE or not tiles(lo, hi, N):
                self.bad.append((s, f'the ranges {T.show(e, 5)[:200]} do not tile an axis of length {T.show(N, 3)}'))
                continue
            n = T.sub(hi, lo)
            if self.N is None:
                self.N, self.lo, self.n = N, lo, n
            elif self.N is not N or not (self.lo is lo or lin.prove_eq(lo, self.lo, [RANK, T.sub(T.sub(SIZE, ONE), RANK), N])):
                self.bad.append((s, 'two different distributions of the data'))
                continue
            self.sls[e] = N
        self.atom = {}
        if self.n is not None:
            p = T.topoly(self.n)
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and RANK in set(T.subterms(m[0][0])):
                    a = m[0][0]
                    rest = T.sub(self.n, T.mul(num(c), a))
                    if a not in set(T.subterms(rest)):
                        self.atom = {a: T.mul(num(c), T.sub(NLOC, rest))}
                        break
            else:
                if not self.bad and RANK in set(T.subterms(self.n)):
                    raise NotUnderstood('local count has no isolated rank-dependent part')
        self.memo = {}

    def prepare(self, t):
        """local ranges become opaque arrays with NLOC elements along their axis"""
        def fn(x, go):
            if x.op == 'getitem' and x.args[1].op == 'ix' and any(e in self.sls for e in x.args[1].args):
                es = list(x.args[1].args)
                if x.args[0].op == 'conj':
                    return T.conj(go(T.getitem(x.args[0].args[0], x.args[1])))
                base = go(x.args[0])
                j = 0
                d = T._dims(base)
                sel = []
                for e in es:
                    if e in self.sls:
                        sel.append(j)
                    if e is not NONE:
                        j += 1
                if len(sel) == 1 and d is not None:
                    k = sel[0]
                    nd = tuple(NLOC if i == k else q for i, q in enumerate(d))
                    inf = {a: b for a, b in T.info(base).items() if a in ('real', 'complex', 'dt')} if base.op in ('sym', 'var') else {}
                    y = T.sym(f'SHARD{k}_{base.key}', kind='arr', ndim=len(d), dims=nd, shard=(base, k), **inf)
                    return T.getitem(y, ix(*[ALL if e in self.sls else go(e) for e in es]))
            return None
        t = T.transform(t, fn)
        return T.subst(t, self.atom) if self.atom else t

    def dims(self, t):
        d = T._dims(t)
        if d is None and t.op == 'ite':
            a, b = self.dims(t.args[1]), self.dims(t.args[2])
            return b if T.kind(t.args[1]) == 'sc' else a if T.kind(t.args[2]) == 'sc' or a == b else None
        if d is None:
            return None
        return [T.subst(x, self.atom) for x in d] if self.atom else list(d)

    # ------------------------------------------------------------------
    def ty(self, t, env=None):
        env = env or {}
        if not env:
            r = self.memo.get(t)
            if r is None:
                r = self.memo[t] = self._ty(t, env)
            return r
        k = (t, tuple(sorted((p.key, repr(v), v.ax, v.lay and (tuple(x.key for x in v.lay[0]), v.lay[1])) for p, v in env.items())))
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._ty(t, env)
        return r

    def _ty(self, t, env):
        op = t.op
        if t in env:
            return env[t]
        f = getattr(self, 't_' + op, None)
        if f:
            return f(t, env)
        cs = [self.ty(c, env) for c in T.children(t)]
        return self.generic(t, cs)

    def generic(self, t, cs):
        for c in cs:
            if c.k == 'loc':
                return c
        if all(c.k in ('rep', 'zero') for c in cs):
            return REP
        if any(c.k == 'part' for c in cs):
            return loc(t, 'a partial sum is used where the sum over all ranks is needed')
        raise NotUnderstood(f'effect of {t.op}{":" + str(t.args[0]) if isinstance(t.args[0], str) else ""} on distributed data: {T.show(t, 3)[:160]}')

    def t_num(self, t, env):
        return ZEROS if t is ZERO else REP

    def t_sym(self, t, env):
        if t is SIZE:
            return loc(t, 'depends on the number of processes')
        if t is RANK or t is SLOC:
            return loc(t, 'depends on the rank')
        if t is NLOC:
            return PART
        s = T.info(t).get('shard')
        return shard(s[1]) if s else REP

    t_var = t_sym

    def t_poly(self, t, env):
        d = self.dims(t)
        xs = [(m, self.mono(t, m, env, d)) for c, m in t.args[0]]
        out = ZEROS
        for m, x in xs:
            if x.k != 'rep':
                out = self.join(t, out, x, 'added to')
            if out.k == 'loc':
                return out
        if not any(x.k == 'rep' for m, x in xs):
            return out
        if out.k in ('zero', 'rep'):
            return REP
        if out.k == 'shard':
            for m, x in xs:
                for a, e in m if x.k == 'rep' else ():
                    da = self.dims(a)
                    if da is None:
                        if T.kind(a) == 'arr':
                            raise NotUnderstood(f'shape of {T.show(a, 3)[:120]}')
                        continue
                    k = out.ax - (len(d) - len(da))
                    if k >= 0 and da[k] is not ONE:
                        return loc(a, 'a value of the whole axis is added to the local range of it')
            return out
        return loc(t, f'a replicated value is added to {out}')

    def mono(self, t, m, env, d):
        r = REP
        for a, e in m:
            x = self.ty(a, env)
            if x.k == 'loc':
                return x
            if x.k == 'zero' and isinstance(e, (int, Fr)) and e > 0:
                return ZEROS
            if x.k == 'part' and e != 1:
                return loc(a, 'a partial sum enters a non-linear expression')
            if x.k == 'shard' and d is not None:
                da = self.dims(a)
                if da is None:
                    raise NotUnderstood(f'shape of {T.show(a, 3)[:120]}')
                x = shard(x.ax + len(d) - len(da), x.lay)
            if r.k == 'rep':
                r = x
            elif x.k == 'rep':
                pass
            elif r.k == 'shard' and x.k == 'shard':
                r = self.same(a, r, x)
                if r.k == 'loc':
                    return r
            else:
                return loc(a, 'a partial sum is multiplied by distributed data')
        if r.k == 'shard' and d is not None:
            # the other factors must be constant along the distributed axis
            for a, e in m:
                x = self.ty(a, env)
                if x.k == 'shard':
                    continue
                da = self.dims(a)
                if da is None:
                    if T.kind(a) == 'arr':
                        raise NotUnderstood(f'shape of {T.show(a, 3)[:120]}')
                    continue
                k = r.ax - (len(d) - len(da))
                if k >= 0 and da[k] is not ONE and x.k != 'zero':
                    return loc(a, 'a value of the whole axis is combined with the local range of it')
        return r

    def same(self, t, a, b):
        if a.ax != b.ax:
            return loc(t, f'data distributed over axis {a.ax} is combined with data distributed over axis {b.ax}')
        if a.lay is None:
            return b
        if b.lay is None or a.lay == b.lay:
            return a
        return loc(t, 'data merged in different orders is combined')

    def join(self, t, a, b, verb):
        if a.k == 'loc':
            return a
        if b.k == 'loc':
            return b
        if a.k == 'zero':
            return b
        if b.k == 'zero':
            return a
        if a.k == 'shard' and b.k == 'shard':
            return self.same(t, a, b)
        if a.k == b.k:
            return a
        if {a.k, b.k} == {'rep', 'shard'}:
            return Ty('mix', why=(a if a.k == 'shard' else b))
        return loc(t, f'{a} is {verb} {b}')

    # ---- structure
    def t_tuple(self, t, env):
        return self.seq(t, [self.ty(c, env) for c in t.args])

    t_list = t_tuple

    def seq(self, t, cs):
        for c in cs:
            if c.k == 'loc':
                return c
        ks = {c.k for c in cs}
        if ks <= {'rep', 'zero'}:
            return REP if 'rep' in ks or not ks else ZEROS
        if ks <= {'shard', 'zero'}:
            s = [c for c in cs if c.k == 'shard']
            if all(x == s[0] for x in s):
                return shard(s[0].ax + 1, s[0].lay)
        if ks <= {'part', 'zero'}:
            return PART
        return Ty('mix')

    def lift(self, x, k=1):
        return shard(x.ax + k, x.lay) if x.k == 'shard' else x

    def mask(self, e):
        return T.is_bool(e) or e.op in ('lt0', 'le0', 'eq0', 'not', 'and', 'or')

    def t_ix(self, t, env):
        if len(t.args) == 1 and self.mask(t.args[0]):
            return self.ty(t.args[0], env)
        for c in T.children(t):
            x = self.ty(c, env)
            if x.k == 'loc':
                return x
            if x.k in ('shard', 'part'):
                return loc(t, 'an index is not the same on every rank')
        return REP

    t_sl = t_ix

    def t_alloc(self, t, env):
        s = t.args[1]
        ds = list(s.args) if s.op in ('tuple', 'list') else [s]
        ax = [i for i, d in enumerate(ds) if self.local(d)]
        if not ax:
            for d in ds:
                if self.ty(d, env).k == 'loc':
                    return self.ty(d, env)
            return ZEROS if t.args[0] in ('zeros', 'empty') else REP
        if len(ax) > 1:
            return loc(t, 'two axes have a rank-dependent length')
        if not self.multiple(ds[ax[0]]):
            return loc(t, 'the length of an axis is not the local part of a global one')
        return shard(ax[0], None)

    def local(self, d):
        return any(x in (RANK, NLOC, SLOC) for x in T.subterms(d))

    def multiple(self, d):
        """NLOC times something the same on every rank"""
        q = T.div(d, NLOC)
        return not self.local(q)

    def t_getitem(self, t, env):
        b, i = t.args
        x = self.ty(b, env)
        y = self.ty(i, env)
        if y.k == 'loc':
            return y
        if y.k == 'shard' and x.k != 'loc':
            return loc(t, 'a rank-dependent number of elements is selected')
        if x.k in ('loc', 'zero', 'part', 'rep'):
            if x.k == 'zero':
                return ZEROS
            return x
        if x.k == 'mix':
            k = T.intval(i.args[0]) if len(i.args) == 1 else None
            if b.op in ('tuple', 'list') and k is not None:
                return self.ty(b.args[k], env)
            return loc(t, 'one of several values with a different distribution')
        es = list(i.args)
        nreal = sum(1 for e in es if e is not NONE and e is not ELL)
        if ELL in es:
            d = self.dims(b)
            p = es.index(ELL)
            if d is None:
                raise NotUnderstood(f'shape of {T.show(b, 3)[:120]}')
            es = es[:p] + [ALL] * (len(d) - nreal) + es[p + 1:]
        j = k = 0
        new = None
        for e in es:
            if e is NONE:
                k += 1
                continue
            if j == x.ax:
                if e is not ALL:
                    return loc(t, 'part of a distributed axis is selected by a local index')
                new = k
            j += 1
            k += self.rank_of(e)
        if new is None:
            new = k + (x.ax - j)
        return shard(new, x.lay)

    def rank_of(self, e):
        """number of axes an index component leaves"""
        if e.op == 'sl':
            return 1
        if e.op == 'ixlist':
            raise NotUnderstood('computed list of indices')
        kd = T.kind(e)
        if kd == 'list' or e.op == 'list':
            return 1
        if kd == 'arr':
            d = T._dims(e)
            if d is None:
                raise NotUnderstood(f'shape of index {T.show(e, 3)[:100]}')
            return len(d)
        return 0

    def written(self, t, env, b, pat, v):
        """type of container b after b[pat] = v"""
        x, y = self.ty(b, env), self.ty(v, env)
        p = self.ty(pat, env)
        for z in (p, x, y):
            if z.k == 'loc':
                return z
        if 'mix' in (x.k, y.k):
            return Ty('mix')
        if y.k == 'zero':
            return x
        db = self.dims(b)
        es = list(pat.args)
        if len(es) == 1 and p.k == 'shard' and self.mask(es[0]):
            # elementwise choice
            z = self.ty(es[0], env)
            if y.k == 'rep' and T.kind(v) == 'sc' and x.k == 'shard':
                return self.same(t, x, z)
            raise NotUnderstood(f'masked assignment {T.show(t, 3)[:140]}')
        islist = T.kind(b) in ('list', 'dict') or T.kind(t) in ('list', 'dict')
        if islist:
            y = self.lift(y)
            if x.k == 'rep' and self.filler(b):
                return y
            if y.k == 'part' and x.k == 'rep' or x.k == 'part' and y.k == 'rep':
                return Ty('mix')
            r = self.join(t, x, y, 'stored into')
            return r
        if y.k == 'shard' or x.k == 'shard':
            if db is None:
                raise NotUnderstood(f'shape of {T.show(b, 3)[:120]}')
            if ELL in es:
                n = sum(1 for e in es if e is not NONE and e is not ELL)
                q = es.index(ELL)
                es = es[:q] + [ALL] * (len(db) - n) + es[q + 1:]
            es = es + [ALL] * (len(db) - len(es))
            if x.k == 'shard' and es[x.ax] is not ALL:
                return loc(t, 'a distributed axis is written by a local index')
        if y.k == 'shard':
            dv = self.dims(v)
            if dv is None:
                raise NotUnderstood(f'shape of {T.show(v, 3)[:120]}')
            axes = [j for j, e in enumerate(es) for _ in range(self.rank_of(e))]
            k = y.ax + len(axes) - len(dv)
            if k < 0 or es[axes[k]] is not ALL:
                return loc(t, 'distributed data is stored into part of an axis')
            y = shard(axes[k], y.lay)
            if x.k in ('rep', 'part'):
                return loc(t, f'distributed data is stored into a {x} container')
            return y if x.k == 'zero' else self.same(t, x, y)
        if x.k == 'shard':
            if y.k == 'part':
                return loc(t, 'a partial sum is stored among distributed data')
            dv = self.dims(v)
            if dv is None and T.kind(v) != 'sc':
                raise NotUnderstood(f'shape of {T.show(v, 3)[:120]}')
            axes = [j for j, e in enumerate(es) for _ in range(self.rank_of(e))]
            if dv and x.ax in axes:
                k = axes.index(x.ax) - (len(axes) - len(dv))
                if k >= 0 and dv[k] is not ONE:
                    return loc(t, 'a value of the whole axis is stored into the local range of it')
            return x
        return self.join(t, x, y, 'stored into')

    def filler(self, b):
        while b.op in ('rep', 'copyof'):
            b = b.args[0]
        return b is NONE or b.op == 'list' and all(self.filler(x) for x in b.args)

    def t_store(self, t, env):
        return self.written(t, env, *t.args[:3])

    def t_edict(self, t, env):
        return ZEROS

    def t_rep(self, t, env):
        return ZEROS if self.filler(t) else self.lift(self.generic_first(t, env))

    def generic_first(self, t, env):
        return self.ty(t.args[0], env)

    def t_scatter(self, t, env):
        b, v, lo, hi, pat, val = t.args
        for q in (lo, hi):
            z = self.ty(q, env)
            if z.k not in ('rep', 'zero'):
                return z if z.k == 'loc' else loc(t, 'the number of rounds differs between ranks')
        return self.written(t, env, b, pat, val)

    def t_scatter2(self, t, env):
        b, v, hi, w, whi, pat, val = t.args
        for q in (hi, whi):
            z = self.ty(q, env)
            if z.k not in ('rep', 'zero'):
                return z if z.k == 'loc' else loc(t, 'the number of rounds differs between ranks')
        return self.written(t, env, b, pat, val)

    def t_listcomp(self, t, env):
        init, v, lo, hi, cond, val = t.args
        for q in (lo, hi, cond):
            if isinstance(q, T.Term):
                z = self.ty(q, env)
                if z.k not in ('rep', 'zero'):
                    return z if z.k == 'loc' else loc(t, 'the number of rounds differs between ranks')
        y = self.lift(self.ty(val, env))
        if init.op == 'list' and not init.args:
            return y
        return self.join(t, self.ty(init, env), y, 'appended to')

    def t_sum(self, t, env):
        v, lo, hi, body = t.args
        for q in (lo, hi):
            z = self.ty(q, env)
            if z.k not in ('rep', 'zero'):
                return z if z.k == 'loc' else loc(t, 'the number of terms differs between ranks')
        return self.ty(body, env)

    def t_rec(self, t, env):
        ps, nexts, inits, x, k = T.rec_parts(t)
        z = self.ty(k, env)
        if z.k not in ('rep', 'zero'):
            return z if z.k == 'loc' else loc(t, 'the number of rounds differs between ranks')
        qs = []
        for j, (p, i) in enumerate(zip(ps, inits)):
            inf = {a: b for a, b in T.info(p).items() if a != 'dims'}
            d = self.dims(i) if T.kind(i) == 'arr' else None
            if d is not None:
                inf.update(dims=tuple(d), ndim=len(d))
            qs.append(T.sym(f'REC{j}_{t.key}', **inf))
        m = dict(zip(ps, qs))
        nexts = [T.subst(nx, m) for nx in nexts]
        ps = qs
        e = dict(env)
        for p, i in zip(ps, inits):
            e[p] = self.ty(i, env)
        first = [e[p] for p in ps]
        for _ in range(10):
            new = []
            for p, i, nx in zip(ps, first, nexts):
                n = self.ty(nx, e)
                new.append(n if i.k == 'zero' else i if n.k == 'zero' else self.join(p, i, n, 'joined with'))
            if all(a == e[p] for a, p in zip(new, ps)):
                break
            e.update(zip(ps, new))
        else:
            raise NotUnderstood(f'recurrence {T.show(t, 2)[:120]}')
        return e[ps[0]]

    def t_ite(self, t, env):
        c, a, b = t.args
        sy = {q for q in T.subterms(c) if q in (RANK, SIZE, NLOC, SLOC)}
        if sy == {SIZE}:
            # a branch taken by a single process only: pieces, partial sums and whole values coincide there
            if T.truth(T.subst(c, {SIZE: ONE})) is T.TRUE and alone(c):
                return self.ty(b, env)
            n = T.not_(c)
            if T.truth(T.subst(n, {SIZE: ONE})) is T.TRUE and alone(n):
                return self.ty(a, env)
        z = self.ty(c, env)
        x, y = self.ty(a, env), self.ty(b, env)
        if z.k == 'shard':
            d = self.dims(t)
            raise NotUnderstood('elementwise choice on distributed data')
        if z.k not in ('rep', 'zero'):
            return z if z.k == 'loc' else loc(t, 'ranks may choose differently')
        return self.join(t, x, y, 'an alternative to')

    # ---- array operations
    def linear(self, t, env):
        return self.ty(t.args[0], env)

    t_conj = t_real = t_imag = t_astype = t_copyof = linear

    def t_abs(self, t, env):
        x = self.ty(t.args[0], env)
        return loc(t, 'a partial sum enters a non-linear expression') if x.k == 'part' else x

    def t_lt0(self, t, env):
        x = self.ty(t.args[0], env)
        return loc(t, 'a partial sum enters a non-linear expression') if x.k == 'part' else loc(t, 'values with different distributions are compared') if x.k == 'mix' else x

    t_le0 = t_eq0 = t_not = t_lt0

    def t_and(self, t, env):
        out = ZEROS
        for c in T.children(t):
            x = self.ty(c, env)
            x = ZEROS if x.k == 'rep' and T.kind(c) != 'arr' else x
            out = self.join(t, out, x, 'combined with')
        return REP if out.k == 'zero' else out

    t_or = t_and

    def t_transpose(self, t, env):
        x = self.ty(t.args[0], env)
        if x.k != 'shard':
            return x
        d = self.dims(t.args[0])
        if d is None:
            raise NotUnderstood(f'shape of {T.show(t.args[0], 3)[:120]}')
        ax = t.args[1]
        if isinstance(ax, T.Term):
            ax = [T.intval(a) for a in ax.args]
        else:
            ax = [a if isinstance(a, int) else T.intval(a) for a in ax]
        ax = list(ax) or list(range(len(d)))[::-1]
        return shard(ax.index(x.ax), x.lay)

    def t_reshape(self, t, env):
        x = self.ty(t.args[0], env)
        if x.k != 'shard':
            if x.k in ('rep', 'zero') and any(self.local(q) for q in T.children(t.args[1])):
                return loc(t, 'replicated data is given a rank-dependent shape')
            return x
        d, e = self.dims(t.args[0]), self.dims(t)
        if d is None or e is None:
            raise NotUnderstood(f'reshape of distributed data: {T.show(t, 3)[:140]}')
        return self.regroup(t, x, d, e)

    def regroup(self, t, x, d, e):
        if x.lay is None:
            ax = [i for i, q in enumerate(e) if self.local(q)]
            return shard(ax[0], None) if len(ax) == 1 else loc(t, 'reshape of distributed data')
        f = list(d[:x.ax]) + list(x.lay[0]) + list(d[x.ax + 1:])
        pos = x.ax + x.lay[1]
        f, pos = [q for i, q in enumerate(f) if q is not ONE or i == pos], sum(1 for i, q in enumerate(f[:pos]) if q is not ONE)
        i = 0
        for k, g in enumerate(e):
            if g is ONE:
                continue
            acc, j = ONE, i
            while j < len(f) and acc is not g:
                acc = T.mul(acc, f[j])
                j += 1
            if acc is not g:
                return loc(t, 'distributed data is reshaped across the distributed axis')
            if i <= pos < j:
                return shard(k, (tuple(f[i:j]), pos - i))
            i = j
        return loc(t, 'distributed data is reshaped across the distributed axis')

    def axes(self, a, n):
        if a is NONE:
            return list(range(n))
        k = T.intval(a)
        if k is not None:
            return [k % n]
        if a.op in ('tuple', 'list'):
            v = [T.intval(q) for q in a.args]
            if None not in v:
                return [q % n for q in v]
        if a.op == 'range1':
            v = [T.intval(q) for q in a.args]
            if None not in v:
                return list(range(*v))
        return None

    def t_red(self, t, env):
        fn, x0 = t.args[:2]
        x = self.ty(x0, env)
        if x.k == 'mix':
            return loc(t, 'a reduction over values with different distributions')
        if x.k == 'part':
            return x if fn in ('sum', 'mean') else loc(t, 'a partial sum enters a non-linear expression')
        if x.k != 'shard':
            return x if x.k == 'loc' else self.generic(t, [self.ty(c, env) for c in T.children(t)])
        d = self.dims(x0)
        if d is None:
            raise NotUnderstood(f'shape of {T.show(x0, 3)[:120]}')
        ax = self.axes(t.args[2], len(d)) if len(t.args) > 2 else list(range(len(d)))
        if ax is None:
            raise NotUnderstood(f'axis of reduction {T.show(t, 3)[:140]}')
        keep = any(isinstance(q, T.Term) and q is T.TRUE for q in t.args[3:])
        if len(t.args) > 3 and not keep:
            raise NotUnderstood(f'reduction {T.show(t, 3)[:140]}')
        if x.ax in ax:
            if fn in ('sum', 'nansum', 'count_nonzero'):
                return PART
            return loc(t, f'{fn} over a distributed axis covers the local range only')
        return shard(x.ax if keep else x.ax - sum(1 for a in ax if a < x.ax), x.lay)

    def product(self, t, ops, out):
        """einsum-like contraction: ops = [(type, letters)], out = letters of the result"""
        sh = {}
        npart = 0
        for x, ls in ops:
            if x.k == 'loc':
                return x
            if x.k == 'zero':
                return ZEROS
            if x.k == 'part':
                npart += 1
            if x.k == 'shard':
                sh.setdefault(ls[x.ax], []).append(x)
        if len(sh) > 1:
            return loc(t, 'a product of data distributed over different axes')
        if npart > 1 or npart and sh:
            return loc(t, 'a partial sum enters a non-linear expression')
        if npart:
            return PART
        if not sh:
            return REP
        (l, xs), = sh.items()
        for x, ls in ops:
            if x.k != 'shard' and l in ls:
                return loc(t, 'the local range of an axis is contracted with the whole axis')
        r = xs[0]
        for x in xs[1:]:
            r = self.same(t, shard(0, r.lay), shard(0, x.lay))
            if r.k == 'loc':
                return r
        return shard(out.index(l), r.lay) if l in out else PART

    def t_matmul(self, t, env):
        acc = None
        for m in t.args:
            x, d = self.ty(m, env), self.dims(m)
            if x.k == 'loc':
                return x
            if d is None:
                if x.k == 'shard':
                    raise NotUnderstood(f'shape of {T.show(m, 3)[:120]}')
                d = [None, None]
            if acc is None:
                acc = (x, len(d))
                continue
            a, n = acc
            nb = len(d)
            batch = ['b%d' % i for i in range(max(n, nb) - 2)]
            la = (batch[len(batch) - (n - 2):] if n > 2 else []) + (['i', 'k'] if n > 1 else ['k'])
            lb = (batch[len(batch) - (nb - 2):] if nb > 2 else []) + (['k', 'j'] if nb > 1 else ['k'])
            out = batch + (['i'] if n > 1 else []) + (['j'] if nb > 1 else [])
            r = self.product(t, [(a, la), (x, lb)], out)
            if r.k == 'loc':
                return r
            acc = (r, len(out))
        return acc[0]

    # ---- library calls
    def t_call(self, t, env):
        f = t.args[0]
        if not isinstance(f, str):
            return self.generic(t, [self.ty(c, env) for c in T.children(t)])
        a = t.args[1:]
        g = f.split('.')[-1]
        if f.startswith('mpi.allreduce'):
            x = self.ty(a[0], env)
            o = a[1].args[0] if len(a) > 1 and a[1].op == 'str' else '?'
            if o.startswith('fn('):
                # merge of local statistics; the merge itself is judged separately
                return REP
            if x.k == 'loc':
                return x
            if o != 'SUM':
                return REP if x.k == 'rep' and o in ('MAX', 'MIN') else loc(t, f'reduced with {o}')
            if x.k in ('part', 'zero'):
                return REP
            return loc(t, 'a value that is not a partial sum is added over the ranks' if x.k == 'rep' else
                       'distributed data is added over the ranks element by element')
        if f == 'einsum':
            spec = a[0] if isinstance(a[0], str) else a[0].args[0]
            ins, out = spec.replace(' ', '').split('->')
            return self.product(t, [(self.ty(q, env), list(ls)) for q, ls in zip(a[1:], ins.split(','))], list(out))
        if g in ('rfft', 'fft', 'ifft', 'irfft', 'argsort', 'sort', 'cumsum', 'real_if_close', 'flip'):
            x = self.ty(a[0], env)
            if x.k == 'shard':
                if g == 'real_if_close':
                    return loc(t, 'the decision whether imaginary parts are dropped is taken by each rank')
                d = self.dims(a[0])
                ax = [q for q in a[1:] if isinstance(q, T.Term)]
                k = self.axes(ax[0], len(d)) if ax and d else ([len(d) - 1] if d else None)
                if k is None:
                    raise NotUnderstood(f'axis of {T.show(t, 3)[:120]}')
                return loc(t, f'{g} along a distributed axis') if x.ax in k else x
            if x.k == 'part':
                return x if g in ('rfft', 'fft', 'ifft', 'irfft', 'cumsum', 'flip') else loc(t, 'a partial sum enters a non-linear expression')
            return x
        if g in ('hstack', 'vstack', 'concatenate', 'stack', 'column_stack', 'row_stack', 'dstack') and a:
            return self.stack(t, g, a, env)
        if g == 'moveaxis' and len(a) == 3:
            x = self.ty(a[0], env)
            if x.k != 'shard':
                return x
            d = self.dims(a[0])
            i, j = T.intval(a[1]), T.intval(a[2])
            if d is None or i is None or j is None:
                raise NotUnderstood('moveaxis')
            p = [q for q in range(len(d)) if q != i % len(d)]
            p.insert(j % len(d), i % len(d))
            return shard(p.index(x.ax), x.lay)
        return self.generic(t, [self.ty(c, env) for c in T.children(t)])

    def stack(self, t, g, a, env):
        l = a[0]
        if l.op in ('list', 'tuple'):
            xs = [self.ty(q, env) for q in l.args]
            ds = [self.dims(q) for q in l.args]
        else:
            # a list given as one value: its elements are along the leading axis
            x = self.ty(l, env)
            if x.k != 'shard':
                return x if x.k != 'mix' else loc(t, 'values with different distributions are joined')
            if x.ax == 0:
                return loc(t, 'a list with one entry per element of the distributed axis')
            d = self.dims(l)
            xs, ds = [shard(x.ax - 1, x.lay)], [None if d is None else d[1:]]
        for x in xs:
            if x.k == 'loc':
                return x
        ks = {x.k for x in xs}
        if ks <= {'rep', 'zero'}:
            return REP if 'rep' in ks else ZEROS
        if ks <= {'part', 'zero'}:
            return PART
        if not ks <= {'shard', 'zero'}:
            return loc(t, 'values with different distributions are joined')
        s = [x for x in xs if x.k == 'shard']
        r = s[0]
        for x in s[1:]:
            r = self.same(t, r, x)
            if r.k == 'loc':
                return r
        nd = next((len(d) for d in ds if d is not None), None)
        if g == 'stack':
            k = T.intval(a[1]) if len(a) > 1 else 0
            if k is None or k < 0 and nd is None:
                raise NotUnderstood('stack axis')
            k = k if k >= 0 else k + nd + 1
            return shard(r.ax + (k <= r.ax), r.lay)
        if g in ('hstack', 'column_stack') and nd is None:
            raise NotUnderstood(f'shape of {T.show(t, 3)[:120]}')
        if g == 'concatenate':
            k = T.intval(a[1]) if len(a) > 1 else 0
        elif g == 'hstack':
            k = 0 if nd == 1 else 1
        elif g in ('vstack', 'row_stack'):
            if nd == 1:
                return shard(1, r.lay)
            k = 0
        elif g == 'column_stack':
            if nd == 1:
                return shard(0, r.lay)
            k = 1
        else:
            raise NotUnderstood(g)
        if k is None:
            raise NotUnderstood('concatenation axis')
        if nd is not None:
            k %= nd
        return loc(t, 'pieces are joined along the distributed axis') if k == r.ax else r
