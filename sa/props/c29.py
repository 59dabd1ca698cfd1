"""C29 emulation: scaling, training sequences, inference"""
from fractions import Fraction as Fr
import hashlib
import itertools
from ._spod import *
from .. import harness as H
from ..harness import Run
from ..small import Small, Nd, lift, integer
from ..ident import Undecided

NTE, NFE, NI, NO, FH = [H.isym(n, 1) for n in ('nt_e', 'nf_e', 'n_in', 'n_out', 'fh')]


class G:
    """complex number with rational parts"""
    __slots__ = ('a', 'b')

    def __init__(self, a, b=0):
        self.a, self.b = Fr(a), Fr(b)

    @staticmethod
    def of(x):
        if isinstance(x, G):
            return x
        if isinstance(x, bool) or not isinstance(x, (int, Fr)):
            raise Undecided('number')
        return G(x)

    def __add__(self, o):
        o = G.of(o)
        return G(self.a + o.a, self.b + o.b)

    def __mul__(self, o):
        o = G.of(o)
        return G(self.a * o.a - self.b * o.b, self.a * o.b + self.b * o.a)

    __radd__, __rmul__ = __add__, __mul__

    def power(self, e):
        e = Fr(e)
        if e.denominator != 1:
            raise Undecided('power')
        r, x = G(1), self
        if e < 0:
            n = x.a * x.a + x.b * x.b
            x, e = G(x.a / n, -x.b / n), -e
        for _ in range(int(e)):
            r = r * x
        return r

    def __eq__(self, o):
        return isinstance(o, (G, Fr, int)) and (self.a, self.b) == (G.of(o).a, G.of(o).b)

    def __hash__(self):
        return hash((self.a, self.b))

    def __repr__(self):
        return f'{self.a}+{self.b}i'


def each(f, v):
    return Nd(v.shape, [f(q) for q in v.data]) if isinstance(v, Nd) else f(v)


def plain(v):
    """comparable value"""
    if isinstance(v, Nd):
        return (v.shape, tuple((G.of(q).a, G.of(q).b) for q in v.data))
    return (G.of(v).a, G.of(v).b)


def predicted(v, n_out):
    """the network: an arbitrary function of its input"""
    h = hashlib.sha256(repr(plain(v)).encode()).digest()
    return Nd((1, n_out * v.shape[2]), [Fr(int.from_bytes(h[:4], 'big') + 7 * i * i, 16) for i in range(n_out * v.shape[2])])


class Cx(Small):
    def with_(self, more):
        f = super().with_(more)
        f.__class__ = Cx
        return f

    def pw(self, z, e):
        if isinstance(z, G):
            return z.power(e)
        if Fr(e).denominator != 1:
            raise Undecided('power')
        return z ** int(e)

    def do_scatter(self, x, go):
        return self.cast(x.args[0], super().do_scatter(x, go))

    def do_store(self, x, go):
        return self.cast(x.args[0], super().do_store(x, go))

    def cast(self, base, v):
        """a real array keeps the real part of what is stored"""
        while base.op in ('store', 'scatter') and isinstance(base.args[0], T.Term):
            base = base.args[0]
        if base.op == 'alloc' and isinstance(v, Nd) and any(isinstance(q, T.Term) and q.op == 'dtype' and str(q.args[0]).startswith(('f', 'i')) for q in base.args):
            return each(lambda q: q.a if isinstance(q, G) else q, v)
        return v

    def hook(self, x, go):
        if x in self.arrays:
            return self.arrays[x]
        if self.extra is not None:
            r = self.extra(self, x)
            if r is not None:
                return r
        op = x.op
        if op == 'iunit':
            return G(0, 1)
        if op == 'poly':
            tot = Fr(0)
            for i, (c, m) in enumerate(x.args[0]):
                p = G(Fr(c.real), Fr(c.imag)) if isinstance(c, complex) else Fr(c)
                for a, e in m:
                    q = go(a)
                    if isinstance(q, tuple):
                        q = Nd((len(q),), q)
                    if e != 1:
                        q = each(lambda z: self.pw(z, e), q)
                    p = lift(lambda s, t: s * t, p, q)
                tot = p if i == 0 else lift(lambda s, t: s + t, tot, p)
            return tot
        if op in ('real', 'imag', 'conj'):
            return each(lambda q: (G.of(q).a if op == 'real' else G.of(q).b if op == 'imag' else G(G.of(q).a, -G.of(q).b)), go(x.args[0]))
        if op == 'setpart':
            b, v = go(x.args[1]), go(x.args[2])
            return lift(lambda p, q: G(G.of(q).a, G.of(p).b) if x.args[0] == 'real' else G(G.of(p).a, G.of(q).a), b, v)
        if op == 'abs':
            def mod(q):
                if isinstance(q, G) and q.b:
                    raise Undecided('modulus')
                return abs(q.a if isinstance(q, G) else q)
            return each(mod, go(x.args[0]))
        if op == 'min0':
            return each(lambda q: min(Fr(0), q) if isinstance(q, Fr) else (_ for _ in ()).throw(Undecided('order')), go(x.args[0]))
        if op == 'transpose' and (len(x.args) < 2 or x.args[1] == () or isinstance(x.args[1], T.Term) and x.args[1].op in ('none', 'tuple') and not x.args[1].args):
            v = go(x.args[0])
            st = v.strides()[::-1]
            sh = v.shape[::-1]
            return Nd(sh, [v.data[sum(i * q for i, q in zip(ii, st))] for ii in itertools.product(*map(range, sh))])
        if op == 'red' and x.args[0] in ('max', 'min'):
            v = go(x.args[1])
            if isinstance(v, Nd) and any(isinstance(q, G) for q in v.data):
                raise Undecided('order')
        if op == 'elem' and x.args[0] in ('max', 'min'):
            f = max if x.args[0] == 'max' else min

            def pick(a, b):
                if isinstance(a, G) or isinstance(b, G):
                    raise Undecided('order')
                return f(a, b)
            v = go(x.args[1])
            for y in x.args[2:]:
                v = lift(pick, v, go(y))
            return v
        if op == 'call' and x.args[0] == 'objitem':
            v, ix = go(x.args[1]), x.args[2:]
            if len(ix) == 1 and ix[0].op in ('ix', 'tuple'):
                ix = ix[0].args
            return self.take(v, ix)
        if op == 'call' and x.args[0] == 'method:predict':
            v = go(x.args[2])
            if not isinstance(v, Nd) or len(v.shape) != 3:
                raise ValueError('input of the network')
            return predicted(v, integer(self.env[NO]))
        return super().hook(x, go)


def network(ctx, dtype, norm=None, **kw):
    r = Run(ctx.repo)
    d = dict(data_type=string(dtype), n_seq_in=NI, n_seq_out=NO, savedir=SAVEDIR, network=string('lstm'))
    if norm:
        d['normalization'] = string(norm)
    r.inst = r.new(r.cls('pyspod.emulation.neural_nets', 'Neural_Nets'), [r.dict(d)], {})
    return r


def done(ctx, r, what):
    ctx.track(r.ip)
    ctx.need(not r.ip.unknown, f'{what}: {r.ip.unknown[:1]}')


def data(nf, nt, real, z=0):
    q = [Fr((i * 7 + 3 * j * j + 5 * z) % 23 - 9, 4) + Fr(i + 1, 7) for i in range(nf) for j in range(nt)]
    if real:
        return Nd((nf, nt), q)
    return Nd((nf, nt), [G(a, Fr((k * k + 3 * z) % 17 - 8, 3) + Fr(1, 5)) for k, a in enumerate(q)])


def part(v, p):
    return each(lambda q: G.of(q).a if p == 'real' else G.of(q).b, v)


def column(m, t):
    return [m.data[i * m.shape[1] + t] for i in range(m.shape[0])]


def sequences(m, ni, no, fh):
    nf, nt = m.shape
    n = nt - ni - no - fh + 1
    x = [q for t in range(n) for s in range(ni) for q in column(m, t + s)]
    y = [q for t in range(n) for s in range(no) for q in column(m, t + ni - 1 + fh + s)]
    return Nd((n, ni, nf), x), Nd((n, no * nf), y)


def scales(m, norm, real):
    nf, nt = m.shape
    parts = [part(m, 'real')] + ([] if real else [part(m, 'imag')])
    out = []
    for i in range(nf):
        vs = []
        for p in parts:
            row = [abs(q) for q in p.data[i * nt:(i + 1) * nt]]
            vs.append(10 * max(row) if norm == 'localmax' else max(abs(q) for q in p.data) if norm == 'globalmax' else Fr(1))
        out.append(vs[0] if real else G(*vs))
    return Nd((nf,), out)


def check(ctx):
    ctx.rule('scaler', 'the scale of a row is ten times its largest modulus, the largest modulus of all rows, or one; real and imaginary part apart')
    ctx.rule('scale', 'scaling divides, descaling multiplies, each part by its scale, and the two are inverse to each other')
    ctx.rule('sequences', 'sequence t starts at snapshot t; its target are the n_seq_out snapshots that end its horizon')
    ctx.rule('horizon', 'a horizon below one is rejected')
    ctx.rule('training', 'the network for each part is trained with the sequences of that part and stored under its name and id')
    ctx.rule('inference', 'the first n_seq_in snapshots are the input, every later stretch is predicted from the n_seq_in snapshots of the input before it, with the weights of its part')
    ctx.rule('short input', 'an input shorter than a sequence is rejected')
    n = 0

    def sm(r, m, **env):
        e = {NTE: Fr(m.shape[1]), NFE: Fr(m.shape[0])}
        e.update({dict(ni=NI, no=NO, fh=FH)[k]: Fr(v) for k, v in env.items()})
        return Cx(e, arrays={r.val(r.D): m})

    def value(s, t):
        try:
            return s(t)
        except (IndexError, ValueError, KeyError, ZeroDivisionError) as e:
            return f'{type(e).__name__}: {e}'

    def same(a, b):
        return isinstance(a, Nd) and isinstance(b, Nd) and plain(a) == plain(b)

    # ---- scaling
    for real in (True, False):
        for norm in ('localmax', 'globalmax', 'none', None):
            k = f"{'real' if real else 'complex'} data, {norm or 'default'}"
            r = network(ctx, 'real' if real else 'complex', norm)
            r.D = r.arr('D', 2, dims=(NFE, NTE), real=real)
            v = r.call(r.method(r.inst, 'scaler'), [r.D])
            r.V = r.arr('V', 1, dims=(NFE,), real=real)
            s1 = r.call(r.method(r.inst, 'scale_data'), [r.D], {'vec': r.V})
            d1 = r.call(r.method(r.inst, 'descale_data'), [r.D], {'vec': r.V})
            dd = r.call(r.method(r.inst, 'descale_data'), [s1], {'vec': r.V})
            done(ctx, r, k)
            for nf, nt, z in ((1, 1, 0), (2, 3, 1), (3, 2, 2), (3, 5, 3)):
                m = data(nf, nt, real, z)
                s = sm(r, m)
                w = scales(m, norm or 'localmax', real)
                g = value(s, r.val(v))
                ctx.ob('scaler', f'{k}, {nf} x {nt}, {z}', same(g, w), 'pyspod/emulation/base.py:scaler', f'{g} instead of {w}')
                s.arrays[r.val(r.V)] = w
                s.memo.clear()

                def apply(f):
                    out = []
                    for i in range(nf):
                        for q in m.data[i * nt:(i + 1) * nt]:
                            a, b = G.of(q), G.of(w.data[i])
                            out.append(f(a.a, b.a) if real else G(f(a.a, b.a), f(a.b, b.b)))
                    return Nd((nf, nt), out)
                for nm, t, want in (('scaled', s1, apply(lambda a, b: a / b)), ('descaled', d1, apply(lambda a, b: a * b)), ('scaled and descaled', dd, m)):
                    g = value(s, r.val(t))
                    ctx.ob('scale', f'{k}, {nf} x {nt}, {z}, {nm}', same(g, want), 'pyspod/emulation/base.py:scale_data', f'{g} instead of {want}')
                n += 4
    # ---- sequences
    for real in (True,):
        r = network(ctx, 'real')
        r.D = r.arr('D', 2, dims=(NFE, NTE), real=True)
        r.call(r.method(r.inst, 'model_initialize'), [r.D])
        xy = r.val(r.call(r.method(r.inst, 'extract_sequences'), [r.D], {'fh': FH}))
        done(ctx, r, 'sequences')
        for nf, nt, ni, no, fh in ((1, 4, 1, 1, 1), (2, 9, 3, 2, 1), (2, 9, 2, 3, 2), (3, 11, 4, 1, 3), (2, 12, 1, 4, 1), (1, 8, 3, 3, 2)):
            m = data(nf, nt, True)
            s = sm(r, m, ni=ni, no=no, fh=fh)
            g = value(s, xy)
            w = sequences(m, ni, no, fh)
            ok = isinstance(g, tuple) and len(g) == 2 and all(same(a, b) for a, b in zip(g, w))
            ctx.ob('sequences', f'{nf} x {nt}, {ni} in, {no} out, {fh} ahead', ok, 'pyspod/emulation/neural_nets.py:extract_sequences', f'{g} instead of {w}')
            n += 1
        r = network(ctx, 'real')
        r.D = r.arr('D', 2, dims=(NFE, NTE), real=True)
        r.call(r.method(r.inst, 'model_initialize'), [r.D])
        r.call(r.method(r.inst, 'extract_sequences'), [r.D], {'fh': num(0)})
        es = always_raises(r)
        ctx.ob('horizon', 'fh = 0', bool(es), es[0].site if es else 'pyspod/emulation/neural_nets.py:extract_sequences', 'no exception is raised')
    # ---- training and inference
    for real in (True, False):
        parts = ['real'] + ([] if real else ['imag'])
        k = f"{'real' if real else 'complex'} data"
        for idx in (0, 3):
            r = network(ctx, 'real' if real else 'complex')
            r.D = r.arr('D', 2, dims=(NFE, NTE), real=real)
            r.E = r.arr('E', 2, dims=(NFE, NTE), real=real)
            r.call(r.method(r.inst, 'model_initialize'), [r.D])
            a = len(r.ip.effects)
            r.call(r.method(r.inst, 'model_train'), [r.D, r.E], {'idx': num(idx)} if idx else {})
            b = len(r.ip.effects)
            out = r.val(r.call(r.method(r.inst, 'model_inference'), [r.D], {'idx': num(idx)} if idx else {}))
            done(ctx, r, k)
            tr, inf = r.ip.effects[a:b], r.ip.effects[b:]

            def fname(e):
                p = T.pathnorm(e.args['args'][0]) if e.args['args'] else T.pathnorm(dict(e.args['kwargs'])['filepath'])
                return p.args[-1].args[0] if p.op == 'path' and len(p.args) == 2 and p.args[0] is SAVEDIR and p.args[-1].op == 'str' else T.show(p, 4)
            cps = [e for e in tr if e.kind == 'lib' and e.name.endswith('ModelCheckpoint')]
            fits = [e for e in tr if e.kind == 'lib' and e.name.endswith('.fit')]
            what = f'{k}, id {idx}'
            ctx.ob('training', what + ', files', [fname(e) for e in cps] == [f'{p}{idx}.weights.h5' for p in parts] and len(fits) == len(parts)
                   and all(c.seq < f.seq for c, f in zip(cps, fits)), cps[0].site if cps else 'pyspod/emulation/neural_nets.py:_train', f'{[fname(e) for e in cps]}')
            for p, f in zip(parts, fits):
                kw = f.args['kwargs']
                for nf, nt, ni, no in ((2, 7, 2, 1), (1, 8, 1, 3), (3, 9, 3, 2)):
                    m, m2 = data(nf, nt, real), data(nf, nt, real, 4)
                    s = sm(r, m, ni=ni, no=no)
                    s.arrays[r.val(r.E)] = m2
                    vd = kw.get('validation_data')
                    got = [value(s, kw[q]) if q in kw else None for q in ('x', 'y')] + list((lambda z: z if isinstance(z, tuple) else (None, None))(value(s, vd)) if isinstance(vd, T.Term) else (None, None))
                    want = list(sequences(part(m, p), ni, no, 1)) + list(sequences(part(m2, p), ni, no, 1))
                    ctx.ob('training', f'{what}, {p}, {nf} x {nt}, {ni} in, {no} out', all(same(g, w) for g, w in zip(got, want)), f.site, 'the network is not trained with the sequences of its part')
                    n += 1
            lw = [e for e in inf if e.kind == 'lib' and e.name.endswith('load_weights')]
            pr = [e for e in inf if e.kind == 'lib' and e.name.endswith('.predict')]
            ok = len(lw) == len(pr) == len(parts) and [fname(e) for e in lw] == [f'{p}{idx}.weights.h5' for p in parts] and all(not e.loops for e in lw)
            ok = ok and all(l.seq < p.seq for l, p in zip(lw, pr)) and all(p.seq < l.seq for p, l in zip(pr, lw[1:]))
            ctx.ob('inference', what + ', weights', ok, lw[0].site if lw else 'pyspod/emulation/neural_nets.py:model_inference', f'weights loaded: {[fname(e) for e in lw]}')
            es = [e for e in inf if e.kind == 'raise']
            for ni, nt in ((3, 2), (3, 3), (3, 4), (1, 1)):
                s = sm(r, Nd((1, nt), [Fr(1)] * nt), ni=ni, no=1)
                rej = any(value(s, e.guard) is True for e in es if not e.loops)
                ctx.ob('short input', f'{what}, {nt} snapshots for sequences of {ni}', rej == (nt < ni), es[0].site if es else 'pyspod/emulation/neural_nets.py:model_inference', 'accepted' if nt < ni else 'rejected')
            for nf, nt, ni, no in ((1, 4, 1, 1), (2, 7, 3, 2), (2, 8, 2, 2), (2, 9, 2, 4), (1, 5, 5, 2), (3, 6, 1, 3), (2, 7, 2, 9)):
                m = data(nf, nt, real)
                s = sm(r, m, ni=ni, no=no)
                g = value(s, out)
                w = [[G.of(q) for q in column(m, t)] for t in range(ni)]
                for t in range(ni, nt, no):
                    ps = []
                    for p in parts:
                        mp = part(m, p)
                        ps.append(predicted(Nd((1, ni, nf), [q for q2 in range(t - ni, t) for q in column(mp, q2)]), no).data)
                    for j in range(min(no, nt - t)):
                        w.append([G(ps[0][j * nf + i], ps[1][j * nf + i] if len(ps) > 1 else 0) for i in range(nf)])
                w = Nd((nf, nt), [w[t][i] for i in range(nf) for t in range(nt)])
                ctx.ob('inference', f'{what}, {nf} x {nt}, {ni} in, {no} out', same(g, w), 'pyspod/emulation/neural_nets.py:model_inference', f'{str(g)[:300]} instead of {w}')
                n += 1
    ctx.floor('instances compared', n, 100)
