"""C11 long-time mean"""
from ._spod import *
from .. import harness as H

N1, N2, N3 = H.isym('n1', 1), H.isym('n2', 1), H.isym('n3', 1)
NCFG = dict(par=True, data=['a.nc', 'b.nc'], variables=['u'], savefreq_disk=FALSE, savefreq_disk2=TRUE)


def saved(r):
    ws = [e for e in r.ip.effects if e.kind == 'write' and e.name == 'npy' and 'ltm' in T.show(e.args['path'], 6)]
    return ws


def flat(t):
    """value up to a reshape"""
    s, x = T.split_scalar(t)
    if x.op == 'reshape':
        x = x.args[0]
    return T.mul(s, x)


def check(ctx):
    ctx.rule('mean', 'the long-time mean (used for centring and stored) is the sum over all snapshots, each counted once, divided by their number')
    ctx.rule('stored', 'the stored long-time mean is that mean in the spatial and variable shape of the data')
    ctx.rule('chunks', 'with data streamed in from files, every received chunk enters the mean exactly once')
    ctx.rule('unknown-type', 'an unrecognised mean type is rejected')
    for name, kw in (('real data', {}), ('complex data', dict(real=False)), ('1-d space', dict(xd=1)), ('3-d space', dict(xd=3)),
                     ('single variable', dict(var=False)), ('block mean removed', dict(mean_type=string('blockwise'))),
                     ('no mean removed', dict(mean_type=string('zero'))), ('streaming', dict(cls='Streaming')),
                     ('streaming, complex data', dict(cls='Streaming', real=False))):
        r = S.fit(ctx, **kw)
        X = r.val(r.X)
        want = T.div(T.red('sum', X, ZERO), NT)
        xd = kw.get('xd', 2)
        shape = NX[:xd] + ([NV] if kw.get('var', True) else [ONE])
        if kw.get('cls') != 'Streaming' and 'mean_type' not in kw:
            g = flat(S.attr(r, '_t_mean'))
            ctx.equal('mean', name, g, flat(want), T.ORIGIN.get(g))
        ws = saved(r)
        ctx.need(ws, 'no long-time mean is stored')
        for e in ws:
            v = e.args['value']
            ctx.equal('stored', name, v, T.reshape(want, mk('tuple', *shape)), e.site)
    for par in (False, True):
        for name, arrs, tot in (('two arrays', [('XA', N1), ('XB', N2)], T.add(N1, N2)),
                                ('three arrays', [('XA', N1), ('XB', N2), ('XC_', N3)], T.add(N1, N2, N3))):
            if par and len(arrs) == 3:
                continue
            r = S.fit(ctx, data=arrs, par=par)
            xs = [T.sym(a, kind='arr', ndim=4, real=True, dims=(n, *NX[:2], NV), dt='f8') for a, n in arrs]
            cc = spec(r, 'spod', 'concat2' if len(arrs) == 2 else 'concat3', *xs, *[n for _, n in arrs], mk('tuple', *NX[:2], NV))
            want = T.reshape(T.div(T.red('sum', cc, ZERO), tot), mk('tuple', *NX[:2], NV))
            for e in saved(r):
                for k in (range(3) if par else (None,)):
                    v = e.args['value']
                    ctx.equal('stored', name + (f', distributed over axis {k}' if par else ''), erase(v, k) if par else v, want, e.site)
    for real in (True, False):
        r = S.fit(ctx, par=True, real=real)
        X = r.val(r.X)
        want = T.div(T.red('sum', X, ZERO), NT)
        for k in range(3):
            n = f"distributed over axis {k}, {'real' if real else 'complex'} data"
            g = erase(S.attr(r, '_t_mean'), k)
            ctx.equal('mean', n, flat(g), flat(want), T.ORIGIN.get(g))
            for e in saved(r):
                ctx.equal('stored', n, erase(e.args['value'], k), T.reshape(want, mk('tuple', *NX[:2], NV)), e.site)
    r = S.fit(ctx, **NCFG)
    m = S.attr(r, '_lt_mean')
    sums = [s for s in T.subterms(m) if s.op == 'sum']
    ctx.need(sums, 'the mean of chunked data is not a sum over chunks')
    for s in sums:
        d = [x for x in T.subterms(s.args[-1]) if x.op == 'rec' and T.kind(x) == 'dict' or x.op == 'rec']
        ctx.need(d, 'the mean of chunked data does not read the chunk store')
        D = d[0]
        v = s.args[0]
        want = T.red('sum', T.getitem(T.getitem(D, T.getitem(mk('keys', D), v)), string('v')), ZERO)
        ctx.equal('chunks', 'values summed', s.args[-1], want, T.ORIGIN.get(s))
        ctx.equal('chunks', 'chunks visited', s.args[2], mk("len", D), T.ORIGIN.get(s))
    r = S.fit(ctx, mean_type=string('no-such-mean'))
    rs = [e for e in r.ip.effects if e.kind == 'raise']
    ctx.ob('unknown-type', 'mean type', any(e.kind == 'raise' for e in rs), None, 'no exception')
