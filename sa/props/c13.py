"""C13 CSD eigen-decomposition and modes"""
from ._spod import *


def check(ctx):
    ctx.rule('eigenvalues', 'reported eigenvalues at frequency f are the eigenvalues of Q_f^H W Q_f / n_blocks (Q_f: block spectra as '
             'columns, W: weights), in decreasing order')
    ctx.rule('modes', 'modes at f are Q_f psi / sqrt(n_blocks lambda), psi permuted like lambda, the leading n_modes_save of them, '
             'in the spatial shape of the data')
    for name, kw, full in (('real data', {}, False), ('full spectrum', dict(fullspectrum=TRUE), True),
                           ('complex data', dict(real=False), True), ('3-d space', dict(xd=3), False), ('single variable', dict(var=False), False)):
        r = S.fit(ctx, **kw)
        s = Sizes(r)
        xd = kw.get('xd', 2)
        nv = NV if kw.get('var', True) else ONE
        shape = [*NX[:xd], nv]
        nx = T.mul(*shape)
        nf = NDFT if full else s.nfreq1
        q = qsym(s.nb, nf, nx)
        got = cut(S.attr(r, '_eigs'), q)
        W = r.val(r.W)
        L = spec(r, 'spod', 'csd_eigs', q, W, nf, s.nb, nx)
        # the one-sided doubling is the subject of C14: look at the ordered table inside
        body = ordered_eigs(got, nf, s.nb)
        ctx.need(body is not None, 'no ordered eigenvalue table inside the reported eigenvalues')
        ctx.equal('eigenvalues', name, body, L)
        ws = find_npy(r, 'freq_idx_')
        ctx.need(ws, 'no mode file is written')
        nsave = S.attr(r, '_n_modes_save')
        for e in ws:
            f = e.loops[0][0]
            phi = spec(r, 'spod', 'csd_modes', q, W, nf, s.nb, nx, f, nsave)
            want = T.reshape(phi, mk('tuple', *shape, nsave))
            g = cut(e.args['value'], q)
            ctx.equal('modes', name, g, want, e.site)
