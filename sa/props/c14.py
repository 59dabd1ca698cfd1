"""C14 one-sided energy and confidence bounds"""
from ._spod import *
from .c12 import HALF


def check(ctx):
    ctx.rule('one-sided', 'eigenvalues of a one-sided spectrum are doubled at every bin except zero and Nyquist (odd n_dft: no Nyquist bin), '
             'those of a two-sided spectrum at none')
    ctx.rule('confidence', 'saved bounds are eigenvalues x 2 n_blocks / chi-square quantile with 2 n_blocks degrees of freedom: '
             'upper from quantile 1 - conf_level, lower from conf_level')
    even, odd = T.mul(num(2), HALF), T.add(T.mul(num(2), HALF), ONE)
    for nm, nd in (('even', even), ('odd', odd)):
        for kind, kw in (('one-sided', {}), ('full spectrum', dict(fullspectrum=TRUE)), ('complex data', dict(real=False))):
            r = S.fit(ctx, n_dft=nd, **kw)
            name = f'{kind}, {nm} n_dft'
            ovl = spec(r, 'spod', 'overlap', nd, OVL)
            nb = spec(r, 'spod', 'n_blocks', NT, nd, ovl)
            nf = T.add(HALF, ONE) if kind == 'one-sided' else nd
            E = S.attr(r, '_eigs')
            L = ordered_eigs(E, nf, nb)
            ctx.need(L is not None, 'no ordered eigenvalue table inside the reported eigenvalues')
            q = T.sym('LAMBDA_' + nf.key[:6] + nb.key[:6], kind='arr', ndim=2, real=False, complex=True, dims=(nf, nb), dt='c16')
            got = T.subst(E, {L: q})
            if kind == 'one-sided':
                want = spec(r, 'spod', 'doubled', q, ONE, HALF if nm == 'even' else T.add(HALF, ONE))
            else:
                want = T.tabs(q)
            ctx.equal('one-sided', name, got, want)
            zs = saved_npz(r, 'eigs_c_u')
            ctx.need(zs, 'no archive with the upper confidence bound is written')
            for e, items in zs:
                e_sym = T.sym('EIGS_' + nf.key[:6] + nb.key[:6], kind='arr', ndim=2, real=True, dims=(nf, nb), dt='f8')
                for key, qn in (('eigs_c_u', T.sub(ONE, CONF)), ('eigs_c_l', CONF)):
                    g = T.subst(items[key], {E: e_sym})
                    w = spec(r, 'spod', 'bound', e_sym, nb, qn)
                    ctx.equal('confidence', f'{key}: {name}', g, w, e.site)


def saved_npz(r, key):
    out = []
    for e in r.ip.effects:
        if e.kind == 'write':
            it = e.args.get('items') or {}
            if key in it:
                out.append((e, it))
    return out
