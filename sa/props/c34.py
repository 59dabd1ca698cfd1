"""C34 proper orthogonal decomposition"""
from ._spod import *
from ._sums import whole
from .c17 import nx, one, key
from .c11 import N1, N2, N3
from .. import harness as H

PU = 'pyspod.pod.utils'
ORDERS = ('by_general', 'by_general_neg', 'by_hermitian', 'by_hermitian_sorted')


def any_of(ctx, rule, name, got, wants, site):
    from .. import pw
    for w in wants[1:]:
        if got is w or pw.same(got, w):
            return ctx.ob(rule, name, True, site)
    ctx.equal(rule, name, got, wants[0], site)


def check(ctx):
    ctx.rule('eigs', 'the stored eigenvalues are those of D^H W D, D the fluctuations about the time mean, in descending order')
    ctx.rule('modes', 'the stored modes are real(D V) / sqrt(eigenvalue), V the eigenvectors in the same order, the first min(n_modes_save, nt) of them')
    ctx.rule('coeffs', 'the stored coefficients are Phi^T W (X - mean)')
    ctx.rule('modes_r', 'the modes stored with the coefficients are the stored modes')
    ctx.rule('ltm', 'the mean stored with the coefficients is the time mean of the data')
    ctx.rule('stored once', 'each artefact is written exactly once')
    ctx.rule('unknown-type', 'an unrecognised mean type is rejected')
    for name, kw in (('single variable', {}), ('several variables', dict(nv=NV)), ('1-d space', dict(xd=1)), ('3-d space', dict(xd=3, nv=NV)),
                     ('all modes', dict(n_modes_save=None)), ('two arrays', dict(nv=NV, data=[('XA', N1), ('XB', N2)])),
                     ('three arrays', dict(nv=NV, data=[('XA', N1), ('XB', N2), ('XC_', N3)])),
                     ('no weights', dict(weights=False))):
        r = S.pod(ctx, **kw)
        ctx.need(not r.ip.unknown, f'{name}: {r.ip.unknown[:1]}')
        xd, nv = kw.get('xd', 2), kw.get('nv', num(1))
        n_x = nx(xd, nv)
        if 'data' in kw:
            xs = [T.sym(a, kind='arr', ndim=4, real=True, dims=(n, *NX[:2], NV), dt='f8') for a, n in kw['data']]
            ns = [n for _, n in kw['data']]
            nt = T.add(*ns)
            X = spec(r, 'spod', f'concat{len(ns)}', *xs, *ns, mk('tuple', *NX[:2], NV))
        else:
            X, nt = r.val(r.X), NT
        W = r.val(r.W) if kw.get('weights', True) else T.alloc('ones', mk('tuple', *NX[:xd], nv), mk('dtype', string('f8')))
        n = spec(r, 'pod', 'count', nt, NSAVE if 'n_modes_save' not in kw else num(10 ** 10))
        q = spec(r, 'pod', 'correlation', X, W, nt, n_x)
        forms = [spec(r, 'pod', o, q) for o in ORDERS]
        zs = [e for e in r.ip.effects if e.kind == 'write' and e.name == 'npz']
        ctx.need(zs, f'{name}: eigenvalues are not written')
        e = zs[-1]
        any_of(ctx, 'eigs', f'{name}', whole(e.args['items']['eigs']), [T.getitem(f, ix(ZERO)) for f in forms], e.site)
        ws = [e for e in find_npy(r, 'modes.npy') if e.name == 'npy']
        ctx.need(ws, f'{name}: modes are not written')
        e = ws[-1]
        shape = mk('tuple', *NX[:xd], nv, n)
        any_of(ctx, 'modes', name, whole(e.args['value']),
               [spec(r, 'pod', 'modes', X, W, nt, n_x, T.getitem(f, ix(ZERO)), T.getitem(f, ix(ONE)), n, shape) for f in forms], e.site)
    for name, kw in (('single variable', dict(nv=num(1))), ('several variables', {}), ('1-d space', dict(xd=1)), ('3-d space', dict(xd=3)),
                     ('sub-folder', dict(savedir=string('sub')))):
        xd, nv = kw.get('xd', 2), kw.get('nv', NV)
        r = S.util(ctx, PU, 'compute_coeffs_op', disk=dict(pod=True), **kw)
        ctx.need(not r.ip.unknown, f'{name}: {r.ip.unknown[:1]}')
        dk, X = r.disk, r.val(r.X)
        n_x = nx(xd, nv)
        e = one(ctx, r, 'coeffs.npy')
        P = dk.PMODES
        n = T._dims(P)[-1]
        ctx.equal('coeffs', name, e.args['value'], spec(r, 'pod', 'coeffs', P, dk.W, X, NT, n_x, n), e.site)
        e = one(ctx, r, 'modes_r.npy')
        ctx.equal('modes_r', name, e.args['value'], P, e.site)
        e = one(ctx, r, 'ltm.npy')
        ctx.equal('ltm', name, e.args['value'], T.reshape(T.div(T.red('sum', X, ZERO), NT), mk('tuple', *NX[:xd], nv)), e.site)
    r = S.pod(ctx, mean_type=string('no-such-mean'))
    ctx.ob('unknown-type', 'mean type', any(e.kind == 'raise' for e in r.ip.effects), None, 'no exception')
