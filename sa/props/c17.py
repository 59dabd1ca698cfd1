"""C17 expansion coefficients"""
from ._spod import *
from .. import harness as H

U = 'pyspod.spod.utils'
TLB = T.sym('T_lb', real=True, pos=True)
TUB = T.sym('T_ub', real=True, pos=True)
TOL = T.sym('tol', real=True, pos=True)
NFR = H.NF


def nx(xd, nv):
    n = ONE
    for d in NX[:xd]:
        n = T.mul(n, d)
    return T.mul(n, nv)


def one(ctx, r, part):
    ws = [e for e in find_npy(r, part) if e.name == 'npy']
    ctx.need(ws, f'{part} is not written')
    ctx.ob('stored once', part, len(ws) == 1, ws[0].site, f'{len(ws)} writes of {part}')
    return ws[-1]


def params_of(ctx, r):
    ws = [e for e in find_npy(r, 'params_coeffs.yaml') if e.name == 'yaml']
    ctx.need(ws, 'params_coeffs.yaml is not written')
    return ws[-1]


def key(d, k):
    """value stored under a literal key of a written dictionary"""
    return T.getitem(d, ix(string(k)))


def check(ctx):
    ctx.rule('coeffs', 'the stored coefficients are (P^H W P)^+ P^H W (X - mean), P the stored modes of the selected frequencies')
    ctx.rule('conv', 'the convolution coefficients are the weighted inner products of the modes with the centred windowed transform')
    ctx.rule('modes_r', 'the modes stored with the coefficients are the modes the coefficients belong to, column by column')
    ctx.rule('ltm', 'the mean stored with the coefficients is the mean that was subtracted')
    ctx.rule('params', 'the stored parameters name the frequency range that was used')
    ctx.rule('range', 'period bounds select the frequencies nearest to 1/T_ub ... 1/T_lb, explicit ids select exactly these, no bounds all')
    ctx.rule('stored once', 'each artefact is written exactly once')
    cfgs = [('all frequencies', {}, 'pinv'), ('all frequencies, svd', dict(svd=TRUE, tol=TOL), 'svd'), ('pseudo-inverse tolerance', dict(tol=TOL), 'pinv'),
            ('period bounds', dict(T_lb=TLB, T_ub=TUB), 'pinv'), ('single variable', dict(nv=num(1)), 'pinv'), ('1-d space', dict(xd=1), 'pinv'),
            ('3-d space', dict(xd=3), 'pinv'), ('two frequencies', dict(freq_idx=[5, 2]), 'pinv'), ('one frequency', dict(freq_idx=[3]), 'pinv'),
            ('sub-folder', dict(savedir=string('sub')), 'pinv')]
    for fn in ('compute_coeffs_op', 'compute_coeffs_conv'):
        for name, kw, inv in cfgs:
            kw = dict(kw)
            conv = fn.endswith('conv')
            if conv and ('svd' in kw or 'tol' in kw or 'freq_idx' in kw):
                continue
            xd, nv = kw.get('xd', 2), kw.get('nv', NV)
            ids = kw.get('freq_idx')
            if ids is not None:
                kw['freq_idx'] = (lambda l: (lambda r: r.list([num(i) for i in l])))(ids)
                kw['args'] = (NONE,)
                kw['tol'] = TOL
            r = S.util(ctx, U, fn, **kw)
            dk, X = r.disk, r.val(r.X)
            tol = kw.get('tol', T.div(ONE, num(10 ** 10)))
            n_x = nx(xd, nv)
            lo, hi = ZERO, T.sub(NFR, ONE)
            if 'T_lb' in kw:
                lo, hi = (spec(r, 'coeffs', 'nearest', dk.FREQ, T.div(ONE, t)) for t in (TUB, TLB))
            if ids is not None:
                lo, hi = num(min(ids)), num(max(ids))
            n = T.add(T.sub(hi, lo), ONE) if ids is None else num(len(ids))
            tag = f'{fn}: {name}'
            sp = mk('tuple', *NX[:xd], nv)
            if conv:
                P = spec(r, 'coeffs', 'basis3_range', dk.MODES, lo, n, mk('tuple', *NX[:xd], nv, n, NSAVE), n_x, NSAVE)
                a = spec(r, 'coeffs', 'convolution', dk.MODES, lo, n, dk.W, X, NT, n_x, NDFT, NSAVE)
            else:
                P0 = spec(r, 'coeffs', 'basis', dk.MODES, mk('tuple', *[num(i) for i in ids]), n_x, NSAVE) if ids is not None else \
                    spec(r, 'coeffs', 'basis_range', dk.MODES, lo, n, n_x, NSAVE)
                P = T.reshape(P0, mk('tuple', *NX[:xd], nv, T.mul(n, NSAVE)))
                a = spec(r, 'coeffs', 'project_' + inv, P0, dk.W, X, NT, n_x, tol)
            e = one(ctx, r, 'coeffs.npy')
            ctx.equal('conv' if conv else 'coeffs', tag, e.args['value'], a, e.site)
            e = one(ctx, r, 'modes_r.npy')
            ctx.equal('modes_r', tag, e.args['value'], P, e.site)
            e = one(ctx, r, 'ltm.npy')
            ctx.equal('ltm', tag, e.args['value'], T.reshape(T.div(T.red('sum', X, ZERO), NT), sp), e.site)
            e = params_of(ctx, r)
            d = e.args['value']
            for k, want in (('freq_idx_lb', lo), ('freq_idx_ub', hi), ('n_freq_r', n), ('n_modes_save', NSAVE),
                            ('freq_lb', T.getitem(dk.FREQ, ix(lo))), ('freq_ub', T.getitem(dk.FREQ, ix(hi)))):
                ctx.equal('params', f'{tag}: {k}', key(d, k), want, e.site)
    r = S.util(ctx, U, 'compute_coeffs_op', T_lb=TLB)
    ctx.equal('range', 'only one period bound', key(params_of(ctx, r).args['value'], 'freq_idx_ub'), T.sub(NFR, ONE), None)
