"""C12 frequency axis"""
from ._spod import *
from .. import harness as H

HALF = H.isym('half', 2)


def check(ctx):
    ctx.rule('axis', 'bin k of the reported frequency axis is k/(n_dft dt) below the Nyquist bin and (k - n_dft)/(n_dft dt) above it '
             '(two-sided complex data); 0..floor(n_dft/2) bins for one-sided spectra; 0..n_dft-1 bins when the full spectrum is asked for')
    ctx.rule('bins', 'the number of frequencies used by the decomposition is the length of the axis')
    even, odd = T.mul(num(2), HALF), T.add(T.mul(num(2), HALF), ONE)
    for nm, nd in (('even', even), ('odd', odd)):
        for kind, kw in (('one-sided', {}), ('full', dict(fullspectrum=TRUE)), ('complex', dict(real=False))):
            for cls in ('Standard',):
                r = S.fit(ctx, cls=cls, n_dft=nd, **kw)
                got = S.attr(r, '_freq')
                name = f'{cls}: {kind}, {nm} n_dft'
                site = None
                if kind == 'one-sided':
                    want = [spec(r, 'spod', 'freq_real', nd, DT)]
                elif kind == 'full':
                    want = [spec(r, 'spod', 'freq_full', nd, DT)]
                elif nm == 'even':
                    want = [spec(r, 'spod', 'freq_split', nd, DT, T.add(HALF, ONE)), spec(r, 'spod', 'freq_split', nd, DT, HALF)]
                else:
                    want = [spec(r, 'spod', 'freq_split', nd, DT, T.add(HALF, ONE))]
                if got in want:
                    ctx.ob('axis', name, True, T.ORIGIN.get(got))
                else:
                    ctx.equal('axis', name, got, want[0], site)
                nf = T.add(HALF, ONE) if kind == 'one-sided' else nd
                e = S.attr(r, '_eigs')
                sh = T.shape_of(e)
                n = T.getitem(sh, ix(ZERO))
                ctx.equal('bins', name, n, nf)
                ws = find_npy(r, 'freq_idx_')
                ctx.need(ws, 'no mode file is written')
                for w in ws:
                    ctx.need(w.loops, 'mode files are not written per frequency')
                    ctx.equal('bins', name + ' (mode files)', w.loops[0][1], nf, w.site)
