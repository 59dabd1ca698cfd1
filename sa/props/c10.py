"""C10 block spectral estimate"""
from ._spod import *

LEVEL = 'other'


def configs(ctx):
    out = []
    for mean in ('longtime', 'blockwise', 'zero'):
        out.append((f'real data, one-sided, mean {mean}', dict(mean_type=string(mean)), True, mean, False))
    out.append(('real data, one-sided, normalised data', dict(mean_type=string('blockwise'), normalize_data=TRUE), True, 'blockwise', True))
    out.append(('real data, full spectrum', dict(fullspectrum=TRUE), False, 'longtime', False))
    out.append(('complex data', dict(real=False), False, 'longtime', False))
    return out


def check(ctx):
    ctx.rule('block-spectrum', 'each block spectrum is the DFT of (block - mean) x Hamming window, scaled by 1/(n_dft mean(window)); '
             'the mean removed is the long-time mean, the block mean or zero as requested; normal form of the value stored per '
             '(block, frequency) equals the definition')
    ctx.rule('block-range', 'the spectra are formed for every block index 0..n_blocks-1')
    n = 0
    for name, kw, onesided, mean, norm in configs(ctx):
        r = S.fit(ctx, **kw)
        X = r.val(r.X)
        s = Sizes(r)
        w = spec(r, 'spod', 'window', NDFT)
        m = {'longtime': spec(r, 'spod', 'longtime_mean', X, NT), 'blockwise': ZERO, 'zero': ZERO}[mean]
        t = S.attr(r, '_eigs')
        found = sites(t)
        ctx.need(found, f'no block transform reaches the eigenvalues ({name})')
        for b, v in found:
            ok = None
            for i in sorted(v.fv, key=lambda x: x.key):
                blk = spec(r, 'spod', 'block', X, spec(r, 'spod', 'offset', i, NT, NDFT, s.ovl), NDFT)
                y = T.sub(blk, m)
                if mean == 'blockwise':
                    y = spec(r, 'spod', 'center_block', y)
                if norm:
                    y = spec(r, 'spod', 'normalised', y, NDFT)
                q = spec(r, 'spod', 'one_sided' if onesided else 'two_sided', y, w, NDFT)
                for f in sorted(v.fv, key=lambda x: x.key):
                    if f is i:
                        continue
                    want = T.getitem(q, ix(f))
                    if v is want:
                        ok = i
                    last = want
            if ok is not None:
                ctx.ob('block-spectrum', name, True, T.ORIGIN.get(v))
                n += 1
                ctx.equal('block-range', name, b.args[3] if b.args[1] is ok else s.nb, s.nb, T.ORIGIN.get(b))
            else:
                ctx.equal('block-spectrum', name, v, last, T.ORIGIN.get(v))
