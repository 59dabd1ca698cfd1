"""C09 segmentation of the record into overlapping blocks"""
from ._spod import *
from .. import lin


def block_slices(t, X):
    out = []
    for b, v in sites(t):
        for f in T.subterms(v):
            if is_fft(f):
                for g in T.subterms(f):
                    if g.op == 'getitem' and g.args[0] is X and g.args[1].args and g.args[1].args[0].op == 'sl':
                        s = g.args[1].args[0]
                        for i in s.fv & v.fv:
                            out.append((b, v, g, s, i))
    return out


def check(ctx):
    ctx.rule('overlap', 'n_overlap = ceil(n_dft x overlap / 100) snapshots')
    ctx.rule('count', 'n_blocks = floor((nt - n_overlap) / (n_dft - n_overlap))')
    ctx.rule('length', 'each block has exactly n_dft consecutive snapshots')
    ctx.rule('inside', 'no block reaches outside snapshots 0..nt-1')
    ctx.rule('first', 'the first block starts at snapshot 0')
    ctx.rule('step', 'consecutive blocks start n_dft - n_overlap snapshots apart')
    ctx.rule('maximal', 'a further block would not fit into the record')
    for name, kw in (('one-sided', {}), ('two-sided', dict(fullspectrum=TRUE)), ('1-d space', dict(xd=1)),
                     ('3-d space', dict(xd=3)), ('single variable', dict(var=False))):
        r = S.fit(ctx, **kw)
        s = Sizes(r)
        nb_got = S.attr(r, '_n_blocks')
        ov_got = S.attr(r, '_n_overlap')
        ctx.equal('overlap', name, ov_got, s.ovl)
        ctx.equal('count', name, nb_got, s.nb)
        X = r.val(r.X)
        found = block_slices(S.attr(r, '_eigs'), X)
        ctx.need(found, f'no block of the data reaches the transform ({name})')
        for b, v, g, sl_, i in found:
            site = T.ORIGIN.get(g)
            lo, hi, st = sl_.args
            nb = b.args[3] if b.args[1] is i else nb_got
            step = T.sub(NDFT, ov_got)
            h = [i, T.sub(T.sub(nb, ONE), i), T.sub(step, ONE), T.sub(NDFT, num(4)), ov_got, T.sub(nb, num(2)), T.sub(NT, ONE)]
            prods = [(T.sub(T.sub(nb, ONE), i), T.sub(step, ONE)), (i, T.sub(step, ONE))]
            if hi is END:
                hi = NT
            ctx.ob('length', name, st is ONE and T.sub(hi, lo) is NDFT, site, f'slice {T.show(sl_, 6)}')
            ctx.ob('inside', name, lin.prove(lo, h, prods) and lin.prove(T.sub(NT, hi), h, prods), site, f'slice {T.show(sl_, 6)}')
            z = {i: ZERO}
            h0 = [T.subst(x, z) for x in h]
            ctx.ob('first', name, lin.prove_eq(T.subst(lo, z), ZERO, h0, [(T.sub(nb, ONE), T.sub(step, ONE))]), site,
                   f'start of block 0: {T.show(T.subst(lo, z), 6)}')
            nxt = T.subst(lo, {i: T.add(i, ONE)})
            left = T.sub(T.sub(nb, num(2)), i)
            ctx.ob('step', name, lin.prove_eq(T.sub(nxt, lo), step, h + [left], prods + [(left, T.sub(step, ONE))]), site,
                   f'start(i+1) - start(i) = {T.show(T.sub(nxt, lo), 6)}')
            last = T.subst(T.add(lo, step), {i: T.sub(nb, ONE)})
            hl = [x for x in h if i not in x.fv]
            ctx.ob('maximal', name, lin.prove(T.sub(T.add(last, NDFT), T.add(NT, ONE)), hl, []), site,
                   f'end of one more block: {T.show(T.add(last, NDFT), 6)}')
