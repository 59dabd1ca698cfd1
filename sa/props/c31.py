"""C31 nearest frequency and coordinates, requested snapshots"""
from ._spod import *
from .. import harness as H
from ..harness import Run

PP = 'pyspod.utils.postproc'
DD = [H.isym(f'g{i}', 1) for i in range(3)]
NFQ = H.isym('nfq', 1)
REQ = T.sym('freq_req', real=True)
CR = [T.sym(f'coord{i}', real=True) for i in range(3)]
TB, TE = H.isym('t_b', 0), H.isym('t_e', 0)


def nearest(r, req, x):
    return spec(r, 'errors', 'nearest', req, x)


def nc(ctx, call, r, nd, dims, name, container='list'):
    xs = [r.arr(f'GX{i}', 1, dims=(dims[i],), real=True) for i in range(nd)]
    v = r.val(call(r.list(CR[:nd]), r.list(xs) if container == 'list' else mk('tuple', *[r.val(x) for x in xs])))
    return v, [r.val(x) for x in xs]


def check(ctx):
    ctx.rule('frequency', 'the value and index returned are those of the first frequency with the smallest distance to the one requested')
    ctx.rule('coordinates', 'per dimension, the value and index returned are those of the first grid point with the smallest distance to the coordinate requested')
    ctx.rule('rejects', 'coordinates that do not match the shape of the data, or are not a list, are rejected')
    ctx.rule('snapshots', 'get_data returns the snapshots t_0..t_end-1 with an axis for the variables')
    for kind in ('array', 'list'):
        r = Run(ctx.repo)
        f = r.arr('FQ', 1, dims=(NFQ,), real=True)
        if kind == 'list':
            its = [T.sym(f'fq{i}', real=True) for i in range(3)]
            f = r.list(its)
        v = r.val(r.call(r.func(PP, 'find_nearest_freq'), [REQ, f]))
        ctx.track(r.ip)
        ctx.need(not r.ip.unknown, f'find_nearest_freq: {r.ip.unknown[:1]}')
        ctx.equal('frequency', f'find_nearest_freq, {kind}', v, nearest(r, REQ, r.val(f) if kind == 'array' else T.call('numpy.array', mk('list', *its))))
    for nd in (1, 2, 3):
        r = Run(ctx.repo)
        v, xs = nc(ctx, lambda c, x: r.call(r.func(PP, 'find_nearest_coords'), [c, x, mk('tuple', *DD[:nd])]), r, nd, DD, 'plain')
        ctx.track(r.ip)
        ctx.need(not r.ip.unknown, f'find_nearest_coords: {r.ip.unknown[:1]}')
        want = [nearest(r, c, x) for c, x in zip(CR, xs)]
        for j, what in enumerate(('values', 'indices')):
            ctx.equal('coordinates', f'{what}, {nd}-d', T.getitem(v, ix(num(j))), mk('tuple', *[T.getitem(w, ix(num(j))) for w in want]))
        wrong = [DD[:nd - 1] + [T.add(DD[nd - 1], ONE)], [T.add(DD[0], ONE)] + DD[1:nd], DD[:nd] + [ONE], DD[:nd - 1]]
        for k, w in enumerate(wrong):
            r = Run(ctx.repo)
            nc(ctx, lambda c, x: r.call(r.func(PP, 'find_nearest_coords'), [c, x, mk('tuple', *w)]), r, nd, DD, 'wrong')
            ctx.track(r.ip)
            es = always_raises(r)
            ctx.ob('rejects', f'{nd}-d, wrong shape {k}', bool(es), es[0].site if es else None, f'no exception for data of shape {[T.show(x) for x in w]}')
        r = Run(ctx.repo)
        nc(ctx, lambda c, x: r.call(r.func(PP, 'find_nearest_coords'), [c, x, mk('tuple', *DD[:nd])]), r, nd, DD, 'tuple', 'tuple')
        es = always_raises(r)
        ctx.ob('rejects', f'{nd}-d, not a list', bool(es), es[0].site if es else None, 'no exception')
    # the methods of a fitted SPOD use its own frequencies and shape
    for cls in ('Standard', 'Streaming'):
        for xd in (1, 2, 3) if cls == 'Standard' else (2,):
            r = S.fit(ctx, cls=cls, xd=xd)
            name = f'{cls}, {xd}-d'
            v = r.val(r.call(r.method(r.inst, 'find_nearest_freq'), [REQ]))
            ctx.equal('frequency', name + ': own frequencies', v, nearest(r, REQ, S.attr(r, '_freq')))
            f = r.arr('FQ', 1, dims=(NFQ,), real=True)
            v = r.val(r.call(r.method(r.inst, 'find_nearest_freq'), [REQ, f]))
            ctx.equal('frequency', name + ': given frequencies', v, nearest(r, REQ, r.val(f)))
            v, xs = nc(ctx, lambda c, x: r.call(r.method(r.inst, 'find_nearest_coords'), [c, x]), r, xd, NX, name)
            want = [nearest(r, c, x) for c, x in zip(CR, xs)]
            for j, what in enumerate(('values', 'indices')):
                ctx.equal('coordinates', f'{name}: {what}', T.getitem(v, ix(num(j))), mk('tuple', *[T.getitem(w, ix(num(j))) for w in want]))
            X = r.val(r.X)
            v = r.val(r.call(r.method(r.inst, 'get_data'), [r.X, TB, TE]))
            ctx.equal('snapshots', f'{name}: t_0..t_end', v, T.getitem(X, ix(T.sl(TB, TE, ONE))))
            v = r.val(r.call(r.method(r.inst, 'get_data'), [r.X]))
            ctx.equal('snapshots', f'{name}: all', v, X)
    for xd in (1, 2, 3):
        r = S.fit(ctx, xd=xd, var=False)
        X = r.val(r.X)
        v = r.val(r.call(r.method(r.inst, 'get_data'), [r.X, TB, TE]))
        e = T.getitem(X, ix(T.sl(TB, TE, ONE), *[T.ALL] * xd, NONE))
        ctx.equal('snapshots', f'one variable, {xd}-d: t_0..t_end', v, e)
