"""C01 block partition: exact cover, order, balance"""
from ._spod import *
from .. import lin, harness as H
from ..harness import Run

R2 = H.isym('rank_b', 0)
N = H.isym('N', 0)


def slices_of(t):
    """bounds selected from an axis: (position, lo, hi, axis length)"""
    out = []
    for s in T.subterms(t):
        if s.op == 'store' and s.args[2].op == 'sl' and T.kind(s.args[0]) == 'list':
            out.append((s.args[1], s.args[2]))
        if s.op == 'getitem' and s.args[1].op == 'ix':
            for p, e in enumerate(s.args[1].args):
                if e.op == 'sl' and e is not T.ALL and RANK in set(T.subterms(e)):
                    out.append((ix(num(p)), e))
    return out


def judge(ctx, name, lo, n, N, site, facts=()):
    """the pieces [lo, lo+n) over rank = 0..size-1 tile [0, N) in rank order and differ in length by at most one"""
    h = [RANK, T.sub(T.sub(SIZE, ONE), RANK), T.sub(SIZE, ONE), N] + list(facts)
    at = lambda t, r: T.subst(t, {RANK: r})
    last = T.sub(SIZE, ONE)
    hi = T.add(lo, n)
    ctx.ob('first-starts-at-0', name, lin.prove_eq(at(lo, ZERO), ZERO, [SIZE, T.sub(SIZE, ONE), N]), site,
           f'start at rank 0: {T.show(at(lo, ZERO), 6)}')
    ctx.ob('contiguous', name, lin.prove_eq(at(lo, T.add(RANK, ONE)), hi, h + [T.sub(last, T.add(RANK, ONE))]), site,
           f'start(rank+1) = {T.show(at(lo, T.add(RANK, ONE)), 6)}; end(rank) = {T.show(hi, 6)}')
    ctx.ob('last-ends-at-N', name, lin.prove_eq(at(hi, last), N, [last, N]), site, f'end at rank size-1: {T.show(at(hi, last), 6)}')
    ctx.ob('non-negative', name, lin.prove(n, h), site, f'count: {T.show(n, 6)}')
    h2 = h + [R2, T.sub(last, R2)]
    ctx.ob('balanced', name, lin.prove(T.add(ONE, T.sub(n, at(n, R2))), h2), site, f'count: {T.show(n, 6)}')


def check(ctx):
    ctx.rule('first-starts-at-0', 'rank 0 starts at element 0')
    ctx.rule('contiguous', 'each rank starts where the previous one ends')
    ctx.rule('last-ends-at-N', 'the last rank ends at the axis length')
    ctx.rule('non-negative', 'no rank has a negative count')
    ctx.rule('balanced', 'two ranks differ by at most one element')
    cases = 0
    for fname, extra in (('distribute', []), ('distribute_data', []), ('distribute_dimension', 'axis')):
        for nd in (2, 3, 4):
            r = Run(ctx.repo, parallel=True)
            X = r.arr('D', nd, dims=tuple([H.isym(f'd{i}', 1) for i in range(nd)]))
            if fname == 'distribute_dimension':
                args = [X, H.isym('axis', 0)]
            else:
                args = [X]
            v = r.call(r.func('pyspod.utils.parallel', fname), args, {'comm': r.comm})
            ctx.track(r.ip)
            t = r.val(v)
            ctx.need(not r.ip.unknown, f'{fname}: {r.ip.unknown[:1]}')
            sls = slices_of(t)
            ctx.need(sls, f'{fname} selects no rank-dependent range')
            pos, s = sls[0]
            shape = mk('tuple', *[H.isym(f'd{i}', 1) for i in range(nd)])
            n_ax = T.getitem(shape, pos)
            if n_ax.op != 'sym':
                # one symbol for the selected axis length
                lo, hi = [T.subst(x, {n_ax: N}) for x in s.args[:2]]
                n_ax = N
            else:
                lo, hi = s.args[:2]
            site = T.ORIGIN.get(s)
            judge(ctx, f'pyspod.utils.parallel.{fname} ({nd}-d)', lo, T.sub(hi, lo), n_ax, site)
            cases += 1
    # the same helper as used by the file readers: every function returning (count, start)
    ctx.floor('partitioning functions', cases, 9)
