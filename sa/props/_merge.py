"""User-defined merging of local statistics (mean, variance) over processes."""
from ._cfg import *
from .. import shard, ident
from fractions import Fraction as Fr


def merges(r):
    """(effect, function, contributed value) of every reduction with a user-defined operation"""
    from .. import interp as I
    out = []
    for e in r.ip.effects:
        if e.kind == 'coll' and e.name.lower() in ('allreduce', 'reduce'):
            a, k = e.args['raw']
            op = k.get('op') or (a[2 if e.name[0] == 'A' else 1] if len(a) > (2 if e.name[0] == 'A' else 1) else None)
            if isinstance(op, I.Func):
                out.append((e, op, e.args['args'][0]))
    return out


def stats(x, n, mom, salt=0):
    """value of a local statistic when the piece of a process has n elements with the given moments: sums of z, conj z, z^2, z conj z, conj z^2
    (the elements and their conjugates are treated as independent indeterminates)"""
    arrs = set()
    val = {(0, 0): Fr(n), (1, 0): mom[0], (0, 1): mom[1], (2, 0): mom[2], (1, 1): mom[3], (0, 2): mom[4]}

    def hook(t, go):
        if t.op == 'red' and t.args[0] == 'sum':
            p = T.topoly(t.args[1])
            tot = Fr(0)
            for m, c in p.items():
                deg, v = [0, 0], Fr(c)
                for a, e in m:
                    if T.kind(a) == 'arr':
                        cj = any(q.op == 'conj' for q in T.subterms(a))
                        arrs.add(T.conj(a) if cj else a)
                        if e not in (1, 2):
                            raise ident.Undecided('degree')
                        deg[cj] += int(e)
                    else:
                        w = go(a)
                        e = int(e) if Fr(e).denominator == 1 else None
                        if e is None:
                            raise ident.Undecided('root')
                        v *= (w if w or e >= 0 else go(T.div(ONE, ZSYM))) ** abs(e) if not w and e < 0 else w ** e
                if tuple(deg) not in val:
                    raise ident.Undecided('degree')
                tot += v * val[tuple(deg)]
            return tot
        return None
    env = {q: Fr(1) for q in (*NX, NT, NV)}
    env[shard.NLOC] = Fr(n)
    env[ZSYM] = Fr(0)
    r = ident.defined(x, env, salt, hook)
    if len(arrs) > 1:
        raise ident.Undecided('statistics of two arrays: ' + ' | '.join(T.show(q, 5) for q in arrs))
    return r


ZSYM = T.sym('zero_', real=True)


def judge(ctx, c, r, rule):
    """every merge operation combines the statistics of two pieces into those of their union, whatever their sizes"""
    from .. import interp as I
    n = 0
    for e, f, val in merges(r):
        ctx.need(val.op == 'tuple', 'merged value is not a tuple of statistics')
        v = maxaxis(val, 0)
        sh = shard.Sharding([v])
        name = f'{c}: {f.qual}'
        if sh.bad:
            ctx.ob(rule, name, False, e.site, sh.bad[0][1])
            continue
        v = sh.prepare(v)
        k = len(v.args)
        real = [models.is_real(q) for q in v.args]
        A = [T.sym(f'st_a{i}' + 'r' * w, real=w) for i, w in enumerate(real)]
        B = [T.sym(f'st_b{i}' + 'r' * w, real=w) for i, w in enumerate(real)]
        vc = mk('tuple', *[T.conj(q) for q in v.args])
        try:
            m = r.val(r.call(f, [r.tuple(A) if hasattr(r, 'tuple') else tuple(A), tuple(B)]))
            ctx.need(m.op in ('tuple', 'ite'), f'result of {f.qual}: {T.show(m, 3)[:100]}')
            for na, nb in ((3, 5), (1, 4), (6, 1), (0, 4), (5, 0), (0, 0)):
                qa = [Fr(7, 2), Fr(-1, 3), Fr(5, 7), 9, Fr(-2, 9)] if na else [Fr(0)] * 5
                qb = [Fr(-4, 3), 2, Fr(1, 8), 11, Fr(13, 5)] if nb else [Fr(0)] * 5
                qu = [i + j for i, j in zip(qa, qb)]
                la, lb, lu = stats(v, na, qa), stats(v, nb, qb), stats(v, na + nb, qu)
                w = f'{na} and {nb} elements'
                if la is None or lb is None or lu is None:
                    ctx.ob(rule, name, False, e.site, f'the statistics of a process without data are undefined ({w})')
                    break
                env = dict(zip(A, la))
                env.update(zip(B, lb))
                env.update(zip(map(T.conj, A), stats(vc, na, qa)) if not all(real) else ())
                env.update(zip(map(T.conj, B), stats(vc, nb, qb)) if not all(real) else ())
                got = ident.defined(m, env)
                if got != lu:
                    ctx.ob(rule, name, False, e.site, f'statistics of pieces of {w} merge to {got} instead of {lu}: {T.show(m, 6)[:300]}')
                    break
            else:
                ctx.ob(rule, name, True, e.site)
        except ident.Undecided as ex:
            ctx.need(False, f'merge of statistics {f.qual}: {ex}')
        n += 1
    return n
