"""Index formulas of the program, evaluated for every process of a small group."""
from fractions import Fraction as Fr
from ._cfg import *
from .. import ident

MAXN = 400


def evaluator(r, env):
    """value of an integer / tuple / None / boolean formula under an assignment of its symbols"""
    def hook(x, go):
        op = x.op
        if op == 'none':
            return ()
        if op == 'str':
            return x.args[0]
        if op == 'truth':
            return bool(go(x.args[0]))
        if op == 'rec':
            ps, nexts, inits, v, k = T.rec_parts(x)
            n = go(k)
            if not isinstance(n, Fr) or n.denominator != 1 or n > MAXN:
                raise ident.Undecided('count of a loop')
            cur = [go(i) if isinstance(i, T.Term) else i for i in inits]
            want = x
            for j in range(int(n)):
                e2 = dict(env)
                e2.update(zip(ps, cur))
                e2[v] = Fr(j)
                f = evaluator(r, e2)
                cur = [f(b) for b in nexts]
            i = rec_index(x)
            return cur[i]
        if op == 'getitem':
            b = x.args[0]
            if b.op in ('rec', 'ite', 'tuple', 'list', 'var'):
                y = go(b)
                es = x.args[1].args if x.args[1].op == 'ix' else (x.args[1],)
                for q in es:
                    q = go(q)
                    if not isinstance(y, tuple) or not isinstance(q, Fr) or not -len(y) <= q < len(y):
                        raise ident.Undecided('item')
                    y = y[int(q)]
                return y
            raise ident.Undecided(T.show(x, 3)[:100])
        if op in ('sym', 'var', 'red', 'call', 'sum'):
            raise ident.Undecided(T.show(x, 3)[:100])
        return None

    memo = {}
    return lambda t: ident.ev(t, env, Fr(0), 0, memo, hook)


def rec_index(x):
    return 0


def groups():
    for size in (1, 2, 3, 4, 5):
        for nf in (1, 2, 3, 5):
            for nm in (1, 2, 3):
                yield size, nf, nm


def base_env(r, size, nf, nm):
    env = {SIZE: Fr(size), NSAVE: Fr(nm)}
    if hasattr(r, 'inst'):
        env[S.attr(r, '_n_freq')] = Fr(nf)
        env[S.attr(r, '_n_blocks')] = Fr(97)
    env[NT] = Fr(97)
    return env


def iterations(f, env, loops, r):
    """assignments of the loop variables, outermost first"""
    if not loops:
        yield env, ()
        return
    for e, k in iterations(f, env, loops[:-1], r):
        v, n = loops[-1][0], loops[-1][1]
        g = evaluator(r, e)
        if n is None:
            raise ident.Undecided('unbounded loop')
        c = g(n)
        if not isinstance(c, Fr) or c.denominator != 1 or c > MAXN:
            raise ident.Undecided('count of a loop')
        for j in range(int(c)):
            e2 = dict(e)
            e2[v] = Fr(j)
            yield e2, k + (j,)


def written(r, e, size, nf, nm):
    """{rank: [(iteration, varying parts of the path)]} of a write"""
    out = {}
    for rank in range(size):
        env = dict(base_env(r, size, nf, nm))
        env[RANK] = Fr(rank)
        out[rank] = []
        for e2, k in iterations(None, env, e.loops, r):
            f = evaluator(r, e2)
            if f(e.guard):
                parts = fmts(e.args['path'].args[-1])
                out[rank].append((k, tuple(f(q) for q in parts)))
    return out


def writers(ctx, r, e):
    """'' or how two processes come to write the same file"""
    try:
        for size, nf, nm in groups():
            seen = {}
            for rank, ws in written(r, e, size, nf, nm).items():
                for k, p in ws:
                    if seen.setdefault(p, rank) != rank:
                        return (f'with {size} processes, {nf} frequencies and {nm} modes, processes {seen[p]} and {rank} both write '
                                f'{fname(e.args["path"])} with {tuple(map(int, p))}')
    except ident.Undecided as ex:
        ctx.need(False, f'who writes {fname(e.args["path"])}: {ex}')
    return ''


def fmts(p):
    """values formatted into a file name, from left to right"""
    out = []

    def go(x):
        if x.op == 'fmt':
            out.append(x.args[0])
        elif x.op == 'call' and x.args[0] in ('fmt', 'str'):
            out.append(x.args[1])
        elif x.op in ('cat', 'path') or x.op == 'call':
            for c in T.children(x):
                go(c)
    go(p)
    return out
