"""C05 one writer per file in parallel runs"""
from ._cfg import *
from ._uniform import Uniform
from . import _p2p

CONFIGS = [*FIT, *FILES, *UTIL, *POD]


def conj(g):
    return list(g.args) if g.op == 'and' else [g]


def only_rank(u, g):
    """the process a condition restricts execution to, as a value that is the same everywhere"""
    for c in conj(g):
        if c.op == 'eq0':
            p = T.topoly(c.args[0])
            for m, k in p.items():
                if m == ((RANK, 1),) and k in (1, -1):
                    rest = T.sub(c.args[0], T.mul(num(k), RANK))
                    if u.own(rest) is None:
                        return T.neg(rest) if k == 1 else rest
    return None


def check(ctx):
    ctx.rule('single-writer', 'a file is written collectively by all processes, or by a single process, or by each process under a path of its own')
    ctx.rule('directories', 'a directory is created by a single process, or its creation tolerates that it exists')
    n = 0
    for c in CONFIGS:
        r = run(ctx, c, True)
        ctx.need(not r.ip.unknown, f'{c}: {r.ip.unknown[:1]}')
        u = Uniform(r)
        for e in r.ip.effects:
            if e.kind == 'write' or e.kind == 'open' and e.name and e.name[0] in 'wax':
                n += 1
                what = f'{c}: {fname(e.args["path"])} in {e.site[2]}'
                if e.args.get('collective'):
                    ctx.ob('single-writer', what, True, e.site)
                    continue
                if only_rank(u, e.guard) is not None:
                    ctx.ob('single-writer', what, True, e.site)
                    continue
                if u.own(e.guard) is None and u.own(e.args['path']) is None:
                    ctx.ob('single-writer', what, False, e.site, f'every process writes {T.show(e.args["path"], 4)[:300]}')
                    continue
                bad = _p2p.writers(ctx, r, e)
                ctx.ob('single-writer', what, not bad, e.site, bad)
            elif e.kind == 'fs' and e.name in ('makedirs', 'mkdir'):
                n += 1
                ok = only_rank(u, e.guard) is not None or e.args.get('exist_ok') is TRUE or e.args.get('exist_ok') is True
                ctx.ob('directories', f'{c}: {T.show(e.args["path"], 4)[-80:]} in {e.site[2]}', ok, e.site, f'created under {T.show(e.guard, 4)[:200]}')
            elif e.kind == 'fs':
                n += 1
                ctx.ob('directories', f'{c}: {e.name} in {e.site[2]}', only_rank(u, e.guard) is not None, e.site, f'{e.name} under {T.show(e.guard, 4)[:200]}')
    ctx.floor('file system effects', n, 120)
