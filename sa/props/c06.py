"""C06 what one process writes is complete before others use it"""
from ._cfg import *
from ._uniform import Uniform
from .c05 import conj, only_rank, CONFIGS

SYNC = ('Barrier', 'barrier', 'allreduce', 'Allreduce', 'allgather', 'Allgather', 'Allgatherv', 'alltoall', 'Alltoall', 'Alltoallv', 'Alltoallw',
        'reduce_scatter', 'Reduce_scatter', 'Reduce_scatter_block')


def parts(p):
    """components of a path, loop variables and numbers forgotten"""
    def flat(x):
        if x.op == 'path':
            return [c for a in x.args for c in flat(a)]
        return [x]
    return [mask(c) for c in flat(p)]


def mask(c):
    if c.op == 'cat':
        return tuple(mask(a) for a in c.args)
    if c.op == 'str':
        return c.args[0]
    if c.op == 'fmt' or c.op == 'call' and c.args[0] in ('fmt', 'str'):
        x = c.args[0] if c.op == 'fmt' else c.args[1]
        return ('fmt', x if loopfree(x) else '*')
    return c if loopfree(c) else '*'


def loopfree(t):
    return not T.freevars(t)


def within(a, b):
    """may a file or directory named a contain, or be, b"""
    a, b = parts(a), parts(b)
    return len(a) <= len(b) and all(same(x, y) for x, y in zip(a, b))


def same(x, y):
    if x == '*' or y == '*':
        return True
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    return x is y or x == y


def vars_of(loops):
    return [l[0] for l in loops]


def syncs(r, u):
    for e in r.ip.effects:
        if e.kind == 'coll' and e.name.split('.')[-1] in SYNC and u.own(e.guard) is None:
            yield e


def covers(s, e):
    """is s executed whenever e is, as often or once for all of it"""
    lv, le = vars_of(s.loops), vars_of(e.loops)
    return le[:len(lv)] == lv and set(conj(s.guard)) - {TRUE} <= set(conj(e.guard))


def check(ctx):
    ctx.rule('created-before-use', 'between the creation of a directory or file by one process and its use by another one, all processes synchronise')
    ctx.rule('read-before-overwrite', 'between the reading of a file by one process and its writing by another one, all processes synchronise')
    ctx.rule('complete-on-return', 'after a file was written by one process, all processes synchronise before the operation returns')
    n = 0
    for c in CONFIGS:
        r = run(ctx, c, True)
        ctx.need(not r.ip.unknown, f'{c}: {r.ip.unknown[:1]}')
        u = Uniform(r)
        ss = list(syncs(r, u))
        acc = []            # (effect, path, creates, process or None for all, each of its own)
        for e in r.ip.effects:
            if e.kind == 'write' or e.kind == 'open' and e.name and e.name[0] in 'wax' or e.kind == 'fs' and e.name in ('makedirs', 'mkdir'):
                acc.append((e, e.args['path'], True))
            elif e.kind in ('read', 'open') and 'path' in e.args:
                acc.append((e, e.args['path'], False))
        acc = [(e, p, w, only_rank(u, e.guard)) for e, p, w in acc]
        single = lambda e, k: k is not None or (e.kind == 'write' and not e.args.get('collective') and u.own(e.guard) is not None)
        for i, (e, p, w, k) in enumerate(acc):
            if not w or not single(e, k):
                continue
            if e.kind != 'fs':
                n += 1
                ok = any(s.seq > e.seq and covers(s, e) for s in ss)
                ctx.ob('complete-on-return', f'{c}: {fname(p)} in {e.site[2]}', ok, e.site, 'no synchronisation of the processes follows')
            for f, q, w2, k2 in acc[i + 1:]:
                if (k is not None and k is k2) or not within(p, q):
                    continue
                n += 1
                ok = any(e.seq < s.seq < f.seq and (covers(s, e) or covers(s, f)) for s in ss)
                ctx.ob('created-before-use', f'{c}: {T.show(p, 4)[-60:]} in {e.site[2]} -> {f.site[2]}', ok, f.site,
                       f'{T.show(q, 4)[-80:]} is used without synchronisation after line {e.site[0]} made it')
            if e.kind != 'fs':
                for f, q, w2, k2 in acc[:i]:
                    if w2 or f.name == 'exists' or (k is not None and k is k2) or not (parts(p) and within(q, p) and within(p, q)):
                        continue
                    n += 1
                    ok = any(f.seq < s.seq < e.seq and (covers(s, e) or covers(s, f)) for s in ss)
                    ctx.ob('read-before-overwrite', f'{c}: {fname(p)} in {e.site[2]}', ok, e.site, f'read at line {f.site[0]} without synchronisation')
    ctx.floor('accesses that need an order', n, 100)
