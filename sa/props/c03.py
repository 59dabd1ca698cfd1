"""C03 collective operations are matched on all processes"""
from ._cfg import *
from ._uniform import Uniform, FILE_COLL

CONFIGS = [*FIT, *FILES, *UTIL, *POD, *PARUTIL]


def collectives(r):
    for e in r.ip.effects:
        if e.kind == 'coll' or e.kind == 'mpi' and e.name == 'Free':
            yield e, e.name
        elif e.kind == 'lib' and '.File.Open' in e.name and e.name.split('.')[-1] in FILE_COLL:
            yield e, 'File.' + e.name.split('.')[-1]


def check(ctx):
    ctx.rule('matched', 'whether and how often a collective operation (communication or file access over all processes) is executed does not depend on the '
                        'process: the conditions and loop bounds around it are the same on all processes')
    ctx.rule('root', 'the root and the operation of a collective are the same on all processes')
    ctx.rule('buffer', 'arrays that are reduced elementwise have the same shape on all processes')
    n = 0
    for c in CONFIGS:
        r = run(ctx, c, True, keep_save=True)
        ctx.need(not r.ip.unknown, f'{c}: {r.ip.unknown[:1]}')
        u = Uniform(r)
        for e, name in collectives(r):
            n += 1
            what = f'{c}: {name} in {e.site[2]}'
            o = u.own(e.guard)
            why = f'executed under a condition that depends on the process: {T.show(o, 4)[:150]} in {T.show(e.guard, 5)[:300]}' if o is not None else ''
            for l in e.loops:
                if o is None and isinstance(l[1], T.Term):
                    o = u.own(l[1])
                    why = f'repeated as often as the process decides: {T.show(l[1], 5)[:300]}' if o is not None else ''
            ctx.ob('matched', what, o is None, e.site, why)
            if e.kind != 'coll':
                continue
            a, k = e.args['raw']
            for q in ('root', 'op'):
                v = k.get(q)
                if isinstance(v, T.Term):
                    o = u.own(v)
                    ctx.ob('root', f'{what}, {q}', o is None, e.site, '' if o is None else f'{q} depends on the process: {T.show(v, 4)[:200]}')
            if name.lower() in ('allreduce', 'reduce'):
                for x in e.args['args'][:1]:
                    d = models.shp(x) if isinstance(x, T.Term) and T.kind(x) == 'arr' else None
                    if d is None:
                        continue
                    bad = next((q for q in d if u.own(q) is not None), None)
                    ctx.ob('buffer', what, bad is None, e.site, '' if bad is None else f'length {T.show(bad, 5)[:250]} of the reduced array differs between processes')
    ctx.floor('collective operations', n, 400)
