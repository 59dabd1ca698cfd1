"""C04 results do not depend on the number of processes"""
from ._cfg import *
from .. import shard
from . import _merge

CONFIGS = ['fit', 'fit, single variable', 'fit, 1-d space', 'fit, 3-d space', 'fit, complex data', 'fit, full spectrum',
           'fit, block mean removed, data normalized', 'fit, no mean removed', 'fit, weights normalized', 'fit, blocks saved',
           'fit, several arrays', 'streaming fit', 'streaming fit, complex data',
           'coefficients by projection', 'coefficients by projection, svd', 'coefficients by projection, chosen periods',
           'coefficients by convolution', 'reconstruction', 'reconstruction from convolution coefficients',
           'pod fit', 'pod fit, several variables', 'pod fit, weights normalized', 'pod coefficients', 'pod reconstruction']


def align(e1, e2):
    a = [l[0] for l in e1.loops]
    b = [l[0] for l in e2.loops]
    return dict(zip(b, a)) if len(a) == len(b) else None


def check(ctx):
    ctx.rule('same-files', 'a distributed run writes the same files as a single-process run')
    ctx.rule('reduction', 'read as the computation of one process, the distributed program computes the same value of every file as the serial program')
    ctx.rule('pieces', 'what the processes hold are the consecutive pieces of that value along the axis it is saved over (or, for a file written '
                       'by one process, the whole value): sums over the distributed axis are reduced over the processes exactly once before '
                       'they are used, and distributed data is combined with data distributed alike')
    ctx.rule('ranges', 'the ranges of the processes tile the distributed axis')
    ctx.rule('one-point', 'no axis is dropped because the piece of a process has length one')
    ctx.rule('merge', 'the user-defined reduction of local statistics gives the statistics of the union of two pieces, for pieces of any size (also empty)')
    n = 0
    for c in ('fit, weights normalized', 'pod fit, weights normalized', 'fit, block mean removed, data normalized'):
        _merge.judge(ctx, c, run(ctx, c, True), 'merge')
    for c in CONFIGS:
        s, p = run(ctx, c, False), run(ctx, c, True)
        for r in (s, p):
            ctx.need(not r.ip.unknown, f'{c}: {r.ip.unknown[:1]}')
        for e in p.ip.effects:
            if e.kind == 'lib' and e.name == 'squeeze' and e.args['dims'] is not None:
                loc_ = [d for d in e.args['dims'] if any(x is RANK for x in T.subterms(d))]
                ctx.ob('one-point', f'{c}: squeeze in {e.site[2]}', not loc_, e.site,
                       f'an axis of local length {T.show(loc_[0], 4)[:200]} is dropped by a process that holds one element of it' if loc_ else '')
        fs, fp = files(s), files(p)
        ctx.need(fs, f'{c}: no file is written')
        todo = list(fp)
        pairs = []
        for e in fs:
            m = [f for f in todo if f.name == e.name and literals(f.args['path']) == literals(e.args['path'])]
            if ctx.ob('same-files', f'{c}: {fname(e.args["path"])}', bool(m), e.site, 'written by the serial run only'):
                pairs.append((e, m[0]))
                todo.remove(m[0])
        for f in todo:
            ctx.ob('same-files', f'{c}: {fname(f.args["path"])}', False, f.site, 'written by the parallel run only')
        for k in range(ndist(c)):
            sub = f'{c}, axis {k}'
            vals = []
            for e, f in pairs:
                d = dict(fields(f))
                m = align(e, f)
                ctx.need(m is not None, f'{c}: loops around the writing of {fname(e.args["path"])} differ')
                for q, x in fields(e):
                    if q not in d:
                        ctx.ob('same-files', f'{c}: {fname(e.args["path"])}', False, f.site, f'no field {q}')
                        continue
                    y = d[q]
                    name = f'{sub}: {fname(e.args["path"])}' + ('' if q == 'value' else f' [{q}]')
                    z = T.subst(erase(y, k), m) if m else erase(y, k)
                    ctx.equal('reduction', name, z, erase(x, k), f.site)
                    n += 1
                    vals.append((name, f, maxaxis(y, k)))
                pe = T.subst(erase(f.args['path'], k), m) if m else erase(f.args['path'], k)
                ctx.equal('same-files', f'{sub}: path of {fname(e.args["path"])}', pe, e.args['path'], f.site)
                ge = T.subst(erase(f.guard, k), m) if m else erase(f.guard, k)
                ctx.equal('same-files', f'{sub}: condition for {fname(e.args["path"])}', ge, erase(e.guard, k), f.site)
            sh = shard.Sharding([v for _, _, v in vals])
            ctx.ob('ranges', sub, not sh.bad, T.ORIGIN.get(sh.bad[0][0]) if sh.bad else None, sh.bad[0][1] if sh.bad else '')
            if sh.bad:
                continue
            for name, f, v in vals:
                ty = sh.ty(sh.prepare(v))
                site = f.site
                why = ''
                if ty.k == 'loc':
                    t, w = ty.why
                    site = T.ORIGIN.get(t) or f.site
                    why = f'{w}: {T.show(t, 4)[:300]}'
                if f.args.get('collective'):
                    ax = T.intval(maxaxis(f.args['axis'], k))
                    ctx.need(ax is not None, f'{name}: axis of the distributed file')
                    good = ty.k == 'shard' and ty.lay in (None, shard.L1) and ty.ax == ax
                    ctx.ob('pieces', name, good, site, why or f'the processes hold {ty}, the file is assembled along axis {ax}')
                else:
                    ctx.ob('pieces', name, ty.k in ('rep', 'zero'), site, why or f'one process writes its own {ty} only')
    ctx.floor('values compared', n, 150)
