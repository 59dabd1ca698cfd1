"""C18 reconstruction from modes and coefficients"""
from ._spod import *
from .. import harness as H

SU, PU = 'pyspod.spod.utils', 'pyspod.pod.utils'
KEYS = (('all', 1), ('half', 2), ('quarter', 4), ('tenth', 10), ('hundredth', 100))


def saved(ctx, r):
    ws = [e for e in r.ip.effects if e.kind == 'write' and e.name == 'npy']
    ctx.need(ws, 'no reconstruction is written')
    ctx.ob('stored', 'one file', len(ws) == 1, ws[0].site, f'{len(ws)} arrays written')
    return ws[-1]


def times(r, key, n):
    if key is None:
        return spec(r, 'coeffs', 'default_times', n)
    if isinstance(key, str):
        return spec(r, 'coeffs', 'every', n, num(dict(KEYS)[key.lower()]))
    return mk('list', *[num(i) for i in key])


def check(ctx):
    ctx.rule('value', 'reconstruction[t] = modes @ coeffs[:, time_idx[t]] + mean')
    ctx.rule('order', 'modes and coefficients are contracted frequency with frequency and mode with mode')
    ctx.rule('times', 'exactly the requested snapshots are reconstructed, in the requested order')
    ctx.rule('stored', 'the result is written once, time first, to <name>.npy in the coefficients folder')
    ctx.rule('given', 'coefficients passed by the caller are used instead of the stored ones')
    ctx.rule('reject', 'a time index of another type is rejected')
    for mod, tag in ((SU, 'spod'), (PU, 'pod')):
        pod = mod is PU
        for key in [k for k, _ in KEYS] + ['ALL', None, [4, 0, 7]]:
            ti = NONE if key is None else string(key) if isinstance(key, str) else (lambda r: r.list([num(i) for i in key]))
            r = S.util(ctx, mod, 'compute_reconstruction', data=False, disk=dict(pod=pod), time_idx=ti)
            dk = r.disk
            want = spec(r, 'coeffs', 'reconstruct', dk.MODES_R, dk.COEFFS, dk.LTM, times(r, key, NT))
            e = saved(ctx, r)
            ctx.equal('value' if key == 'all' else 'times', f'{tag}, time_idx={key}', e.args['value'], want, e.site)
        for name, kw in (('single variable', dict(nv=num(1))), ('1-d space', dict(xd=1)), ('3-d space', dict(xd=3))):
            r = S.util(ctx, mod, 'compute_reconstruction', data=False, disk=dict(pod=pod), time_idx=string('all'), **kw)
            dk = r.disk
            e = saved(ctx, r)
            ctx.equal('value', f'{tag}, {name}', e.args['value'],
                      spec(r, 'coeffs', 'reconstruct', dk.MODES_R, dk.COEFFS, dk.LTM, times(r, 'all', NT)), e.site)
        A = T.sym('A_' + tag, kind='arr', ndim=2, dims=(H.NC, NT), real=pod, dt='f8' if pod else 'c16')
        r = S.util(ctx, mod, 'compute_reconstruction', data=False, disk=dict(pod=pod), time_idx=string('all'),
                   coeffs=lambda r: r.ip.new(r.st, 'arr', A, prov='user:coeffs'))
        e = saved(ctx, r)
        ctx.equal('given', tag, e.args['value'],
                  spec(r, 'coeffs', 'reconstruct', r.disk.MODES_R, A, r.disk.LTM, times(r, 'all', NT)), e.site)
        r = S.util(ctx, mod, 'compute_reconstruction', data=False, disk=dict(pod=pod), time_idx=num(3))
        ws = [e for e in r.ip.effects if e.kind == 'write']
        rs = [e for e in r.ip.effects if e.kind == 'raise']
        ctx.ob('reject', tag, not ws and bool(rs), ws[0].site if ws else None, 'an integer time_idx is accepted')
        for nm, kw, path in (('default name', {}, ('reconstructed.npy',)), ('file name', dict(filename=string('f')), ('f.npy',)),
                             ('folder', dict(filename=string('f'), savedir=string('d')), ('d', 'f.npy'))):
            r = S.util(ctx, mod, 'compute_reconstruction', data=False, disk=dict(pod=pod), time_idx=string('all'), **kw)
            e = saved(ctx, r)
            p = e.args['path']
            ok = p.op == 'path' and p.args[-len(path) - 1:] == (SAVEDIR,) + tuple(string(x) for x in path)
            ctx.ob('stored', f'{tag}, {nm}', ok, e.site, T.show(p, 5))
    for key in ('all', 'tenth', [4, 0, 7]):
        ti = string(key) if isinstance(key, str) else (lambda r: r.list([num(i) for i in key]))
        for name, kw in (('', {}), (', single variable', dict(nv=num(1))), (', 1-d space', dict(xd=1))):
            r = S.util(ctx, SU, 'compute_reconstruction', data=False, disk=dict(conv=True), time_idx=ti, **kw)
            dk = r.disk
            want = spec(r, 'coeffs', 'reconstruct_conv', dk.MODES_R, dk.COEFFS, dk.LTM, times(r, key, NT), mk('tuple', *dk.sp), H.NC, NSAVE, NT)
            e = saved(ctx, r)
            ctx.equal('order', f'convolution coefficients, time_idx={key}{name}', e.args['value'], want, e.site)
