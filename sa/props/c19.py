"""C19 inputs of the user and stored results are not modified"""
from ._cfg import *
from .c06 import parts, same

IDS = lambda nm: lambda r: r.list([isym('id1', 0), isym('id2', 0)], prov='user:' + nm)
LISTS = {
    'reconstruction at chosen times': (U, 'compute_reconstruction', dict(data=False, time_idx=IDS('time_idx'))),
    'pod reconstruction at chosen times': (PU, 'compute_reconstruction', dict(data=False, disk=dict(pod=True), time_idx=IDS('time_idx'))),
    'coefficients by projection, chosen frequencies': (U, 'compute_coeffs_op', dict(freq_idx=IDS('freq_idx'), modes_idx=IDS('modes_idx'))),
    'coefficients by convolution, chosen frequencies': (U, 'compute_coeffs_conv', dict(freq_idx=IDS('freq_idx'), modes_idx=IDS('modes_idx'))),
}
INPUTS = {'data': 'user:X', 'list of data': 'user:data_list', 'weights': 'user:W', 'dictionary of weights': 'user:weights', 'parameters': 'user:params'}


def overwrites(p, reads):
    a = strip(p)
    return any(len(a) == len(b) and all(map(same, a, b)) for b in map(strip, reads))


def strip(p):
    a = parts(p)
    return a[1:] if a[0] is models.CWD else a


def check(ctx):
    ctx.rule('inputs', 'no store, in-place operation or reshaping in place reaches an object that the user passed')
    ctx.rule('savedir', 'the only entry of params that is set is savedir, to the absolute path of the directory used')
    ctx.rule('stored', 'arrays mapped from result files are not modified, and result files that an operation reads are not written by it')
    for c in [*FIT, *UTIL, *POD, *LISTS]:
        for par in (False, True):
            if c in LISTS:
                mod, f, kw = LISTS[c]
                r = S.util(ctx, mod, f, par=par, **kw)
            else:
                r = run(ctx, c, par)
            where = f'{c}{", parallel" if par else ""}'
            ctx.need(not r.ip.unknown, f'{where}: {r.ip.unknown[:1]}')
            hit = {}
            for e in r.ip.effects:
                if e.kind != 'mutate':
                    continue
                if e.name == 'user:params' and e.args.get('how') == 'setitem' and e.args['key'].op == 'str' and e.args['key'].args[0] == 'savedir':
                    v = e.args['value']
                    v = v if isinstance(v, T.Term) else r.val(v)
                    ctx.ob('savedir', where, v.op == 'path', e.site, T.show(v, 4))
                    continue
                if e.name.startswith('memmap:') and e.args.get('how') == 'shape':
                    continue
                if e.name.startswith('memmap:') and e.name.endswith(':w+'):
                    continue
                hit.setdefault(e.name, e)
            for nm, e in hit.items():
                if nm.startswith('user:'):
                    ctx.ob('inputs', f'{where}: {nm[5:]} in {e.site[2]}', False, e.site, f'{e.args.get("how")}: {T.show(e.args["value"], 4)[:200] if isinstance(e.args.get("value"), T.Term) else ""}')
                elif nm.startswith('memmap:'):
                    ctx.ob('stored', f'{where}: file in {e.site[2]}', False, e.site, f'{e.args.get("how")} on an array mapped from {T.show(r.ip.memmaps.get(nm), 4)[:200]}')
                else:
                    ctx.ob('inputs', f'{where}: {nm}', False, e.site)
            for k, nm in INPUTS.items():
                if not any(x == nm or x.startswith(nm + '[') for x in hit):
                    ctx.ob('inputs', f'{where}: {k}', True)
            if c in UTIL or c in LISTS:
                read = {e.args['path'] for e in r.ip.effects if e.kind == 'read' and e.name != 'exists'} | {e.args['path'] for e in r.ip.effects if e.kind == 'open' and e.name == 'r'}
                n = 0
                for e in r.ip.effects:
                    if e.kind == 'write' and overwrites(e.args['path'], read):
                        ctx.ob('stored', f'{where}: {fname(e.args["path"])}', False, e.site, 'is read and written')
                    n += e.kind == 'write'
                ctx.ob('stored', f'{where}: {len(read)} files read, {n} written', True)
                ctx.floor(f'{where}: files read', len(read), 2)
