"""C28 reading of data files and configuration files"""
from ._spod import *
from ..terms import sym
from .. import harness as H
from ..harness import Run

IO = 'pyspod.utils.io'
F, G = f'{IO.replace(".", "/")}.py:read_data', f'{IO.replace(".", "/")}.py:read_config'
FILES = [('a.npy', None, 'npy'), ('dir.nc/B.NPY', None, 'npy'), ('a.nc', None, 'nc'), ('x.npy/a.1.Nc', None, 'nc'), ('a.mat', None, 'mat'), ('dir/era.nc.MAT', None, 'mat'),
         ('data', 'npy', 'npy'), ('data.dat', '.NPY', 'npy'), ('data.mat', 'nc', 'nc'), ('data', '.nc', 'nc'), ('data.npy', 'MAT', 'mat'), ('data.npy', '.mat', 'mat')]
WRONG = [('a.txt', None), ('npy', None), ('dir.npy/a', None), ('a.npyx', None), ('a.npy', 'txt'), ('a.nc', 'xnc')]
READS = {'npy': 'npy', 'nc': 'netcdf', 'mat': 'h5'}


def read(ctx, f, fm, par):
    r = Run(ctx.repo, parallel=par)
    kw = dict(data_file=string(f))
    if fm is not None:
        kw['format'] = string(fm)
    if par:
        kw['comm'] = r.comm
    o = r.call(r.func(IO, 'read_data'), [], kw)
    ctx.track(r.ip)
    ctx.need(not r.ip.unknown, f'{r.ip.unknown[:1]}')
    return r, o


def check(ctx):
    ctx.rule('format', 'the format given, or else the extension of the name, decides how the file is read, whatever its case')
    ctx.rule('content', 'the content of the file is returned, unchanged and complete')
    ctx.rule('unsupported', 'other formats raise a ValueError')
    ctx.rule('parameters', 'every required and optional entry of the configuration file is returned under its name')
    n = 0
    for par in (False, True):
        tag = 'parallel' if par else 'serial'
        for f, fm, kind in FILES:
            r, o = read(ctx, f, fm, par)
            name = f'{tag}: {f}' + (f' with format {fm}' if fm else '')
            es = [e for e in r.ip.effects if e.kind == 'read']
            ctx.need(all(e.guard is TRUE for e in es), 'the condition under which the file is read')
            ok = len(es) == 1 and es[0].name == READS[kind] and es[0].guard is TRUE and T.pathnorm(es[0].args['path']) is T.pathnorm(string(f))
            ctx.ob('format', name, ok and o is not NONE, F, f'read as {[e.name for e in es]}')
            n += 1
            if ok and o is not None:
                ctx.equal('content', name, r.val(o), spec(r, 'io', kind, string(f)), F)
        for f, fm in WRONG:
            r, o = read(ctx, f, fm, par)
            rs = [e for e in r.ip.effects if e.kind == 'raise']
            ctx.need(all(e.guard is TRUE for e in rs), 'the condition of the exception')
            ctx.ob('unsupported', f'{tag}: {f}' + (f' with format {fm}' if fm else ''), len(rs) == 1 and rs[0].name.startswith('ValueError') and not [e for e in r.ip.effects if e.kind == 'read'],
                   F, f'raises {[e.name for e in rs]}')
            n += 1
    ks = ['time_step', 'n_space_dims', 'n_variables', 'n_dft']
    for req in (ks, ks[::-1], ks + ['own_entry']):
        for opt in (None, [], ['overlap'], ['mean_type', 'overlap', 'savedir', 'zz_own', 'a1', 'a2', 'a3']):
            r = Run(ctx.repo)
            val = lambda k: sym('CFG_' + k, kind='sc')
            d = dict(required=r.list([r.dict({k: val(k)}) for k in req]))
            if opt is not None:
                d['optional'] = r.list([r.dict({k: val(k)}) for k in opt])
            r.ip.opts['disk'] = lambda p, what: dict(d) if what == 'dict' else None
            o = r.call(r.func(IO, 'read_config'), [], dict(parsed_file=string('c.yaml')))
            ctx.track(r.ip)
            ctx.need(not r.ip.unknown, f'{r.ip.unknown[:1]}')
            es = [e for e in r.ip.effects if e.kind == 'read']
            name = f'{len(req)} required and {"no" if opt is None else len(opt)} optional entries, first {req[0]}'
            ctx.ob('parameters', f'{name}: file', len(es) == 1 and has(es[0].args['path'], string('c.yaml')), G, 'another file is read')
            c = r.st.heap[o.cid] if hasattr(o, 'cid') else None
            ctx.need(c is not None and c.items is not None and c.kind == 'dict' and c.term is None, 'the parameters returned')
            got = {k.args[0] if isinstance(k, T.Term) and k.op == 'str' else str(k): r.val(v) for k, v in c.items}
            want = {k: val(k) for k in req + (opt or [])}
            ctx.ob('parameters', name, set(got) == set(want) and all(got[k] is want[k] for k in want), G,
                   f'missing {sorted(set(want) - set(got))}, additional {sorted(set(got) - set(want))}, other values {[k for k in want if k in got and got[k] is not want[k]]}')
            n += 1
    ctx.floor('files read', n, 40)


def has(t, q):
    return t is q or any(has(a, q) for a in t.args if isinstance(a, T.Term))
