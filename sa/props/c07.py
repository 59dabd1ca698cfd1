"""C07 result files: what one stage writes is what the next reads"""
from ._cfg import *
from .. import harness as H
from ..harness import Run, Disk
from ..chain import Chain, as_dict, norm
from .c17 import nx, key

PP = 'pyspod.utils.postproc'
FI = H.isym('freq_id', 0)
TOL0 = T.div(ONE, num(10 ** 10))


def stage(ctx, mod, fname, args, chain, real, xd, nv, data=True, **kw):
    """a function of the package, run on the files of the previous stage"""
    r = Run(ctx.repo, disk=chain)
    r.ip.overrides['pyspod.utils.parallel.npy_save'] = S.prim_npy_save
    a = []
    if data:
        r.X = r.field('X' if real else 'XC', xd, nv is not num(1), real=real)
        a.append(r.X)
    r.ret = r.call(r.func(mod, fname), a + args, dict(comm=r.comm, **kw) if fname != 'get_modes_at_freq' else kw)
    ctx.track(r.ip)
    return r


def find(ctx, r, name, part):
    ws = [e for e in find_npy(r, part) if e.name == 'npy']
    ctx.need(ws, f'{name}: {part} is not written')
    return ws[-1]


def read_ok(ctx, name, r, chain, root, asked=()):
    """every file of the result directory the stage reads was written before it"""
    for p, what in chain.missing:
        ctx.ob('found', f'{name}: {fname(p)}', False, None, f'{what} {T.show(p, 4)} is read, but the previous stage does not write it')
    n = 0
    for e in r.ip.effects:
        if e.kind == 'read' and e.name in ('npy', 'memmap', 'yaml'):
            f = chain.look(e.args['path'])
            n += 1
            ctx.ob('found', f'{name}: {fname(e.args["path"])}', f is not None, e.site, f'{T.show(e.args["path"], 4)} is not written by the previous stage')
            if f is not None and f[2]:
                # read in a loop: the indices read must be indices written
                w, idx, vs, m = f
                for l in w.loops:
                    i = m.get(l[0])
                    mine = [q for q in e.loops if i is not None and T.sub(i, q[0]).op == 'num' or i is q[0]]
                    ok = i is not None and (i in asked or i.op == 'num' or bool(mine))
                    ctx.ob('found', f'{name}: {fname(e.args["path"])} index', ok, e.site, 'file of an index that is not written')
    ctx.need(n, f'{name}: nothing is read')


def check(ctx):
    ctx.rule('found', 'every result file a later stage reads is written by the earlier stage, in the directory the earlier stage reports')
    ctx.rule('modes', 'get_modes_at_freq returns the modes stored for that frequency, in both file layouts')
    ctx.rule('coeffs', 'coefficients computed from the files of a fit use its stored modes and weights, frequency by frequency')
    ctx.rule('reconstruction', 'a reconstruction from the files of a coefficient computation uses its stored coefficients, modes and mean')
    ctx.rule('keys', 'the parameters a later stage needs are stored with the value in effect')
    cfgs = [('fit', {}), ('fit, single variable', dict(var=False)), ('fit, 1-d space', dict(xd=1)), ('fit, 3-d space', dict(xd=3)),
            ('fit, complex data', dict(real=False)), ('fit, full spectrum', dict(fullspectrum=TRUE)), ('streaming fit', dict(cls='Streaming'))]
    for name, kw in cfgs:
        r1 = run(ctx, name, False)
        ctx.need(not r1.ip.unknown, f'{name}: {r1.ip.unknown[:1]}')
        xd, nv, real = kw.get('xd', 2), (NV if kw.get('var', True) else num(1)), kw.get('real', True)
        root = S.attr(r1, '_savedir_sim')
        n_x = nx(xd, nv)
        shape = mk('tuple', *NX[:xd], nv)
        names = (('n_freq', S.attr(r1, '_n_freq'), H.NF), ('n_modes_save', S.attr(r1, '_n_modes_save'), NSAVE))
        # modes
        ch = Chain(r1, name, names)
        f = stage(ctx, PP, 'get_modes_at_freq', [root, FI], ch, real, xd, nv, data=False)
        read_ok(ctx, f'{name}, get_modes_at_freq', f, ch, root, (FI,))
        e = find(ctx, r1, name, 'freq_idx_')
        M = ch.stored(e, 'value', e.args['value'])
        ctx.need(M is not None, f'{name}: shape of the stored modes')
        ctx.equal('modes', f'{name}: one file per frequency', f.ret if isinstance(f.ret, T.Term) else f.val(f.ret), T.getitem(M, ix(FI)), e.site)
        nf, nm = T._dims(M)[0], T._dims(M)[-1]
        ctx.equal('keys', f'{name}: number of mode files', nf, H.NF, e.site)
        ctx.equal('keys', f'{name}: number of modes', nm, NSAVE, e.site)
        ctx.equal('keys', f'{name}: shape of the mode files', mk('tuple', *T._dims(M)[1:-1]), shape, e.site)
        # coefficients
        for fn in ('compute_coeffs_op', 'compute_coeffs_conv'):
            ch = Chain(r1, name, names)
            r2 = stage(ctx, U, fn, [root], ch, real, xd, nv)
            ctx.need(not r2.ip.unknown, f'{name}, {fn}: {r2.ip.unknown[:1]}')
            tag = f'{name}, {fn}'
            read_ok(ctx, tag, r2, ch, root)
            e = find(ctx, r1, name, 'freq_idx_')
            M = ch.stored(e, 'value', e.args['value'])
            w = find(ctx, r1, name, 'weights.npy')
            W = ch.stored(w, 'value', w.args['value'])
            X = r2.val(r2.X)
            if fn.endswith('op'):
                P0 = spec(r2, 'coeffs', 'basis_range', M, ZERO, nf, n_x, nm)
                want = spec(r2, 'coeffs', 'project_pinv', P0, W, X, NT, n_x, TOL0)
            else:
                want = spec(r2, 'coeffs', 'convolution', M, ZERO, nf, W, X, NT, n_x, NDFT, nm)
            e2 = find(ctx, r2, tag, 'coeffs.npy')
            ctx.equal('coeffs', tag, e2.args['value'], want, e2.site)
            # reconstruction
            out = r2.val(r2.ret)
            folder = T.getitem(out, ix(ONE))
            ctx.equal('found', f'{tag}: reported file', mk('list', *norm(T.getitem(out, ix(ZERO)))), mk('list', *norm(e2.args['path'])), e2.site)
            c2 = Chain(r2, tag)
            for how, extra in (('from the files', {}),):
                r3 = stage(ctx, U, 'compute_reconstruction', [folder], c2, real, xd, nv, data=False, time_idx=ALLT, **extra)
                ctx.need(not r3.ip.unknown, f'{tag}, reconstruction: {r3.ip.unknown[:1]}')
                read_ok(ctx, f'{tag}, reconstruction', r3, c2, folder)
                rec = [x for x in r3.ip.effects if x.kind == 'write' and x.name == 'npy']
                ctx.need(rec, f'{tag}: no reconstruction is written')
                get = lambda part: c2.stored(find(ctx, r2, tag, part), 'value', find(ctx, r2, tag, part).args['value'])
                P, C, L = get('modes_r.npy'), get('coeffs.npy'), get('ltm.npy')
                if fn.endswith('op'):
                    want = spec(r3, 'coeffs', 'reconstruct', P, C, L, spec(r3, 'coeffs', 'every', NT, ONE))
                else:
                    want = spec(r3, 'coeffs', 'reconstruct_conv', P, C, L, spec(r3, 'coeffs', 'every', NT, ONE), shape, nf, nm, NT)
                ctx.equal('reconstruction', tag, rec[-1].args['value'], want, rec[-1].site)
    # the methods of the fitted object
    for name in ('fit', 'pod fit'):
        pod = name.startswith('pod')
        r1 = run(ctx, name, False)
        root = S.attr(r1, '_savedir_sim')
        names = tuple((k, S.attr(r1, a), s) for k, a, s in (('n_freq', '_n_freq', H.NF), ('n_modes_save', '_n_modes_save', NSAVE)) if not (pod and k == 'n_freq'))
        nv = num(1) if pod else NV
        n_x = nx(2, nv)
        ch = Chain(r1, name + ' object', names)
        get1 = lambda part: ch.stored(find(ctx, r1, name, part), 'value', find(ctx, r1, name, part).args['value'])
        P, W = (get1('modes.npy') if pod else get1('freq_idx_')), get1('weights.npy')
        n0 = len(r1.ip.effects)
        r1.ip.opts['disk'] = ch
        if not pod:
            v = r1.val(r1.call(r1.method(r1.inst, 'get_modes_at_freq'), [FI]))
            ctx.equal('modes', f'{name}, method', v, T.getitem(P, ix(FI)))
        ret = r1.val(r1.call(r1.method(r1.inst, 'compute_coeffs_op'), [r1.X, root], {}))
        ctx.need(not r1.ip.unknown, f'{name}, method: {r1.ip.unknown[:1]}')
        new = [e for e in r1.ip.effects[n0:] if e.kind == 'write']
        cs = [e for e in new if fname(e.args['path']) == 'coeffs.npy' and e.name == 'npy']
        ctx.need(cs, f'{name}, method: no coefficients are written')
        X = r1.val(r1.X)
        want = spec(r1, 'pod', 'coeffs', P, W, X, NT, n_x, T._dims(P)[-1]) if pod else \
            spec(r1, 'coeffs', 'project_svd', spec(r1, 'coeffs', 'basis_range', P, ZERO, T._dims(P)[0], n_x, T._dims(P)[-1]), W, X, NT, n_x, TOL0)
        ctx.equal('coeffs', f'{name}, method', cs[-1].args['value'], want, cs[-1].site)
        for p, what in ch.missing:
            ctx.ob('found', f'{name}, method: {fname(p)}', False, None, f'{what} {T.show(p, 4)} is read, but the fit does not write it')
        c2 = Chain(r1, name + ' object 2')
        r1.ip.opts['disk'] = c2
        get = lambda part: [c2.stored(e, 'value', e.args['value']) for e in new if fname(e.args['path']) == part and e.name == 'npy'][-1]
        for call in ('reconstruction', 'second reconstruction'):
            n1 = len(r1.ip.effects)
            r1.call(r1.method(r1.inst, 'compute_reconstruction'), [], dict(coeffs_dir=T.getitem(ret, ix(ONE)), time_idx=ALLT))
            rec = [e for e in r1.ip.effects[n1:] if e.kind == 'write' and e.name == 'npy']
            ctx.need(rec, f'{name}, method: no reconstruction is written')
            want = spec(r1, 'coeffs', 'reconstruct', get('modes_r.npy'), get('coeffs.npy'), get('ltm.npy'), spec(r1, 'coeffs', 'every', NT, ONE))
            ctx.equal('reconstruction', f'{name}, method, {call}', rec[-1].args['value'], want, rec[-1].site)
        for p, what in c2.missing:
            ctx.ob('found', f'{name}, method, reconstruction: {fname(p)}', False, None, f'{what} {T.show(p, 4)} is read, but not written')
        r1.ip.opts.pop('disk')
        ctx.runs.clear()
    # one file per frequency and mode
    for f in (FI, num(3)):
        for xd, nv in ((2, NV), (1, NV), (3, NV), (2, num(1))):
            dk = Disk(xd, nv, split=True)
            r = stage(ctx, PP, 'get_modes_at_freq', [SAVEDIR, f], dk, True, xd, nv, data=False)
            ctx.equal('modes', f'one file per frequency and mode, {xd}-d, {T.show(nv)} variables, frequency {T.show(f)}', r.val(r.ret), T.getitem(dk.MODES, ix(f)))
    # POD
    for name, nv in (('pod fit', num(1)), ('pod fit, several variables', NV)):
        r1 = run(ctx, name, False)
        names = (('n_modes_save', S.attr(r1, '_n_modes_save'), NSAVE),)
        ch = Chain(r1, name, names)
        root = S.attr(r1, '_savedir_sim')
        r2 = stage(ctx, PU, 'compute_coeffs_op', [root], ch, True, 2, nv)
        read_ok(ctx, f'{name}, coefficients', r2, ch, root)
        g1 = lambda part: ch.stored(find(ctx, r1, name, part), 'value', find(ctx, r1, name, part).args['value'])
        P, W = g1('modes.npy'), g1('weights.npy')
        e2 = find(ctx, r2, name, 'coeffs.npy')
        ctx.equal('coeffs', name, e2.args['value'], spec(r2, 'pod', 'coeffs', P, W, r2.val(r2.X), NT, nx(2, nv), T._dims(P)[-1]), e2.site)
        out = r2.val(r2.ret)
        folder = T.getitem(out, ix(ONE))
        c2 = Chain(r2, name)
        r3 = stage(ctx, PU, 'compute_reconstruction', [folder], c2, True, 2, nv, data=False, time_idx=ALLT)
        read_ok(ctx, f'{name}, reconstruction', r3, c2, folder)
        g2 = lambda part: c2.stored(find(ctx, r2, name, part), 'value', find(ctx, r2, name, part).args['value'])
        rec = [x for x in r3.ip.effects if x.kind == 'write' and x.name == 'npy']
        ctx.need(rec, f'{name}: no reconstruction is written')
        ctx.equal('reconstruction', name, rec[-1].args['value'],
                  spec(r3, 'coeffs', 'reconstruct', g2('modes_r.npy'), g2('coeffs.npy'), g2('ltm.npy'), spec(r3, 'coeffs', 'every', NT, ONE)), rec[-1].site)
