"""C25 settings that cannot be used are rejected before results are written"""
from fractions import Fraction as Fr
from itertools import product
from ._cfg import *
from .. import harness as H
from ..small import Small, Nd
from ..ident import Undecided

ND = isym('n_dft_user', 1)
WS = isym('w_size', 1)


class Crash:
    """an exception that is not the program's own"""
    kind = 'raise'

    def __init__(self, name, e):
        self.name, self.site, self.seq = name, e.site, e.seq


def active(r, sm):
    """the exceptions the program itself raises at a point, as effects"""
    out = []
    for e in r.ip.effects:
        if e.kind == 'raise':
            g = e.guard
        elif e.kind == 'assert':
            g = T.and_(e.guard, T.not_(e.args['cond']))
        else:
            continue
        if g is FALSE:
            continue
        try:
            on = g is TRUE or bool(sm(g))
        except ZeroDivisionError:
            return [Crash('ZeroDivisionError', e)]
        if on:
            return [e]          # the first ends the run
    return out


def early(r, e):
    """the file effects before an exception"""
    return [w for w in r.ip.effects if w.kind in ('write', 'fs') and w.seq < e.seq]


def small(env, exc=False):
    def hook(sm, x):
        if x.op == 'sym' and str(x.args[0]).startswith('exc@'):
            return exc(sm) if callable(exc) else exc
        if x.op == 'eq' and any(a.op == 'dtype' for a in x.args):
            return True
        if x.op == 'sym' and x.args[0] == 'WU':
            return Nd.full([int(sm(WS))], Fr(1))
        if x.op == 'call' and x.args[0] in ('numpy.resize', 'numpy.broadcast_to') and len(x.args) == 3:
            return Nd.full([int(q) for q in sm(x.args[2])], Fr(1))
        return None
    return Small({RANK: Fr(0), SIZE: Fr(1), **env}, extra=hook)


def misfit(sm, w):
    """the array does not have the size it is brought to the shape of"""
    try:
        sm.with_({})(w)
    except ValueError:
        return True
    return False


def judge(ctx, rule, what, r, sm, want, kinds=None):
    ctx.need(not r.ip.unknown, f'{what}: {r.ip.unknown[:1]}')
    a = active(r, sm)
    site = a[0].site if a else next((e.site for e in r.ip.effects if e.kind in ('fs', 'write')), None)
    if want:
        if not ctx.ob(rule, what, bool(a), site, 'the setting is accepted'):
            return
        w = early(r, a[0])
        ctx.ob('early', what, not w, w[0].site if w else site, 'files are written before the setting is rejected')
        if kinds:
            ctx.ob('kind', what, any(k in (a[0].name or '') or k == 'AssertionError' and a[0].kind == 'assert' for k in kinds), site,
                   f'{a[0].name or a[0].kind} is raised instead of {" or ".join(kinds)}')
    else:
        ctx.ob('accepted', what, not a, site, f'a usable setting is rejected: {a[0].name[:100] if a else ""}')


def fitting(ctx, cls, weights, **kw):
    """constructor and fit with weights of any shape"""
    from ..harness import Run
    r = Run(ctx.repo)
    r.ip.overrides['pyspod.utils.parallel.npy_save'] = S.prim_npy_save
    p = S.base_params(2, NV, **kw)
    k = {'comm': r.comm, 'weights': r.dict({'weights': weights(r), 'weights_name': string('w')}, prov='user:weights')}
    mod, c = ('pyspod.pod.standard', 'Standard') if cls == 'POD' else ('pyspod.spod.' + cls.lower(), cls)
    r.inst = r.new(r.cls(mod, c), [r.dict(p, prov='user:params')], k)
    r.call(r.method(r.inst, 'fit'), [r.list([r.field('X', 2, True)], prov='user:data_list')], {})
    ctx.track(r.ip)
    return r


def check(ctx):
    ctx.rule('rejected', 'a setting that cannot be used raises an exception')
    ctx.rule('accepted', 'a usable setting is not rejected')
    ctx.rule('early', 'the exception comes before any file or directory is written')
    ctx.rule('kind', 'the exception is of the stated kind')
    # block length and overlap
    for cls in ('Standard', 'Streaming'):
        r = S.fit(ctx, cls=cls, n_dft=ND)
        for nt, nd, ov in product((3, 6, 10, 17, 40), (1, 2, 3, 4, 5, 8, 16), (0, 10, 25, 50, 67, 75, 80, 90, 99)):
            o = -(-nd * ov // 100)
            bad = o > nd - 1 or nd < 4 or (nt - o) // (nd - o) < 2
            judge(ctx, 'rejected', f'{cls}: {nt} snapshots, n_dft={nd}, overlap={ov}', r, small({NT: Fr(nt), ND: Fr(nd), OVL: Fr(ov)}), bad, ['ValueError'])
    env = {NT: Fr(60), NDFT: Fr(8), OVL: Fr(50), **{x: Fr(3 + i) for i, x in enumerate(NX)}, NV: Fr(2), NSAVE: Fr(3)}
    # mean types
    for cls in ('Standard', 'Streaming', 'POD'):
        known = ('longtime', 'zero') if cls == 'POD' else ('longtime', 'blockwise', 'zero')
        for m in ('longtime', 'LongTime', 'blockwise', 'zero', 'ZERO', 'other', '', 'longtime_', 'time', 'none'):
            r = S.pod(ctx, mean_type=string(m)) if cls == 'POD' else S.fit(ctx, cls=cls, mean_type=string(m))
            judge(ctx, 'rejected', f'{cls}: mean type {m!r}', r, small(env), m.lower() not in known, ['ValueError'])
    # weights
    for cls in ('Standard', 'Streaming', 'POD'):
        r = fitting(ctx, cls, lambda r: r.arr('WU', 1, dims=(WS,)))
        n = 3 * 4 * 2
        for ws in (1, 2, n // 2, n - 1, n, n + 1, 2 * n):
            judge(ctx, 'rejected', f'{cls}: {ws} weights for {n} points and variables', r, small({**env, WS: Fr(ws)}, lambda sm: misfit(sm, S.attr(r, '_weights'))), ws != n, ['ValueError'])
    # where modes are kept
    r = S.fit(ctx, par=True, savefreq_disk=TRUE, savefreq_disk2=TRUE)
    judge(ctx, 'rejected', 'modes by frequency on one process and distributed', r, small(env), True)
    r = S.fit(ctx, savefreq_disk=FALSE, savefreq_disk2=TRUE)
    judge(ctx, 'rejected', 'modes distributed without processes', r, small(env), True)
    # arrays of different shape
    for cls in ('Standard', 'POD'):
        from ..harness import Run
        for same in (True, False):
            r = Run(ctx.repo)
            r.ip.overrides['pyspod.utils.parallel.npy_save'] = S.prim_npy_save
            mod = 'pyspod.pod.standard' if cls == 'POD' else 'pyspod.spod.standard'
            r.inst = r.new(r.cls(mod, 'Standard'), [r.dict(S.base_params(2, NV), prov='user:params')], {'comm': r.comm})
            d = isym('other_nx', 1)
            arrs = [r.arr('A', 4, dims=(isym('n1', 1), NX[0], NX[1], NV)), r.arr('B', 4, dims=(isym('n2', 1), d, NX[1], NV))]
            r.call(r.method(r.inst, 'fit'), [r.list(arrs, prov='user:data_list')], {})
            ctx.track(r.ip)
            e2 = {**env, d: env[NX[0]] + (0 if same else 1), isym('n1', 1): Fr(30), isym('n2', 1): Fr(30)}
            judge(ctx, 'rejected', f'{cls}: two arrays of {"the same" if same else "different"} spatial shape', r, small(e2), not same)
    # utilities
    for mod, f, d in ((U, 'compute_reconstruction', dict(data=False)), (PU, 'compute_reconstruction', dict(data=False, disk=dict(pod=True)))):
        for t, v in (('all', string('all')), ('Half', string('Half')), ('3', num(3)), ('True', TRUE)):
            r = S.util(ctx, mod, f, time_idx=v, **d)
            judge(ctx, 'rejected', f'{mod.split(".")[1]} {f}: time_idx {t}', r, small(env), v.op != 'str', ['TypeError'])
    for mod, f, d in ((U, 'compute_coeffs_op', {}), (U, 'compute_coeffs_conv', {})):
        for t in ('double', 'single', 'other', 'float128'):
            r = S.util(ctx, mod, f, dtype=string(t), **d)
            judge(ctx, 'rejected', f'{mod.split(".")[1]} {f}: dtype {t!r}', r, small(env), t not in ('double', 'single'), ['ValueError'])
    # order of calls
    for nm, r in (('SPOD', S.fit(ctx)), ('POD', S.pod(ctx))):
        n0 = len(r.ip.effects)
        r.call(r.method(r.inst, 'compute_reconstruction'), [], {'coeffs_dir': H.SAVEDIR, 'time_idx': string('all')})
        es = r.ip.effects[n0:]
        ctx.runs.clear()
        rs = [e for e in es if e.kind == 'raise' and e.guard is TRUE]
        ws = [e for e in es if e.kind in ('write', 'fs')]
        ctx.ob('rejected', f'{nm}: reconstruction before coefficients', bool(rs), None, 'a reconstruction without coefficients is accepted')
        if rs:
            ctx.ob('early', f'{nm}: reconstruction before coefficients', not ws, rs[0].site, 'files are written')
