"""C37 the methods of a fit hand on what they were given"""
import ast
import itertools
from fractions import Fraction as Fr
from ._spod import *
from .. import harness as H, interp as I
from ..small import Small, Nd, integer
from ..ident import Undecided

PP = 'pyspod.utils.postproc'
# method -> space dimensions, parameters that stand for data
PLOTS = {'plot_eigs': (2, None), 'plot_eigs_vs_frequency': (2, None), 'plot_eigs_vs_period': (2, None), 'plot_2d_modes_at_frequency': (2, None),
         'plot_3d_modes_slice_at_frequency': (3, None), 'plot_mode_tracers': (2, None), 'plot_2d_data': (2, 'time_idx'), 'plot_data_tracers': (2, 'time_limits'),
         'generate_2d_data_video': (2, 'time_limits')}


def params(r, name, method=True):
    f = r.method(r.inst, name) if method else r.func(PP, name)
    n = f.func.node if method else f.node
    return [a.arg for a in n.args.args + n.args.kwonlyargs if a.arg != 'self']


def record(r, name):
    """calls of the function of the postproc module: arguments by parameter name"""
    got = []

    def ov(ip, args, kwargs, n, st):
        f = r.func(PP, name)
        env = ip.bind_args(f, args, kwargs, n, st)
        got.append(({k: ip.val(v, st) for k, v in env.items()}, st.pc))
        return mk('call', 'result:' + name)
    r.ip.overrides[f'{PP}.{name}'] = ov
    return got


def check(ctx):
    ctx.rule('called', 'the function of the postproc module with the same name is called, exactly once')
    ctx.rule('handed on', 'every argument that both take is handed on under its own name')
    ctx.rule('of the fit', 'eigenvalues, frequencies, result directory and directory of plots are those of the fit')
    ctx.rule('returned', 'the file and the folder returned by the function are returned')
    ctx.rule('snapshots', 'the snapshots shown are those asked for')
    n = 0
    for name, (xd, when) in PLOTS.items():
        for freq in ((True, False) if name.startswith('plot_eigs_vs') else (True,)):
            n += plot(ctx, name, xd, when, freq)
    for kind in ('spod', 'pod'):
        for par in (False, True):
            n += coefficients(ctx, kind, par)
    ctx.floor('arguments compared', n, 80)


def coefficients(ctx, kind, par):
    r = S.fit(ctx, par=par) if kind == 'spod' else S.pod(ctx, par=par)
    mod = f'pyspod.{kind}.utils'
    site = f'pyspod/{kind}/base.py:'
    keep = dict(r.ip.overrides)
    seen = {}

    def stub(name):
        def ov(ip, args, kwargs, n, st):
            env = ip.bind_args(r.func(mod, name), args, kwargs, n, st)
            seen.setdefault(name, []).append((env, {k: ip.val(v, st) for k, v in env.items() if k != 'comm'}))
            return mk('tuple', mk('call', 'file:' + name), mk('call', 'folder:' + name))
        return ov
    n = 0
    last = mk('call', 'folder:compute_coeffs_op')
    for name in ('compute_coeffs_op', 'compute_reconstruction'):
        r.ip.overrides[f'{mod}.{name}'] = stub(name)
    for name in ('compute_coeffs_op', 'compute_reconstruction'):
        m = r.method(r.inst, name).func.node
        mine = [a.arg for a in m.args.args if a.arg != 'self']
        g = r.func(mod, name).node
        theirs = [a.arg for a in g.args.args]
        kw = {p: T.sym('arg_' + p) for p in mine}
        if 'data' in kw:
            kw['data'] = r.arr('Xnew', 4)
        if 'coeffs_dir' in kw:
            kw['coeffs_dir'] = last
        ret = r.val(r.call(r.method(r.inst, name), [], kw))
        t = f'{kind} {name}, {"parallel" if par else "serial"}'
        if not ctx.ob('called', t, len(seen.get(name, ())) == 1, site + name, f'{len(seen.get(name, ()))} calls'):
            continue
        raw, a = seen[name][0]
        for p in mine:
            if p in theirs and p not in ('results_dir', 'coeffs_dir'):
                ctx.equal('handed on', f'{t}, {p}', a[p], r.val(kw[p]), site + name)
                n += 1
        if 'results_dir' in theirs:
            ctx.equal('of the fit', t + ', results_dir', a['results_dir'], S.attr(r, '_savedir_sim'), site + name)
        if 'coeffs_dir' in theirs:
            ctx.equal('of the fit', t + ', coeffs_dir', a['coeffs_dir'], last, site + name)
        ctx.ob('of the fit', t + ', comm', raw['comm'] is r.comm if par else r.val(raw['comm']) is NONE, site + name, 'another communicator')
        ctx.equal('returned', t, ret, mk('tuple', mk('call', 'file:' + name), mk('call', 'folder:' + name)), site + name)
        n += 3
    r.ip.overrides.clear()
    r.ip.overrides.update(keep)
    return n


def plot(ctx, name, xd, when, freq):
    r = S.fit(ctx, xd=xd)
    site = f'pyspod/spod/base.py:{name}'
    tag = name + ('' if freq else ', frequencies by default')
    n = 0
    cases = [(None, None)] if when is None else \
        [((2, 0), True), ((1,), False)] if when == 'time_idx' else [((0, 4), True), ((2, 5), True), ((1, 4), False)]
    for asked, var in cases:
        rr = r if asked is None or var else S.fit(ctx, xd=xd, var=False)
        mine = params(rr, name)
        theirs = params(rr, name, False)
        ctx.need(set(mine) & set(theirs), f'{name} has no common parameters')
        keep = dict(rr.ip.overrides)
        got = record(rr, name)
        kw = {}
        for p in mine:
            if p == 'freq' and not freq:
                continue
            kw[p] = rr.ip.new(rr.st, 'arr', T.sym('arg_' + p, kind='arr', ndim=1, real=True)) if p in ('freq', 'x1', 'x2', 'x3') else \
                rr.list([num(q) for q in asked]) if p == when else T.sym('arg_' + p)
        if asked is not None:
            if 'sampling' in kw:
                kw['sampling'] = num(2)
            shape = (6,) + ((2, 3) if xd == 2 else (2, 2, 2)) + ((2,) if var else ())
            D = T.sym('shown_data' + str(len(shape)), kind='arr', ndim=len(shape), real=True, dims=tuple(num(q) for q in shape))
            kw['data'] = rr.ip.new(rr.st, 'arr', D)
        rr.call(rr.method(rr.inst, name), [], kw)
        rr.ip.overrides.clear()
        rr.ip.overrides.update(keep)
        t = tag + ('' if asked is None else f' {list(asked)}' + ('' if var else ', no axis of variables'))
        if not ctx.ob('called', t, len(got) == 1, site, f'{len(got)} calls of postproc.{name}'):
            continue
        a = got[0][0]
        for p in mine:
            if p not in theirs or p == when and asked is not None:
                continue
            if p == 'freq' and not freq:
                ctx.equal('of the fit', t + ', freq', a[p], S.attr(rr, '_freq'), site)
            else:
                ctx.equal('handed on', t + ', ' + p, a[p], rr.val(kw[p]), site)
            n += 1
        for p, want in (('eigs', '_eigs'), ('results_path', '_savedir_sim'), ('path', '_savedir_sim')):
            if p in theirs and p not in mine:
                ctx.equal('of the fit', t + ', ' + p, a[p], S.attr(rr, want), site)
                n += 1
        if asked is not None:
            try:
                snapshots(ctx, rr, name, when, asked, var, a, D, shape, t, site)
            except (ValueError, IndexError) as e:
                ctx.ob('snapshots', t, False, site, str(e)[:80])
            n += 1
    return n


def snapshots(ctx, rr, name, when, asked, var, a, D, shape, t, site):
    cnt = 1
    for q in shape:
        cnt *= q
    sm = Small({NV: Fr(2 if var else 1), RANK: Fr(0), SIZE: Fr(1)}, arrays={D: Nd(shape, [Fr(q) for q in range(cnt)])})
    x = sm(a['X'])
    w = sm(a[when])
    w = tuple(w.data) if isinstance(w, Nd) else w
    if not isinstance(x, Nd) or not isinstance(w, tuple):
        raise Undecided('arguments')
    w = [integer(q) for q in w]
    full = shape if var else shape + (1,)
    if not ctx.ob('snapshots', t + ', axes', len(x.shape) == len(full) and x.shape[1:] == full[1:], site, f'array of {x.shape} from data of {shape}'):
        return
    m = cnt // shape[0]
    snap = lambda d, k: tuple(d[k * m:(k + 1) * m])
    if when == 'time_idx':
        want = list(asked)
        have = w
    else:
        s = 2 if name.startswith('generate') else 1
        want = list(range(asked[0], asked[-1]))[::s]
        have = list(range(w[0], w[-1]))[::s]
        if s == 1:
            # the axis of times is labelled with the limits
            ctx.ob('snapshots', t + ', times', have == want, site, f'times {have} instead of {want}')
    if any(not 0 <= k < x.shape[0] for k in have):
        ctx.ob('snapshots', t, False, site, f'snapshots {have} of {x.shape[0]} snapshots handed on')
        return
    ctx.ob('snapshots', t, [snap(x.data, k) for k in have] == [snap([Fr(q) for q in range(cnt)], k) for k in want], site, f'other snapshots than {want}')
