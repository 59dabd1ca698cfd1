"""C38 pictures show the values they are drawn from"""
import itertools
from fractions import Fraction as Fr
from ._spod import *
from .. import harness as H
from ..harness import Run, Disk
from ..small import Nd, integer, lift
from ..ident import Undecided
from .c29 import Cx, G, each
from .c35 import Ox, clean

PP = 'pyspod.utils.postproc'
FIELDS = ('contourf', 'pcolormesh', 'contour', 'pcolor')
NEW = ('figure', 'subplots', 'close', 'clf')


class Ev(Ox):
    def with_(self, more):
        f = super().with_(more)
        f.__class__ = Ev
        return f

    def hook(self, x, go):
        op = x.op
        if op == 'undef':
            return 'undef'
        if op in ('range1', 'range') and len(x.args) == 3:
            a, b, c = (integer(go(q)) for q in x.args)
            q = [Fr(k) for k in range(a, b, c)]
            return Nd((len(q),), q)
        if op == 'call' and x.args[0] in ('numpy.argmin', 'argmin') and len(x.args) == 2:
            v = go(x.args[1])
            d = list(v.data if isinstance(v, Nd) else v)
            if all(isinstance(q, Fr) for q in d):
                return Fr(d.index(min(d)))
        if op == 'call' and x.args[0] == 'numpy.take' and len(x.args) == 4:
            a, i, ax = (go(q.args[1] if q.op == 'kw' else q) for q in x.args[1:])
            i, ax = integer(i), integer(ax)
            sh = a.shape[:ax] + a.shape[ax + 1:]
            return Nd(sh, [at(a, *q[:ax], i, *q[ax:]) for q in itertools.product(*map(range, sh))])
        if op == 'call' and x.args[0] in ('numpy.hstack', 'numpy.concatenate', 'numpy.vstack'):
            ks = {q.args[0]: q.args[1] for q in x.args[2:] if q.op == 'kw'}
            pos = [q for q in x.args[2:] if q.op != 'kw']
            ps = [flat(go(q)) for q in (x.args[1].args if x.args[1].op in ('list', 'tuple') else go(x.args[1]))]
            ax = {'numpy.hstack': min(1, len(ps[0].shape) - 1), 'numpy.vstack': 0}.get(x.args[0])
            if ax is None:
                ax = integer(go(pos[0] if pos else ks.get('axis', num(0))))
            ax %= len(ps[0].shape)
            ends = list(itertools.accumulate(p.shape[ax] for p in ps))
            sh = ps[0].shape[:ax] + (ends[-1],) + ps[0].shape[ax + 1:]
            out = []
            for q in itertools.product(*map(range, sh)):
                k = next(k for k, b in enumerate(ends) if q[ax] < b)
                out.append(at(ps[k], *q[:ax], q[ax] - (ends[k - 1] if k else 0), *q[ax + 1:]))
            return Nd(sh, out)
        if op == 'call' and x.args[0] == 'numpy.roll' and len(x.args) == 4:
            a, k, ax = (go(q.args[1] if q.op == 'kw' else q) for q in (x.args[1], *sorted(x.args[2:], key=lambda q: q.op == 'kw' and q.args[0] == 'axis')))
            k, ax = integer(k), integer(ax) % len(a.shape)
            return Nd(a.shape, [at(a, *q[:ax], (q[ax] - k) % a.shape[ax], *q[ax + 1:]) for q in itertools.product(*map(range, a.shape))])
        if op == 'call' and x.args[0] == 'shutil.which':
            return 'program'
        if op == 'call' and x.args[0] == 'numpy.squeeze' and len(x.args) == 2 or op == 'squeeze':
            v = go(x.args[1] if op == 'call' else x.args[0])
            return Nd(tuple(q for q in v.shape if q != 1), v.data)
        return super().hook(x, go)


def flat(v):
    v = clean(v)
    if isinstance(v, tuple):
        v = Nd((len(v),), v)
    if not isinstance(v, Nd):
        raise Undecided('drawn values')
    return v


def pictures(ctx, r, ev):
    """[(name of the file, lines, fields)] in the order of saving"""
    ctx.need(not r.ip.unknown, f'{r.ip.unknown[:1]}')
    out = []
    lines, fields = [], []
    for e in r.ip.effects:
        if e.kind != 'lib':
            continue
        verb = e.name.rsplit('.', 1)[-1]
        if e.name.endswith('pyplot.' + verb) and verb in NEW:
            lines, fields = [], []
        if verb == 'save' and 'Animation' in e.name:
            verb = 'savefig'
        if verb not in FIELDS + ('plot', 'savefig', 'semilogy', 'semilogx', 'loglog'):
            continue
        envs = [ev]
        for lp in e.loops:
            v, n = lp[0], lp[1]
            envs = [f.with_({v: Fr(k)}) for f in envs for k in range(integer(f(n)))]
        for f in envs:
            g = e.guard
            if isinstance(g, T.Term) and g is not T.TRUE and not f(g):
                continue
            if isinstance(g, (tuple, list)) and not all(f(q) for q in g if isinstance(q, T.Term) and q is not T.TRUE):
                continue
            a = [r.val(q) for q in e.args['args']]
            if verb == 'savefig':
                out.append((name_of(f, a[0]), lines, fields))
                # what is drawn later belongs to the next picture once the figure is closed
                lines, fields = list(lines), list(fields)
            elif verb in FIELDS:
                ctx.need(len(a) >= 3, f'{verb} without coordinates')
                x, y, z = (flat(f(q)) for q in a[:3])
                if len(z.shape) == len(x.shape) == 2 and x.shape == y.shape == z.shape:
                    fields.append(tuple(sorted(zip(x.data, y.data, z.data))))
                    continue
                if len(z.shape) != 2 or len(x.shape) != 1 or len(y.shape) != 1 or z.shape != (y.shape[0], x.shape[0]):
                    raise ValueError(f'{verb} of {z.shape} values over {x.shape} and {y.shape} coordinates')
                fields.append(tuple(sorted((x.data[i], y.data[j], z.data[j * z.shape[1] + i]) for i in range(z.shape[1]) for j in range(z.shape[0]))))
            else:
                a = [q for q in a if q.op != 'str']
                v = [f(q) for q in a]
                y = flat(v[-1]) if isinstance(v[-1], (Nd, tuple)) else v[-1]
                x = flat(v[0]) if len(v) > 1 else Nd(y.shape[:1], [Fr(q) for q in range(y.shape[0])])
                if not isinstance(y, Nd):
                    y = Nd(x.shape, [y] * len(x.data))
                if len(x.data) != len(y.data):
                    raise ValueError(f'{len(y.data)} values over {len(x.data)} positions')
                lines.append(tuple(zip(x.data, y.data)))
    return out


def name_of(f, p):
    p = T.pathnorm(p) if p.op in ('path', 'cat') else p

    def text(t):
        if t.op == 'str':
            return t.args[0]
        if t.op in ('cat', 'path'):
            return ('/' if t.op == 'path' else '').join(text(q) for q in t.args)
        if t.op == 'fmt':
            try:
                return repr(f(t.args[0]))
            except Undecided:
                return T.show(t, 4)
        if t.args and all(isinstance(q, T.Term) for q in t.args):
            return f'{t.op}({",".join(map(text, t.args))})'
        return T.show(t, 4)
    return text(p)


def run(ctx, name, disk=None, **kw):
    r = Run(ctx.repo, **({'disk': disk} if disk else {}))
    kw = {k: (v(r) if callable(v) else v) for k, v in kw.items()}
    r.call(r.func(PP, name), [], dict(kw, filename=string('p.png'), path=SAVEDIR))
    ctx.track(r.ip)
    return r


def site(name):
    return f'pyspod/utils/postproc.py:{name}'


def show(ctx, name, what, r, ev, want, ordered=False):
    """want: list of (lines, fields)"""
    try:
        got = pictures(ctx, r, ev)
    except (ValueError, IndexError) as x:
        ctx.ob('shown', f'{name}, {what}', False, site(name), str(x)[:120])
        return 1
    ctx.ob('files', f'{name}, {what}', len(got) == len(want) and len({g[0] for g in got}) == len(got), site(name),
           f'{len(got)} pictures in {len({g[0] for g in got})} files instead of {len(want)}')
    key = lambda l, f: (tuple(sorted(l, key=repr)), tuple(f) if ordered else tuple(sorted(f, key=repr)))
    a = sorted((key(l, f) for _, l, f in got), key=repr)
    b = sorted((key(l, f) for l, f in want), key=repr)
    ctx.ob('shown', f'{name}, {what}', a == b, site(name), f'other values than required: {str([p for p in a if p not in b])[:160]}')
    return 1


def grid(shape, z, complex_=False):
    n = 1
    for q in shape:
        n *= q
    a = [Fr((k * k + 3 * k + z) % 41, 4) + k for k in range(n)]
    return Nd(shape, [G(q, Fr((5 * k + z) % 13 - 6, 3) + Fr(1, 7)) for k, q in enumerate(a)] if complex_ else a)


def at(v, *ii):
    return v.data[sum(i * s for i, s in zip(ii, v.strides()))]


def check(ctx):
    ctx.rule('shown', 'the positions and values drawn are those required')
    ctx.rule('files', 'every picture is saved in a file of its own')
    n = 0
    arr = lambda nm, nd, **k: (lambda r: r.arr(nm, nd, **k))
    ints = lambda *q: (lambda r: r.list([num(i) for i in q]))
    EG, FQ = T.sym('EG', kind='arr', ndim=2, real=True), None
    # eigenvalues
    for nf, nm in ((4, 3), (3, 4), (1, 1)):
        eg, fq = grid((nf, nm), 2), Nd((nf,), [Fr(k * k + 1, 3) for k in range(nf)])
        for name in ('plot_eigs_vs_frequency', 'plot_eigs_vs_period', 'plot_eigs'):
            kw = {} if name == 'plot_eigs' else dict(freq=arr('FQ', 1))
            r = run(ctx, name, eigs=arr('EG', 2), **kw)
            vals = {'EG': eg, 'FQ': fq}
            ev = Ev({}, None, {t: vals[t.args[0]] for t in leaves(r) if t.args[0] in vals})
            pos = (lambda k: fq.data[k]) if name.endswith('frequency') else (lambda k: 1 / fq.data[k])
            if name == 'plot_eigs':
                want = [([tuple((q, Fr(0)) for q in eg.data)], [])]
            else:
                want = [([tuple((pos(k), at(eg, k, m)) for k in range(nf)) for m in range(nm)], [])]
            n += show(ctx, name, f'{nf} x {nm}', r, ev, want)
    # coefficients and series
    co = grid((3, 5), 1)
    r = run(ctx, 'plot_coeffs', coeffs=arr('CO', 2), coeffs_idx=ints(2, 0))
    ev = Ev({}, None, {t: co for t in leaves(r) if t.args[0] == 'CO'})
    n += show(ctx, 'plot_coeffs', 'two coefficients', r, ev, [([tuple((Fr(k), at(co, c, k)) for k in range(5))], []) for c in (2, 0)])
    for name, p in (('plot_compare_time_series', ('series1', 'series2')), ('plot_training_histories', ('loss', 'val_loss'))):
        s = [grid((m,), m) for m in (5, 4)]
        r = run(ctx, name, **{p[k]: arr('SER' + str(k), 1) for k in (0, 1)})
        ev = Ev({}, None, {t: s[int(t.args[0][3])] for t in leaves(r) if t.args[0].startswith('SER')})
        n += show(ctx, name, 'two series', r, ev, [([tuple((Fr(k), v) for k, v in enumerate(q.data)) for q in s], [])])
    # data
    for shape in ((6, 2, 3, 2), (6, 3, 2, 2)):
        X = grid(shape, 5)
        for coords in (False, True):
            x1 = [Fr(3 * i + 1, 2) for i in range(shape[1])] if coords else [Fr(i) for i in range(shape[1])]
            x2 = [Fr(5 * i - 1, 3) for i in range(shape[2])] if coords else [Fr(i) for i in range(shape[2])]
            kw = dict(x1=arr('C1', 1), x2=arr('C2', 1)) if coords else {}
            Xc = grid(shape, 5, True)
            r = run(ctx, 'plot_2d_data', X=arr('XC', 4, real=False), time_idx=ints(4, 1), vars_idx=ints(1, 0), **kw)
            vals = {'XC': Xc, 'XD': X, 'C1': Nd((len(x1),), x1), 'C2': Nd((len(x2),), x2)}
            ev = Ev({}, None, {t: vals[t.args[0]] for t in leaves(r) if t.args[0] in vals})
            want = [([], [tuple(sorted((x1[i], x2[j], at(Xc, t, i, j, v).a) for i in range(shape[1]) for j in range(shape[2])))]) for t in (4, 1) for v in (1, 0)]
            n += show(ctx, 'plot_2d_data', f'{shape[1]} x {shape[2]} points, {"given" if coords else "no"} coordinates', r, ev, want)
            if coords:
                # data stored with the second coordinate first
                r = run(ctx, 'plot_2d_data', X=arr('XC', 4, real=False), time_idx=ints(4, 1), vars_idx=ints(1, 0), x1=arr('C2', 1), x2=arr('C1', 1))
                ev = Ev({}, None, {t: vals[t.args[0]] for t in leaves(r) if t.args[0] in vals})
                want = [(l, [tuple(sorted((q, p, z) for p, q, z in f[0]))]) for l, f in want]
                n += show(ctx, 'plot_2d_data', f'{shape[1]} x {shape[2]} points, second coordinate first', r, ev, want)
            for lim, step, cst in (((1, 6), 2, 'no'), ((0, 3), 1, 'regular')):
                r = run(ctx, 'generate_2d_data_video', X=arr('XC', 4, real=False), time_limits=ints(*lim), vars_idx=ints(1, 0), sampling=num(step), coastlines=string(cst), **kw)
                ev = Ev({}, None, {t: vals[t.args[0]] for t in leaves(r) if t.args[0] in vals})
                want = [([], [tuple(sorted((x1[i], x2[j], at(Xc, t, i, j, v).a) for i in range(shape[1]) for j in range(shape[2]))) for t in range(*lim, step)]) for v in (1, 0)]
                n += show(ctx, 'generate_2d_data_video', f'{shape[1]} x {shape[2]} points, {"given" if coords else "no"} coordinates, {lim}', r, ev, want, True)
            kw = dict(x=lambda r: r.list([r.arr('C1', 1), r.arr('C2', 1)])) if coords else {}
            cs = [(x1[1] + Fr(1, 8), x2[0] - Fr(1, 8)), (x1[0], x2[1])]
            r = run(ctx, 'plot_data_tracers', X=arr('XD', 4), coords_list=lambda r: r.list([mk('tuple', *map(num, c)) for c in cs]), time_limits=ints(2, 5), vars_idx=ints(1, 0), **kw)
            ev = Ev({}, None, {t: vals[t.args[0]] for t in leaves(r) if t.args[0] in vals})
            want = [([tuple((Fr(t), at(X, t, i, j, v)) for t in range(2, 5))], []) for i, j in ((1, 0), (0, 1)) for v in (1, 0)]
            n += show(ctx, 'plot_data_tracers', f'{shape[1]} x {shape[2]} points, {"given" if coords else "no"} coordinates', r, ev, want)
    # modes
    REQ = T.sym('freq_req', real=True)
    for shape in ((2, 3), (3, 2)):
        for part in (False, True):
            for coords in (False, True):
                dk = Disk(2, NV)
                x1 = [Fr(3 * i + 1, 2) for i in range(shape[0])] if coords else [Fr(i) for i in range(shape[0])]
                x2 = [Fr(5 * i - 1, 3) for i in range(shape[1])] if coords else [Fr(i) for i in range(shape[1])]
                kw = dict(x1=arr('C1', 1), x2=arr('C2', 1)) if coords else {}
                r = run(ctx, 'plot_2d_modes_at_frequency', disk=dk, results_path=SAVEDIR, freq_req=REQ, freq=arr('FQ', 1), vars_idx=ints(1, 0), modes_idx=ints(2, 0),
                        imaginary=TRUE if part else FALSE, **kw)
                M = grid((3,) + shape + (2, 3), 4, True)
                vals = {'FQ': Nd((3,), [Fr(0), Fr(1, 4), Fr(1, 2)]), 'C1': Nd((len(x1),), x1), 'C2': Nd((len(x2),), x2)}
                env = {REQ: Fr(2, 7), NV: Fr(2), NSAVE: Fr(3), H.NF: Fr(3), NX[0]: Fr(shape[0]), NX[1]: Fr(shape[1])}
                ev = Ev(env, None, {dk.MODES: M, **{t: vals[t.args[0]] for t in leaves(r) if t.args[0] in vals}})
                fld = lambda v, m, p: tuple(sorted((x1[i], x2[j], p(at(M, 1, i, j, v, m))) for i in range(shape[0]) for j in range(shape[1])))
                want = [([], [fld(v, m, p) for p in ([lambda q: q.a, lambda q: q.b] if part else [lambda q: q.a])]) for v in (1, 0) for m in (2, 0)]
                n += show(ctx, 'plot_2d_modes_at_frequency', f'{shape[0]} x {shape[1]} points, {"real and imaginary" if part else "real"} part, {"given" if coords else "no"} coordinates', r, ev, want)
    # part of the domain, halves exchanged, a mode that does not exist
    for shape, tr in (((3, 4), False), ((4, 3), False), ((4, 6), True), ((3, 4), True)):
        for lim in (((None,), (None,)), ((1, 3), (0, 2)), ((None, None, 2), (1, None))):
            dk = Disk(2, NV)
            if tr and lim[0] != (None,):
                continue
            x1 = [Fr(3 * i + 1, 2) for i in range(shape[1 if tr else 0])]
            x2 = [Fr(5 * i - 1, 3) for i in range(shape[0 if tr else 1])]
            lt = lambda q: mk('tuple', *(NONE if c is None else num(c) for c in q))
            r = run(ctx, 'plot_2d_modes_at_frequency', disk=dk, results_path=SAVEDIR, freq_req=REQ, freq=arr('FQ', 1), vars_idx=ints(1), modes_idx=ints(3, 1),
                    limits_x1=lt(lim[0]), limits_x2=lt(lim[1]), x1=arr('C1', 1), x2=arr('C2', 1), shift180=TRUE if tr else FALSE)
            M = grid((3,) + shape + (2, 3), 4, True)
            vals = {'FQ': Nd((3,), [Fr(0), Fr(1, 4), Fr(1, 2)]), 'C1': Nd((len(x1),), x1), 'C2': Nd((len(x2),), x2)}
            env = {REQ: Fr(2, 7), NV: Fr(2), NSAVE: Fr(3), H.NF: Fr(3), NX[0]: Fr(shape[0]), NX[1]: Fr(shape[1])}
            ev = Ev(env, None, {dk.MODES: M, **{t: vals[t.args[0]] for t in leaves(r) if t.args[0] in vals}})
            s1, s2 = (range(len(q))[slice(*c)] for q, c in zip((x1, x2), lim))
            if tr:
                h = shape[1] // 2
                want = [([], [tuple(sorted((x1[j] - 180, x2[i], at(M, 1, i, (j + h) % shape[1], 1, 1).a) for i in range(shape[0]) for j in range(shape[1])))])]
            else:
                want = [([], [tuple(sorted((x1[i], x2[j], at(M, 1, i, j, 1, 1).a) for i in s1 for j in s2))])]
            n += show(ctx, 'plot_2d_modes_at_frequency', f'{shape[0]} x {shape[1]} points, {"halves exchanged" if tr else f"limits {lim}"}', r, ev, want)
    sh = (3, 4, 2)
    xs = [[Fr((2 * a + 3) * i + 1, 2) for i in range(m)] for a, m in enumerate(sh)]
    for d in range(3):
        for part in (False, True):
            for coords in (False, True):
                sl = sh[d] - 1 if coords else 1
                dk = Disk(3, NV)
                kw = dict(x1=arr('C1', 1), x2=arr('C2', 1), x3=arr('C3', 1)) if coords else {}
                r = run(ctx, 'plot_3d_modes_slice_at_frequency', disk=dk, results_path=SAVEDIR, freq_req=REQ, freq=arr('FQ', 1), vars_idx=ints(1, 0), modes_idx=ints(2, 0),
                        slice_dim=num(d), slice_id=num(sl), imaginary=TRUE if part else FALSE, **kw)
                M = grid((3,) + sh + (2, 3), 4, True)
                cs = xs if coords else [[Fr(i) for i in range(m)] for m in sh]
                vals = {'FQ': Nd((3,), [Fr(0), Fr(1, 4), Fr(1, 2)]), **{f'C{k + 1}': Nd((len(c),), c) for k, c in enumerate(cs)}}
                env = {REQ: Fr(2, 7), NV: Fr(2), NSAVE: Fr(3), H.NF: Fr(3), **dict(zip(NX, map(Fr, sh)))}
                ev = Ev(env, None, {dk.MODES: M, **{t: vals[t.args[0]] for t in leaves(r) if t.args[0] in vals}})
                a, b = [k for k in range(3) if k != d]

                def val(i, j, v, m):
                    q = [0, 0, 0]
                    q[d], q[a], q[b] = sl, i, j
                    return at(M, 1, *q, v, m)
                fld = lambda v, m, p: tuple(sorted((cs[a][i], cs[b][j], p(val(i, j, v, m))) for i in range(sh[a]) for j in range(sh[b])))
                want = [([], [fld(v, m, p) for p in ([lambda q: q.a, lambda q: q.b] if part else [lambda q: q.a])]) for v in (1, 0) for m in (2, 0)]
                n += show(ctx, 'plot_3d_modes_slice_at_frequency', f'slice of axis {d}, {"real and imaginary" if part else "real"} part, {"given" if coords else "no"} coordinates', r, ev, want)
    ctx.floor('pictures compared', n, 20)


def leaves(r):
    """symbols of arrays in anything drawn"""
    out, seen = [], set()

    def walk(t):
        if isinstance(t, (tuple, list)):
            for q in t:
                walk(q)
            return
        if not isinstance(t, T.Term) or t in seen:
            return
        seen.add(t)
        if t.op == 'sym' and T.kind(t) == 'arr':
            out.append(t)
        for q in t.args:
            walk(q)
    for e in r.ip.effects:
        if e.kind == 'lib':
            for q in e.args.get('args', ()):
                walk(r.val(q))
            walk(e.guard)
            for lp in e.loops:
                walk(lp[1])
    return out
