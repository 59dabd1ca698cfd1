"""C23 .npy files written and read by several processes"""
from fractions import Fraction as Fr
import itertools
from ._cfg import *
from .. import harness as H, ident
from ..harness import Run
from ..small import Small, Nd, Req, _prod, integer
from .c22 import schedule, Stop
from . import c20

FILE = T.sym('FILE', kind='str')
HEADER = 128
COUNT = H.isym('my_count', 0)


class File:
    """one process's view of the file"""

    def __init__(self):
        self.view = None
        self.pos = 0


def local(nd):
    return [H.isym(f'local_{i}', 0) for i in range(nd)]


def last(e):
    return e.name.split('.')[-1]


def lay(t, given, nd):
    """memory order of an array"""
    if t.op == 'copyof':
        return 'C'
    if t.op in ('astype', 'conj', 'real', 'imag', 'reshape', 'transpose', 'getitem', 'store', 'poly'):
        raise ident.Undecided('memory order of ' + T.show(t, 3))
    return given


def extra(given, nd, header=None, dims=()):
    def hook(f, x):
        op, args = (str(x.args[0]), x.args[1:]) if x.op == 'call' else (x.op, x.args)
        if op == 'truth' and isinstance(args[0], T.Term):
            return None
        if op.startswith('attr:') and 'contiguous' in op:
            o = lay(args[0].args[-1], given, nd)
            return Fr(int(o == ('C' if op.startswith('attr:c') else 'F') or nd == 1 and o != 'strided'))
        if op == 'method' and args[-1] == 'getvalue' or 'getvalue' in op:
            return ('bytes',) * HEADER
        if op == 'mpi.scan' or op == 'mpi.exscan':
            me = integer(f(RANK))
            vs = [g(args[0]) for g in f.ranks]
            vs = vs[:me + (op == 'mpi.scan')]
            o = args[1].args[0] if len(args) > 1 else 'SUM'
            return sum(vs, Fr(0)) if o == 'SUM' else {'MAX': max, 'MIN': min}[o](vs)
        if op.endswith('header_data_from_array_1_0'):
            return 'dict', ('shape', tuple(f(d) for d in dims)), ('fortran_order', lay(args[0], given, nd) == 'F')
        if T.show(x, 1).startswith('exc@'):
            return False
        if header is not None:
            if op.endswith('read_array_header_1_0') or op.endswith('_read_array_header'):
                return tuple(map(Fr, header[0])), header[1] == 'F', 'f8'
            if 'Get_position' in op or op == 'method' and args[-1] == 'Get_position':
                return Fr(HEADER)
        return None
    return hook


def typ(f, t):
    """positions (in items) an MPI type covers, and its item type"""
    if t.op == 'ite':
        return typ(f, t.args[1] if f(t.args[0]) else t.args[2])
    op, args = (str(t.args[0]), t.args[1:]) if t.op == 'call' else (t.op, t.args)
    if 'Create_subarray' in op or op == 'method' and 'Create_subarray' in map(str, args):
        kw = {str(q.args[0] if isinstance(q.args[0], str) else q.args[0].args[0]): q.args[1] for q in args if isinstance(q, T.Term) and q.op == 'kw'}
        ps = [q for q in args[1:] if isinstance(q, T.Term) and q.op != 'kw']
        for n, q in zip(('sizes', 'subsizes', 'starts', 'order'), ps):
            kw.setdefault(n, q)
        sizes, sub, starts = ([integer(q) for q in (lambda v: v.data if isinstance(v, Nd) else v)(f(kw[n]))] for n in ('sizes', 'subsizes', 'starts'))
        o = kw.get('order')
        while o is not None and o.op == 'ite':
            o = o.args[1] if f(o.args[0]) else o.args[2]
        o = 'F' if o is not None and 'FORTRAN' in T.show(o, 3) else 'C'
        if len(sizes) != len(sub) or len(sub) != len(starts) or any(a < 0 or n < 1 or a + n > m for m, n, a in zip(sizes, sub, starts)):
            raise Stop(f'part {sub} at {starts} of an array {sizes}', None)
        ii = itertools.product(*[range(a, a + n) for a, n in zip(starts, sub)])
        ii = list(ii) if o == 'C' else [i[::-1] for i in itertools.product(*[range(a, a + n) for a, n in reversed(list(zip(starts, sub)))])]
        return [flat(i, sizes, o) for i in ii], args[0]
    if 'Create_contiguous' in op:
        return list(range(integer(f(args[-1])))), args[0]
    raise ident.Undecided('type ' + T.show(t, 3))


def flat(i, sizes, o):
    n = 0
    for a, m in (zip(i, sizes) if o == 'C' else reversed(list(zip(i, sizes)))):
        n = n * m + a
    return n


def order(shape, o):
    """indices in memory order"""
    if o == 'C':
        return list(itertools.product(*map(range, shape)))
    return [i[::-1] for i in itertools.product(*map(range, reversed(shape)))]


def kwarg(e, name, i):
    kw = e.args['kwargs']
    kw = dict(kw) if isinstance(kw, dict) else {str(q.args[0]): q.args[1] for q in kw}
    return kw.get(name, e.args['args'][i] if len(e.args['args']) > i else None)


def lifecycle(prog, f, p, where):
    """types are committed before use and freed once, files closed once"""
    commit, free, closed, opened = {}, {}, {}, 0
    for e, g in prog:
        n = last(e)
        o = e.args.get('oid')
        if n == 'Commit':
            commit[o] = e
        elif n == 'Free':
            if o in free:
                raise Stop(f'process {p} frees a type twice ({where})', e)
            free[o] = e
        elif n == 'Close':
            if o in closed:
                raise Stop(f'process {p} closes a file twice ({where})', e)
            closed[o] = e
        elif o in closed:
            raise Stop(f'process {p} uses a file after closing it ({where})', e)
        elif n == 'Open' and 'File' in e.name:
            opened += 1
    for o, e in commit.items():
        if o not in free:
            raise Stop(f'process {p} never frees a type it commits ({where})', e)
    if opened != len(closed):
        raise Stop(f'process {p} opens {opened} files and closes {len(closed)} ({where})', next(e for e, g in prog if last(e) == 'Open'))


def saving(ctx, r, nd, axis, evs, A, dims, undef):
    site = evs[0].site
    for ns in ((3,), (2, 1), (1, 2, 0), (2, 2, 1, 3)):
        for given in ('C', 'F', 'strided'):
            shape = [2, 3, 2][:nd]
            where = f'{nd}-d array, axis {axis}, {len(ns)} processes with {ns}, memory order {given}'
            name = f'npy_save, {nd}-d, axis {axis}'
            try:
                ranks = []
                for p, n in enumerate(ns):
                    loc = list(shape)
                    loc[axis] = n
                    ranks.append(Small({SIZE: Fr(len(ns)), RANK: Fr(p), **{d: Fr(q) for d, q in zip(dims, loc)}}, ranks, None, extra(given, nd, None, dims)))
                full = list(shape)
                full[axis] = sum(ns)
                content, head, trunc = {}, 0, False
                horder = None
                for p, n in enumerate(ns):
                    f = ranks[p]
                    loc = list(shape)
                    loc[axis] = n
                    off = sum(ns[:p])
                    prog = schedule(evs, f)
                    lifecycle(prog, f, p, where)
                    for e, g in schedule(undef, f):
                        c = e.args.get('cond')
                        if g(c):
                            raise Stop(f'{e.name} is not defined ({where})', e)
                    view, committed = None, []
                    trunc = False
                    for e, g in prog:
                        k = last(e)
                        if k == 'Open':
                            if kwarg(e, 'filename', 1) is not FILE:
                                raise Stop(f'another file is opened ({where})', e)
                            m = T.show(kwarg(e, 'amode', 2), 6)
                            if 'MODE_CREATE' not in m or not ('MODE_WRONLY' in m or 'MODE_RDWR' in m) or 'EXCL' in m or 'APPEND' in m:
                                raise Stop(f'the file is opened with {m} ({where})', e)
                        elif k == 'Set_size':
                            if g(kwarg(e, 'size', 0)) != 0:
                                raise Stop(f'the file is not emptied ({where})', e)
                            trunc = True
                        elif k.endswith('write_array_header_1_0') or k.endswith('_write_array_header'):
                            d = e.args['args'][1]
                            sh = tuple(integer(q) for q in g(T.getitem(d, ix(string('shape')))))
                            if sh != tuple(full):
                                raise Stop(f'the header says {sh}, the array is {tuple(full)} ({where})', e)
                            b = d
                            fo = None
                            while b.op == 'store':
                                if b.args[1].args[0] is string('fortran_order'):
                                    fo = 'F' if g(b.args[2]) else 'C'
                                b = b.args[0]
                            if not (b.op == 'call' and 'header_data' in str(b.args[0])):
                                raise ident.Undecided('header')
                            horder = fo or lay(b.args[1], given, nd)
                            if horder == 'strided':
                                horder = 'C'
                        elif k == 'Write':
                            v = g(kwarg(e, 'buf', 0))
                            if v != ('bytes',) * HEADER or view is not None:
                                raise Stop(f'something else than the header is written first ({where})', e)
                            if not trunc:
                                raise Stop(f'an existing file is not emptied first ({where})', e)
                            head += 1
                        elif k == 'Commit':
                            committed.append(e.args['obj'])
                        elif k == 'Set_view':
                            pos, item = typ(g, kwarg(e, 'filetype', 2))
                            if kwarg(e, 'etype', 1) is not item:
                                raise Stop(f'items of the view and of its type differ ({where})', e)
                            view = (integer(g(kwarg(e, 'disp', 0))), pos, item)
                            t = kwarg(e, 'filetype', 2)
                            while t.op == 'ite':
                                t = t.args[1] if g(t.args[0]) else t.args[2]
                            if t not in committed:
                                raise Stop(f'process {p} uses a type it has not committed ({where})', e)
                        elif k in ('Write_all', 'Write_at_all'):
                            buf = kwarg(e, 'buf', 0)
                            o = lay(buf, given, nd)
                            if o == 'strided' and nd > 1:
                                raise Stop(f'the array written is not contiguous ({where})', e)
                            src = buf
                            while src.op == 'copyof':
                                src = src.args[0]
                            if src is not A:
                                raise Stop(f'another array is written ({where})', e)
                            if view is None:
                                raise Stop(f'written at the start of the file ({where})', e)
                            dt = dtype_of_type(view[2])
                            if dt is not None and dt is not r.ip.models.dtype_term(A):
                                raise Stop(f'written as {T.show(dt, 3)} ({where})', e)
                            ent = order(loc, o if o in 'CF' else 'C')
                            if len(ent) != len(view[1]):
                                raise Stop(f'process {p} writes {len(ent)} values to {len(view[1])} places ({where})', e)
                            for i, q in zip(ent, view[1]):
                                at = view[0] + 8 * q
                                if at in content:
                                    raise Stop(f'two processes write the same place ({where})', e)
                                j = list(i)
                                j[axis] += off
                                content[at] = tuple(j)
                if head != 1:
                    raise Stop(f'the header is written {head} times ({where})', evs[0])
                want = {HEADER + 8 * q: i for q, i in enumerate(order(full, horder or 'C'))}
                if content != want:
                    bad = sorted(k for k in set(content) | set(want) if content.get(k) != want.get(k))[0]
                    raise Stop(f'byte {bad} holds entry {content.get(bad)}, not {want.get(bad)} ({where})', evs[-1])
                ctx.ob('save', f'{name}, {ns}, {given}', True, site)
            except Stop as ex:
                ctx.ob('save', name, False, ex.args[1].site if ex.args[1] is not None else site, ex.args[0])
                return False
            except (ValueError, IndexError, KeyError, AttributeError) as ex:
                ctx.ob('save', name, False, site, f'{type(ex).__name__} {ex} ({where})')
                return False
            except ident.Undecided as ex:
                ctx.need(False, f'{name}: {ex}')
    return True


def dtype_of_type(t):
    for x in T.subterms(t):
        if x.op == 'dtype':
            return x
    return None


def loading(ctx, r, nd, axis, evs, value, given):
    site = evs[0].site
    for total in (5, 2, 3):
        for size in (1, 2, 3, 4):
            for o in ('C', 'F'):
                full = [2, 3, 2][:nd]
                full[axis] = total
                ns = [(total // size + (p < total % size)) for p in range(size)]
                if given:
                    ns = ns[::-1]
                where = f'{nd}-d file in order {o}, axis {axis} of {total}, {size} processes'
                name = f'npy_load, {nd}-d, axis {axis}' + (', counts given' if given else '')
                try:
                    ranks = []
                    for p in range(size):
                        ranks.append(Small({SIZE: Fr(size), RANK: Fr(p), COUNT: Fr(ns[p])}, ranks, None, extra('C', nd, (full, o))))
                    content = {HEADER + 8 * q: i for q, i in enumerate(order(full, o))}
                    for p in range(size):
                        f = ranks[p]
                        prog = schedule(evs, f)
                        lifecycle(prog, f, p, where)
                        view, mem = None, None
                        for e, g in prog:
                            k = last(e)
                            if k == 'Open':
                                if kwarg(e, 'filename', 1) is not FILE:
                                    raise Stop(f'another file is opened ({where})', e)
                                m = T.show(kwarg(e, 'amode', 2), 6)
                                if 'MODE_RD' not in m:
                                    raise Stop(f'the file is opened with {m} ({where})', e)
                            elif k == 'Set_view':
                                pos, item = typ(g, kwarg(e, 'filetype', 2))
                                if kwarg(e, 'etype', 1) is not item:
                                    raise Stop(f'items of the view and of its type differ ({where})', e)
                                view = (integer(g(kwarg(e, 'disp', 0))), pos)
                            elif k == 'Read_all':
                                buf = kwarg(e, 'buf', 0)
                                b = c20.root(buf)
                                if b.op != 'alloc' or b is not buf:
                                    raise ident.Undecided('buffer read into')
                                sh = [integer(q) for q in g(b.args[1])]
                                bo = 'C' if len(b.args) < 4 else g(b.args[3])
                                ent = order(sh, bo)
                                if view is None or len(ent) != len(view[1]):
                                    raise Stop(f'process {p} reads {len(view[1]) if view else "no"} values into {len(ent)} places ({where})', e)
                                d = {}
                                for i, q in zip(ent, view[1]):
                                    d[i] = content.get(view[0] + 8 * q)
                                mem = (b, Nd(sh, [d[i] for i in order(sh, 'C')]))
                        if mem is None:
                            raise Stop(f'nothing is read ({where})', evs[-1])
                        got = f.with_({mem[0]: mem[1]})(value)
                        loc = list(full)
                        loc[axis] = ns[p]
                        want = []
                        for i in order(loc, 'C'):
                            j = list(i)
                            j[axis] += sum(ns[:p])
                            want.append(tuple(j))
                        if tuple(got.shape) != tuple(loc) or got.data != want:
                            raise Stop(f'process {p} gets {got.data[:3]} of shape {tuple(got.shape)}, not {want[:3]} of shape {tuple(loc)} ({where})', evs[-1])
                    ctx.ob('load', f'{name}, {total}, {size} processes, {o}', True, site)
                except Stop as ex:
                    ctx.ob('load', name, False, ex.args[1].site if ex.args[1] is not None else site, ex.args[0])
                    return False
                except (ValueError, IndexError, KeyError, AttributeError) as ex:
                    ctx.ob('load', name, False, site, f'{type(ex).__name__} {ex} ({where})')
                    return False
                except ident.Undecided as ex:
                    ctx.need(False, f'{name}: {ex}')
    return True


KEEP = ('Open', 'Set_size', 'Write', 'Write_all', 'Write_at_all', 'Set_view', 'Commit', 'Free', 'Sync', 'Close', 'Read_all', 'write_array_header_1_0', '_write_array_header')


def check(ctx):
    ctx.rule('save', 'an array distributed along one axis is written as one .npy file: header of the whole array, then every entry once, at its place; '
             'types are committed, freed once, the file is emptied first and closed')
    ctx.rule('load', 'reading gives every process its consecutive part along the axis, whatever the order of the file; types freed once, file closed')
    ctx.rule('released', 'MPI types created for messages are freed in every process')
    n = 0
    for nd in (1, 2, 3):
        for axis in range(nd):
            r = Run(ctx.repo, parallel=True)
            ctx.track(r.ip)
            r.ip.layout = True
            dims = tuple(local(nd))
            A = T.sym(f'ARRAY{nd}', kind='arr', ndim=nd, dims=dims, dt='f8', real=True)
            r.call(r.func('pyspod.utils.parallel', 'npy_save'), [r.comm, FILE, r.ip.new(r.st, 'arr', A)], {'axis': num(axis)})
            ctx.need(not r.ip.unknown, str(r.ip.unknown[:1]))
            evs = [e for e in r.ip.effects if e.kind == 'lib' and last(e) in KEEP]
            ctx.need(any(last(e).startswith('Write_') for e in evs), 'no collective write')
            undef = [e for e in r.ip.effects if e.kind == 'undef']
            if not saving(ctx, r, nd, axis, evs, A, dims, undef):
                return
            for given in (False, True):
                if given and axis:
                    continue
                r = Run(ctx.repo, parallel=True)
                ctx.track(r.ip)
                r.ip.layout = True
                kw = {'axis': num(axis)}
                if given:
                    kw['count'] = COUNT
                v = r.val(r.call(r.func('pyspod.utils.parallel', 'npy_load'), [r.comm, FILE], kw))
                ctx.need(not r.ip.unknown, str(r.ip.unknown[:1]))
                evs = [e for e in r.ip.effects if e.kind == 'lib' and last(e) in KEEP]
                ctx.need(any(last(e) == 'Read_all' for e in evs), 'no collective read')
                if not loading(ctx, r, nd, axis, evs, v, given):
                    return
                n += 1
    ctx.floor('layouts', n, 7)
    serial(ctx)
    released(ctx)


def serial(ctx):
    r = Run(ctx.repo, parallel=False)
    ctx.track(r.ip)
    A = T.sym('ARRAY2', kind='arr', ndim=2, dims=tuple(local(2)), dt='f8', real=True)
    r.call(r.func('pyspod.utils.parallel', 'npy_save'), [NONE, FILE, r.ip.new(r.st, 'arr', A)], {'axis': ONE})
    w = [e for e in r.ip.effects if e.kind == 'write']
    ctx.ob('save', 'npy_save, serial', len(w) == 1 and w[0].args['value'] is A and w[0].args['path'] in (FILE, T.pathnorm(FILE)) and w[0].guard is TRUE,
           w[0].site if w else None, f'writes {[(T.show(e.args["path"], 3), T.show(e.args["value"], 3)) for e in w]}')
    v = r.val(r.call(r.func('pyspod.utils.parallel', 'npy_load'), [NONE, FILE], {'axis': ONE}))
    ctx.ob('load', 'npy_load, serial', v is not A and ('FILE' in T.show(v, 5) or v is A), None, T.show(v, 5))


def released(ctx):
    """message types of the 2-stage readers and of the modes distributed by frequency"""
    from .c22 import program, groups
    for kind, (r, rd, value, evs) in c20.programs(ctx).items():
        ev = [e for e in evs if e.kind == 'lib' and last(e) in ('Commit', 'Free')]
        ctx.need(ev, f'{kind}: no message type')
        for w in c20.worlds():
            if w.kind == kind and w.limit == 1 and w.version == 3:
                for p in range(2):
                    f = Small({SIZE: Fr(2), RANK: Fr(p), c20.TS: ZERO and Fr(0), c20.TE: Fr(4)}, None, None, w.extra)
                    f.ranks = [f, f]
                    one(ctx, f'{kind} reader', ev, f, p)
                break
    r, evs = program(ctx)
    ev = [e for e in evs if e.kind == 'lib' and last(e) in ('Commit', 'Free')]
    ctx.need(ev, 'modes distributed by frequency: no message type')
    for size, ns, shape, nf, nm in groups():
        if size == 2 and nf == 2 and nm == 1:
            for p in range(2):
                fs = []
                for q in range(2):
                    fs.append(Small({SIZE: Fr(2), RANK: Fr(q), NSAVE: Fr(1), H.NF: Fr(2), NV: Fr(1)}, fs))
                one(ctx, 'modes distributed by frequency', ev, fs[p], p)
            break


def one(ctx, name, ev, f, p):
    try:
        prog = schedule(ev, f)
        lifecycle(prog, f, p, name)
        ctx.ob('released', name, True, ev[0].site)
        ctx.need(prog, f'{name}: no message type used')
    except Stop as ex:
        ctx.ob('released', name, False, ex.args[1].site, ex.args[0])
    except ident.Undecided as ex:
        ctx.need(False, f'{name}: {ex}')
