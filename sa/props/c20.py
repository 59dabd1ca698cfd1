"""C20 data read from files in chunks: every process gets all snapshots of its own part of space"""
from fractions import Fraction as Fr
from ._cfg import *
from .. import harness as H, ident
from ..small import Small, Nd, Req, _prod
from .c22 import schedule, is_wait, message, peer, root, Stop

TS, TE = H.isym('t_s', 0), H.isym('t_e', 0)
BS, BE = H.isym('b_s', 0), H.isym('b_e', 0)
DATA = T.sym('DATA', kind='arr', ndim=3, dims=(NT, H.isym('n_local', 1), num(2)), dt='f8', real=True)
CHUNKS = T.sym('CHUNKS', kind='dict', elem='dict', fields=dict(v='arr', s='sc', e='sc'))
NCH = H.isym('n_chunks', 1)
KEY = 'key'
NVAR = 2

READERS = {'NetCDF': dict(data=['a.nc', 'b.nc', 'c.nc'], variables=['u', 'v'], n_variables=num(NVAR)),
           'MATLAB': dict(data=['b.mat', 'c.mat', 'a.mat', 'd.mat'], n_variables=num(NVAR), n_space_dims=num(3))}


def block(n, size, rank):
    q, m = divmod(n, size)
    return q + (rank < m), rank * q + min(rank, m)


class World:
    """the files of one small case"""

    def __init__(self, kind, lens, shape, version, limit):
        self.kind, self.shape, self.version, self.limit = kind, shape, version, limit
        self.files = READERS[kind]['data'] if kind == 'NetCDF' else sorted(READERS[kind]['data'])
        self.lens = dict(zip(self.files, lens))
        self.t0, n = {}, 0
        for f in self.files:
            self.t0[f] = n
            n += self.lens[f]
        self.nt = n

    def entries(self, path, var, lo=0, hi=None):
        """labels: (snapshot, variable, position in space)"""
        if self.kind == 'NetCDF':
            n = self.lens[path]
            hi = n if hi is None else hi
            if not 0 <= lo <= hi <= n:
                raise IndexError
            return Nd((hi - lo,) + self.shape, [(self.t0[path] + t, 'uv'.index(var), x) for t in range(lo, hi) for x in range(_prod(self.shape))])
        return Nd((NVAR,) + self.shape, [(self.t0[path], v, x) for v in range(NVAR) for x in range(_prod(self.shape))])

    def extra(self, f, x):
        op, args = (x.args[0], x.args[1:]) if x.op == 'call' else (x.op, x.args)
        if op == 'file_var':
            return self.entries(f(args[0]), f(args[1]))
        if op == 'file_sel':
            path, var, dim, lo, hi = args
            if f(dim) != 'd0':
                raise ident.Undecided('selection along ' + T.show(dim, 3))
            return self.entries(f(path), f(var), int(f(lo)), int(f(hi)))
        if op == 'shape':
            return tuple(Fr(q) for q in f(args[0]).shape)
        if op == 'h5keys':
            return (KEY,)
        if op == 'dims':
            return tuple(f'd{i}' for i in range(1 + len(self.shape)))
        if T.show(x, 2) == 'mpi4py.MPI.VERSION':
            return Fr(self.version)
        if op == 'method' and 'iinfo' in T.show(x, 5):
            return Fr(self.limit)
        if x.op == 'var' and T.kind(x) == 'list':
            return ()
        return None


def unit(f, x):
    """number of values in one item of an MPI type"""
    if x.op == 'lib':
        return Fr(1)
    if x.op == 'call' and 'Create_contiguous' in str(x.args[0]):
        return f(x.args[-1]) * unit(f, x.args[1]) if len(x.args) > 2 else f(x.args[-1])
    if x.op == 'call' and 'Commit' in str(x.args[0]):
        return unit(f, x.args[1])
    if x.op in ('sym', 'ite'):
        return Fr(1)
    raise ident.Undecided('type of a message: ' + T.show(x, 3))


def parts_of(t):
    """buffer, counts, displacements, type of a message specification"""
    a = list(t.args)
    if a[0].op == 'elems':
        a = list(a[0].args)
    buf, a = a[0], a[1:]
    typ = a.pop() if a and (a[-1].op == 'lib' or 'MPI' in T.show(a[-1], 4)) else None
    if len(a) == 1 and a[0].op in ('tuple', 'list'):
        a = list(a[0].args)
    return buf, (a[0] if a else None), (a[1] if len(a) > 1 else None), typ


def programs(ctx):
    out = {}
    for kind, kw in READERS.items():
        r = S.fit(ctx, par=True, savefreq_disk=FALSE, savefreq_disk2=TRUE, **kw)
        ctx.need(not r.ip.unknown, f'{kind}: {r.ip.unknown[:1]}')
        rd = r.attr(r.inst, '_reader')
        n0 = len(r.ip.effects)
        v = r.val(r.call(r.method(rd, 'get_data_for_time'), [TS, TE], {}))
        ctx.need(not r.ip.unknown, f'{kind}: {r.ip.unknown[:1]}')
        out[kind] = (r, rd, v, r.ip.effects[n0:])
    return out


def simulate(w, value, evs, size, ts, te):
    """the part of the data every process ends up with"""
    ranks = []
    for rank in range(size):
        ranks.append(Small({SIZE: Fr(size), RANK: Fr(rank), TS: Fr(ts), TE: Fr(te)}, ranks, None, w.extra))
    where = f'{size} processes, snapshots {ts} to {te} of {w.nt}, {_prod(w.shape)} points'
    sent, recv, gath = {}, {}, {}
    wait = [{} for _ in range(size)]
    mem = [{} for _ in range(size)]
    for p in range(size):
        for e, f in schedule(evs, ranks[p]):
            if e.kind == 'assert':
                try:
                    ok = f(e.args['cond'])
                except ident.Undecided:
                    continue
                if not ok:
                    raise Stop(f'a check of the program fails in process {p} ({where})', e)
            elif e.kind == 'p2p' and 'send' in e.name.lower():
                b = message(e)
                v = f(b[3])
                d = int(f(peer(e, 'dest')))
                if not 0 <= d < size:
                    raise Stop(f'process {p} sends to process {d} ({where})', e)
                sent.setdefault((p, d), []).append((e, v.data))
                wait[p].setdefault(e.name, []).append(e)
            elif e.kind == 'p2p' and 'recv' in e.name.lower():
                t = message(e)[3]
                c = root(t)
                whole = f(c)
                at = f.with_({c: Nd(whole.shape, [Fr(i) for i in range(len(whole.data))])})(t).data
                s = int(f(peer(e, 'source')))
                if not 0 <= s < size:
                    raise Stop(f'process {p} receives from process {s} ({where})', e)
                mem[p].setdefault(c, list(whole.data))
                recv.setdefault((s, p), []).append((e, c, [int(q) for q in at]))
                wait[p].setdefault(e.name, []).append(e)
            elif e.kind == 'coll' and 'gatherv' in e.name.lower():
                kw, ps = e.args['kwargs'], e.args['args']
                g = lambda k, i: kw.get(k, ps[i] if len(ps) > i else None)
                rt = int(f(g('root', 2) or ZERO))
                sb, sc, _, st = parts_of(g('sendbuf', 0))
                rb = g('recvbuf', 1)
                while rb.op == 'ite':
                    rb = rb.args[1] if f(rb.args[0]) else rb.args[2]
                data = f(sb).data
                k = unit(f, st)
                gath.setdefault((p, rt, e.seq), []).append((e, data, k, rb, f))
                wait[p].setdefault(e.name, []).append(e)
            elif is_wait(e):
                t = e.args['args'][0]
                if t.op == 'append' and 'gatherv' in T.show(t, 4).lower():
                    wait[p] = {k: v for k, v in wait[p].items() if 'gatherv' not in k.lower()}
                    continue
                q = f(t)
                for x in (q,) if isinstance(q, Req) else q:
                    if isinstance(x, Req) and wait[p].get(x[0]):
                        wait[p][x[0]].pop(0)
    for k in set(sent) | set(recv):
        a, b = sent.get(k, []), recv.get(k, [])
        if len(a) != len(b):
            e = (a or b)[0][0]
            raise Stop(f'{len(a)} messages from process {k[0]} to {k[1]}, {len(b)} receives ({where})', e)
        for (e, data), (e2, c, at) in zip(a, b):
            if len(data) > len(at):
                raise Stop(f'{len(data)} values from process {k[0]} to process {k[1]}, room for {len(at)} ({where})', e2)
            for i, x in zip(at, data):
                mem[k[1]][c][i] = x
    for seq in {k[2] for k in gath}:
        for rt in range(size):
            for i in range(max([len(gath.get((p, rt, seq), ())) for p in range(size)])):
                rows = [gath.get((p, rt, seq), ()) for p in range(size)]
                e0 = next(x for x in rows if x)[0][0]
                if any(len(x) != len(rows[0]) for x in rows):
                    raise Stop(f'some processes do not take part in the collection of process {rt} ({where})', e0)
                rb, f = rows[rt][i][3], rows[rt][i][4]
                if rb.op not in ('list', 'tuple'):
                    raise Stop(f'process {rt} collects without a buffer ({where})', e0)
                c, counts, displs, typ = parts_of(rb)
                whole = f(c)
                n = f(counts)
                n = [int(q) for q in (n.data if isinstance(n, Nd) else n)]
                u = int(unit(f, typ))
                d = None if displs is None or displs is T.NONE else [int(q) for q in (lambda z: z.data if isinstance(z, Nd) else z)(f(displs))]
                cell = mem[rt].setdefault(c, list(whole.data))
                at = 0
                for p in range(size):
                    data = rows[p][i][1]
                    if len(data) != n[p] * u:
                        raise Stop(f'process {p} sends {len(data)} values, process {rt} expects {n[p] * u} ({where})', rows[p][i][0])
                    o = at if d is None else d[p] * u
                    if o + len(data) > len(cell):
                        raise Stop(f'values of process {p} do not fit in the buffer of process {rt} ({where})', rows[rt][i][0])
                    cell[o:o + len(data)] = data
                    at += len(data)
    for p in range(size):
        for k, es in wait[p].items():
            if es and k[0] == 'I':
                raise Stop(f'{len(es)} {k} of process {p} never waited for ({where})', es[0])
    for p in range(size):
        f = ranks[p]
        v = value
        while v.op == 'ite':
            v = v.args[1] if f(v.args[0]) else v.args[2]
        f2 = f.with_({c: Nd(f(c).shape, x) for c, x in mem[p].items()})
        got = f2(v)
        n, s = block(_prod(w.shape), size, p)
        want = [(t, q, x) for t in range(ts, te) for x in range(s, s + n) for q in range(NVAR)]
        if tuple(got.shape) != (te - ts, n, NVAR):
            raise Stop(f'the part of process {p} has shape {tuple(got.shape)}, not {(te - ts, n, NVAR)} ({where})', None)
        if got.data != want:
            i = next(i for i, (a, b) in enumerate(zip(got.data, want)) if a != b)
            raise Stop(f'entry {i} of the part of process {p} is {show(got.data[i])}, not {show(want[i])} ({where})', None)


def show(x):
    return f'snapshot {x[0]}, variable {x[1]}, point {x[2]}' if isinstance(x, tuple) else 'zero'


def worlds():
    for kind, lens in (('NetCDF', (2, 3, 2)), ('NetCDF', (4, 1, 2)), ('MATLAB', (1, 1, 1, 1))):
        for shape in (((2, 3), (5,)) if kind == 'NetCDF' else ((2, 1, 3), (1, 5, 1))):
            for version, limit in ((4, 1), (3, 10 ** 9), (3, 1)):
                yield World(kind, lens, shape, version, limit)


def check(ctx):
    ctx.rule('exchange', 'get_data_for_time(s, e) returns on every process snapshots s to e of its own part of space, each value in its place, whatever file holds it')
    ctx.rule('chunks', 'the chunks kept in memory follow each other without gap or overlap from the first snapshot to the last, each holding its snapshots')
    ctx.rule('block', 'the rows of a data block are the snapshots of the block, from whatever chunks hold them, and a chunk still needed is kept')
    ctx.rule('mean', 'the time average is taken over all chunks')
    progs = programs(ctx)
    n = 0
    for w in worlds():
        r, rd, value, evs = progs[w.kind]
        ev = [e for e in evs if e.kind in ('p2p', 'assert') or e.kind == 'coll' and 'gatherv' in e.name.lower() or is_wait(e)]
        ctx.need(any(e.kind == 'p2p' for e in ev), f'{w.kind}: no message')
        for size in (1, 2, 4):
            for ts, te in ((0, w.nt), (1, w.nt - 1), (2, 3), (0, 2)):
                name = f'{w.kind} files, MPI {w.version}{", large" if w.limit == 1 else ""}'
                site = ev[0].site
                try:
                    simulate(w, value, ev, size, ts, te)
                    n += 1
                    ctx.ob('exchange', f'{name}, {size} processes, {ts}:{te}, {w.shape}', True, site)
                except Stop as ex:
                    ctx.ob('exchange', name, False, ex.args[1].site if ex.args[1] is not None else site, ex.args[0])
                    return
                except (ValueError, IndexError, KeyError, AttributeError) as ex:
                    ctx.ob('exchange', name, False, site, f'{type(ex).__name__} {ex} ({size} processes, snapshots {ts} to {te})')
                    return
                except ident.Undecided as ex:
                    ctx.need(False, f'{name}: {ex}')
    ctx.floor('exchanges simulated', n, 200)
    for kind, (r, rd, value, evs) in progs.items():
        chunks(ctx, kind, r, rd)
        blocks(ctx, kind, r)
        mean(ctx, kind, r)


def chunks(ctx, kind, r, rd):
    a = r.st.inst[rd.iid]
    cls = 'reader_2stage' if kind == 'NetCDF' else 'reader_mat'
    ctx.need('_nchunks' in a and '_shape' in a, 'attributes of the reader')
    nch = r.ip.val(a['_nchunks'], r.st)
    lib = World(kind, (5, 4, 5) if kind == 'NetCDF' else (1,) * 4, (2, 3) if kind == 'NetCDF' else (1, 2, 3), 4, 1)
    keep = dict(r.ip.overrides)
    qual = f'pyspod.utils.reader.{cls}.get_data_for_time'
    r.ip.overrides[qual] = lambda ip, aa, k, n, st: ip.new(st, 'arr', T.getitem(DATA, ix(T.sl(ip.val(aa[1], st), ip.val(aa[2], st)))))
    a['_nchunks'] = NCH
    v = r.val(r.call(r.method(rd, 'get_data'), [], {}))
    r.ip.overrides.clear()
    r.ip.overrides.update(keep)
    a['_nchunks'] = nch
    ctx.need(not r.ip.unknown, f'{kind}: {r.ip.unknown[:1]}')
    site = (r.method(rd, 'get_data').fn.rel, r.method(rd, 'get_data').fn.node.lineno, f'{cls}.get_data') if hasattr(r.method(rd, 'get_data'), 'fn') else None
    site = site or r.ip.effects[-1].site
    for nchk in (1, 2, 3, 4, 5):
        for nt in ((9, 10, 14) if kind == 'NetCDF' else (4,)):
            if kind == 'NetCDF':
                lib = World(kind, (2, 3, nt - 5), (2, 3), 4, 1)
            rows = Nd((nt, 2, 2), [(t, x, q) for t in range(nt) for x in range(2) for q in range(2)])
            name = f'{kind} files, {nt} snapshots in {nchk} chunks'
            try:
                d = Small({NCH: Fr(nchk), SIZE: Fr(2), RANK: Fr(0)}, None, {DATA: rows}, lib.extra)(v)
                at = 0
                bad = '' if isinstance(d, tuple) and d[:1] == ('dict',) else 'no dictionary of chunks'
                for k, c in () if bad else d[1:]:
                    m = dict(c[1:])
                    s, e, x = m['s'], m['e'], m['v']
                    if s != at or e < s:
                        bad = f'chunk {k} covers {s} to {e} after {at}'
                    elif x.shape != (e - s, 2, 2) or x.data != rows.data[int(s) * 4:int(e) * 4]:
                        bad = f'chunk {k}, said to cover {s} to {e}, holds other snapshots'
                    if bad:
                        break
                    at = e
                if not bad and at != nt:
                    bad = f'the chunks end at {at}'
                ctx.ob('chunks', name, not bad, site, bad)
            except (ValueError, IndexError, KeyError, AttributeError) as ex:
                ctx.ob('chunks', name, False, site, f'{type(ex).__name__} {ex}')
            except ident.Undecided as ex:
                ctx.need(False, f'{name}: {ex}')
    # number of chunks
    for size in (1, 2, 4, 50):
        for mem in (1, 10 ** 6, 10 ** 9):
            def extra(f, x, lib=lib):
                if (x.op == 'method' or x.op == 'call' and str(x.args[0]) in ('method', 'itemsize')) and 'itemsize' in T.show(x, 4):
                    return Fr(mem)
                return lib.extra(f, x)
            try:
                n = Small({SIZE: Fr(size), RANK: Fr(0)}, None, None, extra)(nch)
            except ident.Undecided as ex:
                ctx.need(False, f'number of chunks: {ex}')
            ctx.ob('chunks', f'{kind} files: number of chunks', isinstance(n, Fr) and n.denominator == 1 and n >= 1, site, f'{n} chunks')


def pieces(cuts, rows):
    """a dictionary of chunks with the given ends"""
    w = _prod(rows.shape[1:])
    out, s = [], 0
    for i, e in enumerate(cuts):
        out.append((Fr(i), ('dict', ('s', Fr(s)), ('e', Fr(e)), ('v', Nd((e - s,) + rows.shape[1:], rows.data[s * w:e * w])))))
        s = e
    return ('dict',) + tuple(out)


def chunk_extra(cur, nt):
    def extra(f, x):
        if x is CHUNKS:
            return cur[0]
        if x.op == 'shape' and 'file_var' in T.show(x, 6):
            return (Fr(nt),) + (Fr(1),) * 4
        if x.op == 'eq' and any(q.op == 'dtype' for q in x.args if isinstance(q, T.Term)):
            return True
        return None
    return extra


def blocks(ctx, kind, r):
    st = r.st.inst[r.inst.iid]
    st['data'] = r.ip.new(r.st, 'dict', CHUNKS)
    n0 = len(r.ip.effects)
    v = r.val(r.call(r.method(r.inst, '_get_block'), [BS, BE], {}))
    ctx.need(not r.ip.unknown, f'{kind}: {r.ip.unknown[:1]}')
    evs = [e for e in r.ip.effects[n0:] if e.kind in ('delitem', 'assert')]
    site = next((e.site for e in r.ip.effects[n0:] if e.kind != 'enter'), None)
    for nt, cuts in ((12, (2, 4, 5, 7, 9, 12)), (12, (4, 8, 12)), (12, (12,)), (12, (1, 1, 3, 3, 8, 12))):
        rows = Nd((nt, 2, 2), [(t, x, q) for t in range(nt) for x in range(2) for q in range(2)])
        for nd, ov in ((4, 0), (4, 2), (3, 1), (6, 3), (5, 4), (7, 6)):
            cur = [pieces(cuts, rows)]
            for b in range((nt - ov) // (nd - ov)):
                s = b * (nd - ov)
                name = f'block {b} of {nd} snapshots every {nd - ov}, chunks ending at {cuts}'
                f = Small({H.NDFT: Fr(nd), BS: Fr(s), BE: Fr(s + nd)}, None, None, chunk_extra(cur, nt))
                try:
                    for e in evs:
                        if e.kind == 'assert' and not f(e.args['cond']):
                            raise Stop('a check of the program fails', e)
                    got = f(v)
                    ok = got.shape == (nd, 4) and got.data == rows.data[s * 4:(s + nd) * 4]
                    ctx.ob('block', f'{kind}: {name}', ok, site, f'the rows are {got.data[::4]}')
                    if not ok:
                        return
                    gone = []
                    for e, g in schedule([e for e in evs if e.kind == 'delitem'], f):
                        gone.append(g(e.args['key']))
                    have = [k for k, _ in cur[0][1:]]
                    if any(k not in have for k in gone) or len(set(gone)) != len(gone):
                        raise Stop('a chunk not there is removed', evs[-1])
                    cur = [('dict',) + tuple(x for x in cur[0][1:] if x[0] not in gone)]
                except Stop as ex:
                    ctx.ob('block', f'{kind}: {name}', False, ex.args[1].site, ex.args[0])
                    return
                except (ValueError, IndexError, KeyError, AttributeError) as ex:
                    ctx.ob('block', f'{kind}: {name}', False, site, f'{type(ex).__name__} {ex}')
                    return
                except ident.Undecided as ex:
                    ctx.need(False, f'{name}: {ex}')


def mean(ctx, kind, r):
    st = r.st.inst[r.inst.iid]
    ref = r.ip.new(r.st, 'dict', CHUNKS)
    st['data'] = ref
    m = r.method(r.inst, 'long_t_mean')
    n0 = len(r.ip.effects)
    v = r.val(r.call(m, [ref], {}))
    ctx.need(not r.ip.unknown, f'{kind}: {r.ip.unknown[:1]}')
    site = r.ip.effects[n0].site
    for nt, cuts in ((4, (1, 3, 4)), (4, (4,)), (4, (2, 2, 4))):
        rows = Nd((nt, 3, 2), [Fr((7 * i * i + 3) % 31) for i in range(nt * 6)])
        want = [sum((rows.data[t * 6 + j] for t in range(nt)), Fr(0)) / nt for j in range(6)]
        try:
            got = Small({}, None, None, chunk_extra([pieces(cuts, rows)], nt if kind == 'MATLAB' else Fr(nt, 3)))(v)
            ctx.ob('mean', f'{kind} files, chunks ending at {cuts}', got.data == want, site, f'{got.data} instead of {want}')
        except (ValueError, IndexError, KeyError, AttributeError) as ex:
            ctx.ob('mean', f'{kind} files', False, site, f'{type(ex).__name__} {ex}')
        except ident.Undecided as ex:
            ctx.need(False, f'mean of chunks: {ex}')
