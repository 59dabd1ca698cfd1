"""C22 modes distributed by frequency: message passing of the mode files"""
from fractions import Fraction as Fr
from ._cfg import *
from .. import harness as H, ident
from ..small import Small, Nd, Req

NL, NB = H.isym('n_local', 1), H.isym('n_blk', 1)
QH = T.sym('QHAT', kind='arr', ndim=3, dims=(H.NF, NL, NB), dt='c16', complex=True, real=False)
WL = T.sym('WLOC', kind='arr', ndim=2, dims=(NL, ONE), dt='f8', real=True)


def groups():
    """processes, frequencies, modes, values held by each process, shape of the fields"""
    for size, ns, shape in ((1, (2,), (2, 1, 1)), (2, (2, 2), (2, 2, 1)), (2, (4, 2), (1, 3, 2)), (3, (2, 1, 1), (2, 2, 1)), (3, (1, 1, 0), (1, 2, 1)),
                            (4, (2, 2, 1, 1), (3, 2, 1)), (5, (1, 1, 1, 1, 0), (2, 2, 1))):
        for nf in (1, 2, 3, 5):
            for nm in (1, 2, 3):
                yield size, ns, shape, nf, nm


def program(ctx):
    """the decomposition on the local part of the block spectra"""
    r = run(ctx, 'fit, data from files, modes distributed by frequency', True)
    st = r.st.inst[r.inst.iid]
    for k, v in dict(_n_freq=H.NF, _n_blocks=NB, _n_modes_save=NSAVE, _xshape=tuple(NX[:2]), _nv=NV).items():
        ctx.need(k in st, f'attribute {k}')
        st[k] = v
    st['_weights'] = r.ip.new(r.st, 'arr', WL)
    keep = dict(r.ip.overrides)
    r.ip.overrides['pyspod.utils.parallel.allreduce'] = lambda ip, a, k, n, st: ip.val((list(a) + list(k.values()))[0], st)
    n0 = len(r.ip.effects)
    r.call(r.method(r.inst, '_compute_standard_spod'), [r.ip.new(r.st, 'arr', QH)], {})
    r.ip.overrides.clear()
    r.ip.overrides.update(keep)
    ctx.runs.clear()
    return r, r.ip.effects[n0:]


def is_wait(e):
    return e.name in ('Wait', 'wait') or 'Waitall' in e.name or 'waitall' in e.name


def schedule(evs, f):
    """the program order of the events of one process, loops unrolled"""
    out = []

    def go(es, f, depth):
        i = 0
        while i < len(es):
            e = es[i]
            if len(e.loops) == depth:
                if f(e.guard):
                    out.append((e, f))
                i += 1
                continue
            l = e.loops[depth]
            j = i
            while j < len(es) and len(es[j].loops) > depth and es[j].loops[depth][0] is l[0]:
                j += 1
            n = f(l[1])
            for k in range(int(n)):
                go(es[i:j], f.with_({l[0]: Fr(k)}), depth + 1)
            i = j
    go(evs, f, 0)
    return out


def message(e):
    """(cell, lens, value) of the buffer"""
    b = e.args['bufs'][0]
    if b[0] == 'msg':
        b = b[1][0]
    return b if b[0] == 'buf' else None


def peer(e, which):
    kw, ps = e.args['kwargs'], e.args['args']
    return kw.get(which, ps[1] if len(ps) > 1 else None)


def root(t):
    while t.op in ('getitem', 'store', 'scatter', 'reshape'):
        t = t.args[0]
    return t


class Stop(Exception):
    pass


def simulate(r, evs, size, ns, shape, nf, nm, sent, names):
    """'' or what goes wrong in one group: messages matched, requests completed before their buffers are used, every file written once and complete"""
    envs = []
    for rank in range(size):
        e = {SIZE: Fr(size), RANK: Fr(rank), NSAVE: Fr(nm), H.NF: Fr(nf), NL: Fr(ns[rank]), NV: Fr(shape[2]), NX[0]: Fr(shape[0]), NX[1]: Fr(shape[1]),
             NB: Fr(7)}
        envs.append(e)
    ranks = []
    for e in envs:
        ranks.append(Small(e, ranks))
    where = f'{size} processes with {ns} values, {nf} frequencies, {nm} modes'
    prog = [schedule(evs, f) for f in ranks]
    pos = [0] * size
    posted_s, posted_r = {}, {}           # (src, dst) -> messages in order
    open_req = [[] for _ in range(size)]  # requests not completed
    mem = [{} for _ in range(size)]       # (receive buffer) -> entries
    files = {}
    busy = True
    mx = max(ns)

    def done(q):
        ch = (posted_s if q['kind'] == 'recv' else posted_r).get(q['chan'], [])
        return len(ch) > q['n']

    while busy:
        busy = False
        for p in range(size):
            while pos[p] < len(prog[p]):
                e, f = prog[p][pos[p]]
                if e.kind == 'p2p' and e.name in ('Isend', 'isend', 'Send', 'Issend', 'Ssend'):
                    d = int(f(peer(e, 'dest')))
                    if not 0 <= d < size:
                        raise Stop(f'process {p} sends to process {d} ({where})', e)
                    fm = tuple(int(f(x)) for x in sent[e.seq])
                    ch = posted_s.setdefault((p, d), [])
                    q = dict(kind='send', chan=(p, d), n=len(ch), e=e, fm=fm)
                    ch.append(q)
                    if e.name[0] in 'Ii':
                        open_req[p].append(q)
                    elif not q.get('seen'):
                        q['seen'] = True
                elif e.kind == 'p2p' and e.name in ('Irecv', 'irecv', 'Recv'):
                    s = int(f(peer(e, 'source')))
                    if not 0 <= s < size:
                        raise Stop(f'process {p} receives from process {s} ({where})', e)
                    m = message(e)
                    t = m[3]
                    # positions of the buffer the message goes to
                    whole = f(root(t))
                    lab = Nd(whole.shape, [Fr(i) for i in range(len(whole.data))])
                    f2 = f.with_({root(t): lab})
                    at = [int(q) for q in f2(t).data]
                    ch = posted_r.setdefault((s, p), [])
                    q = dict(kind='recv', chan=(s, p), n=len(ch), e=e, at=at, buf=(m[1], root(t)), size=len(whole.data))
                    ch.append(q)
                    open_req[p].append(q)
                elif is_wait(e):
                    try:
                        rq = f(e.args['args'][0])
                    except ident.Undecided as ex:
                        raise
                    rq = (rq,) if isinstance(rq, Req) else rq
                    rq = [x for x in rq if isinstance(x, Req)]
                    todo = []
                    pool = list(open_req[p])
                    for x in rq:
                        kw = dict(x[1])
                        for q in pool:
                            if x[0] == q['e'].name and kw.get('dest', Fr(q['chan'][1])) == q['chan'][1] and kw.get('source', Fr(q['chan'][0])) == q['chan'][0]:
                                todo.append(q)
                                pool.remove(q)
                                break
                    if not all(done(q) for q in todo):
                        break
                    for q in todo:
                        if q['kind'] == 'recv':
                            arrive(q, posted_s, mem[p], ns, mx, where)
                        open_req[p].remove(q)
                elif e.kind == 'write':
                    key = tuple(int(f(x)) for x in names)
                    buf = None
                    used = root(e.args['value'])
                    while used.op == 'rec':
                        used = root(T.rec_parts(used)[2][0])
                    for q in open_req[p]:
                        if q['kind'] == 'recv' and q['buf'][1] is used:
                            raise Stop(f'process {p} uses data of process {q["chan"][0]} before it has arrived ({where})', q['e'])
                    cells = [v for k, v in mem[p].items() if k[1] is used]
                    if not cells:
                        raise Stop(f'process {p} writes a file that holds nothing received ({where})', e)
                    f2 = f.with_({used: Nd((len(cells[-1]),), cells[-1])})
                    v = f2(e.args['value'])
                    if tuple(v.shape) != tuple(shape):
                        raise Stop(f'the modes written have shape {v.shape}, not {shape} ({where})', e)
                    want = [(key, s, j) for s in range(size) for j in range(ns[s])]
                    if v.data != want:
                        k = next(i for i, (a, b) in enumerate(zip(v.data, want)) if a != b)
                        raise Stop(f'entry {k} of the file of frequency {key[0]}, mode {key[1]} is {show(v.data[k])}, not {show(want[k])} ({where})', e)
                    if key in files:
                        raise Stop(f'the file of frequency {key[0]}, mode {key[1]} is written twice ({where})', e)
                    files[key] = p
                    mem[p].clear()
                pos[p] += 1
                busy = True
    for p in range(size):
        if pos[p] < len(prog[p]):
            raise Stop(f'process {p} waits forever for a message ({where})', prog[p][pos[p]][0])
    for ch in posted_s:
        if len(posted_s[ch]) != len(posted_r.get(ch, ())):
            raise Stop(f'{len(posted_s[ch])} messages from process {ch[0]} to {ch[1]}, {len(posted_r.get(ch, ()))} receives ({where})', posted_s[ch][0]['e'])
    for p in range(size):
        if open_req[p]:
            raise Stop(f'a request of process {p} is never waited for ({where})', open_req[p][0]['e'])
    want = {(f, m) for f in range(nf) for m in range(nm)}
    if set(files) != want:
        k = sorted(want ^ set(files))[0]
        raise Stop(f'the file of frequency {k[0]}, mode {k[1]} is {"not written" if k in want else "written but does not exist"} ({where})',
                   [e for e in evs if e.kind == 'write'][0])
    return len(files)


def show(x):
    return f'value {x[2]} of process {x[1]}, frequency {x[0][0]}, mode {x[0][1]}' if isinstance(x, tuple) else 'padding'


def arrive(q, posted_s, mem, ns, mx, where):
    m = posted_s[q['chan']][q['n']]
    src = q['chan'][0]
    cell = mem.setdefault(q['buf'], [Fr(0)] * q['size'])
    data = [(m['fm'], src, j) for j in range(ns[src])] + ['pad'] * (mx - ns[src])
    if len(q['at']) < mx:
        raise Stop(f'message of {mx} values received into {len(q["at"])} ({where})', q['e'])
    for i, x in zip(q['at'], data):
        cell[i] = x


def instance(pat, v, F, M):
    """the (frequency, mode) of which v is the value"""
    cand = []
    for x in T.subterms(v):
        if x.op == 'getitem':
            cand += [i for i in x.args[1].args if i.op != 'sl' and T.kind(i) == 'sc' and i not in cand and not any(y.args[0].startswith('@') for y in T.freevars(i))]
    for a in cand:
        p = T.subst(pat, {F: a})
        for b in cand:
            if T.subst(p, {M: b}) is v:
                return {F: a, M: b}
    return None


def formatted(p):
    out = []

    def go(x):
        if x.op == 'fmt':
            out.append(x.args[0])
        elif x.op in ('cat', 'path'):
            for c in x.args:
                go(c)
    go(p)
    return out


def check(ctx):
    ctx.rule('content', 'every message carries the locally held values of one mode of one frequency, at the start of a buffer as long as the largest part')
    ctx.rule('file', 'the file of a mode is named after its frequency and mode, as get_modes_at_freq reads it')
    ctx.rule('messages', 'in every group, each receive gets the message meant for it, is completed before its data are used, and nobody waits forever; '
             'every (frequency, mode) is written exactly once, complete and in the order of the processes')
    r, evs = program(ctx)
    ctx.need(not r.ip.unknown, str(r.ip.unknown[:1]))
    evs = [e for e in evs if e.kind == 'p2p' or is_wait(e) or (e.kind == 'write' and e.name == 'npy')]
    sends = [e for e in evs if 'send' in e.name.lower()]
    writes = [e for e in evs if e.kind == 'write']
    ctx.need(sends, 'no message is sent')
    ctx.need(len(writes) == 1, 'one write of mode files')
    # content
    F, M = T.fresh_var('f', int=True, min=0), T.fresh_var('m', int=True, min=0)
    phi = T.getitem(spec(r, 'spod', 'modes_of', QH, WL, H.NF, NB, F, NSAVE), ix(T.ALL, M))
    sent = {}
    for e in sends:
        b = message(e)
        ctx.need(b is not None, 'buffer of a message')
        v = T.getitem(b[3], ix(T.sl(ZERO, NL)))
        m = instance(phi, v, F, M)
        ok = bool(m)
        ctx.ob('content', 'message', ok, e.site, f'the values sent, {T.show(v, 5)}, are not those of one mode ({T.show(phi, 5)})')
        if not ok:
            return
        sent[e.seq] = (m[F], m[M])
        d = T._dims(b[3])
        ctx.need(d is not None and len(d) == 1, 'size of a message buffer')
        fresh(ctx, r, e, b)
    # name
    w = writes[0]
    p = w.args['path']
    names = formatted(p.args[-1])
    good = [T.cat(string('freq_idx_f'), T.fmt(x, '08d'), string('_m'), T.fmt(y, '08d'), string('.npy')) for x, y in (names,)] if len(names) == 2 else []
    ctx.ob('file', 'mode file', p.args[-1] in good, w.site, f'{T.show(p, 5)} is not freq_idx_f<frequency>_m<mode>.npy')
    ctx.ob('file', 'directory of the mode files', p.op == 'path' and len(p.args) > 1 and p.args[-2] is string('modes'), w.site, f'{T.show(p, 5)} is not in the modes directory')
    if p.args[-1] not in good:
        return
    n = 0
    for g in groups():
        size, ns, shape, nf, nm = g
        try:
            n += simulate(r, evs, size, ns, shape, nf, nm, sent, names)
            ctx.ob('messages', f'{size} processes, {nf} frequencies, {nm} modes, {ns}', True, w.site)
        except Stop as ex:
            ctx.ob('messages', 'distribution of the modes', False, ex.args[1].site, ex.args[0])
            return
        except (ValueError, IndexError) as ex:
            ctx.ob('messages', 'distribution of the modes', False, w.site, f'{ex} ({size} processes with {ns} values, {nf} frequencies, {nm} modes)')
            return
        except ident.Undecided as ex:
            ctx.need(False, f'message schedule: {ex}')
    ctx.floor('mode files in the schedules', n, 100)


def fresh(ctx, r, e, b):
    """the buffer of a message is its own until the message is delivered"""
    if e.name in ('Send', 'Ssend'):
        return
    li = e.loops[-1][3] if e.loops else None
    first = getattr(li, 'cell0', None)
    if first is not None:
        ctx.ob('messages', 'buffer of a message', b[1] >= first, e.site, 'the buffer is used again for the next message before this one is delivered')
