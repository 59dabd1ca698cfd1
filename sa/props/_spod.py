"""Shared slices of the SPOD pipeline: block spectra, eigen-decomposition, outputs."""
from .. import terms as T
from ..terms import mk, num, string, NONE, TRUE, FALSE, ALL, ONE, ZERO, END, ix, sl
from .. import study as S, models
from ..harness import isym, spec, NT, NDFT, DT, NV, OVL, NSAVE, NX, CONF, SAVEDIR, RANK, SIZE
from ..prop import NotUnderstood

FFTS = ('rfft', 'fft')


def is_fft(t):
    return t.op == 'call' and t.args[0] in FFTS


def has_fft(t):
    return any(is_fft(s) for s in T.subterms(t))


def sites(t):
    """innermost values holding a block transform inside a binder body: the per-(block, frequency) spectrum entries"""
    out = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op in ('scatter', 'scatter2', 'listcomp', 'sum'):
            v = x.args[-1]
            if has_fft(v) and not any(y.op in ('scatter', 'scatter2', 'listcomp', 'sum') and has_fft(y) for y in T.subterms(v)):
                out.append((x, v))
                return
        for c in T.children(x):
            go(c)
    go(t)
    return out


def qsym(nb, nf, nx):
    """metavariable for the block spectra, indexed [block, frequency]"""
    return T.sym('QHAT_%s_%s_%s' % (nb.key[:6], nf.key[:6], nx.key[:6]), kind='arr', ndim=3, real=False, dims=(nb, nf, nx), dt='c16')


def cut(t, q):
    """replace each per-(block, frequency) spectrum entry by the metavariable q[block, frequency]"""
    def entry(v):
        ffts = [x for x in T.subterms(v) if is_fft(x)]
        blk = {x for f in ffts for x in f.fv if x in v.fv}
        oth = set(v.fv) - blk
        if len(blk) == 1 and len(oth) == 1:
            return T.getitem(q, ix(*blk, *oth))
        return None

    def fn(x, go):
        if x.op in T.BINDERS and has_fft(x.args[-1]) and not any(
                y.op in ('scatter', 'scatter2', 'listcomp', 'sum') and has_fft(y) for y in T.subterms(x.args[-1])):
            bi = T.BINDERS[x.op]
            v = x.args[bi]
            f = T.fresh_var('o', int=True, min=0, real=True)
            bodies = [T.subst(b, {v: f}) for b in x.args[bi + 3:]]
            e = entry(bodies[-1])
            if e is not None:
                bodies = [go(b) for b in bodies[:-1]] + [e]
                return T.close(x.op, [go(a) for a in x.args[:bi]], f, go(x.args[bi + 1]), go(x.args[bi + 2]), bodies)
        return None
    return T.transform(t, fn)


class Sizes:
    def __init__(self, r, var=True):
        self.ovl = spec(r, 'spod', 'overlap', NDFT, OVL)
        self.nb = spec(r, 'spod', 'n_blocks', NT, NDFT, self.ovl)
        self.nfreq1 = T.add(T.floordiv(NDFT, num(2)), ONE)


def find_npy(r, part, **kw):
    """write effects whose path contains the literal part"""
    out = []
    for e in r.ip.effects:
        if e.kind == 'write' and 'path' in e.args:
            if any(s.op == 'str' and part in s.args[0] for s in T.subterms(e.args['path'])):
                out.append(e)
    return out


def dominator(t, pred, ok):
    """smallest closed subterm D accepted by ok such that every occurrence of pred inside t lies inside D"""
    has = {}

    def contains(x):
        r = has.get(x)
        if r is None:
            r = pred(x) or any(contains(c) for c in T.children(x))
            has[x] = r
        return r

    def escapes(d):
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x is d or x in seen or not contains(x):
                continue
            seen.add(x)
            if pred(x):
                return True
            st.extend(T.children(x))
        return False
    best = None
    for x in T.subterms(t):
        if contains(x) and not any(v.args[0].startswith('@') for v in T.freevars(x)) and ok(x) and not escapes(x):
            n = sum(1 for _ in T.subterms(x))
            if best is None or n < best[0]:
                best = (n, x)
    return best[1] if best else None


def is_call(x, *names):
    return x.op == 'call' and isinstance(x.args[0], str) and x.args[0].split('.')[-1] in names


def ordered_eigs(t, nf, nb):
    """the sorted eigenvalue table (frequency x block) inside the reported eigenvalues"""
    def ok(x):
        d = T._dims(x)
        return d is not None and len(d) == 2 and d[0] is nf and d[1] is nb
    return dominator(t, lambda x: is_call(x, 'argsort'), ok)


ARGMAX = ('numpy.argmax', 'argmax')


def erase(t, k=None):
    """the single-process reading of a value computed in a parallel run: rank 0 of 1, global reductions are identities, the longest
    axis is axis k"""
    m = {RANK: ZERO, SIZE: ONE}
    if k is not None:
        for s in T.subterms(t):
            if s.op == 'call' and s.args[0] in ARGMAX and s.args[1].op == 'tuple':
                m[s] = num(k)
        m[isym('max_axis', 0)] = num(k)
    t = T.subst(t, m)

    def fn(x, go):
        if x.op == 'call' and isinstance(x.args[0], str) and x.args[0].startswith('mpi.allreduce'):
            return go(x.args[1])
        if x.op == 'red' and x.args[0] in ('var', 'nanvar') and len(x.args) == 3:
            # variance over all elements, written as the mean squared deviation (data without missing values)
            y = go(x.args[1])
            d = T._dims(y)
            ax = x.args[2]
            full = ax is NONE or d is not None and (ax.op == 'range1' and ax.args == (ZERO, num(len(d)), ONE) or
                                                    ax.op in ('tuple', 'list') and len(ax.args) == len(d))
            if d is not None and full:
                n = T.mul(*d)
                dev = T.sub(y, T.div(T.red('sum', y, NONE), n))
                return T.div(T.red('sum', T.powr(T.tabs(dev), 2), NONE), n)
        if x.op == 'rec':
            ps, nexts, inits, v, k = T.rec_parts(x)
            fs = [T.fresh_var('r', **{a: go(b) if isinstance(b, T.Term) else tuple(go(c) if isinstance(c, T.Term) else c for c in b) if isinstance(b, tuple) else b
                                       for a, b in T.info(q).items()}) for q in ps]
            m = dict(zip(ps, fs))
            return T.rec_system(fs, [go(T.subst(b, m)) for b in nexts], [go(b) for b in inits], v, go(k))
        if x.op == 'call' and x.args[0] == 'numpy.moveaxis':
            y = go(x.args[1])
            d = T._dims(y)
            i, j = T.intval(go(x.args[2])), T.intval(go(x.args[3]))
            if d is not None and i is not None and j is not None:
                p = [q for q in range(len(d)) if q != i % len(d)]
                p.insert(j % len(d), i % len(d))
                return T.transpose(y, tuple(p))
        return None
    return T.transform(t, fn)


def always_raises(r, since=0):
    """exceptions raised on every path"""
    return [e for e in r.ip.effects[since:] if e.kind == 'raise' and e.guard is TRUE and not e.loops]
