"""C08 stored Fourier blocks: a fit that reuses them returns what a fit that computes them returns"""
from fractions import Fraction as Fr
from itertools import product
from ._spod import *
from .. import harness as H
from ..chain import Chain
from ..small import Small
from ..ident import Undecided
from .c23 import last

CFGS = [('several variables', {}), ('single variable', dict(var=False)), ('1-d space', dict(xd=1)), ('3-d space', dict(xd=3)), ('complex data', dict(real=False)),
        ('full spectrum', dict(fullspectrum=TRUE)), ('block mean removed', dict(mean_type=string('blockwise'))), ('no mean removed', dict(mean_type=string('zero'))),
        ('normalized data', dict(normalize_data=TRUE)), ('modes in memory', dict(savefreq_disk=FALSE)), ('single precision', dict(double=False))]


class Blocks(Chain):
    """the files of an earlier fit, each read giving the value that was written"""

    def __call__(self, path, what):
        f = self.look(path)
        if what == 'exists':
            return TRUE if f is not None else None
        if what != 'array' or f is None or f[0].name != 'npy':
            if what == 'array':
                self.missing.append((path, what))
            return None
        e, idx, vs, m = f
        if any(i is None for i in idx) or e.guard is not TRUE:
            self.missing.append((path, what))
            return None
        self.used.add(id(e))
        return T.subst(e.args['value'], {l[0]: i for l, i in zip(e.loops, idx)})


def outputs(r):
    out = {}
    for e in r.ip.effects:
        if e.kind != 'write':
            continue
        p = T.pathnorm(e.args['path'])
        n = p.args[-1] if p.op == 'path' else p
        if e.name == 'npz':
            for k, v in (e.args['items'].items() if isinstance(e.args['items'], dict) else e.args['items']):
                out[T.show(n, 3) + ' ' + k] = (v, e)
        elif e.name == 'npy':
            k = n.args[0] if n.op == 'str' else T.show(mk('cat', *[x if x.op == 'str' else string('#') for x in n.args]), 3)
            out[k] = (T.subst(e.args['value'], {l[0]: T.sym(f'LOOP{i}', int=True, min=0) for i, l in enumerate(e.loops)}), e)
    return out


def compare(ctx, rule, name, r, base, known=None):
    known = known or {}
    a, b = outputs(r), outputs(base)
    n = 0
    for k, (v, e) in b.items():
        ctx.need(k in a, f'{name}: {k} is not written')
        if not ctx.equal(rule, f'{name}: {k}', T.subst(a[k][0], known), v, a[k][1].site):
            return set()
        n += 1
    ctx.floor(f'files compared ({name})', n, 3)
    for k in ('eigs', 'freq', 'n_blocks'):
        ctx.equal(rule, f'{name}: {k}', T.subst(S.attr(r, k), known), S.attr(base, k))
    return set(a) - set(b)


def exist_hook(present):
    def hook(sm, x):
        if x.op == 'exists':
            p = x.args[0]
            n = p.args[-1] if p.op == 'path' else p
            return present(name(sm, n))
        return None
    return hook


def name(sm, n):
    if n.op == 'str':
        return n.args[0]
    if n.op == 'sym':
        v = sm(n)
        return v if isinstance(v, str) else str(v)
    if n.op == 'cat':
        return ''.join(name(sm, x) for x in n.args)
    if n.op == 'fmt':
        s = n.args[1] if isinstance(n.args[1], str) else n.args[1].args[0]
        return format(int(sm(n.args[0])), s or '')
    raise Undecided(f'file name {T.show(n, 3)}')


def check(ctx):
    ctx.rule('unaffected', 'saving the blocks changes no result')
    ctx.rule('stored', 'one file for every block and frequency is written, with the spectrum of that block at that frequency')
    ctx.rule('own', 'blocks of another length or overlap have other files')
    ctx.rule('reused', 'a fit from the stored blocks gives the results of a fit that computes them')
    ctx.rule('complete', 'blocks are read if and only if the file of every block and frequency is there')
    ctx.rule('recomputed', 'without stored blocks the fit computes them')
    for nm, kw in CFGS:
        base = S.fit(ctx, **kw)
        kw2 = dict(kw)
        sv = S.fit(ctx, savefft=TRUE, **kw)
        extra = compare(ctx, 'unaffected', nm, sv, base)
        blocks = [e for e in sv.ip.effects if e.kind == 'write' and e.name == 'npy' and len(e.loops) == 2]
        ctx.need(blocks, f'{nm}: no block file is written')
        d = Blocks(sv, nm)
        for e in blocks:
            has = {x for a in T.subterms(e.args['path']) if a.op == 'fmt' for x in T.subterms(a.args[0])}
            ctx.ob('own', f'{nm}: folder', NDFT in has and OVL in has, e.site, 'fits of different block lengths or overlaps use the same files')
        for both in ((False, True) if nm == 'several variables' else (False,)):
            if both:
                kw2['savefft'] = TRUE
            ru = S.fit(ctx, reuse_blocks=TRUE, opts=dict(disk=d), **kw2)
            tag = nm + (', saved again' if both else '')
            used = [e for e in ru.ip.effects if e.kind == 'read' and e.name in ('npy', 'memmap')]
            for p, what in d.missing:
                ctx.ob('reused', f'{tag}: file read', False, None, f'{T.show(p, 4)} is read, but a fit that saves the blocks does not write it')
            if d.missing:
                return
            ctx.ob('reused', f'{tag}: stored blocks are read', bool(used), blocks[0].site, 'all blocks are there, and none is read')
            short = False
            for e in used:
                f = d.look(e.args['path'])
                ctx.need(f, 'file read')
                w, idx, vs, m = f
                for (v, c, *_), i in zip(w.loops, idx):
                    mine = [l for l in e.loops if l[0] is i]
                    ctx.need(mine, f'{tag}: index of the file read')
                    short |= not ctx.equal('stored', f'{tag}: number of files along {T.show(v, 2).split("#")[0]}', mine[0][1], c, e.site)
            if short:
                return
            compare(ctx, 'reused', tag, ru, base)
        # nothing stored
        nr = S.fit(ctx, reuse_blocks=TRUE, opts=dict(disk=lambda p, what: FALSE if what == 'exists' else None), **kw)
        some = {T.le(S.attr(nr, 'n_blocks'), ZERO): FALSE}       # there is at least one block
        rd = [e for e in nr.ip.effects if e.kind == 'read' and e.name in ('npy', 'memmap') and T.subst(e.guard, some) is not FALSE]
        ctx.ob('recomputed', nm, not rd, rd[0].site if rd else None, 'a block file is read although there is none')
        if not rd:
            compare(ctx, 'recomputed', nm, nr, base, some)
    # some of the files are there
    for par in (False, True):
        r = S.fit(ctx, par=par, reuse_blocks=TRUE)
        sv = S.fit(ctx, par=par, savefft=TRUE)
        rd = [e for e in r.ip.effects if e.kind == 'read' and e.name in ('npy', 'memmap')]
        ctx.need(rd, 'blocks are not read')
        guards = {e.guard for e in rd}
        for nt, nd in ((6, 4), (4, 2), (8, 4)):
            env = {NT: Fr(nt), NDFT: Fr(nd), OVL: Fr(50), RANK: Fr(1), SIZE: Fr(2)}
            sm = Small(env, extra=exist_hook(lambda n: False))
            w = [e for e in sv.ip.effects if e.kind == 'write' and e.name == 'npy' and len(e.loops) == 2 and 'block' in T.show(e.args['path'], 9)]
            ctx.need(w, 'block files')
            names = []
            (v1, c1, *_), (v2, c2, *_) = w[0].loops
            n1 = int(sm(c1))
            for i in range(n1):
                for j in range(int(sm.with_({v1: Fr(i)})(c2))):
                    p = w[0].args['path']
                    names.append(name(sm.with_({v1: Fr(i), v2: Fr(j)}), p.args[-1]))
            sets = [set(names), set()] + [set(names) - {x} for x in names] + [{x} for x in names] + [set(names[:k]) for k in range(1, len(names))] \
                + [set(names[::2]), set(names[1::2])]
            for g in guards:
                for s in sets:
                    got = bool(Small(env, extra=exist_hook(lambda n: n in s))(g))
                    ctx.ob('complete', f'{len(s)} of {len(names)} files there ({n1} blocks)' + (', parallel' if par else ''), got == (s == set(names)), rd[0].site,
                           f'with {sorted(s)} there, blocks are {"read" if got else "not read"}')
