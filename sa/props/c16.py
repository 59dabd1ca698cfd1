"""C16 streaming SPOD: block spectra and the recursive update of modes and values"""
from fractions import Fraction as Fr
from ._cfg import *
from ..field import F, Num, Nd, rnd, crnd, conj, matmul, transpose, hstack, vstack, singular, cosine, unity, root, power, canon
from ..small import lift
from .c08 import name as fmtname



def window(nd, pi):
    return [Fr(27, 50) + -Fr(23, 50) * cosine(pi * Fr(2 * j, nd - 1)) for j in range(nd)]


def positive(x):
    """a square, as a positive number has to be"""
    return root(x * x) == x


# a value of pi for which the window sums, which are positive, are squares
PI = next(p for p in (rnd('pi', i) for i in range(4000)) if all(positive(sum(window(n, p), F(0))) for n in (4, 5, 6)))


def spaced(nt, nd, dn):
    """first snapshots of the complete blocks"""
    return list(range(0, nt - nd + 1, dn))


def late(nt, nd, dn):
    """first snapshots of the blocks of the recorded finding: a block summed in the place of an earlier one starts one snapshot late
    whenever a later place has not been advanced yet"""
    t = [-j * dn for j in range(-(-nd // dn))]
    out = []
    for ti in range(nt):
        done = []
        for j in range(len(t)):
            if t[j] == nd - 1:
                done.append(ti - nd + 1)
                t[j] = min(t) - dn
            else:
                t[j] += 1
        out += done[-1:]
    return out


def reference(nt, nd, ov, nsave, X, w, real, starts=spaced):
    """the stated algorithm: X[t][x] data, w[x] weights; returns frequencies x modes arrays"""
    o = -(-nd * ov // 100)
    dn = nd - o
    nb = (nt - o) // dn
    ns = min(nsave, nb)
    win = window(nd, PI)
    gain = sum(win[1:], F.of(win[0]))
    gain = (gain * Fr(1, nd)).inv()
    z = unity(nd).conj()
    nf = nd // 2 + 1 if real else nd
    nx = len(w)
    sw = [root(q) for q in w]
    D = [[(z ** (j * k % nd)) * (2 if real and 0 < k < nf - 1 else 1) for k in range(nf)] for j in range(nd)]
    U = [Nd((nx, ns), [Fr(0)] * (nx * ns)) for _ in range(nf)]
    S = [[Fr(0)] * ns for _ in range(nf)]
    for b, s in enumerate(starts(nt, nd, dn), 1):
        seen = s + nd
        mu = [sum((F.of(X[t][i]) for t in range(seen)), F(0)) * Fr(1, seen) for i in range(nx)]
        for k in range(nf):
            x = [sum((win[j] * D[j][k] * (X[s + j][i] + -mu[i]) for j in range(nd)), F(0)) * gain * Fr(1, nd) * sw[i] for i in range(nx)]
            x = Nd((nx, 1), x)
            Ux = matmul(conj(transpose(U[k])), x)
            up = lift(lambda p, q: p + -q, x, matmul(U[k], Ux))
            n = root(matmul(conj(transpose(up)), up).data[0])
            sc = root(Fr(b + 1)) * Fr(1, b + 2)
            K = hstack([Nd((ns, ns), [F.of(S[k][i]) * root(Fr(b + 2)) if i == j else Fr(0) for i in range(ns) for j in range(ns)]), Ux])
            K = vstack([K, Nd((1, ns + 1), [Fr(0)] * ns + [n])])
            K = lift(lambda p, q: p * q, K, sc)
            u, v = singular(K)
            V = matmul(hstack([U[k], lift(lambda p, q: p * q, up, F.of(n).inv())]), u)
            U[k] = Nd((nx, ns), [V.data[i * V.shape[1] + j] for i in range(nx) for j in range(ns)])
            S[k] = list(v.data[:ns])
    modes = [Nd((nx, ns), [F.of(U[k].data[i * ns + j]) * F.of(sw[i]).inv() for i in range(nx) for j in range(ns)]) for k in range(nf)]
    return modes, S, nb, nf


def leaves(X, W, xn):
    def hook(sm, x):
        if x.op == 'sym' and x.args[0] == 'pi':
            return PI
        if x is xn:
            return X
        if x.op == 'sym' and x.args[0] == 'W':
            return W
        return None
    return hook


def check(ctx):
    ctx.rule('modes', 'the modes stored for every frequency are those of the stated recursion over the complete blocks')
    ctx.rule('values', 'the eigenvalues are the singular values of the stated recursion')
    ctx.rule('spacing', 'consecutive blocks are n_dft - n_overlap snapshots apart')
    ctx.rule('files', 'one file of modes for every frequency')
    n = 0
    for real in (True, False):
        r = S.fit(ctx, cls='Streaming', xd=1, var=False, real=real)
        ctx.need(not r.ip.unknown, f'{r.ip.unknown[:1]}')
        ms = [e for e in files(r) if e.name == 'npy' and 'freq_idx' in ''.join(literals(e.args['path']))]
        ctx.need(len(ms) == 1 and len(ms[0].loops) == 1, 'one statement writes the modes')
        e = ms[0]
        v, cnt = e.loops[0][:2]
        eigs = S.attr(r, '_eigs')
        for nt, nd, ov, ns in ((8, 4, 50, 2), (9, 4, 50, 5), (11, 4, 25, 1), (11, 4, 0, 2), (8, 4, 75, 2), (10, 6, 50, 2), (9, 6, 67, 1)) + (() if real else ((9, 5, 40, 2),)):
            nx = 2
            mk_ = rnd if real else crnd
            Xs = [[mk_('X', t, i, nt) for i in range(nx)] for t in range(nt)]
            w = [Fr((i + 2) ** 2) for i in range(nx)]
            sols = [reference(nt, nd, ov, ns, Xs, w, real, st) for st in (spaced, late)]
            want, sv, nb, nf = sols[0]
            env = {NT: Fr(nt), NDFT: Fr(nd), OVL: Fr(ov), NX[0]: Fr(nx), NV: Fr(1), NSAVE: Fr(ns), RANK: Fr(0), SIZE: Fr(1), DT: Fr(1)}
            sm = Num(env, extra=leaves(Nd((nt, nx), [q for row in Xs for q in row]), Nd((nx,), w), r.X.term if hasattr(r.X, 'term') else r.ip.val(r.X, r.st)))
            what = f'{"real" if real else "complex"} data, {nt} snapshots, n_dft={nd}, overlap={ov}%, {ns} modes'
            got = sm(cnt)
            if not ctx.ob('files', what, got == nf, e.site, f'{got} files for {nf} frequencies'):
                continue
            g = sm(eigs)
            vals = [Nd((nf, min(ns, nb)), [q for s in z[1] for q in s]) for z in sols]
            dn = nd - -(-nd * ov // 100)
            if canon(vals[0]) != canon(vals[1]) and isinstance(g, Nd) and g.shape == vals[1].shape and canon(g) == canon(vals[1]):
                # values and modes are then compared with the recursion over the blocks that were used
                ctx.ob('spacing', what, False, e.site, f'the blocks start at snapshots {late(nt, nd, dn)} instead of {spaced(nt, nd, dn)}')
                want, sv, nb, nf = sols[1]
            else:
                ctx.ob('spacing', what, True, e.site, '')
            ctx.ob('values', what, isinstance(g, Nd) and g.shape == (nf, min(ns, nb)) and canon(g) == canon(Nd((nf, min(ns, nb)), [q for s in sv for q in s])), e.site,
                   f'the eigenvalues differ from those of the recursion over {nb} blocks')
            for k in range(nf):
                f = sm.with_({v: Fr(k)})
                nm = fmtname(f, T.pathnorm(e.args['path']).args[-1])
                ctx.ob('files', what + f', {k}', nm == f'freq_idx_{k:08d}.npy', e.site, f'frequency {k} is written to {nm}')
                m = f(e.args['value'])
                ctx.ob('modes', what + f', frequency {k}', isinstance(m, Nd) and canon(Nd(want[k].shape, m.data)) == canon(want[k]) and m.shape[-1] == min(ns, nb), e.site,
                       f'the modes of frequency {k} differ from those of the recursion over {nb} blocks')
                n += 1
    ctx.floor('modes compared', n, 50)
