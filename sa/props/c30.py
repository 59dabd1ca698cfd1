"""C30 error norms"""
from ._spod import *
from .. import harness as H
from ..harness import Run

NT_ = H.isym('nsteps', 1)
D1, D2 = H.isym('d1', 1), H.isym('d2', 1)
NORMS = ('l1', 'l2', 'linf', 'l1_rel', 'l2_rel', 'linf_rel')
ER = 'pyspod.utils.errors'


def check(ctx):
    ctx.rule('norms', 'compute_l_errors is sum|e|/n, sqrt(sum|e|^2)/n, max|e| of e = data - reference over all n entries, or of e/|reference|')
    ctx.rule('h1', 'compute_h_errors is sqrt(sum_t dt sum |d/dt (data - reference)|^2) with backward differences in time')
    ctx.rule('unknown norm', 'an unknown norm is rejected')
    ctx.rule('default', 'the default norms are l2 and h1')
    for real in (True, False):
        for nd in (1, 2, 3):
            dims = (NT_, D1, D2)[:nd]
            n = T.mul(*dims)
            kind = f"{nd}-d {'real' if real else 'complex'}"

            def arrays():
                r = Run(ctx.repo)
                return r, r.arr('EA', nd, dims=dims, real=real), r.arr('EB', nd, dims=dims, real=real)
            for nt in NORMS + (None,):
                r, a, b = arrays()
                v = r.val(r.call(r.func(ER, 'compute_l_errors'), [a, b], dict(norm_type=string(nt)) if nt else {}))
                ctx.track(r.ip)
                ctx.need(not r.ip.unknown, f'{kind} {nt}: {r.ip.unknown[:1]}')
                ctx.equal('norms' if nt else 'default', f'{kind} {nt or "l2"}', v, spec(r, 'errors', nt or 'l2', r.val(a), r.val(b), n))
            for nt in ('h1', None):
                r, a, b = arrays()
                v = r.val(r.call(r.func(ER, 'compute_h_errors'), [a, b, DT], dict(norm_type=string(nt)) if nt else {}))
                ctx.track(r.ip)
                ctx.equal('h1' if nt else 'default', f'{kind} h1', v, spec(r, 'errors', 'h1', r.val(a), r.val(b), DT, NT_))
            for f, extra in (('compute_l_errors', []), ('compute_h_errors', [DT])):
                r, a, b = arrays()
                r.call(r.func(ER, f), [a, b] + extra, dict(norm_type=string('no_such_norm')))
                ctx.track(r.ip)
                es = always_raises(r)
                ctx.ob('unknown norm', f'{f} {kind}', bool(es), es[0].site if es else None, 'no exception is raised')
