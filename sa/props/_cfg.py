"""The configurations of every public entry point, shared by the checks that judge effects and parallel behaviour."""
from ._spod import *

U, PU = 'pyspod.spod.utils', 'pyspod.pod.utils'
ALLT = string('all')
NC = dict(data=['a.nc', 'b.nc'], variables=['u'])

FIT = {
    'fit': dict(),
    'fit, single variable': dict(var=False),
    'fit, 1-d space': dict(xd=1),
    'fit, 3-d space': dict(xd=3),
    'fit, complex data': dict(real=False),
    'fit, full spectrum': dict(fullspectrum=TRUE),
    'fit, block mean removed, data normalized': dict(mean_type=string('blockwise'), normalize_data=TRUE),
    'fit, no mean removed': dict(mean_type=string('zero')),
    'fit, weights normalized': dict(normalize_weights=TRUE),
    'fit, blocks saved': dict(savefft=TRUE),
    'fit, blocks reused': dict(reuse_blocks=TRUE),
    'fit, modes kept in memory': dict(savefreq_disk=FALSE),
    'fit, several arrays': dict(data=[('XA', isym('n1', 1)), ('XB', isym('n2', 1))]),
    'streaming fit': dict(cls='Streaming'),
    'streaming fit, complex data': dict(cls='Streaming', real=False),
    'streaming fit, full spectrum': dict(cls='Streaming', fullspectrum=TRUE),
}
FILES = {
    'fit, data from files': dict(NC),
    'fit, data from files, modes distributed by frequency': dict(NC, savefreq_disk=FALSE, savefreq_disk2=TRUE),
    'fit, data from files, single precision': dict(NC, savefreq_disk=FALSE, savefreq_disk2=TRUE, opts=dict()),
}
del FILES['fit, data from files, single precision']
UTIL = {
    'coefficients by projection': (U, 'compute_coeffs_op', {}),
    'coefficients by projection, svd': (U, 'compute_coeffs_op', dict(svd=TRUE)),
    'coefficients by projection, chosen periods': (U, 'compute_coeffs_op', dict(T_lb=isym('T_lb', 1), T_ub=isym('T_ub', 1))),
    'coefficients by convolution': (U, 'compute_coeffs_conv', {}),
    'reconstruction': (U, 'compute_reconstruction', dict(data=False, time_idx=ALLT)),
    'reconstruction from convolution coefficients': (U, 'compute_reconstruction', dict(data=False, disk=dict(conv=True), time_idx=ALLT)),
    'orthogonality': (U, 'check_orthogonality', dict(data=False, args=(lambda r: r.mode_idx, lambda r: r.mode_idx, lambda r: r.freq_idx, lambda r: r.freq_idx))),
    'pod coefficients': (PU, 'compute_coeffs_op', dict(disk=dict(pod=True))),
    'pod reconstruction': (PU, 'compute_reconstruction', dict(data=False, disk=dict(pod=True), time_idx=ALLT)),
}
del UTIL['orthogonality']
POD = {
    'pod fit': {},
    'pod fit, several variables': dict(nv=NV),
    'pod fit, weights normalized': dict(nv=NV, normalize_weights=TRUE),
}


def fields(e):
    """(name, value) pairs of a write"""
    if 'value' in e.args:
        return [('value', e.args['value'])]
    it = e.args.get('items', {})
    return list(it.items() if isinstance(it, dict) else it)


def files(r):
    return [e for e in r.ip.effects if e.kind == 'write']


def literals(p):
    last = p.args[-1] if p.op == 'path' else p
    return tuple(q.args[0] for q in T.subterms(last) if q.op == 'str')


def fname(p):
    return ''.join(x if x.startswith('.') else x for x in literals(p))


def run(ctx, name, par, keep_save=False):
    if name in FIT:
        return S.fit(ctx, par=par, keep_save=keep_save, **FIT[name])
    if name in FILES:
        return S.fit(ctx, par=par, keep_save=keep_save, **FILES[name])
    if name in POD:
        return S.pod(ctx, par=par, keep_save=keep_save, **POD[name])
    if name in PARUTIL:
        return parutil(ctx, name, par)
    mod, f, kw = UTIL[name]
    return S.util(ctx, mod, f, par=par, keep_save=keep_save, **kw)


def parutil(ctx, name, par=True):
    """a function of pyspod.utils.parallel on its own"""
    key = ('parutil', name, par)
    if key not in ctx.runs:
        from ..harness import Run
        r = Run(ctx.repo, parallel=par)
        f, args = PARUTIL[name]
        kw = {}
        for k, v in args.items():
            kw[k] = r.comm if v == 'comm' else r.field(v[0], v[1]) if isinstance(v, tuple) else v
        r.ret = r.call(r.func('pyspod.utils.parallel', f), [], kw)
        ctx.track(r.ip)
        ctx.runs[key] = r
    return ctx.runs[key]


A_ = ('A', 2)
PATH = T.sym('filename', kind='str')
PARUTIL = {
    'npy_save': ('npy_save', dict(comm='comm', filename=PATH, array=A_, axis=isym('axis', 0))),
    'npy_load': ('npy_load', dict(comm='comm', filename=PATH, axis=isym('axis', 0))),
    'distribute': ('distribute', dict(data=A_, comm='comm')),
    'distribute_data': ('distribute_data', dict(data=A_, comm='comm')),
    'distribute_dimension': ('distribute_dimension', dict(data=A_, max_axis=isym('axis', 0), comm='comm')),
    'allreduce': ('allreduce', dict(data=A_, comm='comm')),
    'barrier': ('barrier', dict(comm='comm')),
    'create_subcomm': ('create_subcomm', dict(comm='comm')),
    'pvar': ('pvar', dict(data=A_, comm='comm')),
}


def ndist(name):
    """axes that can be the longest one"""
    if name in FIT:
        k = FIT[name]
        return k.get('xd', 2) + (1 if k.get('var', True) else 0)
    if name in POD:
        return 2 + (POD[name].get('nv') is not None)
    return 3


def maxaxis(v, k):
    """the value when axis k is the one distributed"""
    m = {isym('max_axis', 0): num(k)}
    for s in T.subterms(v):
        if s.op == 'call' and s.args[0] in ARGMAX and s.args[1].op == 'tuple':
            m[s] = num(k)
    return T.subst(v, m)
