"""Standard interpretations of the entry points, shared by the property checks."""
from . import terms as T
from . import interp as I
from .terms import mk, num, string, NONE, TRUE, FALSE
from .harness import *          # noqa: F401,F403
from .harness import Run


def prim_npy_save(ip, args, kwargs, n, st):
    names = ['comm', 'filename', 'array', 'axis']
    d = dict(zip(names, args))
    d.update(kwargs)
    comm = d.get('comm', NONE)
    v = ip.val(d['array'], st) if 'array' in d else NONE
    ip.effect('write', 'npy', n, st, path=T.pathnorm(ip.val(d['filename'], st)) if 'filename' in d else NONE, value=v,
              axis=ip.val(d.get('axis', T.ZERO), st), how='npy_save', collective=not (isinstance(comm, T.Term) and comm is NONE))
    return NONE


def base_params(xd=2, nv=NV, **kw):
    p = dict(n_dft=NDFT, time_step=DT, n_space_dims=num(xd), n_variables=nv, overlap=OVL, savedir=SAVEDIR,
             n_modes_save=NSAVE, conf_level=CONF, mean_type=string('longtime'))
    p.update(kw)
    return {k: v for k, v in p.items() if v is not None}


def fit(ctx, cls='Standard', par=False, xd=2, var=True, data=None, variables=None, real=True, double=True, weights=True,
        keep_save=False, opts=None, **params):
    """SPOD fit under one configuration; memoised per check run"""
    key = ('fit', cls, par, xd, var, repr(data), repr(variables), real, double, weights, keep_save, repr(opts),
           tuple(sorted((k, str(v)) for k, v in params.items())))
    if key in ctx.runs:
        return ctx.runs[key]
    r = Run(ctx.repo, parallel=par, double=double, **(opts or {}))
    if not keep_save:
        r.ip.overrides['pyspod.utils.parallel.npy_save'] = prim_npy_save
    p = base_params(xd, NV if var else num(1), **params)
    kw = {'comm': r.comm}
    r.params = r.dict(p, prov='user:params')
    if weights:
        r.W = r.field('W', xd, var, False)
        kw['weights'] = r.dict({'weights': r.W, 'weights_name': string('w')}, prov='user:weights')
    if data is None:
        r.X = r.field('X' if real else 'XC', xd, var, real=real)
        lst = r.list([r.X], prov='user:data_list')
    else:
        lst = r.list([string(x) if isinstance(x, str) else r.field(x[0], xd, var, nt=x[1]) for x in data], prov='user:data_list')
    r.inst = r.new(r.cls('pyspod.spod.' + cls.lower(), cls), [r.params], kw)
    fkw = {} if variables is None else {'variables': r.list([string(v) for v in variables])}
    r.ret = r.call(r.method(r.inst, 'fit'), [lst], fkw)
    ctx.track(r.ip)
    r.keep = (data, variables, opts, params)      # the key uses their identity
    ctx.runs[key] = r
    return r


def attr(r, name):
    return r.val(r.attr(r.inst, name))


def writes(r, kind='write'):
    return [e for e in r.ip.effects if e.kind == kind]


def util(ctx, mod, fname, par=False, xd=2, nv=None, data=True, args=(), double=True, keep_save=False, disk=None, real=True, **kw):
    """a function of a utils module on stored results; memoised per check run"""
    key = ('util', mod, fname, par, xd, nv, data, repr(args), double, keep_save, repr(sorted((disk or {}).items())), real,
           tuple(sorted((k, str(v)) for k, v in kw.items())))
    if key in ctx.runs:
        return ctx.runs[key]
    nv = NV if nv is None else nv
    dk = Disk(xd, nv, **(disk or {}))
    r = Run(ctx.repo, parallel=par, double=double, disk=dk)
    r.disk = dk
    if not keep_save:
        r.ip.overrides['pyspod.utils.parallel.npy_save'] = prim_npy_save
    a = []
    if data:
        r.X = r.field('X' if real else 'XC', xd, nv is not num(1), real=real)
        a.append(r.X)
    a += [SAVEDIR] + [x(r) if callable(x) else x for x in args]
    r.keep = (args, disk, dict(kw))
    kw = {k: (x(r) if callable(x) else x) for k, x in kw.items()}
    r.ret = r.call(r.func(mod, fname), a, dict(comm=r.comm, **kw))
    ctx.track(r.ip)
    ctx.runs[key] = r
    return r


def pod(ctx, par=False, xd=2, nv=num(1), double=True, keep_save=False, weights=True, data=None, **params):
    key = ('pod', par, xd, nv, double, keep_save, weights, repr(data), tuple(sorted((k, str(v)) for k, v in params.items())))
    if key in ctx.runs:
        return ctx.runs[key]
    r = Run(ctx.repo, parallel=par, double=double)
    if not keep_save:
        r.ip.overrides['pyspod.utils.parallel.npy_save'] = prim_npy_save
    p = dict(time_step=DT, n_space_dims=num(xd), n_variables=nv, savedir=SAVEDIR, n_modes_save=NSAVE)
    p.update(params)
    r.params = r.dict({k: v for k, v in p.items() if v is not None}, prov='user:params')
    kw = {'comm': r.comm}
    var = nv is not num(1)
    if weights:
        r.W = r.field('W', xd, var, False)
        kw['weights'] = r.dict({'weights': r.W, 'weights_name': string('w')}, prov='user:weights')
    r.keep = (params, data)
    if data is None:
        r.X = r.field('X', xd, var)
        lst = [r.X]
    else:
        lst = [r.field(x[0], xd, var, nt=x[1]) for x in data]
    r.inst = r.new(r.cls('pyspod.pod.standard', 'Standard'), [r.params], kw)
    r.ret = r.call(r.method(r.inst, 'fit'), [r.list(lst, prov='user:data_list')])
    ctx.track(r.ip)
    ctx.runs[key] = r
    return r
