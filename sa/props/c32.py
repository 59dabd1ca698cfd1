"""C32 weights of the inner product"""
from ._cfg import *
from . import _merge


def wfile(ctx, r, c):
    w = [e for e in files(r) if 'weights' in str(literals(e.args['path']))]
    ctx.need(w, f'{c}: no weights file is written')
    return w


def plain(v):
    """value up to the floating-point type and a reshape to a column and back"""
    def fn(x, go):
        if x.op == 'astype':
            return go(x.args[0])
        if x.op == 'reshape' and x.args[0].op in ('reshape', 'astype'):
            return T.reshape(go(x.args[0]), x.args[1])
        return None
    return T.transform(v, fn)


def check(ctx):
    ctx.rule('given', 'weights passed by the user are used and stored as they are, in the spatial and variable shape of the data')
    ctx.rule('uniform', 'without weights the weights are one')
    ctx.rule('normalized', 'with normalisation the weights of every variable are divided by the variance of that variable over all snapshots and points')
    ctx.rule('merge', 'over several processes the variance is that of all data: the statistics of two pieces combine to those of their union, for pieces of any size')
    for name, f, kw in (('spod', S.fit, {}), ('spod, 1-d space', S.fit, dict(xd=1)), ('spod, 3-d space', S.fit, dict(xd=3)), ('spod, single variable', S.fit, dict(var=False)),
                        ('streaming spod', S.fit, dict(cls='Streaming')), ('spod, complex data', S.fit, dict(real=False)),
                        ('pod', S.pod, {}), ('pod, several variables', S.pod, dict(nv=NV))):
        xd = kw.get('xd', 2)
        one = kw.get('var') is False or (f is S.pod and 'nv' not in kw)
        nv = ONE if one else NV
        dims = mk('tuple', *NX[:xd], nv)
        for par in (False, True):
            r = f(ctx, par=par, **kw)
            w = r.val(r.W)
            for e in wfile(ctx, r, name):
                for k in (range(xd + (not one)) if par else (None,)):
                    v = e.args['value'] if k is None else erase(e.args['value'], k)
                    ctx.equal('given', name + (f', distributed over axis {k}' if par else ''), v, T.reshape(w, dims) if one else w, e.site)
            r = f(ctx, par=par, weights=False, **kw)
            for e in wfile(ctx, r, name):
                for k in (range(xd + (not one)) if par else (None,)):
                    v = e.args['value'] if k is None else erase(e.args['value'], k)
                    if v.op == 'astype':
                        v = v.args[0]
                    want = spec(r, 'coeffs', 'uniform', dims)
                    ctx.equal('uniform', name + (f', distributed over axis {k}' if par else ''), v, want, e.site)
            if one or kw.get('cls') == 'Streaming':
                continue
            r = f(ctx, par=par, normalize_weights=TRUE, **kw)
            want = spec(r, 'coeffs', 'weights_by_variance', r.val(r.W), r.val(r.X), num(xd), nv)
            for e in wfile(ctx, r, name):
                for k in (range(xd) if par else (None,)):
                    v = plain(erase(e.args['value'], 0 if k is None else k))
                    ctx.equal('normalized', name + (f', distributed over axis {k}' if par else ''), v, erase(want, 0), e.site)
            if par:
                ctx.need(_merge.merges(r), f'{name}: no reduction of the variance')
                _merge.judge(ctx, name, r, 'merge')
