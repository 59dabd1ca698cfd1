"""Entry-point configurations: symbolic inputs for the analysed entry points."""
import re
from . import terms as T
from . import interp as I
from .terms import sym, string, num, NONE, TRUE, FALSE, mk


def isym(name, lo=0, **kw):
    return sym(name, int=True, min=lo, real=True, **kw)


RANK = isym('rank', 0)
SIZE = isym('size', 1)
NDFT = isym('n_dft', 4)
DT = sym('dt', real=True, pos=True)
NV = isym('nv', 1)
OVL = sym('overlap', real=True, min=0)
NSAVE = isym('n_modes_save', 1)
NT = isym('nt', 1)
NX = [isym('nx', 1), isym('ny', 1), isym('nz', 1)]
CONF = sym('conf_level', real=True, pos=True)
SAVEDIR = sym('savedir', kind='str')


_NAMES = {}


class Run:
    """one interpretation of an entry point under one configuration"""

    def __init__(self, repo, double=True, parallel=False, **opts):
        self.repo = repo
        self.ip = I.Interp(repo, double=double, **opts)
        self.double = double
        self.st = I.State()
        self.parallel = parallel
        self.comm = NONE
        if parallel:
            self.st.facts += (T.lt(RANK, SIZE), T.le(T.ZERO, RANK))
            self.comm = I.Obj('comm', rank=RANK, size=SIZE)

    def arr(self, name, ndim, real=True, user=True, **kw):
        kw.setdefault('dt', ('f8' if real else 'c16') if self.double else None)
        if not real:
            kw['complex'] = True
        base = name
        while _NAMES.setdefault(name, (ndim, real, tuple(sorted((k, str(v)) for k, v in kw.items())))) != \
                (ndim, real, tuple(sorted((k, str(v)) for k, v in kw.items()))):
            name += "'"
        t = sym(name, kind='arr', ndim=ndim, real=real, **kw)
        return self.ip.new(self.st, 'arr', t, prov='user:' + base if user else None)

    def field(self, name, xdim, var=True, time=True, nt=None, nv=None, **kw):
        """space(-time) array (nt, nx, ny, .., nv)"""
        d = ([nt if nt is not None else NT] if time else []) + NX[:xdim] + ([NV if nv is None else nv] if var else [])
        return self.arr(name, len(d), dims=tuple(d), **kw)

    def dict(self, d, prov=None):
        r = self.ip.new(self.st, 'dict', items=(), prov=prov)
        self.ip.quiet += 1
        for k, v in d.items():
            self.ip.dict_set(self.st, r, string(k), v, None)
        self.ip.quiet -= 1
        return r

    def list(self, xs, prov=None):
        return self.ip.new(self.st, 'list', items=tuple(xs), prov=prov)

    def cls(self, mod, name):
        m = self.repo.modules[mod]
        return I.Cls(m.classes[name], m)

    def func(self, mod, name):
        m = self.repo.modules[mod]
        return I.Func(m.funcs[name], m)

    def method(self, inst, name):
        return self.ip.getattr(inst, name, None, None, self.st)

    def call(self, f, args=(), kwargs=None):
        return self.ip.call(f, list(args), dict(kwargs or {}), None, self.st)

    def new(self, cls, args=(), kwargs=None):
        return self.ip.instantiate(cls, list(args), dict(kwargs or {}), None, self.st)

    def attr(self, inst, name):
        return self.ip.getattr(inst, name, None, None, self.st)

    def val(self, v):
        return self.ip.val(v, self.st)

    def effects(self, kind=None, name=None):
        return [e for e in self.ip.effects if (kind is None or e.kind == kind) and (name is None or e.name == name)]


_SPECS = {}


def spec(r, mod, name, *args, **kw):
    """value of a reference formula (sa/spec/<mod>.py) on the symbols of run r, in the same normal form"""
    import os
    from . import front
    if mod not in _SPECS:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec', mod + '.py')
        _SPECS[mod] = front.Module('spec.' + mod, p, open(p).read())
    m = _SPECS[mod]
    r.ip.quiet += 1
    stm = r.ip.stmts, r.ip.calls, dict(r.ip.visited)
    try:
        st = I.State()
        st.facts = r.st.facts
        st.heap = r.st.heap
        args = [r.ip.new(st, 'arr', a) if isinstance(a, T.Term) and T.kind(a) == 'arr' else a for a in args]
        v = r.ip.call(I.Func(m.funcs[name], m), args, dict(kw), None, st)
        return r.ip.val(v, st)
    finally:
        r.ip.quiet -= 1
        r.ip.stmts, r.ip.calls, r.ip.visited = stm


NF = isym('n_freq', 1)
NC = isym('n_coeffs', 1)


def basename(p):
    last = p.args[-1] if p.op == 'path' else p
    return last


class Disk:
    """stored results as a configuration: weights, eigenvalues, parameters, mode files (one per frequency), coefficients"""

    def __init__(self, xd=2, nv=NV, real_modes=False, conv=False, pod=False, nt=NT, split=False):
        self.split = split              # one file per (frequency, mode)
        sp = tuple(NX[:xd]) + (nv,)
        self.sp = sp
        a = lambda name, dims, real=True: sym('FILE_' + name, kind='arr', ndim=len(dims), real=real, dims=tuple(dims),
                                              dt='f8' if real else 'c16', **({} if real else {'complex': True}))
        self.W = a(f'weights{len(sp)}{nv.key[:4]}', sp)
        self.LTM = a(f'ltm{len(sp)}{nv.key[:4]}', sp)
        self.FREQ = a('freq', (NF,))
        self.EIGS = a('eigs', (NF, isym('nb_', 1)))
        self.MODES = a(f'modes{len(sp)}{nv.key[:4]}', (NF,) + sp + (NSAVE,), real_modes)
        self.PMODES = a(f'pmodes{len(sp)}{nv.key[:4]}', sp + (NSAVE,), True)
        if conv:
            self.COEFFS = a('coeffs3', (NC, nt, NSAVE), False)
            self.MODES_R = a(f'modes_r3{len(sp)}{nv.key[:4]}', sp + (NC, NSAVE), False)
        else:
            self.COEFFS = a('coeffs' + str(pod), (NC, nt), pod)
            self.MODES_R = a(f'modes_r{len(sp)}{nv.key[:4]}{pod}', sp + (NC,), pod)
        self.params = dict(n_space_dims=num(xd), n_variables=nv, n_freq=NF, n_dft=NDFT, n_modes_save=NSAVE, time_step=DT,
                           max_axis=isym('max_axis', 0), savedir=SAVEDIR, results_folder=SAVEDIR)

    def per_mode(self, path, name, parts, what):
        """names and contents of the mode files when every mode has its own"""
        if what == 'exists' and (re.fullmatch(r'freq_idx_\d{8}\.npy', name or '') or
                                 len(parts) == 3 and parts[0] is string('freq_idx_') and parts[2] is string('.npy')):
            return FALSE
        if what == 'glob':
            if name is not None and re.fullmatch(r'freq_idx_f\d{8}_m\*\.npy', name):
                lead = [string(name[:name.index('*')])]
            elif len(parts) == 3 and parts[0] is string('freq_idx_f') and parts[1].op == 'fmt' and parts[1].args[1:] in (('08d',), (string('08d'),)) \
                    and parts[2] is string('_m*.npy'):
                lead = [parts[0], parts[1], string('_m')]
            else:
                return None
            v = T.fresh_var('mode', int=True, min=0)
            f = T.cat(*lead, T.fmt(v, '08d'), string('.npy'))
            return v, NSAVE, T.join(*path.args[:-1], f) if path.op == 'path' else f
        if what == 'array':
            m = re.fullmatch(r'freq_idx_f(\d{8})_m', parts[0].args[0]) if parts and parts[0].op == 'str' else None
            if m and len(parts) == 3 and parts[1].op == 'fmt':
                return T.getitem(self.MODES, mk('ix', num(int(m.group(1))), *[T.ALL] * len(self.sp), parts[1].args[0]))
            if len(parts) == 5 and parts[0] is string('freq_idx_f') and parts[2] is string('_m') and parts[1].op == parts[3].op == 'fmt':
                return T.getitem(self.MODES, mk('ix', parts[1].args[0], *[T.ALL] * len(self.sp), parts[3].args[0]))
        return None

    def __call__(self, path, what):
        b = basename(path)
        name = b.args[0] if b.op == 'str' else None
        parts = b.args if b.op == 'cat' else ()
        if self.split:
            r = self.per_mode(path, name, parts, what)
            if r is not None:
                return r
        m = re.fullmatch(r'freq_idx_(\d{8})\.npy', name or '')
        if m:
            return TRUE if what == 'exists' else T.getitem(self.MODES, mk('ix', num(int(m.group(1))))) if what == 'array' else None
        if what == 'exists':
            if parts and parts[0] is string('freq_idx_') and parts[-1] is string('.npy'):
                return TRUE
            return None
        if what == 'dict':
            return dict(self.params) if name in ('params_modes.yaml', 'params_coeffs.yaml') else None
        if what == 'npz':
            return dict(freq=self.FREQ, eigs=self.EIGS) if name == 'eigs_freq.npz' else None
        if what == 'array':
            if name in ('weights.npy', 'ltm.npy', 'coeffs.npy', 'modes_r.npy', 'modes.npy'):
                return {'weights.npy': self.W, 'ltm.npy': self.LTM, 'coeffs.npy': self.COEFFS, 'modes_r.npy': self.MODES_R,
                        'modes.npy': self.PMODES}[name]
            if len(parts) == 3 and parts[0] is string('freq_idx_') and parts[1].op == 'fmt' and parts[2] is string('.npy'):
                return T.getitem(self.MODES, mk('ix', parts[1].args[0]))
        return None
