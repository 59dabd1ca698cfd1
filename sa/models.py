"""Models of the Python builtins and third-party libraries PySPOD uses.

Every model says what value a library call denotes (as a term), whether it
returns a view or fresh storage, and which externally visible effect it has.
"""
import re
from fractions import Fraction as Fr
from . import terms as T
from .terms import (Term, mk, num, string, const, sym, ix, sl, tup, NONE, TRUE, FALSE, ZERO, ONE, MONE,
                    UNDEF, ALL, ELL, END)

CWD = sym('CWD', kind='str', abs=True)

ALIAS = {
    'numpy.absolute': 'numpy.abs', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min',
    'numpy.matrix_transpose': 'numpy.transpose', 'numpy.conjugate': 'numpy.conj',
    'numpy.concat': 'numpy.concatenate', 'numpy.float_': 'numpy.float64', 'numpy.double': 'numpy.float64',
    'numpy.single': 'numpy.float32', 'numpy.complex_': 'numpy.complex128', 'numpy.linalg.eigh': 'scipy.linalg.eigh',
    'numpy.permute_dims': 'numpy.transpose', 'numpy.around': 'numpy.round',
    'scipy.fft.fft': 'numpy.fft.fft', 'scipy.fft.rfft': 'numpy.fft.rfft', 'numpy.linalg.eig': 'scipy.linalg.eig',
    'scipy.linalg.svd': 'numpy.linalg.svd', 'scipy.linalg.inv': 'numpy.linalg.inv',
    'scipy.linalg.pinv': 'numpy.linalg.pinv', 'numpy.power': 'numpy.power', 'math.pi': 'numpy.pi', 'math.sqrt': 'numpy.sqrt',
    'math.ceil': 'numpy.ceil', 'math.floor': 'numpy.floor', 'math.cos': 'numpy.cos', 'math.prod': 'numpy.prod',
    'posixpath.join': 'os.path.join', 'math.exp': 'numpy.exp', 'math.inf': 'numpy.inf', 'math.fabs': 'numpy.abs',
    'mpi4py.MPI.Request.waitall': 'mpi4py.MPI.Request.Waitall',
}
DTYPES = {'numpy.float64': 'f8', 'numpy.float32': 'f4', 'numpy.complex128': 'c16', 'numpy.complex64': 'c8',
          'numpy.int32': 'i4', 'numpy.int64': 'i8', 'builtins.float': 'f8', 'builtins.complex': 'c16',
          'builtins.int': 'i8', 'numpy.bool_': 'b1', 'builtins.bool': 'b1', 'numpy.float16': 'f2'}
DTSTR = {'float64': 'f8', 'float32': 'f4', 'complex128': 'c16', 'complex64': 'c8', 'double': 'f8', 'float': 'f8',
         'complex': 'c16', 'int': 'i8', 'int64': 'i8', 'int32': 'i4', 'single': 'f4', 'f8': 'f8', 'f4': 'f4', 'c16': 'c16',
         'float16': 'f2'}


def canon(name):
    if name.startswith('np.'):
        name = 'numpy.' + name[3:]
    return ALIAS.get(name, name)


def lib_term(name):
    if name in DTYPES:
        return mk('dtype', DTYPES[name])
    if name == 'numpy.pi':
        return sym('pi', kind='sc', real=True, min=Fr(3))
    if name == 'numpy.newaxis':
        return NONE
    if name in ('numpy.nan', 'math.nan'):
        return mk('fconst', 'nan')
    if name == 'numpy.inf':
        return mk('fconst', 'inf')
    if name == 'mpi4py.MPI.VERSION':
        return sym('mpi4py.MPI.VERSION', kind='sc', int=True, real=True, min=1)
    return mk('lib', name)


def dtype(t):
    if t.op == 'str' and t.args[0] in DTSTR:
        return mk('dtype', DTSTR[t.args[0]])
    if t.op == 'lib' and t.args[0] in DTYPES:
        return mk('dtype', DTYPES[t.args[0]])
    if t.op == 'call' and t.args[0] == 'numpy.dtype' and len(t.args) == 2:
        return dtype(t.args[1])
    if t.op == 'ite':
        return T.ite(t.args[0], dtype(t.args[1]), dtype(t.args[2]))
    return t


# ---------------------------------------------------------------- dtypes
_RANKS = {'b1': 0, 'i4': 1, 'i8': 2, 'f2': 3, 'f4': 4, 'f8': 5, 'c8': 6, 'c16': 7}
_SAMEDT = {'getitem', 'reshape', 'transpose', 'conj', 'squeeze', 'copyof'}
_SAMECALL = {'numpy.fft.fftshift', 'numpy.fft.ifftshift', 'numpy.flip', 'numpy.roll', 'numpy.sort', 'numpy.moveaxis', 'numpy.expand_dims',
             'mpi.allreduce:arr', 'numpy.cumsum', 'numpy.tile', 'numpy.concatenate', 'numpy.stack', 'numpy.hstack', 'numpy.array', 'numpy.diag',
             'numpy.real_if_close'}
_dt_cache = {}


def promote(a, b):
    if a is None or b is None:
        return None
    if a == 'weak' or b == 'weak':
        o = b if a == 'weak' else a
        return o
    if {a, b} == {'f8', 'c8'} or {a, b} == {'i8', 'c8'}:
        return 'c16'
    if {a, b} == {'f4', 'i8'} or {a, b} == {'f4', 'i4'}:
        return 'f8'
    return a if _RANKS.get(a, 9) >= _RANKS.get(b, 9) else b


def dtype_of(t):
    """'f8' | 'c16' | ... | 'weak' (python scalar) | None (not known)"""
    return _guarded(_dt_cache, t, _dtype_of, None)


class _Busy:
    def __init__(self, level):
        self.level = level


_running = []       # guarded computations in progress: lowest level of an unfinished one each depended on


def _guarded(cache, t, fn, default):
    """memoised fn(t); a value that was computed from the default answer of an unfinished enclosing computation is not remembered"""
    r = cache.get(t, cache)
    if r.__class__ is _Busy:
        if r.level < _running[-1]:
            _running[-1] = r.level
        return default
    if r is not cache:
        return r
    lv = len(_running)
    cache[t] = _Busy(lv)
    _running.append(lv)
    try:
        r = fn(t)
    finally:
        del cache[t]
        low = _running.pop()
    if low >= lv:
        cache[t] = r
    elif low < _running[-1]:
        _running[-1] = low
    return r


def _dtype_of(t):
    op = t.op
    if op in ('sym', 'var'):
        i = T.info(t)
        if i.get('dt'):
            return i['dt']
        if i.get('kind') == 'arr':
            return None
        return 'weak' if i.get('int') or i.get('real') else None
    if op in ('num', 'bool', 'min0', 'floordiv', 'mod', 'len', 'size', 'dim', 'ndim', 'int', 'ceil', 'floor', 'iunit') or T.is_bool(t):
        return 'weak'
    if op == 'alloc':
        d = t.args[2]
        return d.args[0] if d.op == 'dtype' else None
    if op == 'astype':
        return t.args[1].args[0] if t.args[1].op == 'dtype' else None
    if op in _SAMEDT:
        return dtype_of(t.args[0])
    if op in ('store', 'scatter', 'scatter2'):
        return dtype_of(t.args[0])
    if op in ('abs', 'real', 'imag'):
        d = dtype_of(t.args[0])
        return {'c16': 'f8', 'c8': 'f4'}.get(d, d)
    if op == 'pow':
        d = dtype_of(t.args[0])
        return d
    if op == 'poly':
        r = 'weak'
        fl = False
        for c, m in t.args[0]:
            if c.denominator != 1:
                fl = True
            for a, e in m:
                if e < 0 or e.denominator != 1:
                    fl = True
                r = promote(r, dtype_of(a))
                if r is None:
                    return None
        if fl and r in ('i8', 'i4', 'b1'):
            r = 'f8'
        return r
    if op == 'ite':
        a, b = dtype_of(t.args[1]), dtype_of(t.args[2])
        return a if a == b else None
    if op in ('sum',):
        return dtype_of(t.args[3])
    if op == 'rec':
        return dtype_of(t.args[4])
    if op == 'matmul':
        r = 'weak'
        for a in t.args:
            r = promote(r, dtype_of(a))
        return r
    if op == 'range1':
        return 'i8'
    if op == 'red':
        d = dtype_of(t.args[1])
        if t.args[0] in ('argmax', 'argmin'):
            return 'i8'
        if t.args[0] in ('mean', 'var', 'std') and d in ('i8', 'i4', 'b1'):
            return 'f8'
        return d
    if op in ('list', 'tuple'):
        r = 'weak'
        for a in t.args:
            r = promote(r, dtype_of(a))
        return r
    if op == 'listcomp':
        return dtype_of(t.args[5])
    if op == 'call':
        n = t.args[0]
        if n in ('fft', 'rfft', 'ifft', 'numpy.fft.ifft'):
            d = dtype_of(t.args[1])
            return {'f8': 'c16', 'c16': 'c16', 'f4': 'c8', 'c8': 'c8', 'i8': 'c16', 'weak': 'c16'}.get(d)
        if n in ('numpy.cos', 'numpy.sin', 'numpy.exp'):
            d = dtype_of(t.args[1])
            return 'f8' if d in ('i8', 'weak', 'i4') else d
        if n in ('numpy.linspace', 'scipy.special.gammaincinv'):
            return 'f8'
        if n in _SAMECALL and len(t.args) > 1:
            d = dtype_of(t.args[1])
            return 'f8' if d == 'weak' and n == 'numpy.array' else d
    return None


def dtype_term(t):
    d = dtype_of(t)
    if d == 'weak':
        d = 'i8' if T.is_int(t) else 'f8'
    return mk('dtype', d) if d else mk('call', 'dtype', t)


# ------------------------------------------------------------- properties
_real_cache = {}
REAL_CALLS = {'numpy.linspace', 'mpi.allreduce', 'numpy.argmax', 'numpy.argmin', 'numpy.argsort', 'numpy.hstack',
              'numpy.concatenate', 'numpy.where', 'numpy.diff', 'numpy.meshgrid', 'bcast1', 'numpy.array', 'builtins.round',
              'numpy.cos', 'numpy.sin', 'numpy.exp', 'numpy.diag', 'numpy.identity', 'numpy.tile', 'numpy.moveaxis',
              'numpy.fft.fftshift', 'numpy.fft.ifftshift', 'numpy.roll', 'numpy.flip', 'numpy.sort', 'numpy.take', 'numpy.cumsum',
              'scipy.special.gammaincinv', 'numpy.linalg.norm', 'numpy.nanmean', 'numpy.nanvar', 'numpy.var', 'numpy.outer',
              'numpy.expand_dims', 'numpy.broadcast_to', 'file_var', 'numpy.fft.fftfreq', 'numpy.fft.rfftfreq', 'eigvals'}
ALWAYS_REAL = {'scipy.special.gammaincinv', 'numpy.linalg.norm', 'numpy.argmax', 'numpy.argmin', 'numpy.argsort',
               'numpy.linspace', 'file_var', 'numpy.identity', 'numpy.fft.fftfreq', 'numpy.fft.rfftfreq', 'eigvals'}


def is_real(t):
    return _guarded(_real_cache, t, _is_real, False)


def _is_real(t):
    op = t.op
    if op in ('sym', 'var'):
        i = T.info(t)
        return bool(i.get('real') or i.get('int') or i.get('bool'))
    if op in ('num', 'bool', 'fconst', 'min0', 'floordiv', 'mod', 'len', 'size', 'abs', 'real', 'imag', 'range1', 'ceil', 'floor',
              'int', 'dim', 'ndim', 'str', 'none', 'undef', 'count', 'hole', 'first', 'edict') or T.is_bool(t):
        return True
    if op == 'iunit':
        return False
    if op == 'poly':
        return all(is_real(a) for c, m in t.args[0] for a, e in m)
    if op == 'alloc':
        return not (t.args[2].op == 'dtype' and t.args[2].args[0] in ('c16', 'c8')) and t.args[2].op != 'ite'
    if op == 'astype':
        if t.args[1].op == 'dtype':
            return t.args[1].args[0] not in ('c16', 'c8')
        return is_real(t.args[0])
    if op in ('store',):
        return is_real(t.args[2]) and (is_real(t.args[0]) or t.args[0].op == 'alloc')
    if op == 'scatter':
        return is_real(t.args[5]) and is_real(t.args[0])
    if op == 'scatter2':
        return is_real(t.args[4].args[4]) and is_real(t.args[0])
    if op == 'ite':
        return is_real(t.args[1]) and is_real(t.args[2])
    if op in ('sum',):
        return is_real(t.args[3])
    if op == 'rec':
        return is_real(t.args[3]) and is_real(t.args[4])
    if op in ('getitem', 'conj', 'transpose', 'reshape', 'squeeze', 'copyof'):
        return is_real(t.args[0])
    if op in ('matmul', 'list', 'tuple', 'concat'):
        return all(is_real(a) for a in t.args)
    if op == 'listcomp':
        return is_real(t.args[5])
    if op == 'red':
        return t.args[0] in ('argmax', 'argmin', 'all', 'any') or is_real(t.args[1])
    if op == 'elem':
        return all(is_real(a) for a in t.args if isinstance(a, Term))
    if op == 'pow':
        return all(is_real(a) for a in t.args)
    if op == 'call':
        if t.args[0] in ALWAYS_REAL:
            return True
        if t.args[0] in REAL_CALLS:
            return all(is_real(a) for a in t.args[1:] if isinstance(a, Term) and a.op != 'kw')
    return False


T.IS_REAL[0] = is_real


def part(k, t):
    if is_real(t):
        return t if k == 'real' else ZERO
    if t.op == 'poly':
        # real factors come out
        p = t.args[0]
        if len(p) == 1:
            c, m = p[0]
            outs = [(a, e) for a, e in m if is_real(a)]
            ins = [(a, e) for a, e in m if not is_real(a)]
            if outs or c != 1:
                o = T.mul(num(c), *[T.powr(a, e) for a, e in outs])
                i = T.mul(*[T.powr(a, e) for a, e in ins]) if ins else ONE
                return T.mul(o, part(k, i))
        else:
            return T.add(*[part(k, T.mul(num(c), *[T.powr(a, e) for a, e in m])) for c, m in p])
    if t.op == 'iunit':
        return ZERO if k == 'real' else ONE
    if t.op == 'conj':
        r = part(k, t.args[0])
        return r if k == 'real' else T.neg(r)
    if t.op == 'getitem' and T.kind(t.args[0]) == 'arr':
        return T.getitem(part(k, t.args[0]), t.args[1])
    if t.op == 'call' and t.args[0].startswith('eig'):
        return mk(k, t)
    return mk(k, t)


def ndim_of(t):
    s = shp(t)
    return None if s is None else len(s)


_shp_cache = {}


def shp(t):
    """list of dimension terms, or None when the rank is unknown"""
    return _guarded(_shp_cache, t, _shp, None)


def _dim(t, i):
    return mk('getitem', mk('shape', t), ix(num(i)))


def _shp(t):
    op = t.op
    if T.kind(t) != 'arr':
        if T.kind(t) == 'sc':
            return []
        return None
    if op == 'rec':
        # a recurrence that only writes into its container keeps the shape of the initial value
        s = shp(t.args[4])

        def keeps(x):
            if x.op in ('store', 'scatter', 'scatter2', 'foldst'):
                return keeps(x.args[0])
            if x.op == 'ite':
                return keeps(x.args[1]) and keeps(x.args[2])
            if x.op == 'rec':
                return keeps(x.args[4])
            if x.op == 'sym' and x.args[0].startswith('ϱ'):
                return '.0:' in x.args[0] or shp(x) == s
            return shp(x) == s
        if s and keeps(t.args[3]):
            return s
        if not s:
            return None
        ps, nexts, inits, x, k = T.rec_parts(t)
        m = {}
        for j, (p, i) in enumerate(zip(ps, inits)):
            d = shp(i) if T.kind(i) == 'arr' else None
            if d is not None:
                m[p] = T.sym(f'recd{j}_{t.key}', **dict({a: b for a, b in T.info(p).items()}, dims=tuple(d), ndim=len(d)))
        return s if shp(T.subst(nexts[0], m)) == s else None
    if op in ('sym', 'var'):
        n = T.info(t).get('ndim')
        if n is None:
            return None
        d = T.info(t).get('dims')
        if d:
            return list(d)
        return [_dim(t, i) for i in range(n)]
    if op in ('alloc', 'reshape', 'bcast'):
        s = t.args[1]
        if s.op in ('tuple', 'list'):
            if MONE in s.args:
                b = shp(t.args[0])
                if b is None:
                    return None
                rest = T.mul(*[x for x in s.args if x is not MONE]) if len(s.args) > 1 else ONE
                tot = T.mul(*b) if b else ONE
                return [T.div(tot, rest) if x is MONE else x for x in s.args]
            return list(s.args)
        if T.kind(s) == 'sc':
            if s is MONE:
                b = shp(t.args[0])
                return None if b is None else [T.mul(*b)]
            return [s]
        return None
    if op in ('astype', 'conj', 'abs', 'copyof', 'real', 'imag', 'store', 'scatter', 'scatter2', 'pow', 'not'):
        return shp(t.args[0])
    if op == 'poly':
        best = None
        for c, m in t.args[0]:
            for a, e in m:
                if T.kind(a) == 'arr':
                    s = shp(a)
                    if s is None:
                        return None
                    best = _bcast(best, s)
        return best
    if op == 'ite':
        a, b = shp(t.args[1]), shp(t.args[2])
        if T.is_num(t.args[1]) and T.kind(t) == 'arr':
            return b
        if T.is_num(t.args[2]) and T.kind(t) == 'arr':
            return a
        return a if a == b else None
    if op == 'transpose':
        s = shp(t.args[0])
        if s is None:
            return None
        return list(reversed(s)) if not t.args[1] else [s[i] for i in t.args[1]]
    if op == 'matmul':
        a, b = shp(t.args[0]), shp(t.args[-1])
        if a is None or b is None or len(a) < 1 or len(b) < 1:
            return None
        return a[:-1] + (b[-1:] if len(b) > 1 else [])
    if op == 'red':
        s = shp(t.args[1])
        ax = T.intval(t.args[2]) if t.args[2] is not NONE else None
        if s is None or ax is None or len(t.args) > 3:
            return None
        ax %= len(s) if s else 1
        return s[:ax] + s[ax + 1:]
    if op == 'sum':
        return shp(t.args[3])
    if op == 'range1':
        lo, hi, st = t.args
        return [T.sub(hi, lo)] if st is ONE else [T.ceil_(T.div(T.sub(hi, lo), st))]
    if op == 'getitem':
        return shp_get(shp(t.args[0]), t.args[1])
    if op == 'call':
        nme = t.args[0]
        if nme in ('fft', 'ifft', 'numpy.fft.fftshift', 'numpy.fft.ifftshift', 'mpi.allreduce', 'mpi.allreduce:arr', 'numpy.flip', 'numpy.roll', 'numpy.sort',
                   'numpy.exp', 'numpy.cos', 'numpy.argsort', 'numpy.sin'):
            return shp(t.args[1])
        if nme in ('numpy.identity', 'numpy.eye') and len(t.args) == 2 and T.kind(t.args[1]) == 'sc':
            return [t.args[1], t.args[1]]
        if nme == 'numpy.linspace' and len(t.args) >= 4:
            return [t.args[3]]
        if nme == 'numpy.array' and t.args[1].op in ('list', 'tuple', 'rep', 'listcomp'):
            from .interp import length
            if t.args[1].op in ('list', 'tuple') and t.args[1].args and T.kind(t.args[1].args[0]) == 'arr':
                s = shp(t.args[1].args[0])
                return None if s is None else [length(t.args[1])] + s
            return [length(t.args[1])]
        if nme == 'bcast1':
            return list(t.args[3].args)
        if nme in ('eigvals', 'eigvals_g'):
            s = shp(t.args[1])
            return s[:-1] if s else None
        if nme in ('eigvecs', 'eigvecs_g', 'numpy.real_if_close'):
            return shp(t.args[1])
        if nme == 'rfft' and len(t.args) > 2 and T.intval(t.args[2]) == 0:
            s = shp(t.args[1])
            return [T.add(T.floordiv(s[0], num(2)), ONE)] + s[1:] if s else None
        if nme == 'numpy.stack':
            from .interp import length
            el = T.getitem(t.args[1], ix(ZERO))
            s = shp(el) if T.kind(el) == 'arr' else None
            if s is not None and (len(t.args) < 3 or t.args[2] is ZERO):
                return [length(t.args[1])] + s
            return None
        if nme == 'numpy.unravel_index':
            return None
        if nme == 'numpy.concatenate' and t.args[1].op in ('list', 'tuple') and T.intval(t.args[2]) is not None:
            ss = [shp(x) for x in t.args[1].args]
            ax = T.intval(t.args[2])
            if not ss or any(x is None or len(x) != len(ss[0]) for x in ss) or not -len(ss[0]) <= ax < len(ss[0]):
                return None
            out = list(ss[0])
            out[ax] = T.add(*[x[ax] for x in ss])
            return out
        if nme == 'einsum' and t.args[1].op == 'str' and '->' in t.args[1].args[0] and '.' not in t.args[1].args[0]:
            ins, res = t.args[1].args[0].split('->')
            dims = {}
            for l, x in zip(ins.split(','), t.args[2:]):
                sx = shp(x)
                if sx is None or len(sx) != len(l):
                    continue
                for c, n in zip(l, sx):
                    if dims.get(c) in (None, ONE):
                        dims[c] = n
            return [dims[c] for c in res] if all(c in dims for c in res) else None
        if nme == 'numpy.diag' and len(t.args) == 2:
            x = shp(t.args[1])
            return [x[0], x[0]] if x and len(x) == 1 else x[:1] if x and len(x) == 2 and x[0] is x[1] else None
        if nme in ('numpy.hstack', 'numpy.vstack') and len(t.args) == 2 and t.args[1].op in ('list', 'tuple'):
            ss = [shp(x) for x in t.args[1].args]
            if not ss or any(x is None or len(x) != len(ss[0]) for x in ss) or not ss[0]:
                return None
            if nme == 'numpy.vstack' and len(ss[0]) == 1:
                return [num(len(ss)), ss[0][0]]
            ax = 1 if nme == 'numpy.hstack' and len(ss[0]) > 1 else 0
            out = list(ss[0])
            out[ax] = T.add(*[x[ax] for x in ss])
            return out
        if nme in ('svd_s', 'svd_u', 'svd_vh') and len(t.args) > 1:
            x = shp(t.args[1])
            if x is not None and len(x) == 2 and x[0] is not x[1]:
                k = T.tmin(*x)
                full = len(t.args) > 2 and t.args[2] is not T.FALSE
                return [k] if nme == 'svd_s' else [x[0], x[0] if full else k] if nme == 'svd_u' else [x[1] if full else k, x[1]]
            if x is not None and len(x) == 2 and x[0] is x[1]:
                return x[:1] if nme == 'svd_s' else x
        if nme in ('numpy.linalg.pinv', 'numpy.linalg.inv'):
            x = shp(t.args[1])
            return x[:-2] + [x[-1], x[-2]] if x and len(x) >= 2 else None
    return None


def _bcast(a, b):
    if a is None:
        return b
    if len(a) < len(b):
        a, b = b, a
    out = list(a)
    for i in range(1, len(b) + 1):
        x, y = a[-i], b[-i]
        out[-i] = y if x is ONE else x
    return out


def shp_get(s, idx):
    if s is None:
        return None
    es = list(idx.args)
    if any(e.op == 'ixlist' for e in es):
        if len(es) == 1 and es[0].args[0].op == 'store':
            # [:]*ndim with one symbolic position replaced by a slice
            st = es[0].args[0]
            base = st.args[0]
            if base.op == 'list' and all(x is ALL for x in base.args) and len(st.args[1].args) == 1:
                k = st.args[1].args[0]
                v = st.args[2]
                if v.op == 'sl':
                    full = mk('tuple', *s)
                    n = T.getitem(full, ix(k))
                    nn = slice_len(v, n)
                    return [T.ite(T.eq(k, T.num(i)), nn, d) for i, d in enumerate(s)]
        return None
    n_real = sum(1 for e in es if e is not NONE and e is not ELL)
    if any(e is ELL for e in es):
        p = es.index(ELL)
        es = es[:p] + [ALL] * (len(s) - n_real) + es[p + 1:]
    else:
        es = es + [ALL] * (len(s) - n_real)
    out = []
    j = 0
    for e in es:
        if e is NONE:
            out.append(ONE)
            continue
        if j >= len(s):
            return None
        d = s[j]
        if e.op == 'sl':
            out.append(slice_len(e, d))
        elif T.kind(e) == 'list' or e.op == 'list':
            from .interp import length
            out.append(length(e))
        elif T.kind(e) == 'arr':
            x = shp(e)
            if x is None:
                return None
            out.extend(x)
        elif T.is_bool(e):
            return None
        j += 1
    return out


def slice_len(e, d):
    lo, hi, stp = e.args
    if lo.op == 'num' and lo.args[0] < 0:
        lo = T.add(d, lo)
    hi = d if hi is END else hi
    if hi.op == 'num' and hi.args[0] < 0:
        hi = T.add(d, hi)
    n = T.sub(hi, lo)
    if stp.op == 'num' and stp.args[0] == -1:
        return d
    if stp is not ONE:
        n = T.ceil_(T.div(n, stp))
    return n


def _shape_hook(x):
    s = shp(x)
    if s is None:
        return None
    return mk('tuple', *s)


T.SHAPE_HOOK = _shape_hook


# ------------------------------------------------------------------ helpers
def R(ip, st, t):
    """wrap a result term"""
    k = T.kind(t)
    if k == 'arr':
        return ip.arr(st, t)
    if k in ('list', 'dict'):
        return ip.new(st, k, t)
    return t


def A(names, args, kwargs):
    d = dict(zip(names, args))
    for k, v in kwargs.items():
        d[k] = v
    return d


def tv(ip, v, st):
    return ip.val(v, st)


def kws(ip, kwargs, st, drop=()):
    out = []
    for k, v in sorted(kwargs.items()):
        if k in drop:
            continue
        out.append(mk('kw', k, ip.val(v, st)))
    return out


def view(ip, v, lens, st):
    from .interp import Ref, Phi
    if isinstance(v, Phi):
        return Phi(v.c, view(ip, v.a, lens, st), view(ip, v.b, lens, st))
    if isinstance(v, Ref) and ip.vkind(v, st) == 'arr':
        return Ref(v.cid, v.lens + (lens,))
    t = ip.val(v, st)
    if T.kind(t) == 'list':
        t = to_array(t)
    return R(ip, st, ip.lens_get(t, lens))


def to_array(t):
    if T.kind(t) == 'arr':
        return t
    if t.op in ('list', 'tuple', 'listcomp', 'rep', 'concat', 'sorted', 'append', 'shape') or T.kind(t) in ('list', 'tuple'):
        return mk('call', 'numpy.array', t)
    return t


def cast(t, dt):
    if dt is None or dt is NONE:
        return t
    dt = dtype(dt)
    if dt.op == 'dtype':
        d = dt.args[0]
        if d == 'c16':
            return t
        if d == 'f8':
            return t if is_real(t) or T.kind(t) == 'sc' and T.is_int(t) else T.astype(t, dt)
        if d in ('i8', 'i4'):
            return t if T.is_int(t) else (T.int_(t) if T.kind(t) == 'sc' else T.astype(t, dt))
    return T.astype(t, dt)


T.CAST_HOOK = cast


def norm_axis(ax, t):
    k = T.intval(ax) if isinstance(ax, Term) else None
    if k is not None and k < 0:
        n = ndim_of(t)
        if n is not None:
            return num(k % n)
    return ax


def path_of(ip, v, st):
    return T.pathnorm(ip.val(v, st))


# ----------------------------------------------------------- attributes
def lib_attr(ip, b, name, st):
    if b.name == 'mpi4py.MPI' and name == '__spec__':
        from .interp import Obj
        return Obj('spec', parent=string('mpi4py'))
    return None


def lib_getitem(ip, b, idx, st):
    from .interp import Lib
    if b.name == 'numpy.s_':
        return idx
    if b.name == 'sys.modules':
        if idx.op == 'ix' and len(idx.args) == 1:
            idx = idx.args[0]
        if idx.op == 'str':
            return Lib(idx.args[0])
    return None


ARR_METHODS = {'sum', 'mean', 'max', 'min', 'prod', 'all', 'any', 'std', 'var', 'conj', 'conjugate', 'argmax', 'argmin', 'argsort',
               'cumsum', 'dot', 'squeeze', 'transpose', 'copy', 'ravel', 'flatten', 'reshape', 'astype', 'round', 'clip', 'take',
               'diagonal', 'trace', 'searchsorted', 'nonzero', 'repeat', 'swapaxes', 'tolist', 'view', 'item', 'sort', 'fill', 'tobytes'}


def get_attr(ip, b, name, n, fr, st):
    from .interp import Ref, Obj, LibM, Lib, Phi, Iter, Func
    if isinstance(b, Ref):
        k = ip.vkind(b, st)
        if k == 'arr' or b.lens:
            if name == 'T':
                return view(ip, b, ('T', ()), st)
            if name in ('real', 'imag'):
                if is_real(ip.val(b, st)) and name == 'real':
                    return b
                return view(ip, b, (name,), st)
            if name == 'values':
                st_c = st.heap[b.cid]
                return Ref(b.cid, b.lens + (('values',),)) if st_c.xr else b
            if name == 'data' and not T.info(ip.val(b, st)).get('npz'):
                return b
            t = ip.val(b, st)
            if name == 'shape':
                return T.shape_of(t)
            if name == 'ndim':
                nd = ndim_of(t)
                return num(nd) if nd is not None else mk('ndim', t)
            if name == 'size':
                s = shp(t)
                if not isinstance(s, list):
                    s = T._dims(t)
                if s is not None:
                    return T.mul(*s) if s else ONE
                return mk('size', t)
            if name == 'dtype':
                return dtype_term(t)
            if name == 'nbytes':
                return mk('call', 'nbytes', t)
            if name == 'itemsize':
                return mk('call', 'itemsize', t)
            if name == 'dims':
                return mk('call', 'dims', t)
            if name == 'flags':
                return mk('call', 'flags', t)
        return LibM(b, name)
    if isinstance(b, Obj):
        if name in b.attrs:
            return b.attrs[name]
        if b.cls == 'type' and name == '__module__':
            return string('mpi4py.MPI')
        return LibM(b, name)
    if isinstance(b, tuple):
        return LibM(b, name)
    if isinstance(b, (Iter,)):
        return LibM(b, name)
    if isinstance(b, Func) and name == '__name__':
        return string(b.name)
    if isinstance(b, Term):
        k = T.kind(b)
        if b.op == 'call' and b.args[0] == 'undefined':
            return b
        if name in ('shape', 'ndim', 'size', 'T', 'real', 'imag', 'dtype', 'values', 'nbytes') and k in ('arr', 'sc', 'obj'):
            if k == 'sc' and name in ('real', 'imag'):
                return part(name, b)
            if k == 'sc' and name == 'dtype':
                return dtype_term(b)
            if k == 'arr':
                return get_attr(ip, ip.arr(st, b), name, n, fr, st)
            if name == 'shape':
                return T.shape_of(b) if k != 'sc' else tup()
            if name == 'values':
                return b
        if b.op == 'dtype':
            if name == '__name__':
                return mk('call', 'dtname', b)
            return LibM(b, name)
        if k == 'obj' and name in ('c_contiguous', 'f_contiguous', 'itemsize', 'dims', 'max', 'min', 'eps', 'name') and b.op == 'call' \
                and b.args[0] in ('flags', 'numpy.dtype', 'numpy.iinfo', 'numpy.finfo', 'dtype'):
            t = mk('call', 'attr:' + name, b)
            return mk('truth', t) if 'contig' in name else t
        return LibM(b, name)
    return LibM(b, name)


def obj_getitem(ip, b, idx, n, st):
    from .interp import Obj
    if b.cls == 'xrfile':
        key = idx.args[0] if idx.op == 'ix' else idx
        if b.attrs.get('sel') is not None:
            cname, lo, hi = b.attrs['sel']
            base = mk('file_var', b.attrs['path'], key)
            T.INFO
            return ip.arr(st, mk('call', 'file_sel', b.attrs['path'], key, cname, lo, hi))
        return ip.new(st, 'arr', mk('call', 'file_var', b.attrs['path'], key), xr=True)
    if b.cls == 'h5file':
        key = idx.args[0] if idx.op == 'ix' else idx
        return ip.new(st, 'arr', mk('call', 'file_var', b.attrs['path'], key))
    if b.cls == 'npz':
        key = idx.args[0] if idx.op == 'ix' else idx
        it = b.attrs.get('items')
        if it and key.op == 'str' and key.args[0] in it:
            return ip.new(st, 'arr', it[key.args[0]])
        return ip.new(st, 'arr', T.getitem(b.attrs['term'], ix(key)))
    if b.cls == 'dictview':
        return T.getitem(ip.val(b, st), ix(idx))
    t = mk('call', 'objitem', ip.val(b, st), idx)
    return Obj('libval', term=t)


def percent_format(ip, t, args, st):
    if t.op != 'str':
        return mk('call', 'format', t, ip.val(args, st))
    its = ip.concrete_items(args, st) if isinstance(args, tuple) or (isinstance(args, Term) and args.op == 'tuple') else [args]
    import re
    out = []
    pos = 0
    k = 0
    s = t.args[0]
    for m in re.finditer(r'%([0-9.+-]*)([a-zA-Z%])', s):
        out.append(string(s[pos:m.start()]))
        pos = m.end()
        if m.group(2) == '%':
            out.append(string('%'))
            continue
        v = ip.val(its[k], st) if k < len(its) else mk('call', 'undefined')
        k += 1
        spec = m.group(1) + ('' if m.group(2) in 'sd' and not m.group(1) else m.group(2))
        if m.group(2) in 'di' and m.group(1):
            spec = m.group(1) + 'd'
        out.append(T.fmt(v, spec))
    out.append(string(s[pos:]))
    return T.cat(*out)


def list_extend(ip, r, other, n, st):
    from .interp import concat
    c = st.heap[r.cid]
    its = ip.concrete_items(other, st)
    if c.prov is not None:
        ip.effect('mutate', c.prov, n, st, how='extend', value=ip.val(other, st), cid=r.cid)
    if c.items is not None and its is not None:
        st.heap[r.cid] = c.but(items=c.items + tuple(its))
        ip.reparent(st, r.cid, c)
        return
    t = concat(ip.cell_term(st, r.cid), ip.val(other, st))
    ip.set_cell(st, r.cid, t)


def list_append(ip, r, v, n, st):
    c = st.heap[r.cid]
    if c.prov is not None:
        ip.effect('mutate', c.prov, n, st, how='append', value=ip.val(v, st), cid=r.cid)
    if c.items is not None:
        st.heap[r.cid] = c.but(items=c.items + (v,))
        ip.reparent(st, r.cid, c)
        return
    t = ip.cell_term(st, r.cid)
    ip.set_cell(st, r.cid, mk('append', t, ip.val(v, st)), t)


# ------------------------------------------------------------ iteration
def iterdesc(ip, it, s, st):
    from .interp import Ref, Obj, Iter, Phi, Lib, LibM, length
    if isinstance(it, Iter):
        return it
    if isinstance(it, Obj):
        if it.cls == 'dictview':
            d, what = it.attrs['dict'], it.attrs['what']
            dt = ip.val(d, st)
            n = dict_len(dt)

            def elem(s2, i, d=d, what=what, dt=dt):
                key = dict_key(dt, i)
                if what == 'keys':
                    return key
                v = ip.load_elem(s2, d.cid, key) if isinstance(d, Ref) else R(ip, s2, T.getitem(dt, ix(key)))
                return v if what == 'values' else (key, v)
            return Iter(n, elem, 'k')
        if it.cls == 'h5file':
            return h5iter(ip, it, 'keys')
    if isinstance(it, Ref):
        c = st.heap[it.cid]
        t = ip.val(it, st)
        if c.kind == 'dict' and not it.lens:
            return Iter(dict_len(t), lambda s2, i: dict_key(t, i), 'k')
        n = length(t)
        if c.kind == 'list' and not it.lens:
            if t.op == 'sorted' or t.op == 'listcomp':
                pass
            return Iter(n, lambda s2, i: ip.load_elem(s2, it.cid, i), 'e')
        return Iter(n, lambda s2, i: ip.getitem(it, i, s, None, s2), 'e')
    t = ip.val(it, st)
    n = length(t)
    return Iter(n, lambda s2, i: R(ip, s2, T.getitem(t, ix(i))), 'e')


def h5iter(ip, o, what):
    from .interp import Iter, length
    ks = mk('sorted', mk('call', 'h5keys', o.attrs['path']))

    def elem(st, i):
        k = T.getitem(ks, ix(i))
        if what == 'keys':
            return k
        v = ip.new(st, 'arr', mk('call', 'file_var', o.attrs['path'], k))
        return v if what == 'values' else (k, v)
    return Iter(length(ks), elem, 'k')


def dict_len(t):
    from .interp import length
    if t.op == 'scatter' and t.args[0].op == 'edict':
        return t.args[3]
    if t.op == 'scatter2' and t.args[0].op == 'edict':
        return T.mul(t.args[3], t.args[4].args[2])
    return length(t)


def dict_key(t, i):
    if t.op == 'scatter' and t.args[0].op == 'edict':
        pat = T.subst(t.args[4], {t.args[1]: i})
        return pat.args[0] if len(pat.args) == 1 else mk('tuple', *pat.args)
    return mk('getitem', mk('keys', t), ix(i))


# ------------------------------------------------------------ calls
FN = {}


def fn(*names):
    def deco(f):
        for x in names:
            FN[x] = f
        return f
    return deco


PURE_PREFIX = ('numpy.', 'scipy.', 'math.', 'builtins.', 'os.path.', 'itertools.', 'functools.')


def call_lib(ip, name, args, kwargs, n, st, fr):
    from .interp import Obj, Lib
    f = FN.get(name)
    if f is not None:
        return f(ip, args, kwargs, n, st, fr)
    if name in DTYPES and name.startswith('numpy.'):
        t = to_array(ip.val(args[0], st)) if args else ZERO
        return R(ip, st, cast(t, mk('dtype', DTYPES[name])))
    if name.startswith('numpy.random') or name.startswith('random.'):
        ip.effect('lib', name, n, st, args=[ip.val(a, st) for a in args])
    if name.startswith(PURE_PREFIX):
        ts = []
        for a in args:
            ts.append(ip.val(a, st))
        t = mk('call', name, *ts, *kws(ip, kwargs, st))
        if name.startswith('numpy.lib.format.'):
            ip.effect('lib', name, n, st, args=ts, kwargs=kwargs)
        if name.startswith('numpy.') and 'out' in kwargs:
            ip.put(kwargs['out'], t, st, n, how='out')
        if name.startswith(('numpy.', 'scipy.')) and name not in T.SCALAR_CALLS:
            T.ARRAY_CALLS.add(name)
            T._kind_cache.pop(t, None)
            return ip.arr(st, t)
        return t
    if name.startswith(('builtins.',)):
        return mk('call', name, *[ip.val(a, st) for a in args])
    ts = [ip.val(a, st) for a in args]
    kt = {k: ip.val(v, st) for k, v in kwargs.items()}
    ip.effect('lib', name, n, st, args=ts, kwargs=kt)
    t = mk('call', name, *ts, *[mk('kw', k, v) for k, v in sorted(kt.items())])
    return Obj('libval', term=t, libname=string(name))


# ---- builtins
@fn('builtins.len')
def _len(ip, a, k, n, st, fr):
    from .interp import length, Iter, Obj
    v = ip.resolve(a[0], st)
    if isinstance(v, tuple):
        return num(len(v))
    if isinstance(v, Iter):
        return v.n
    if isinstance(v, Obj) and v.cls == 'dictview':
        return dict_len(ip.val(v.attrs['dict'], st))
    return length(ip.val(v, st))


@fn('builtins.range')
def _range(ip, a, k, n, st, fr):
    from .interp import Iter
    ts = [ip.val(x, st) for x in a]
    lo, hi, stp = ZERO, None, ONE
    if len(ts) == 1:
        hi = ts[0]
    else:
        lo, hi = ts[0], ts[1]
        if len(ts) > 2:
            stp = ts[2]
    if stp is ONE:
        cnt = T.sub(hi, lo)
    elif stp is MONE:
        cnt = T.sub(lo, hi)
    else:
        cnt = T.ceil_(T.div(T.sub(hi, lo), stp))
    it = Iter(cnt, lambda s2, i: T.add(lo, T.mul(stp, i)), 'i')
    it.range = (lo, hi, stp)
    return it


@fn('builtins.enumerate')
def _enumerate(ip, a, k, n, st, fr):
    from .interp import Iter
    start = ip.val(a[1], st) if len(a) > 1 else ip.val(k['start'], st) if 'start' in k else ZERO
    its = ip.concrete_items(a[0], st)
    if its is not None:
        return tuple((T.add(num(i), start), x) for i, x in enumerate(its))
    d = iterdesc(ip, ip.resolve(a[0], st), n, st)
    return Iter(d.n, lambda s2, i: (T.add(i, start), d.elem(s2, i)), 'i')


@fn('builtins.zip')
def _zip(ip, a, k, n, st, fr):
    from .interp import Iter
    cs = [ip.concrete_items(x, st) for x in a]
    if all(c is not None for c in cs):
        return tuple(tuple(x) for x in zip(*cs))
    ds = [iterdesc(ip, ip.resolve(x, st), n, st) for x in a]
    return Iter(T.tmin(*[d.n for d in ds]) if len({d.n for d in ds}) > 1 else ds[0].n,
                lambda s2, i: tuple(d.elem(s2, i) for d in ds), 'i')


@fn('tqdm.tqdm', 'tqdm')
def _tqdm(ip, a, k, n, st, fr):
    return a[0]


@fn('builtins.iter')
def _iter(ip, a, k, n, st, fr):
    return a[0]


@fn('builtins.next')
def _next(ip, a, k, n, st, fr):
    import ast
    c = n.args[0] if n.args else None
    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'iter' and len(a) == 1:
        q = FN['builtins.list'](ip, [a[0]], {}, n, st, fr)
        its = ip.concrete_items(q, st)
        if its:
            return its[0]
    ip.note_unknown('next of an iterator', n)
    return mk('call', 'builtins.next', ip.val(a[0], st))


@fn('builtins.reversed')
def _reversed(ip, a, k, n, st, fr):
    from .interp import Iter
    its = ip.concrete_items(a[0], st)
    if its is not None:
        return tuple(reversed(its))
    d = iterdesc(ip, ip.resolve(a[0], st), n, st)
    return Iter(d.n, lambda s2, i: d.elem(s2, T.sub(T.sub(d.n, ONE), i)), 'i')


@fn('itertools.product')
def _product(ip, a, k, n, st, fr):
    from .interp import Obj
    return Obj('product', iters=list(a))


@fn('builtins.map')
def _map(ip, a, k, n, st, fr):
    from .interp import Iter
    its = ip.concrete_items(a[1], st)
    if its is not None:
        return tuple(ip.call(a[0], [x], {}, n, st, fr) for x in its)
    d = iterdesc(ip, ip.resolve(a[1], st), n, st)
    return Iter(d.n, lambda s2, i: ip.call(a[0], [d.elem(s2, i)], {}, n, s2, fr), 'i')


@fn('builtins.int')
def _int(ip, a, k, n, st, fr):
    t = ip.val(a[0], st) if a else ZERO
    if t.op == 'str':
        try:
            return num(int(t.args[0]))
        except ValueError:
            pass
    if T.kind(t) == 'str':
        return mk('call', 'builtins.int', t)
    if t.op == 'ite':
        return T.ite(t.args[0], T.int_(t.args[1]), T.int_(t.args[2])) if t.args[1].op != 'none' and t.args[2].op != 'none' else mk('int', t)
    return T.int_(t)


@fn('builtins.float')
def _float(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    if T.kind(t) == 'str':
        return mk('call', 'builtins.float', t)
    return t


@fn('builtins.complex')
def _complex(ip, a, k, n, st, fr):
    ts = [ip.val(x, st) for x in a]
    if len(ts) == 2:
        return T.add(ts[0], T.mul(T.IUNIT, ts[1]))
    return ts[0]


@fn('builtins.bool')
def _bool(ip, a, k, n, st, fr):
    return ip.truth(a[0], st)


@fn('builtins.str', 'builtins.repr')
def _str(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    if t.op in ('str', 'cat', 'path', 'fmt') or T.kind(t) == 'str':
        return t
    return T.fmt(t, '')


@fn('builtins.abs', 'numpy.abs', 'numpy.fabs')
def _abs(ip, a, k, n, st, fr):
    t = to_array(ip.val(a[0], st))
    return R(ip, st, T.tabs(t))


def _minmax(ip, a, k, n, st, f, fname):
    if len(a) == 1:
        its = ip.concrete_items(a[0], st)
        if its is None:
            t = ip.val(a[0], st)
            return T.red(fname, t)
        a = its
    ts = [ip.val(x, st) for x in a]
    if all(T.numeric(t) or T.kind(t) == 'sc' for t in ts):
        return ip.refine(f(*ts), st)
    return mk('call', fname, *sorted(ts, key=lambda t: t.key))


@fn('builtins.min')
def _min(ip, a, k, n, st, fr):
    return _minmax(ip, a, k, n, st, T.tmin, 'min')


@fn('builtins.max')
def _max(ip, a, k, n, st, fr):
    return _minmax(ip, a, k, n, st, T.tmax, 'max')


@fn('builtins.sum')
def _sum(ip, a, k, n, st, fr):
    its = ip.concrete_items(a[0], st)
    if its is not None:
        t = T.add(*[ip.val(x, st) for x in its]) if its else ZERO
        return R(ip, st, t)
    v = ip.val(a[0], st)
    start = ip.val(a[1], st) if len(a) > 1 else ZERO
    if v.op == 'listcomp' and v.args[0].op == 'list' and not v.args[0].args:
        _, b, lo, hi, c, e = v.args
        x = T.fresh_var('k', int=True, min=0, real=True)
        body = T.subst(T.mul(T.b2i(c), e), {b: x})
        return R(ip, st, T.add(start, T.bsum(x, lo, hi, body)))
    from .interp import length
    x = T.fresh_var('k', int=True, min=0, real=True)
    return R(ip, st, T.add(start, T.bsum(x, ZERO, length(v), T.getitem(v, ix(x)))))


@fn('builtins.divmod')
def _divmod(ip, a, k, n, st, fr):
    x, y = ip.val(a[0], st), ip.val(a[1], st)
    return tup(T.floordiv(x, y), T.mod(x, y))


@fn('builtins.pow', 'numpy.power')
def _pow(ip, a, k, n, st, fr):
    return R(ip, st, T.power(ip.val(a[0], st), ip.val(a[1], st)))


@fn('builtins.round')
def _round(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    if len(a) == 1 and T.is_int(t):
        return t
    return mk('call', 'builtins.round', *[ip.val(x, st) for x in a])


@fn('builtins.list')
def _list(ip, a, k, n, st, fr):
    from .interp import Iter, Obj
    if not a:
        return ip.new(st, 'list', items=())
    v = ip.resolve(a[0], st)
    if isinstance(v, Obj) and v.cls == 'dictview':
        d = v.attrs['dict']
        c = st.heap[d.cid]
        if c.items is not None and c.term is None:
            w = v.attrs['what']
            its = [x if w == 'values' else kk if w == 'keys' else (kk, x) for kk, x in c.items]
            return ip.new(st, 'list', items=tuple(its))
        return ip.new(st, 'list', mk('keys', ip.val(d, st)) if v.attrs['what'] == 'keys' else mk('call', 'dictview', ip.val(d, st)))
    its = ip.concrete_items(v, st)
    if its is not None:
        return ip.new(st, 'list', items=tuple(its))
    t = ip.val(v, st)
    if t.op == 'tuple':
        return ip.new(st, 'list', items=tuple(t.args))
    if T.kind(t) == 'list':
        return ip.new(st, 'list', t)
    if t.op == 'call' and t.args[0] == 'dims':
        return ip.new(st, 'list', mk('call', 'dims', *t.args[1:]))
    return ip.new(st, 'list', mk('tolist', t) if t.op != 'shape' else t)


@fn('builtins.tuple')
def _tuple(ip, a, k, n, st, fr):
    from .interp import Obj
    if not a:
        return tup()
    its = ip.concrete_items(ip.resolve(a[0], st), st)
    if its is not None:
        return tup(*its) if all(isinstance(x, Term) for x in its) else tuple(its)
    return ip.val(a[0], st)


@fn('builtins.dict')
def _dict(ip, a, k, n, st, fr):
    from .interp import Ref
    r = ip.new(st, 'dict', items=())
    if a:
        v = ip.resolve(a[0], st)
        if isinstance(v, Ref) and st.heap[v.cid].kind == 'dict':
            c = st.heap[v.cid]
            st.heap[r.cid] = c.but(prov=None)
        else:
            its = ip.concrete_items(v, st)
            if its is not None:
                for p in its:
                    kk, vv = ip.concrete_items(p, st)
                    ip.dict_set(st, r, ip.val(kk, st), vv, n)
            else:
                import ast
                g = n.args[0] if n.args else None
                if isinstance(g, (ast.GeneratorExp, ast.ListComp)) and isinstance(g.elt, ast.Tuple) and len(g.elt.elts) == 2:
                    d = ast.DictComp(key=g.elt.elts[0], value=g.elt.elts[1], generators=g.generators)
                    r = ip.ev_DictComp(ast.copy_location(d, g), fr, st)
                else:
                    ip.note_unknown('dictionary of unknown pairs', n)
    for kk, v in k.items():
        ip.dict_set(st, r, string(kk), v, n)
    return r


@fn('builtins.set')
def _set(ip, a, k, n, st, fr):
    if not a:
        return mk('call', 'set')
    its = ip.concrete_items(a[0], st)
    if its is not None:
        return mk('call', 'set', *sorted({ip.val(x, st) for x in its}, key=lambda t: t.key))
    return mk('call', 'setof', ip.val(a[0], st))


@fn('builtins.sorted')
def _sorted(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    if t.op == 'sorted' and not k:
        return ip.new(st, 'list', t)
    s = sorted_names(t) if not k else None
    return ip.new(st, 'list', mk('sorted', t, *kws(ip, k, st)) if s is None else s)


@fn('builtins.slice')
def _slice(ip, a, k, n, st, fr):
    ts = [ip.val(x, st) for x in a]
    if len(ts) == 1:
        return sl(None, ts[0])
    return sl(*ts)


@fn('builtins.print')
def _print(ip, a, k, n, st, fr):
    return NONE


@fn('builtins.type')
def _type(ip, a, k, n, st, fr):
    from .interp import Obj, Inst
    v = ip.resolve(a[0], st)
    if isinstance(v, Inst):
        return v.cls
    return Obj('type', of=v)


def class_names(ip, c, st):
    v = ip.resolve(c, st)
    its = ip.concrete_items(v, st) if isinstance(v, (tuple, Term)) and not (isinstance(v, Term) and v.op == 'str') else None
    if its is not None:
        return [x for c2 in its for x in class_names(ip, c2, st)]
    from .interp import Lib, Cls
    if isinstance(v, Lib):
        return [v.name]
    if isinstance(v, Cls):
        return [v]
    return ['?']


@fn('builtins.isinstance')
def _isinstance(ip, a, k, n, st, fr):
    from .interp import Ref, Inst, Obj, Phi, Cls, Func, Bound, Lib
    v = ip.resolve(a[0], st)
    names = class_names(ip, a[1], st)

    def one(v):
        if isinstance(v, Phi):
            return T.cond_ite(v.c, one(v.a), one(v.b))
        if isinstance(v, Term) and v.op == 'ite':
            return T.cond_ite(v.args[0], one(v.args[1]), one(v.args[2]))
        if isinstance(v, Inst):
            c = v.cls
            seen = [c]
            for x in seen:
                if x in names:
                    return TRUE
                for b in x.node.bases:
                    bv = ip.base_class(x, b)
                    if isinstance(bv, Cls):
                        seen.append(bv)
            return FALSE
        kd = ip.vkind(v, st)
        tys = None
        if isinstance(v, Ref):
            if kd == 'arr':
                c = st.heap[v.cid]
                isxr = c.xr and not any(l[0] == 'values' for l in v.lens)
                tys = [c.xr] if isinstance(c.xr, str) and isxr else (['xarray.DataArray', 'xarray.core.dataarray.DataArray'] if isxr else ['numpy.ndarray'])
            elif kd == 'list':
                tys = ['builtins.list']
            elif kd == 'dict':
                tys = ['builtins.dict']
        elif isinstance(v, tuple):
            tys = ['builtins.tuple']
        elif isinstance(v, Term):
            if v is NONE:
                return FALSE
            if kd == 'str':
                tys = ['builtins.str']
            elif v.op in ('sym', 'var') and T.info(v).get('anytype'):
                return T.or_(*[mk('isinst', v, x if isinstance(x, str) else x.name) for x in names])
            elif T.is_bool(v):
                tys = ['builtins.bool', 'builtins.int']
            elif T.is_int(v) and kd == 'sc':
                tys = ['builtins.int', 'numpy.integer']
            elif kd == 'sc' and v.op in ('sym', 'num', 'poly', 'var'):
                tys = ['builtins.float']
                if v.op == 'num':
                    tys = ['builtins.float']
            elif kd == 'arr':
                tys = ['numpy.ndarray']
            elif kd == 'list':
                tys = ['builtins.list']
            elif kd == 'dict':
                tys = ['builtins.dict']
            elif kd == 'tuple':
                tys = ['builtins.tuple']
        elif isinstance(v, (Func, Bound)):
            tys = ['types.FunctionType']
        elif isinstance(v, Obj):
            if v.attrs.get('types'):
                tys = v.attrs['types']
        if tys is None:
            return T.or_(*[mk('isinst', ip.val(v, st), x if isinstance(x, str) else x.name) for x in names])
        return TRUE if any(t in names for t in tys) else FALSE
    return one(v)


@fn('builtins.callable')
def _callable(ip, a, k, n, st, fr):
    from .interp import Func, Bound, Lib, Cls, Ref
    v = ip.resolve(a[0], st)
    if isinstance(v, (Func, Bound, Lib, Cls)):
        return TRUE
    if isinstance(v, (Ref, tuple)) or isinstance(v, Term) and v.op in ('none', 'str', 'num'):
        return FALSE
    return mk('isinst', ip.val(v, st), 'callable')


@fn('builtins.hasattr')
def _hasattr(ip, a, k, n, st, fr):
    from .interp import Inst, Ref, Lib
    v = ip.resolve(a[0], st)
    nm = ip.val(a[1], st)
    if isinstance(v, Inst) and nm.op == 'str':
        f = st.inst[v.iid]
        if nm.args[0] in f:
            from .interp import undef_cond
            return T.not_(undef_cond(f[nm.args[0]]))
        return TRUE if ip.class_attr(v.cls, nm.args[0]) else FALSE
    if isinstance(v, Lib):
        return mk('hasattr', ip.val(v, st), nm)
    if isinstance(v, Ref) and ip.vkind(v, st) == 'arr' and nm.op == 'str':
        if nm.args[0] in ('shape', 'dtype', 'T', 'ndim'):
            return TRUE
        if nm.args[0] in ('values', 'dims', 'sel'):
            return TRUE if st.heap[v.cid].xr else FALSE
    return mk('hasattr', ip.val(v, st), nm)


@fn('builtins.getattr')
def _getattr(ip, a, k, n, st, fr):
    nm = ip.val(a[1], st)
    if nm.op == 'str':
        return ip.getattr(ip.resolve(a[0], st), nm.args[0], n, fr, st, dflt=a[2] if len(a) > 2 else None)
    return mk('call', 'builtins.getattr', ip.val(a[0], st), nm)


@fn('builtins.setattr')
def _setattr(ip, a, k, n, st, fr):
    from .interp import Inst
    v = ip.resolve(a[0], st)
    nm = ip.val(a[1], st)
    if isinstance(v, Inst) and nm.op == 'str':
        st.inst[v.iid][nm.args[0]] = a[2]
    else:
        ip.effect('setattr', T.show(nm), n, st, obj=ip.val(v, st), value=ip.val(a[2], st))
    return NONE


def _quant(v, isall):
    """all()/any() of a list built by nested comprehensions or loops of appends, as a bounded quantifier"""
    if v.op == 'list':
        cs = [T.truth(x) for x in v.args]
        return T.and_(*cs) if isall else T.or_(*cs)
    if v.op == 'listcomp':
        init, b, lo, hi, c, e = v.args
        i = _quant(init, isall)
        if i is None:
            return None
        x = T.fresh_var('k', int=True, min=0, real=True)
        c, e = T.subst(c, {b: x}), T.truth(T.subst(e, {b: x}))
        return T.and_(i, T.ball(x, lo, hi, T.or_(T.not_(c), e))) if isall else T.or_(i, T.bany(x, lo, hi, T.and_(c, e)))
    if v.op == 'rec':
        ps, nexts, inits, b, k = T.rec_parts(v)
        i = _quant(inits[0], isall)
        r = _quant(T.subst(nexts[0], {ps[0]: mk('list')}), isall) if len(ps) == 1 and i is not None else None
        if r is None or ps[0] in T.freevars(nexts[0]) and nexts[0].op != 'listcomp':
            return None
        if nexts[0].op == 'listcomp' and (nexts[0].args[0] is not ps[0] or any(ps[0] in T.freevars(c) for c in nexts[0].args[1:] if isinstance(c, T.Term))):
            return None
        x = T.fresh_var('k', int=True, min=0, real=True)
        r = T.subst(r, {b: x})
        return T.and_(i, T.ball(x, ZERO, k, r)) if isall else T.or_(i, T.bany(x, ZERO, k, r))
    return None


@fn('builtins.all', 'builtins.any')
def _allany(ip, a, k, n, st, fr):
    import ast
    isall = isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'all'
    its = ip.concrete_items(a[0], st)
    if its is not None:
        cs = [ip.truth(x, st) for x in its]
        return T.and_(*cs) if isall else T.or_(*cs)
    v = ip.val(a[0], st)
    if v.op == 'listcomp' and v.args[0].op == 'list' and not v.args[0].args:
        _, b, lo, hi, c, e = v.args
        x = T.fresh_var('k', int=True, min=0, real=True)
        m = {b: x}
        c, e = T.subst(c, m), T.truth(T.subst(e, m))
        return T.ball(x, lo, hi, T.or_(T.not_(c), e)) if isall else T.bany(x, lo, hi, T.and_(c, e))
    q = _quant(v, isall)
    if q is not None:
        return q
    return mk('truth', mk('call', 'builtins.all' if isall else 'builtins.any', v))


@fn('builtins.open')
def _open(ip, a, k, n, st, fr):
    from .interp import Obj
    d = A(['file', 'mode'], a, k)
    p = path_of(ip, d['file'], st)
    m = ip.val(d.get('mode', string('r')), st)
    ms = m.args[0] if m.op == 'str' else '?'
    ip.effect('open', ms, n, st, path=p)
    return Obj('file', path=p, mode=ms, term=mk('file', p))


for _e in ('ValueError', 'TypeError', 'Exception', 'NotImplementedError', 'RuntimeError', 'KeyError', 'FileNotFoundError',
           'IndexError', 'AttributeError', 'AssertionError', 'OSError', 'IOError', 'StopIteration', 'ImportError'):
    def _mkexc(name):
        def f(ip, a, k, n, st, fr):
            return mk('call', name, *[ip.val(x, st) for x in a])
        return f
    FN['builtins.' + _e] = _mkexc(_e)


# ---- os / files
@fn('os.path.join')
def _join(ip, a, k, n, st, fr):
    from .interp import Obj
    ts = [ip.val(x, st) for x in a]
    return _pjoin(ts)


def _pjoin(ts):
    for i, t in enumerate(ts):
        if t.op == 'ite':
            return T.ite(t.args[0], _pjoin(ts[:i] + [t.args[1]] + ts[i + 1:]), _pjoin(ts[:i] + [t.args[2]] + ts[i + 1:]))
    if len(ts) > 1 and ts[-1].op == 'str' and ts[-1].args[0] == '':
        ts = ts[:-1]
    return T.join(*[T.pathnorm(t) if t.op == 'cat' else t for t in ts])


@fn('os.getcwd')
def _getcwd(ip, a, k, n, st, fr):
    return CWD


@fn('os.path.exists', 'os.path.isfile', 'os.path.isdir')
def _exists(ip, a, k, n, st, fr):
    t = path_of(ip, a[0], st)
    ip.effect('read', 'exists', n, st, path=t)
    r = on_disk(ip, t, 'exists')
    return mk('exists', t) if r is None else r


def on_disk(ip, path, what):
    """what the configuration says about stored files: value, or None when it says nothing"""
    d = ip.opts.get('disk')
    return d(path, what) if d else None


@fn('os.path.dirname', 'os.path.realpath', 'os.path.abspath', 'os.path.basename', 'os.path.normpath', 'os.path.expanduser')
def _pathfn(ip, a, k, n, st, fr):
    import ast
    f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', 'path')
    t = path_of(ip, a[0], st)
    if f == 'dirname' and t.op == 'path' and len(t.args) > 1:
        return T.join(*t.args[:-1])
    if f in ('basename', 'dirname') and t.op == 'str':
        import posixpath
        return string(getattr(posixpath, f)(t.args[0]))
    if f == 'basename' and t.op == 'path':
        return t.args[-1]
    if f in ('realpath', 'abspath', 'normpath'):
        return t
    r = sym(f'{f}:{t.key}', kind='str')
    return r


@fn('os.path.splitext')
def _splitext(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    if t.op == 'str':
        import posixpath
        r = posixpath.splitext(t.args[0])
        return tup(string(r[0]), string(r[1]))
    last = t
    if t.op == 'path':
        last = t.args[-1]
    if last.op == 'cat' and last.args[-1].op == 'str' and '.' in last.args[-1].args[0]:
        s = last.args[-1].args[0]
        i = s.rindex('.')
        base = T.cat(*last.args[:-1], string(s[:i]))
        return tup(T.join(*t.args[:-1], base) if t.op == 'path' else base, string(s[i:]))
    if last.op == 'str' and '.' in last.args[0]:
        s = last.args[0]
        i = s.rindex('.')
        return tup(T.join(*t.args[:-1], string(s[:i])) if t.op == 'path' else string(s[:i]), string(s[i:]))
    ext = T.info(t).get('ext') if t.op in ('sym', 'var') else None
    if t.op == 'getitem' and T._root_info(t.args[0]).get('ext'):
        ext = T._root_info(t.args[0])['ext']
    root = sym(f'root:{t.key}', kind='str')
    return tup(root, string(ext) if ext else sym(f'ext:{t.key}', kind='str'))


@fn('os.makedirs', 'os.mkdir')
def _makedirs(ip, a, k, n, st, fr):
    ip.effect('fs', 'makedirs', n, st, path=path_of(ip, a[0], st), exist_ok=ip.val(a[2] if len(a) > 2 else k.get('exist_ok', FALSE), st))
    return NONE


@fn('os.chdir')
def _chdir(ip, a, k, n, st, fr):
    ip.effect('env', 'chdir', n, st, path=path_of(ip, a[0], st))
    return NONE


def _mkfs(nm):
    def f(ip, a, k, n, st, fr):
        ip.effect('fs', nm, n, st, path=path_of(ip, a[0], st))
        return NONE
    return f


for _x in ('os.remove', 'os.unlink', 'os.rmdir', 'shutil.rmtree', 'os.rename', 'shutil.move', 'shutil.copy', 'os.replace', 'os.truncate'):
    FN[_x] = _mkfs(_x)
for _x in ('os.putenv', 'os.umask', 'signal.signal', 'locale.setlocale'):
    def _mkenv(nm):
        def f(ip, a, k, n, st, fr):
            ip.effect('env', nm, n, st)
            return NONE
        return f
    FN[_x] = _mkenv(_x)


@fn('os.path.getsize')
def _getsize(ip, a, k, n, st, fr):
    return mk('call', 'builtins.len', path_of(ip, a[0], st))


@fn('glob.glob')
def _glob(ip, a, k, n, st, fr):
    t = path_of(ip, a[0], st)
    ip.effect('read', 'glob', n, st, path=t)
    g = on_disk(ip, t, 'glob')
    g = mk('glob', t) if g is None else mk('globset', T.listcomp(mk('list'), g[0], ZERO, g[1], TRUE, g[2]))
    return ip.new(st, 'list', g)


def sorted_names(t):
    """names found in arbitrary order, sorted: the order of the number they contain, when it is padded to a fixed width"""
    if t.op == 'globset':
        lc = t.args[0]
        v, val = lc.args[1], lc.args[5]
        fs = [x for x in T.subterms(val) if x.op in ('fmt', 'str_of', 'call') and v in T.freevars(x) and x.op != 'path']
        if fs and all(x.op == 'fmt' and x.args[0] is v and re.fullmatch(r'0\d+d?', x.args[1] if isinstance(x.args[1], str) else str(x.args[1].args[0])) for x in fs):
            return lc
    return None


@fn('os.listdir')
def _listdir(ip, a, k, n, st, fr):
    t = path_of(ip, a[0], st)
    ip.effect('read', 'listdir', n, st, path=t)
    return ip.new(st, 'list', mk('glob', T.join(t, string('*'))))


_tick = [0]


@fn('time.time', 'time.perf_counter', 'time.monotonic')
def _time(ip, a, k, n, st, fr):
    _tick[0] += 1
    return sym(f'time{_tick[0]}', kind='sc', real=True, time=True)


def npyname(p):
    last = p.args[-1] if p.op in ('path', 'cat') else p
    if last.op == 'cat':
        last = last.args[-1]
    if last.op == 'str' and last.args[0].endswith('.npy'):
        return p
    if last.op in ('str', 'fmt') or last.op == 'sym' and False:
        if p.op == 'path':
            return T.join(*p.args[:-1], T.cat(p.args[-1], string('.npy')))
        return T.cat(p, string('.npy'))
    return p


@fn('numpy.save')
def _npsave(ip, a, k, n, st, fr):
    d = A(['file', 'arr'], a, k)
    p = npyname(path_of(ip, d['file'], st))
    ip.effect('write', 'npy', n, st, path=p, value=ip.val(d['arr'], st))
    return NONE


@fn('numpy.savez', 'numpy.savez_compressed')
def _npsavez(ip, a, k, n, st, fr):
    p = path_of(ip, a[0], st)
    ip.effect('write', 'npz', n, st, path=p, items={kk: ip.val(v, st) for kk, v in k.items()})
    return NONE


@fn('numpy.load')
def _npload(ip, a, k, n, st, fr):
    p = path_of(ip, a[0] if a else k['file'], st)
    ip.effect('read', 'npy', n, st, path=p)
    return load_value(ip, p, st)


def load_value(ip, p, st):
    from .interp import Obj
    last = p.args[-1] if p.op in ('path', 'cat') else p
    if last.op == 'cat':
        last = last.args[-1]
    if last.op == 'str' and last.args[0].endswith('.npz') or T.info(p).get('ext') == '.npz':
        return Obj('npz', path=p, term=mk('loadz', p), items=on_disk(ip, p, 'npz'))
    t = on_disk(ip, p, 'array') or mk('call', 'load', p)
    T.ARRAY_CALLS.add('load')
    return ip.arr(st, t)


@fn('numpy.lib.format.open_memmap', 'numpy.memmap')
def _memmap(ip, a, k, n, st, fr):
    d = A(['filename', 'mode', 'dtype', 'shape', 'fortran_order', 'version'], a, k)
    p = path_of(ip, d['filename'], st)
    m = ip.val(d.get('mode', string('r+')), st)
    ms = m.args[0] if m.op == 'str' else '?'
    prov = f'memmap:{p.key}:{ms}'
    ip.memmaps = getattr(ip, 'memmaps', {})
    ip.memmaps[prov] = p
    if ms.startswith('w'):
        sh = ip.val(d.get('shape', NONE), st)
        dt = dtype(ip.val(d.get('dtype', NONE), st))
        ip.effect('write', 'memmap', n, st, path=p, shape=sh, dtype=dt)
        return ip.new(st, 'arr', T.alloc('zeros', sh, dt), prov=prov)
    ip.effect('read', 'memmap', n, st, path=p, mode=ms)
    T.ARRAY_CALLS.add('load')
    return ip.new(st, 'arr', on_disk(ip, p, 'array') or mk('call', 'load', p), prov=prov if ms != 'r' and ms != 'c' else None)


@fn('yaml.dump', 'json.dump', 'yaml.safe_dump')
def _yamldump(ip, a, k, n, st, fr):
    from .interp import Obj
    f = a[1] if len(a) > 1 else k.get('stream')
    p = f.attrs['path'] if isinstance(f, Obj) and 'path' in f.attrs else mk('unk', 'path')
    ip.effect('write', 'yaml', n, st, path=p, value=ip.val(a[0], st), keys=keys_of(ip, a[0], st))
    return NONE


def keys_of(ip, v, st):
    from .interp import Ref
    if isinstance(v, Ref) and st.heap[v.cid].items is not None and st.heap[v.cid].kind == 'dict' and st.heap[v.cid].term is None:
        return {k: ip.val(x, st) for k, x in st.heap[v.cid].items}
    return None


@fn('yaml.load', 'yaml.safe_load', 'json.load')
def _yamlload(ip, a, k, n, st, fr):
    from .interp import Obj
    f = a[0] if a else k.get('stream')
    p = f.attrs['path'] if isinstance(f, Obj) and 'path' in f.attrs else mk('unk', 'path')
    ip.effect('read', 'yaml', n, st, path=p)
    nm = 'yaml:' + p.key
    r = on_disk(ip, p, 'dict')
    if r is not None:
        d = ip.new(st, 'dict', items=())
        ip.quiet += 1
        for kk, v in r.items():
            ip.dict_set(st, d, string(kk), v, n)
        ip.quiet -= 1
        return d
    t = sym(nm, kind='dict', yaml=True)
    return ip.new(st, 'dict', t)


@fn('numpy.lib.format.header_data_from_array_1_0')
def _npyheader(ip, a, k, n, st, fr):
    return ip.new(st, 'dict', mk('call', 'numpy.lib.format.header_data_from_array_1_0', ip.val((list(a) + list(k.values()))[0], st)))


@fn('io.BytesIO')
def _bytesio(ip, a, k, n, st, fr):
    from .interp import Obj
    return Obj('bytesio', term=mk('call', 'bytesio'))


@fn('xarray.open_dataset', 'xarray.load_dataset')
def _opends(ip, a, k, n, st, fr):
    from .interp import Obj
    p = path_of(ip, a[0] if a else k['filename_or_obj'], st)
    ip.effect('read', 'netcdf', n, st, path=p)
    return Obj('xrfile', path=p, term=mk('file', p))


@fn('h5py.File')
def _h5(ip, a, k, n, st, fr):
    from .interp import Obj
    p = path_of(ip, a[0] if a else k['name'], st)
    ip.effect('read', 'h5', n, st, path=p)
    return Obj('h5file', path=p, term=mk('file', p))


@fn('scipy.io.loadmat')
def _loadmat(ip, a, k, n, st, fr):
    p = path_of(ip, a[0], st)
    ip.effect('read', 'mat', n, st, path=p)
    return ip.new(st, 'dict', mk('loadz', p))


@fn('importlib.import_module')
def _import_module(ip, a, k, n, st, fr):
    from .interp import Lib
    t = ip.val(a[0], st)
    return Lib(t.args[0]) if t.op == 'str' else t


@fn('gc.collect', 'warnings.warn', 'warnings.filterwarnings', 'builtins.exit', 'sys.stdout.flush', 'warnings.simplefilter')
def _noop(ip, a, k, n, st, fr):
    return NONE


@fn('argparse.ArgumentParser')
def _argparse(ip, a, k, n, st, fr):
    from .interp import Obj
    return Obj('argparser')


# ---- numpy: creation
@fn('numpy.zeros', 'numpy.ones', 'numpy.empty')
def _alloc(ip, a, k, n, st, fr):
    import ast
    f = call_name(n)
    d = A(['shape', 'dtype', 'order'], a, k)
    sh = ip.val(d['shape'], st)
    dt = dtype(ip.val(d['dtype'], st)) if 'dtype' in d else mk('dtype', 'f8')
    if T.kind(sh) == 'sc':
        sh = tup(sh)
    o = ip.val(d['order'], st) if 'order' in d and getattr(ip, 'layout', False) else None
    if o is not None and not (o.op == 'str' and o.args[0] == 'C'):
        return ip.arr(st, mk('alloc', f, sh, dt, o))
    return ip.arr(st, T.alloc(f, sh, dt))


def call_name(n):
    import ast
    f = n.func
    x = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '?')
    return {'absolute': 'abs', 'amax': 'max', 'amin': 'min'}.get(x, x)


@fn('numpy.full')
def _full(ip, a, k, n, st, fr):
    d = A(['shape', 'fill_value', 'dtype'], a, k)
    v = ip.val(d['fill_value'], st)
    dt = dtype(ip.val(d['dtype'], st)) if 'dtype' in d else mk('dtype', 'f8')
    return ip.arr(st, T.mul(v, T.alloc('ones', ip.val(d['shape'], st), dt)) if v is not ZERO else
                  T.alloc('zeros', ip.val(d['shape'], st), dt))


@fn('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like')
def _alloclike(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    f = call_name(n)[:-5]
    dt = dtype(ip.val(k['dtype'], st)) if 'dtype' in k else like_dtype(t)
    if T.kind(t) == 'sc':
        return ip.arr(st, T.alloc(f, tup(), dt))
    return ip.arr(st, T.alloc(f, T.shape_of(t), dt))


def like_dtype(t):
    return dtype_term(t)


@fn('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asfortranarray', 'numpy.asanyarray')
def _array(ip, a, k, n, st, fr):
    f = call_name(n)
    d = A(['object', 'dtype'], a, {kk: v for kk, v in k.items() if kk in ('dtype', 'object')})
    v = d['object']
    t = ip.val(v, st)
    from .interp import Ref
    if getattr(ip, 'layout', False) and (f == 'ascontiguousarray' or f == 'array' and 'order' in k and ip.val(k['order'], st) is string('C')):
        return ip.new(st, 'arr', mk('copyof', to_array(t)))
    if f.startswith('as') and isinstance(v, Ref) and ip.vkind(v, st) == 'arr' and 'dtype' not in d:
        return view(ip, v, ('values',), st) if st.heap[v.cid].xr else v
    t = to_array(t)
    if 'dtype' in d:
        t = cast(t, ip.val(d['dtype'], st))
    if T.kind(t) == 'sc':
        # 0-d array
        return ip.new(st, 'arr', t)
    return ip.new(st, 'arr', t)


@fn('numpy.copy')
def _copy(ip, a, k, n, st, fr):
    return ip.new(st, 'arr', to_array(ip.val(a[0], st)))


@fn('copy.copy', 'copy.deepcopy')
def _pycopy(ip, a, k, n, st, fr):
    from .interp import Ref
    v = ip.resolve(a[0], st)
    if isinstance(v, Ref):
        c = st.heap[v.cid]
        r = ip.new(st, c.kind, None if c.items is not None and not v.lens and c.term is None else ip.val(v, st) if c.items is None or v.lens else c.term,
                   items=c.items if not v.lens else None)
        return r
    return v


@fn('numpy.arange')
def _arange(ip, a, k, n, st, fr):
    d = [ip.val(x, st) for x in a]
    lo, hi, stp = ZERO, None, ONE
    if len(d) == 1:
        hi = d[0]
    elif len(d) >= 2:
        lo, hi = d[0], d[1]
        if len(d) > 2:
            stp = d[2]
    else:
        lo, hi = ip.val(k.get('start', ZERO), st), ip.val(k['stop'], st)
    if 'step' in k:
        stp = ip.val(k['step'], st)
    return ip.arr(st, mk('range1', lo, hi, stp))


# ---- numpy: views and reshaping
def lens_fn(lensf):
    def f(ip, a, k, n, st, fr):
        return view(ip, a[0], lensf(ip, a, k, st), st)
    return f


def shape_arg(ip, args, st):
    if len(args) == 1:
        t = ip.val(args[0], st)
        if t.op == 'list':
            t = mk('tuple', *t.args)
        if T.kind(t) == 'sc':
            t = tup(t)
        return t
    return tup(*[ip.val(x, st) for x in args])


@fn('numpy.linalg.norm', 'scipy.linalg.norm')
def _norm(ip, a, k, n, st, fr):
    d = A(['x', 'ord', 'axis', 'keepdims'], a, k)
    x = ip.val(d['x'], st)
    o = ip.val(d.get('ord', NONE), st)
    ax = ip.val(d.get('axis', NONE), st)
    dims = shp(x) if T.kind(x) == 'arr' else None
    one = dims is not None and len(dims) == 1
    if ax is NONE and 'keepdims' not in d and dims is not None:
        if o is NONE or one and T.intval(o) == 2:
            return T.sqrt(T.red('sum', T.powr(T.tabs(x), 2), NONE))
        if one and T.intval(o) == 1:
            return T.red('sum', T.tabs(x), NONE)
        if one and o.op == 'fconst' and o.args[0] == 'inf':
            return T.red('max', T.tabs(x), NONE)
    t = mk('call', 'numpy.linalg.norm', x, *([] if o is NONE and ax is NONE else [o] if ax is NONE else [o, ax]))
    return t


@fn('numpy.reshape')
def _reshape(ip, a, k, n, st, fr):
    d = A(['a', 'shape', 'order'], a, k)
    if 'newshape' in d:
        d['shape'] = d['newshape']
    sh = shape_arg(ip, [d['shape']], st)
    if 'order' in d and ip.val(d['order'], st) is not string('C'):
        t = ip.val(d['a'], st)
        T.ARRAY_CALLS.add('reshapeF')
        return ip.arr(st, mk('call', 'reshapeF', t, sh, ip.val(d['order'], st)))
    return do_reshape(ip, d['a'], sh, st)


def do_reshape(ip, v, sh, st):
    t = ip.val(v, st)
    s = shp(t)
    if isinstance(s, list) and sh.op == 'tuple' and tuple(s) == sh.args:
        return v if T.kind(t) == 'arr' else t
    if sh.op == 'tuple' and isinstance(s, list) and sum(1 for x in sh.args if x is MONE) == 1:
        rest = T.mul(*[x for x in sh.args if x is not MONE]) if len(sh.args) > 1 else ONE
        m = T.div(T.mul(*s) if s else ONE, rest)
        sh = tup(*[m if x is MONE else x for x in sh.args])
        if tuple(s) == sh.args:
            return v
    return view(ip, v, ('reshape', sh), st)


@fn('numpy.ravel')
def _ravel(ip, a, k, n, st, fr):
    if len(a) > 1 or k:
        return arr_method(ip, a[0], 'ravel', a[1:], k, n, st, fr)
    return do_reshape(ip, a[0], tup(MONE), st)


@fn('numpy.squeeze')
def _squeeze(ip, a, k, n, st, fr):
    if len(a) > 1 or 'axis' in k:
        t = ip.val(a[0], st)
        ax = ip.val(a[1] if len(a) > 1 else k['axis'], st)
        s = shp(t)
        i = T.intval(ax)
        if i is not None and isinstance(s, list):
            i %= len(s)
            return ip.getitem(a[0] if T.kind(t) == 'arr' else t, ix(*([ALL] * i + [ZERO])), n, fr, st)
        return R(ip, st, mk('call', 'numpy.squeeze', t, ax))
    s = shp(ip.val(a[0], st))
    ip.effect('lib', 'squeeze', n, st, dims=tuple(s) if s is not None else None)
    return view(ip, a[0], ('squeeze',), st)


@fn('numpy.transpose')
def _transpose(ip, a, k, n, st, fr):
    ax = a[1] if len(a) > 1 else k.get('axes')
    if ax is None:
        nd = ndim_of(ip.val(a[0], st))
        if nd is not None and nd > 2:
            return view(ip, a[0], ('T', tuple(reversed(range(nd)))), st)
        return view(ip, a[0], ('T', ()), st)
    return do_transpose(ip, a[0], ip.val(ax, st), st)


def do_transpose(ip, v, ax, st):
    if ax.op in ('tuple', 'list') and all(T.intval(x) is not None for x in ax.args):
        p = [T.intval(x) for x in ax.args]
        p = tuple(x % len(p) for x in p)
        if p == (1, 0):
            return view(ip, v, ('T', ()), st)
        if p == tuple(range(len(p))):
            return v
        return view(ip, v, ('T', p), st)
    return R(ip, st, mk('call', 'numpy.transpose', ip.val(v, st), ax))


@fn('numpy.swapaxes')
def _swapaxes(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    nd = ndim_of(t)
    i, j = T.intval(ip.val(a[1], st)), T.intval(ip.val(a[2], st))
    if nd is not None and i is not None and j is not None:
        p = list(range(nd))
        i, j = i % nd, j % nd
        p[i], p[j] = p[j], p[i]
        return do_transpose(ip, a[0], tup(*[num(x) for x in p]), st)
    return R(ip, st, mk('call', 'numpy.swapaxes', t, *[ip.val(x, st) for x in a[1:]]))


@fn('numpy.moveaxis')
def _moveaxis(ip, a, k, n, st, fr):
    d = A(['a', 'source', 'destination'], a, k)
    t = ip.val(d['a'], st)
    nd = ndim_of(t)
    i, j = T.intval(ip.val(d['source'], st)), T.intval(ip.val(d['destination'], st))
    if nd is not None and i is not None and j is not None:
        p = [x for x in range(nd) if x != i % nd]
        p.insert(j % nd, i % nd)
        return do_transpose(ip, d['a'], tup(*[num(x) for x in p]), st)
    T.ARRAY_CALLS.add('numpy.moveaxis')
    return R(ip, st, mk('call', 'numpy.moveaxis', t, ip.val(d['source'], st), ip.val(d['destination'], st)))


@fn('numpy.rollaxis')
def _rollaxis(ip, a, k, n, st, fr):
    d = A(['a', 'axis', 'start'], a, k)
    t = ip.val(d['a'], st)
    nd = ndim_of(t)
    i = T.intval(ip.val(d['axis'], st))
    j = T.intval(ip.val(d['start'], st)) if d.get('start') is not None else 0
    if nd is None or i is None or j is None:
        return R(ip, st, mk('call', 'numpy.rollaxis', t, *[ip.val(x, st) for x in a[1:]]))
    i %= nd
    j = j + nd if j < 0 else j
    if i < j:
        j -= 1
    p = [x for x in range(nd) if x != i]
    p.insert(j, i)
    return do_transpose(ip, d['a'], tup(*[num(x) for x in p]), st)


@fn('numpy.expand_dims')
def _expand(ip, a, k, n, st, fr):
    d = A(['a', 'axis'], a, k)
    ax = T.intval(ip.val(d['axis'], st))
    t = ip.val(d['a'], st)
    if ax is not None and ax < 0:
        nd = ndim_of(t)
        if nd is not None:
            ax = ax % (nd + 1)
        elif ax == -1:
            return ip.getitem(d['a'], ix(ELL, NONE), n, fr, st)
    if ax is not None and ax >= 0:
        return ip.getitem(d['a'], ix(*([ALL] * ax + [NONE])), n, fr, st)
    return R(ip, st, mk('call', 'numpy.expand_dims', t, ip.val(d['axis'], st)))


@fn('numpy.real')
def _real(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    if is_real(t):
        return a[0]
    if T.kind(t) == 'arr':
        return view(ip, a[0], ('real',), st)
    return R(ip, st, part('real', to_array(t)))


@fn('numpy.imag')
def _imag(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    if T.kind(t) == 'arr':
        return view(ip, a[0], ('imag',), st)
    return R(ip, st, part('imag', to_array(t)))


@fn('numpy.conj')
def _conj(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    if is_real(t):
        return R(ip, st, t)
    return R(ip, st, T.conj(t))


# ---- numpy: algebra
@fn('numpy.matmul', 'numpy.dot')
def _matmul(ip, a, k, n, st, fr):
    x, y = ip.val(a[0], st), ip.val(a[1], st)
    if 'out' in k:
        ip.put(k['out'], T.matmul(x, y), st, n, how='out')
    return R(ip, st, T.matmul(x, y))


@fn('numpy.einsum')
def _einsum(ip, a, k, n, st, fr):
    spec = ip.val(a[0], st)
    ops = [ip.val(x, st) for x in a[1:]]
    if spec.op == 'str':
        s = spec.args[0].replace(' ', '')
        if '->' in s and '...' not in s:
            lhs, rhs = s.split('->')
            ins = lhs.split(',')
            if len(ins) == 1:
                if sorted(ins[0]) == sorted(rhs) and len(set(rhs)) == len(rhs):
                    p = tuple(ins[0].index(c) for c in rhs)
                    return do_transpose(ip, a[1], tup(*[num(i) for i in p]), st)
            elif len(ins) == 2 and len(ins[0]) == 2 and len(ins[1]) == 2:
                (x, y), (u, w) = (ins, ops)
                for fx in (0, 1):
                    for fy in (0, 1):
                        sx = x[::-1] if fx else x
                        sy = y[::-1] if fy else y
                        if sx[1] == sy[0] and sx[0] != sy[1]:
                            m = T.matmul(T.transpose(u) if fx else u, T.transpose(w) if fy else w)
                            if rhs == sx[0] + sy[1]:
                                return R(ip, st, m)
                            if rhs == sy[1] + sx[0]:
                                return R(ip, st, T.transpose(m))
            # canonical letters
            m = {}
            out = ''
            for c in s:
                if c.isalpha():
                    m.setdefault(c, chr(97 + len(m)))
                    out += m[c]
                else:
                    out += c
            s = out
        T.ARRAY_CALLS.add('einsum')
        c = ONE
        rs = []
        for o in ops:
            q, r = T.split_scalar(o)
            c = T.mul(c, q)
            rs.append(r)
        return R(ip, st, T.mul(c, mk('call', 'einsum', string(s), *rs)))
    return R(ip, st, mk('call', 'numpy.einsum', spec, *ops))


REDS = ('sum', 'mean', 'max', 'min', 'prod', 'var', 'std', 'nanmean', 'nanvar', 'nanmax', 'nanmin', 'nansum', 'all', 'any',
        'argmax', 'argmin', 'median', 'nanargmin', 'nanstd')


def _redn(fname):
    def f(ip, a, k, n, st, fr):
        d = A(['a', 'axis'], a[:2], k)
        t = ip.val(d['a'], st)
        if fname == 'prod' and t.op in ('tuple', 'list') and 'axis' not in d:
            return T.mul(*t.args) if t.args else ONE
        if fname in ('max', 'min') and t.op in ('tuple', 'list') and 'axis' not in d and all(T.kind(x) == 'sc' for x in t.args):
            return (T.tmax if fname == 'max' else T.tmin)(*t.args)
        if fname == 'sum' and t.op in ('tuple', 'list') and 'axis' not in d and all(T.kind(x) == 'sc' for x in t.args):
            return T.add(*t.args)
        if fname in ('argmax', 'argmin') and T.kind(t) != 'arr':
            return mk('call', 'numpy.' + fname, t)
        t = to_array(t)
        ax = ip.val(d['axis'], st) if 'axis' in d else NONE
        ax = norm_axis(ax, t)
        extra = [mk('kw', kk, ip.val(v, st)) for kk, v in sorted(k.items()) if kk not in ('axis', 'a', 'dtype')
                 and not (kk == 'keepdims' and ip.val(v, st) is FALSE)]
        if ax is not NONE and ndim_of(t) == 1:
            if not extra:
                ax = NONE
        if fname in ('all', 'any') and t.op == 'call' and t.args[0] == 'isreal':
            if is_real(t.args[1]):
                return TRUE
            if known_complex(t.args[1]):
                return FALSE
            return mk('truth', T.red('all', t, ax))
        if fname in ('argmax', 'argmin') and ax is NONE:
            return mk('call', 'numpy.' + fname, t, *extra)
        r = T.red(fname, t, ax, *extra)
        if fname in ('all', 'any') and ax is NONE:
            return mk('truth', r)
        return R(ip, st, r)
    return f


for _r in REDS:
    FN['numpy.' + _r] = _redn(_r)


def known_complex(t):
    while t.op in ('getitem', 'store', 'reshape', 'transpose', 'astype'):
        t = t.args[0]
    return bool(T.info(t).get('complex'))


@fn('numpy.isreal')
def _isreal(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    T.ARRAY_CALLS.add('isreal')
    return ip.arr(st, mk('call', 'isreal', t))


@fn('numpy.isrealobj')
def _isrealobj(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    if is_real(t):
        return TRUE
    return FALSE


@fn('numpy.iscomplexobj')
def _iscplx(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    return FALSE if is_real(t) else TRUE


@fn('numpy.size')
def _size(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    if len(a) > 1:
        return T.getitem(T.shape_of(t), ix(ip.val(a[1], st)))
    s = shp(t)
    if isinstance(s, list):
        return T.mul(*s) if s else ONE
    if t.op in ('tuple', 'list'):
        return num(len(t.args))
    return mk('size', t)


@fn('numpy.shape')
def _shape(ip, a, k, n, st, fr):
    return T.shape_of(ip.val(a[0], st))


@fn('numpy.ndim')
def _ndim(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    nd = ndim_of(t)
    return num(nd) if nd is not None else mk('ndim', t)


@fn('numpy.sqrt')
def _sqrt(ip, a, k, n, st, fr):
    return R(ip, st, T.sqrt(ip.val(a[0], st)))


@fn('numpy.square')
def _square(ip, a, k, n, st, fr):
    return R(ip, st, T.powr(ip.val(a[0], st), 2))


@fn('numpy.ceil')
def _ceil(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    return T.ceil_(t) if T.kind(t) != 'arr' else ip.arr(st, mk('elem', 'ceil', t))


@fn('numpy.floor')
def _floor(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    return T.floor_(t) if T.kind(t) != 'arr' else ip.arr(st, mk('elem', 'floor', t))


def _arith(f):
    def g(ip, a, k, n, st, fr):
        x, y = ip.val(a[0], st), ip.val(a[1], st)
        r = f(x, y)
        if 'out' in k:
            ip.put(k['out'], r, st, n, how='out')
        return R(ip, st, r)
    return g


FN['numpy.add'] = _arith(T.add)
FN['numpy.subtract'] = _arith(T.sub)
FN['numpy.multiply'] = _arith(T.mul)
FN['numpy.divide'] = FN['numpy.true_divide'] = _arith(T.div)
FN['numpy.floor_divide'] = _arith(T.floordiv)
FN['numpy.mod'] = _arith(T.mod)
FN['numpy.negative'] = lambda ip, a, k, n, st, fr: R(ip, st, T.neg(ip.val(a[0], st)))
FN['numpy.logical_not'] = lambda ip, a, k, n, st, fr: T.not_(T.truth(ip.val(a[0], st)))


def _cmpfn(f):
    def g(ip, a, k, n, st, fr):
        return f(ip.val(a[0], st), ip.val(a[1], st))
    return g


FN['numpy.greater'] = _cmpfn(lambda x, y: T.lt(y, x))
FN['numpy.less'] = _cmpfn(lambda x, y: T.lt(x, y))
FN['numpy.minimum'] = lambda ip, a, k, n, st, fr: _npmm(ip, a, st, T.tmin, 'min')
FN['numpy.maximum'] = lambda ip, a, k, n, st, fr: _npmm(ip, a, st, T.tmax, 'max')


def _npmm(ip, a, st, f, nm):
    x, y = ip.val(a[0], st), ip.val(a[1], st)
    if T.kind(x) == 'sc' and T.kind(y) == 'sc':
        return ip.refine(f(x, y), st)
    return R(ip, st, mk('elem', nm, *sorted([x, y], key=lambda t: t.key)))


def _fft(name):
    def f(ip, a, k, n, st, fr):
        d = A(['a', 'n', 'axis', 'norm'], a, k)
        t = ip.val(d['a'], st)
        ax = norm_axis(ip.val(d.get('axis', MONE), st), t)
        nn = ip.val(d.get('n', NONE), st)
        s = shp(t)
        if nn is not NONE and isinstance(s, list) and T.intval(ax) is not None and s[T.intval(ax)] is nn:
            nn = NONE
        if isinstance(s, list) and len(s) == 1:
            ax = ZERO
        T.ARRAY_CALLS.add('fft')
        T.ARRAY_CALLS.add('rfft')
        T.ARRAY_CALLS.add('ifft')
        T.ARRAY_CALLS.add('irfft')
        c, r = T.split_scalar(t)
        extra = [mk('kw', 'n', nn)] if nn is not NONE else []
        if 'norm' in d and ip.val(d['norm'], st) is not NONE:
            extra.append(mk('kw', 'norm', ip.val(d['norm'], st)))
        return ip.arr(st, T.mul(c, mk('call', name, r, ax, *extra)))
    return f


for _r in ('fft', 'rfft', 'ifft', 'irfft'):
    FN['numpy.fft.' + _r] = _fft(_r)


@fn('scipy.linalg.eigh', 'scipy.linalg.eig')
def _eig(ip, a, k, n, st, fr):
    f = call_name(n)
    t = ip.val(a[0], st)
    T.ARRAY_CALLS.update(('eigvals', 'eigvecs', 'eigvals_g', 'eigvecs_g'))
    sfx = '' if f == 'eigh' else '_g'
    ex = kws(ip, {kk: v for kk, v in k.items() if kk not in ('check_finite', 'overwrite_a', 'right')}, st)
    return (ip.arr(st, mk('call', 'eigvals' + sfx, t, *ex)), ip.arr(st, mk('call', 'eigvecs' + sfx, t, *ex)))


@fn('numpy.linalg.svd')
def _svd(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    fm = ip.val(a[1] if len(a) > 1 else k.get('full_matrices', TRUE), st)
    T.ARRAY_CALLS.update(('svd_u', 'svd_s', 'svd_vh'))
    return (ip.arr(st, mk('call', 'svd_u', t, fm)), ip.arr(st, mk('call', 'svd_s', t)), ip.arr(st, mk('call', 'svd_vh', t, fm)))


@fn('numpy.argsort')
def _argsort(ip, a, k, n, st, fr):
    T.ARRAY_CALLS.add('numpy.argsort')
    t = ip.val(a[0], st)
    ax = a[1:] and ip.val(a[1], st) or (ip.val(k['axis'], st) if 'axis' in k else MONE)
    # decreasing order written as argsort(-x)
    sc, y = T.split_scalar(t)
    if sc.op == 'num' and sc.args[0] < 0:
        return ip.arr(st, T.getitem(mk('call', 'numpy.argsort', y), ix(T.sl(NONE, NONE, MONE))))
    return ip.arr(st, mk('call', 'numpy.argsort', t))


@fn('numpy.flip')
def _flip(ip, a, k, n, st, fr):
    t = ip.val(a[0], st)
    nd = ndim_of(t)
    ax = ip.val(a[1] if len(a) > 1 else k['axis'], st) if len(a) > 1 or 'axis' in k else NONE
    rev = mk('sl', NONE, NONE, MONE)
    if nd == 1 or (ax is NONE and nd is None and t.op == 'call' and t.args[0] in ('numpy.argsort', 'eigvals')):
        return R(ip, st, T.getitem(t, ix(T.sl(None, None, MONE))))
    i = T.intval(ax)
    if i is not None and i >= 0:
        return R(ip, st, T.getitem(t, ix(*([ALL] * i + [T.sl(None, None, MONE)]))))
    return R(ip, st, mk('call', 'numpy.flip', t, ax))


def _stack_call(name):
    def f(ip, a, k, n, st, fr):
        d = A(['arrays', 'axis'], a, k)
        v = d['arrays']
        t = ip.val(v, st)
        if t.op == 'tuple':
            t = mk('list', *t.args)
        if T.kind(t) == 'list' and t.op == 'listcomp':
            pass
        ax = ip.val(d.get('axis', ZERO), st)
        nm = name
        if name == 'stack' and t.op == 'listcomp' and t.args[0].op == 'list' and not t.args[0].args and t.args[4] is TRUE:
            v, hi, val = t.args[1], t.args[3], t.args[5]
            ds = T._dims(val)
            i = T.intval(ax)
            if ds is not None and i is not None and -len(ds) - 1 <= i <= len(ds):
                i %= len(ds) + 1
                w = T.fresh_var('part', int=True, min=0)
                ds = list(ds)
                base = T.alloc('empty', mk('tuple', *ds[:i], hi, *ds[i:]), dtype_term(val))
                return ip.arr(st, T.scatter(base, w, ZERO, hi, ix(*[T.ALL] * i, w), T.subst(val, {v: w})))
        if name in ('hstack', 'vstack'):
            return ip.arr(st, mk('call', 'numpy.' + name, t))
        return ip.arr(st, mk('call', 'numpy.' + name, t, ax))
    T.ARRAY_CALLS.add('numpy.' + name)
    return f


for _r in ('hstack', 'vstack', 'concatenate', 'stack'):
    FN['numpy.' + _r] = _stack_call(_r)


@fn('numpy.where')
def _where(ip, a, k, n, st, fr):
    ts = [ip.val(x, st) for x in a]
    if len(ts) == 3:
        return R(ip, st, mk('elem', 'where', *ts))
    T.ARRAY_CALLS.add('nonzero')
    return (ip.arr(st, mk('call', 'nonzero', ts[0])),)


@fn('numpy.unravel_index')
def _unravel(ip, a, k, n, st, fr):
    ts = [ip.val(x, st) for x in a]
    if len(ts) == 2 and not k and ts[1].op == 'tuple':
        i, sh = ts
        if i.op == 'call' and i.args[0] == 'numpy.argmin' and len(i.args) == 2:
            # the first minimum of an expression that varies along one axis only
            bs = {s for s in T.subterms(i.args[1]) if s.op == 'call' and s.args[0] == 'bcast1'}
            ax = {s.args[2] for s in bs}
            if len(ax) == 1 and all(s.args[3] is sh for s in bs) and _elementwise(i.args[1]):
                x = T.subst(i.args[1], {s: s.args[1] for s in bs})
                j = T.intval(next(iter(ax)))
                return mk('tuple', *[mk('call', 'numpy.argmin', x) if q == j else ZERO for q in range(len(sh.args))])
        return mk('tuple', *[mk('call', 'unravel', i, sh, num(q)) for q in range(len(sh.args))])
    return mk('call', 'unravel', *ts)


def _elementwise(t):
    if T.kind(t) == 'sc' or t.op == 'call' and t.args[0] == 'bcast1':
        return True
    if t.op == 'poly':
        return all(_elementwise(a) for c, m in t.args[0] for a, e in m)
    return t.op in ('abs', 'pow', 'conj', 'real', 'imag') and all(_elementwise(x) for x in t.args if isinstance(x, Term))


@fn('numpy.diff')
def _diff(ip, a, k, n, st, fr):
    d = A(['a', 'n', 'axis'], a, k)
    t = to_array(ip.val(d['a'], st))
    nd = ndim_of(t)
    ax = T.intval(ip.val(d['axis'], st)) if 'axis' in d else -1
    if nd is None or ax is None or not -nd <= ax < nd or set(d) - {'a', 'n', 'axis'} or ('n' in d and ip.val(d['n'], st) is not ONE):
        T.ARRAY_CALLS.add('numpy.diff')
        return ip.arr(st, mk('call', 'numpy.diff', t, *[ip.val(x, st) for x in a[1:]], *kws(ip, k, st)))
    s = shp(t)
    ax %= nd
    pre = [T.ALL] * ax
    return R(ip, st, T.sub(T.getitem(t, ix(*pre, sl(ONE, s[ax], ONE))), T.getitem(t, ix(*pre, sl(ZERO, T.sub(s[ax], ONE), ONE)))))


@fn('numpy.meshgrid')
def _mesh(ip, a, k, n, st, fr):
    its = [ip.val(x, st) for x in a]
    kk = kws(ip, k, st)
    T.ARRAY_CALLS.add('meshgrid')
    if its and its[-1].op == 'star':
        return ip.new(st, 'list', mk('call', 'meshgrids', *its, *kk))
    o = {x.args[0]: x.args[1] for x in kk}
    ds = [T._dims(t) for t in its]
    if its and all(d is not None and len(d) == 1 for d in ds) and set(o) <= {'indexing'}:
        sh = [d[0] for d in ds]
        pos = list(range(len(its)))
        if o.get('indexing', string('xy')) is string('xy') and len(its) > 1:
            sh[0], sh[1] = sh[1], sh[0]
            pos[0], pos[1] = 1, 0
        T.ARRAY_CALLS.add('bcast1')
        return ip.new(st, 'list', items=tuple(ip.arr(st, mk('call', 'bcast1', t, num(q), mk('tuple', *sh))) for t, q in zip(its, pos)))
    return ip.new(st, 'list', items=tuple(ip.arr(st, mk('call', 'meshgrid', num(i), *its, *kk)) for i in range(len(its))))


@fn('numpy.isscalar')
def _isscalar(ip, a, k, n, st, fr):
    return TRUE if T.kind(ip.val(a[0], st)) == 'sc' else FALSE


@fn('numpy.dtype')
def _npdtype(ip, a, k, n, st, fr):
    return dtype(ip.val(a[0], st))


@fn('numpy.result_type', 'numpy.promote_types')
def _restype(ip, a, k, n, st, fr):
    out = None
    for x in a:
        t = ip.val(x, st)
        if T.kind(t) == 'arr':
            d = dtype_of(t)
        else:
            d = dtype(t)
            d = d.args[0] if d.op == 'dtype' else None
        if d is None:
            return mk('call', 'result_type', *[ip.val(y, st) for y in a])
        out = d if out is None else promote(out, d)
    return mk('dtype', out) if out else mk('call', 'result_type', *[ip.val(y, st) for y in a])


@fn('numpy.may_share_memory', 'numpy.allclose', 'numpy.array_equal', 'numpy.isfinite', 'numpy.isnan', 'numpy.any_', 'numpy.isclose')
def _npbool(ip, a, k, n, st, fr):
    f = call_name(n)
    t = mk('call', f, *[ip.val(x, st) for x in a])
    if f in ('isfinite', 'isnan', 'isclose'):
        T.ARRAY_CALLS.add(f)
        return R(ip, st, t)
    return mk('truth', t)


@fn('numpy.errstate')
def _errstate(ip, a, k, n, st, fr):
    from .interp import Obj
    return Obj('errstate')


@fn('numpy.copyto')
def _copyto(ip, a, k, n, st, fr):
    ip.setitem(ip.resolve(a[0], st), ix(ELL), a[1], st, n)
    return NONE


@fn('numpy.einsum_path')
def _ep(ip, a, k, n, st, fr):
    return NONE


# ---------------------------------------------------------------- methods
COLLECTIVES = {'Barrier', 'Allreduce', 'allreduce', 'bcast', 'Bcast', 'Scan', 'scan', 'Allgather', 'allgather', 'reduce', 'Reduce',
               'gather', 'Gather', 'scatter', 'Scatter', 'Igatherv', 'Gatherv', 'alltoall', 'Alltoall', 'barrier', 'Create_cart', 'Sub', 'Split',
               'Dup', 'Exscan', 'exscan', 'Ibarrier', 'Free'}


def mpi_op(ip, k, a, pos, st):
    op = k.get('op') or (a[pos] if len(a) > pos else None)
    if op is None:
        return mk('lib', 'mpi4py.MPI.SUM')
    t = ip.val(op, st)
    return t


def comm_method(ip, c, name, a, k, n, st, fr):
    from .interp import Obj
    if name in ('Get_rank',):
        return c.attrs['rank']
    if name in ('Get_size',):
        return c.attrs['size']
    ts = [safe_val(ip, x, st) for x in a]
    kt = {kk: safe_val(ip, v, st) for kk, v in k.items()}
    kind = 'coll' if name in COLLECTIVES else 'p2p'
    if name == 'Free':
        kind = 'mpi'
    if kind == 'p2p':
        bufs = [describe_msg(ip, x, st) for x in list(a) + list(k.values())]
    else:
        bufs = None
    if name in ('allreduce', 'Allreduce', 'scan', 'Scan', 'reduce', 'Reduce', 'bcast', 'Bcast'):
        pass
    ip.effect(kind, name, n, st, args=ts, kwargs=kt, comm=c.oid, bufs=bufs, raw=(list(a), dict(k)))
    if name == 'allreduce':
        return R(ip, st, allreduce_term(ts[0], mpi_op(ip, k, a, 1, st), 'mpi.allreduce'))
    if name in ('Allreduce', 'Scan', 'Exscan'):
        send = a[0] if a else k['sendbuf']
        recv = a[1] if len(a) > 1 else k['recvbuf']
        s = safe_val(ip, send, st)
        if s.op == 'lib' and s.args[0].endswith('IN_PLACE'):
            s = ip.val(recv, st)
        nm = 'mpi.allreduce' if name == 'Allreduce' else 'mpi.' + name.lower()
        r = allreduce_term(s, mpi_op(ip, k, a, 2, st), nm)
        recv = buf(ip, recv, st)
        ip.put(recv, r, st, n, how='recv')
        return NONE
    if name in ('scan', 'exscan'):
        return allreduce_term(ts[0], mpi_op(ip, k, a, 1, st), 'mpi.' + name)
    if name in ('bcast',):
        v = a[0] if a else k['obj']
        t = ts[0] if ts else kt['obj']
        root = kt.get('root', ts[1] if len(ts) > 1 else ZERO)
        return bcast_value(ip, v, t, root, c, st)
    if name == 'Bcast':
        v = buf(ip, a[0] if a else k['buf'], st)
        t = ip.val(v, st)
        root = kt.get('root', ts[1] if len(ts) > 1 else ZERO)
        ip.put(v, bcast_term(t, root, c), st, n, how='recv')
        return NONE
    if name in ('reduce',):
        return R(ip, st, allreduce_term(ts[0], mpi_op(ip, k, a, 1, st), 'mpi.reduce'))
    if name in ('allgather', 'gather', 'scatter', 'alltoall'):
        return ip.new(st, 'list', mk('call', 'mpi.' + name, *ts))
    if name in ('Allgather', 'Gather', 'Gatherv', 'Allgatherv'):
        recv = a[1] if len(a) > 1 else k.get('recvbuf')
        if recv is not None and recv is not NONE:
            nm = 'mpi.' + name.lower() + ':arr'
            T.ARRAY_CALLS.add(nm)
            ip.put(buf(ip, recv, st), mk('call', nm, ts[0]), st, n, how='recv')
        return NONE
    if name in ('Isend', 'Irecv', 'Igatherv', 'Ibarrier', 'isend', 'irecv'):
        return Obj('request', kindof=name, site=n, term=mk('call', 'mpi.request', string(name), *ts, *[mk('kw', x, y) for x, y in sorted(kt.items())]))
    if name in ('Create_cart', 'Sub', 'Split', 'Dup', 'Create'):
        return Obj('comm', rank=sym('subrank', int=True, min=0, real=True), size=sym('subsize', int=True, min=1, real=True))
    return NONE


def buf(ip, v, st):
    """buffer inside an mpi4py message spec"""
    from .interp import Ref
    its = None
    if isinstance(v, Ref) and st.heap[v.cid].kind == 'list' or isinstance(v, tuple):
        its = ip.concrete_items(v, st)
    return its[0] if its else v


def describe_msg(ip, v, st):
    from .interp import Ref
    its = None
    if isinstance(v, Ref) and st.heap[v.cid].kind == 'list' and not v.lens or isinstance(v, tuple):
        its = ip.concrete_items(v, st)
    if its is None:
        if isinstance(v, Ref):
            return ('buf', v.cid, v.lens, ip.val(v, st))
        return ('val', safe_val(ip, v, st))
    return ('msg', [describe_msg(ip, x, st) for x in its])


def safe_val(ip, v, st):
    try:
        return ip.val(v, st)
    except Exception:
        return mk('unk', 'val')


def allreduce_term(t, op, nm):
    T.ARRAY_CALLS.add(nm + ':arr')
    s, r = T.split_scalar(t)
    f = nm + (':arr' if T.kind(r) == 'arr' else '')
    opn = op.args[0].split('.')[-1] if op.op == 'lib' else T.show(op) if op.op == 'fn' else '?'
    if opn == 'SUM' and s is not ONE and not any(x.op == 'sym' and x.args[0] == 'rank' for x in T.subterms(s)):
        return T.mul(s, mk('call', f, r, string(opn)))
    return mk('call', f, t, string(opn))


def bcast_term(t, root, c):
    rank = c.attrs['rank']
    # value on the root
    at = T.subst(t, {rank: root})
    if at.op == 'ite':
        pass
    return at


def bcast_value(ip, v, t, root, c, st):
    from .interp import Ref, Phi
    v = ip.resolve(v, st)
    rank = c.attrs['rank']
    if isinstance(v, Ref) and st.heap[v.cid].kind in ('dict', 'list'):
        at = bcast_term(t, root, c)
        kd = st.heap[v.cid].kind
        return ip.new(st, kd, at)
    if isinstance(v, Phi):
        cc = T.subst(v.c, {rank: root})
        if cc is TRUE:
            return bcast_value(ip, v.a, ip.val(v.a, st), root, c, st)
        if cc is FALSE:
            return bcast_value(ip, v.b, ip.val(v.b, st), root, c, st)
    return R(ip, st, bcast_term(t, root, c))


def call_method(ip, o, name, args, kwargs, n, st, fr):
    from .interp import Ref, Obj, Phi, Iter, Super, LibM, Lib
    o = ip.resolve(o, st)
    if isinstance(o, Super):
        return NONE
    if isinstance(o, Phi):
        vals = []
        pc = st.pc
        outs = []
        for side, c in ((o.a, o.c), (o.b, T.not_(o.c))):
            s = st.copy()
            s.pc = pc + (c,)
            if side is NONE or side is UNDEF:
                outs.append((s, NONE))
                continue
            f = ip.getattr(side, name, n, fr, s)
            outs.append((s, ip.call(f, args, kwargs, n, s, fr)))
        j = ip.join(o.c, outs[0][0], outs[1][0], pc, st.facts)
        st.assign(j)
        st.pc = pc
        return ip.mergeval(o.c, outs[0][1], outs[1][1], st)
    if isinstance(o, Obj):
        return obj_method(ip, o, name, args, kwargs, n, st, fr)
    if isinstance(o, Lib):
        return call_lib(ip, canon(o.name + '.' + name), args, kwargs, n, st, fr)
    k = ip.vkind(o, st)
    if isinstance(o, Ref) and k == 'list' and not o.lens:
        return list_method(ip, o, name, args, kwargs, n, st, fr)
    if isinstance(o, Ref) and k == 'dict' and not o.lens:
        return dict_method(ip, o, name, args, kwargs, n, st, fr)
    if k == 'str':
        return str_method(ip, ip.val(o, st), name, args, kwargs, n, st, fr)
    if k in ('arr', 'sc') and name in ARR_METHODS or k == 'arr':
        return arr_method(ip, o, name, args, kwargs, n, st, fr)
    t = safe_val(ip, o, st)
    if isinstance(o, Term) and o.op == 'call' and o.args[0] == 'undefined':
        return o
    if isinstance(o, Term) and o.op == 'call' and o.args[0] == 'dtype' and name == 'newbyteorder':
        return o
    if isinstance(o, (tuple,)) or k in ('tuple',):
        if name == 'index':
            return mk('call', 'index', t, ip.val(args[0], st))
        if name == 'count':
            return mk('call', 'count', t, ip.val(args[0], st))
    if k == 'dict' or (isinstance(o, Term) and o.op in ('sym', 'loadz') and T.kind(o) == 'dict'):
        return dict_method(ip, ip.new(st, 'dict', t), name, args, kwargs, n, st, fr)
    ts = [safe_val(ip, a, st) for a in args]
    kt = {kk: safe_val(ip, v, st) for kk, v in kwargs.items()}
    if name in ('Wait', 'wait') and (t.op == 'getitem' or t.op == 'call' and t.args[0] == 'mpi.request'):
        ip.effect('p2p', 'Wait', n, st, args=[t])
        return NONE
    ip.effect('lib', T.show(t, 2) + '.' + name, n, st, args=ts, kwargs=kt)
    return Obj('libval', term=mk('call', 'method:' + name, t, *ts, *[mk('kw', a, b) for a, b in sorted(kt.items())]))


def obj_method(ip, o, name, args, kwargs, n, st, fr):
    from .interp import Obj, Ref
    c = o.cls
    if c == 'comm':
        return comm_method(ip, o, name, args, kwargs, n, st, fr)
    if c == 'dictview':
        if name in ('keys',):
            return o
        return mk('call', 'dictview.' + name, ip.val(o.attrs['dict'], st))
    if c == 'file':
        if name in ('write', 'writelines'):
            ip.effect('write', 'text', n, st, path=o.attrs['path'], value=ip.val(args[0], st))
            return NONE
        if name == 'read':
            ip.effect('read', 'text', n, st, path=o.attrs['path'])
            return sym('text:' + o.attrs['path'].key, kind='str')
        if name == 'close':
            return NONE
        return NONE
    if c == 'xrfile':
        if name == 'sel':
            return xr_sel(ip, o, args, kwargs, n, st)
        if name == 'close':
            return NONE
        if name == 'isel':
            return xr_sel(ip, o, args, kwargs, n, st, True)
    if c == 'h5file':
        if name == 'keys':
            return ip.new(st, 'list', mk('sorted', mk('call', 'h5keys', o.attrs['path'])))
        if name == 'get':
            return ip.new(st, 'arr', mk('call', 'file_var', o.attrs['path'], ip.val(args[0], st)))
        if name == 'items':
            return h5iter(ip, o, 'items')
        if name == 'values':
            return h5iter(ip, o, 'values')
        return NONE
    if c == 'npz':
        if name == 'keys':
            return ip.new(st, 'list', mk('keys', o.attrs['term']))
        return NONE
    if c == 'request' and name in ('Wait', 'wait'):
        ip.effect('p2p', 'Wait', n, st, args=[ip.val(o, st)])
        return NONE
    ts = [safe_val(ip, a, st) for a in args]
    kt = {kk: safe_val(ip, v, st) for kk, v in kwargs.items()}
    lib = o.attrs.get('libname')
    base = lib.args[0] if isinstance(lib, Term) and lib.op == 'str' else c
    ip.effect('lib', f'{base}.{name}', n, st, args=ts, kwargs=kt, obj=safe_val(ip, o, st), oid=o.oid, raw=args)
    if name == 'Commit' and 'Create_' in base + T.show(safe_val(ip, o, st), 3):
        return o
    t = mk('call', 'method:' + name, safe_val(ip, o, st), *ts, *[mk('kw', a, b) for a, b in sorted(kt.items())])
    return Obj('libval', term=t, libname=string(f'{base}.{name}'), parent=o)


def xr_sel(ip, o, args, kwargs, n, st, isel=False):
    """ds.sel({dim: slice(coord[a], coord[b])}) selects rows a..b inclusive"""
    from .interp import Obj, Ref
    cname, lo, hi = None, None, None
    d = args[0] if args else None
    if isinstance(d, Ref) and st.heap[d.cid].items is not None and len(st.heap[d.cid].items) == 1:
        cname, v = st.heap[d.cid].items[0]
    elif isinstance(d, Ref):
        t = ip.val(d, st)
        if t.op == 'store':
            cname, v = t.args[1].args[0], t.args[2]
    elif kwargs:
        (kk, v), = [(kk, v) for kk, v in kwargs.items() if kk != 'drop'][:1]
        cname = string(kk)
    if cname is None:
        return Obj('libval', term=mk('call', 'sel', o.attrs['path'], *[safe_val(ip, a, st) for a in args]))
    v = ip.val(v, st)
    if v.op == 'sl':
        a, b = v.args[0], v.args[1]
        if isel:
            lo, hi = a, b
        elif a.op == 'getitem' and b.op == 'getitem' and a.args[0] is b.args[0] and len(a.args[1].args) == 1 and len(b.args[1].args) == 1:
            lo, hi = a.args[1].args[0], T.add(b.args[1].args[0], ONE)
    if lo is None:
        lo, hi = mk('unk', 'lo'), v
    return Obj('xrfile', path=o.attrs['path'], sel=(cname, lo, hi), term=mk('call', 'sel', o.attrs['path'], cname, lo, hi))


def list_method(ip, o, name, args, kwargs, n, st, fr):
    from .interp import Ref
    c = st.heap[o.cid]
    if name == 'append':
        list_append(ip, o, args[0], n, st)
        return NONE
    if name == 'extend':
        list_extend(ip, o, args[0], n, st)
        return NONE
    if name == 'sort':
        t = ip.cell_term(st, o.cid)
        if c.prov is not None:
            ip.effect('mutate', c.prov, n, st, how='sort', value=t, cid=o.cid)
        s = sorted_names(t) if not kwargs else None
        ip.set_cell(st, o.cid, t if t.op == 'sorted' else mk('sorted', t, *kws(ip, kwargs, st)) if s is None else s, t)
        return NONE
    if name == 'copy':
        return ip.new(st, 'list', c.term, items=c.items)
    if name in ('insert', 'pop', 'remove', 'clear', 'reverse'):
        t = ip.cell_term(st, o.cid)
        if c.prov is not None:
            ip.effect('mutate', c.prov, n, st, how=name, value=t, cid=o.cid)
        if name == 'pop' and c.items is not None:
            i = T.intval(ip.val(args[0], st)) if args else -1
            if i is not None and -len(c.items) <= i < len(c.items):
                its = list(c.items)
                v = its.pop(i)
                st.heap[o.cid] = c.but(items=tuple(its))
                return v
        if name == 'insert' and c.items is not None:
            i = T.intval(ip.val(args[0], st))
            if i is not None:
                its = list(c.items)
                its.insert(i, args[1])
                st.heap[o.cid] = c.but(items=tuple(its))
                return NONE
        if name == 'reverse' and c.items is not None:
            st.heap[o.cid] = c.but(items=tuple(reversed(c.items)))
            return NONE
        if name == 'clear':
            st.heap[o.cid] = c.but(items=(), term=None)
            return NONE
        ip.set_cell(st, o.cid, mk('call', 'list.' + name, t, *[ip.val(a, st) for a in args]), t)
        return mk('call', 'list.' + name + '.ret', t)
    if name in ('index', 'count'):
        return mk('call', name, ip.val(o, st), *[ip.val(a, st) for a in args])
    return mk('call', 'list.' + name, ip.val(o, st), *[ip.val(a, st) for a in args])


def dict_method(ip, o, name, args, kwargs, n, st, fr):
    from .interp import Obj, undef_cond, strip_undef
    c = st.heap[o.cid]
    if name == 'get':
        key = ip.val(args[0], st)
        dflt = args[1] if len(args) > 1 else NONE
        if c.items is not None and key.op in ('str', 'num') and c.term is None:
            for k, v in c.items:
                if k is key:
                    u = ip.decide(undef_cond(v), st)
                    if u is FALSE:
                        return v
                    if u is TRUE:
                        return dflt
                    return ip.mergeval(u, dflt, strip_undef(v), st)
            return dflt
        v = ip.load_elem(st, o.cid, key, n)
        return ip.mergeval(mk('in', key, ip.val(o, st)), v, dflt, st)
    if name in ('items', 'keys', 'values'):
        if c.items is not None and c.term is None:
            return tuple((k, v) if name == 'items' else k if name == 'keys' else v for k, v in c.items)
        return Obj('dictview', dict=o, what=name, term=mk('call', 'dictview', ip.val(o, st), string(name)))
    if name == 'update':
        src = args[0] if args else None
        its = None
        from .interp import Ref
        if isinstance(src, Ref) and st.heap[src.cid].items is not None and st.heap[src.cid].term is None:
            its = st.heap[src.cid].items
        if its is not None:
            for k, v in its:
                ip.dict_set(st, o, k, v, n)
        elif src is not None:
            t = ip.cell_term(st, o.cid)
            ip.set_cell(st, o.cid, mk('call', 'merge', t, ip.val(src, st)), t)
        for k, v in kwargs.items():
            ip.dict_set(st, o, string(k), v, n)
        return NONE
    if name == 'copy':
        return ip.new(st, 'dict', c.term, items=c.items)
    if name == 'setdefault':
        key = ip.val(args[0], st)
        if c.items is not None:
            for k, v in c.items:
                if k is key:
                    return v
            ip.dict_set(st, o, key, args[1] if len(args) > 1 else NONE, n)
            return args[1] if len(args) > 1 else NONE
    if name == 'pop':
        key = ip.val(args[0], st)
        if c.prov is not None:
            ip.effect('mutate', c.prov, n, st, how='pop', value=key, key=key, cid=o.cid)
        if c.items is not None:
            for i, (k, v) in enumerate(c.items):
                if k is key:
                    st.heap[o.cid] = c.but(items=c.items[:i] + c.items[i + 1:])
                    return v
            if len(args) > 1:
                return args[1]
        ip.effect('delitem', '', n, st, obj=ip.val(o, st), key=key, ref=o, base='')
        return ip.load_elem(st, o.cid, key, n)
    return mk('call', 'dict.' + name, ip.val(o, st), *[ip.val(a, st) for a in args])


def str_method(ip, t, name, args, kwargs, n, st, fr):
    if t.op == 'ite':
        return T.ite(t.args[0], str_method(ip, t.args[1], name, args, kwargs, n, st, fr),
                     str_method(ip, t.args[2], name, args, kwargs, n, st, fr))
    ts = [ip.val(a, st) for a in args]
    if t.op == 'str' and all(x.op in ('str', 'num') for x in ts) and not kwargs:
        try:
            r = getattr(t.args[0], name)(*[x.args[0] if x.op == 'str' else int(x.args[0]) for x in ts])
            if isinstance(r, (str, int, bool)):
                return const(r)
            if isinstance(r, list):
                return ip.new(st, 'list', items=tuple(const(x) for x in r))
            if isinstance(r, tuple):
                return tup(*[const(x) for x in r])
        except Exception:
            pass
    if name == 'format' and t.op == 'str':
        import string as S
        out = []
        auto = 0
        try:
            for lit, fld, spec, conv in S.Formatter().parse(t.args[0]):
                if lit:
                    out.append(string(lit))
                if fld is not None:
                    if fld == '':
                        v = ts[auto]
                        auto += 1
                    elif fld.isdigit():
                        v = ts[int(fld)]
                    else:
                        v = ip.val(kwargs[fld], st)
                    out.append(T.fmt(v, spec or ''))
            return T.cat(*out)
        except Exception:
            pass
    if name == 'join':
        its = ip.concrete_items(args[0], st)
        if its is not None and t.op == 'str':
            out = []
            for i, x in enumerate(its):
                if i:
                    out.append(t)
                out.append(ip.val(x, st))
            return T.cat(*out)
    if name in ('lower', 'upper', 'strip'):
        if T.info(t).get(name):
            return t
        return sym(f'{name}:{t.key}', kind='str', **{name: True})
    if name in ('startswith', 'endswith'):
        last = t
        if last.op == 'path':
            last = last.args[-1]
        if last.op == 'cat':
            last = last.args[-1]
        if name == 'endswith' and last.op == 'str' and ts[0].op == 'str' and len(last.args[0]) >= len(ts[0].args[0]):
            return TRUE if last.args[0].endswith(ts[0].args[0]) else FALSE
        ext = T.info(t).get('ext') or (T._root_info(t.args[0]).get('ext') if t.op == 'getitem' else None)
        if name == 'endswith' and ext and ts[0].op == 'str':
            return TRUE if ext.endswith(ts[0].args[0]) else FALSE
        return mk('truth', mk('call', 'str.' + name, t, *ts))
    if name == 'zfill' and t.op == 'fmt' and t.args[1] == '' and T.is_int(t.args[0]) and T.intval(ts[0]) is not None:
        return T.fmt(t.args[0], f'0{T.intval(ts[0])}d')
    if name in ('split', 'rsplit', 'splitlines'):
        return ip.new(st, 'list', mk('call', 'str.' + name, t, *ts))
    return mk('call', 'str.' + name, t, *ts)


def arr_method(ip, o, name, args, kwargs, n, st, fr):
    from .interp import Ref, Obj
    t = ip.val(o, st)
    if name == 'reshape':
        if 'order' in kwargs and ip.val(kwargs['order'], st) is not string('C'):
            T.ARRAY_CALLS.add('reshapeF')
            return ip.arr(st, mk('call', 'reshapeF', t, shape_arg(ip, args, st), ip.val(kwargs['order'], st)))
        return do_reshape(ip, o, shape_arg(ip, args, st), st)
    if name in ('ravel', 'flatten'):
        order = ip.val(args[0] if args else kwargs.get('order', string('C')), st)
        if order is not string('C') and ndim_of(t) != 1:
            T.ARRAY_CALLS.add('flattenF')
            return ip.arr(st, mk('call', 'flattenF', t, order))
        v = do_reshape(ip, o, tup(MONE), st)
        return ip.new(st, 'arr', ip.val(v, st)) if name == 'flatten' else v
    if name == 'transpose':
        if not args:
            return _transpose(ip, [o], {}, n, st, fr)
        ax = ip.val(args[0], st) if len(args) == 1 else tup(*[ip.val(a, st) for a in args])
        return do_transpose(ip, o, ax, st)
    if name == 'copy':
        return ip.new(st, 'arr', mk('copyof', t) if getattr(ip, 'layout', False) and not args and not kwargs else t)
    if name == 'astype':
        r = cast(t, ip.val(args[0] if args else kwargs['dtype'], st))
        return ip.new(st, 'arr', r) if T.kind(t) == 'arr' else r
    if name == 'view':
        return o
    if name in ('conj', 'conjugate'):
        return _conj(ip, [o], {}, n, st, fr)
    if name == 'squeeze':
        return _squeeze(ip, [o] + args, kwargs, n, st, fr)
    if name == 'item':
        return t
    if name == 'dot':
        return R(ip, st, T.matmul(t, ip.val(args[0], st)))
    if name == 'fill':
        v = ip.val(args[0], st)
        ip.put(o, T.alloc('zeros', T.shape_of(t), like_dtype(t)) if v is ZERO else
               T.mul(v, T.alloc('ones', T.shape_of(t), like_dtype(t))), st, n, how='fill')
        return NONE
    if name == 'sort':
        ip.put(o, mk('call', 'numpy.sort', t), st, n, how='sort')
        return NONE
    if name in ('sel', 'isel', 'to_array', 'transpose_'):
        return Obj('libval', term=mk('call', 'xr.' + name, t, *[safe_val(ip, a, st) for a in args], *kws(ip, kwargs, st)))
    if name in ('close', 'flush', 'load', 'compute'):
        return NONE if name in ('close', 'flush') else o
    if name == 'tolist':
        return ip.new(st, 'list', mk('tolist', t))
    if name == 'newbyteorder':
        return o
    f = FN.get('numpy.' + name)
    if f is not None:
        import ast
        return f(ip, [o] + list(args), kwargs, n, st, fr)
    return call_lib(ip, 'numpy.' + name, [o] + list(args), kwargs, n, st, fr)


T.SCALAR_CALLS.update({'numpy.argmax', 'numpy.argmin', 'builtins.len', 'builtins.int', 'builtins.float', 'nbytes', 'itemsize',
                       'mpi.allreduce', 'mpi.reduce', 'numpy.linalg.norm', 'builtins.round', 'index', 'count', 'min', 'max',
                       'numpy.prod', 'attr:itemsize', 'attr:max', 'attr:min', 'attr:eps', 'mpi.scan', 'numpy.log2', 'numpy.finfo'})
T.ARRAY_CALLS.update({'numpy.array', 'eigvals', 'eigvecs', 'fft', 'rfft', 'load', 'file_var', 'file_sel', 'einsum', 'numpy.linspace',
                      'numpy.cos', 'numpy.exp', 'numpy.diag', 'numpy.fft.fftshift', 'nonzero', 'numpy.argsort'})
