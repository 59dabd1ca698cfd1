"""Hash-consed value-flow terms with canonicalising constructors.

A term denotes the value a program expression produces, as a function of the
inputs of the analysed entry point.  Two expressions that are equal up to the
algebra encoded here (commutativity, associativity, distributivity, linearity,
index arithmetic, gated joins, ...) are represented by the *same* object, so
comparing behaviours is comparing object identity.  Nothing here executes any
code of the analysed repository.
"""
from fractions import Fraction as Fr
import hashlib

_intern = {}


class Term:
    __slots__ = ('op', 'args', 'key', 'fv', '__weakref__')

    def __repr__(self):
        return show(self)


def _k(a):
    if isinstance(a, Term):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(_k(x) for x in a) + ')'
    return type(a).__name__[0] + ':' + str(a)


def _fv(a, acc):
    if isinstance(a, Term):
        if a.fv:
            acc.update(a.fv)
    elif isinstance(a, tuple):
        for x in a:
            _fv(x, acc)


_EMPTY = frozenset()


SITE = [None]         # statement being interpreted
ORIGIN = {}           # term -> statement that first built it


def mk(op, *args):
    ik = (op, args, tuple(type(a) for a in args))
    t = _intern.get(ik)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.args = args
    t.key = hashlib.blake2b((op + '|' + _k(args)).encode(), digest_size=10).hexdigest()
    acc = set()
    _fv(args, acc)
    if op == 'var':
        acc.add(t)
    t.fv = frozenset(acc) if acc else _EMPTY
    _intern[ik] = t
    ORIGIN[t] = SITE[0]
    return t


# ----------------------------------------------------------------- symbols
INFO = {}          # symbol name -> dict(kind=..., int=bool, ...)


def sym(name, **info):
    if info:
        INFO.setdefault(name, {}).update(info)
    return mk('sym', name)


_varcnt = [0]


def fresh_var(hint, **info):
    _varcnt[0] += 1
    n = f'{hint}#{_varcnt[0]}'
    if info:
        INFO.setdefault(n, {}).update(info)
    return mk('var', n)


def info(t):
    if t.op in ('sym', 'var'):
        return INFO.get(t.args[0], {})
    return {}


# --------------------------------------------------------------- constants
NONE = mk('none')
TRUE = mk('bool', True)
FALSE = mk('bool', False)
ELL = mk('ell')
NEW = NONE
END = mk('end')
UNDEF = mk('undef')


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return mk('num', Fr(x))
    if isinstance(x, Fr):
        return mk('num', x)
    if isinstance(x, float):
        if x != x:
            return mk('fconst', 'nan')
        if x in (float('inf'), float('-inf')):
            return mk('fconst', repr(x))
        return mk('num', Fr(repr(x)))
    if isinstance(x, complex):
        return add(num(x.real), mul(num(x.imag), IUNIT))
    raise TypeError(x)


IUNIT = mk('iunit')
ZERO = num(0)
ONE = num(1)
MONE = num(-1)
ALL = mk('sl', ZERO, END, ONE)


def string(s):
    return mk('str', s)


def const(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, float, complex, Fr)):
        return num(v)
    if isinstance(v, str):
        return string(v)
    if isinstance(v, bytes):
        return mk('bytes', v.hex())
    if v is Ellipsis:
        return ELL
    raise TypeError(v)


def is_num(t):
    return t.op == 'num'


def numval(t):
    return t.args[0] if t.op == 'num' else None


def intval(t):
    if t.op == 'num' and t.args[0].denominator == 1:
        return int(t.args[0])
    return None


# ------------------------------------------------------------- term kinds
ARRAY_CALLS = set()       # filled by models
SCALAR_CALLS = set()
_kind_cache = {}


def kind(t):
    r = _kind_cache.get(t)
    if r is None:
        r = _kind(t)
        _kind_cache[t] = r
    return r


def _kind(t):
    op = t.op
    if op in ('num', 'iunit', 'fconst', 'bool', 'none', 'end', 'min0', 'floordiv', 'mod',
              'lt0', 'le0', 'eq0', 'and', 'or', 'not', 'size', 'len', 'ceil', 'floor', 'int',
              'all', 'any', 'count', 'in', 'eq', 'truth', 'ndim', 'dim'):
        return 'sc'
    if op in ('str', 'cat', 'fmt', 'path'):
        return 'str'
    if op in ('tuple', 'shape'):
        return 'tuple'
    if op in ('range1', 'arange'):
        return 'arr'
    if op == 'loadz':
        return 'dict'
    if op in ('list', 'listcomp', 'append', 'rep', 'concat', 'glob', 'globset', 'sorted', 'keys'):
        return 'list'
    if op in ('edict', 'dict'):
        return 'dict'
    if op in ('sym', 'var'):
        return info(t).get('kind', 'sc')
    if op == 'poly':
        for c, mono in t.args[0]:
            for a, e in mono:
                if kind(a) == 'arr':
                    return 'arr'
        return 'sc'
    if op in ('ite',):
        k1, k2 = kind(t.args[1]), kind(t.args[2])
        if t.args[1].op in ('undef', 'none'):
            return k2
        if t.args[2].op in ('undef', 'none'):
            return k1
        return k1 if k1 == k2 else ('arr' if 'arr' in (k1, k2) else k1)
    if op in ('store', 'scatter', 'scatter2', 'foldst'):
        return kind(t.args[0])
    if op == 'rec':
        return kind(t.args[4]) if t.args[4].op not in ('undef', 'none') else kind(t.args[3])
    if op == 'sum':
        return kind(t.args[3])
    if op == 'getitem':
        b = t.args[0]
        kb = kind(b)
        if kb == 'arr':
            for e in t.args[1].args:
                if isinstance(e, Term) and (e.op in ('sl', 'ell', 'none') or kind(e) in ('arr', 'list')):
                    return 'arr'
            return 'arr' if info(b).get('ndim', 2) != 1 else 'sc'
        if kb in ('dict', 'list'):
            i = _root_info(b.args[0] if b.op == 'getitem' and kb == 'dict' else b)
            q = t.args[1].args[0] if t.args[1].args else None
            if 'fields' in i and isinstance(q, Term) and q.op == 'str':
                return i['fields'].get(q.args[0], 'sc')
            return i.get('elem', 'sc')
        return 'sc'
    if op in ('abs', 'pow', 'real', 'imag', 'conj', 'elem', 'astype', 'copyof', 'cond_arr'):
        for a in t.args:
            if isinstance(a, Term) and kind(a) == 'arr':
                return 'arr'
        return 'sc'
    if op in ('transpose', 'reshape', 'matmul', 'alloc', 'hstack', 'values', 'mean', 'moveaxis'):
        return 'arr'
    if op == 'red':
        return 'arr' if t.args[2] is not NONE else 'sc'
    if op == 'call':
        n = t.args[0]
        if n in SCALAR_CALLS:
            return 'sc'
        if n in ARRAY_CALLS:
            return 'arr'
        return 'obj'
    return 'obj'


def _root_info(b):
    while b.op in ('store', 'scatter', 'scatter2'):
        b = b.args[0]
    return info(b)


_int_cache = {}


def is_int(t):
    r = _int_cache.get(t)
    if r is None:
        r = _is_int(t)
        _int_cache[t] = r
    return r


def _is_int(t):
    op = t.op
    if op == 'num':
        return t.args[0].denominator == 1
    if op == 'bool':
        return True
    if op in ('sym', 'var'):
        return bool(info(t).get('int'))
    if op in ('floordiv', 'mod', 'len', 'size', 'ceil', 'floor', 'ndim', 'dim', 'count'):
        return True
    if op == 'int':
        return True
    if op == 'min0':
        return is_int(t.args[0])
    if op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if op == 'sum':
        return is_int(t.args[3])
    if op == 'getitem' and t.args[0].op == 'shape':
        return True
    if op == 'getitem':
        b = t.args[0]
        if b.op in ('tuple', 'list') and b.args:
            return all(is_int(x) for x in b.args)
        while b.op in ('store', 'scatter', 'scatter2'):
            b = b.args[0]
        return bool(info(b).get('elem_int'))
    if op == 'poly':
        for c, mono in t.args[0]:
            if c.denominator != 1:
                return False
            for a, e in mono:
                if e.denominator != 1 or e < 0 or not is_int(a):
                    return False
        return True
    if op == 'call':
        return t.args[0] in ('numpy.argmax', 'numpy.argmin', 'mpi.allreduce_int', 'builtins.len')
    return False


# --------------------------------------------------------------- booleans
_bool_ops = ('bool', 'lt0', 'le0', 'eq0', 'eq', 'and', 'or', 'not', 'in', 'all', 'any', 'truth',
             'isinst', 'exists', 'hasattr')


def is_bool(t):
    if t.op in _bool_ops:
        return True
    if t.op in ('sym', 'var'):
        return bool(info(t).get('bool'))
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


# --------------------------------------------------------------- polynomial
def topoly(t):
    """dict: monomial (tuple of (atom, exponent)) -> Fraction"""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'bool':
        return {(): Fr(1)} if t.args[0] else {}
    if t.op == 'poly':
        return {m: c for c, m in t.args[0]}
    if is_bool(t):
        t = b2i(t)
        if t.op in ('num', 'poly'):
            return topoly(t)
    return {((t, Fr(1)),): Fr(1)}


def _mkey(m):
    return tuple((a.key, e) for a, e in m)


def frompoly(p):
    p = {m: c for m, c in p.items() if c}
    # numeric zero arrays vanish next to other array terms
    if len(p) > 1:
        za = [m for m in p if any(_is_zeros(a) for a, e in m)]
        if za and any(m for m in p if m not in za and any(kind(a) == 'arr' for a, e in m)):
            for m in za:
                del p[m]
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple((c, m) for m, c in sorted(p.items(), key=lambda x: _mkey(x[0])))
    return mk('poly', items)


def _is_zeros(t):
    return t.op == 'alloc' and t.args[0] == 'zeros'


def add(*ts):
    acc = {}
    for t in ts:
        for m, c in topoly(t).items():
            acc[m] = acc.get(m, 0) + c
    segs = None
    for m in acc:
        for a, e in m:
            if e == 1 and (a.op == 'red' or a.op == 'getitem' and a.args[0].op == 'red'):
                g = _rng_sum(a)
                if g is not None:
                    segs = segs or []
                    segs.append((g, m, a))
                break
    if segs and len(segs) > 1:
        r = _merge_ranges(acc, segs)
        if r is not None:
            return r
    return frompoly(acc)


def _rng_sum(t):
    """sum over a contiguous range of one axis: (base, axis, lo, hi)"""
    view = None
    if t.op == 'getitem':
        view = t.args[1]
        if any(e is not NONE and e is not ALL for e in view.args):
            return None
        t = t.args[0]
    if t.args[0] != 'sum' or len(t.args) != 3 or t.args[2].op != 'num':
        return None
    x, ax = t.args[1], int(t.args[2].args[0])
    if x.op == 'getitem':
        es = x.args[1].args
        if any(e.op != 'sl' for e in es) or ax >= len(es) or ax < 0 or es[ax].args[2] is not ONE:
            return None
        if any(e is not ALL for i, e in enumerate(es) if i != ax):
            return None
        lo, hi = es[ax].args[:2]
        if hi is END:
            d = SHAPE_HOOK(x.args[0]) if SHAPE_HOOK else None
            if d is None or d.op != 'tuple':
                return None
            hi = d.args[ax]
        return x.args[0], ax, lo, hi, view
    return None


def _merge_ranges(acc, segs):
    for (g1, m1, a1) in segs:
        for (g2, m2, a2) in segs:
            if a1 is a2 or g1[0] is not g2[0] or g1[1] != g2[1] or g1[4] is not g2[4] or g1[3] is not g2[2]:
                continue
            if acc[m1] != acc[m2]:
                continue
            r1 = tuple(x for x in m1 if x[0] is not a1)
            r2 = tuple(x for x in m2 if x[0] is not a2)
            if r1 != r2:
                continue
            acc = dict(acc)
            c = acc.pop(m1)
            acc.pop(m2)
            whole = red('sum', getitem(g1[0], ix(*([ALL] * g1[1] + [sl(g1[2], g2[3], ONE)]))), num(g1[1]))
            if g1[4] is not None:
                whole = getitem(whole, g1[4])
            return add(frompoly(acc), mul(num(c), frompoly({r1: Fr(1)}), whole))
    return None


def neg(t):
    return mul(MONE, t)


def sub(a, b):
    return add(a, neg(b))


def _mmul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = [(a, e) for a, e in d.items() if e]
    # i*i = -1
    sign = Fr(1)
    res = []
    for a, e in out:
        if a is IUNIT and e.denominator == 1:
            e = int(e) % 4
            if e >= 2:
                sign = -sign
                e -= 2
            if e:
                res.append((a, Fr(1)))
            continue
        if a.op == 'ite' and e.denominator == 1 and e > 1 and a.args[1].op == 'num' \
                and a.args[2] is ZERO and a.args[1] is ONE:
            e = Fr(1)
        res.append((a, e))
    return tuple(sorted(res, key=lambda x: x[0].key)), sign


def _divmod_fix(p):
    """b*(a//b) = a - a mod b"""
    for m in p:
        for a, e in m:
            if a.op == 'floordiv' and e == 1:
                b = a.args[1]
                for b2, e2 in m:
                    if b2 is b and e2 >= 1:
                        q = dict(p)
                        c = q.pop(m)
                        rest = [(x, y) for x, y in m if x is not a and x is not b]
                        if e2 > 1:
                            rest.append((b, e2 - 1))
                        r = num(c)
                        for x, y in rest:
                            r = mul(r, powr(x, y))
                        return add(frompoly(q), mul(r, sub(a.args[0], mk('mod', a.args[0], b))))
    return None


def _lead_new(a):
    """position of a leading newaxis in an indexed array, or None"""
    if a.op != 'getitem' or NONE not in a.args[1].args:
        return None
    for j, e in enumerate(a.args[1].args):
        if e is NONE:
            return j
        if e.op in ('sl', 'ell') or kind(e) in ('arr', 'list'):
            return None
    return None


def _strip_new(p):
    """broadcasting adds leading axes by itself: x[None] * y == x * y when y has at least as many dimensions as x[None]"""
    for m in p:
        if len(m) < 2:
            continue
        for a, e in m:
            j = _lead_new(a)
            if j is None:
                continue
            d = _dims(a)
            if d is None:
                continue
            for b, e2 in m:
                if b is not a and kind(b) == 'arr':
                    db = _dims(b)
                    if db is not None and len(db) >= len(d):
                        i = a.args[1].args
                        q = dict(p)
                        c = q.pop(m)
                        r = mul(num(c), powr(getitem(a.args[0], ix(*i[:j], *i[j + 1:])), e), *[powr(x, y) for x, y in m if x is not a])
                        return add(frompoly(q), r)
    return None


def mul(*ts):
    acc = {(): Fr(1)}
    for t in ts:
        p = topoly(t)
        new = {}
        for m1, c1 in acc.items():
            for m2, c2 in p.items():
                m, s = _mmul(m1, m2)
                new[m] = new.get(m, 0) + c1 * c2 * s
        acc = new
    if len(ts) > 1:
        if any(a.op == 'abs' and e.denominator == 1 and e >= 2 for m in acc for a, e in m):
            return _abs2(acc)
        r = _divmod_fix(acc)
        if r is not None:
            return r
        if any(a.op == 'getitem' and _lead_new(a) is not None for m in acc if len(m) > 1 for a, e in m):
            r = _strip_new(acc)
            if r is not None:
                return r
    return frompoly(acc)


def _abs2(p):
    """|x|^2 = x conj(x)"""
    out = ZERO
    for m, c in p.items():
        fs = []
        for a, e in m:
            if a.op == 'abs' and e.denominator == 1 and abs(e) >= 2:
                k = int(abs(e)) // 2 * (1 if e > 0 else -1)
                fs += [powr(mul(a.args[0], conj(a.args[0])), k)] + ([frompoly({((a, e - 2 * k),): Fr(1)})] if e != 2 * k else [])
            else:
                fs.append(frompoly({((a, e),): Fr(1)}))
        out = add(out, mul(num(c), *fs))
    return out


def powr(t, e):
    """t ** e with e a Fraction"""
    e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.op == 'num':
        v = t.args[0]
        if e.denominator == 1 and (v != 0 or e > 0):
            return num(v ** int(e))
        if v > 0 and e == Fr(1, 2):
            import math
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return num(Fr(n, d))
        if v in (0, 1):
            return t
    p = topoly(t)
    if len(p) == 1:
        (m, c), = p.items()
        r = []
        for a, x in m:
            r.append((a, x * e))
        if any(a.op == 'abs' and x.denominator == 1 and abs(x) >= 2 for a, x in r):
            return mul(powr(num(c), e), _abs2({tuple(r): Fr(1)}))
        base = frompoly({tuple(r): Fr(1)}) if r else ONE
        if c == 1:
            return base
        if e.denominator == 1:
            return mul(num(c ** int(e)), base)
        cc = powr(num(c), e) if c in (1,) else None
        if cc is None:
            import math
            if c > 0 and e.denominator == 2:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    cc = num(Fr(n, d) ** e.numerator)
            if cc is None:
                cc = frompoly({((mk('num', c), e),): Fr(1)})
        return mul(cc, base)
    if e.denominator == 1 and 1 < e <= 3 and len(p) <= 4:
        return mul(*([t] * int(e)))
    if e.denominator == 1:
        ms = [dict(m) for m in p]
        com = {a: min(d[a] for d in ms) for a in ms[0] if all(a in d for d in ms) and all(d[a] > 0 for d in ms)}
        if com:
            f = frompoly({tuple(sorted(com.items(), key=lambda x: x[0].key)): Fr(1)})
            rest = frompoly({tuple((a, x - com.get(a, 0)) for a, x in m if x != com.get(a, 0)): c for m, c in p.items()})
            return mul(powr(f, e), powr(rest, e))
    # normalise content so that (2a+2b)**-1 == (a+b)**-1 / 2
    lead = min(p, key=_mkey)
    c = p[lead]
    if c != 1 and e.denominator == 1:
        return mul(num(c ** int(e)), powr(frompoly({m: x / c for m, x in p.items()}), e))
    return frompoly({((t, e),): Fr(1)})


def div(a, b):
    return mul(a, powr(b, -1))


def power(a, b):
    if b.op == 'num':
        return powr(a, b.args[0])
    return mk('pow', a, b)


def sqrt(a):
    return powr(a, Fr(1, 2))


# --------------------------------------------------- integer division etc.
def floor_(t):
    """mathematical floor of an arithmetic term"""
    if is_int(t):
        return t
    p = topoly(t)
    ip, fp = {}, {}
    for m, c in p.items():
        whole = Fr(c.numerator // c.denominator)
        integral = all(e.denominator == 1 and e > 0 and is_int(a) for a, e in m)
        if integral and c.denominator == 1:
            ip[m] = c
        elif integral and whole and len(m) == 0:
            ip[m] = whole
            fp[m] = c - whole
        else:
            fp[m] = c
    if not fp:
        return frompoly(ip)
    rest = frompoly(fp)
    if not ip:
        return _floor_atom(rest)
    return add(frompoly(ip), _floor_atom(rest))


def _floor_atom(t):
    if t.op == 'num':
        v = t.args[0]
        return num(v.numerator // v.denominator)
    # n/d with single integer symbol denominators -> floordiv
    p = topoly(t)
    # common negative power atoms
    if len(p) >= 1:
        den = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    den[a] = max(den.get(a, 0), -e)
        cden = 1
        for c in p.values():
            from math import lcm
            cden = lcm(cden, c.denominator)
        d = num(cden)
        for a, e in den.items():
            d = mul(d, powr(a, e))
        n = ZERO
        for m, c in p.items():
            left = dict(den)
            t1 = num(c * cden)
            for a, e in m:
                t1 = mul(t1, powr(a, e + left.pop(a, 0)))
            for a, e in left.items():
                t1 = mul(t1, powr(a, e))
            n = add(n, t1)
        if d is not ONE and is_int(n) and is_int(d):
            return mk('floordiv', n, d)
    return mk('floor', t)


def floordiv(a, b):
    if b.op == 'num' and b.args[0] != 0:
        if a.op == 'num':
            return num(a.args[0] // b.args[0])
        if is_int(a) and b.args[0].denominator == 1:
            return floor_(div(a, b))
    if a is b:
        return ONE
    if is_int(a) and is_int(b):
        # pull out exact multiples of b
        p = topoly(a)
        bp = topoly(b)
        if len(bp) == 1:
            (bm, bc), = bp.items()
            if bc == 1 and bm:
                q, r = {}, {}
                bd = dict(bm)
                for m, c in p.items():
                    md = dict(m)
                    if all(md.get(x, 0) >= e for x, e in bd.items()):
                        nm = tuple((x, e - bd.get(x, 0)) for x, e in m if e - bd.get(x, 0))
                        q[nm] = c
                    else:
                        r[m] = c
                if q:
                    if not r:
                        return frompoly(q)
                    return add(frompoly(q), floordiv(frompoly(r), b))
        return mk('floordiv', a, b)
    return mk('floor', div(a, b))


def mod(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    if a is b or b is ONE and is_int(a):
        return ZERO
    if b.op == 'num' and b.args[0] > 1 and b.args[0].denominator == 1 and is_int(a):
        p = {m: Fr(int(c) % int(b.args[0])) if c.denominator == 1 else c for m, c in topoly(a).items()}
        a2 = frompoly({m: c for m, c in p.items() if c})
        if a2.op == 'num':
            return num(a2.args[0] % b.args[0])
        a = a2
    return mk('mod', a, b)


def ceil_(t):
    if is_int(t):
        return t
    # exact: ceil(x) = -floor(-x); keep as own atom only if not integral ratio
    f = floor_(neg(t))
    if f.op in ('num', 'floordiv') or not _has_op(f, 'floor'):
        return neg(f)
    return _extract_int(t, 'ceil')


def _extract_int(t, op):
    p = topoly(t)
    ip = {m: c for m, c in p.items() if c.denominator == 1 and
          all(e.denominator == 1 and e > 0 and is_int(a) for a, e in m)}
    fp = {m: c for m, c in p.items() if m not in ip}
    r = mk(op, frompoly(fp))
    return add(frompoly(ip), r) if ip else r


def _has_op(t, op, _seen=None):
    return any(x.op == op for x in subterms(t))


def int_(t):
    """python int(): truncation; floor for terms we know are non-negative ints ratios"""
    if is_int(t):
        return t
    if t.op in ('ceil', 'floor'):
        return t
    if t.op == 'num':
        return num(int(t.args[0]))
    if is_bool(t):
        return b2i(t)
    f = floor_(t)
    if not _has_op(f, 'floor'):
        return f            # assumed non-negative quantity (sizes)
    return mk('int', t)


# ----------------------------------------------------------- comparisons
def b2i(c):
    """boolean -> 0/1 integer"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    return ite(c, ONE, ZERO)


def _prim(p):
    """scale poly (as term) by a positive constant into primitive form"""
    from math import gcd, lcm
    d = topoly(p)
    if not d:
        return p
    l = 1
    for c in d.values():
        l = lcm(l, c.denominator)
    g = 0
    for c in d.values():
        g = gcd(g, int(c * l))
    if g == 0:
        return p
    f = Fr(l, g)
    return frompoly({m: c * f for m, c in d.items()})


def le0(p):
    p = _prim(p)
    if p.op == 'num':
        return TRUE if p.args[0] <= 0 else FALSE
    if p.op == 'min0':
        return TRUE
    if is_int(p):
        # integer tightening: sum c_i m_i + k <= 0 with gcd g of non-constant part
        from math import gcd
        d = dict(topoly(p))
        k = d.pop((), Fr(0))
        g = 0
        for c in d.values():
            g = gcd(g, int(c))
        if g > 1:
            k2 = -((-k) // g)      # ceil(k/g)
            d = {m: c / g for m, c in d.items()}
            d[()] = Fr(k2)
            p = frompoly(d)
    if nonneg(neg(p)):
        return TRUE
    if pos(p):
        return FALSE
    return mk('le0', p)


def lt0(p):
    if is_int(p):
        return le0(add(_prim_int(p), ONE))
    p = _prim(p)
    if p.op == 'num':
        return TRUE if p.args[0] < 0 else FALSE
    if pos(neg(p)):
        return TRUE
    if nonneg(p):
        return FALSE
    return mk('lt0', p)


def _prim_int(p):
    return p


def eq0(p):
    p = _prim(p)
    if p.op == 'num':
        return TRUE if p.args[0] == 0 else FALSE
    if pos(p) or pos(neg(p)):
        return FALSE
    d = topoly(p)
    lead = min(d, key=lambda m: (len(m) == 0, _mkey(m)))
    if d[lead] < 0:
        p = neg(p)
    if p.op == 'ite' and p.args[1] is ONE and p.args[2] is ZERO:
        return not_(p.args[0])
    return mk('eq0', p)


def lower(t):
    """a constant lower bound for atom, or None"""
    if t.op in ('sym', 'var'):
        return info(t).get('min')
    if t.op in ('len', 'size', 'ndim', 'dim', 'mod', 'count', 'abs'):
        return 0
    if t.op == 'call' and t.args[0] in ('numpy.argmax', 'numpy.argmin'):
        return 0
    if t.op == 'getitem' and t.args[0].op in ('tuple', 'list'):
        b = [lower(x) if x.op != 'num' else x.args[0] for x in t.args[0].args]
        return None if not b or None in b else min(b)
    if t.op == 'floor':
        return 0 if nonneg(t.args[0]) else None
    if t.op == 'getitem' and t.args[0].op == 'shape':
        return 0
    if t.op == 'ite' and t.args[1].op == 'num' and t.args[2].op == 'num':
        return min(t.args[1].args[0], t.args[2].args[0])
    if t.op == 'floordiv':
        if nonneg(t.args[0]) and (nonneg(t.args[1])):
            return 0
    return None


def lower1(t):
    return t.args[0] if t.op == 'num' else lower(t)


IS_REAL = [lambda t: False]         # set by models


def nonneg(t):
    p = topoly(t)
    low = Fr(0)
    for m, c in p.items():
        if not m:
            low += c
            continue
        if c < 0:
            return False
        lb = Fr(1)
        for a, e in m:
            b = lower(a)
            if b is None:
                if e.denominator == 1 and e % 2 == 0 and IS_REAL[0](a):
                    b = 0
                else:
                    return False
            if b < 0:
                return False
            lb *= (Fr(b) if e > 0 and e.denominator == 1 else 0) if e == 1 else \
                (Fr(b) ** int(e) if e > 0 and e.denominator == 1 else 0)
        low += c * lb
    return low >= 0


def pos(t):
    p = topoly(t)
    low = Fr(0)
    for m, c in p.items():
        if not m:
            low += c
            continue
        if c < 0:
            return False
        lb = Fr(1)
        for a, e in m:
            b = lower(a)
            if b is None or b < 0 or e < 0 or e.denominator != 1:
                return False
            lb *= Fr(b) ** int(e)
        low += c * lb
    return low > 0


def _nonarith(t):
    return t.op in ('str', 'cat', 'none', 'tuple', 'list', 'bool', 'fmt', 'path', 'cls', 'fn',
                    'dtype', 'ell') or kind(t) in ('str', 'tuple', 'list', 'dict', 'obj')


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite' and b.op in ('none', 'str', 'num', 'bool', 'tuple') :
        return cond_ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and a.op in ('none', 'str', 'num', 'bool', 'tuple'):
        return cond_ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == 'bool' and is_bool(b):
        return b if a.args[0] else not_(b)
    if b.op == 'bool' and is_bool(a):
        return a if b.args[0] else not_(a)
    lits = ('str', 'none', 'num', 'bool', 'dtype', 'cls', 'bytes', 'ell')
    if a.op in lits and b.op in lits:
        if a.op == 'bool' and b.op == 'num' or a.op == 'num' and b.op == 'bool':
            return TRUE if (a.args[0] == b.args[0]) else FALSE
        return FALSE
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        if not may_be_none(o):
            return FALSE
        return mk('eq', NONE, o)
    if _nonarith(a) or _nonarith(b):
        # a definite mismatch of scalar kinds
        x, y = sorted((a, b), key=lambda t: t.key)
        return mk('eq', x, y)
    return eq0(sub(a, b))


def may_be_none(t):
    if t.op in ('sym', 'var'):
        return bool(info(t).get('maybe_none')) or kind(t) == 'obj'
    if t.op == 'ite':
        return may_be_none(t.args[1]) or may_be_none(t.args[2])
    if t.op in ('getitem', 'call', 'rec'):
        return kind(t) == 'obj'
    return t is NONE


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'le0':
        return lt0(neg(c.args[0]))
    if c.op == 'lt0':
        return le0(neg(c.args[0]))
    if c.op == 'and':
        return or_(*[not_(x) for x in c.args])
    if c.op == 'or':
        return and_(*[not_(x) for x in c.args])
    if c.op == 'all':
        return mk('any', *c.args[:-1], not_(c.args[-1]))
    if c.op == 'any':
        return mk('all', *c.args[:-1], not_(c.args[-1]))
    return mk('not', c)


def _flat(op, cs):
    out = []
    for c in cs:
        if c.op == op:
            out.extend(c.args)
        else:
            out.append(c)
    return out


def and_(*cs):
    s = []
    for c in _flat('and', cs):
        if c is FALSE:
            return FALSE
        if c is TRUE or c in s:
            continue
        s.append(c)
    for c in s:
        if not_(c) in s:
            return FALSE
    if not s:
        return TRUE
    # absorb: drop (x or y) when x present
    s2 = []
    for c in s:
        if c.op == 'or':
            if any(x in s for x in c.args):
                continue
            rest = [x for x in c.args if not_(x) not in s]
            if len(rest) != len(c.args):
                return and_(*([y for y in s if y is not c] + [or_(*rest)]))
        s2.append(c)
    s = s2
    if len(s) == 1:
        return s[0]
    return mk('and', *sorted(s, key=lambda t: t.key))


def or_(*cs):
    s = []
    for c in _flat('or', cs):
        if c is TRUE:
            return TRUE
        if c is FALSE or c in s:
            continue
        s.append(c)
    for c in s:
        if not_(c) in s:
            return TRUE
    if not s:
        return FALSE
    s2 = []
    for c in s:
        if c.op == 'and':
            if any(x in s for x in c.args):
                continue
            rest = [x for x in c.args if not_(x) not in s]
            if len(rest) != len(c.args):
                return or_(*([y for y in s if y is not c] + [and_(*rest)]))
        s2.append(c)
    s = s2
    if len(s) == 1:
        return s[0]
    return mk('or', *sorted(s, key=lambda t: t.key))


def cond_ite(c, a, b):
    """ite over booleans"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE:
        return or_(c, b)
    if a is FALSE:
        return and_(not_(c), b)
    if b is TRUE:
        return or_(not_(c), a)
    if b is FALSE:
        return and_(c, a)
    return or_(and_(c, a), and_(not_(c), b))


def truth(t):
    if is_bool(t):
        return t
    if t.op == 'num':
        return TRUE if t.args[0] != 0 else FALSE
    if t is NONE:
        return FALSE
    if t.op == 'str':
        return TRUE if t.args[0] else FALSE
    if t.op in ('tuple', 'list'):
        return TRUE if t.args else FALSE
    if t.op == 'edict':
        return FALSE
    if t.op in ('cat', 'path'):
        return TRUE
    if t.op == 'ite':
        return cond_ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op in ('poly', 'floordiv', 'mod', 'min0', 'len', 'size') or (t.op in ('sym', 'var') and is_int(t)):
        if t.op in ('sym', 'var') and info(t).get('maybe_none'):
            return mk('truth', t)
        return not_(eq0(t))
    return mk('truth', t)


# -------------------------------------------------------------------- ite
def _canon_cond(c):
    """return (c', flipped) with a canonical polarity"""
    if c.op == 'not':
        return c.args[0], True
    n = not_(c)
    if n.op != 'not' and n.op not in ('and', 'or') and n.key < c.key:
        return n, True
    if c.op in ('and', 'or') and n.op in ('and', 'or'):
        if n.key < c.key:
            return n, True
    return c, False


def numeric(t):
    k = t.op
    if k in ('num', 'poly', 'min0', 'floordiv', 'mod', 'len', 'size', 'sum', 'ceil', 'floor', 'int', 'dim', 'bool'):
        return True
    if k in ('sym', 'var'):
        i = info(t)
        return bool(i.get('int') or i.get('real')) and not i.get('maybe_none')
    if k == 'ite':
        return numeric(t.args[1]) and numeric(t.args[2])
    if k == 'getitem' and t.args[0].op == 'shape':
        return True
    return False


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    c, fl = _canon_cond(c)
    if fl:
        a, b = b, a
    if is_bool(a) and is_bool(b):
        return cond_ite(c, a, b)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op in ('le0', 'eq0') and c.args[0].op == 'mod':
        # the two sides agree where the condition holds
        z = {c.args[0]: ZERO}
        if subst(a, z) is subst(b, z):
            return b
    if c.op == 'le0' and c.args[0].op in ('var', 'sym') and nonneg(c.args[0]):
        z = {c.args[0]: ZERO}
        if a is subst(b, z):
            return b
    if c.op == 'le0' and c.args[0].op == 'poly':
        v = sub(ONE, c.args[0])
        if v.op in ('var', 'sym') and nonneg(v) and b is subst(a, {v: ZERO}):
            return a
    # conditional update of the same container
    if a.op == 'store' and a.args[0] is b:
        return store(b, a.args[1], ite(c, a.args[2], getitem(b, a.args[1])))
    if b.op == 'store' and b.args[0] is a:
        return store(a, b.args[1], ite(c, getitem(a, b.args[1]), b.args[2]))
    if a.op == 'store' and b.op == 'store' and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        return store(a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
    if numeric(a) and numeric(b) and kind(a) == 'sc' and kind(b) == 'sc':
        if b is not ZERO:
            if a is ZERO:
                nc = not_(c)
                c2, fl2 = _canon_cond(nc)
                # keep canonical polarity: value 0 on one side: express as b - ite(c,b,0)
                return sub(b, ite(c, b, ZERO))
            return add(b, ite(c, sub(a, b), ZERO))
        return _ite0(c, a)
    return mk('ite', c, a, b)


def _ite0(c, e):
    """ite(c, e, 0) for numeric e, canonical"""
    if c.op in ('le0', 'lt0'):
        d = c.args[0]
        # e == k*d (or d+1 for tightened ints):  d<=0 ? d : 0  == min(0,d)
        for dd in ([d, sub(d, ONE)] if is_int(d) else [d]):
            r = _ratio(e, dd)
            if r is not None:
                # on d<=0:  r*dd if dd<=0 ... for dd=d-1: cond d<=0 <=> dd<0
                return mul(num(r), min0(dd))
    # pull numeric factor
    p = topoly(e)
    lead = min(p, key=_mkey)
    k = p[lead]
    if k != 1:
        return mul(num(k), mk('ite', c, frompoly({m: x / k for m, x in p.items()}), ZERO))
    return mk('ite', c, e, ZERO)


def _ratio(a, b):
    pa, pb = topoly(a), topoly(b)
    if not pb or set(pa) != set(pb):
        return None
    r = None
    for m in pa:
        q = pa[m] / pb[m]
        if r is None:
            r = q
        elif r != q:
            return None
    return r


def min0(d):
    """min(0, d), sign-canonical:  min0(d) - min0(-d) == d"""
    if d.op == 'num':
        return num(min(Fr(0), d.args[0]))
    if nonneg(d):
        return ZERO
    if nonneg(neg(d)):
        return d
    p = topoly(d)
    # pull the positive content so that min0(2d) = 2 min0(d)
    q = _prim(d)
    r = _ratio(d, q)
    if r is not None and r != 1 and r > 0:
        return mul(num(r), min0(q))
    lead = min((m for m in p if m), key=_mkey, default=())
    if p[lead] < 0:
        return add(d, mk('min0', neg(d)))
    return mk('min0', d)


def tmin(*ts):
    ts = sorted(set(ts), key=lambda t: t.key)
    r = ts[0]
    for t in ts[1:]:
        r = add(r, min0(sub(t, r)))
    return r


def tmax(*ts):
    return neg(tmin(*[neg(t) for t in ts]))


def tabs(t):
    if t.op == 'num':
        return num(abs(t.args[0]))
    if nonneg(t):
        return t
    p = topoly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if c != 1:
            return mul(num(abs(c)), tabs(frompoly({m: Fr(1)})))
        # pull non-negative scalar factors and even powers
        out, rest = [], []
        if any(e < 0 and e.denominator == 1 and not nonneg(a) for a, e in m):
            ng = [(a, e) for a, e in m if e < 0 and e.denominator == 1]
            return mul(tabs(frompoly({tuple(x for x in m if x not in ng): Fr(1)})), *[powr(tabs(a), e) for a, e in ng])
        for a, e in m:
            if (e.denominator == 1 and e % 2 == 0 and IS_REAL[0](a)) or (lower(a) is not None and lower(a) >= 0) \
                    or e.denominator == 2 or (a.op == 'pi'):
                out.append((a, e))
            else:
                rest.append((a, e))
        if out and rest:
            return mul(frompoly({tuple(out): Fr(1)}), tabs(frompoly({tuple(rest): Fr(1)})))
        if out and not rest:
            return t
    else:
        low = {}
        for m in p:
            for a, e in m:
                if e < 0 and kind(a) == 'arr':
                    low[a] = min(low.get(a, 0), e)
        if low:
            # |a / b - c| = |a - b c| / |b|
            d = frompoly({tuple(sorted(low.items(), key=lambda q: q[0].key)): Fr(1)})
            return mul(tabs(mul(t, powr(d, -1))), tabs(d))
        lead = min(p, key=_mkey)
        if p[lead] < 0:
            t = neg(t)
    if t.op == 'abs':
        return t
    return mk('abs', t)


# ------------------------------------------------------ strings and paths
def cat(*parts):
    out = []
    for p in parts:
        ps = p.args if p.op == 'cat' else (p,)
        for x in ps:
            if x.op == 'num' and x.args[0].denominator == 1:
                pass
            if x.op == 'str' and out and out[-1].op == 'str':
                out[-1] = string(out[-1].args[0] + x.args[0])
            elif x.op == 'str' and x.args[0] == '':
                continue
            else:
                out.append(x)
    if not out:
        return string('')
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def fmt(v, spec=''):
    if v.op in ('str', 'cat', 'fmt', 'path') and spec in ('', 's'):
        return v
    if v.op == 'num' and v.args[0].denominator == 1:
        try:
            return string(format(int(v.args[0]), spec))
        except Exception:
            pass
    if spec == 's' or spec == 'd':
        spec = ''
    if spec[:1] == '0' and spec.isdigit() and is_int(v):
        spec += 'd'
    if kind(v) == 'str' and spec == '':
        return v
    return mk('fmt', v, spec)


def join(*parts):
    """os.path.join"""
    out = []
    for p in parts:
        ps = p.args if p.op == 'path' else (p,)
        if ps and _is_abs(ps[0]):
            out = []
        for x in ps:
            if x.op == 'str':
                for i, s in enumerate(x.args[0].split('/')):
                    if s:
                        out.append(string(s))
                    elif i == 0:
                        out = [string('/')]
            else:
                out.append(x)
    if len(out) == 1:
        return out[0]
    return mk('path', *out)


def _is_abs(t):
    return bool(info(t).get('abs')) or (t.op == 'str' and t.args[0].startswith('/'))


def pathnorm(t):
    """canonical path view of a string term ('/'-separated concatenations too)"""
    if t.op == 'ite':
        return mk('ite', t.args[0], pathnorm(t.args[1]), pathnorm(t.args[2]))
    if t.op == 'cat':
        comps = [[]]
        for p in t.args:
            if p.op == 'str' and '/' in p.args[0]:
                segs = p.args[0].split('/')
                if segs[0]:
                    comps[-1].append(string(segs[0]))
                for s in segs[1:]:
                    comps.append([string(s)] if s else [])
            elif p.op == 'path':
                comps[-1].extend([p.args[0]])
                for q in p.args[1:]:
                    comps.append([q])
            else:
                comps[-1].append(p)
        return join(*[cat(*c) for c in comps if c])
    if t.op == 'path':
        return join(*t.args)
    return t


# ------------------------------------------------------------- containers
def tup(*xs):
    return mk('tuple', *xs)


def lst(*xs):
    return mk('list', *xs)


def sl(lo=None, hi=None, step=None):
    lo = ZERO if lo is None or lo is NONE else lo
    hi = END if hi is None or hi is NONE else hi
    step = ONE if step is None or step is NONE else step
    return mk('sl', lo, hi, step)


def ix(*elems):
    """canonical index"""
    es = list(elems)
    if any(e is NONE for e in es):
        # trailing ':'/... cannot be dropped past a newaxis, but after it can
        pass
    while es and (es[-1] is ELL or es[-1] is ALL):
        es.pop()
    # a leading '...' before exactly nothing is dropped above
    return mk('ix', *es)


def as_ix(t):
    if t.op == 'ix':
        return t
    if t.op == 'tuple':
        return ix(*t.args)
    if t.op in ('store', 'rep', 'list', 'concat', 'scatter') and kind(t) == 'list':
        return mk('ix', mk('ixlist', t))
    return ix(t)


def distinct(a, b):
    """definitely different index components"""
    if a is b:
        return False
    lits = ('str', 'none', 'bool')
    if a.op in lits and b.op in lits:
        return True
    if (a.op == 'str') != (b.op == 'str') and (a.op == 'num' or b.op == 'num'):
        return True
    if a.op in ('sl', 'ell', 'ix') or b.op in ('sl', 'ell', 'ix'):
        if a.op == 'sl' and b.op == 'sl' and a.args[2] is ONE and b.args[2] is ONE and \
                END not in (a.args[1], b.args[1]):
            return le(a.args[1], b.args[0]) is TRUE or le(b.args[1], a.args[0]) is TRUE
        return False
    if kind(a) in ('arr', 'list') or kind(b) in ('arr', 'list'):
        return False
    if a.op in lits or b.op in lits:
        return False
    if kind(a) != 'sc' or kind(b) != 'sc':
        return False
    d = sub(a, b)
    if d.op == 'num':
        # negative constants wrap around: -1 vs 0 are not known distinct, treat as distinct
        return d.args[0] != 0
    return False


def ix_distinct(i, j):
    for a, b in zip(i.args, j.args):
        if a is ELL or b is ELL:
            return False
        if distinct(a, b):
            return True
    return False


def norm_ix(base, idx):
    """index with '...' expanded, full-extent slices as ':' and constant negative bounds resolved, when the shape is known"""
    es = idx.args
    if not any(e.op in ('sl', 'ell') and e is not ALL or e.op == 'num' and e.args[0] < 0 for e in es):
        return idx
    if any(e.op == 'ixlist' or is_bool(e) for e in es):
        return idx
    s = SHAPE_HOOK(base) if SHAPE_HOOK else None
    if s is None or s.op != 'tuple':
        return idx
    s = s.args
    n_real = sum(1 for e in es if e is not NONE and e is not ELL)
    if n_real > len(s) or any(kind(e) == 'arr' and e.op != 'sl' for e in es):
        return idx
    out = []
    j = 0
    for e in es:
        if e is ELL:
            k = len(s) - n_real
            out += [ALL] * k
            j += k
            continue
        if e is NONE:
            out.append(e)
            continue
        d = s[j]
        j += 1
        if e.op == 'num' and e.args[0] < 0 and d.op != 'num':
            e = add(d, e)
        elif e.op == 'sl' and e is not ALL and e.args[2] is ONE:
            lo, hi, _ = e.args
            if lo.op == 'num' and lo.args[0] < 0:
                lo = add(d, lo)
            if hi.op == 'num' and hi.args[0] < 0:
                hi = add(d, hi)
            if hi is d:
                hi = END
            e = sl(lo, hi, ONE)
        out.append(e)
    return ix(*out)


def getitem(base, idx):
    idx = as_ix(idx)
    if any(e.op == 'ixlist' and e.args[0].op in ('list', 'tuple') for e in idx.args):
        es = []
        for e in idx.args:
            es += e.args[0].args if e.op == 'ixlist' and e.args[0].op in ('list', 'tuple') else [e]
        idx = ix(*es)
    if kind(base) == 'arr':
        idx = norm_ix(base, idx)
    es = idx.args
    if not es:
        return base
    op = base.op
    if op == 'ite':
        return ite(base.args[0], getitem(base.args[1], idx), getitem(base.args[2], idx))
    if op in ('tuple', 'list') and len(es) == 1:
        e = es[0]
        n = intval(e)
        L = len(base.args)
        if n is not None and -L <= n < L:
            return base.args[n]
        if e.op == 'poly':
            c = topoly(e).get((), 0)
            if 0 < c < L and c.denominator == 1 and lower1(sub(e, num(c))) == 0:
                return getitem(mk(op, *base.args[int(c):]), ix(sub(e, num(c))))
        if e.op == 'sl' and e.args[2] is ONE:
            lo, hi = intval(e.args[0]), (L if e.args[1] is END else intval(e.args[1]))
            if lo is not None and hi is not None:
                return mk(op, *base.args[lo:hi])
    if op == 'str' and len(es) == 1:
        n = intval(es[0])
        if n is not None and -len(base.args[0]) <= n < len(base.args[0]):
            return string(base.args[0][n])
    if op == 'rep' and len(es) == 1 and kind(es[0]) == 'sc' and es[0].op != 'sl':
        return base.args[0]
    if op == 'call' and base.args[0] == 'bcast1' and len(es) == len(base.args[3].args) \
            and all(e.op != 'sl' and e is not NONE and kind(e) == 'sc' for e in es):
        return getitem(base.args[1], ix(es[intval(base.args[2])]))
    if op == 'call' and (base.args[0] == 'numpy.array' and len(base.args) == 2 or base.args[0] == 'numpy.stack' and base.args[2:] == (ZERO,)) \
            and base.args[1].op in ('list', 'tuple'):
        n = intval(es[0])
        its = base.args[1].args
        if n is not None and -len(its) <= n < len(its):
            return getitem(its[n], ix(*es[1:])) if len(es) > 1 else its[n]
    if op == 'concat' and len(es) == 1:
        n = intval(es[0])
        if n is not None:
            parts = list(base.args)
            if n >= 0:
                for p in parts:
                    if p.op in ('list', 'tuple'):
                        if n < len(p.args):
                            return p.args[n]
                        n -= len(p.args)
                    else:
                        break
            else:
                for p in reversed(parts):
                    if p.op in ('list', 'tuple'):
                        if -n <= len(p.args):
                            return p.args[n]
                        n += len(p.args)
                    else:
                        break
    if op == 'range1' and len(es) == 1 and es[0].op != 'sl' and kind(es[0]) == 'sc':
        lo, hi, st = base.args
        return add(lo, mul(st, es[0]))
    if op == 'listcomp' and len(es) == 1 and es[0].op not in ('sl',) and kind(es[0]) == 'sc':
        init, v, lo, hi, cond, val = base.args
        if cond is TRUE and init.op == 'list' and not init.args:
            n = numval(es[0])
            e = es[0]
            if n is not None and n < 0:
                e = add(hi, e, neg(lo))
            return subst(val, {v: add(lo, e)})
    if op == 'store':
        b, i2, v = base.args
        if i2 is idx:
            return v
        if len(i2.args) < len(es) and i2.args == es[:len(i2.args)] and \
                not any(e.op in ('sl', 'ell', 'none') for e in i2.args):
            return getitem(v, ix(*es[len(i2.args):]))
        if ix_distinct(i2, idx):
            return getitem(b, idx)
    if op == 'scatter':
        r = _scatter_get(base, idx)
        if r is not None:
            return r
    if op == 'getitem':
        # x[i][j] with i all integers: x[i, j]
        i2 = base.args[1]
        if kind(base.args[0]) == 'arr' and all(e.op not in ('sl', 'ell', 'none', 'ixlist') and kind(e) == 'sc'
                                                and not is_bool(e) for e in i2.args):
            return getitem(base.args[0], ix(*i2.args, *es))
    if op == 'alloc' and base.args[0] in ('zeros', 'ones') and kind(base) == 'arr':
        pass
    if op == 'shape':
        x = base.args[0]
        if len(es) == 1:
            n = intval(es[0])
            if n is not None:
                r = shape_dim(x, n)
                if r is not None:
                    return r
    if kind(base) == 'arr' and op in ('poly', 'pow', 'abs', 'matmul', 'getitem', 'real', 'imag', 'transpose'):
        r = push_ix(base, es)
        if r is not None:
            return r
    if op in ('le0', 'lt0', 'eq0') and kind(base.args[0]) == 'arr' and \
            all(e is NONE or e.op == 'sl' or kind(e) == 'sc' and not is_bool(e) and e.op != 'ell' for e in es):
        return dict(le0=le0, lt0=lt0, eq0=eq0)[op](getitem(base.args[0], idx))
    if op == 'not' and base.args[0].op in ('le0', 'lt0', 'eq0') and kind(base.args[0].args[0]) == 'arr':
        return not_(getitem(base.args[0], idx))
    s, rest = split_scalar(base)
    if s is not ONE and kind(base) == 'arr':
        return mul(s, getitem(rest, idx))
    return mk('getitem', base, idx)


def _dims(t):
    s = SHAPE_HOOK(t) if SHAPE_HOOK else None
    return s.args if s is not None and s.op == 'tuple' else None


def push_ix(base, es):
    """indexing by integers, ranges and newaxis distributes over elementwise arithmetic and the free axes of a product"""
    for e in es:
        if e.op in ('ell', 'ixlist') or is_bool(e) or (e.op != 'sl' and e is not NONE and kind(e) != 'sc'):
            return None
        if e.op == 'sl' and e.args[2] is not ONE:
            return None
    op = base.op
    if op in ('abs', 'conj', 'real', 'imag'):
        x = getitem(base.args[0], ix(*es))
        if op == 'abs':
            return tabs(x)
        if op == 'conj':
            return conj(x)
        return mk(op, x)
    full = _dims(base)
    if full is None:
        return None
    n = len(full)
    if sum(1 for e in es if e is not NONE) > n:
        return None
    if op == 'pow':
        return powr(getitem(base.args[0], ix(*es)), base.args[1])
    if op == 'getitem':
        i2 = base.args[1].args
        if any(e.op in ('ell', 'ixlist') or is_bool(e) for e in i2):
            return None
        if sum(1 for e in i2 if e.op != 'sl' and kind(e) in ('arr', 'list')) > 1:
            return None
        out = []
        k = list(es)
        for e in i2:
            if e is NONE:
                while k and k[0] is NONE:
                    out.append(k.pop(0))
                if not k:
                    out.append(NONE)
                    continue
                f = k.pop(0)
                if f is ALL:
                    out.append(NONE)
                elif f is not ZERO:
                    return None
                continue
            if e.op == 'sl' or kind(e) in ('arr', 'list'):
                while k and k[0] is NONE:
                    out.append(k.pop(0))
            if e.op == 'sl':
                if not k:
                    out.append(e)
                    continue
                f = k.pop(0)
                if e is ALL:
                    out.append(f)
                elif f is ALL:
                    out.append(e)
                elif e.args[2] is ONE and f.op != 'sl' and nonneg(f) and e.args[0].op != 'num':
                    out.append(add(e.args[0], f))
                elif e.args[2] is ONE and f.op != 'sl' and nonneg(f) and e.args[0].args[0] >= 0:
                    out.append(add(e.args[0], f))
                else:
                    return None
            elif kind(e) == 'list':
                if not k:
                    out.append(e)
                    continue
                f = k.pop(0)
                if f.op == 'sl' and f is not ALL:
                    return None
                out.append(e if f is ALL else getitem(e, ix(f)))
            elif kind(e) == 'arr':
                d = _dims(e)
                if d is None or len(d) != 1:
                    return None
                if not k:
                    out.append(e)
                    continue
                f = k.pop(0)
                out.append(e if f is ALL else getitem(e, ix(f)))
            else:
                out.append(e)
        return getitem(base.args[0], ix(*out, *k))
    if op == 'transpose':
        if NONE in es:
            return None
        perm = base.args[1] or (1, 0)
        if n != len(perm):
            return None
        e2 = list(es) + [ALL] * (n - len(es))
        src = [None] * n
        for j, a in enumerate(perm):
            src[a] = e2[j]
        x = getitem(base.args[0], ix(*src))
        rest = [a for a in perm if src[a].op == 'sl']
        order = tuple(sorted(rest).index(a) for a in rest)
        if len(order) < 2:
            return x
        return transpose(x, None if order == (1, 0) else order)
    if op == 'matmul':
        if NONE in es or n != 2:
            return None
        ms = list(base.args)
        if any(_dims(m) is None or len(_dims(m)) != 2 for m in ms):
            return None
        r0, c0 = es[0], (es[1] if len(es) > 1 else ALL)
        if r0 is ALL and c0 is ALL:
            return base
        if r0 is not ALL:
            ms[0] = getitem(ms[0], ix(r0))
        if c0 is not ALL:
            ms[-1] = getitem(ms[-1], ix(ALL, c0))
        return matmul(*ms)
    # poly
    out = ZERO
    atoms = {}
    for c, m in base.args[0]:
        for a, e in m:
            if kind(a) == 'arr' and a not in atoms:
                d = _dims(a)
                if d is None:
                    return None
                k = n - len(d)
                sub_ix = []
                j = 0
                for f in es:
                    if f is NONE:
                        if j > k or j == k and k == 0:
                            sub_ix.append(NONE)
                        elif j == k and k > 0:
                            pass
                        continue
                    if j >= k:
                        if d[j - k] is ONE and full[j] is not ONE:
                            sub_ix.append(ALL if f.op == 'sl' else ZERO)
                        else:
                            sub_ix.append(f)
                    j += 1
                atoms[a] = getitem(a, ix(*sub_ix))
    for c, m in base.args[0]:
        t = num(c)
        for a, e in m:
            t = mul(t, powr(atoms.get(a, a), e))
        out = add(out, t)
    return out


def _reaches(inst, lo, hi):
    """False when some value of the loop variables in inst may lie outside lo..hi-1 (only judged when their ranges are known)"""
    b = sub(sub(hi, ONE), inst)
    a = sub(inst, lo)
    known = True
    for w in [x for x in inst.fv if x.op == 'var']:
        h = INFO.get(w.args[0], {}).get('hi')
        if h is None or w in freevars(h):
            known = False
            continue
        if nonneg(sub(subst(b, {w: ZERO}), b)):
            b = subst(b, {w: sub(h, ONE)})
        if nonneg(sub(a, subst(a, {w: ZERO}))):
            a = subst(a, {w: ZERO})
    if not known:
        return True
    return not inst.fv or nonneg(a) and nonneg(b)


def _scatter_get(base, idx):
    b, v, lo, hi, pat, val = base.args
    es, ps = idx.args, pat.args
    cands = [p for p, e in enumerate(ps) if e is v]
    if not cands:
        # affine:  c + v
        for p, e in enumerate(ps):
            if v in e.fv and e.op == 'poly':
                d = sub(e, v)
                if v not in d.fv:
                    cands = [p]
                    break
        else:
            return None
    p = cands[0]
    if p >= len(es):
        return None
    t = es[p]
    if t.op in ('sl', 'ell', 'none', 'ixlist') or kind(t) != 'sc':
        return None
    if intval(t) is not None and intval(t) < 0:
        return None
    off = sub(ps[p], v)
    inst = sub(t, off)
    if not _reaches(inst, lo, hi) and not (b.op == 'edict' and not b.args and off is ZERO):
        # (an entry of a dictionary that was only ever filled here: any other key is an error)
        return None
    n = min(len(ps), len(es))
    for q in range(n):
        if q == p:
            continue
        pe = subst(ps[q], {v: inst})
        if pe is not es[q]:
            if distinct(pe, es[q]):
                return getitem(b, idx)
            return None
    vv = subst(val, {v: inst})
    if len(ps) > len(es):
        if all(e is ALL or e is ELL for e in ps[len(es):]):
            return vv
        return None
    if len(es) > len(ps):
        if any(e.op in ('sl', 'ell', 'none') for e in ps):
            return None
        return getitem(vv, ix(*es[len(ps):]))
    return vv


def store(base, idx, v):
    idx = as_ix(idx)
    if kind(base) == 'arr':
        idx = norm_ix(base, idx)
    if not idx.args or all(e is ALL for e in idx.args):
        if base.op == 'alloc':
            v = CAST_HOOK(v, base.args[2]) if CAST_HOOK else astype(v, base.args[2])
        bs = SHAPE_HOOK(base) if SHAPE_HOOK else None
        vs = SHAPE_HOOK(v) if SHAPE_HOOK else None
        if bs is not None and vs is not None and bs is not vs:
            return mk('bcast', v, bs)
        return v
    if base.op == 'alloc' and base.args[1].op == 'tuple' and ONE in base.args[1].args and kind(v) == 'arr':
        d = base.args[1].args
        es = idx.args + (ALL,) * (len(d) - len(idx.args))
        if len(es) == len(d) and all(e is ALL or e is ZERO and x is ONE for e, x in zip(es, d)):
            vs = SHAPE_HOOK(v) if SHAPE_HOOK else None
            if vs is not None and vs.op == 'tuple' and vs.args == tuple(x for e, x in zip(es, d) if e is ALL):
                v = CAST_HOOK(v, base.args[2]) if CAST_HOOK else v
                return getitem(v, ix(*[ALL if e is ALL else NONE for e in es]))
    if base.op == 'store' and base.args[1] is idx:
        base = base.args[0]
    if base.op in ('list', 'tuple') and len(idx.args) == 1:
        n = intval(idx.args[0])
        if n is not None and -len(base.args) <= n < len(base.args):
            a = list(base.args)
            a[n] = v
            return mk(base.op, *a)
    if base.op == 'store' and ix_distinct(base.args[1], idx) and idx.key < base.args[1].key and not ordered(base, idx):
        return store(store(base.args[0], idx, v), base.args[1], base.args[2])
    if v.op == 'getitem' and v.args[0] is base and v.args[1] is idx:
        return base
    return mk('store', base, idx, v)


def ordered(base, idx):
    """is the order of these two insertions of a dictionary kept (not for the fields of a record)"""
    if kind(base) != 'dict':
        return False
    return not all(len(i.args) == 1 and i.args[0].op == 'str' and i.args[0].args[0].isidentifier() for i in (base.args[1], idx))


def astype(v, dt):
    if dt is NONE or dt is None:
        return v
    if v.op == 'astype' and v.args[1] is dt:
        return v
    return mk('astype', v, dt)


def shape_dim(x, n):
    if x.op == 'alloc' or x.op == 'reshape':
        s = x.args[1]
        if s.op in ('tuple', 'list') and -len(s.args) <= n < len(s.args):
            d = s.args[n]
            if d is not MONE:
                return d
        if s.op == 'concat':
            d = getitem(s, ix(num(n)))
            if d.op != 'getitem' and d is not MONE:
                return d
    if x.op in ('astype', 'conj', 'abs', 'copyof'):
        return shape_dim(x.args[0], n)
    if x.op == 'store':
        return getitem(mk('shape', x.args[0]), ix(num(n)))
    if x.op in ('scatter', 'scatter2'):
        return getitem(mk('shape', x.args[0]), ix(num(n)))
    if SHAPE_HOOK is not None:
        r = SHAPE_HOOK(x)
        if r is not None and -len(r.args) <= n < len(r.args):
            r = r.args[n]
            if not (r.op == 'getitem' and r.args[0].op == 'shape' and r.args[0].args[0] is x):
                return r
    if n < 0 and x.op in ('sym', 'var') and info(x).get('ndim'):
        return getitem(mk('shape', x), ix(num(n % info(x)['ndim'])))
    return None


def shape_of(x):
    if x.op in ('alloc', 'reshape'):
        s = x.args[1]
        if s.op in ('tuple', 'list'):
            if MONE not in s.args:
                return mk('tuple', *s.args)
        elif kind(s) == 'sc':
            return mk('tuple', s)
    if x.op in ('astype', 'conj', 'copyof'):
        return shape_of(x.args[0])
    if x.op in ('store', 'scatter', 'scatter2'):
        return shape_of(x.args[0])
    if SHAPE_HOOK is not None:
        r = SHAPE_HOOK(x)
        if r is not None:
            return r
    return mk('shape', x)


SHAPE_HOOK = None
CAST_HOOK = None


# --------------------------------------------------------- array algebra
def split_scalar(t):
    """t == s * rest with s the scalar (non-array) common factor"""
    if t.op != 'poly':
        if t.op in ('num',):
            return t, ONE
        return ONE, t
    if kind(t) != 'arr':
        return ONE, t
    items = t.args[0]
    common = None
    ccoef = None
    for c, m in items:
        sc = {a: e for a, e in m if kind(a) != 'arr'}
        if common is None:
            common = sc
            ccoef = c
        else:
            common = {a: e for a, e in common.items() if sc.get(a) == e}
            if c != ccoef:
                ccoef = ccoef if abs(c) == abs(ccoef) and len(items) == 1 else Fr(1)
    if ccoef is None:
        return ONE, t
    if len(items) > 1:
        cs = {c for c, m in items}
        ccoef = cs.pop() if len(cs) == 1 else Fr(1)
    if not common and ccoef == 1:
        return ONE, t
    m = tuple(sorted(common.items(), key=lambda x: x[0].key))
    s = frompoly({m: ccoef})
    rest = {}
    for c, mm in items:
        nm = tuple((a, e) for a, e in mm if a not in common)
        rest[nm] = c / ccoef
    return s, frompoly(rest)


def lin1(op, x, *rest):
    """operator linear in its first argument: pull scalar factors out"""
    s, r = split_scalar(x)
    if s is not ONE:
        return mul(s, lin1(op, r, *rest))
    return mk(op, r, *rest)


def conj(t):
    op = t.op
    if op == 'conj':
        return t.args[0]
    if op in ('num', 'bool', 'abs', 'min0', 'floordiv'):
        return t
    if op in ('sym', 'var') and (info(t).get('real') or info(t).get('int')):
        return t
    if op == 'iunit':
        return neg(t)
    if op == 'poly':
        out = ZERO
        for c, m in t.args[0]:
            out = add(out, mul(num(c), *[powr(conj(a), e) for a, e in m]))
        return out
    if op == 'matmul':
        return matmul(*[conj(a) for a in t.args])
    if op in ('transpose', 'reshape'):
        return mk(op, conj(t.args[0]), *t.args[1:])
    if op == 'getitem' and IS_REAL[0](t):
        return t
    if op == 'getitem' and kind(t) == 'arr':
        return getitem(conj(t.args[0]), t.args[1])
    if op == 'red' and t.args[0] in ('sum', 'mean'):
        return red(t.args[0], conj(t.args[1]), *t.args[2:])
    return mk('conj', t)


def transpose(t, axes=None):
    """2-d transpose when axes is None, else permutation tuple"""
    if axes is None:
        if t.op == 'transpose' and t.args[1] == ():
            return t.args[0]
        if t.op == 'matmul':
            return matmul(*[transpose(a) for a in reversed(t.args)])
        if t.op == 'poly' and kind(t) == 'arr':
            out = ZERO
            dt = _dims(t)

            def tr(a):
                d = _dims(a)
                x = transpose(a)
                if dt is None or d is None or len(d) >= len(dt) or not d:
                    return x
                # an operand of lower rank is aligned with the last axes: its transpose has trailing unit axes
                return getitem(x, ix(*[ALL] * len(d), *[NONE] * (len(dt) - len(d))))
            for c, m in t.args[0]:
                out = add(out, mul(num(c), *[powr(tr(a) if kind(a) == 'arr' else a, e) for a, e in m]))
            return out
        if t.op == 'conj':
            return conj(transpose(t.args[0]))
        if kind(t) == 'sc':
            return t
        sh = SHAPE_HOOK(t) if SHAPE_HOOK else None
        if sh is not None and sh.op == 'tuple' and len(sh.args) < 2:
            return t
        return mk('transpose', t, ())
    if axes == tuple(range(len(axes))):
        return t
    if t.op == 'transpose' and t.args[1] and len(t.args[1]) == len(axes):
        a0 = t.args[1]
        return transpose(t.args[0], tuple(a0[a] for a in axes))
    s, r = split_scalar(t)
    if s is not ONE:
        return mul(s, transpose(r, axes))
    if r.op == 'conj':
        return conj(transpose(r.args[0], axes))
    return mk('transpose', t, tuple(axes))


def _axis_factors(t, axis):
    """(scaling, rest): common factors of t that scale along one axis only: column vectors (n,1) for axis 0, rows (1,n) or (n,) for axis 1"""
    if t.op != 'poly' or kind(t) != 'arr':
        return ONE, t
    dt = _dims(t)
    if dt is None or len(dt) != 2 or dt[0] is ONE or dt[1] is ONE:
        return ONE, t
    p = topoly(t)
    common = None
    full = False
    for m in p:
        f = {}
        for a, e in m:
            if kind(a) != 'arr':
                continue
            d = _dims(a)
            if d is None:
                return ONE, t
            if axis == 0 and len(d) == 2 and d[1] is ONE and d[0] is dt[0]:
                f[a] = e
            elif axis == 1 and (len(d) == 1 or len(d) == 2 and d[0] is ONE) and d[-1] is dt[1]:
                f[a] = e
            elif len(d) == 2 and d[0] is dt[0] and d[1] is dt[1]:
                full = True
        common = f if common is None else {a: e for a, e in common.items() if f.get(a) == e}
        if not common:
            return ONE, t
    if not full:
        return ONE, t
    s = frompoly({tuple(sorted(common.items(), key=lambda x: x[0].key)): Fr(1)})
    acc = {}
    for m, c in p.items():
        mm = []
        for a, e in m:
            if a in common:
                e = e - common[a]
            if e:
                mm.append((a, e))
        acc[tuple(mm)] = c
    return s, frompoly(acc)


def _as_column(s):
    d = _dims(s)
    return getitem(s, ix(ALL, NONE)) if len(d) == 1 else transpose_row(s)


def transpose_row(s):
    return getitem(getitem(s, ix(ZERO, ALL)), ix(ALL, NONE))


def matmul(*ms):
    out = []
    s = ONE
    for m in ms:
        c, r = split_scalar(m)
        s = mul(s, c)
        if r.op == 'matmul':
            out.extend(r.args)
        else:
            out.append(r)
    lead = trail = ONE
    if len(out) > 1:
        # A diag(w) B is written A (w B); scalings of the outer axes are taken out of the product
        for i in range(len(out) - 1):
            w, r = _axis_factors(out[i], 1)
            d = _dims(out[i + 1])
            if w is not ONE and d is not None and len(d) in (1, 2):
                out[i] = r
                out[i + 1] = mul(w if len(_dims(w)) == 1 else getitem(w, ix(ZERO, ALL)), out[i + 1]) if len(d) == 1 else mul(_as_column(w), out[i + 1])
        lead, out[0] = _axis_factors(out[0], 0)
        d = _dims(out[-1])
        if d is not None and len(d) == 2:
            trail, out[-1] = _axis_factors(out[-1], 1)
        if lead is not ONE and (d is None or len(d) != 2):
            out[0], lead = mul(lead, out[0]), ONE
    t = out[0] if len(out) == 1 else mk('matmul', *out)
    return mul(s, lead, t, trail)


def _dims_ratio(ds, es):
    """product of ds over product of es, equal factors cancelled first"""
    def factors(xs):
        out = []
        for x in xs:
            if x.op == 'poly' and len(x.args[0]) == 1 and all(e > 0 and e == int(e) for _, e in x.args[0][0][1]):
                c, m = x.args[0][0]
                out.append(num(c))
                for a, e in m:
                    out += [a] * int(e)
            else:
                out.append(x)
        return out
    a, b = factors(ds), factors(es)
    for x in list(b):
        if x in a:
            a.remove(x)
            b.remove(x)
    return div(mul(*a) if a else ONE, mul(*b) if b else ONE)


def reshape(t, shape):
    if shape.op == 'list':
        shape = mk('tuple', *shape.args)
    if t.op == 'reshape':
        t = t.args[0]
        return reshape(t, shape)
    if t.op == 'unreshape' and False:
        pass
    if t.op == 'getitem' and NONE in t.args[1].args:
        return reshape(getitem(t.args[0], ix(*[e for e in t.args[1].args if e is not NONE])), shape)
    if t.op == 'getitem' and any(e.op == 'sl' and e.args[2] is ONE and e.args[1] is not END and sub(e.args[1], e.args[0]) is ONE
                                 and nonneg(e.args[0]) for e in t.args[1].args):
        # an axis of length one disappears
        return reshape(getitem(t.args[0], ix(*[e.args[0] if e.op == 'sl' and e.args[2] is ONE and e.args[1] is not END
                                               and sub(e.args[1], e.args[0]) is ONE and nonneg(e.args[0]) else e for e in t.args[1].args])), shape)
    s, r = split_scalar(t)
    if s is not ONE:
        return mul(s, reshape(r, shape))
    d = SHAPE_HOOK(t) if SHAPE_HOOK else None
    if d is not None and d.op == 'tuple' and shape.op == 'tuple' and sum(1 for e in shape.args if intval(e) == -1) == 1:
        n = _dims_ratio(d.args, [e for e in shape.args if intval(e) != -1])
        if n.op in ('sym', 'num') or n.op == 'poly' and all(p > 0 for m in topoly(n) for _, p in m):
            shape = mk('tuple', *[n if intval(e) == -1 else e for e in shape.args])
    if d is shape:
        return t
    if t.op == 'scatter' and d is not None and d.op == 'tuple' and shape.op == 'tuple' and len(shape.args) == 2 and len(d.args) > 2 \
            and t.args[0].op == 'alloc' and len(t.args[0].args) == 3 and t.args[1] is t.args[4].args[-1] and len(t.args[4].args) == len(d.args) \
            and all(e is ALL for e in t.args[4].args[:-1]) and shape.args[1] is d.args[-1] and eq0(sub(shape.args[0], mul(*d.args[:-1]))) is TRUE:
        # filled along its last axis: the other axes are merged in every entry
        return scatter(alloc(t.args[0].args[0], shape, t.args[0].args[2]), t.args[1], ZERO, t.args[3], ix(ALL, t.args[1]),
                       reshape(t.args[5], mk('tuple', shape.args[0])))
    return mk('reshape', t, shape)


def _unflat(x, st):
    """x read elementwise before its arrays were flattened to one axis; None if it is not an elementwise formula of flattened arrays"""
    if kind(x) != 'arr':
        return x
    if x.op == 'reshape':
        d = _dims(x.args[0])
        sh = x.args[1]
        if d is None or sh.op != 'tuple' or len(sh.args) != 1:
            return None
        if st.setdefault('d', d) != d:
            return None
        return x.args[0]
    if x.op == 'poly':
        ok = True
        acc = []
        for m, c in topoly(x).items():
            t = num(c)
            for a, e in m:
                y = _unflat(a, st)
                if y is None:
                    return None
                t = mul(t, powr(y, e))
            acc.append(t)
        return add(*acc)
    if x.op in ('abs', 'conj', 'real', 'imag'):
        y = _unflat(x.args[0], st)
        return None if y is None else tabs(y) if x.op == 'abs' else conj(y) if x.op == 'conj' else mk(x.op, y)
    return None


def red(fn, x, axis=NONE, *extra):
    """reductions (sum, mean, ...), axis NONE = full"""
    if axis is NONE and not extra and fn in ('sum', 'max', 'min', 'mean'):
        if kind(x) == 'sc' and _dims(x) == ():
            return x
        st = {}
        y = _unflat(x, st)
        if y is not None and 'd' in st:
            return red(fn, y, axis)
    if x.op == 'getitem' and NONE in x.args[1].args and not extra and all(e is NONE or e.op == 'sl' for e in x.args[1].args):
        es = x.args[1].args
        inner = getitem(x.args[0], ix(*[e for e in es if e is not NONE]))
        if axis is NONE:
            return red(fn, inner, axis)
        n = intval(axis)
        if n is not None and n >= 0 and (n >= len(es) or es[n] is not NONE):
            k = sum(1 for e in es[:n] if e is NONE)
            return getitem(red(fn, inner, num(n - k)), ix(*[NONE if e is NONE else ALL for j, e in enumerate(es) if j != n]))
    if x.op == 'reshape' and intval(axis) == 0 and not extra and x.args[1].op == 'tuple' and len(x.args[1].args) > 1:
        d = _dims(x.args[0])
        if d and len(d) > 1 and d[0] is x.args[1].args[0]:
            return reshape(red(fn, x.args[0], axis), mk('tuple', *x.args[1].args[1:]))
    if fn in ('sum', 'mean'):
        s, r = split_scalar(x)
        if s is not ONE:
            return mul(s, red(fn, r, axis, *extra))
        d = SHAPE_HOOK(x) if SHAPE_HOOK and not extra else None
        d = d.args if d is not None and d.op == 'tuple' else None
        if fn == 'mean' and d is not None:
            if axis is NONE:
                return div(red('sum', x, axis), mul(*d))
            n = intval(axis)
            if n is not None and -len(d) <= n < len(d):
                return div(red('sum', x, axis), d[n])
        if d is not None and axis is not NONE and intval(axis) is not None and intval(axis) < 0:
            axis = num(intval(axis) + len(d))
        if d is not None and len(d) == 1 and axis is ZERO:
            axis = NONE
        if d is not None and fn == 'sum' and axis is not NONE and intval(axis) is not None and intval(axis) < len(d):
            if d[intval(axis)] is ZERO:
                return ZERO
    return mk('red', fn, x, axis, *extra)


def alloc(fn, shape, dtype):
    if shape.op == 'list':
        shape = mk('tuple', *shape.args)
    return mk('alloc', fn, shape, dtype)


def call(name, *args):
    return mk('call', name, *args)


# --------------------------------------------------------------- binders
_depth_cache = {}


def _children(t):
    out = []

    def go(a):
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                go(x)
    for a in t.args:
        go(a)
    return out


def children(t):
    return _children(t)


def bind(op, v, lo, hi, *bodies):
    """binder term op(bvar, lo, hi, *bodies) with an alpha-canonical variable.

    range normalised to start at 0"""
    if lo is not ZERO:
        bodies = [subst(b, {v: add(v, lo)}) for b in bodies]
        hi = sub(hi, lo)
        lo = ZERO
    d = max([_bdepth(b) for b in bodies] + [0]) + 1
    nm = f'@{d}'
    INFO.setdefault(nm, {'int': True, 'min': 0, 'real': True})
    bv = mk('var', nm)
    # '@k' variables never clash because depth strictly grows outwards
    bodies = [subst(b, {v: bv}) for b in bodies]
    return bv, hi, bodies


def bsum(v, lo, hi, body):
    if v not in body.fv:
        return mul(sub(hi, lo), body)
    if body.op == 'getitem' and all(e is NONE or e is ALL for e in body.args[1].args):
        return getitem(bsum(v, lo, hi, body.args[0]), body.args[1])
    if body.op == 'reshape' and v not in freevars(body.args[1]):
        return reshape(bsum(v, lo, hi, body.args[0]), body.args[1])
    if body.op == 'getitem' and kind(body.args[0]) == 'arr' and v not in freevars(body.args[0]):
        es = body.args[1].args
        c = sub(es[0], v) if es and kind(es[0]) == 'sc' and es[0] is not NONE and es[0].op not in ('sl', 'ell') else None
        if c is not None and not any(v in freevars(e) for e in es[1:]) and v not in freevars(c) and nonneg(add(c, lo)) \
                and _dims(body.args[0]) is not None:
            return red('sum', getitem(body.args[0], ix(sl(add(c, lo), add(c, hi)), *es[1:])), ZERO)
    if lo is ZERO and hi.op != 'num' and _tests_first(body, v) and subst(body, {v: ZERO}) is ZERO:
        return bsum(v, ZERO, sub(hi, ONE), subst(body, {v: add(v, ONE)}))
    if body.op == 'red':
        g = _rng_sum(body)
        if g is not None and v not in g[0].fv and subst(g[2], {v: add(v, ONE)}) is g[3]:
            return red('sum', getitem(g[0], ix(*([ALL] * g[1] + [sl(subst(g[2], {v: lo}), subst(g[2], {v: hi}), ONE)]))), num(g[1]))
    if body.op == 'poly' and len(body.args[0]) == 1:
        c, m = body.args[0][0]
        dep = [(a, e) for a, e in m if v in freevars(a)]
        if len(dep) == 1 and dep[0][1] == 1 and dep[0][0].op == 'red' and all(kind(a) == 'sc' for a, e in m):
            r = bsum(v, lo, hi, dep[0][0])
            if r.op == 'red':
                return mul(num(c), frompoly({tuple(x for x in m if x not in dep): Fr(1)}), r)
    if body.op == 'red' and body.args[0] == 'sum' and body.args[2] is NONE and len(body.args) == 3 or kind(body) == 'sc' and body.op != 'red':
        # sum_v sum(f(A[v + c])) = sum(f(A[c:c + n]))
        full = body.op == 'red'
        b = body.args[1] if full else body
        d = _dims(b) if full else ()
        n = sub(hi, lo)
        if d is not None and v not in freevars(n):
            r = _lift(b if lo is ZERO else subst(b, {v: add(v, lo)}), v, n, len(d), {})
            if r is not None and v not in freevars(r) and kind(r) == 'arr':
                return red('sum', r, NONE if full else ZERO)
    bv, hi, (body,) = bind('sum', v, lo, hi, body)
    return mk('sum', bv, ZERO, hi, body)


def _tests_first(body, v):
    """does the body branch on v == 0"""
    return v.op == 'var' and any(x.op == 'eq0' and x.args[0] is v or x.op == 'le0' and x.args[0] in (v, sub(ONE, v)) for x in subterms(body))


def ball(v, lo, hi, body):
    if body in (TRUE,):
        return TRUE
    if body is FALSE:
        return le(hi, lo)
    bv, hi, (body,) = bind('all', v, lo, hi, body)
    return mk('all', bv, ZERO, hi, body)


def bany(v, lo, hi, body):
    return not_(ball(v, lo, hi, not_(body)))


def scatter(base, v, lo, hi, pat, val):
    if pat.op == 'ix' and ELL in pat.args and kind(base) == 'arr':
        pat = norm_ix(base, pat)
    if kind(base) == 'arr' and lo is ZERO:
        r = _vectorise(base, v, hi, pat, val)
        if r is not None:
            return r
    bv, hi, (pat, val) = bind('scatter', v, lo, hi, pat, val)
    return mk('scatter', base, bv, ZERO, hi, pat, val)


def _vectorise(base, v, hi, pat, val):
    """for v in range(hi): base[.., v+c, ...] = elementwise(A[v+k, ...])   ==   base[.., c:c+hi, ...] = elementwise(A[k:k+hi, ...])"""
    if pat.op != 'ix' or not pat.args:
        return None
    at = [i for i, e in enumerate(pat.args) if v in freevars(e)]
    if len(at) != 1 or any(e.op != 'sl' for i, e in enumerate(pat.args) if i != at[0]):
        return None
    p = at[0]
    if pat.args[p].op == 'sl':
        return None
    c = sub(pat.args[p], v)
    if v in freevars(c) or not nonneg(c):
        return None
    if kind(val) == 'arr':
        d = _dims(val)
        if d is None:
            return None
        d = len(d)
    elif kind(val) == 'sc':
        d = 0
    else:
        return None
    bd = _dims(base)
    if bd is None or len(bd) - 1 < d or len(bd) - 1 > d and not d == 0:
        return None
    D = len(bd) - 1
    memo = {}
    if p > 0:
        r = _lift(val, v, hi, D, memo, p)
        if r is None or v in freevars(r):
            return None
        return store(base, ix(*pat.args[:p], sl(c, add(c, hi)), *pat.args[p + 1:]), r)
    if base.op in ('scatter', 'store'):
        # elements of the table being updated: read back as base[v+c]
        cur = getitem(base, ix(pat.args[0]))
        whole = getitem(base, ix(sl(c, add(c, hi))))
        memo[cur] = whole
        s1, r1 = split_scalar(cur)
        s2, r2 = split_scalar(val)
        if r1 is r2 and v not in freevars(s1) and v not in freevars(s2):
            val, memo = mul(div(s2, s1), cur), {cur: whole}
            if cur.op == 'poly':
                return store(base, ix(sl(c, add(c, hi)), *pat.args[1:]), mul(div(s2, s1), whole))
    r = _lift(val, v, hi, D, memo)
    if r is None or v in freevars(r):
        return None
    return store(base, ix(sl(c, add(c, hi)), *pat.args[1:]), r)


def _lift(x, v, hi, D, memo, p=0):
    if v not in freevars(x):
        if p and kind(x) == 'arr':
            d = _dims(x)
            if d is None:
                return None
            q = len(d) - (D - p)
            if q > 0:
                return getitem(x, ix(*[ALL] * q, NONE, *[ALL] * (len(d) - q)))
        return x
    if x in memo:
        return memo[x]
    if x.op == 'poly':
        out = ZERO
        for co, m in x.args[0]:
            t = num(co)
            for a, e in m:
                la = _lift(a, v, hi, D, memo, p)
                if la is None:
                    return None
                t = mul(t, powr(la, e))
            out = add(out, t)
        return out
    if x.op in ('abs', 'conj', 'real', 'imag'):
        y = _lift(x.args[0], v, hi, D, memo, p)
        return None if y is None else (tabs(y) if x.op == 'abs' else conj(y) if x.op == 'conj' else mk(x.op, y))
    if x.op == 'getitem' and kind(x.args[0]) == 'arr' and v not in freevars(x.args[0]):
        es = x.args[1].args
        for j, e in enumerate(es):
            if v in freevars(e):
                break
            if not p and (e is NONE or e.op in ('sl', 'ell') or kind(e) != 'sc'):
                return None
        if any(v in freevars(f) for f in es[j + 1:]) or kind(e) != 'sc' or e.op in ('sl', 'ell') or e is NONE:
            return None
        k = sub(e, v)
        if v in freevars(k) or not nonneg(k):
            return None
        n = 0
        if kind(x) == 'arr':
            d = _dims(x)
            if d is None:
                return None
            n = len(d)
        if n > D:
            return None
        if p:
            q = sum(1 for f in es[:j] if f is NONE or f.op == 'sl')
            if any(f.op == 'ell' for f in es) or n - q != D - p:
                return None
            return getitem(x.args[0], ix(*es[:j], sl(k, add(k, hi)), *es[j + 1:]))
        return getitem(x.args[0], ix(*es[:j], sl(k, add(k, hi)), *([NONE] * (D - n)), *es[j + 1:]))
    return None


def scatter2(base, v, hi, w, whi, pat, val):
    """for v in range(hi): for w in range(whi): base[pat] = val  (disjoint writes)"""
    bw, whi, (pat, val) = bind('scatter', w, ZERO, whi, pat, val)
    bv, hi, (inner,) = bind('scatter', v, ZERO, hi, mk('cell2', bw, ZERO, whi, pat, val))
    return mk('scatter2', base, bv, ZERO, hi, inner)


def listcomp(init, v, lo, hi, cond, val):
    bv, hi, (cond, val) = bind('listcomp', v, lo, hi, cond, val)
    return mk('listcomp', init, bv, ZERO, hi, cond, val)


# bound variables contribute to _bdepth through their '@k' name
def _bdepth(t):
    r = _depth_cache.get(t)
    if r is None:
        r = 0
        if t.op == 'var' and t.args[0].startswith('@'):
            r = int(t.args[0][1:])
        else:
            for x in _children(t):
                r = max(r, _bdepth(x))
        _depth_cache[t] = r
    return r


# ---------------------------------------------------------- substitution
def subst(t, m):
    if not m:
        return t
    ks = frozenset(k for k in m if k.op == 'var')
    allvar = len(ks) == len(m)
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        if allvar and not (x.fv & ks):
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def rebuild(x, go):
    """re-apply the smart constructor of x to transformed children"""
    op = x.op
    if op in ('num', 'str', 'sym', 'var', 'none', 'bool', 'ell', 'end', 'undef', 'fconst', 'iunit', 'dtype', 'cls', 'fn'):
        return x
    if op == 'poly':
        acc = ZERO
        for c, mono in x.args[0]:
            acc = add(acc, mul(num(c), *[powr(go(a), e) for a, e in mono]))
        return acc

    def g(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            return tuple(g(y) for y in a)
        return a
    bi = BINDERS.get(op)
    if bi is not None:
        # open the binder with a fresh variable, transform, close again
        v = x.args[bi]
        pre = [g(a) for a in x.args[:bi]]
        lo, hi = g(x.args[bi + 1]), g(x.args[bi + 2])
        f = fresh_var('o', int=True, min=0, real=True, **({'hi': hi} if lo is ZERO else {}))
        bodies = [go(subst(b, {v: f})) for b in x.args[bi + 3:]]
        return close(op, pre, f, lo, hi, bodies)
    args = [g(a) for a in x.args]
    return rebuild_op(op, args)


# binder op -> position of the bound variable in args (followed by lo, hi, bodies)
_rec_levels = {}


def rec_level(t):
    """nesting depth of opaque recurrences inside t"""
    r = _rec_levels.get(t)
    if r is None:
        r = max((rec_level(c) for c in children(t)), default=0) + (t.op == 'rec')
        _rec_levels[t] = r
    return r


def rec_system(phis, nexts, inits, x, k):
    """value after k rounds of the first variable of a recurrence system; the others are ordered by the shape of their equations only"""
    n = len(phis)
    # counters that start non-negative and never decrease
    cand = [i for i in range(n) if info(phis[i]).get('int') and info(phis[i]).get('kind', 'sc') == 'sc' and nonneg(inits[i])]
    while cand:
        m = {phis[i]: fresh_var('n', **dict(info(phis[i]), min=0)) for i in cand}
        keep = [i for i in cand if nonneg(subst(nexts[i], m))]
        if keep == cand:
            nexts = [subst(t, m) for t in nexts]
            phis = [m.get(p, p) for p in phis]
            break
        cand = keep
    lev = 1 + max(rec_level(t) for t in nexts)
    pos = set(phis)
    outer = {v: sym('φ%s:%s:%s' % tuple(map(info(v).get, ('kind', 'int', 'ndim'))),
                    **{a: b for a, b in info(v).items() if a in ('kind', 'int', 'ndim')})
             for t in (*nexts, *inits) for v in freevars(t) if v not in pos}
    outer[x] = sym('φv', int=True, min=0, real=True)
    nx, it = [subst(t, outer) for t in nexts], [subst(t, outer) for t in inits]
    blank = {p: sym('φ?', kind='obj') for p in phis}
    h = lambda s: hashlib.md5(s.encode()).hexdigest()
    col = [h(subst(nx[i], blank).key + it[i].key) for i in range(n)]
    for _ in range(3):
        m = {p: sym('φ' + c, kind='obj') for p, c in zip(phis, col)}
        col = [h(c + subst(t, m).key) for c, t in zip(col, nx)]
    order = [0] + sorted(range(1, n), key=lambda i: (col[i], i))
    can = {}
    for j, i in enumerate(order):
        inf = {a: b for a, b in info(phis[i]).items() if a in ('kind', 'int', 'real', 'ndim', 'dims', 'dt', 'complex', 'min', 'bool', 'phi')}
        sig = ','.join(f'{a}={b.key if isinstance(b, Term) else [x.key for x in b] if isinstance(b, tuple) else b}' for a, b in sorted(inf.items()))
        can[phis[i]] = sym(f'ϱ{lev}.{j}:{inf.get("kind")}:{hashlib.md5(sig.encode()).hexdigest()[:6]}', **inf)
    system = [subst(nexts[i], can) for i in order]
    bv, hi, bodies = bind('rec', x, ZERO, k, system[0], inits[0], *system[1:], *[inits[i] for i in order[1:]])
    return mk('rec', bv, ZERO, hi, *bodies)


def rec_parts(t):
    """(variables, equations, initial values, counter, rounds) of a recurrence, the counter opened"""
    bodies = t.args[3:]
    n = len(bodies) // 2
    x = fresh_var('k', int=True, min=0, real=True)
    nexts = [bodies[0]] + list(bodies[2:n + 1])
    inits = [bodies[1]] + list(bodies[n + 1:])
    lev = 1 + max(rec_level(b) for b in nexts)
    syms = {}
    for b in nexts:
        for s in subterms(b):
            if s.op == 'sym' and s.args[0].startswith(f'ϱ{lev}.'):
                syms[int(s.args[0].split('.')[1].split(':')[0])] = s
    ps = [syms.get(i) or sym(f'ϱ{lev}.{i}:unused', kind='obj') for i in range(n)]
    nexts = [subst(b, {t.args[0]: x}) for b in nexts]
    return ps, nexts, inits, x, t.args[2]


BINDERS = {'sum': 0, 'scatter2': 1, 'cell2': 0, 'rec': 0,  'all': 0, 'any': 0, 'scatter': 1, 'listcomp': 1, 'first': 0}


def close(op, pre, f, lo, hi, bodies):
    if op == 'sum':
        return bsum(f, lo, hi, bodies[0])
    if op == 'all':
        return ball(f, lo, hi, bodies[0])
    if op == 'any':
        return bany(f, lo, hi, bodies[0])
    if op == 'scatter':
        return scatter(pre[0], f, lo, hi, bodies[0], bodies[1])
    if op == 'listcomp':
        return listcomp(pre[0], f, lo, hi, bodies[0], bodies[1])
    bv, hi, bodies = bind(op, f, lo, hi, *bodies)
    return mk(op, *pre, bv, ZERO, hi, *bodies)


def rebuild_op(op, args):
    f = _CTORS.get(op)
    if f:
        return f(*args)
    if op == 'size':
        d = _dims(args[0])
        if d is not None and MONE not in d:
            return mul(*d) if d else ONE
    return mk(op, *args)


_CTORS = {
    'floordiv': floordiv, 'mod': mod, 'min0': min0, 'ite': ite, 'le0': le0, 'lt0': lt0, 'eq0': eq0,
    'eq': eq, 'and': and_, 'or': or_, 'not': not_, 'cat': cat, 'fmt': fmt, 'path': join,
    'getitem': getitem, 'store': store, 'conj': conj, 'matmul': matmul, 'reshape': reshape,
    'ix': ix, 'sl': sl, 'abs': tabs, 'truth': truth, 'astype': astype,
    'transpose': lambda t, ax: transpose(t, ax if ax else None),
    'red': red, 'shape': shape_of, 'ceil': ceil_, 'int': int_, 'floor': lambda t: floor_(t),
}


# ------------------------------------------------------------- traversal
def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(_children(x))


def find(t, pred):
    return [x for x in subterms(t) if pred(x)]


def contains(t, x):
    for y in subterms(t):
        if y is x:
            return True
    return False


def rewrite(t, fn):
    """bottom-up rewriting: fn(term) -> term or None"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            y = fn(r)
            if y is not None:
                r = y
            memo[x] = r
        return r
    return go(t)


_free = {}


def freevars(t):
    """free variables (bound ones removed at their binder)"""
    r = _free.get(t)
    if r is None:
        if t.op == 'var':
            r = frozenset([t])
        elif not t.fv:
            r = frozenset()
        else:
            bi = BINDERS.get(t.op)
            r = frozenset()
            for c in _children(t):
                r |= freevars(c)
            if bi is not None:
                r -= {t.args[bi]}
        _free[t] = r
    return r


def transform(t, fn):
    """top-down rewriting: fn(term, go) -> term or None (descend); binders are opened with fresh variables"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = fn(x, go)
            if r is None:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def erase(t, ops=('astype', 'copyof')):
    """drop representation-only wrappers"""
    return rewrite(t, lambda x: x.args[0] if x.op in ops else None)


# --------------------------------------------------------------- printing
def show(t, depth=9):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '…'
    d = depth - 1
    op, a = t.op, t.args
    if op == 'num':
        return str(a[0])
    if op == 'str':
        return repr(a[0])
    if op in ('sym', 'var'):
        return a[0]
    if op == 'none':
        return 'None'
    if op == 'bool':
        return str(a[0])
    if op == 'end':
        return ''
    if op == 'ell':
        return '...'
    if op == 'poly':
        out = []
        for c, m in a[0]:
            s = '*'.join((show(x, d) if e == 1 else f'{show(x, d)}^{e}') for x, e in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append(f'{c}*{s}')
        return '(' + ' + '.join(out) + ')'
    if op == 'ix':
        return ', '.join(show(x, d) for x in a)
    if op == 'sl':
        s = f'{"" if a[0] is ZERO else show(a[0], d)}:{show(a[1], d)}'
        return s if a[2] is ONE else s + ':' + show(a[2], d)
    if op == 'getitem':
        return f'{show(a[0], d)}[{show(a[1], d)}]'
    if op == 'store':
        return f'{show(a[0], d)}{{[{show(a[1], d)}]:={show(a[2], d)}}}'
    if op == 'le0':
        return f'({show(a[0], d)} <= 0)'
    if op == 'lt0':
        return f'({show(a[0], d)} < 0)'
    if op == 'eq0':
        return f'({show(a[0], d)} == 0)'
    if op == 'eq':
        return f'({show(a[0], d)} == {show(a[1], d)})'
    if op == 'ite':
        return f'({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})'
    if op == 'matmul':
        return '(' + ' @ '.join(show(x, d) for x in a) + ')'
    if op == 'call':
        return f'{a[0]}(' + ', '.join(show(x, d) for x in a[1:]) + ')'
    if op == 'kw':
        return f'{a[0]}={show(a[1], d)}'
    if op == 'cat':
        return 'cat(' + ', '.join(show(x, d) for x in a) + ')'
    return f'{op}(' + ', '.join(show(x, d) for x in a) + ')'
