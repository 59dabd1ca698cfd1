"""Pointwise equality of array terms: compare one generic element, distinguishing the index regions that partial stores create."""
import time

from . import terms as T, lin
from .terms import mk, num, ONE, ZERO, END, NONE, ALL, ix




class Stuck(Exception):
    pass


def _scalar(e):
    return e is not NONE and e.op not in ('sl', 'ell', 'ixlist') and not T.is_bool(e) and T.kind(e) == 'sc'


class _Split(Exception):
    def __init__(self, goal):
        self.goal = goal


def decide(goal, facts, memo):
    """goal >= 0: True / False; raises _Split when both are possible"""
    if goal.op == 'num':
        return goal.args[0] >= 0
    k = (goal, tuple(facts))
    if k not in memo:
        if lin.prove(goal, facts):
            memo[k] = True
        elif lin.prove(T.sub(T.neg(goal), ONE), facts):
            memo[k] = False
        else:
            memo[k] = None
    if memo[k] is None:
        raise _Split(goal)
    return memo[k]


def scal(t, facts, memo):
    """scalar with its case distinctions decided by the facts"""
    if t.op == 'ite':
        try:
            c = cond(t.args[0], facts, memo)
        except Stuck:
            return t
        return scal(t.args[1] if c else t.args[2], facts, memo)
    if t.op == 'poly' and any(a.op in ('ite', 'poly') for _, m in t.args[0] for a, _ in m):
        out = ZERO
        for c, m in t.args[0]:
            x = num(c)
            for a, e in m:
                x = T.mul(x, T.powr(scal(a, facts, memo), e))
            out = T.add(out, x)
        return out
    return t


def elem(t, idx, facts, memo):
    """element of array t at the integer index vector idx (full rank)"""
    if T.kind(t) != 'arr':
        if T.kind(t) == 'sc':
            return scal(t, facts, memo)
        raise Stuck(t)
    d = T._dims(t)
    if d is None:
        raise Stuck(t)
    if len(d) > len(idx):
        raise Stuck(t)
    idx = idx[len(idx) - len(d):]
    idx = [ZERO if n is ONE else i for i, n in zip(idx, d)]
    op = t.op
    if op == 'poly':
        out = ZERO
        for c, m in t.args[0]:
            x = num(c)
            for a, e in m:
                x = T.mul(x, T.powr(elem(a, idx, facts, memo) if T.kind(a) == 'arr' else scal(a, facts, memo), e))
            out = T.add(out, x)
        return out
    if op == 'abs':
        return T.tabs(elem(t.args[0], idx, facts, memo))
    if op == 'conj':
        return T.conj(elem(t.args[0], idx, facts, memo))
    if op in ('real', 'imag'):
        return mk(op, elem(t.args[0], idx, facts, memo))
    if op == 'bcast':
        return elem(t.args[0], idx, facts, memo)
    if op == 'alloc' and t.args[0] in ('zeros', 'ones'):
        return ZERO if t.args[0] == 'zeros' else ONE
    if op == 'reshape':
        return _reshaped(t, idx, d, facts, memo)
    if op == 'scatter':
        return _scattered(t, idx, d, facts, memo)
    if op == 'call' and t.args[0] == 'einsum':
        return _einsum(t, idx, facts, memo)
    if op == 'call' and t.args[0] == 'numpy.concatenate' and t.args[1].op in ('list', 'tuple') and t.args[2].op == 'num':
        a = int(t.args[2].args[0])
        at = idx[a]
        for x in t.args[1].args:
            dx = T._dims(x)
            if dx is None or len(dx) != len(d):
                raise Stuck(t)
            if decide(T.sub(T.sub(dx[a], at), ONE), facts, memo):
                return elem(x, idx[:a] + [at] + idx[a + 1:], facts, memo)
            at = T.sub(at, dx[a])
        raise Stuck(t)
    if op == 'transpose':
        perm = t.args[1] or tuple(reversed(range(len(d))))
        src = [None] * len(d)
        for j, a in enumerate(perm):
            src[a] = idx[j]
        return elem(t.args[0], src, facts, memo)
    if op == 'store':
        b, I, v = t.args
        es = list(I.args) + [ALL] * (len(d) - len(I.args))
        if any(e is NONE or e.op in ('ell', 'ixlist') or T.is_bool(e) for e in es) or len(es) != len(d):
            raise Stuck(t)
        sub = []
        for e, i in zip(es, idx):
            if e.op == 'sl':
                lo, hi, st = e.args
                if st is not ONE:
                    raise Stuck(t)
                if e is ALL:
                    sub.append(i)
                    continue
                if not decide(T.sub(i, lo), facts, memo):
                    return elem(b, idx, facts, memo)
                if hi is not END and not decide(T.sub(T.sub(hi, i), ONE), facts, memo):
                    return elem(b, idx, facts, memo)
                sub.append(T.sub(i, lo))
            elif _scalar(e):
                if not (decide(T.sub(i, e), facts, memo) and decide(T.sub(e, i), facts, memo)):
                    return elem(b, idx, facts, memo)
            else:
                raise Stuck(t)
        return elem(v, sub, facts, memo)
    if op == 'ite':
        c = cond(t.args[0], facts, memo)
        return elem(t.args[1] if c else t.args[2], idx, facts, memo)
    if op == 'getitem':
        es = t.args[1].args
        if all(e is NONE or e.op == 'sl' and e.args[2] is ONE or _scalar(e) for e in es) or \
                sum(1 for e in es if e.op == 'range1') == 1 and all(e is NONE or e.op == 'range1' or e.op == 'sl' and e.args[2] is ONE for e in es):
            out = []
            k = list(idx)
            for e in es:
                if e is NONE:
                    k.pop(0)
                elif e.op == 'range1':
                    out.append(T.add(e.args[0], T.mul(e.args[2], k.pop(0))))
                elif e.op == 'sl':
                    if e.args[0].op == 'num' and e.args[0].args[0] < 0:
                        raise Stuck(t)
                    out.append(T.add(e.args[0], k.pop(0)))
                else:
                    out.append(e)
            return elem(t.args[0], out + k, facts, memo)
    return T.getitem(t, ix(*idx))


def _groups(src, dst):
    """match the axes of two shapes of the same size in consecutive groups with equal products"""
    out = []
    i = j = 0
    while i < len(src) or j < len(dst):
        a, b = [i], [j]
        pa = src[i] if i < len(src) else ONE
        pb = dst[j] if j < len(dst) else ONE
        i2, j2 = min(i + 1, len(src)), min(j + 1, len(dst))
        ok = pa is pb
        best = None
        for x in range(i, len(src) + 1):
            for y in range(j, len(dst) + 1):
                if x == i and y == j:
                    continue
                if _prod(src[i:x]) is _prod(dst[j:y]) and (best is None or x + y < sum(best)):
                    best = (x, y)
        if best is None:
            return None
        out.append((range(i, best[0]), range(j, best[1])))
        i, j = best
    return out


def _prod(ds):
    n = ONE
    for x in ds:
        n = T.mul(n, x)
    return n


def _lin(idx, dims):
    n = ZERO
    for i, k in zip(idx, dims):
        n = T.add(T.mul(n, k), i)
    return n


def _opaque(t, idx, d):
    if len(d) > 1 and any(n is ONE for n in d) and any(n is not ONE for n in d):
        t = T.reshape(t.args[0], mk('tuple', *[n for n in d if n is not ONE]))
        idx = [i for i, n in zip(idx, d) if n is not ONE]
    return T.getitem(t, ix(*idx))


def _reshaped(t, idx, d, facts, memo):
    src = T._dims(t.args[0])
    if src is None:
        return _opaque(t, idx, d)
    gs = _groups(src, d)
    if gs is None:
        return _opaque(t, idx, d)
    rev = memo.setdefault('lin', {})
    out = []
    for a, b in gs:
        ds, dd = [src[k] for k in a], [d[k] for k in b]
        di = [idx[k] for k in b]
        if len(ds) == len(dd) and all(x is y for x, y in zip(ds, dd)):
            out += di
            continue
        if all(x is ONE for x in ds):
            out += [ZERO] * len(ds)
            continue
        # only unit axes added or dropped
        n1, n2 = [x for x in ds if x is not ONE], [x for x in dd if x is not ONE]
        if len(n1) == len(n2) and all(x is y for x, y in zip(n1, n2)):
            it = iter([i for i, x in zip(di, dd) if x is not ONE])
            out += [ZERO if x is ONE else next(it) for x in ds]
            continue
        flat = _lin(di, dd)
        if len(dd) > 1 or True:
            rev[(flat, tuple(n2))] = [i for i, x in zip(di, dd) if x is not ONE]
        if len(n1) == 1:
            out += [ZERO if x is ONE else flat for x in ds]
            continue
        hit = rev.get((flat, tuple(n1)))
        if hit is None:
            return _opaque(t, idx, d)
        it = iter(hit)
        out += [ZERO if x is ONE else next(it) for x in ds]
    return elem(t.args[0], out, facts, memo)


def _scattered(t, idx, d, facts, memo):
    b, v, lo, hi, pat, val = t.args
    if pat.op != 'ix':
        return T.getitem(t, ix(*idx))
    es = list(pat.args) + [ALL] * (len(d) - len(pat.args))
    at = [p for p, e in enumerate(es) if v in e.fv]
    if len(es) != len(d) or len(at) != 1 or any(e is NONE or e.op in ('ell', 'ixlist', 'range1') or T.is_bool(e) for e in es):
        return T.getitem(t, ix(*idx))
    e = es[at[0]]
    i = idx[at[0]]
    if _scalar(e):
        off = T.sub(e, v)
        if v in off.fv:
            return T.getitem(t, ix(*idx))
        inst = T.sub(i, off)
    elif e.op == 'sl' and e.args[2] is ONE and e.args[1] is not END:
        # consecutive slabs of equal width
        w = T.sub(e.args[1], e.args[0])
        if v in w.fv or T.sub(T.subst(e.args[0], {v: T.add(v, ONE)}), e.args[0]) is not w:
            return T.getitem(t, ix(*idx))
        q = T.floordiv(T.sub(i, T.subst(e.args[0], {v: ZERO})), w)
        if q.op == 'floordiv' or v in q.fv:
            return T.getitem(t, ix(*idx))
        inst = q
    else:
        return T.getitem(t, ix(*idx))
    if not decide(T.sub(inst, lo), facts, memo) or not decide(T.sub(T.sub(hi, inst), ONE), facts, memo):
        return elem(b, idx, facts, memo)
    f = {v: inst}
    st = T.mk('store', b, T.subst(pat, f), T.subst(val, f))
    return elem(st, idx, facts, memo)


def einsum_parts(t):
    """(output letters, [(operand, letters)]) with transposed operands folded in"""
    a = t.args[1:]
    spec = a[0].args[0]
    ins, out = spec.split('->')
    ins = ins.split(',')
    ops = []
    for x, l in zip(a[1:], ins):
        while x.op in ('transpose', 'conj') and (x.op == 'transpose' or x.args[0].op == 'transpose'):
            if x.op == 'transpose':
                perm = x.args[1] or tuple(reversed(range(len(l))))
                # axis j of x is axis perm[j] of the operand
                m = [None] * len(l)
                for j, p in enumerate(perm):
                    m[p] = l[j]
                l = ''.join(m)
                x = x.args[0]
            else:
                y = x.args[0]
                perm = y.args[1] or tuple(reversed(range(len(l))))
                m = [None] * len(l)
                for j, p in enumerate(perm):
                    m[p] = l[j]
                l = ''.join(m)
                x = T.conj(y.args[0])
        ops.append((x, l))
    return out, ops


def _einsum(t, idx, facts, memo):
    """element of an einsum: sum over the contracted letters, held as an opaque 'esum' with one bound variable per letter"""
    out, ops = einsum_parts(t)
    if '.' in out or len(out) != len(idx):
        raise Stuck(t)
    m = dict(zip(out, idx))
    dims = {}
    for x, l in ops:
        dx = T._dims(x)
        if dx is None or len(dx) != len(l):
            raise Stuck(t)
        for c, n in zip(l, dx):
            dims.setdefault(c, n)
    rest = sorted({c for _, l in ops for c in l if c not in m}, key=lambda c: min(''.join(l for _, l in ops).find(c), 99))
    body = ONE
    for c in rest:
        m[c] = T.fresh_var('s', int=True, min=0, real=True, hi=dims[c])
    f2 = tuple(facts) + tuple(x for c in rest for x in (m[c], T.sub(T.sub(dims[c], ONE), m[c])))
    for x, l in ops:
        body = T.mul(body, elem(x, [m[c] for c in l], f2, memo))
    r = body
    for c in reversed(rest):
        r = T.bsum(m[c], ZERO, dims[c], r)
    return r


def cond(c, facts, memo):
    if c is T.TRUE or c is T.FALSE:
        return c is T.TRUE
    if c.op == 'le0':
        return decide(T.neg(c.args[0]), facts, memo)
    if c.op == 'lt0':
        return decide(T.sub(T.neg(c.args[0]), ONE), facts, memo)
    if c.op == 'not':
        return not cond(c.args[0], facts, memo)
    raise Stuck(c)


def equal(a, b, facts=(), limit=64, budget=None):
    """(True, None) when every element agrees; (False, (region, x, y)) for a differing element; None when not decided"""
    da, db = T._dims(a), T._dims(b)
    if da is None or db is None or len(da) != len(db) or any(x is not y and not same(x, y, facts, budget) for x, y in zip(da, db)):
        return None
    d0 = budget.depth if budget is not None else 0
    idx = [_var('e', d0, k, n) for k, n in enumerate(da)]
    if budget is not None:
        budget.depth += 1
    try:
        return _equal(a, b, facts, limit, budget, da, idx)
    finally:
        if budget is not None:
            budget.depth -= 1


_VARS = {}


def _var(kd, depth, k, hi):
    v = _VARS.get((kd, depth, k, hi))
    if v is None:
        v = _VARS[(kd, depth, k, hi)] = T.fresh_var(kd, int=True, min=0, real=True, hi=hi)
    return v


def _equal(a, b, facts, limit, budget, da, idx):
    base = tuple(facts) + tuple(T.sub(T.sub(n, ONE), i) for i, n in zip(idx, da)) + tuple(idx)
    work = [base]
    n = 0
    memo = {}
    while work:
        f = work.pop()
        n += 1
        if n > limit:
            return None
        try:
            x = elem(a, idx, f, memo)
            y = elem(b, idx, f, memo)
        except _Split as s:
            p, q = f + (s.goal,), f + (T.sub(T.neg(s.goal), ONE),)
            work += [q, p]
            continue
        except Stuck:
            return None
        if x is not y and not (budget is not None and same(x, y, f, budget)):
            return False, (f[len(base):], x, y)
    return True, None


class Budget:
    def __init__(self, n=3000, seconds=15):
        self.n = n
        self.memo = {}
        self.depth = 0
        self.end = time.monotonic() + seconds


def same(a, b, facts=(), budget=None):
    """True only if the two values are equal: equal normal forms, arrays element by element, operators operand by operand"""
    if a is b:
        return True
    if budget is None:
        budget = Budget()
        try:
            return same(a, b, facts, budget)
        except RecursionError:
            return False
    k = (a, b, tuple(facts))
    if k in budget.memo:
        return budget.memo[k]
    budget.memo[k] = False
    budget.n -= 1
    if budget.n < 0 or time.monotonic() > budget.end:
        return False
    r = _same(a, b, tuple(facts), budget)
    budget.memo[k] = r
    return r


def _same(a, b, facts, bud):
    if a.op == 'poly' or b.op == 'poly':
        r = _same_poly(a, b, facts, bud)
        if r:
            return True
    elif a.op == b.op:
        if _same_args(a, b, facts, bud):
            return True
    if bud.depth < 8 and T.kind(a) == 'arr' and T.kind(b) == 'arr' and not (a.op == b.op == 'matmul' and len(T._dims(a) or ()) == 0):
        r = equal(a, b, facts, 24, bud)
        return bool(r and r[0])
    return False


def _squeezed(x):
    """array without its unit axes"""
    d = T._dims(x)
    if d is None or not any(n is ONE for n in d):
        return x
    return T.getitem(x, ix(*[ZERO if n is ONE else ALL for n in d]))


def _same_args(a, b, facts, bud):
    op = a.op
    if op in T.BINDERS:
        bi = T.BINDERS[op]
        if len(a.args) != len(b.args) or a.args[bi + 1] is not b.args[bi + 1]:
            return False
        for x, y in zip(a.args[:bi], b.args[:bi]):
            if not _same_any(x, y, facts, bud):
                return False
        hi = a.args[bi + 2]
        if not same(hi, b.args[bi + 2], facts, bud):
            return False
        v = _var('b', bud.depth, 0, hi)
        bud.depth += 1
        try:
            return _same_body(a, b, bi, v, facts, hi, bud)
        finally:
            bud.depth -= 1
    if op == 'call' and a.args[0] == 'einsum' == b.args[0]:
        return False
    if op == 'red' and len(a.args) == len(b.args) and a.args[0] == b.args[0] and a.args[2] is NONE and b.args[2] is NONE and \
            all(x is y for x, y in zip(a.args[3:], b.args[3:])):
        return same(_squeezed(a.args[1]), _squeezed(b.args[1]), facts, bud)
    if len(a.args) != len(b.args):
        return False
    return all(_same_any(x, y, facts, bud) for x, y in zip(a.args, b.args))


def _same_body(a, b, bi, v, facts, hi, bud):
    f2 = facts + (v, T.sub(T.sub(hi, ONE), v))
    for x, y in zip(a.args[bi + 3:], b.args[bi + 3:]):
        if not isinstance(x, T.Term) or not isinstance(y, T.Term):
            if x is not y:
                return False
            continue
        if not _same_any(T.subst(x, {a.args[bi]: v}), T.subst(y, {b.args[bi]: v}), f2, bud):
            return False
    return True


def _same_any(x, y, facts, bud):
    if isinstance(x, T.Term) and isinstance(y, T.Term):
        return same(x, y, facts, bud)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_same_any(p, q, facts, bud) for p, q in zip(x, y))
    return x is y or x == y


def _same_poly(a, b, facts, bud):
    pa, pb = T.topoly(a), T.topoly(b)
    at = lambda p: {x for m in p for x, _ in m}
    A, B = at(pa), at(pb)
    oa, ob = A - B, B - A
    if not oa and not ob or len(oa) > 12 or len(ob) > 12:
        return False
    m = {}
    left = set(oa)
    for y in sorted(ob, key=lambda t: t.key):
        for x in sorted(left, key=lambda t: (t.op != y.op, t.key)):
            if same(x, y, facts, bud):
                m[y] = x
                break
        else:
            for x in sorted(A & B, key=lambda t: t.key):
                if x.op == y.op and same(x, y, facts, bud):
                    m[y] = x
                    break
    if not m:
        return False
    acc = ZERO
    for mono, c in pb.items():
        acc = T.add(acc, T.mul(num(c), *[T.powr(m.get(x, x), e) for x, e in mono]))
    if acc is a:
        return True
    # remaining atoms of a that equal each other
    ra = {}
    for x in sorted(oa - set(m.values()), key=lambda t: t.key):
        for y in sorted(set(m.values()) | (A & B), key=lambda t: t.key):
            if x.op == y.op and same(x, y, facts, bud):
                ra[x] = y
                break
    if not ra:
        return False
    acca = ZERO
    for mono, c in pa.items():
        acca = T.add(acca, T.mul(num(c), *[T.powr(ra.get(x, x), e) for x, e in mono]))
    return acc is acca
