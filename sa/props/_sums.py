"""Sums of consecutive ranges of one axis, joined also where the range bounds are written with a remainder."""
from .. import terms as T
from ..terms import num, ZERO


def parity(x):
    """mod(a, b) as a - b*floordiv(a, b)"""
    if x.op == 'mod' and x.args[1].op == 'num' and x.args[1].args[0] > 0 and T.is_int(x.args[0]):
        return T.sub(x.args[0], T.mul(x.args[1], T.floordiv(*x.args)))
    return None


def collapse(x):
    """ite(c, A, B) as B where c implies A = B (c: a remainder, never negative, is zero)"""
    if x.op != 'ite':
        return None
    c, a, b = x.args
    if c.op not in ('le0', 'eq0'):
        return None
    for s in T.subterms(c.args[0]):
        if s.op == 'floordiv' and s.args[1].op == 'num':
            p = T.sub(s.args[0], T.mul(s.args[1], s))
            m = {s: T.div(s.args[0], s.args[1])}
            if p is c.args[0] and T.subst(a, m) is T.subst(b, m):
                return b
            if c.op == 'le0' and T.sub(T.ONE, p) is c.args[0] and T.subst(a, m) is T.subst(b, m):
                return a
    return None


def whole(t):
    def fn(x):
        y = parity(x)
        if y is not None:
            return y
        return collapse(x)
    return T.rewrite(t, fn)
