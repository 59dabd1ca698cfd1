"""Identity of arithmetic terms, decided by evaluating both at rational points (a non-zero rational function of the terms met here vanishes at
such a point only by an accident of probability below 1e-9 per point).  Division by zero yields a free constant, so that a value is defined at a
point exactly when it does not depend on that constant."""
from fractions import Fraction as Fr
import hashlib

from . import terms as T


class Undecided(Exception):
    pass


def leaf(t, salt):
    h = int(hashlib.md5((t.key + ':' + str(salt)).encode()).hexdigest()[:12], 16)
    return Fr(h % 100003 + 1, (h // 100003) % 997 + 1)


def ev(t, env, inv0=Fr(0), salt=0, memo=None, hook=None):
    memo = {} if memo is None else memo

    def go(x):
        if x in memo:
            return memo[x]
        r = memo[x] = go1(x)
        return r

    def go1(x):
        if x in env:
            return env[x]
        if hook is not None:
            h = hook(x, go)
            if h is not None:
                return h
        op = x.op
        if op == 'num':
            v = x.args[0]
            if isinstance(v, (int, Fr)):
                return Fr(v)
            if isinstance(v, float):
                return Fr(v)
            raise Undecided(T.show(x, 2))
        if op == 'bool':
            return x.args[0]
        if op == 'poly':
            s = Fr(0)
            for c, m in x.args[0]:
                p = Fr(c) if not isinstance(c, complex) else None
                if p is None:
                    raise Undecided('complex')
                for a, e in m:
                    v = go(a)
                    if isinstance(e, Fr) and e.denominator == 1:
                        e = int(e)
                    if not isinstance(e, int):
                        raise Undecided('root')
                    if v == 0 and e < 0:
                        v, e = inv0, -e
                    p *= v ** e
                s += p
            return s
        if op == 'ite':
            return go(x.args[1]) if go(x.args[0]) else go(x.args[2])
        if op == 'le0':
            return go(x.args[0]) <= 0
        if op == 'lt0':
            return go(x.args[0]) < 0
        if op == 'eq0':
            return go(x.args[0]) == 0
        if op == 'not':
            return not go(x.args[0])
        if op == 'and':
            return all(go(c) for c in T.children(x))
        if op == 'or':
            return any(go(c) for c in T.children(x))
        if op == 'min0':
            return min(go(x.args[0]), Fr(0))
        if op == 'floordiv':
            return Fr(go(x.args[0]) // go(x.args[1]))
        if op == 'mod':
            return Fr(go(x.args[0]) % go(x.args[1]))
        if op in ('tuple', 'list'):
            return tuple(go(c) for c in x.args)
        if op in ('conj', 'real', 'astype', 'copyof'):
            return go(x.args[0])
        if op in ('sym', 'var', 'red', 'getitem', 'call', 'sum', 'rec'):
            return leaf(x, salt)
        raise Undecided(op + ': ' + T.show(x, 2)[:80])
    return go(t)


def defined(t, env, salt=0, hook=None):
    """value at a point, None when it depends on the outcome of a division by zero"""
    a, b = ev(t, env, Fr(7919, 31), salt, hook=hook), ev(t, env, Fr(-104729, 17), salt, hook=hook)
    return a if a == b else None
