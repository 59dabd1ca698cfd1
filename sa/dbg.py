import sys, time, ast
from . import terms as T, interp as I, front
from .terms import *
R = front.Repo()
def fn(modname, name):
    m = R.modules[modname]
    for n in ast.walk(m.tree):
        if isinstance(n, ast.FunctionDef) and n.name == name:
            return I.Func(n, m)
def run(modname, name, args, kw=None, st=None, ip=None):
    ip = ip or I.Interp(R); st = st or I.State()
    v = ip.call_func(fn(modname, name), args, kw or {}, None, st)
    return ip, st, v

def lets(t, minsize=4, out=None):
    """pretty print with shared subterms named"""
    cnt = {}
    def walk(x):
        cnt[x] = cnt.get(x, 0) + 1
        if cnt[x] > 1: return
        for c in T.children(x): walk(c)
    walk(t)
    names = {}
    lines = []
    def size(x, memo={}):
        if x not in memo:
            memo[x] = 1 + sum(size(c) for c in T.children(x))
        return memo[x]
    def rb(x):
        if x in names: return names[x]
        ch = T.children(x)
        y = x
        if ch:
            def g(a):
                if isinstance(a, Term): return rb(a)
                if isinstance(a, tuple): return tuple(g(b) for b in a)
                return a
            y = T.mk(x.op, *[g(a) for a in x.args])
        if x is not t and size(x) > 5 and (cnt[x] > 1 or size(y) > 40) and x.op not in ('ix', 'sl'):
            n = f'%{len(names)}'
            names[x] = T.mk('sym', n)
            lines.append(f'{n} = {T.show(y, 30)}')
            return names[x]
        return y
    r = rb(t)
    return '\n'.join(lines + [T.show(r, 30)])
