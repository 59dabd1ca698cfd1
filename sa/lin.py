"""Entailment in the polyhedral domain: goal >= 0 from linear facts, with case distinction on piecewise atoms.

Polynomials are linearised by treating every non-constant monomial as a dimension; integer division, remainder, min and
conditional atoms contribute their defining inequalities.  Fourier-Motzkin elimination over exact rationals."""
from fractions import Fraction as Fr

from . import terms as T
from .terms import mk, num, ZERO, ONE


def lin(t):
    """{monomial: coeff} with () the constant"""
    return {m: c for m, c in T.topoly(t).items() if c}


def atoms(ts, acc=None):
    acc = {} if acc is None else acc
    for t in ts:
        for m in T.topoly(t):
            for a, e in m:
                if a not in acc:
                    acc[a] = 1
                    if a.op in ('min0',):
                        atoms([a.args[0]], acc)
                    if a.op in ('floordiv', 'mod'):
                        atoms(a.args, acc)
    return acc


def axioms(ts):
    """facts that define the atoms occurring in the terms (each fact is a term known >= 0)"""
    out = []
    for a in atoms(ts):
        lb = T.lower(a)
        if lb is not None:
            out.append(T.sub(a, num(lb)))
        if a.op == 'min0':
            out.append(T.neg(a))
            out.append(T.sub(a.args[0], a))
        elif a.op == 'mod':
            out.append(a)
            out.append(T.sub(T.sub(a.args[1], ONE), a))
            if T.nonneg(a.args[0]):
                out.append(T.sub(a.args[0], a))
        elif a.op == 'floordiv':
            x, y = a.args
            p = T.mul(a, y)
            out.append(T.sub(x, p))
            out.append(T.sub(T.add(p, T.sub(y, ONE)), x))
        elif a.op == 'ceil':
            out.append(T.sub(a, a.args[0]))
            out.append(T.sub(T.add(a.args[0], ONE), a))
        elif a.op == 'neg':
            pass
    return out


def cond_facts(c, val):
    """terms >= 0 known when condition c has the given truth value; None if c is not arithmetic; list of alternatives"""
    if c.op == 'le0':
        p = c.args[0]
        if val:
            return [[T.neg(p)]]
        return [[T.sub(p, ONE) if T.is_int(p) else p]]
    if c.op == 'lt0':
        p = c.args[0]
        if val:
            return [[T.sub(T.neg(p), ONE) if T.is_int(p) else T.neg(p)]]
        return [[p]]
    if c.op == 'eq0':
        p = c.args[0]
        if val:
            return [[p, T.neg(p)]]
        if T.is_int(p):
            return [[T.sub(p, ONE)], [T.sub(T.neg(p), ONE)]]
        return [[p], [T.neg(p)]]
    if c.op == 'not':
        return cond_facts(c.args[0], not val)
    if c.op == 'and' and val or c.op == 'or' and not val:
        alts = [[]]
        for x in c.args:
            f = cond_facts(x, val)
            if f is None:
                continue
            alts = [a + b for a in alts for b in f]
        return alts
    if c.op == 'and' or c.op == 'or':
        out = []
        for x in c.args:
            f = cond_facts(x, val)
            if f is None:
                return [[]]
            out += f
        return out
    return None


def infeasible(facts, limit=4000):
    """Fourier-Motzkin: no real point satisfies all facts (each: dict monomial->coeff, meaning sum >= 0)"""
    rows = []
    for f in facts:
        d = {m: c for m, c in f.items() if c}
        rows.append(d)
    rows = _dedup(rows)
    while True:
        for r in rows:
            if not [m for m in r if m] and r.get((), 0) < 0:
                return True
        dims = {}
        for r in rows:
            for m, c in r.items():
                if m:
                    p = dims.setdefault(m, [0, 0])
                    p[0 if c > 0 else 1] += 1
        if not dims:
            return False
        m = min(dims, key=lambda k: dims[k][0] * dims[k][1] - dims[k][0] - dims[k][1])
        pos = [r for r in rows if r.get(m, 0) > 0]
        neg = [r for r in rows if r.get(m, 0) < 0]
        rest = [r for r in rows if not r.get(m, 0)]
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        for a in pos:
            for b in neg:
                ca, cb = a[m], -b[m]
                d = {}
                for k, v in a.items():
                    d[k] = d.get(k, 0) + v * cb
                for k, v in b.items():
                    d[k] = d.get(k, 0) + v * ca
                rest.append({k: v for k, v in d.items() if v and k != m})
        rows = _dedup(rest)


def _dedup(rows):
    out = {}
    for r in rows:
        lead = [abs(c) for m, c in r.items() if m]
        s = max(lead) if lead else Fr(1)
        k = tuple(sorted(((m, c / s) for m, c in r.items() if m), key=lambda x: repr([(a.key, e) for a, e in x[0]])))
        c = r.get((), Fr(0)) / s
        if not k and c >= 0:
            continue
        if k not in out or c < out[k]:
            out[k] = c
    return [dict(list(k) + [((), c)]) for k, c in out.items()]


def splits(ts):
    """piecewise atoms to case-split on: (condition, atom, value-if-true, value-if-false)"""
    for a in atoms(ts):
        if a.op == 'min0':
            x = a.args[0]
            yield a, [([T.neg(x)], x), ([x], ZERO)]
            return
        if a.op == 'ite':
            c, p, q = a.args
            f1, f0 = cond_facts(c, True), cond_facts(c, False)
            if f1 is None:
                f1, f0 = [[]], [[]]
            yield a, [(f, p) for f in f1] + [(f, q) for f in f0]
            return


def prove(goal, hyps=(), products=(), depth=14):
    """goal >= 0 in every case; hyps: terms known >= 0; products: pairs of facts whose product is also a fact"""
    hyps = list(hyps)
    ts = [goal] + hyps
    for a, cases in splits(ts):
        if depth <= 0:
            return False
        for facts, val in cases:
            m = {a: val}
            g2 = T.subst(goal, m)
            h2 = [T.subst(h, m) for h in hyps] + [T.subst(f, m) for f in facts]
            p2 = [(T.subst(x, m), T.subst(y, m)) for x, y in products]
            if not prove(g2, h2, p2, depth - 1):
                return False
        return True
    fs = list(hyps) + [T.mul(x, y) for x, y in products]
    fs += axioms(ts + fs)
    # strict negation: goal <= -1 for integers, goal < 0 otherwise (approximated by goal <= -eps via scaling)
    gi = T.is_int(goal)
    ng = T.sub(T.neg(goal), ONE) if gi else T.sub(T.neg(goal), num(Fr(1, 10 ** 9)))
    return infeasible([lin(x) for x in fs + [ng]])


def prove_eq(a, b, hyps=(), products=()):
    d = T.sub(a, b)
    if d is ZERO:
        return True
    return prove(d, hyps, products) and prove(T.neg(d), hyps, products)
