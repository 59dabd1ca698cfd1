"""Loop summarisation: recurrences are turned into closed normal forms
(sums, scatters, comprehensions, searches) where a rule applies; anything else
becomes an opaque `rec` term named by its own defining equation, so that two
loops computing the same recurrence still get the same name."""
from . import terms as T
from .terms import Term, mk, num, ix, NONE, TRUE, FALSE, ZERO, ONE, UNDEF, ALL, END


def elem_kind(t):
    """kind of the elements of container term t, or None"""
    while isinstance(t, Term):
        if t.op == 'store' or t.op == 'scatter':
            v = t.args[2] if t.op == 'store' else t.args[5]
            k = T.kind(v)
            if k != 'obj':
                return k
            t = t.args[0]
        elif t.op == 'ite':
            return elem_kind(t.args[1]) or elem_kind(t.args[2])
        elif t.op == 'listcomp':
            return T.kind(t.args[5])
        elif t.op == 'append':
            return T.kind(t.args[1])
        elif t.op in ('list', 'rep') and t.args:
            return T.kind(t.args[0])
        elif t.op in ('sym', 'var'):
            return T.info(t).get('elem')
        else:
            return None
    return None


def elem_term(t):
    while isinstance(t, Term):
        if t.op == 'store':
            return t.args[2]
        if t.op == 'scatter':
            return t.args[5]
        if t.op == 'ite':
            return elem_term(t.args[1]) or elem_term(t.args[2])
        if t.op == 'listcomp':
            return t.args[5]
        if t.op == 'append':
            return t.args[1]
        return None


def depends(t, vs):
    return bool(t.fv & vs)


class Unsolved(Exception):
    pass


class SymLoop:
    def __init__(self, ip, s, v, n, bind, body, fr, st, orelse=None):
        self.ip, self.s, self.v, self.n, self.bind = ip, s, v, n, bind
        self.body, self.fr, self.st, self.orelse = body, fr, st, orelse
        self.locs = {}          # loc -> (phi term, meta)
        self.pc0 = st.pc

    # ---------------------------------------------------------- locations
    def get(self, st, loc):
        k = loc[0]
        if k == 'env':
            return st.env.get(loc[1], UNDEF)
        if k == 'inst':
            return st.inst.get(loc[1], {}).get(loc[2], UNDEF)
        if k == 'item':
            c = st.heap[loc[1]]
            if c.items is None:
                return T.getitem(c.term, ix(loc[2] if isinstance(loc[2], Term) else num(loc[2])))
            if c.kind == 'list':
                return c.items[loc[2]]
            return dict(c.items).get(loc[2], UNDEF)
        return self.ip.cell_term(st, loc[1])

    def setv(self, st, loc, v):
        k = loc[0]
        if k == 'env':
            st.env[loc[1]] = v
        elif k == 'inst':
            st.inst[loc[1]][loc[2]] = v
        elif k == 'item':
            c = st.heap[loc[1]]
            if c.kind == 'list':
                it = list(c.items)
                it[loc[2]] = v
            else:
                it = [(a, v if a is loc[2] else b) for a, b in c.items]
            st.heap[loc[1]] = c.but(items=tuple(it))
        else:
            c = st.heap[loc[1]]
            st.heap[loc[1]] = c.but(term=v, items=None)

    def vk(self, v, st):
        if v is UNDEF:
            return None
        return self.ip.vkind(v, st)

    def wrap(self, st, loc, term, proto):
        """a value for `loc` holding `term`"""
        if loc[0] == 'cell':
            return term
        k = T.kind(term)
        if k in ('arr', 'list', 'dict'):
            return self.ip.new(st, k, term)
        return term

    # ------------------------------------------------------------ phases
    def make_phi(self, loc, init, it, nt):
        kd = None
        for t in (it, nt):
            if isinstance(t, Term) and t not in (UNDEF, NONE):
                kd = T.kind(t)
                if kd != 'obj':
                    break
        inf = {'kind': kd or 'sc', 'phi': True}
        ts = [t for t in (it, nt) if isinstance(t, Term) and t is not UNDEF]
        nn = [t for t in ts if t is not NONE]
        if len(nn) != len(ts):
            inf['maybe_none'] = True
        if kd == 'sc' and nn and len(nn) == len(ts):
            if all(T.is_int(t) for t in nn):
                inf['int'] = True
            if all(self.ip.models.is_real(t) for t in nn):
                inf['real'] = True
            if all(T.is_bool(t) for t in nn):
                inf['bool'] = True
        if kd in ('arr', 'list', 'dict'):
            if all(self.ip.models.is_real(t) for t in nn):
                inf['real'] = True
            e = None
            for t in nn:
                e = e or elem_kind(t)
            if e:
                inf['elem'] = e
            if kd == 'arr':
                for t in nn:
                    nd = self.ip.models.ndim_of(t)
                    if nd is not None:
                        inf['ndim'] = nd
                        break
            for t in nn:
                x = elem_term(t)
                if x is not None and T.is_int(x):
                    inf['elem_int'] = True
                    break
        nm = '.'.join(str(x) for x in loc[1:] if not isinstance(x, Term))
        return T.fresh_var('φ' + nm, **inf)

    def exec_body(self, st):
        """run one iteration; returns (end state or None, breaks, returns)"""
        ctl = {'break': [], 'continue': [], 'return': []}
        self.fr.loops.append(ctl)
        self.bind(st)
        live = self.ip.block(self.body, self.fr, st)
        self.fr.loops.pop()
        ends = ([st.copy()] if live and not st.dead else []) + ctl['continue']
        end = self.ip.merge_states(ends, self.pc0b)
        return end, ctl['break'], ctl['return']

    def install(self, st, values):
        for loc, v in values.items():
            if loc[0] == 'item' and st.heap[loc[1]].items is None:
                continue
            self.setv(st, loc, self.wrap(st, loc, v, None))

    def diff(self, base, installed, end):
        """locations of `base` changed in `end` w.r.t. the installed state"""
        out = []
        ip = self.ip
        for nme in list(end.env):
            a, b = installed.env.get(nme, UNDEF), end.env[nme]
            if a is b or (not isinstance(a, Term) and a == b):
                continue
            if isinstance(a, Term) and isinstance(b, Term) and a is b:
                continue
            out.append(('env', nme))
        for nme in installed.env:
            if nme not in end.env:
                out.append(('env', nme))
        for cid in base.heap:
            a, b = installed.heap.get(cid), end.heap.get(cid)
            if a is b or b is None:
                continue
            if a.items is not None and b.items is not None and a.kind == b.kind:
                if a.kind == 'list' and len(a.items) == len(b.items):
                    for i, (x, y) in enumerate(zip(a.items, b.items)):
                        if not (x is y or (not isinstance(x, Term) and x == y)):
                            out.append(('item', cid, i))
                    continue
                if a.kind == 'dict' and [k for k, _ in a.items] == [k for k, _ in b.items]:
                    for (k, x), (_, y) in zip(a.items, b.items):
                        if not (x is y or (not isinstance(x, Term) and x == y)):
                            out.append(('item', cid, k))
                    continue
            if ip.cell_term(installed, cid) is ip.cell_term(end, cid):
                continue
            out.append(('cell', cid))
        for iid in base.inst:
            a, b = installed.inst[iid], end.inst.get(iid, {})
            for k in set(a) | set(b):
                x, y = a.get(k, UNDEF), b.get(k, UNDEF)
                if x is y or (not isinstance(x, Term) and x == y):
                    continue
                out.append(('inst', iid, k))
        return out

    def run(self):
        ip, st = self.ip, self.st
        base_pc = st.pc
        self.pc0b = base_pc
        infacts = ()
        if self.n is not None:
            if T.le(self.n, ZERO) is TRUE:
                if self.orelse:
                    return self.ip.block(self.orelse, self.fr, st)
                return True
            infacts = (T.lt(self.v, self.n),)
        self.infacts = tuple(f for f in infacts if f not in (TRUE, FALSE))
        # ---- discovery
        ip.quiet += 1
        try:
            phis = {}
            nexts = {}
            ws = None
            for rnd in range(8):
                ws = st.copy()
                ws.facts = ws.facts + self.infacts
                self.install(ws, {l: p for l, p in phis.items()})
                inst0 = ws.copy()
                end, brk, ret = self.exec_body(ws)
                if end is None:
                    # body never completes an iteration normally
                    break
                ch = self.diff(st, inst0, end)
                new = [l for l in ch if l not in phis]
                # a cell turned from items into term form invalidates item locations
                for l in list(new):
                    if l[0] == 'cell':
                        for q in [q for q in phis if q[0] == 'item' and q[1] == l[1]]:
                            del phis[q]
                bad = []
                nexts = {}
                for l in list(phis):
                    if l[0] == 'item' and ('cell', l[1]) in phis:
                        del phis[l]
                        continue
                    nv = self.get(end, l)
                    nexts[l] = self.tv(nv, end)
                    it = self.tv(self.get(st, l), st)
                    p2 = self.kind_sig(l, it, nexts[l])
                    if p2 != self.sigs[l]:
                        bad.append((l, it, nexts[l]))
                for l, it, nt in bad:
                    self.sigs[l] = self.kind_sig(l, it, nt)
                    phis[l] = self.make_phi(l, None, it, nt)
                for l in new:
                    it = self.tv(self.get(st, l), st)
                    nt = self.tv(self.get(end, l), end)
                    if not hasattr(self, 'sigs'):
                        self.sigs = {}
                    self.sigs[l] = self.kind_sig(l, it, nt)
                    phis[l] = self.make_phi(l, None, it, nt)
                if not new and not bad:
                    break
            else:
                ip.note_unknown('loop discovery did not converge', self.s)
        finally:
            ip.quiet -= 1
        inits = {l: self.tv(self.get(st, l), st) for l in phis}
        self.inits, self.phis = inits, phis
        vs = frozenset(phis.values())
        end_live = end is not None
        closed, solved = {}, {}
        if end_live:
            nexts = {l: self.tv(self.get(end, l), end) for l in phis}
            # residual path condition of the iteration end (continue merged) is ignored: all paths continue
            closed, solved, nexts = self.solve(phis, inits, nexts, vs)
        # closed[l]: term for value at start of iteration v   (scalars / whole replacements)
        # ---- trip count with breaks
        # final pass, with effects
        info = self.loopinfo(phis, inits, nexts, closed)
        ws = st.copy()
        ws.facts = ws.facts + self.infacts
        cid0 = ip.cellc
        vals = {}
        for l, p in phis.items():
            vals[l] = closed.get(l, p)
        self.install(ws, vals)
        info.cell0 = ip.cellc + 1      # cells of the body have higher numbers
        ip.loopctx.append((self.v, self.n, self.s, info))
        ne0 = len(ip.effects)
        end, brk, ret = self.exec_body(ws)
        ip.loopctx.pop()
        # effects: reads of scattered cells at their own index see the initial content
        self.fixmap = {}
        for l, sol in solved.items():
            if sol[0] == 'elem':
                self.fixmap[phis[l]] = (sol[1], inits[l], sol[2])
        if self.fixmap:
            for e in ip.effects[ne0:]:
                e.args = self.fix_args(e.args)
                if e.guard.fv & vs:
                    e.guard = self.fix(e.guard)
        n_eff, bconds, rconds = self.exits(brk, ret, phis, closed, vs)
        return self.after(st, base_pc, end, brk, ret, n_eff, bconds, rconds, phis, inits, nexts, closed, solved, cid0, vs, info)

    def kind_sig(self, l, it, nt):
        p = []
        for t in (it, nt):
            if not isinstance(t, Term) or t is UNDEF:
                p.append(None)
            elif t is NONE:
                p.append('none')
            else:
                p.append((T.kind(t), T.is_int(t), elem_kind(t) if T.kind(t) in ('list', 'dict') else None))
        k = next((x[0] for x in p if isinstance(x, tuple) and x[0] != 'obj'), None)
        return (k, all(x[1] for x in p if isinstance(x, tuple)), any(x == 'none' for x in p),
                next((x[2] for x in reversed(p) if isinstance(x, tuple) and x[2]), None))

    def tv(self, v, st):
        if isinstance(v, Term):
            return v
        try:
            return self.ip.val(v, st)
        except Exception:
            return mk('unk', 'value', repr(type(v)))

    # ------------------------------------------------------------ solving
    def at(self, t, k):
        return T.subst(t, {self.v: k})

    def solve(self, phis, inits, nexts, vs):
        v = self.v
        nexts = dict(nexts)
        closed = {}
        solved = {}
        for _ in range(len(phis) + 2):
            changed = False
            for l in list(phis):
                if l in closed or l in solved:
                    continue
                phi, nt, it = phis[l], nexts[l], inits[l]
                r = self.solve1(phi, it, nt, vs)
                if r is None:
                    continue
                changed = True
                if r[0] == 'closed':
                    closed[l] = r[1](v)
                    solved[l] = r
                    sub = {phi: closed[l]}
                    for q in nexts:
                        if nexts[q].fv & frozenset([phi]):
                            nexts[q] = T.subst(nexts[q], sub)
                else:
                    solved[l] = r
                    if r[0] == 'elem':
                        # other recurrences may read this container at the written index
                        for q in nexts:
                            if q != l and phi in nexts[q].fv:
                                nexts[q] = self.fix1(nexts[q], phi, r[1], inits[l], r[2])
            if not changed:
                break
        return closed, solved, nexts

    def lt_v(self, init, f):
        """value at start of iteration k of 'assigned every iteration'"""
        def g(k):
            if k is ZERO:
                return init
            prev = T.subst(f, {self.v: T.sub(k, ONE)})
            if prev is init:
                return init
            return T.ite(T.le(k, ZERO), init, prev)
        return g

    def solve1(self, phi, it, nt, vs):
        v = self.v
        if nt is phi:
            return ('closed', lambda k: it)
        if not (nt.fv & vs):
            if v not in nt.fv and nt is it:
                return ('closed', lambda k: it)
            return ('closed', self.lt_v(it, nt))
        kd = T.kind(phi)
        # conditional keep:  ite(c, x, phi)
        if nt.op == 'ite' and not (nt.args[0].fv & vs):
            c, a, b = nt.args
            if b is phi or a is phi:
                cond, upd = (c, a) if b is phi else (T.not_(c), b)
                if kd == 'list' and upd.op == 'append' and upd.args[0] is phi and not (upd.args[1].fv & vs):
                    return ('list', cond, upd.args[1])
                if kd == 'arr':
                    d = T.sub(upd, phi)
                    if not (d.fv & vs):
                        d2 = T.mul(T.b2i(cond), d)
                        return ('closed', lambda k: T.add(it, self.bsum(d2, k)))
        # additive
        if kd in ('sc', 'arr') and it not in (UNDEF, NONE) and it.op != 'str' and T.kind(it) in ('sc', 'arr'):
            d = T.sub(nt, phi)
            if not (d.fv & vs):
                return ('closed', lambda k: T.add(it, self.bsum(d, k)))
        if kd in ('sc', 'arr') and nt.op == 'poly':
            r = self.solve_mean(phi, it, nt, vs)
            if r is not None:
                return r
        if kd == 'list' and nt.op == 'append' and nt.args[0] is phi and not (nt.args[1].fv & vs):
            return ('list', TRUE, nt.args[1])
        if nt.op in ('store', 'scatter', 'ite'):
            r = self.solve_store(phi, it, nt, vs)
            if r is not None:
                return r
        return None

    def solve_mean(self, phi, it, nt, vs):
        """running mean:  phi' = (v phi + a(v)) / (v + 1)"""
        v = self.v
        co, rest = ZERO, ZERO
        for c, m in nt.args[0]:
            t = num(c)
            for a, e in m:
                if a is not phi:
                    t = T.mul(t, T.powr(a, e))
            if any(a is phi for a, e in m):
                if any(a is phi and e != 1 for a, e in m):
                    return None
                co = T.add(co, t)
            else:
                rest = T.add(rest, t)
        if co.fv & vs or rest.fv & vs:
            return None
        u = T.fresh_var('u', int=True, min=1, real=True)
        if T.subst(co, {v: T.sub(u, ONE)}) is not T.sub(ONE, T.div(ONE, u)):
            return None
        w = T.subst(T.mul(T.subst(rest, {v: T.sub(u, ONE)}), u), {u: T.add(v, ONE)})
        return ('mean', w)

    def bsum(self, d, k):
        x = T.fresh_var('k', int=True, min=0, real=True)
        return T.bsum(x, ZERO, k, T.subst(d, {self.v: x}))

    # store-like recurrences --------------------------------------------
    def inj(self, idx, v):
        """does idx take pairwise disjoint values over iterations?"""
        for p, e in enumerate(idx.args):
            if e.op in ('ell', 'none', 'ixlist'):
                continue
            if e.op == 'sl':
                lo, hi, stp = e.args
                if stp is ONE and v in lo.fv and hi is not END:
                    # [lo(v), hi(v)) with lo(v+1) == hi(v), or non-overlap by linear stride
                    nlo = T.subst(lo, {v: T.add(v, ONE)})
                    if T.le(hi, nlo) is TRUE:
                        return p
                continue
            if T.kind(e) != 'sc' or v not in e.fv:
                continue
            d = T.sub(T.subst(e, {v: T.add(v, ONE)}), e)
            if d.op == 'num' and d.args[0] != 0:
                return p
            if v not in d.fv and (T.pos(d) or T.pos(T.neg(d))):
                return p
        # tuple keys / formatted strings containing v
        for p, e in enumerate(idx.args):
            if e.op in ('tuple', 'cat', 'fmt', 'path') and v in e.fv:
                if any(x is v for x in T.subterms(e)):
                    return p
        return None

    def solve_store(self, phi, it, nt, vs):
        v = self.v
        only = vs - frozenset([phi])
        if nt.fv & only:
            return None
        # container allocated in the first iteration:  if v == 0: phi = base
        first = T.eq(v, ZERO)
        if it in (NONE, UNDEF) and v in nt.fv:
            yes, no = self.under(nt, first, True), self.under(nt, first, False)
            base = self.root(yes)
            if yes is not nt and base is not None and base is not phi and not (base.fv & vs) and v not in base.fv \
                    and T.subst(no, {phi: base, v: ZERO}) is T.subst(yes, {v: ZERO}):
                r = self.solve_core(phi, base, no, vs)
                if r is not None:
                    return ('lazy', base, TRUE, r)
        # lazily created container:  ite(phi is None, A, phi)
        isnone = T.eq(phi, NONE) if T.may_be_none(phi) else None
        if isnone is not None and it is NONE and isnone is not FALSE:
            fresh = T.subst(nt, {})
            yes = self.under(nt, isnone, True)
            no = self.under(nt, isnone, False)
            # container allocated by the first write
            base = self.root(yes)
            if base is not None and not (base.fv & vs) and v not in base.fv:
                g, core = self.guarded(no, phi)
                r = self.solve_core(phi, base, core, vs)
                if r is not None:
                    return ('lazy', base, g, r)
            return None
        return self.solve_core(phi, it, nt, vs)

    def guarded(self, t, phi):
        return TRUE, t

    def under(self, t, c, val):
        n = T.not_(c)

        def f(x):
            if x is c:
                return TRUE if val else FALSE
            if x is n:
                return FALSE if val else TRUE
            return None
        return T.rewrite(t, f)

    def root(self, t):
        while t.op in ('store', 'scatter'):
            t = t.args[0]
        if t.op == 'ite':
            a, b = self.root(t.args[1]), self.root(t.args[2])
            if a is NONE or a is UNDEF:
                return b
            if b is NONE or b is UNDEF:
                return a
            if T.info(a).get('phi'):
                return b
            if T.info(b).get('phi'):
                return a
            return a if a is b else None
        return t

    def solve_core(self, phi, it, nt, vs):
        v = self.v
        # peel chain of stores down to phi
        chain = []
        t = nt
        while t is not phi:
            if t.op == 'store':
                chain.append(('s', t.args[1], t.args[2]))
                t = t.args[0]
            elif t.op == 'scatter':
                chain.append(('x',) + t.args[1:])
                t = t.args[0]
            elif t.op == 'ite':
                c, a, b = t.args
                if c.fv & vs:
                    return None
                # conditional single store on one side
                if b is phi and a.op == 'store' and a.args[0] is phi:
                    chain.append(('s', a.args[1], T.ite(c, a.args[2], T.getitem(phi, a.args[1]))))
                    t = phi
                elif a is phi and b.op == 'store' and b.args[0] is phi:
                    chain.append(('s', b.args[1], T.ite(c, T.getitem(phi, b.args[1]), b.args[2])))
                    t = phi
                elif b is phi and a.op == 'scatter' and a.args[0] is phi:
                    _, v2, lo, hi, pat, val = a.args
                    chain.append(('x', v2, lo, hi, pat, T.ite(c, val, T.getitem(phi, pat))))
                    t = phi
                elif a is phi and b.op == 'scatter' and b.args[0] is phi:
                    _, v2, lo, hi, pat, val = b.args
                    chain.append(('x', v2, lo, hi, pat, T.ite(c, T.getitem(phi, pat), val)))
                    t = phi
                else:
                    return None
            else:
                return None
        chain.reverse()
        if len(chain) == 1:
            return self.solve_link(phi, it, chain[0], vs)
        # several writes per iteration: must address disjoint parts
        rs = []
        for link in chain:
            r = self.solve_link(phi, it, link, vs)
            if r is None or r[0] not in ('elem', 'map'):
                return None
            rs.append(r)
        for i, a in enumerate(rs):
            for b in rs[i + 1:]:
                if not self.disjoint(a, b):
                    return None
        return ('multi', rs)

    def disjoint(self, a, b):
        pa = a[1] if a[0] == 'elem' else a[4]
        pb = b[1] if b[0] == 'elem' else b[4]
        x = T.fresh_var('q', int=True, min=0)
        for p, q in zip(pa.args, pb.args):
            if p.op == 'num' and q.op == 'num' and p is not q:
                return True
            if p.op == 'str' and q.op == 'str' and p is not q:
                return True
        return False

    def solve_link(self, phi, it, link, vs):
        v = self.v
        if link[0] == 's':
            _, idx, val = link
            if T.kind(it) == 'arr':
                idx = T.norm_ix(it, idx)
            p = self.inj(idx, v)
            if p is not None:
                val2 = self.fix1(val, phi, idx, it, None)
                if phi in val2.fv:
                    # prefix recurrence  a[v+1] = a[v] + d
                    r = self.prefix(phi, it, idx, val2, vs)
                    if r is not None:
                        return r
                    return None
                return ('elem', idx, val2)
            # fixed index: element recurrence
            if v not in idx.fv:
                el = T.getitem(phi, idx)
                rv = T.fresh_var('ρ', **dict(T.info(phi), kind=T.kind(val) if T.kind(val) != 'obj' else 'sc'))
                val2 = T.rewrite(val, lambda x: rv if x is el else None)
                if phi in val2.fv:
                    return None
                r = self.solve1(rv, T.getitem(it, idx), val2, frozenset([rv]))
                if r is None:
                    return None
                return ('fixed', idx, r, rv)
            return None
        # inner scatter over bound variable
        _, w, lo, hi, pat, val = link
        f = T.fresh_var('m', int=True, min=0, real=True)
        pat2, val2 = T.subst(pat, {w: f}), T.subst(val, {w: f})
        el = T.getitem(phi, pat2)
        p = self.inj(pat2, v)
        if p is not None and f not in pat2.args[p].fv:
            # disjoint per outer iteration
            val3 = self.fix1(val2, phi, pat2, it, None)
            if phi in val3.fv:
                return None
            return ('elem2', f, hi, pat2, val3)
        if v in hi.fv:
            return None
        if v in pat2.fv:
            return None
        rv = T.fresh_var('ρ', **dict(T.info(phi), kind=T.kind(val2) if T.kind(val2) != 'obj' else 'sc',
                                      elem=elem_kind(val2)))
        val3 = T.rewrite(val2, lambda x: rv if x is el else None)
        if phi in val3.fv:
            return None
        if rv not in val3.fv:
            r = ('closed', self.lt_v(T.getitem(it, pat2), val3))
        else:
            r = self.solve1(rv, T.getitem(it, pat2), val3, frozenset([rv]))
        if r is None:
            return None
        return ('map', f, hi, r, pat2, rv)

    def prefix(self, phi, it, idx, val, vs):
        v = self.v
        if len(idx.args) != 1:
            return None
        e = idx.args[0]
        if T.sub(e, v) is not ONE:
            return None
        prev = T.getitem(phi, ix(v))
        d = T.sub(val, prev)
        if d.fv & vs:
            return None
        x = T.fresh_var('k', int=True, min=0, real=True)
        tot = T.add(T.getitem(it, ix(ZERO)), T.bsum(x, ZERO, T.add(v, ONE), T.subst(d, {v: x})))
        # value read in the body at a[v]
        cur = T.add(T.getitem(it, ix(ZERO)), T.bsum(x, ZERO, v, T.subst(d, {v: x})))
        return ('elem', idx, tot, {prev: cur})

    def fix1(self, t, phi, idx, it, _val):
        if phi not in t.fv:
            return t
        want = T.getitem(phi, idx)
        v = self.v

        def f(x):
            if x is want:
                return T.getitem(it, idx)
            if x.op == 'getitem' and x.args[0] is phi:
                # deeper read through the same element
                if len(x.args[1].args) > len(idx.args) and x.args[1].args[:len(idx.args)] == idx.args:
                    return T.getitem(it, x.args[1])
            return None
        r = T.rewrite(t, f)
        return r

    def final(self, sol, it, k):
        """value after k iterations"""
        v = self.v
        kind = sol[0]
        if kind == 'closed':
            return sol[1](k)
        if kind == 'list':
            x = T.fresh_var('k', int=True, min=0, real=True)
            m = {v: x}
            return T.listcomp(it, x, ZERO, k, T.subst(sol[1], m), T.subst(sol[2], m))
        if kind == 'elem':
            x = T.fresh_var('k', int=True, min=0, real=True)
            m = {v: x}
            return T.scatter(it, x, ZERO, k, T.subst(sol[1], m), T.subst(sol[2], m))
        if kind == 'elem2':
            _, f, hi, pat, val = sol
            x = T.fresh_var('k', int=True, min=0, real=True)
            m = {v: x}
            inner_hi = T.subst(hi, m)
            # two-dimensional scatter, inner variable first
            t = T.scatter(mk('hole'), f, ZERO, inner_hi, T.subst(pat, m), T.subst(val, m))
            return T.scatter2(it, x, k, f, inner_hi, T.subst(pat, m), T.subst(val, m))
        if kind == 'map':
            _, f, hi, r, pat, rv = sol
            val = self.final(r, T.getitem(it, pat), k)
            return T.scatter(it, f, ZERO, hi, pat, val)
        if kind == 'fixed':
            _, idx, r, rv = sol
            return T.store(it, idx, self.final(r, T.getitem(it, idx), k))
        if kind == 'mean':
            if not T.pos(k):
                raise Unsolved(kind)
            return T.div(self.bsum(sol[1], k), k)
        if kind == 'multi':
            t = it
            for r in sol[1]:
                t = self.final(r, t, k)
            return t
        if kind == 'lazy':
            _, base, g, r = sol
            return self.final(r, base, k)
        raise Unsolved(kind)

    # ------------------------------------------------------------- fixes
    def fix(self, t):
        for phi, (idx, it, val) in self.fixmap.items():
            if phi in t.fv:
                t = self.fix1(t, phi, idx, it, val)
        return t

    def fix_args(self, a):
        if isinstance(a, Term):
            return self.fix(a) if a.fv else a
        if isinstance(a, dict):
            return {k: self.fix_args(x) for k, x in a.items()}
        if isinstance(a, list):
            return [self.fix_args(x) for x in a]
        if isinstance(a, tuple):
            return tuple(self.fix_args(x) for x in a)
        return a

    def loopinfo(self, phis, inits, nexts, closed):
        from .interp import LoopInfo
        info = LoopInfo(self.v, self.n, self.ip.site(self.s), self.ip.callstack[-1][0] if self.ip.callstack else '')
        for l, p in phis.items():
            info.eqs[l] = (p, inits.get(l), nexts.get(l))
        info.closed = closed
        if not self.ip.quiet:
            self.ip.loops.append(info)
        return info

    # ------------------------------------------------------------- exits
    def exits(self, brk, ret, phis, closed, vs):
        k = len(self.pc0b)

        def cond(s):
            return T.and_(*s.pc[k:]) if len(s.pc) > k else TRUE
        b = [cond(s) for s in brk if not s.dead]
        r = [cond(s) for s, _, _ in ret if not s.dead]
        self.deadconds = []
        if not b and not r:
            return self.n, b, r
        return self.n, b, r

    def first(self, conds):
        """(number of completed iterations before the first exit, condition that the exit happens)"""
        v, n = self.v, self.n
        B = T.or_(*conds)
        if n is None:
            t = self.trip(B)
            return t, TRUE
        x = T.fresh_var('k', int=True, min=0, real=True)
        Bx = T.subst(B, {v: x})
        happens = T.bany(x, ZERO, n, Bx) if v in B.fv or True else B
        if v not in B.fv:
            happens = T.and_(B, T.lt(ZERO, n))
            return ZERO, happens
        bv, hi, (bb,) = T.bind('first', x, ZERO, n, Bx)
        return self.firstterm(bv, hi, bb), happens

    def firstterm(self, bv, hi, bb):
        # monotone affine exit condition: closed trip count
        t = mk('first', bv, ZERO, hi, bb)
        return t

    def trip(self, B):
        v = self.v
        # B == le0(a - c*v)
        if B.op == 'le0':
            p = B.args[0]
            d = T.sub(T.subst(p, {v: T.add(v, ONE)}), p)
            if v not in d.fv and T.pos(T.neg(d)):
                a = T.subst(p, {v: ZERO})
                c = T.neg(d)
                return T.tmax(ZERO, T.ceil_(T.div(a, c)))
        if B.op == 'eq0':
            p = B.args[0]
            d = T.sub(T.subst(p, {v: T.add(v, ONE)}), p)
            if d.op == 'num' and d.args[0] in (1, -1):
                a = T.subst(p, {v: ZERO})
                return T.neg(a) if d.args[0] == 1 else a
        if B.op == 'and':
            # all conditions stay true once they hold
            ts = [self.trip(c) for c in B.args]
            if all(t.op != 'first' for t in ts) and all(c.op == 'le0' for c in B.args):
                return T.tmax(*ts)
        if B is TRUE:
            return ZERO
        x = T.fresh_var('k', int=True, min=0, real=True)
        bv, hi, (bb,) = T.bind('first', x, ZERO, NONE, T.subst(B, {v: x}))
        return mk('first', bv, ZERO, NONE, bb)

    # ------------------------------------------------------------- after
    def after(self, st, base_pc, end, brk, ret, n, bconds, rconds, phis, inits, nexts, closed, solved, cid0, vs, info):
        ip = self.ip
        v = self.v
        brk = [s for s in brk if not s.dead]
        ret = [r for r in ret if not r[0].dead]
        exits_c = bconds + rconds
        if end is None and not brk and not ret:
            # every iteration raises
            st.dead = True if n is None or T.pos(n) else st.dead
            return not st.dead
        # normalise exit conditions with closed forms / own-element reads
        exits_c = [self.fix(c) for c in exits_c]
        if exits_c:
            kx, happens = self.first(exits_c)
        else:
            kx, happens = None, FALSE
        if n is None and not exits_c:
            ip.note_unknown('loop without exit', self.s)
            st.dead = True
            return False
        if n is None and kx is not None and end is not None and kx.op != 'first':
            # iterations that complete have v < kx
            fs = (T.lt(v, kx), T.le(ZERO, v))
            nx2 = {l: self.simp(t, fs) for l, t in nexts.items()}
            if any(nx2[l] is not nexts[l] for l in nexts):
                c2, s2, n2 = self.solve(phis, inits, nx2, vs)
                nexts = n2
                closed.clear()
                closed.update(c2)
                solved.clear()
                solved.update(s2)
                for l, t in nexts.items():
                    if l in info.eqs:
                        info.eqs[l] = (info.eqs[l][0], info.eqs[l][1], t)
        # exits through `while` test: the state at the exit is the iteration-start state
        values = self.values_after(phis, inits, nexts, solved, n if n is not None else kx, vs, info)
        res_states = []
        if n is not None and happens is not TRUE:
            s0 = st.copy()
            s0.pc = base_pc
            self.apply(s0, end, values, n, cid0, closed, phis, solved, inits, nexts, vs, info)
            if self.orelse:
                s0.pc = base_pc + ((T.not_(happens),) if happens is not FALSE else ())
                lv = ip.block(self.orelse, self.fr, s0)
                if not lv:
                    s0.dead = True
            if happens is not FALSE:
                s0.pc = base_pc + (T.not_(happens),)
            if not s0.dead:
                res_states.append(s0)
        kvals = None
        for i, s in enumerate(brk):
            kvals = kvals or self.values_after(phis, inits, nexts, solved, kx, vs, info)
            s1 = self.exit_state(st, s, kx, kvals, cid0, phis, closed, vs, base_pc, happens, exits_c, bconds[i], len(exits_c))
            res_states.append(s1)
        for i, (s, val, node) in enumerate(ret):
            kvals = kvals or self.values_after(phis, inits, nexts, solved, kx, vs, info)
            s1 = self.exit_state(st, s, kx, kvals, cid0, phis, closed, vs, base_pc, happens, exits_c, rconds[i], len(exits_c))
            val = self.subst_val(val, s, s1, kx, kvals, phis, closed, cid0)
            if self.fr.loops:
                self.fr.loops[-1]['return'].append((s1, val, node))
            else:
                self.fr.exits.append(('return', s1, val))
        fin = ip.merge_states(res_states, base_pc)
        if fin is None:
            # only returns continue
            st.dead = not ret
            return False
        if ret and happens is TRUE and not brk:
            return False
        pc = fin.pc
        st.assign(fin)
        st.pc = pc
        return True

    def simp(self, t, facts):
        from .interp import decide

        def fn(x):
            if x.op == 'ite':
                c = decide(x.args[0], facts)
                if c is not x.args[0]:
                    return T.ite(c, x.args[1], x.args[2])
            return None
        return T.rewrite(t, fn) if any(x.op == 'ite' for x in T.subterms(t)) else t

    def exit_state(self, st, s, kx, kvals, cid0, phis, closed, vs, base_pc, happens, exits_c, c, nex):
        m = self.exit_map(kx, kvals, phis, closed)
        s1 = s.copy()
        self.subst_state(s1, m, st, cid0)
        extra = [happens]
        if nex > 1:
            extra.append(T.subst(self.fix(c), m))
        s1.pc = base_pc + tuple(x for x in extra if x is not TRUE)
        s1.facts = st.facts
        return s1

    def exit_map(self, kx, kvals, phis, closed):
        m = {self.v: kx}
        for l, p in phis.items():
            if l in kvals:
                m[p] = kvals[l]
        return m

    def subst_state(self, s, m, st, cid0):
        ks = frozenset(k for k in m if k.op == 'var')
        for cid, c in list(s.heap.items()):
            if st.heap.get(cid) is c:
                continue
            s.heap[cid] = self.subst_cell(c, m, ks)
        for nme, x in list(s.env.items()):
            s.env[nme] = self.sv(x, m, ks)
        for iid, a in s.inst.items():
            for k, x in list(a.items()):
                a[k] = self.sv(x, m, ks)

    def subst_cell(self, c, m, ks):
        if c.items is not None:
            if c.kind == 'list':
                its = tuple(self.sv(x, m, ks) for x in c.items)
            else:
                its = tuple((k, self.sv(x, m, ks)) for k, x in c.items)
            return c.but(items=its, term=T.subst(c.term, m) if c.term is not None else None)
        if c.term is not None and c.term.fv & ks:
            return c.but(term=T.subst(c.term, m))
        return c

    def sv(self, x, m, ks):
        from .interp import Ref, Phi
        if isinstance(x, Term):
            return T.subst(x, m) if x.fv & ks else x
        if isinstance(x, Phi):
            return Phi(T.subst(x.c, m), self.sv(x.a, m, ks), self.sv(x.b, m, ks))
        if isinstance(x, tuple):
            return tuple(self.sv(y, m, ks) for y in x)
        if isinstance(x, Ref) and x.lens:
            return Ref(x.cid, tuple(tuple(T.subst(z, m) if isinstance(z, Term) else z for z in l) for l in x.lens))
        return x

    def subst_val(self, val, s, s1, kx, kvals, phis, closed, cid0):
        m = self.exit_map(kx, kvals, phis, closed)
        return self.sv(val, m, frozenset(m))

    def values_after(self, phis, inits, nexts, solved, k, vs, info):
        out = {}
        pend = []
        for l in phis:
            r = solved.get(l)
            if r is None:
                pend.append(l)
                continue
            try:
                out[l] = self.final(r, inits[l], k)
            except Unsolved:
                pend.append(l)
        if pend:
            # opaque recurrence system named by its own equations
            x = T.fresh_var('k', int=True, min=0, real=True)
            for l in pend:
                # keep only the equations this one depends on
                dep = [l] + sorted((q for q in self.closure(l, [q for q in phis if solved.get(q, ('',))[0] != 'closed'], nexts, phis) if q != l), key=str)
                out[l] = T.rec_system([phis[q] for q in dep], [T.subst(nexts[q], {self.v: x}) for q in dep], [inits[q] for q in dep],
                                      x, k if k is not None else NONE)
        return out

    def closure(self, l, pend, nexts, phis):
        seen, todo = {l}, [l]
        while todo:
            a = todo.pop()
            for q in pend:
                if q not in seen and phis[q] in nexts[a].fv:
                    seen.add(q)
                    todo.append(q)
        return seen

    def apply(self, s0, end, values, n, cid0, closed, phis, solved, inits, nexts, vs, info):
        """write after-loop values into s0 (a copy of the pre-loop state)"""
        from .interp import Ref, Phi
        ip = self.ip
        m = {self.v: T.sub(n, ONE)}
        for l, p in phis.items():
            if l not in closed:
                m[p] = values[l]
        ks = frozenset(m)
        if end is not None:
            # cells created by the body stay reachable through the last iteration
            for cid, c in end.heap.items():
                if cid not in s0.heap:
                    s0.heap[cid] = self.subst_cell(c, m, ks)
            for iid, a in end.inst.items():
                if iid not in s0.inst:
                    s0.inst[iid] = {k: self.sv(x, m, ks) for k, x in a.items()}
        for l in phis:
            t = values[l]
            if l[0] == 'item' and s0.heap[l[1]].items is None:
                continue
            if l[0] == 'cell':
                self.setv(s0, l, t)
                continue
            init = self.get(self.st, l)
            nv = self.get(end, l) if end is not None else init
            if isinstance(nv, Ref) and T.kind(t) in ('arr', 'list', 'dict'):
                pos = T.pos(n)
                r = solved.get(l)
                if pos and r is not None and r[0] == 'closed' and nv.cid in s0.heap and not nv.lens and \
                        ip.val(Ref(nv.cid), s0) is t:
                    self.setv(s0, l, Ref(nv.cid))
                elif init is not UNDEF and isinstance(init, Ref) and ip.val(init, self.st) is t:
                    self.setv(s0, l, init)
                else:
                    c = end.heap.get(nv.cid)
                    self.setv(s0, l, ip.new(s0, T.kind(t) if T.kind(t) != 'obj' else c.kind, t, xr=c.xr if c else False))
            elif not isinstance(nv, (Term, Ref, tuple, Phi)):
                # opaque object: last iteration's
                self.setv(s0, l, nv if init is UNDEF or T.pos(n) else Phi(T.lt(ZERO, n), nv, init))
            elif T.kind(t) in ('arr', 'list', 'dict'):
                self.setv(s0, l, ip.new(s0, T.kind(t), t))
            else:
                self.setv(s0, l, t)
