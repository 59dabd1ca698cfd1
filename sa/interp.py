"""Interprocedural abstract interpreter.

It walks the syntax tree of the *current* source with a symbolic store and
produces (a) a gated value-flow term for every value, (b) the list of effects
(file writes, collectives, messages, raises, mutations, ...) with the guard and
the loop context under which each happens.  Branches are joined (gated), loops
are summarised by recurrence solving; paths are never enumerated and no solver
or execution of the analysed program is involved.
"""
import ast
from fractions import Fraction as Fr

from . import terms as T
from .terms import (Term, mk, num, string, const, sym, ix, sl, tup, NONE, TRUE, FALSE, ZERO, ONE,
                    UNDEF, ALL, ELL, END)

MAXDEPTH = 60


class Unsupported(Exception):
    pass


# --------------------------------------------------------------- values
class Ref:
    __slots__ = ('cid', 'lens')

    def __init__(self, cid, lens=()):
        self.cid = cid
        self.lens = lens

    def __eq__(self, o):
        return isinstance(o, Ref) and o.cid == self.cid and o.lens == self.lens

    def __hash__(self):
        return hash((self.cid, self.lens))

    def __repr__(self):
        return f'Ref({self.cid},{self.lens})'


class Func:
    def __init__(self, node, mod, cls=None, closure=None, name=None):
        self.node, self.mod, self.cls, self.closure = node, mod, cls, closure
        self.name = name or getattr(node, 'name', '<lambda>')

    @property
    def qual(self):
        return f'{self.mod.name}.{self.cls.name + "." if self.cls else ""}{self.name}'

    def __eq__(self, o):
        return isinstance(o, Func) and o.node is self.node

    def __hash__(self):
        return hash(id(self.node))


class Bound:
    def __init__(self, self_v, func):
        self.self_v, self.func = self_v, func


class Lib:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Lib) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f'Lib({self.name})'


class LibM:
    """method `name` of a non-repository object"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Obj:
    """opaque library object: communicator, file, request, dataset..."""
    _n = 0

    def __init__(self, cls, **kw):
        Obj._n += 1
        self.cls = cls
        self.oid = Obj._n
        self.attrs = kw

    def __repr__(self):
        return f'Obj({self.cls})'


class Cls:
    env = None

    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name

    def __eq__(self, o):
        return isinstance(o, Cls) and o.node is self.node

    def __hash__(self):
        return hash(id(self.node))


class Inst:
    __slots__ = ('iid', 'cls')

    def __init__(self, iid, cls):
        self.iid, self.cls = iid, cls

    def __eq__(self, o):
        return isinstance(o, Inst) and o.iid == self.iid

    def __hash__(self):
        return hash(('inst', self.iid))


class Phi:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class ModV:
    def __init__(self, mod):
        self.mod = mod

    def __eq__(self, o):
        return isinstance(o, ModV) and o.mod is self.mod

    def __hash__(self):
        return hash(id(self.mod))


class Iter:
    """iterable descriptor: n elements, elem(st, i) -> value"""

    def __init__(self, n, elem, hint='i', src=None):
        self.n, self.elem, self.hint, self.src = n, elem, hint, src


class Cell:
    __slots__ = ('kind', 'term', 'items', 'prov', 'xr')

    def __init__(self, kind, term=None, items=None, prov=None, xr=False):
        self.kind, self.term, self.items, self.prov, self.xr = kind, term, items, prov, xr

    def but(self, **kw):
        c = Cell(self.kind, self.term, self.items, self.prov, self.xr)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class State:
    __slots__ = ('env', 'heap', 'inst', 'pc', 'facts', 'elem', 'parent', 'dead')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.inst = {}
        self.pc = ()
        self.facts = ()
        self.elem = {}
        self.parent = {}
        self.dead = False

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.inst = {k: dict(v) for k, v in self.inst.items()}
        s.pc = self.pc
        s.facts = self.facts
        s.elem = dict(self.elem)
        s.parent = dict(self.parent)
        s.dead = self.dead
        return s

    def assign(self, o):
        for k in State.__slots__:
            setattr(self, k, getattr(o, k))


class Effect:
    __slots__ = ('kind', 'name', 'args', 'guard', 'loops', 'site', 'stack', 'seq', 'facts')

    def __init__(self, kind, name, args, guard, loops, site, stack, seq, facts):
        self.kind, self.name, self.args = kind, name, args
        self.guard, self.loops, self.site, self.stack, self.seq = guard, loops, site, stack, seq
        self.facts = facts

    def where(self):
        f, l, fn = self.site
        return f'{f}:{l} ({fn})'

    def __repr__(self):
        return f'<{self.kind}:{self.name} {self.args} if {self.guard} loops={[(str(v), str(n)) for v, n, *_ in self.loops]} @{self.where()}>'


class Frame:
    def __init__(self, func, mod, depth):
        self.func, self.mod, self.depth = func, mod, depth
        self.exits = []         # ('return', state, value)
        self.loops = []         # stack of dict(break=[], continue=[])
        self.entry_pc = ()


class LoopInfo:
    def __init__(self, var, n, site, fn):
        self.var, self.n, self.site, self.fn = var, n, site, fn
        self.eqs = {}           # loc -> (phi, init, next)
        self.closed = {}


class Interp:
    def __init__(self, repo, **opts):
        self.repo = repo
        self.opts = opts
        self.effects = []
        self.loopctx = []
        self.callstack = []
        self.cellc = 0
        self.instc = 0
        self.modcache = {}
        self.loops = []
        self.visited = {}       # function qualname -> node count (coverage)
        self.unknown = []       # constructs not modelled
        self.stmts = 0
        self.calls = 0
        self.quiet = 0
        self.overrides = {}     # qualname -> python callable(interp, args, kwargs, node, st)
        from . import models
        self.models = models

    # ------------------------------------------------------------ effects
    def site(self, node):
        mod = self.callstack[-1][1].rel if self.callstack else '?'
        fn = self.callstack[-1][0] if self.callstack else '?'
        return (mod, getattr(node, 'lineno', 0), fn)

    def effect(self, kind, name, node, st, **args):
        if self.quiet:
            return
        if st.dead:
            return
        self.effects.append(Effect(kind, name, args, T.and_(*st.pc) if st.pc else TRUE,
                                   tuple(self.loopctx), self.site(node),
                                   tuple(c[0] for c in self.callstack), len(self.effects), st.facts))

    def note_unknown(self, what, node):
        if not self.quiet:
            self.unknown.append((what, self.site(node)))

    # --------------------------------------------------------------- heap
    def new(self, st, kind, term=None, items=None, prov=None, xr=False):
        self.cellc += 1
        st.heap[self.cellc] = Cell(kind, term, items, prov, xr)
        return Ref(self.cellc)

    def arr(self, st, term, prov=None):
        if isinstance(term, Term) and T.kind(term) != 'arr' and term.op in ('num',):
            pass
        return self.new(st, 'arr', term, prov=prov)

    def cell_term(self, st, cid):
        c = st.heap[cid]
        if c.items is not None:
            if c.kind == 'list':
                return mk('list', *[self.val(x, st) for x in c.items])
            t = c.term if c.term is not None else mk('edict')
            for k, v in c.items:
                t = T.store(t, ix(k), self.val(v, st))
            return t
        return c.term

    def lens_get(self, t, l):
        k = l[0]
        if k == 'ix':
            return T.getitem(t, l[1])
        if k == 'reshape':
            if t.op == 'rsback' and t.args[1] is l[1]:
                return t.args[0]
            return T.reshape(t, l[1])
        if k == 'T':
            return T.transpose(t, l[1] if l[1] else None)
        if k == 'squeeze':
            if t.op == 'sqback':
                return t.args[0]
            s = self.models.shp(t)
            if s is not None:
                # extents that are not literally 1 are taken to be larger (degenerate sizes are outside the analysed domain)
                return T.getitem(t, T.ix(*[T.ZERO if d is T.ONE else T.ALL for d in s])) if T.ONE in s else t
            return T.lin1('squeeze', t)
        if k in ('real', 'imag'):
            if t.op == 'setpart':
                if t.args[0] == k:
                    return t.args[2]
                return self.lens_get(t.args[1], l)
            return self.models.part(k, t)
        if k == 'values':
            return t
        if k == 'view':
            return t
        return mk('lens', t, *[x for x in l if isinstance(x, (Term, str))])

    def lens_put(self, t, l, v):
        k = l[0]
        if k == 'ix':
            return T.store(t, l[1], v)
        if k == 'reshape':
            return mk('rsback', v, l[1])
        if k == 'T':
            ax = l[1]
            if not ax:
                return T.transpose(v)
            inv = [0] * len(ax)
            for i, a in enumerate(ax):
                inv[a] = i
            return T.transpose(v, tuple(inv))
        if k == 'squeeze':
            return mk('sqback', v)
        if k in ('real', 'imag'):
            return mk('setpart', k, t, v)
        return v

    def val(self, v, st):
        if isinstance(v, Term):
            return v
        if isinstance(v, Ref):
            t = self.cell_term(st, v.cid)
            for l in v.lens:
                t = self.lens_get(t, l)
            return t
        if isinstance(v, Phi):
            return T.ite(v.c, self.val(v.a, st), self.val(v.b, st))
        if isinstance(v, Lib):
            return self.models.lib_term(v.name)
        if isinstance(v, Func):
            return mk('fn', v.qual)
        if isinstance(v, Cls):
            return mk('cls', v.mod.name + '.' + v.name)
        if isinstance(v, Bound):
            return mk('fn', v.func.qual)
        if isinstance(v, ModV):
            return mk('mod_', v.mod.name)
        if isinstance(v, Inst):
            return mk('inst', v.iid)
        if isinstance(v, Obj):
            t = v.attrs.get('term')
            return t if t is not None else mk('obj', v.cls, v.oid)
        if isinstance(v, LibM):
            return mk('method', self.val(v.obj, st), v.name)
        if isinstance(v, Iter):
            if v.src is not None:
                return v.src
            x = T.fresh_var('e', int=True, min=0, real=True)
            return T.listcomp(mk('list'), x, ZERO, v.n, TRUE, self.val(v.elem(st, x), st))
        if isinstance(v, tuple):          # concrete python tuple value
            return tup(*[self.val(x, st) for x in v])
        raise Unsupported(f'val {v!r}')

    def vkind(self, v, st):
        if isinstance(v, Ref):
            return st.heap[v.cid].kind
        if isinstance(v, Term):
            return T.kind(v)
        if isinstance(v, tuple):
            return 'tuple'
        if isinstance(v, Phi):
            a, b = self.vkind(v.a, st), self.vkind(v.b, st)
            if v.a in (UNDEF, NONE):
                return b
            return a
        return 'obj'

    def is_arr(self, v, st):
        return self.vkind(v, st) == 'arr'

    def resolve(self, v, st):
        while isinstance(v, Phi):
            d = self.decide(v.c, st)
            if d is TRUE:
                v = v.a
            elif d is FALSE:
                v = v.b
            else:
                # undefined on one side: keep the defined side, reported by load
                return v
        if isinstance(v, Term) and v.op == 'ite':
            while v.op == 'ite':
                d = self.decide(v.args[0], st)
                if d is TRUE:
                    v = v.args[1]
                elif d is FALSE:
                    v = v.args[2]
                else:
                    break
        return v

    def decide(self, c, st):
        if c is TRUE or c is FALSE:
            return c
        fs = st.pc + st.facts
        if not fs:
            return c
        return decide(c, fs)

    def refine(self, t, st):
        """resolve min(0, d) atoms whose sign the path condition fixes"""
        ms = [x for x in T.subterms(t) if x.op == 'min0'] if t.op == 'poly' or t.op == 'min0' else []
        m = {}
        for x in ms:
            d = x.args[0]
            if self.decide(T.le(T.ZERO, d), st) is TRUE:
                m[x] = T.ZERO
            elif self.decide(T.le(d, T.ZERO), st) is TRUE:
                m[x] = d
        return T.subst(t, m) if m else t

    # ------------------------------------------------------------ mutation
    def put(self, ref, newval, st, node=None, how='store'):
        """write value `newval` (Term) through ref"""
        if isinstance(ref, Phi):
            cur = self.val(ref.a, st)
            self.put(ref.a, T.ite(ref.c, newval, cur), st, node, how) if isinstance(ref.a, (Ref, Phi)) else None
            cur = self.val(ref.b, st)
            self.put(ref.b, T.ite(ref.c, cur, newval), st, node, how) if isinstance(ref.b, (Ref, Phi)) else None
            return
        if not isinstance(ref, Ref):
            self.note_unknown('store into non-reference', node)
            return
        c = st.heap[ref.cid]
        if c.prov is not None:
            self.effect('mutate', c.prov, node, st, how=how, value=newval, cid=ref.cid)
        old = self.cell_term(st, ref.cid)
        ts = [old]
        for l in ref.lens:
            ts.append(self.lens_get(ts[-1], l))
        v = newval
        for l, t in zip(reversed(ref.lens), reversed(ts[:-1])):
            v = self.lens_put(t, l, v)
        self.set_cell(st, ref.cid, v, old)

    def set_cell(self, st, cid, newterm, old=None):
        c = st.heap[cid]
        if old is None:
            old = self.cell_term(st, cid)
        par = st.parent.get(cid)
        up = []
        p = par
        while p is not None and p[0] in st.heap and st.heap[p[0]].items is not None and p[0] != cid and len(up) < 8:
            up.append((p[0], self.cell_term(st, p[0])))
            p = st.parent.get(p[0])
        st.heap[cid] = c.but(term=newterm, items=None)
        if up:
            # concrete containers show the change; the first container in term form above them must be told
            top, was = up[-1]
            if p is not None and p[0] in st.heap and p[0] != cid:
                pcid, key = p
                pt = self.cell_term(st, pcid)
                if T.getitem(pt, ix(key)) is was:
                    self.set_cell(st, pcid, T.store(pt, ix(key), self.cell_term(st, top)), pt)
                    st.elem[(pcid, key)] = top
        elif par is not None:
            pcid, key = par
            if pcid in st.heap and pcid != cid:
                pt = self.cell_term(st, pcid)
                if T.getitem(pt, ix(key)) is old:
                    self.set_cell(st, pcid, T.store(pt, ix(key), newterm), pt)
                    st.elem[(pcid, key)] = cid

    def load_elem(self, st, cid, key, node=None):
        """element of a term-form container"""
        t = T.getitem(self.cell_term(st, cid), ix(key))
        t = self.resolve(t, st)
        if t.op == 'inst':
            return Inst(t.args[0], None)
        k = T.kind(t)
        c = st.heap[cid]
        if k in ('arr', 'dict', 'list'):
            e = st.elem.get((cid, key))
            if e is not None and e in st.heap and self.cell_term(st, e) is t:
                return Ref(e)
            prov = None
            if c.prov is not None:
                prov = c.prov if c.prov.endswith('[]') else c.prov + '[]'
            r = self.new(st, k, t, prov=prov, xr=bool(T._root_info(t).get('xr')))
            st.elem[(cid, key)] = r.cid
            st.parent[r.cid] = (cid, key)
            return r
        return t

    def termify(self, st, cid):
        c = st.heap[cid]
        if c.items is None:
            return
        t = self.cell_term(st, cid)
        pairs = list(enumerate(c.items)) if c.kind == 'list' else list(c.items)
        st.heap[cid] = c.but(term=t, items=None)
        for k, v in pairs:
            key = num(k) if isinstance(k, int) else k
            if isinstance(v, Ref) and not v.lens:
                st.elem[(cid, key)] = v.cid
                st.parent.setdefault(v.cid, (cid, key))
                self.adopt(st, v.cid)

    # --------------------------------------------------------------- joins
    def mergeval(self, c, a, b, st):
        if a is b:
            return a
        if a == b and not isinstance(a, Term):
            return a
        if isinstance(a, Term) and isinstance(b, Term):
            return T.ite(c, a, b)
        return Phi(c, a, b)

    def join(self, c, s1, s2, base_pc, base_facts):
        """state after `if c: s1 else: s2`"""
        if s1 is None or s1.dead:
            r = s2
            return r
        if s2 is None or s2.dead:
            return s1
        if c is TRUE:
            return s1
        if c is FALSE:
            return s2
        st = State()
        for k in list(s1.env) + [k for k in s2.env if k not in s1.env]:
            st.env[k] = self.mergeval(c, s1.env.get(k, UNDEF), s2.env.get(k, UNDEF), st)
        for cid in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(cid), s2.heap.get(cid)
            if a is b or b is None:
                st.heap[cid] = a
            elif a is None:
                st.heap[cid] = b
            else:
                if a.items is not None and b.items is not None and a.kind == b.kind and \
                        len(a.items) == len(b.items):
                    if a.kind == 'list':
                        st.heap[cid] = a.but(items=tuple(self.mergeval(c, x, y, st)
                                                         for x, y in zip(a.items, b.items)))
                        continue
                    if [k for k, _ in a.items] == [k for k, _ in b.items]:
                        st.heap[cid] = a.but(items=tuple(
                            (k, self.mergeval(c, x, y, st)) for (k, x), (_, y) in zip(a.items, b.items)))
                        continue
                if a.kind == 'dict' and a.items is not None and b.items is not None and a.term is b.term:
                    da, db = dict(a.items), dict(b.items)
                    keys = list(da) + [k for k in db if k not in da]
                    st.heap[cid] = a.but(items=tuple(
                        (k, self.mergeval(c, da.get(k, UNDEF), db.get(k, UNDEF), st)) for k in keys))
                    continue
                ta, tb = self.cell_term(s1, cid), self.cell_term(s2, cid)
                st.heap[cid] = a.but(items=None, term=T.ite(c, ta, tb))
        for iid in set(s1.inst) | set(s2.inst):
            a, b = s1.inst.get(iid), s2.inst.get(iid)
            if b is None:
                st.inst[iid] = a
            elif a is None:
                st.inst[iid] = b
            else:
                st.inst[iid] = {k: self.mergeval(c, a.get(k, UNDEF), b.get(k, UNDEF), st)
                                for k in list(a) + [k for k in b if k not in a]}
        st.elem = {k: v for k, v in s1.elem.items() if s2.elem.get(k) == v}
        st.parent = dict(s2.parent)
        st.parent.update(s1.parent)
        st.pc = base_pc
        st.facts = tuple(f for f in s1.facts if f in s2.facts)
        return st

    # --------------------------------------------------------- expressions
    def ev(self, n, fr, st):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            self.note_unknown('expression ' + type(n).__name__, n)
            return mk('unk', type(n).__name__, self.site(n)[1])
        return m(n, fr, st)

    def evt(self, n, fr, st):
        return self.val(self.ev(n, fr, st), st)

    def ev_Constant(self, n, fr, st):
        return const(n.value)

    def ev_JoinedStr(self, n, fr, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(string(v.value))
            else:
                parts.append(self.ev_FormattedValue(v, fr, st))
        return T.cat(*parts)

    def ev_FormattedValue(self, v, fr, st):
        t = self.evt(v.value, fr, st)
        spec = ''
        if v.format_spec is not None:
            sp = self.ev(v.format_spec, fr, st)
            spec = sp.args[0] if sp.op == 'str' else '?'
        return T.fmt(t, spec)

    def lookup(self, name, fr, st):
        if name in st.env:
            return st.env[name]
        f = fr.func
        clo = f.closure if f is not None else None
        if clo is not None and name in clo:
            return clo[name]
        return self.global_(fr.mod, name)

    def global_(self, mod, name):
        key = (mod.name, name)
        if key in self.modcache:
            return self.modcache[key]
        v = self._global(mod, name)
        self.modcache[key] = v
        return v

    def _global(self, mod, name):
        found = None
        todo = list(mod.tree.body)
        flat = []
        while todo:
            n = todo.pop(0)
            if isinstance(n, (ast.If,)):
                todo = n.body + n.orelse + todo
            elif isinstance(n, ast.Try):
                todo = n.body + todo
            else:
                flat.append(n)
        for n in flat:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                found = Func(n, mod)
            elif isinstance(n, ast.ClassDef) and n.name == name:
                found = Cls(n, mod)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for nm, v in self.import_bindings(n, mod):
                    if nm == name:
                        found = v
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        found = ('expr', n.value)
        if isinstance(found, tuple):
            st = State()
            fr = Frame(None, mod, 0)
            self.callstack.append(('<module>', mod))
            self.quiet += 1
            v = self.ev(found[1], fr, st)
            if isinstance(v, Ref):
                t = self.val(v, st)
                v = t
            self.quiet -= 1
            self.callstack.pop()
            return v
        if found is not None:
            return found
        import builtins
        if hasattr(builtins, name):
            return Lib('builtins.' + name)
        return UNDEF

    def import_bindings(self, n, mod):
        out = []
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    out.append((a.asname, self.dotted(a.name)))
                else:
                    out.append((a.name.split('.')[0], self.dotted(a.name.split('.')[0])))
        else:
            base = n.module or ''
            if n.level:
                pk = mod.name.split('.')
                pk = pk[:len(pk) - n.level + (0 if not mod.path.endswith('__init__.py') else 1)]
                base = '.'.join(pk + ([base] if base else []))
            for a in n.names:
                v = self.dotted(base + '.' + a.name)
                out.append((a.asname or a.name, v))
        return out

    def dotted(self, name):
        if name in self.repo.modules:
            return ModV(self.repo.modules[name])
        parts = name.split('.')
        for k in range(len(parts) - 1, 0, -1):
            mn = '.'.join(parts[:k])
            if mn in self.repo.modules:
                v = ModV(self.repo.modules[mn])
                for p in parts[k:]:
                    v = self.global_(v.mod, p) if isinstance(v, ModV) else UNDEF
                return v
        return Lib(self.models.canon(name))

    def ev_Name(self, n, fr, st):
        v = self.lookup(n.id, fr, st)
        return self.checked(v, n.id, n, st)

    def checked(self, v, name, n, st):
        v = self.resolve(v, st)
        u = undef_cond(v)
        if u is not FALSE:
            u = self.decide(u, st)
        if u is not FALSE:
            self.effect('undef', name, n, st, cond=u)
            if u is TRUE:
                return mk('call', 'undefined', string(name))
            v = strip_undef(v)
        return v

    def ev_NamedExpr(self, n, fr, st):
        v = self.ev(n.value, fr, st)
        st.env[n.target.id] = v
        return v

    def ev_Tuple(self, n, fr, st):
        vs = self.ev_elts(n.elts, fr, st)
        if isinstance(vs, Term):
            return vs
        if all(isinstance(v, Term) for v in vs):
            return tup(*vs)
        return tuple(vs)

    def ev_elts(self, elts, fr, st):
        """list of values, or a Term 'concat' when a symbolic star is present"""
        vs, parts, symbolic = [], [], False
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, fr, st)
                items = self.concrete_items(v, st)
                if items is not None:
                    vs.extend(items)
                else:
                    symbolic = True
                    if vs:
                        parts.append(mk('list', *[self.val(x, st) for x in vs]))
                        vs = []
                    parts.append(self.val(v, st))
            else:
                vs.append(self.ev(e, fr, st))
        if not symbolic:
            return vs
        if vs:
            parts.append(mk('list', *[self.val(x, st) for x in vs]))
        return concat(*parts)

    def ev_List(self, n, fr, st):
        vs = self.ev_elts(n.elts, fr, st)
        if isinstance(vs, Term):
            return self.new(st, 'list', vs)
        return self.new(st, 'list', items=tuple(vs))

    def ev_Set(self, n, fr, st):
        vs = [self.evt(e, fr, st) for e in n.elts]
        return mk('call', 'set', *vs)

    def ev_Dict(self, n, fr, st):
        items = []
        base = None
        r = self.new(st, 'dict', items=())
        for k, v in zip(n.keys, n.values):
            if k is None:
                vv = self.ev(v, fr, st)
                if isinstance(vv, Ref) and st.heap[vv.cid].kind == 'dict' and st.heap[vv.cid].items is not None:
                    if st.heap[vv.cid].term is not None:
                        st.heap[r.cid] = st.heap[r.cid].but(term=st.heap[vv.cid].term)
                    for kk, x in st.heap[vv.cid].items:
                        self.dict_set(st, r, kk, x, n)
                else:
                    t = self.val(vv, st)
                    cur = self.cell_term(st, r.cid)
                    st.heap[r.cid] = st.heap[r.cid].but(items=None, term=t if cur.op == 'edict' else mk('call', 'merge', cur, t))
                continue
            self.dict_set(st, r, self.evt(k, fr, st), self.ev(v, fr, st), n)
        return r

    def dict_set(self, st, r, key, v, node):
        if r.lens:
            self.put(Ref(r.cid, r.lens + (('ix', ix(key)),)), self.val(v, st), st, node)
            return
        c = st.heap[r.cid]
        if c.prov is not None:
            self.effect('mutate', c.prov, node, st, how='setitem', value=self.val(v, st), key=key, cid=r.cid)
        if c.items is not None and key.op in ('str', 'num', 'bool', 'none'):
            items = [(k, x) for k, x in c.items]
            for i, (k, x) in enumerate(items):
                if k is key:
                    items[i] = (k, v)
                    break
            else:
                items.append((key, v))
            st.heap[r.cid] = c.but(items=tuple(items))
            self.reparent(st, r.cid, c)
            return
        self.termify(st, r.cid)
        t = self.cell_term(st, r.cid)
        self.set_cell(st, r.cid, T.store(t, ix(key), self.val(v, st)), t)
        if isinstance(v, Ref) and not v.lens:
            st.elem[(r.cid, key)] = v.cid
            st.parent[v.cid] = (r.cid, key)
            self.adopt(st, v.cid)

    def adopt(self, st, cid, depth=0):
        """the items of a concrete container stored inside another container report their changes to it"""
        c = st.heap[cid]
        if c.items is None or depth > 4:
            return
        for k, v in enumerate(c.items) if c.kind == 'list' else c.items:
            if isinstance(v, Ref) and not v.lens and v.cid in st.heap:
                st.parent.setdefault(v.cid, (cid, num(k) if isinstance(k, int) else k))
                self.adopt(st, v.cid, depth + 1)

    def reparent(self, st, cid, oldcell):
        """propagate an in-place change of a concrete container to its parent container"""
        par = st.parent.get(cid)
        if par is None:
            return
        pcid, key = par
        if pcid not in st.heap:
            return
        pt = self.cell_term(st, pcid)
        new = self.cell_term(st, cid)
        cur = T.getitem(pt, ix(key))
        tmp = st.heap[cid]
        st.heap[cid] = oldcell
        old = self.cell_term(st, cid)
        st.heap[cid] = tmp
        if cur is old:
            self.set_cell(st, pcid, T.store(pt, ix(key), new), pt)
            st.elem[(pcid, key)] = cid

    def ev_Attribute(self, n, fr, st):
        b = self.ev(n.value, fr, st)
        return self.getattr(b, n.attr, n, fr, st)

    def class_attr(self, cls, name):
        """(owner Cls, node, kind) following single/multiple inheritance"""
        found = None
        for x in cls.node.body:
            if isinstance(x, ast.FunctionDef) and x.name == name:
                decs = []
                for d in x.decorator_list:
                    decs.append(d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else '?')
                if any(d in ('deleter', 'setter') for d in decs):
                    continue
                kind = 'property' if 'property' in decs else 'static' if 'staticmethod' in decs else \
                    'class' if 'classmethod' in decs else 'method'
                found = (cls, x, kind)
            elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets):
                found = (cls, x.value, 'value')
        if found:
            return found
        for b in cls.node.bases:
            bv = self.base_class(cls, b)
            if isinstance(bv, Cls):
                r = self.class_attr(bv, name)
                if r:
                    return r
        return None

    def base_class(self, cls, bnode):
        fr = Frame(None, cls.mod, 0)
        self.callstack.append(('<class>', cls.mod))
        s = State()
        if cls.env:
            s.env.update(cls.env)
        v = self.ev(bnode, fr, s)
        self.callstack.pop()
        return v

    def getattr(self, b, name, n, fr, st, dflt=None):
        b = self.resolve(b, st)
        if isinstance(b, Inst):
            f = st.inst[b.iid]
            if name in f:
                return self.checked(f[name], 'self.' + name if True else name, n, st)
            r = self.class_attr(b.cls, name)
            if r:
                owner, node, kind = r
                if kind == 'property':
                    return self.call_func(Func(node, owner.mod, owner), [b], {}, n, st)
                if kind == 'static':
                    return Func(node, owner.mod, owner)
                if kind == 'method':
                    return Bound(b, Func(node, owner.mod, owner))
                if kind == 'class':
                    return Bound(b.cls, Func(node, owner.mod, owner))
                if kind == 'value':
                    return self.ev(node, Frame(None, owner.mod, 0), st)
            if dflt is not None:
                return dflt
            self.effect('undef', b.cls.name + '.' + name, n, st, cond=TRUE)
            return mk('call', 'undefined', string(name))
        if isinstance(b, ModV):
            v = self.global_(b.mod, name)
            if v is UNDEF:
                sub_ = b.mod.name + '.' + name
                if sub_ in self.repo.modules:
                    return ModV(self.repo.modules[sub_])
                if not self.has_global(b.mod, name):
                    self.effect('undef', b.mod.name + '.' + name, n, st, cond=TRUE)
                return mk('call', 'undefined', string(name))
            return v
        if isinstance(b, Cls):
            r = self.class_attr(b, name)
            if r:
                owner, node, kind = r
                if kind in ('static', 'method'):
                    return Func(node, owner.mod, owner)
                if kind == 'class':
                    return Bound(b, Func(node, owner.mod, owner))
                if kind == 'value':
                    return self.ev(node, Frame(None, owner.mod, 0), st)
            if name == '__name__':
                return string(b.name)
            return mk('attr', self.val(b, st), name)
        if isinstance(b, Super):
            for base in b.bases:
                r = self.class_attr(base, name)
                if r:
                    return Bound(b.self_v, Func(r[1], r[0].mod, r[0]))
            return LibM(b, name)
        if isinstance(b, Lib):
            full = b.name + '.' + name
            special = self.models.lib_attr(self, b, name, st)
            if special is not None:
                return special
            return Lib(self.models.canon(full))
        if isinstance(b, Phi):
            x = self.getattr_b(b.a, name, n, fr, st, b.c)
            y = self.getattr_b(b.b, name, n, fr, st, T.not_(b.c))
            return self.mergeval(b.c, x, y, st)
        return self.models.get_attr(self, b, name, n, fr, st)

    def getattr_b(self, v, name, n, fr, st, cond):
        if v is NONE or v is UNDEF:
            return mk('call', 'attr_of_none', string(name))
        pc = st.pc
        st.pc = pc + (cond,)
        r = self.getattr(v, name, n, fr, st)
        st.pc = pc
        return r

    def has_global(self, mod, name):
        return self.global_(mod, name) is not UNDEF

    def ev_Subscript(self, n, fr, st):
        b = self.ev(n.value, fr, st)
        idx = self.ev_index(n.slice, fr, st)
        return self.getitem(b, idx, n, fr, st)

    def ev_index(self, s, fr, st):
        """-> list of index element values (Terms) or a Term for a single computed index"""
        if isinstance(s, ast.Slice):
            return sl(*[None if x is None else self.evt(x, fr, st) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            es = []
            for e in s.elts:
                if isinstance(e, ast.Starred):
                    v = self.evt(e.value, fr, st)
                    if v.op in ('tuple', 'list'):
                        es.extend(v.args)
                    else:
                        es.append(mk('ixlist', v))
                else:
                    es.append(self.ev_index(e, fr, st))
            return T.ix(*es)
        v = self.ev(s, fr, st)
        return self.idx_term(v, st)

    def idx_term(self, v, st):
        t = self.val(v, st)
        t = self.resolve(t, st)
        return t

    def concrete_items(self, v, st):
        """python list of element values if v is a sequence of known length"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref) and not v.lens:
            c = st.heap[v.cid]
            if c.kind == 'list' and c.items is not None:
                return list(c.items)
            if c.kind == 'dict' and c.items is not None and c.term is None:
                return [k for k, _ in c.items]
            if c.kind == 'list' and c.term is not None and c.term.op == 'list':
                return [self.load_elem(st, v.cid, num(i)) for i in range(len(c.term.args))]
        if isinstance(v, Term) and v.op in ('tuple', 'list'):
            return list(v.args)
        if isinstance(v, Term) and v.op == 'str':
            return [string(c) for c in v.args[0]]
        if isinstance(v, Iter):
            k = T.intval(v.n)
            if k is not None and k <= 16:
                return [v.elem(st, num(i)) for i in range(k)]
        return None

    def getitem(self, b, idx, n, fr, st):
        b = self.resolve(b, st)
        if isinstance(b, Phi):
            x = self.getitem_b(b.a, idx, n, fr, st, b.c)
            y = self.getitem_b(b.b, idx, n, fr, st, T.not_(b.c))
            return self.mergeval(b.c, x, y, st)
        if isinstance(b, tuple):
            k = T.intval(idx) if idx.op == 'num' else None
            if k is not None and -len(b) <= k < len(b):
                return b[k]
            return T.getitem(self.val(b, st), T.as_ix(idx))
        if isinstance(b, Lib):
            r = self.models.lib_getitem(self, b, idx, st)
            if r is not None:
                return r
            return mk('attr', self.val(b, st), '[]')
        if isinstance(b, Ref):
            c = st.heap[b.cid]
            if c.kind == 'list' and not b.lens:
                if idx.op == 'ix' and len(idx.args) == 1:
                    idx = idx.args[0]
                k = T.intval(idx)
                if c.items is not None:
                    if k is not None and -len(c.items) <= k < len(c.items):
                        return c.items[k]
                    if idx.op == 'sl':
                        lo, hi = T.intval(idx.args[0]), (None if idx.args[1] is END else T.intval(idx.args[1]))
                        if lo is not None and (idx.args[1] is END or hi is not None) and idx.args[2] is ONE:
                            return self.new(st, 'list', items=c.items[lo:hi])
                if idx.op == 'sl':
                    return self.new(st, 'list', T.getitem(self.cell_term(st, b.cid), ix(idx)), prov=c.prov)
                return self.load_elem(st, b.cid, idx, n)
            if c.kind == 'dict' and not b.lens:
                key = idx
                if key.op == 'ix':
                    key = tup(*key.args)
                if c.items is not None:
                    for k, v in c.items:
                        if k is key:
                            return self.checked(v, f'key {T.show(key)}', n, st)
                    if key.op in ('str', 'num') and c.term is None:
                        self.effect('keyerror', T.show(key), n, st, key=key)
                        return mk('call', 'undefined', key)
                return self.load_elem(st, b.cid, key, n)
            if c.kind == 'arr' or b.lens:
                es = T.as_ix(idx)
                if any(T.kind(e) in ('arr', 'list') and e.op != 'ixlist' or T.is_bool(e) for e in es.args):
                    return self.arr(st, adv_getitem(self.val(b, st), es))
                if not es.args:
                    return b
                return Ref(b.cid, b.lens + (('ix', es),))
        if isinstance(b, Obj):
            return self.models.obj_getitem(self, b, idx, n, st)
        if isinstance(b, Iter):
            t = self.val(b, st)
            return T.getitem(t, T.as_ix(idx))
        if isinstance(b, Term):
            t = T.getitem(b, T.as_ix(idx))
            t = self.resolve(t, st)
            if T.kind(t) == 'arr':
                return self.arr(st, t)
            if T.kind(t) in ('dict', 'list'):
                return self.new(st, T.kind(t), t)
            return t
        self.note_unknown('subscript of ' + type(b).__name__, n)
        return mk('unk', 'subscript', self.site(n)[1])

    def getitem_b(self, v, idx, n, fr, st, cond):
        if v is NONE or v is UNDEF:
            return mk('call', 'item_of_none')
        pc = st.pc
        st.pc = pc + (cond,)
        r = self.getitem(v, idx, n, fr, st)
        st.pc = pc
        return r

    def ev_Slice(self, n, fr, st):
        return self.ev_index(n, fr, st)

    def ev_UnaryOp(self, n, fr, st):
        v = self.ev(n.operand, fr, st)
        if isinstance(n.op, ast.Not):
            return T.not_(self.truth(v, st))
        t = self.val(v, st)
        if isinstance(n.op, ast.USub):
            r = T.neg(t)
        elif isinstance(n.op, ast.Invert):
            r = T.not_(t) if T.is_bool(t) else mk('elem', 'invert', t)
        else:
            r = t
        return self.arr(st, r) if self.is_arr(v, st) else r

    def truth(self, v, st):
        v = self.resolve(v, st)
        if isinstance(v, (Func, Bound, Lib, Cls, Inst, ModV, Obj, LibM)):
            return TRUE
        if isinstance(v, tuple):
            return TRUE if v else FALSE
        if isinstance(v, Phi):
            return T.cond_ite(v.c, self.truth(v.a, st), self.truth(v.b, st))
        if isinstance(v, Ref):
            c = st.heap[v.cid]
            if not v.lens and c.items is not None:
                return TRUE if c.items else (FALSE if c.term is None else mk('truth', c.term))
            if not v.lens and c.kind in ('list', 'dict'):
                return T.not_(T.eq0(length(self.val(v, st))))
            t = self.val(v, st)
            return mk('truth', t)
        if isinstance(v, Iter):
            return T.not_(T.eq0(v.n))
        return self.decide(T.truth(v), st)

    def ev_BoolOp(self, n, fr, st):
        pc = st.pc
        is_and = isinstance(n.op, ast.And)
        vals = []
        conds = []
        for e in n.values:
            v = self.ev(e, fr, st)
            c = self.truth(v, st)
            c = self.decide(c, st)
            vals.append(v)
            conds.append(c)
            if is_and and c is FALSE or not is_and and c is TRUE:
                break
            st.pc = st.pc + ((c if is_and else T.not_(c)),) if c not in (TRUE, FALSE) else st.pc
        st.pc = pc
        if all(isinstance(v, Term) and T.is_bool(v) for v in vals):
            return T.and_(*conds) if is_and else T.or_(*conds)
        r = vals[-1]
        for v, c in zip(reversed(vals[:-1]), reversed(conds[:-1])):
            r = self.mergeval(c, r, v, st) if is_and else self.mergeval(c, v, r, st)
            if c is TRUE:
                r = r.a if isinstance(r, Phi) else r
        # evaluate constant gates away
        return self.resolve(r, st) if not isinstance(r, Term) else r

    def ev_IfExp(self, n, fr, st):
        c = self.decide(self.truth(self.ev(n.test, fr, st), st), st)
        if c is TRUE:
            return self.ev(n.body, fr, st)
        if c is FALSE:
            return self.ev(n.orelse, fr, st)
        pc, facts = st.pc, st.facts
        s1, s2 = st.copy(), st.copy()
        s1.pc = pc + (c,)
        a = self.ev(n.body, fr, s1)
        s2.pc = pc + (T.not_(c),)
        b = self.ev(n.orelse, fr, s2)
        j = self.join(c, s1, s2, pc, facts)
        st.assign(j)
        st.pc = pc
        return self.mergeval(c, a, b, st)

    def ev_Compare(self, n, fr, st):
        left = self.ev(n.left, fr, st)
        out = []
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, fr, st)
            out.append(self.compare(op, left, right, st, n))
            left = right
        r = T.and_(*out) if len(out) > 1 else out[0]
        return self.decide(r, st)

    def compare(self, op, a, b, st, n):
        a, b = self.resolve(a, st), self.resolve(b, st)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            r = self.equal(a, b, st, isinstance(op, (ast.Is, ast.IsNot)))
            return T.not_(r) if isinstance(op, (ast.IsNot, ast.NotEq)) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st)
            return T.not_(r) if isinstance(op, ast.NotIn) else r
        ta, tb = self.val(a, st), self.val(b, st)
        if isinstance(op, ast.Lt):
            r = T.lt(ta, tb)
        elif isinstance(op, ast.LtE):
            r = T.le(ta, tb)
        elif isinstance(op, ast.Gt):
            r = T.lt(tb, ta)
        else:
            r = T.le(tb, ta)
        return r

    def equal(self, a, b, st, identity=False):
        if isinstance(a, Phi):
            return T.cond_ite(a.c, self.equal(a.a, b, st, identity), self.equal(a.b, b, st, identity))
        if isinstance(b, Phi):
            return self.equal(b, a, st, identity)
        if not isinstance(a, Term) or not isinstance(b, Term):
            if a is NONE or b is NONE:
                return FALSE
            if a == b and not isinstance(a, tuple):
                return TRUE
            if isinstance(a, (Lib, Cls, Func)) and isinstance(b, (Lib, Cls, Func)):
                ta, tb = self.val(a, st), self.val(b, st)
                return TRUE if ta is tb else FALSE
        return T.eq(self.val(a, st), self.val(b, st))

    def contains(self, a, b, st):
        ta = self.val(a, st)
        if isinstance(b, LibM) and b.name == 'keys':
            b = b.obj
        if isinstance(b, Obj) and b.cls == 'dictview':
            b = b.attrs['dict']
        if isinstance(b, Ref):
            c = st.heap[b.cid]
            if c.kind == 'dict' and c.items is not None and c.term is None and not b.lens and \
                    ta.op in ('str', 'num'):
                for k, v in c.items:
                    if k is ta:
                        u = undef_cond(v)
                        return T.not_(u)
                return FALSE
            if c.kind == 'dict':
                return mk('in', ta, self.val(b, st))
        its = self.concrete_items(b, st)
        if its is not None:
            return T.or_(*[self.equal(ta, x, st) for x in its]) if its else FALSE
        tb = self.val(b, st)
        if tb.op == 'str' and ta.op == 'str':
            return TRUE if ta.args[0] in tb.args[0] else FALSE
        return mk('in', ta, tb)

    def ev_BinOp(self, n, fr, st):
        a = self.ev(n.left, fr, st)
        b = self.ev(n.right, fr, st)
        return self.binop(n.op, a, b, n, st)

    def binop(self, op, a, b, n, st):
        a, b = self.resolve(a, st), self.resolve(b, st)
        ka, kb = self.vkind(a, st), self.vkind(b, st)
        if isinstance(a, Phi) and ka in ('list', 'tuple', 'str') or isinstance(b, Phi) and kb in ('list', 'tuple', 'str'):
            if isinstance(a, Phi):
                return self.mergeval(a.c, self.binop(op, a.a, b, n, st), self.binop(op, a.b, b, n, st), st)
            return self.mergeval(b.c, self.binop(op, a, b.a, n, st), self.binop(op, a, b.b, n, st), st)
        if isinstance(op, ast.BitOr) and isinstance(a, Ref) and isinstance(b, Ref) and ka == kb == 'dict':
            r = self.new(st, 'dict', items=())
            if all(st.heap[x.cid].items is not None and st.heap[x.cid].term is None for x in (a, b)):
                for x in (a, b):
                    for kk, y in st.heap[x.cid].items:
                        self.dict_set(st, r, kk, y, n)
                return r
        if isinstance(op, ast.Add) and ('list' in (ka, kb) or 'tuple' in (ka, kb)) and 'arr' not in (ka, kb):
            ia, ib = self.concrete_items(a, st), self.concrete_items(b, st)
            islist = 'list' in (ka, kb)
            if ia is not None and ib is not None:
                if islist:
                    return self.new(st, 'list', items=tuple(ia + ib))
                vs = ia + ib
                return tup(*vs) if all(isinstance(v, Term) for v in vs) else tuple(vs)
            t = concat(self.val(a, st), self.val(b, st))
            return self.new(st, 'list', t) if islist else t
        if isinstance(op, ast.Mult) and ('list' in (ka, kb) or 'tuple' in (ka, kb)):
            s, k = (a, b) if ka in ('list', 'tuple') else (b, a)
            kt = self.val(k, st)
            its = self.concrete_items(s, st)
            if its is not None and T.intval(kt) is not None:
                its = its * T.intval(kt)
                if self.vkind(s, st) == 'tuple':
                    return tup(*[self.val(x, st) for x in its])
                return self.new(st, 'list', items=tuple(its))
            if its is not None and len(its) == 1:
                return self.new(st, 'list', mk('rep', self.val(its[0], st), kt))
            if its is not None:
                return self.new(st, 'list', mk('call', 'repeat', self.val(s, st), kt))
        ta, tb = self.val(a, st), self.val(b, st)
        if isinstance(op, ast.Mod) and ka == 'str':
            return self.models.percent_format(self, ta, b, st)
        if isinstance(op, ast.Add) and 'str' in (ka, kb):
            return T.cat(ta, tb)
        if isinstance(op, ast.Mult) and 'str' in (ka, kb):
            s, k = (ta, tb) if ka == 'str' else (tb, ta)
            if s.op == 'str' and T.intval(k) is not None:
                return string(s.args[0] * T.intval(k))
            return mk('call', 'strrep', s, k)
        if isinstance(op, ast.Div) and isinstance(a, Obj) and a.cls == 'path':
            return Obj('path', term=T.join(ta, tb))
        r = arith(op, ta, tb, self)
        if ka == 'arr' or kb == 'arr':
            return self.arr(st, r)
        return r

    def ev_Lambda(self, n, fr, st):
        return Func(n, fr.mod, None, dict(st.env), '<lambda>')

    def ev_Starred(self, n, fr, st):
        return self.ev(n.value, fr, st)

    def ev_ListComp(self, n, fr, st):
        return self.comp(n, fr, st, 'list')

    def ev_GeneratorExp(self, n, fr, st):
        return self.comp(n, fr, st, 'list')

    def ev_SetComp(self, n, fr, st):
        return self.comp(n, fr, st, 'list')

    def ev_DictComp(self, n, fr, st):
        return self.comp(n, fr, st, 'dict')

    def comp(self, n, fr, st, what):
        """desugar into the equivalent statement loop"""
        res = f'__comp{id(n)}'
        saved = {}
        st.env[res] = self.new(st, what, items=())

        def wrap(gens):
            if not gens:
                if what == 'list':
                    call = ast.Expr(ast.Call(ast.Attribute(ast.Name(res, ast.Load()), 'append', ast.Load()),
                                             [n.elt], []))
                    return [call]
                return [ast.Assign([ast.Subscript(ast.Name(res, ast.Load()), n.key, ast.Store())], n.value)]
            g = gens[0]
            body = wrap(gens[1:])
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.For(g.target, g.iter, body, [])]
        key = ('comp', id(n))
        if key not in _comp_cache:
            stmts = wrap(n.generators)
            for s in stmts:
                for x in ast.walk(s):
                    if not hasattr(x, 'lineno'):
                        ast.copy_location(x, n)
                ast.fix_missing_locations(s)
            _comp_cache[key] = (stmts, n)
        stmts = _comp_cache[key][0]
        tnames = [x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)]
        for t in tnames:
            saved[t] = st.env.get(t, None)
        self.block(stmts, fr, st)
        r = st.env.pop(res, None)
        for t in tnames:
            if saved[t] is None:
                st.env.pop(t, None)
            else:
                st.env[t] = saved[t]
        return r if r is not None else mk('list')

    def ev_Await(self, n, fr, st):
        raise Unsupported('await')

    # --------------------------------------------------------------- calls
    def ev_Call(self, n, fr, st):
        self.calls += 1
        f = self.ev(n.func, fr, st)
        args = self.ev_elts(n.args, fr, st)
        if isinstance(args, Term):
            args = [mk('star', args)]
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, fr, st)
            if k.arg is None:
                if isinstance(v, Ref) and st.heap[v.cid].items is not None:
                    for kk, x in st.heap[v.cid].items:
                        if kk.op == 'str':
                            kwargs[kk.args[0]] = x
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        if isinstance(f, Lib) and f.name == 'builtins.super':
            return self.make_super(fr, st)
        return self.call(f, args, kwargs, n, st, fr)

    def make_super(self, fr, st):
        cls = fr.func.cls
        selfname = fr.func.node.args.args[0].arg
        bases = [self.base_class(cls, b) for b in cls.node.bases]
        return Super(st.env[selfname], [b for b in bases if isinstance(b, Cls)])

    def call(self, f, args, kwargs, n, st, fr=None):
        f = self.resolve(f, st)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, n, st)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_v] + list(args), kwargs, n, st)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, n, st)
        if isinstance(f, Lib):
            return self.models.call_lib(self, f.name, list(args), kwargs, n, st, fr)
        if isinstance(f, LibM):
            return self.models.call_method(self, f.obj, f.name, list(args), kwargs, n, st, fr)
        if isinstance(f, Phi):
            pc, facts = st.pc, st.facts
            s1, s2 = st.copy(), st.copy()
            s1.pc = pc + (f.c,)
            a = self.call(f.a, args, kwargs, n, s1, fr)
            s2.pc = pc + (T.not_(f.c),)
            b = self.call(f.b, args, kwargs, n, s2, fr)
            j = self.join(f.c, s1, s2, pc, facts)
            st.assign(j)
            st.pc = pc
            return self.mergeval(f.c, a, b, st)
        if isinstance(f, Inst):
            r = self.class_attr(f.cls, '__call__')
            if r:
                return self.call_func(Func(r[1], r[0].mod, r[0]), [f] + list(args), kwargs, n, st)
        ts = [self.val(a, st) for a in args]
        kts = [mk('kw', k, self.val(v, st)) for k, v in sorted(kwargs.items())]
        ft = self.val(f, st)
        self.effect('lib', T.show(ft), n, st, args=ts, kwargs=kts)
        return mk('call', 'apply', ft, *ts, *kts)

    def instantiate(self, cls, args, kwargs, n, st):
        self.instc += 1
        iid = self.instc
        st.inst[iid] = {}
        o = Inst(iid, cls)
        r = self.class_attr(cls, '__init__')
        if r:
            self.call_func(Func(r[1], r[0].mod, r[0]), [o] + list(args), kwargs, n, st)
        return o

    def bind_args(self, f, args, kwargs, n, st):
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if args and isinstance(args[-1], Term) and args[-1].op == 'star':
            self.note_unknown('symbolic *args', n)
            args.pop()
        for nm, v in zip(names, args):
            env[nm] = v
        if len(args) > len(names):
            if a.vararg:
                env[a.vararg.arg] = tuple(args[len(names):])
            else:
                self.effect('undef', f'too many arguments for {f.qual}', n, st, cond=TRUE)
        elif a.vararg:
            env[a.vararg.arg] = tup()
        kw = dict(kwargs)
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm in kw:
                env[nm] = kw.pop(nm)
        if a.kwarg:
            r = self.new(st, 'dict', items=tuple((string(k), v) for k, v in kw.items()))
            env[a.kwarg.arg] = r
        elif kw:
            self.effect('undef', f'unexpected argument {sorted(kw)} for {f.qual}', n, st, cond=TRUE)
        dfr = Frame(None, f.mod, 0)
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if p.arg not in env:
                env[p.arg] = self.default(d, dfr, st, f)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.default(d, dfr, st, f)
        for nm in names:
            if nm not in env:
                self.effect('undef', f'missing argument {nm} for {f.qual}', n, st, cond=TRUE)
                env[nm] = mk('call', 'undefined', string(nm))
        return env

    def default(self, d, fr, st, f):
        v = self.ev(d, fr, st)
        return v

    def call_func(self, f, args, kwargs, n, st):
        ov = self.overrides.get(f.qual)
        if ov is not None:
            r = ov(self, args, kwargs, n, st)
            if r is not NotImplemented:
                return r
        depth = len(self.callstack)
        if depth > MAXDEPTH or sum(1 for c in self.callstack if c[2] is f.node) >= 2:
            self.note_unknown('recursion ' + f.qual, n)
            return mk('call', 'rec:' + f.qual, *[self.val(a, st) for a in args])
        env = self.bind_args(f, args, kwargs, n, st)
        caller_env = st.env
        entry_pc = st.pc
        fr = Frame(f, f.mod, depth)
        fr.entry_pc = entry_pc
        st.env = env
        self.callstack.append((f.qual, f.mod, f.node, n))
        if not self.quiet:
            self.visited[f.qual] = self.visited.get(f.qual, 0) + 1
        self.effect('enter', f.qual, n, st, args={k: v for k, v in env.items()})
        if isinstance(f.node, ast.Lambda):
            r = self.ev(f.node.body, fr, st)
            self.callstack.pop()
            st.env = caller_env
            return r
        live = self.block(f.node.body, fr, st)
        ret = self.finish(fr, st, live, entry_pc)
        self.callstack.pop()
        st.env = caller_env
        return ret

    def finish(self, fr, st, live, entry_pc):
        """merge the return exits of a function with its fall-through state"""
        k = len(entry_pc)
        if not fr.exits:
            st.pc = entry_pc
            return NONE
        if live and not st.dead:
            acc, ret = st.copy(), NONE
            acc.env = {}
            exits = fr.exits
        else:
            acc, ret = fr.exits[-1][1], fr.exits[-1][2]
            acc = acc.copy()
            acc.env = {}
            exits = fr.exits[:-1]
        for s, v in ((e[1], e[2]) for e in reversed(exits)):
            c = T.and_(*s.pc[k:]) if len(s.pc) > k else TRUE
            s = s.copy()
            s.env = {'__ret': v}
            a2 = acc.copy()
            a2.env = {'__ret': ret}
            j = self.join(c, s, a2, entry_pc, ())
            ret = j.env.get('__ret', NONE)
            j.env = {}
            acc = j
        st.assign(acc)
        st.pc = entry_pc
        st.dead = False
        return ret

    # ---------------------------------------------------------- statements
    def block(self, body, fr, st):
        """returns True if control can reach the end of the block"""
        for s in body:
            if st.dead:
                return False
            self.stmts += 1
            T.SITE[0] = (fr.mod.rel, s.lineno)
            m = getattr(self, 'st_' + type(s).__name__, None)
            if m is None:
                self.note_unknown('statement ' + type(s).__name__, s)
                continue
            live = m(s, fr, st)
            if live is False:
                return False
        return not st.dead

    def st_Expr(self, s, fr, st):
        self.ev(s.value, fr, st)

    def st_Pass(self, s, fr, st):
        pass

    def st_Global(self, s, fr, st):
        self.effect('global', ','.join(s.names), s, st)

    def st_Nonlocal(self, s, fr, st):
        pass

    def st_Import(self, s, fr, st):
        for nm, v in self.import_bindings(s, fr.mod):
            st.env[nm] = v

    st_ImportFrom = st_Import

    def st_FunctionDef(self, s, fr, st):
        st.env[s.name] = Func(s, fr.mod, None, st.env, s.name)

    def st_ClassDef(self, s, fr, st):
        for b in s.bases:
            self.ev(b, fr, st)
        c = st.env[s.name] = Cls(s, fr.mod)
        c.env = dict(st.env)

    def st_Return(self, s, fr, st):
        v = self.ev(s.value, fr, st) if s.value is not None else NONE
        if st.dead:
            return False
        if fr.loops:
            fr.loops[-1]['return'].append((st.copy(), v, s))
        else:
            fr.exits.append(('return', st.copy(), v))
        return False

    def st_Break(self, s, fr, st):
        fr.loops[-1]['break'].append(st.copy())
        return False

    def st_Continue(self, s, fr, st):
        fr.loops[-1]['continue'].append(st.copy())
        return False

    def st_Raise(self, s, fr, st):
        name = ''
        args = []
        if s.exc is not None:
            v = self.ev(s.exc, fr, st)
            t = self.val(v, st)
            name = T.show(t, 2)
            args = [t]
        self.effect('raise', name, s, st, args=args)
        st.dead = True
        return False

    def st_Assert(self, s, fr, st):
        c = self.decide(self.truth(self.ev(s.test, fr, st), st), st)
        self.effect('assert', '', s, st, cond=c)
        if c is FALSE:
            st.dead = True
            return False
        if c is not TRUE:
            st.facts = st.facts + (c,)

    def st_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.checked(self.lookup(t.id, fr, st), t.id, t, st)
                st.env[t.id] = UNDEF
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, fr, st)
                self.effect('delattr', t.attr, s, st, obj=self.val(b, st))
                if isinstance(b, Inst):
                    if t.attr not in st.inst[b.iid] and not self.class_attr(b.cls, t.attr):
                        self.effect('undef', b.cls.name + '.' + t.attr, t, st, cond=TRUE)
                    else:
                        if t.attr in st.inst[b.iid]:
                            self.checked(st.inst[b.iid][t.attr], 'self.' + t.attr, t, st)
                        st.inst[b.iid][t.attr] = UNDEF
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, fr, st)
                idx = self.ev_index(t.slice, fr, st)
                self.effect('delitem', '', s, st, obj=self.val(b, st), key=idx, base=ast.dump(t.value), ref=b)

    def st_Assign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        for t in s.targets:
            self.assign(t, v, fr, st, s)

    def st_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr, st), fr, st, s)

    def assign(self, t, v, fr, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st, node)
        elif isinstance(t, ast.Attribute):
            if t.attr == 'shape':
                return self.set_shape(t, v, fr, st, node)
            b = self.resolve(self.ev(t.value, fr, st), st)
            if isinstance(b, Inst):
                st.inst[b.iid][t.attr] = v
            elif isinstance(b, (Ref, Phi)) and t.attr in ('real', 'imag', 'flat'):
                self.put(self.attr_ref(b, t.attr, st), self.val(v, st), st, node)
            elif isinstance(b, (Lib, ModV, Cls, Func)):
                self.effect('setglobal', f'{T.show(self.val(b, st))}.{t.attr}', node, st, value=self.val(v, st))
            else:
                self.effect('setattr', t.attr, node, st, obj=self.val(b, st), value=self.val(v, st))
        elif isinstance(t, ast.Subscript):
            b = self.resolve(self.ev(t.value, fr, st), st)
            idx = self.ev_index(t.slice, fr, st)
            self.setitem(b, idx, v, st, node)
        else:
            self.note_unknown('assign target', node)

    def attr_ref(self, b, name, st):
        if isinstance(b, Phi):
            return Phi(b.c, self.attr_ref(b.a, name, st), self.attr_ref(b.b, name, st))
        return Ref(b.cid, b.lens + ((name,),))

    def set_shape(self, t, v, fr, st, node):
        b = self.resolve(self.ev(t.value, fr, st), st)
        sh = self.val(v, st)
        if sh.op == 'list':
            sh = mk('tuple', *sh.args)
        if isinstance(b, Ref) and not b.lens:
            c = st.heap[b.cid]
            if c.prov is not None:
                self.effect('mutate', c.prov, node, st, how='shape', value=sh, cid=b.cid)
            old = self.cell_term(st, b.cid)
            st.heap[b.cid] = c.but(term=T.reshape(old, sh), items=None)
        else:
            nb = self.reshape_value(b, sh, st)
            if isinstance(t.value, ast.Name):
                st.env[t.value.id] = nb
            elif isinstance(t.value, ast.Attribute):
                o = self.ev(t.value.value, fr, st)
                if isinstance(o, Inst):
                    st.inst[o.iid][t.value.attr] = nb

    def reshape_value(self, b, sh, st):
        if isinstance(b, Phi):
            return Phi(b.c, self.reshape_value(b.a, sh, st), self.reshape_value(b.b, sh, st))
        if isinstance(b, Ref):
            return Ref(b.cid, b.lens + (('reshape', sh),))
        return T.reshape(self.val(b, st), sh)

    def setitem(self, b, idx, v, st, node):
        b = self.resolve(b, st)
        if isinstance(b, Phi):
            for side, cond in ((b.a, b.c), (b.b, T.not_(b.c))):
                if isinstance(side, (Ref, Phi)):
                    cur = self.val(side, st)
                    new = T.store(cur, T.as_ix(idx), self.val(v, st))
                    self.put(side, T.ite(cond, new, cur), st, node)
            return
        if isinstance(b, Ref):
            c = st.heap[b.cid]
            if c.kind == 'dict' and not b.lens:
                key = idx if idx.op != 'ix' else tup(*idx.args)
                return self.dict_set(st, b, key, v, node)
            if c.kind == 'list' and not b.lens:
                if c.prov is not None:
                    self.effect('mutate', c.prov, node, st, how='setitem', value=self.val(v, st), cid=b.cid)
                k = T.intval(idx) if idx.op == 'num' else None
                if c.items is not None and k is not None and -len(c.items) <= k < len(c.items):
                    items = list(c.items)
                    items[k] = v
                    st.heap[b.cid] = c.but(items=tuple(items))
                    self.reparent(st, b.cid, c)
                    return
                self.termify(st, b.cid)
                t = self.cell_term(st, b.cid)
                self.set_cell(st, b.cid, T.store(t, ix(idx), self.val(v, st)), t)
                if isinstance(v, Ref) and not v.lens:
                    st.elem[(b.cid, idx)] = v.cid
                    st.parent[v.cid] = (b.cid, idx)
                    self.adopt(st, v.cid)
                return
            es = T.as_ix(idx)
            lens = b.lens + ((('ix', es),) if es.args else ())
            cur = self.val(Ref(b.cid, b.lens), st)
            self.put(Ref(b.cid, b.lens), T.store(cur, es, self.val(v, st)), st, node, how='setitem')
            return
        if isinstance(b, Lib):
            self.effect('setglobal', b.name + '[]', node, st, key=idx, value=self.val(v, st))
            return
        if isinstance(b, Obj):
            self.effect('objset', b.cls, node, st, key=idx, value=self.val(v, st))
            return
        self.note_unknown('subscript store into ' + type(b).__name__, node)

    def unpack(self, elts, v, fr, st, node):
        v = self.resolve(v, st)
        its = self.concrete_items(v, st)
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if its is not None:
            if star:
                i = star[0]
                tail = n - i - 1
                vs = its[:i] + [self.new(st, 'list', items=tuple(its[i:len(its) - tail]))] + its[len(its) - tail:]
            else:
                vs = its
            if len(vs) != n:
                self.effect('undef', 'unpack arity', node, st, cond=TRUE)
                vs = (vs + [mk('call', 'undefined')] * n)[:n]
        elif isinstance(v, Phi):
            vs = [self.getitem(v, num(i), node, fr, st) for i in range(n)]
        elif isinstance(v, Term) and v.op == 'ite':
            vs = [self.getitem(v, num(i), node, fr, st) for i in range(n)]
        else:
            vs = [self.getitem(v, num(i), node, fr, st) for i in range(n)]
        for e, x in zip(elts, vs):
            self.assign(e, x, fr, st, node)

    def st_AugAssign(self, s, fr, st):
        t = s.target
        if isinstance(t, ast.Subscript):
            b = self.resolve(self.ev(t.value, fr, st), st)
            idx = self.ev_index(t.slice, fr, st)
            cur = self.getitem(b, idx, s, fr, st)
            rhs = self.ev(s.value, fr, st)
            r = self.binop(s.op, cur, rhs, s, st)
            self.setitem(b, idx, r, st, s)
            return
        load = ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name) else ast.Attribute(t.value, t.attr, ast.Load())
        ast.copy_location(load, t)
        cur = self.ev(load, fr, st)
        rhs = self.ev(s.value, fr, st)
        k = self.vkind(cur, st)
        if k == 'arr' and isinstance(cur, (Ref, Phi)):
            r = arith(s.op, self.val(cur, st), self.val(rhs, st), self)
            self.put(cur, r, st, s, how='inplace')
            return
        if k == 'list' and isinstance(cur, Ref) and isinstance(s.op, ast.Add):
            self.models.list_extend(self, cur, rhs, s, st)
            return
        r = self.binop(s.op, cur, rhs, s, st)
        self.assign(t, r, fr, st, s)

    def st_If(self, s, fr, st):
        v = self.ev(s.test, fr, st)
        c = self.decide(self.truth(v, st), st)
        if c is TRUE:
            return self.block(s.body, fr, st)
        if c is FALSE:
            return self.block(s.orelse, fr, st)
        pc, facts = st.pc, st.facts
        s1, s2 = st.copy(), st.copy()
        nc = T.not_(c)
        s1.pc = pc + (c,)
        s2.pc = pc + (nc,)
        l1 = self.block(s.body, fr, s1)
        l2 = self.block(s.orelse, fr, s2)
        if not l1 and not l2:
            st.assign(s1)
            st.dead = s1.dead and s2.dead
            st.pc = pc
            return False
        if l1 and l2:
            # a branch may itself carry residual guards (inner early exits)
            c1 = T.and_(*s1.pc[len(pc):])
            c2 = T.and_(*s2.pc[len(pc):])
            j = self.join(c1, s1, s2, pc, facts)
            rem = T.or_(c1, c2)
            st.assign(j)
            st.pc = pc if rem is TRUE or c1 is c and c2 is nc else pc + (rem,)
            return True
        a, dead = (s1, s2) if l1 else (s2, s1)
        st.assign(a)
        if dead.dead:
            # other branch raised: the condition is a fact about every continuing run
            if a.pc == pc + ((c if l1 else nc),):
                st.facts = a.facts + (c if l1 else nc,)
                st.pc = pc
        return True

    def st_With(self, s, fr, st):
        opened = []
        for it in s.items:
            v = self.ev(it.context_expr, fr, st)
            opened.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr, st, s)
        live = self.block(s.body, fr, st)
        for v in opened:
            if isinstance(v, Obj):
                self.effect('exit', v.cls, s, st, obj=self.val(v, st))
        return live

    def st_Try(self, s, fr, st):
        pc, facts = st.pc, st.facts
        pre = st.copy()
        e0 = len(self.effects)
        nex = len(fr.exits)
        live = self.block(s.body, fr, st)
        if live and s.orelse:
            live = self.block(s.orelse, fr, st)
        body_state = st.copy()
        # does anything in the handlers continue normally?
        exc = mk('sym', f'exc@{self.callstack[-1][0] if self.callstack else ""}:{s.body[0].lineno - getattr(fr.func.node, "lineno", 0) if fr.func else 0}')
        T.INFO.setdefault(exc.args[0], {})['bool'] = True
        cur, curlive = body_state, live
        for h in s.handlers:
            hs = pre.copy()
            hs.pc = pc + (exc,)
            if h.name:
                hs.env[h.name] = Obj('exception')
            tname = ast.unparse(h.type) if h.type is not None else '*'
            self.effect('except', tname, h, hs)
            hl = self.block(h.body, fr, hs)
            if hl and not hs.dead:
                if curlive and not cur.dead:
                    j = self.join(exc, hs, cur, pc, facts)
                    j.pc = pc
                    cur, curlive = j, True
                else:
                    cur, curlive = hs, True
        st.assign(cur)
        if curlive:
            st.dead = False
        if s.finalbody:
            self.block(s.finalbody, fr, st)
        return bool(curlive) and not st.dead

    # --------------------------------------------------------------- loops
    def st_For(self, s, fr, st):
        it = self.ev(s.iter, fr, st)
        return self.for_values(s, it, fr, st)

    def for_values(self, s, it, fr, st):
        it = self.resolve(it, st)
        prod = it.attrs.get('iters') if isinstance(it, Obj) and it.cls == 'product' else None
        if prod is not None:
            return self.for_product(s, prod, fr, st)
        if isinstance(it, Phi):
            its = None
        else:
            its = self.concrete_items(it, st)
        if its is not None and len(its) <= 16:
            return self.unroll(s, its, fr, st)
        d = self.models.iterdesc(self, it, s, st)
        hint = s.target.id if isinstance(s.target, ast.Name) else 'i'
        v = T.fresh_var(hint, int=True, min=0, real=True, hi=d.n)

        def bind(st2):
            self.assign(s.target, d.elem(st2, v), fr, st2, s)
        return self.sym_loop(s, v, d.n, bind, s.body, fr, st, orelse=s.orelse)

    def for_product(self, s, its, fr, st):
        names = [f'__p{i}_{s.lineno}' for i in range(len(its))]
        body = [ast.Assign([s.target], ast.Tuple([ast.Name(x, ast.Load()) for x in names], ast.Load()))] + s.body
        for i, nm in reversed(list(enumerate(names))):
            st.env['__it' + nm] = its[i]
            body = [ast.For(ast.Name(nm, ast.Store()), ast.Name('__it' + nm, ast.Load()), body, [])]
        for b in body:
            for x in ast.walk(b):
                if not hasattr(x, 'lineno'):
                    ast.copy_location(x, s)
            ast.fix_missing_locations(b)
        return self.block(body, fr, st)

    def unroll(self, s, its, fr, st):
        pc0 = st.pc
        pending = []
        for x in its:
            ctl = {'break': [], 'continue': [], 'return': []}
            fr.loops.append(ctl)
            self.assign(s.target, x, fr, st, s)
            live = self.block(s.body, fr, st)
            fr.loops.pop()
            for rs, v, node in ctl['return']:
                if fr.loops:
                    fr.loops[-1]['return'].append((rs, v, node))
                else:
                    fr.exits.append(('return', rs, v))
            st2 = self.merge_states([(st.copy() if live and not st.dead else None)] + ctl['continue'], pc0)
            pending.extend(ctl['break'])
            if st2 is None:
                live = False
                break
            st.assign(st2)
            live = True
        else:
            live = True
            if s.orelse:
                live = self.block(s.orelse, fr, st)
        fin = self.merge_states(([st.copy()] if live and not st.dead else []) + pending, pc0)
        if fin is None:
            return False
        st.assign(fin)
        return True

    def merge_states(self, states, pc0):
        states = [s for s in states if s is not None and not s.dead]
        if not states:
            return None
        k = len(pc0)
        acc = states[-1].copy()
        conds = [T.and_(*acc.pc[k:])]
        for s in reversed(states[:-1]):
            c = T.and_(*s.pc[k:]) if len(s.pc) > k else TRUE
            conds.append(c)
            acc = self.join(c, s, acc, pc0, ()).copy()
        tot = T.or_(*conds)
        acc.pc = pc0 if tot is TRUE else pc0 + (tot,)
        return acc

    def st_While(self, s, fr, st):
        v = T.fresh_var('w', int=True, min=0, real=True)
        test = s.test
        iff = ast.If(ast.UnaryOp(ast.Not(), test), [ast.Break()], [])
        for x in ast.walk(iff):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, s)
        ast.fix_missing_locations(iff)
        const_true = isinstance(test, ast.Constant) and bool(test.value)
        body = ([] if const_true else [iff]) + s.body
        return self.sym_loop(s, v, None, lambda st2: None, body, fr, st)

    def sym_loop(self, s, v, n, bind, body, fr, st, orelse=None):
        from .loops import SymLoop
        return SymLoop(self, s, v, n, bind, body, fr, st, orelse).run()


def adv_getitem(t, es):
    """indexing with an index array as numpy defines it: when the array and another advanced index (an integer counts) are
    separated by a slice, the array's axis comes first.  Terms use orthogonal indexing, so that case becomes a transposition."""
    a = es.args
    adv = [i for i, e in enumerate(a) if e.op not in ('sl', 'ell', 'ixlist') and e is not NONE]
    arrs = [i for i in adv if T.kind(a[i]) in ('arr', 'list')]
    if len(arrs) == 1 and len(adv) > 1 and adv[-1] - adv[0] + 1 != len(adv) and not any(T.is_bool(e) for e in a):
        r = T.getitem(t, es)
        if any(e is ELL for e in a):
            return mk('call', 'advindex', t, es)
        k = sum(1 for e in a[:arrs[0]] if e.op == 'sl' or e is NONE)
        sh = T.SHAPE_HOOK(r)
        if sh is None or sh.op != 'tuple':
            return mk('call', 'advindex', t, es)
        n = len(sh.args)
        p = (k,) + tuple(i for i in range(n) if i != k)
        return r if p == tuple(range(n)) else T.transpose(r, None if p == (1, 0) else p)
    return T.getitem(t, es)


class Super:
    def __init__(self, self_v, bases):
        self.self_v, self.bases = self_v, bases


_comp_cache = {}


def undef_cond(v):
    if v is UNDEF:
        return TRUE
    if isinstance(v, Phi):
        return T.cond_ite(v.c, undef_cond(v.a), undef_cond(v.b))
    if isinstance(v, Term) and v.op == 'ite':
        a, b = undef_cond(v.args[1]), undef_cond(v.args[2])
        if a is FALSE and b is FALSE:
            return FALSE
        return T.cond_ite(v.args[0], a, b)
    return FALSE


def strip_undef(v):
    if isinstance(v, Phi):
        a, b = strip_undef(v.a), strip_undef(v.b)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return Phi(v.c, a, b)
    if isinstance(v, Term) and v.op == 'ite':
        a, b = strip_undef(v.args[1]), strip_undef(v.args[2])
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
    return v


def concat(*parts):
    out = []
    for p in parts:
        ps = p.args if p.op == 'concat' else (p,)
        for x in ps:
            if x.op == 'tuple':
                x = mk('list', *x.args)
            if x.op == 'list' and out and out[-1].op == 'list':
                out[-1] = mk('list', *out[-1].args, *x.args)
            elif x.op == 'list' and not x.args:
                continue
            else:
                out.append(x)
    if len(out) == 1:
        return out[0]
    return mk('concat', *out)


def length(t):
    if t.op in ('tuple', 'list'):
        return num(len(t.args))
    if t.op == 'str':
        return num(len(t.args[0]))
    if t.op == 'rep':
        return t.args[1]
    if t.op == 'concat':
        return T.add(*[length(x) for x in t.args])
    if t.op in ('store', 'scatter', 'scatter2') and T.kind(t.args[0]) == 'list':
        return length(t.args[0])
    if t.op == 'listcomp':
        init, v, lo, hi, cond, val = t.args
        if cond is TRUE:
            return T.add(length(init), hi)
        return T.add(length(init), mk('sum', v, lo, hi, T.b2i(cond)))
    if t.op == 'append':
        return T.add(length(t.args[0]), ONE)
    if t.op == 'range1':
        lo, hi, st = t.args
        if st is ONE:
            return T.sub(hi, lo)
    if t.op == 'edict':
        return ZERO
    if t.op == 'scatter' and T.kind(t.args[0]) == 'dict' and t.args[4].args == (t.args[1],):
        if t.args[0].op == 'edict':
            return t.args[3]
    if t.op == 'shape':
        return mk('ndim', t.args[0])
    if T.kind(t) == 'arr':
        return T.getitem(T.shape_of(t), ix(ZERO))
    return mk('len', t)


def arith(op, a, b, ip=None):
    if isinstance(op, ast.Add):
        return T.add(a, b)
    if isinstance(op, ast.Sub):
        return T.sub(a, b)
    if isinstance(op, ast.Mult):
        return T.mul(a, b)
    if isinstance(op, ast.Div):
        return T.div(a, b)
    if isinstance(op, ast.FloorDiv):
        return T.floordiv(a, b)
    if isinstance(op, ast.Mod):
        return T.mod(a, b)
    if isinstance(op, ast.Pow):
        return T.power(a, b)
    if isinstance(op, ast.MatMult):
        return T.matmul(a, b)
    if isinstance(op, ast.BitAnd) and T.is_bool(a) and T.is_bool(b):
        return T.and_(a, b)
    if isinstance(op, ast.BitOr) and T.is_bool(a) and T.is_bool(b):
        return T.or_(a, b)
    return mk('elem', type(op).__name__, a, b)


def decide(c, facts):
    """simplify condition c under a conjunction of facts"""
    if c is TRUE or c is FALSE:
        return c
    flat = []
    for f in facts:
        flat.extend(f.args if f.op == 'and' else (f,))
    fs = set(flat)
    return _decide(c, fs)


def _decide(c, fs):
    if c in fs:
        return TRUE
    n = T.not_(c)
    if n in fs:
        return FALSE
    if c.op == 'and':
        return T.and_(*[_decide(x, fs) for x in c.args])
    if c.op == 'or':
        return T.or_(*[_decide(x, fs) for x in c.args])
    if c.op == 'not':
        return T.not_(_decide(c.args[0], fs))
    if c.op in ('le0', 'lt0'):
        for f in fs:
            if f.op in ('le0', 'lt0'):
                d = T.sub(c.args[0], f.args[0])
                if d.op == 'num':
                    if d.args[0] < 0 or d.args[0] == 0 and (f.op == 'lt0' or c.op == 'le0'):
                        return TRUE
                elif T.nonneg(T.neg(d)) and (c.op == 'le0' or f.op == 'lt0'):
                    return TRUE
                if n.op in ('le0', 'lt0'):
                    d = T.sub(n.args[0], f.args[0])
                    if d.op == 'num' and (d.args[0] < 0 or d.args[0] == 0 and (f.op == 'lt0' or n.op == 'le0')):
                        return FALSE
                    if d.op != 'num' and T.nonneg(T.neg(d)) and (n.op == 'le0' or f.op == 'lt0'):
                        return FALSE
            elif f.op == 'eq0':
                for sg in (1, -1):
                    d = T.add(c.args[0], T.mul(num(sg), f.args[0]))
                    if d.op == 'num':
                        v = d.args[0]
                        return TRUE if (v <= 0 if c.op == 'le0' else v < 0) else FALSE
    if c.op == 'eq0':
        for f in fs:
            if f.op in ('le0', 'lt0'):
                # f: q<=0 ; c: p==0.  q = p + k with k>0 excludes p==0 ...
                for sg in (1, -1):
                    d = T.sub(f.args[0], T.mul(num(sg), c.args[0]))
                    if d.op == 'num' and (d.args[0] > 0 or d.args[0] == 0 and f.op == 'lt0'):
                        return FALSE
            elif f.op == 'eq0':
                for sg in (1, -1):
                    d = T.sub(f.args[0], T.mul(num(sg), c.args[0]))
                    if d.op == 'num' and d.args[0] != 0:
                        return FALSE
    if c.op == 'eq':
        # x == 'a' known  =>  x == 'b' false
        lit = ('str', 'num', 'none', 'dtype', 'cls')
        for f in fs:
            if f.op == 'eq':
                for x, y in ((f.args[0], f.args[1]), (f.args[1], f.args[0])):
                    for u, w in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                        if x is u and y is not w and y.op in lit and w.op in lit:
                            return FALSE
    return c
