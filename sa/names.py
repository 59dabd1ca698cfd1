"""Which names a function may read before they are bound.

Disjunctive flow analysis over the syntax tree: a state is (unbound local names, assumed outcomes of tests).  Two tests with the same text have
the same outcome as long as nothing they mention is bound again or may be changed in between, so branches that are taken together are followed
together.  Loops are followed for one or more rounds, in later rounds only names unbound whatever the outcome of tests count; an if/elif chain that compares one expression with constants is taken to be exhaustive;
exception handlers are entered from every statement boundary of the body."""
import ast

CAP = 64


def binds(node):
    """local names bound by the statements of a function (not of nested functions)"""
    out, glob = {}, set()

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.setdefault(n.id, n)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.setdefault(n.name, n)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    target(c.target)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.setdefault((a.asname or a.name).split('.')[0], n)
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.setdefault(n.name, n)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.setdefault(n.id, n)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in node.body:
        walk(s)
    return {k: v for k, v in out.items() if k not in glob}


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def mentioned(text):
    """names and attribute names a test depends on"""
    t = ast.parse(text, mode='eval')
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)} | {'.' + n.attr for n in ast.walk(t) if isinstance(n, ast.Attribute)}


class State:
    __slots__ = ('un', 'as_')

    def __init__(self, un, as_):
        self.un, self.as_ = un, as_

    def key(self):
        return (self.un, frozenset(self.as_.items()))


def merge(states):
    d = {}
    for s in states:
        d.setdefault(s.key(), s)
    states = list(d.values())
    # states with the same unbound names keep the assumptions they share
    by = {}
    for s in states:
        by.setdefault(s.un, []).append(s)
    if len(states) > CAP:
        states = []
        for un, ss in by.items():
            c = dict(ss[0].as_)
            for s in ss[1:]:
                c = {k: v for k, v in c.items() if s.as_.get(k, None) is v}
            states.append(State(un, c))
    return states[:4 * CAP]


class Flow:
    def __init__(self, fn, report):
        self.fn, self.report = fn, report
        self.locals = set(binds(fn)) | set(params(fn))
        self.reads = 0
        self.seen = set()

    def run(self):
        un = frozenset(self.locals - set(params(self.fn)))
        self.loops = []
        self.again = 0
        self.tries = []
        self.block(self.fn.body, [State(un, {})])

    # ---- expressions
    def expr(self, e, states):
        if e is None:
            return states
        if isinstance(e, ast.NamedExpr):
            states = self.expr(e.value, states)
            return self.bind([e.target.id], states)
        if isinstance(e, ast.BoolOp):
            # every operand but the first is read only if the ones before it let it
            states = self.expr(e.values[0], states)
            cur = states
            for prev, v in zip(e.values, e.values[1:]):
                cur = self.assume(prev, isinstance(e.op, ast.And), cur)
                cur = self.expr(v, cur)
            return states
        if isinstance(e, ast.IfExp):
            states = self.expr(e.test, states)
            a = self.expr(e.body, self.assume(e.test, True, states))
            b = self.expr(e.orelse, self.assume(e.test, False, states))
            return states
        if isinstance(e, ast.Lambda):
            own = set(params(e))
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                states = self.expr(d, states)
            return states                    # read when it is called
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            own = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            first = True
            for g in e.generators:
                self.sub(g.iter, states, set() if first else own)
                first = False
                for c in g.ifs:
                    self.sub(c, states, own)
            for p in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.sub(p, states, own)
            return states
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals:
                self.reads += 1
                bad = [s for s in states if e.id in s.un]
                if bad:
                    self.hit(e, bad, len(bad) == len(states))
                    return [s for s in states if e.id not in s.un] or [State(s.un - {e.id}, s.as_) for s in states]
            return states
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                states = self.expr(c, states)
            elif isinstance(c, (ast.keyword, ast.FormattedValue)):
                states = self.expr(c.value, states)
        return states

    def sub(self, e, states, own):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in own:
                self.reads += 1
                bad = [s for s in states if n.id in s.un]
                if bad:
                    self.hit(n, bad, len(bad) == len(states))

    def hit(self, e, bad, always):
        k = (e.id, e.lineno, e.col_offset)
        if k in self.seen or self.again and not (always and any(set(q.as_) <= self.base for q in bad)):
            return
        self.seen.add(k)
        self.report(self.fn, e, always, sorted(f'{"" if v else "not "}({t})' for t, v in bad[0].as_.items()))

    # ---- states
    def bind(self, names, states):
        names = set(names)
        out = []
        for s in states:
            as_ = {k: v for k, v in s.as_.items() if not (mentioned(k) & names)} if s.as_ else s.as_
            out.append(State(s.un - names, as_))
        return out

    def forget(self, states, node):
        """assignments through attributes and elements may change the outcome of tests that mention them"""
        ms = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    if isinstance(b, ast.Attribute):
                        ms.add('.' + b.attr)
                        break
                    b = b.value
                if isinstance(b, ast.Name):
                    ms.add(b.id)
        if not ms:
            return states
        return [State(s.un, {k: v for k, v in s.as_.items() if not (mentioned(k) & ms)}) for s in states]

    def assume(self, test, val, states):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, not val, states)
        if isinstance(test, ast.Constant):
            return states if bool(test.value) == val else []
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == val:
                for v in test.values:
                    states = self.assume(v, val, states)
                return states
            out, cur = [], states
            for v in test.values:
                out += self.assume(v, val, cur)
                cur = self.assume(v, not val, cur)
            return merge(out)
        neg, t = canonical(test)
        val = val != neg
        if any(isinstance(n, (ast.Call, ast.Await, ast.NamedExpr)) for n in ast.walk(test)) and not pure(test):
            return states
        k = ast.unparse(t)
        out = []
        for s in states:
            v = s.as_.get(k, decide(t, s.as_))
            if v is None:
                a = dict(s.as_)
                a[k] = val
                out.append(State(s.un, a))
            elif v == val:
                out.append(s)
        return out

    # ---- statements; returns the states that fall through
    def block(self, body, states):
        for s in body:
            if not states:
                return states
            states = merge(self.stmt(s, states))
            for t in self.tries:
                t.extend(states)
        return states

    def stmt(self, s, states):
        if isinstance(s, (ast.Expr, ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                states = self.expr(c, states)
            if isinstance(s, ast.Expr) and stops(s.value):
                return []
            return states if isinstance(s, ast.Expr) else []
        if isinstance(s, ast.Assert):
            states = self.expr(s.test, states)
            return self.assume(s.test, True, states)
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            states = self.expr(s.value, states)
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                states = self.expr(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), states)
            names = []
            for t in ts:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        names.append(n.id)
                states = self.targets(t, states)
            states = self.forget(states, s)
            if not (isinstance(s, ast.AnnAssign) and s.value is None):
                states = self.bind(names, states)
            if isinstance(s, ast.Assign) and len(ts) == 1 and isinstance(ts[0], ast.Name) and isinstance(s.value, ast.Constant):
                c = s.value.value
                if isinstance(c, bool):
                    states = [State(q.un, {**q.as_, ts[0].id: c}) for q in states]
                elif c is None:
                    states = [State(q.un, {**q.as_, f'{ts[0].id} is None': True}) for q in states]
                elif isinstance(c, (int, str)):
                    states = [State(q.un, {**q.as_, ast.unparse(ast.Compare(ast.Name(ts[0].id, ast.Load()), [ast.Eq()], [s.value])): True}) for q in states]
            return states
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    states = self.expr(ast.copy_location(ast.Name(t.id, ast.Load()), t), states)
                    states = [State(q.un | ({t.id} & self.locals), q.as_) for q in self.bind([t.id], states)]
                else:
                    states = self.targets(t, states)
            return self.forget(states, s)
        if isinstance(s, ast.If):
            return self.if_(s, states)
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, states)
        if isinstance(s, (ast.Break, ast.Continue)):
            self.loops[-1][0 if isinstance(s, ast.Break) else 1].extend(states)
            return []
        if isinstance(s, ast.With):
            for i in s.items:
                states = self.expr(i.context_expr, states)
                if i.optional_vars is not None:
                    states = self.bind([n.id for n in ast.walk(i.optional_vars) if isinstance(n, ast.Name)], states)
            return self.block(s.body, states)
        if isinstance(s, ast.Try):
            mid = list(states)
            self.tries.append(mid)
            out = self.block(s.body, states)
            self.tries.pop()
            if s.orelse:
                out = self.block(s.orelse, out)
            for h in s.handlers:
                st = merge(mid)
                if h.type is not None:
                    st = self.expr(h.type, st)
                if h.name:
                    st = self.bind([h.name], st)
                st = self.block(h.body, st)
                if h.name:
                    st = [State(q.un | {h.name}, q.as_) for q in st]
                out = out + st
            if s.finalbody:
                out = self.block(s.finalbody, merge(out))
            return out
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                states = self.expr(d, states)
            if isinstance(s, ast.FunctionDef):
                for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
                    states = self.expr(d, states)
            return self.bind([s.name], states)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.bind([(a.asname or a.name).split('.')[0] for a in s.names], states)
        return states

    def targets(self, t, states):
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                states = self.targets(e, states)
        elif isinstance(t, ast.Starred):
            states = self.targets(t.value, states)
        elif isinstance(t, ast.Attribute):
            states = self.expr(t.value, states)
        elif isinstance(t, ast.Subscript):
            states = self.expr(t.slice, self.expr(t.value, states))
        return states

    def if_(self, s, states):
        states = self.expr(s.test, states)
        a = self.block(s.body, self.assume(s.test, True, states))
        rest = self.assume(s.test, False, states)
        if s.orelse:
            b = self.block(s.orelse, rest)
        elif exhaustive(s):
            b = []
        else:
            b = rest
        return a + b

    def loop(self, s, states):
        endless = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
        brk, first, out = [], states, []
        if isinstance(s, ast.For):
            states = self.expr(s.iter, states)
        names = [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)] if isinstance(s, ast.For) else []
        # the body of a loop may change what a test of an earlier round was about
        changed = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(names)
        attrs = {'.' + n.attr for b in s.body for n in ast.walk(b) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        cur = states
        for rnd in range(2):
            self.again += rnd
            if rnd and self.again == 1:
                self.base = {k for q in cur for k in q.as_}
            if isinstance(s, ast.While):
                cur = self.expr(s.test, cur)
                cur = self.assume(s.test, True, cur)
            else:
                cur = self.bind(names, cur)
            con = []
            self.loops.append((brk, con))
            end = self.block(s.body, cur)
            self.loops.pop()
            self.again -= rnd
            end = merge(end + con)
            out += end
            cur = [State(q.un, {k: v for k, v in q.as_.items() if not (mentioned(k) & (changed | attrs))}) for q in end]
            if not cur:
                break
        if endless:
            out = []
        elif isinstance(s, ast.While):
            out = self.assume(s.test, False, cur) or out
        if s.orelse:
            out = self.block(s.orelse, merge(out))
        elif isinstance(s, ast.For) and brk:
            # a search: it ends with the item found
            found = frozenset.union(*[q.un for q in brk])
            out = [State(q.un & found, q.as_) for q in out]
        return merge(out + brk)


def stops(v):
    return isinstance(v, ast.Call) and ast.unparse(v.func) in ('sys.exit', 'exit', 'quit', 'os._exit', 'os.abort')


PURE = {'isinstance', 'len', 'hasattr', 'callable', 'type', 'str', 'int', 'float', 'abs', 'min', 'max', 'any', 'all', 'bool', 'issubclass'}


def pure(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in PURE:
                continue
            if isinstance(f, ast.Attribute) and f.attr in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'get', 'isrealobj', 'iscomplexobj', 'keys'):
                continue
            return False
        if isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield)):
            return False
    return True


def canonical(t):
    """(negated, test): != is the negation of ==, and so on"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        o = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}.get(type(t.ops[0]))
        if o:
            return True, ast.Compare(t.left, [o()], t.comparators)
    return False, t


def decide(t, as_):
    """a test that compares an expression with a constant it is known to be different from (or equal to)"""
    c = const_test(t)
    if c is None:
        return None
    e, v = c
    for k, val in as_.items():
        if not val or '==' not in k and ' is ' not in k:
            continue
        d = const_test(ast.parse(k, mode='eval').body)
        if d and d[0] == e:
            return repr(d[1]) == repr(v)
    return None


def const_test(t):
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is)) and isinstance(t.comparators[0], ast.Constant):
        return ast.unparse(t.left), t.comparators[0].value
    return None


def subject(t):
    """the expression an alternative of a chain is about"""
    if isinstance(t, ast.BoolOp):
        s = [subject(v) for v in t.values]
        if isinstance(t.op, ast.And):
            return next((x for x in s if x), None)
        return s[0] if len(set(s)) == 1 else None
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.In, ast.Is)):
        return ast.unparse(t.left)
    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Attribute):
        return ast.unparse(t.value)
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and t.args:
        return 'type ' + ast.unparse(t.args[0])
    return None


def exhaustive(s):
    """the last alternative of a chain of at least two comparisons of one expression with constants"""
    sub = subject(s.test)
    if sub is None:
        return False
    p = getattr(s, '_parent', None)
    return isinstance(p, ast.If) and len(p.orelse) == 1 and p.orelse[0] is s and subject(p.test) == sub
