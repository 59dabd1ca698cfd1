"""C26 every name, attribute of the package and call resolves on every path"""
import ast
import builtins
import glob
import importlib
import os
import sys

from .. import front
from ..names import Flow, binds, params

STD = set(getattr(sys, 'stdlib_module_names', ()))
NAMESPACE = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__path__', '__class__', '__loader__'}


def stubs(name):
    """names a numpy module exports according to its stub file"""
    for root in ('/opt/venv', '/opt/veriftools/pyvenv'):
        for f in glob.glob(f'{root}/lib/python3*/site-packages/{name.replace(".", "/")}/__init__.pyi'):
            out = set()
            for n in ast.walk(ast.parse(open(f, encoding='utf-8').read())):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name).split('.')[0] for a in n.names}
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
            d = os.path.dirname(f)
            out |= {e.split('.')[0] for e in os.listdir(d)}
            return out
    return None


class Index:
    def __init__(self, repo):
        self.repo = repo
        self.top, self.alias = {}, {}
        for m in repo.modules.values():
            t, al = set(), {}
            for n in self.outer(m.tree):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    t.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    t.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    t.add(n.name)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    t |= set(n.names)
            for n in self.outer(m.tree):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for k, v in self.imports(m, n):
                        t.add(k)
                        al[k] = v
            self.top[m.name], self.alias[m.name] = t, al
        self.methods, self.bases, self.attrs = {}, {}, {}
        for m in repo.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    q = (m.name, n.name)
                    self.methods[q] = {f.name: f for f in n.body if isinstance(f, ast.FunctionDef)}
                    self.bases[q] = n.bases
                    a = set(self.methods[q])
                    for f in ast.walk(n):
                        if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Store) and isinstance(f.value, ast.Name):
                            a.add(f.attr)
                        elif isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == 'setattr':
                            a.add('*')
                    for f in n.body:
                        for z in ast.walk(f) if not isinstance(f, ast.FunctionDef) else ():
                            if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store):
                                a.add(z.id)
                    self.attrs[q] = a

    def outer(self, tree):
        """nodes of a module outside functions and classes"""
        todo = list(tree.body)
        while todo:
            n = todo.pop()
            yield n
            if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                todo.extend(ast.iter_child_nodes(n))

    def imports(self, m, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                yield (a.asname or a.name.split('.')[0], ('module', a.name if a.asname else a.name.split('.')[0]))
        else:
            base = n.module or ''
            if n.level:
                up = m.name.split('.')
                up = up[:len(up) - n.level + (1 if m.path.endswith('__init__.py') else 0)]
                base = '.'.join(up + ([base] if base else []))
            for a in n.names:
                if f'{base}.{a.name}' in self.repo.modules:
                    yield (a.asname or a.name, ('module', f'{base}.{a.name}'))
                else:
                    yield (a.asname or a.name, ('name', base, a.name))

    def resolve(self, mod, e, local=()):
        """what a dotted expression denotes: ('module', m) | ('func', m, def) | ('class', m, name) | ('missing', m, attr) | None"""
        if isinstance(e, ast.Name):
            if e.id in local:
                return None
            a = self.alias[mod].get(e.id)
            if a and a[0] == 'module':
                return a
            if a:
                return self.member(a[1], a[2]) if a[1] in self.repo.modules else ('ext', a[1], a[2])
            return self.member(mod, e.id) if e.id in self.top[mod] else None
        if isinstance(e, ast.Attribute):
            r = self.resolve(mod, e.value, local)
            if r and r[0] == 'module':
                sub = f'{r[1]}.{e.attr}'
                if sub in self.repo.modules:
                    return ('module', sub)
                if r[1] in self.repo.modules:
                    return self.member(r[1], e.attr)
                return ('ext', r[1], e.attr)
        return None

    def member(self, mod, name, depth=0):
        m = self.repo.modules[mod]
        if f'{mod}.{name}' in self.repo.modules:
            return ('module', f'{mod}.{name}')
        if name in m.funcs:
            n = sum(1 for x in ast.walk(m.tree) if isinstance(x, ast.FunctionDef) and x.name == name and not isinstance(getattr(x, '_parent', None), ast.ClassDef))
            return ('func', mod, m.funcs[name]) if n == 1 and not m.funcs[name].decorator_list else ('value',)
        if name in m.classes:
            return ('class', mod, name)
        a = self.alias[mod].get(name)
        if a and a[0] == 'module':
            return a
        if a and a[1] in self.repo.modules and depth < 5:
            return self.member(a[1], a[2], depth + 1)
        if name in self.top[mod] or name in NAMESPACE:
            return ('value',)
        return ('missing', mod, name)

    def family(self, q):
        """a class with its bases in the package and the classes derived from it; None if a base is not known"""
        up, todo, open_ = [], [q], False
        while todo:
            c = todo.pop(0)
            if c in up:
                continue
            up.append(c)
            for b in self.bases.get(c, []):
                r = self.resolve(c[0], b)
                if r and r[0] == 'class':
                    todo.append(r[1:])
                elif not (isinstance(b, ast.Name) and b.id == 'object'):
                    open_ = True
        down = list(up)
        more = True
        while more:
            more = False
            for c in self.bases:
                if c not in down and any((self.resolve(c[0], b) or (None,))[1:] in down[:] for b in self.bases[c]):
                    down.append(c)
                    more = True
        return up, down, open_


def fits(fn, call, bound):
    """why a call does not fit a signature, or None"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][bound:]
    if len(call.args) > len(pos) and not a.vararg:
        return f'takes {len(pos)} positional arguments, {len(call.args)} given'
    given = set(pos[:len(call.args)])
    for k in call.keywords:
        if k.arg in given:
            return f'argument {k.arg} given twice'
        if k.arg not in pos and k.arg not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
            return f'no parameter {k.arg}'
        given.add(k.arg)
    opt = set(pos[len(pos) - len(a.defaults):]) if a.defaults else set()
    opt |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    for p in pos + [x.arg for x in a.kwonlyargs]:
        if p not in given and p not in opt:
            return f'argument {p} missing'
    return None


def scopes(tree):
    """(function or lambda, enclosing functions, class or None, qualified name)"""
    def go(n, encl, cls, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                nm = q + [getattr(c, 'name', '<lambda>')]
                yield c, encl, cls if isinstance(n, ast.ClassDef) or encl else None, '.'.join(nm)
                yield from go(c, encl + [c], cls, nm)
            elif isinstance(c, ast.ClassDef):
                yield from go(c, encl, c, q + [c.name])
            else:
                yield from go(c, encl, cls, q)
    yield from go(tree, [], None, [])


def own(fn):
    """nodes evaluated in the scope of a function, with the names bound by comprehensions around them"""
    def go(n, bound):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                yield from go(d, bound)
            for d in getattr(n, 'decorator_list', ()):
                yield from go(d, bound)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            bound = bound | {z.id for g in n.generators for z in ast.walk(g.target) if isinstance(z, ast.Name)}
        if isinstance(n, ast.ClassDef):
            bound = bound | {z.id for b in n.body for z in ast.walk(b) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store)} | {b.name for b in n.body if isinstance(b, ast.FunctionDef)}
        yield n, bound
        for c in ast.iter_child_nodes(n):
            yield from go(c, bound)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for b in body:
        yield from go(b, frozenset())


def guarded(n):
    """inside a try whose handler expects the failure"""
    while n is not None:
        p = getattr(n, '_parent', None)
        if isinstance(p, ast.Try) and n in p.body and any(h.type is None or any(x in ast.unparse(h.type) for x in ('Attribute', 'Name', 'Exception', 'TypeError', 'Import')) for h in p.handlers):
            return True
        n = p
    return False


def check(ctx):
    ctx.rule('bound', 'no path reads a local name that has not been bound, or has been deleted')
    ctx.rule('defined', 'every other name read is bound in an enclosing scope, its module, or is a builtin')
    ctx.rule('member', 'every attribute read from a module of the package, of the standard library or of numpy exists')
    ctx.rule('attribute', 'every attribute read from self is assigned somewhere in the class, its bases or the classes derived from it')
    ctx.rule('call', 'arguments of calls to functions, classes and methods of the package fit their signatures')
    ctx.rule('parses', 'every module of the package parses')
    repo = ctx.repo
    ix = Index(repo)
    np = {m: stubs(m) for m in ('numpy', 'numpy.linalg', 'numpy.fft', 'numpy.random')}
    std = {}
    nf = nr = na = nc = ns = 0
    bi = set(dir(builtins)) | NAMESPACE

    def bad(rule, m, q, what, node, detail):
        ctx.ob(rule, f'{m.rel}:{q}: {what}', False, (m.rel, node.lineno, q), detail)

    for m in repo.modules.values():
        ctx.ob('parses', m.rel, True)
        top = ix.top[m.name]
        star = any(isinstance(n, ast.ImportFrom) and n.names[0].name == '*' for n in ast.walk(m.tree))
        todo = [(m.tree, [], None, '<module>')] + list(scopes(m.tree))
        for fn, encl, cls, q in todo:
            if isinstance(fn, ast.FunctionDef):
                nf += 1
                found = []
                fl = Flow(fn, lambda f, e, al, path: found.append((e, al, path)))
                fl.run()
                nr += fl.reads
                ctx.obls.append(dict(rule='bound', construct=f'{m.rel}:{q}', ok=not found, site=f'{m.rel}:{found[0][0].lineno}:{q}' if found else f'{m.rel}:{fn.lineno}:{q}',
                                     detail='; '.join(f'{e.id} at line {e.lineno} is read {"unbound" if al else "unbound when " + " and ".join(path)}' for e, al, path in found)[:900]))
            locs = set()
            for f in encl + [fn]:
                if isinstance(f, ast.FunctionDef):
                    locs |= set(binds(f)) | set(params(f))
                elif isinstance(f, ast.Lambda):
                    locs |= set(params(f))
            mine = own(fn) if not isinstance(fn, ast.Module) else ((n, frozenset()) for n in ix.outer(m.tree))
            comp = {z.id for n in ix.outer(m.tree) for z in ast.walk(n) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store)} if isinstance(fn, ast.Module) else set()
            selfname = None
            for f in (encl + [fn]):
                if isinstance(f, ast.FunctionDef) and cls is not None and f in cls.body and f.args.args and not any(ast.unparse(d) in ('staticmethod', 'classmethod') for d in f.decorator_list):
                    selfname = f.args.args[0].arg
            fam = ix.family((m.name, cls.name)) if selfname and (m.name, cls.name) in ix.bases else None
            if fam:
                attrs = set().union(*[ix.attrs[c] for c in fam[1]])
            for n, inner in mine:
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not star:
                    if n.id in locs or n.id in inner or n.id in comp:
                        continue
                    nr += 1
                    if n.id not in top and n.id not in bi and not guarded(n):
                        bad('defined', m, q, n.id, n, f'{n.id} is not bound anywhere')
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    lc = (locs - set(ix.alias[m.name])) | inner
                    r = ix.resolve(m.name, n, lc)
                    if r and r[0] == 'missing':
                        na += 1
                        if not guarded(n):
                            bad('member', m, q, f'{r[1]}.{r[2]}', n, f'{r[1]} has no {r[2]}')
                    elif r and r[0] == 'ext':
                        have = None
                        if r[1] in np:
                            have = np[r[1]]
                        elif r[1] in STD and r[1] not in ('this', 'antigravity', 'idlelib'):
                            if r[1] not in std:
                                try:
                                    std[r[1]] = set(dir(importlib.import_module(r[1])))
                                except Exception:
                                    std[r[1]] = None
                            have = std[r[1]]
                        if have is not None:
                            na += 1
                            if r[2] not in have and not guarded(n):
                                bad('member', m, q, f'{r[1]}.{r[2]}', n, f'{r[1]} has no {r[2]}')
                    elif r:
                        na += 1
                    if fam and isinstance(n.value, ast.Name) and n.value.id == selfname and not fam[2] and '*' not in attrs:
                        ns += 1
                        if n.attr not in attrs and not n.attr.startswith('__') and not guarded(n):
                            bad('attribute', m, q, f'{selfname}.{n.attr}', n, f'{selfname}.{n.attr} is never assigned in {", ".join(c[1] for c in fam[1])}')
                elif isinstance(n, ast.ImportFrom) or isinstance(n, ast.Import):
                    for k, v in ix.imports(m, n):
                        if v[0] == 'name' and v[1] in repo.modules and v[2] != '*':
                            na += 1
                            if ix.member(v[1], v[2])[0] == 'missing' and not guarded(n):
                                bad('member', m, q, f'{v[1]}.{v[2]}', n, f'{v[1]} has no {v[2]}')
                        for nm in ([v[1]] if v[0] in ('module', 'name') else []):
                            if nm.split('.')[0] == repo.pkg and nm not in repo.modules:
                                bad('member', m, q, nm, n, f'there is no module {nm}')
                if isinstance(n, ast.Call):
                    why, f = None, None
                    r = ix.resolve(m.name, n.func, (locs - set(ix.alias[m.name])) | inner)
                    if r and r[0] == 'func':
                        f, why = r[2], fits(r[2], n, 0)
                    elif r and r[0] == 'class':
                        up = ix.family(r[1:])
                        init = next((ix.methods[c]['__init__'] for c in up[0] if '__init__' in ix.methods.get(c, {})), None)
                        if init is not None and not up[2]:
                            f, why = init, fits(init, n, 1)
                    elif fam and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == selfname:
                        cands = [ix.methods[c][n.func.attr] for c in fam[1] if n.func.attr in ix.methods[c]]
                        if cands:
                            f = cands[0]
                            ws = [fits(g, n, 0 if any(ast.unparse(d) == 'staticmethod' for d in g.decorator_list) else 1) for g in cands if not any(ast.unparse(d).endswith(('property', '.setter')) for d in g.decorator_list)]
                            why = ws[0] if ws and all(ws) else None
                    if f is not None:
                        nc += 1
                        if why and not guarded(n):
                            bad('call', m, q, f'{f.name}({", ".join(k.arg or "**" for k in n.keywords)})', n, f'{f.name}: {why}')
    ctx.stats['calls'] = nc
    ctx.notes.append(f'{nf} functions, {nr} reads of names, {na} attributes of modules, {ns} attributes of self, {nc} calls')
    for m in repo.modules.values():
        for f in ast.walk(m.tree):
            if isinstance(f, ast.FunctionDef):
                ctx.funcs.add(f'{m.name}.{f.name}')
    ctx.ob('defined', f'{nr} reads of names', True)
    ctx.ob('member', f'{na} attributes of modules', True)
    ctx.ob('attribute', f'{ns} attributes of self', True)
    ctx.ob('call', f'{nc} calls', True)
    ctx.floor('functions', nf, 100)
    ctx.floor('reads of names', nr, 3000)
    ctx.floor('attributes of modules', na, 300)
    ctx.floor('attributes of self', ns, 300)
    ctx.floor('calls inside the package', nc, 100)
