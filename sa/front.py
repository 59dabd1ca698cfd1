"""Front end: parse every module of the package, index functions and classes."""
import ast
import hashlib
import os

REPO = os.environ.get('VERIF_REPO', '/repo')


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = ast.parse(src, filename=path)
        self.rel = os.path.relpath(path, REPO)
        self.funcs = {}
        self.classes = {}
        self.globals = None      # name -> value, filled by the interpreter
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = n


class Repo:
    def __init__(self, root=None, pkg='pyspod'):
        self.root = root or REPO
        self.pkg = pkg
        self.modules = {}
        base = os.path.join(self.root, pkg)
        for d, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-len('.__init__')]
                with open(path, encoding='utf-8') as fh:
                    self.modules[rel] = Module(rel, path, fh.read())
        if not self.modules:
            raise SystemExit('no modules found under ' + base)

    def digest(self):
        h = hashlib.sha256()
        for m in sorted(self.modules):
            h.update(m.encode())
            h.update(self.modules[m].src.encode())
        return h.hexdigest()[:16]

    def functions(self):
        out = []
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    out.append((m, n))
        return out
