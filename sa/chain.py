"""The files one run writes, as the disk another run reads."""
import re
from . import terms as T
from .terms import mk, num, string, TRUE, FALSE, ZERO, ONE
from .models import CWD


def norm(p):
    """path components without the working directory in front"""
    if p.op != 'path':
        p = T.pathnorm(p)
    a = list(p.args) if p.op == 'path' else [p]
    while a and a[0] is CWD:
        a = a[1:]
    return a


def with_ext(name, ext):
    """numpy appends the extension when it is not there"""
    last = name.args[-1] if name.op == 'cat' else name
    if last.op == 'str' and last.args[0].endswith(ext):
        return name
    return T.cat(name, string(ext))


def unify(pat, t, vs, m):
    """match t against pat whose variables are vs"""
    if pat in vs:
        if pat in m:
            return m[pat] is t
        m[pat] = t
        return True
    if pat is t:
        return True
    if pat.op == 'cat' and t.op in ('cat', 'str'):
        return unify_name(pat, t, vs, m)
    if pat.op != t.op or len(pat.args) != len(t.args):
        return False
    for a, b in zip(pat.args, t.args):
        if isinstance(a, T.Term) and isinstance(b, T.Term):
            if not unify(a, b, vs, m):
                return False
        elif a != b:
            return False
    return True


def unify_name(pat, t, vs, m):
    ps = pat.args
    if t.op == 'cat' and len(ps) == len(t.args):
        return all(unify(a, b, vs, m) for a, b in zip(ps, t.args))
    if t.op == 'str':
        # a fixed name against a formatted one
        rx = ''
        fs = []
        for p in ps:
            if p.op == 'str':
                rx += re.escape(p.args[0])
            elif p.op == 'fmt' and p.args[0] in vs:
                fs.append(p)
                rx += r'(\d+)'
            else:
                return False
        g = re.fullmatch(rx, t.args[0])
        if not g:
            return False
        for p, x in zip(fs, g.groups()):
            v = num(int(x))
            if T.fmt(v, p.args[1]) is not string(x) or m.setdefault(p.args[0], v) is not v:
                return False
        return True
    return False


class Chain:
    """the last unconditional write of every path"""

    def __init__(self, r, tag, names=()):
        """names: (parameter, value in effect, symbol that stands for it from here on)"""
        self.tag = tag
        self.names = names
        self.files = []
        self.missing = []          # (path, what) looked for and not there
        self.used = set()
        for e in r.ip.effects:
            if e.kind != 'write':
                continue
            p = norm(e.args['path'])
            if e.name == 'npz':
                p[-1] = with_ext(p[-1], '.npz')
            elif e.name == 'npy' and e.args.get('how') != 'npy_save':
                p[-1] = with_ext(p[-1], '.npy')
            self.files.append((p, e))
        self.syms = {}

    def look(self, path):
        q = norm(path)
        for p, e in reversed(self.files):
            vs = {l[0]: l for l in e.loops}
            m = {}
            if len(p) == len(q) and all(unify(a, b, vs, m) for a, b in zip(p, q)):
                return e, [m.get(l[0]) for l in e.loops], vs, m
        return None

    def stored(self, e, field, value):
        """a name for a stored value: an array with the shape of the value, one axis more per enclosing loop"""
        k = (id(e), field)
        if k not in self.syms:
            d = T._dims(value)
            if d is None:
                return None
            ab = {v: s for _, v, s in self.names}
            lead = [ab.get(l[1], l[1]) for l in e.loops]
            d = [ab.get(x, x) for x in d]
            from .models import is_real
            real = is_real(value)
            self.syms[k] = T.sym(f'STORED_{self.tag}_{T.show(T.basename(e.args["path"]) if hasattr(T, "basename") else e.args["path"].args[-1], 2)}_{field}', kind='arr',
                                 ndim=len(lead) + len(d), dims=tuple(lead) + tuple(d), real=real,
                                 dt='f8' if real else 'c16', **({} if real else {'complex': True}))
        return self.syms[k]

    def __call__(self, path, what):
        f = self.look(path)
        if f is None:
            if what in ('array', 'npz', 'dict'):
                self.missing.append((path, what))
            return FALSE if what == 'exists' else None
        e, idx, vs, m = f
        if what == 'exists':
            return TRUE
        if e.guard is not TRUE:
            self.missing.append((path, what + ' (written only sometimes)'))
        self.used.add(id(e))
        if what == 'dict':
            if e.name != 'yaml':
                self.missing.append((path, what))
                return None
            d = as_dict(e.args['value'])
            for k, v, s in self.names:
                if d.get(k) is v:
                    d[k] = s
            return d
        if what == 'npz':
            if e.name != 'npz':
                self.missing.append((path, what))
                return None
            out = {}
            for k, v in e.args['items'].items():
                s = self.stored(e, k, v)
                out[k] = s if s is not None else v
            return out
        if what == 'array':
            if e.name != 'npy' or any(i is None for i in idx):
                self.missing.append((path, what))
                return None
            s = self.stored(e, 'value', e.args['value'])
            if s is None:
                return None
            return T.getitem(s, mk('ix', *idx)) if idx else s
        return None


def as_dict(t):
    """entries of a dictionary term"""
    out = {}

    def go(x):
        if x.op == 'store':
            go(x.args[0])
            k = x.args[1]
            k = k.args[0] if k.op == 'ix' and len(k.args) == 1 else k
            if k.op == 'str':
                out[k.args[0]] = x.args[2]
        elif x.op in ('edict', 'dict'):
            a = x.args
            for i in range(0, len(a) - 1, 2):
                if isinstance(a[i], T.Term) and a[i].op == 'str':
                    out[a[i].args[0]] = a[i + 1]
    go(t)
    return out
