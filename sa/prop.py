"""Check context: obligations, known findings, evidence, verdict."""
import json
import os
import re
import sys
import time

from . import front, terms as T

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


class NotUnderstood(Exception):
    """the analysis has no answer for this source"""


def site_str(site):
    if site is None:
        return '?'
    if isinstance(site, (list, tuple)):
        return ':'.join(str(x) for x in site)
    return str(site)


class Ctx:
    def __init__(self, pid, tier='quick', seed=1, repo=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.repo = repo or front.Repo()
        self.obls = []
        self.notes = []
        self.unknown = []
        self.floors = []
        self.runs = {}
        self.funcs = set()
        self.stats = {'statements': 0, 'calls': 0, 'loops': 0, 'entry_runs': 0}
        self.rules = {}

    # ---- rules and obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, construct, ok, site=None, detail=''):
        """one decided obligation.  construct: stable name of the thing judged (function, file artefact, call)"""
        self.obls.append(dict(rule=rule, construct=construct, ok=bool(ok), site=site_str(site), detail=str(detail)[:1500]))
        return ok

    def need(self, cond, what):
        """an anchor the rule needs; without it there is no answer"""
        if not cond:
            raise NotUnderstood(what)

    def floor(self, what, got, want):
        self.floors.append((what, got, want))
        if got < want:
            raise NotUnderstood(f'{what}: {got} found, at least {want} expected')

    def equal(self, rule, construct, got, want, site=None):
        """two value terms must have the same normal form"""
        if got is want:
            return self.ob(rule, construct, True, site)
        from . import pw
        if pw.same(got, want):
            return self.ob(rule, construct, True, site)
        g, w = diff(got, want)
        u = has_unknown(got)
        if u is not None:
            raise NotUnderstood(f'{rule}/{construct}: value contains {T.show(u, 3)[:200]}')
        s = origin(g)
        if s is None or 'verif/sa/' in site_str(s):
            s = site or origin(got) or s
        return self.ob(rule, construct, False, s, f'computed: {T.show(g, 7)[:650]}   required: {T.show(w, 7)[:650]}')

    def track(self, ip):
        for f in ip.visited:
            self.funcs.add(f)
        self.stats['statements'] += ip.stmts
        self.stats['calls'] += ip.calls
        self.stats['loops'] += len(ip.loops)
        self.stats['entry_runs'] += 1


def has_unknown(t):
    for s in T.subterms(t):
        if s.op in ('unknown', 'unk') or s.op == 'call' and isinstance(s.args[0], str) and s.args[0] in ('unknown', 'undefined'):
            return s
    return None


def origin(t):
    """statement that first built this term (the nearest enclosing one when shared)"""
    return T.ORIGIN.get(t)


def diff(a, b):
    """smallest pair of differing subterms along a common spine"""
    while True:
        if a.op != b.op:
            return a, b
        if a.op == 'poly':
            pa, pb = T.topoly(a), T.topoly(b)
            oa = {m: c for m, c in pa.items() if pb.get(m) != c}
            ob = {m: c for m, c in pb.items() if pa.get(m) != c}
            if len(oa) == 1 and len(ob) == 1:
                (ma, ca), = oa.items()
                (mb, cb), = ob.items()
                if ca == cb and len(ma) == len(mb):
                    d = [(x, y) for x, y in zip(sorted(ma, key=_ak), sorted(mb, key=_ak)) if x != y]
                    if len(d) == 1 and d[0][0][1] == d[0][1][1]:
                        a, b = d[0][0][0], d[0][1][0]
                        continue
            return a, b
        ca, cb = T.children(a), T.children(b)
        if len(ca) != len(cb):
            return a, b
        d = [(x, y) for x, y in zip(ca, cb) if x is not y]
        if len(d) != 1:
            return a, b
        a, b = d[0]


def _ak(m):
    return (m[0].op, m[1], m[0].key)


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r'KNOWN-FINDING: property=(\S+) rule=(\S+) construct=(\S+) (.*)', ln.strip())
            if m:
                out.append(m.groups())
    return out


def finish(ctx, level, t0, error=None):
    """write the evidence file, print, return the exit code"""
    known = [(r, c, d) for p, r, c, d in load_known() if p == ctx.pid]
    bad = [o for o in ctx.obls if not o['ok']]
    kf, viol = [], []
    for o in bad:
        m = [d for r, c, d in known if r == o['rule'] and c == o['construct'].replace(' ', '_')]
        if m:
            o['known'] = True
            kf.append((o, m[0]))
        else:
            viol.append(o)
    ev_dir = os.environ.get('SA_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    cov = dict(
        explanation='Abstract interpretation of the current source of ' + ctx.repo.root + ': every path of the listed functions is reduced to '
                    'gated normal-form value terms and effects for symbolic sizes, ranks and data; each obligation compares such a term or effect '
                    'with what the rule requires for all inputs of the stated configurations. No code of the repository is executed.',
        discharged=sum(1 for o in ctx.obls if o['ok']),
        analysed_functions=len(ctx.funcs), functions=sorted(ctx.funcs)[:400],
        statements_interpreted=ctx.stats['statements'], calls_interpreted=ctx.stats['calls'],
        loops_summarised=ctx.stats['loops'], entry_point_configurations=ctx.stats['entry_runs'],
        obligations=len(ctx.obls), rules=ctx.rules,
        by_rule={r: sum(1 for o in ctx.obls if o['rule'] == r) for r in sorted({o['rule'] for o in ctx.obls})},
        samples=ctx.obls[:60], floors=[list(f) for f in ctx.floors], notes=ctx.notes[:50],
        known_findings=[o['rule'] + '|' + o['construct'] for o, _ in kf],
        violations=viol[:20], not_understood=ctx.unknown[:20] + ([error] if error else []))
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 3))
    path = os.path.join(ev_dir, ctx.pid + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    seen = set()
    for o, d in kf:
        k = (o['rule'], o['construct'])
        if k not in seen:
            seen.add(k)
            print(f"KNOWN-FINDING: property={ctx.pid} {d} [{o['rule']} at {o['construct']}, {o['site']}]")
    for o in viol[:20]:
        print(f"  {o['rule']}: {o['construct']} at {o['site']}")
        if o['detail']:
            print('     ' + o['detail'])
    if viol:
        rp = os.path.join(ev_dir, ctx.pid + '.violation.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=ctx.pid, violations=viol, rules=ctx.rules), f, indent=1)
        print(f'VIOLATION property={ctx.pid} replay={rp}')
        return 1
    if error or ctx.unknown:
        for u in ctx.unknown[:10]:
            print('not understood:', u)
        if error:
            print('not understood:', error)
        return 2
    print(f"{ctx.pid}: {len(ctx.obls)} obligations hold over {len(ctx.funcs)} functions, {ctx.stats['statements']} statements "
          f"({ev['wall_s']} s)")
    return 0
