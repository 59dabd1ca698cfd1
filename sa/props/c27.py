"""C27 effects of a run stay in its result directory; the process is left as it was"""
import ast
from ._cfg import *
from .. import harness as H

from fractions import Fraction as Fr
from itertools import product
from ..small import Small
from .c08 import name as fmtname

CONFIGS = [*FIT, *FILES, *UTIL, *POD]
REMOVE = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'os.truncate', 'shutil.rmtree'}
PROCESS = {'os.chdir', 'os.fchdir', 'os.chroot', 'os.umask', 'os.putenv', 'os.unsetenv', 'os.nice', 'os.kill', 'os.abort', 'os._exit', 'os.system', 'os.environ.update', 'os.environ.pop',
           'os.environ.setdefault', 'os.environ.clear', 'signal.signal', 'signal.alarm', 'locale.setlocale', 'numpy.seterr', 'numpy.random.seed', 'numpy.random.set_state', 'random.seed',
           'numpy.set_printoptions', 'numpy.seterrcall', 'warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings', 'sys.setrecursionlimit', 'sys.exit', 'builtins.exit',
           'builtins.quit', 'gc.disable', 'mpi4py.MPI.Finalize', 'threading.Thread', 'subprocess.run', 'subprocess.call', 'subprocess.Popen', 'subprocess.check_call',
           'subprocess.check_output', 'socket.setdefaulttimeout', 'os.setuid', 'os.setgid', 'resource.setrlimit', 'time.tzset'}


def names(tree):
    """local name -> dotted name of what the module imports"""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and n.module:
            for a in n.names:
                out[a.asname or a.name] = n.module + '.' + a.name
    return out


def dotted(e, imp):
    p = []
    while isinstance(e, ast.Attribute):
        p.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    return '.'.join([imp.get(e.id, e.id if p else 'builtins.' + e.id), *reversed(p)])


def check(ctx):
    ctx.rule('below', 'every file and directory is written below the result directory the caller names')
    ctx.rule('kept', 'no file is removed, renamed or truncated')
    ctx.rule('separate', 'fits of different block length, overlap or number of blocks, and coefficients of different period ranges, use different folders')
    ctx.rule('process', 'the working directory, the environment and process-wide settings are left alone')
    ctx.rule('named', 'coefficients and reconstructions go to the sub-folder, and under the file name, the caller gives')
    ctx.rule('returned', 'the file and the directory returned are those written')
    m = 0
    for mod in ctx.repo.modules.values():
        if mod.name.startswith('pyspod.emulation'):
            continue          # the networks fix the seeds they train with
        imp = names(mod.tree)
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Call):
                m += 1
                d = dotted(x.func, imp)
                if d is None:
                    continue
                d = d.replace('np.', 'numpy.', 1) if d.startswith('np.') else d
                if d in REMOVE:
                    ctx.ob('kept', f'{mod.name}: {d}', False, (mod.rel, x.lineno, mod.name), f'{d} is called')
                elif d in PROCESS:
                    ctx.ob('process', f'{mod.name}: {d}', False, (mod.rel, x.lineno, mod.name), f'{d} is called')
            elif isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)):
                for t in (x.targets if not isinstance(x, ast.AugAssign) else [x.target]):
                    if isinstance(t, ast.Subscript) and dotted(t.value, imp) in ('os.environ', 'sys.modules', 'matplotlib.rcParams', 'matplotlib.pyplot.rcParams'):
                        ctx.ob('process', f'{mod.name}: {dotted(t.value, imp)}', False, (mod.rel, x.lineno, mod.name), 'the environment is changed')
        ctx.ob('process', f'source of {mod.name}', True, None)
    ctx.floor('call sites in the source', m, 1000)
    if not all(o['ok'] for o in ctx.obls):
        return
    n = 0
    for c in CONFIGS:
        for par in ((True,) if c in FILES else (False, True)):
            r = run(ctx, c, par)
            ctx.need(not r.ip.unknown, f'{c}: {r.ip.unknown[:1]}')
            tag = c + (', parallel' if par else '')
            for e in r.ip.effects:
                if e.kind == 'write' or e.kind == 'open' and e.name and e.name[0] in 'wax+' or e.kind == 'open' and '+' in e.name or e.kind == 'fs' and e.name in ('makedirs', 'mkdir'):
                    n += 1
                    p = T.pathnorm(e.args['path'])
                    a = p.args if p.op == 'path' else (p,)
                    if a and T.show(a[0], 2) == 'CWD':
                        a = a[1:]
                    ok = a and a[0] is H.SAVEDIR and not any(x.op == 'str' and ('..' in x.args[0].split('/') or x.args[0].startswith('/')) for x in a[1:])
                    ctx.ob('below', f'{tag}: {fname(p)} in {e.site[2]}', ok, e.site, f'{T.show(p, 5)[:300]} is not below the result directory')
                elif e.kind == 'fs':
                    ctx.ob('kept', f'{tag}: {e.name} in {e.site[2]}', False, e.site, f'{e.name} of {T.show(e.args["path"], 4)[:200]}')
                elif e.kind == 'env':
                    ctx.ob('process', f'{tag}: {e.name} in {e.site[2]}', False, e.site, f'{e.name} changes the state of the process')
    ctx.floor('effects on files judged', n, 150)
    for nm, kw in (('fit', {}), ('streaming fit', dict(cls='Streaming'))):
        r = S.fit(ctx, **kw)
        e = next(e for e in files(r) if e.name == 'npz')
        folder = mk('path', *T.pathnorm(e.args['path']).args[1:-1])
        seen, k = {}, 0
        for nt, nd, ov in product((24, 25, 31, 40, 60, 130), (4, 5, 8, 11, 12), (0, 5, 12, 25, 50, 75)):
            sm = Small({NT: Fr(nt), NDFT: Fr(nd), OVL: Fr(ov), RANK: Fr(0), SIZE: Fr(1)}, extra=lambda sm, x: 'S' if x is H.SAVEDIR else None)
            got = '/'.join(fmtname(sm, x) for x in folder.args)
            key = tuple(int(sm(S.attr(r, a))) for a in ('_n_dft', '_n_overlap', '_n_blocks'))
            k += 1
            ctx.ob('separate', f'{nm}: nt={nt}, n_dft={nd}, overlap={ov}%', seen.setdefault(got, key) == key, e.site,
                   f'block length, overlap and number of blocks {key} and {seen[got]} share the folder {got}')
    r = run(ctx, 'coefficients by projection, chosen periods', False)
    for e in files(r):
        h = set(T.subterms(e.args['path']))
        ctx.ob('separate', f'coefficients: {fname(e.args["path"])}', {isym('T_lb', 1), isym('T_ub', 1)} <= h, e.site, 'the folder does not depend on the chosen periods')
    sub, fn = T.sym('subdir', kind='str'), T.sym('filename', kind='str')
    for mod, f, kw in ((U, 'compute_coeffs_op', {}), (U, 'compute_coeffs_conv', {}), (U, 'compute_reconstruction', dict(data=False, time_idx=ALLT)),
                       (PU, 'compute_coeffs_op', dict(disk=dict(pod=True))), (PU, 'compute_reconstruction', dict(data=False, disk=dict(pod=True), time_idx=ALLT))):
        rec = f == 'compute_reconstruction'
        r = S.util(ctx, mod, f, savedir=sub, **(dict(filename=fn) if rec else {}), **kw)
        ret = T.children(r.ip.val(r.ret, r.st)) if not isinstance(r.ret, tuple) else r.ret
        for e in files(r):
            p = T.pathnorm(e.args['path'])
            a = p.args[1:] if T.show(p.args[0], 2) == 'CWD' else p.args
            what = f'{mod.split(".")[1]} {f}, chosen sub-folder and name: {fname(p)}'
            ctx.ob('below', what, a[0] is H.SAVEDIR, e.site, f'{T.show(p, 5)[:300]} is not below the result directory')
            if e.name == 'npy' and (rec or 'coeffs.npy' in T.show(a[-1], 3)):
                ctx.ob('named', what, sub in a and (not rec or fn in T.subterms(a[-1])), e.site, f'{T.show(p, 5)[:300]} is not in the sub-folder, or has not the name, given')
                ctx.need(len(ret) == 2, f'{f} returns two paths')
                ctx.equal('returned', what + ', file', T.pathnorm(ret[0]), p, e.site)
                ctx.equal('returned', what + ', directory', T.pathnorm(ret[1]), T.pathnorm(mk('path', *p.args[:-1])), e.site)
