"""Development aid: small source edits with the expected verdict, run against copies of /repo (python3 tools/bank.py [Cxx ...] [-j N])."""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = []


def bad(ids, f, old, new, n=1):
    for i in ids.split():
        B.append((i, 1, f, [(old, new, n)]))


def ok(ids, f, old, new, n=1):
    for i in ids.split():
        B.append((i, 0, f, [(old, new, n)]))


exec(open(os.path.join(HERE, 'tools', 'bank_entries.py')).read())


def one(e):
    i, want, f, eds = e
    d = tempfile.mkdtemp(prefix='bank')
    try:
        shutil.copytree('/repo/pyspod', d + '/pyspod')
        for old, new, n in eds:
            s = open(d + '/' + f).read()
            if old not in s:
                return e, None, 'text not found'
            parts = s.split(old)
            if n == 0:
                s = new.join(parts)
            else:
                s = old.join(parts[:n]) + new + old.join(parts[n:])
            compile(s, f, 'exec')
            open(d + '/' + f, 'w').write(s)
        os.symlink(HERE + '/sa', d + '/sa')
        shutil.copy(HERE + '/known_findings.txt', d)
        try: r = subprocess.run([sys.executable, '-m', 'sa.run', i], cwd=HERE, capture_output=True, text=True, timeout=600,
                           env=dict(os.environ, VERIF_REPO=d, SA_EVIDENCE=d))
        except subprocess.TimeoutExpired: return e, 'timeout', ''
        return e, r.returncode, (r.stdout + r.stderr)[-600:]
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    j = 7
    if '-j' in a:
        k = a.index('-j')
        j = int(a[k + 1])
        del a[k:k + 2]
    todo = [e for e in B if not a or e[0] in a]
    nok = 0
    with cf.ThreadPoolExecutor(j) as ex:
        for e, rc, out in ex.map(one, todo):
            if rc == e[1]:
                nok += 1
            else:
                print(f'*** {e[0]} want {e[1]} got {rc}: {e[2]}: {e[3][0][0]!r} -> {e[3][0][1]!r}\n    ' + out.replace('\n', '\n    ')[:700])
    print(f'{nok}/{len(todo)} as expected')
