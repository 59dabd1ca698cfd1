"""seed.py ID PROPERTY file old new 'needs' 'breaks' demo.py-text-file [cmd]: makes seeded/ID after confirming the demo on both trees.
(development helper; no check reads seeded/)"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(id, prop, edits, needs, breaks, demo, cmd='run "$D/demo.py"', check=True, verbose=False):
    d = os.path.join(HERE, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    lib = os.path.join(HERE, 'tools', 'demolib')
    open(os.path.join(d, 'demo.sh'), 'w').write(open(os.path.join(lib, 'demo.sh')).read().replace('@CMD@', cmd))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    shutil.copy(os.path.join(lib, 'ref.py'), d)
    open(os.path.join(d, 'demo.py'), 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    w = '/tmp/seedrepo'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    a = subprocess.run(['bash', d + '/demo.sh'], cwd=w, capture_output=True, text=True)
    for f, old, new in edits:
        s = open(f'{w}/{f}').read()
        assert s.count(old) >= 1, ('not found', old)
        open(f'{w}/{f}', 'w').write(s.replace(old, new, 1))
    p = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(p)
    b = subprocess.run(['bash', d + '/demo.sh'], cwd=w, capture_output=True, text=True)
    print(id, prop, 'clean', a.returncode, 'patched', b.returncode, [x for x in b.stdout.splitlines() if 'FAIL' in x][:2])
    if a.returncode:
        print((a.stdout + a.stderr)[-1500:])
    if verbose or b.returncode == 0:
        print((b.stdout + b.stderr)[-1500:])
    if check:
        c = subprocess.run(['python3', '-m', 'sa.run', prop], cwd=HERE, env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
        print('   check', prop, 'exit', c.returncode, c.stdout[:300].replace('\n', ' | '))
    shutil.rmtree(w, ignore_errors=True)
    return a.returncode == 0 and b.returncode != 0
