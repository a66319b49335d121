"""mkseed.py SPECFILE [ids...]: builds and confirms planted bugs (development aid; no check uses it)
SPECFILE defines SEEDS = {id: dict(prop, edits=[(file, old, new)], demo, needs, breaks)}"""
import sys, os, shutil, subprocess, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
ids = sys.argv[2:] or list(ns['SEEDS'])
PRE = '''import sys, os, io, tempfile, shutil, math, logging
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
'''


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=300, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))


for sid in ids:
    s = ns['SEEDS'][sid]
    d = tempfile.mkdtemp(prefix='seed')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree('/repo', r)
        sd = os.path.join(d, 'demo')
        os.mkdir(sd)
        open(os.path.join(sd, 'demo.py'), 'w').write(PRE + s['demo'])
        open(os.path.join(sd, 'demo.sh'), 'w').write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        a = run(['bash', os.path.join(sd, 'demo.sh')], r)
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = run(['git', 'diff'], r).stdout
        b = run(['bash', os.path.join(sd, 'demo.sh')], r)
        t = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=100'], r)
        base = run(['git', 'show', '5aa4f2a:' + s['edits'][0][0]], '/repo').stdout
        orig = all(l[1:] in base.split('\n') for l in diff.split('\n') if l.startswith('-') and not l.startswith('---'))
        ok = a.returncode == 0 and b.returncode != 0 and t.returncode in (0, 1)
        tail = t.stdout.strip().split('\n')[-1]
        print(sid, 'OK' if ok else 'BAD', 'clean', a.returncode, 'patched', b.returncode, 'tests', tail, '' if orig else 'TOUCHES FIX LINES')
        if a.returncode:
            print(a.stderr[-600:])
        elif not b.returncode or 'Error' in b.stderr and 'Assert' not in b.stderr:
            print('  patched:', b.stderr.strip().split('\n')[-1][:200])
        if t.returncode:
            print([l for l in t.stdout.split('\n') if 'FAILED' in l or 'ERROR' in l][:5])
        if ok:
            o = os.path.join(V, 'seeded', sid)
            os.makedirs(o, exist_ok=True)
            for x in ('demo.py', 'demo.sh'):
                shutil.copy(os.path.join(sd, x), o)
            open(os.path.join(o, 'patch.diff'), 'w').write(diff)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(o, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(d)
