"""
tools/seed.py ID PROP 'needs' 'what it breaks' : make seeded/ID from the changes of the scratch
tree (/tmp/seedwt, against /repo's HEAD) and /tmp/seed_demo.py; confirms build, demo on both trees
(and, with --tests, the test suite).
"""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
WT = os.environ.get('SEEDWT', '/tmp/seedwt')


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if a != '--force']
    sid, prop, needs, breaks = args[:4]
    demo = args[4] if len(args) > 4 else '/tmp/seed_demo.py'
    d = '%s/seeded/%s' % (V, sid)
    if os.path.exists(d) and '--force' not in sys.argv:
        sys.exit('exists')
    diff = sh('git -C %s diff HEAD -- postgresql' % WT).stdout
    if not diff.strip():
        sys.exit('no change')
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    text = open(demo).read()
    open(d + '/demo.py', 'w').write(text)
    if 'demolib' in text:
        shutil.copy(V + '/tools/demo/demolib.py', d)
        os.makedirs(d + '/sim', exist_ok=True)
        for f in ('__init__', 'core', 'net', 'pgserver', 'simsql', 'client'):
            shutil.copy('%s/sim/%s.py' % (V, f), d + '/sim')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository, after its build\nPY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\nexport PYTHONDONTWRITEBYTECODE=1\nexec $PY "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print(verify(sid))


def verify(sid):
    d = '%s/seeded/%s' % (V, sid)
    out = []
    t = tempfile.mkdtemp(prefix='seedv', dir='/tmp')
    try:
        for patched in (False, True):
            r = '%s/%d' % (t, patched)
            sh('cp -a /repo %s && git -C %s checkout -q -- .' % (r, r))
            if patched:
                p = sh('git -C %s apply %s/patch.diff' % (r, d))
                if p.returncode:
                    return 'patch does not apply: ' + p.stdout
            b = sh('cd %s && rm -f postgresql/port/optimized*.so && CFLAGS=-w /opt/venv/bin/python setup.py -q build_ext --inplace --force && ls postgresql/port/optimized*.so' % r)
            if b.returncode:
                return 'build fails: ' + b.stdout[-500:]
            p = sh('cp -a %s %s/demo && cd %s && bash %s/demo/demo.sh; e=$?; rm -rf %s/demo; exit $e' % (d, t, r, t, t), timeout=300)
            out.append('%s: exit %d %s' % ('patched' if patched else 'clean', p.returncode, p.stdout[-300:] if (p.returncode != 0) != patched or patched else ''))
            if (p.returncode != 0) != patched:
                out.append('WRONG')
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return '\n'.join(out)


if __name__ == '__main__':
    if sys.argv[1] == 'verify':
        for s in sys.argv[2:] or sorted(os.listdir(V + '/seeded')):
            r = verify(s)
            print(s, 'WRONG' if 'WRONG' in r or 'not apply' in r or 'fails' in r else 'fine', r if 'WRONG' in r else '')
    else:
        main()
