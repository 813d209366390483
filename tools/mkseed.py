"""mkseed.py ID PROPERTY FILE -- reads OLD/NEW/NEEDS/BREAKS/DEMO sections from stdin."""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id, prop = sys.argv[1:3]
interp = sys.argv[3] if len(sys.argv) > 3 else 'pypy'
txt = sys.stdin.read()
sec = re.split(r'^@@(\w+)(?: (\S+))?\n', txt, flags=re.M)
items = [(sec[i], sec[i + 1], sec[i + 2]) for i in range(1, len(sec), 3)]
d = os.path.join(ROOT, 'seeded', id)
os.makedirs(d, exist_ok=True)
tmp = '/tmp/mkseed_wt'
subprocess.run(['rm', '-rf', tmp]); subprocess.check_call(['git', 'clone', '-q', '/repo', tmp])
meta = dict(property=prop)
old = None
for k, arg, body in items:
    if k == 'OLD':
        old, f = body, os.path.join(tmp, arg)
    elif k == 'NEW':
        s = open(f).read()
        if s.count(old) != 1:
            # tolerate missing trailing newline
            old, body = old.rstrip('\n'), body.rstrip('\n')
        assert s.count(old) == 1, (s.count(old), old)
        open(f, 'w').write(s.replace(old, body))
    elif k == 'NEEDS':
        meta['needs'] = ' '.join(body.split())
    elif k == 'BREAKS':
        meta['what_it_breaks'] = ' '.join(body.split())
    elif k == 'DEMO':
        open(os.path.join(d, 'demo.py'), 'w').write(body)
diff = subprocess.check_output(['git', '-C', tmp, 'diff'], text=True)
open(os.path.join(d, 'patch.diff'), 'w').write(diff)
shutil.copy(os.path.join(ROOT, 'tools', 'shim.py'), os.path.join(d, 'shim.py'))
py = '/opt/venv/bin/python' if interp == 'pypy' else 'python3-vt'
open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export PYTHONPATH="$PWD:$D" MPLBACKEND=Agg
exec timeout 250 %s "$D/demo.py"
''' % py)
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
json.dump(meta, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
# the changed lines must be original ones
f = None
for l in diff.splitlines():
    if l.startswith('--- a/'):
        f = l[6:]
    m = re.match(r'@@ -(\d+)', l)
    if m:
        no = int(m.group(1)); continue
    if l.startswith('-') and not l.startswith('---'):
        b = subprocess.check_output(['git', '-C', tmp, 'blame', '-s', '-L', '%d,%d' % (no, no), 'HEAD', '--', f], text=True)
        if not b.startswith('^') and '4425d8a' not in b:
            print('NOT ORIGINAL:', b)
    if l[:1] in '- ' and not l.startswith('---'):
        no += 1
subprocess.run(['rm', '-rf', tmp])
print(diff)
