#!/usr/bin/env python3
"""seed.py SPEC.py   -- makes and validates one planted bug: SPEC defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python text)"""
import sys, os, subprocess, json, shutil, tempfile, runpy
d = runpy.run_path(sys.argv[1])
R = '/verif/seeded/' + d['ID']
W = tempfile.mkdtemp(dir='/tmp') + '/repo'
subprocess.check_call(['git', 'clone', '-q', '/repo', W])
base = subprocess.check_output(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=W).decode().strip()
for f, old, new in d['EDITS']:
    p = os.path.join(W, f); s = open(p, encoding='utf8', newline='').read()
    assert s.count(old) == 1, (f, s.count(old))
    b = subprocess.check_output(['git', 'show', base + ':' + f], cwd=W).decode()
    for o in old.splitlines():
        if o not in new.splitlines() and o.strip() not in b: print('NOT AN ORIGINAL LINE:', o)
    open(p, 'w', encoding='utf8', newline='').write(s.replace(old, new))
os.makedirs(R, exist_ok=True)
open(R + '/patch.diff', 'wb').write(subprocess.check_output(['git', 'diff'], cwd=W))
open(R + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(R + '/demo.sh', 0o755)
open(R + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), "src"))\n' + d['DEMO'])
json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(R + '/meta.json', 'w'), indent=1)
a = subprocess.run([R + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
b = subprocess.run([R + '/demo.sh'], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print('clean', a.returncode, a.stdout.decode()[-300:]); print('patched', b.returncode, b.stdout.decode()[-300:])
t = subprocess.run('PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg timeout 300 /opt/venv/bin/python -m pytest -q -x tests 2>&1 | tail -4', shell=True, cwd=W, stdout=subprocess.PIPE)
print(t.stdout.decode())
if "--nocheck" not in sys.argv:
    e = dict(os.environ, VERIF_REPO=W)
    c = subprocess.run(['./check', d['PROP'], 'quick'], cwd='/verif', env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print('CHECK', c.returncode, c.stdout.decode()[-1500:])
shutil.rmtree(os.path.dirname(W))
