#!/usr/bin/env python3
"""mkbug.py SPEC.py: writes seeded/<id>/ from a spec defining ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source or shell)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = runpy.run_path(sys.argv[1])
d = os.path.join(V, 'seeded', s['ID'])
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix='mkbug')
try:
    subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
    base = subprocess.check_output(['git', '-C', t + '/r', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
    for f, old, new, *nth in s['EDITS']:              # nth: which occurrence, where there are several
        p = os.path.join(t, 'r', f)
        x = open(p).read()
        assert nth or x.count(old) == 1, (f, old, x.count(old))
        q = x.split(old)
        n = nth[0] if nth else 0
        y = old.join(q[:n + 1]) + new + old.join(q[n + 1:])
        orig = set(subprocess.check_output(['git', '-C', t + '/r', 'show', base + ':' + f], text=True).splitlines())
        gone = [l for l in x.splitlines() if l not in set(y.splitlines()) and l.strip()]
        assert not gone or any(l in orig for l in gone), ('not original lines', gone)
        open(p, 'w').write(y)
    diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True)
finally:
    shutil.rmtree(t)
open(d + '/patch.diff', 'w').write(diff)
demo = s['DEMO']
if demo.lstrip().startswith('#!'):
    open(d + '/demo.sh', 'w').write(demo.lstrip())
elif s.get('LANG_', 'py') == 'py':
    open(d + '/demo.py', 'w').write(demo.lstrip())
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository after build.sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/_build/python" exec /usr/local/bin/python3 -P "$(dirname "$0")/demo.py"\n'.replace(' -P ', ' '))
else:
    open(d + '/demo.m', 'w').write(demo.lstrip())
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository after build.sh\nexec octave-cli -qf --path "$PWD/_build/oct" "$(dirname "$0")/demo.m"\n')
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
