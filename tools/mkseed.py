"""mkseed.py ID PROPERTY 'needs' 'breaks' < demo.py ; takes the diff of /tmp/seed/repo (then resets it)."""
import sys, os, subprocess, json
i, prop, needs, breaks = sys.argv[1:5]
d = '/verif/seeded/' + i
diff = subprocess.check_output(['git', '-C', '/tmp/seed/repo', 'diff'], text=True)
assert diff.strip(), 'no change'
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.py', 'w').write(sys.stdin.read())
open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository\nexport MPLBACKEND=Agg PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
subprocess.check_call(['git', '-C', '/tmp/seed/repo', 'checkout', '-q', '--', '.'])
print(diff)
