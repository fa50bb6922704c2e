#!/usr/bin/env python3
"""mut.py PIDS FILE OLD NEW: apply an edit to /repo, run the checks, undo it."""
import subprocess, sys
pids, f, old, new = sys.argv[1:5]
p = '/repo/' + f
s = open(p).read()
assert s.count(old) >= 1, 'not found'
n = int(sys.argv[5]) if len(sys.argv) > 5 else 0
parts = s.split(old)
assert len(parts) == 2 or n, 'ambiguous %d' % (len(parts) - 1)
n = n or 1
t = old.join(parts[:n]) + new + old.join(parts[n:])
open(p, 'w').write(t)
try:
    b = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True)
    if b.returncode:
        print('BUILD FAILS', (b.stdout + b.stderr)[-800:])
    else:
        for pid in pids.split(','):
            r = subprocess.run(['python3', '/verif/check.py', pid], capture_output=True, text=True)
            print(pid, 'exit', r.returncode)
            for l in r.stdout.splitlines()[:6]:
                print('   ', l[:300])
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
