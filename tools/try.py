#!/usr/bin/env python3
"""try.py SPEC LABEL REGEX…: apply one edit of a batch file to /repo, run the matching roots, undo"""
import subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
m = [x for x in ns['MUT'] if x[0] == sys.argv[2]][0]
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True).stdout
try:
    for e in m[2]:
        p = '/repo/' + e[0]
        s = open(p).read()
        n = e[3] if len(e) > 3 else 0
        parts = s.split(e[1])
        assert len(parts) > n + 1, e
        s = e[1].join(parts[:n + 1]) + e[2] + e[1].join(parts[n + 1:])
        open(p, 'w').write(s)
    subprocess.run(['timeout', '600'] + (__import__('os').environ.get('RUNNER') or 'python3 /verif/tools/r.py').split() + [] + sys.argv[3:])
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
