#!/usr/bin/env python3
"""batch.py SPEC.py [-j N] [--all-configs]: screen many edits of the library.
SPEC defines MUT = [(label, 'P01,P02', [(file, old, new[, nth])])]; each worker has
private copies of /repo and /verif mounted over the originals."""
import json, os, subprocess, sys
B = '/tmp/mb'


def worker(spec, i, n, allc):
    g = {}
    exec(open(spec).read(), g)
    sys.path.insert(0, '/verif')
    from engine import plan
    only = os.environ.get('ONLY')
    if only:
        g['MUT'] = [m for m in g['MUT'] if any(o in m[0] for o in only.split(','))]
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('stable') or base.get('passed') or base
    sh = lambda c: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for k, (label, pids, edits) in enumerate(g['MUT']):
        if k % n != i:
            continue
        sh('git -C /repo checkout -- .')
        out = ['== %s' % label]
        try:
            for e in edits:
                f, a, b = e[:3]
                p = '/repo/' + f
                s = open(p).read()
                c = s.count(a)
                nth = e[3] if len(e) > 3 else 0
                if c == 0 or (c > 1 and not nth):
                    raise ValueError('%s: %r occurs %d times' % (f, a, c))
                ps = s.split(a)
                nth = nth or 1
                open(p, 'w').write(a.join(ps[:nth]) + b + a.join(ps[nth:]))
        except ValueError as e:
            print(out[0], 'BAD SPEC', e, flush=True)
            continue
        r = sh('bash /opt/vp/test.sh /tmp/mb/w%d/out.json' % i)
        got = set(json.load(open('/tmp/mb/w%d/out.json' % i)).get('passed', []))
        miss = [x for x in names if x not in got]
        if len(miss) == len(names):
            out.append('   BUILD FAILS ' + '; '.join(l for l in open('/opt/vp/work/test.log').read().splitlines() if l.startswith('error'))[:300])
        else:
            if miss:
                out.append('   tests fail: %d (%s)' % (len(miss), miss[0]))
            for pid in pids.split(','):
                env = '' if allc else 'VP_BASE_ONLY=1 '
                r = sh(env + 'python3 /verif/check.py ' + pid)
                ls = r.stdout.splitlines()
                und = [l for l in ls if l.startswith('UNDECIDED')]
                v = [l for l in ls if l.startswith('  ')]
                out.append('   %s %s und=%d %s' % (pid, 'CAUGHT' if r.returncode == 1 else 'quiet' if r.returncode == 0 else 'EXIT %d' % r.returncode, len(und), (v or und or [''])[0][:200]))
        print('\n'.join(out), flush=True)
    sh('git -C /repo checkout -- .')


def main():
    a = sys.argv[1:]
    if a[0] == '--worker':
        return worker(a[1], int(a[2]), int(a[3]), a[4] == '1')
    n = int(a[a.index('-j') + 1]) if '-j' in a else 3
    allc = '1' if '--all-configs' in a else '0'
    spec = os.path.abspath(a[0])
    ps = []
    for i in range(n):
        w = '%s/w%d' % (B, i)
        os.makedirs(w + '/vpwork', exist_ok=True)
        for d in ('repo', 'verif'):
            subprocess.check_call(['rsync', '-a', '--delete', '/%s/' % d, '%s/%s/' % (w, d)] if have('rsync') else
                                  ['sh', '-c', 'mkdir -p %s/%s && cp -au /%s/. %s/%s/' % (w, d, d, w, d)])
        ps.append(subprocess.Popen(['unshare', '-Urm', 'sh', '-c',
            'mount --bind %s/repo /repo && mount --bind %s/verif /verif && mount --bind %s/vpwork /opt/vp/work && cd /verif && exec python3 tools/batch.py --worker %s %d %d %s' % (w, w, w, spec, i, n, allc)]))
    for p in ps:
        p.wait()


def have(x):
    return any(os.access(os.path.join(d, x), os.X_OK) for d in os.environ['PATH'].split(':'))


main()
