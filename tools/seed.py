#!/usr/bin/env python3
"""Turns an edit into /verif/seeded/<id>/ after confirming it in a scratch copy.
usage: seed.py SPEC.py   with SPEC defining id, prop, edits=[(file, old, new)], demo (rust main body), needs, what"""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
DEMO = '''#!/bin/bash
# exit 0: the library behaves; nonzero: it does not (run with cwd = the repository)
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo="$PWD"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
tezos-data-model = { path = "$repo"%s }
[workspace]
EOF
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo run --offline --quiet
'''


def sh(c, cwd=None, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors='replace')


def main():
    for spec in sys.argv[1:]:
        one(spec)


def one(spec):
    g = {'features': []}
    exec(open(spec).read(), g)
    d = os.path.join(V, 'seeded', g['id'])
    os.makedirs(d, exist_ok=True)
    feats = ', features = %s' % json.dumps(g['features']) if g['features'] else ''
    open(d + '/demo.sh', 'w').write(DEMO % feats)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.rs', 'w').write(g['demo'])
    json.dump(dict(property=g['prop'], needs=g['needs'], what_it_breaks=g['what']), open(d + '/meta.json', 'w'), indent=1)
    ok = True
    # tests and demo run in /repo itself (the build and test scripts know no other place)
    rc, o = sh('git status --porcelain', '/repo')
    assert not o.strip(), o
    rc, o = sh('bash %s/demo.sh' % d, '/repo')
    print(g['id'], 'demo on the unchanged tree:', rc)
    if rc:
        print(o[-2500:])
        ok = False
    try:
        for f, a, b in g['edits']:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        rc, diff = sh('git diff', '/repo')
        open(d + '/patch.diff', 'w').write(diff)
        rc, o = sh('bash /opt/vp/build.sh', '/repo')
        if rc:
            print('BUILD FAILS', o[-2500:]); ok = False
        else:
            rc, o = sh('bash /opt/vp/test.sh /tmp/seed_out.json', '/repo')
            base = json.load(open('/opt/vp/BASELINE.json'))
            out = json.load(open('/tmp/seed_out.json'))
            names = base.get('stable') or base.get('passed') or base
            got = set(out.get('passed', []))
            miss = [n for n in names if n not in got]
            if miss:
                print('TESTS FAIL', miss[:5]); ok = False
            rc, o = sh('bash %s/demo.sh' % d, '/repo')
            print(g['id'], 'demo on the changed tree:', rc, o.strip()[-300:])
            ok = ok and rc != 0
            rc, o = sh('timeout 900 python3 /verif/check.py %s' % g['prop'], '/verif', 1000)
            print(g['id'], 'check', g['prop'], 'exit', rc)
            print('\n'.join(o.strip().splitlines()[-6:])[:1500])
    finally:
        sh('git checkout -- .', '/repo')
    print(g['id'], 'COUNTS' if ok else 'DOES NOT COUNT')


main()
