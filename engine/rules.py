"""Rules over the program as a whole: f(rep, prog, cfg)."""
import glob, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from . import load


def _library(cfg):
    """the library, type-checked with the ordinary compiler under one configuration"""
    tag = '-'.join(cfg) if cfg else 'base'
    d = os.path.join(load.WORK, 'forbidden', tag)
    os.makedirs(d, exist_ok=True)
    with open(d + '/Cargo.toml', 'w') as f:
        f.write('[package]\nname = "forbidden"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "lib.rs"\n[dependencies]\n'
                'tezos-data-model = { path = "%s", features = %s }\n[workspace]\n' % (load.REPO, json.dumps(list(cfg))))
    open(d + '/lib.rs', 'w').close()
    for lock in (load.REPO + '/Cargo.lock', load.VERIF + '/witness/Cargo.lock'):
        if os.path.exists(lock):
            shutil.copy(lock, d + '/Cargo.lock')
            break
    for f in glob.glob(d + '/t/debug/deps/libtedium-*'):
        os.remove(f)
    rc, log = load.sh(['cargo', 'check', '--offline', '-q', '--manifest-path', d + '/Cargo.toml', '--target-dir', d + '/t'],
                      {'RUSTFLAGS': '-Awarnings'})
    m = sorted(glob.glob(d + '/t/debug/deps/libtedium-*.rmeta'))
    if rc or len(m) != 1:
        return None, d, log
    return m[0], d, log


def _judge(a):
    d, lib, name, src = a
    p = subprocess.run(['rustc', '--edition', '2021', '--crate-type', 'lib', '--crate-name', name, '--emit=metadata', '-Awarnings',
                        '--out-dir', d + '/o', '-L', 'dependency=' + d + '/t/debug/deps', '--extern', 'tedium=' + lib, '-'],
                       input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    out = p.stdout.decode(errors='replace')
    return name, p.returncode, [x for x in out.splitlines() if x.startswith('error')], out


def forbidden(rep, prog, cfg):
    """programs that have to be rejected, each beside a twin that has to be accepted"""
    sys.path.insert(0, os.path.join(load.VERIF, 'forbidden'))
    import cases
    tag = ' [%s]' % ','.join(cfg) if cfg else ''
    lib, d, log = _library(cfg)
    if lib is None:
        rep.violation('build|%s' % '+'.join(cfg), 'the library does not compile%s\n%s' % (tag, log[-1500:]))
        return
    os.makedirs(d + '/o', exist_ok=True)
    jobs = []
    for n, pre, bad, good in cases.CASES:
        if bad is not None:
            jobs.append((d, lib, n + '__refused', pre + '\n' + bad + '\n'))
        jobs.append((d, lib, n + '__accepted', pre + '\n' + good + '\n'))
    with ThreadPoolExecutor(8) as ex:
        for (n, rc, errs, out), (_, _, _, src) in zip(ex.map(_judge, jobs), jobs):
            rep.cov['rule_instances'] += 1
            rep.cov['obligations'] += 1
            base, want = n.rsplit('__', 1)
            if (rc == 0) == (want == 'accepted'):
                rep.cov['discharged'] += 1
                if errs and len(rep.samples) < 12:
                    rep.samples.append('%s: %s' % (n, errs[0][:160]))
            elif want == 'refused':
                rep.violation('%s|refused' % base, 'the compiler accepts a program that bypasses a check%s\n%s' % (tag, src))
            else:
                rep.violation('%s|accepted' % base, 'the compiler rejects a legitimate program%s\n%s\n%s' % (tag, src, out[:1200]))
    shutil.rmtree(d + '/o', ignore_errors=True)
    if 'programs that have to be rejected' not in ' '.join(rep.rules):
        rep.rules.append('programs that have to be rejected by the compiler, each beside a twin that has to be accepted')
