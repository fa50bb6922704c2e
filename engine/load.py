"""Builds the MIR exporter, compiles the witness crate against /repo's current
tree with it (nothing is run) and loads the exported program."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = os.path.join(VERIF, 'work')
ALLOW = 'core::;alloc::;std::io::;tedium::;num_integer::;arrayvec::;smallvec::'


class BuildFailure(Exception):
    def __init__(self, what, log):
        self.what, self.log = what, log


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'])
        if rc:
            raise BuildFailure('toolchain', out)
        _sysroot = out.strip().splitlines()[-1]
    return _sysroot


def lib_path():
    return {'LD_LIBRARY_PATH': sysroot() + '/lib'}


def driver():
    """path of the exporter, built on demand"""
    d = os.path.join(VERIF, 'driver')
    exe = os.path.join(WORK, 'driver', 'debug', 'mirdump')
    src = max(os.path.getmtime(os.path.join(d, f)) for f in ('Cargo.toml', 'src/main.rs', 'src/dump.rs', 'src/json.rs'))
    if not os.path.exists(exe) or os.path.getmtime(exe) < src:
        os.makedirs(WORK, exist_ok=True)
        rc, out = sh(['cargo', '+nightly', 'build', '--offline', '--manifest-path', d + '/Cargo.toml'],
                     {'CARGO_TARGET_DIR': os.path.join(WORK, 'driver')})
        if rc or not os.path.exists(exe):
            raise BuildFailure('driver', out)
        os.utime(exe)
    return exe


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        for root, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'work'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.lock')):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()


def loaded(js, features):
    j = json.load(open(js))
    j['wrapping'] = '@release' in features
    return j


def dump(features=(), crate='witness'):
    """exported MIR of the witness crate and everything it can reach"""
    exe = driver()
    tag = crate + ('-' + '-'.join(sorted(features)).replace('@', '') if features else '')
    key = tree_hash([REPO, os.path.join(VERIF, 'witness'), os.path.join(VERIF, 'driver')])
    out = os.path.join(WORK, 'dump', tag)
    stamp = os.path.join(out, 'stamp')
    js = os.path.join(out, crate + '.json')
    try:
        if open(stamp).read() == key and os.path.exists(js):
            return loaded(js, features)
    except OSError:
        pass
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    tgt = os.path.join(WORK, 'tgt-' + tag)
    shutil.rmtree(os.path.join(tgt, 'debug', 'build', 'witness'), ignore_errors=True)
    fp = os.path.join(tgt, 'debug', '.fingerprint')
    for x in os.listdir(fp) if os.path.isdir(fp) else []:
        if x.startswith(('witness-', 'tezos-data-model-')):
            shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    for x in (os.listdir(os.path.join(tgt, 'debug', 'build')) if os.path.isdir(os.path.join(tgt, 'debug', 'build')) else []):
        if x.startswith(('witness', 'tezos-data-model')):
            shutil.rmtree(os.path.join(tgt, 'debug', 'build', x), ignore_errors=True)
    env = dict(lib_path())
    env.update({'RUSTC_WORKSPACE_WRAPPER': exe, 'MIRDUMP_CRATES': crate, 'MIRDUMP_OUT': out,
                'MIRDUMP_ALLOW': ALLOW, 'CARGO_TARGET_DIR': tgt,
                'RUSTFLAGS': '-Zmir-opt-level=0 -Zalways-encode-mir -Awarnings -Zallow-features=formatting_options'})
    if '@release' in features:   # overflow wraps, debug_assert! is not evaluated
        env['RUSTFLAGS'] += ' -Cdebug-assertions=off -Coverflow-checks=off'
    cmd = ['cargo', '+nightly', 'check', '--offline', '--lib', '--manifest-path', os.path.join(VERIF, 'witness', 'Cargo.toml')]
    fs = [f for f in features if not f.startswith('@')]
    if fs:
        cmd += ['--features', ','.join(fs)]
    rc, log = sh(cmd, env)
    if rc or not os.path.exists(js):
        raise BuildFailure('witness', log)
    with open(stamp, 'w') as f:
        f.write(key)
    return loaded(js, features)
