"""Runs the analysis for one property and reports its verdict."""
import fcntl, json, os, re, signal, sys, time, traceback
import multiprocessing as mp
from . import load, plan

VERIF = load.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.json')
ROOT_LIMIT = 150
PROGS = {}


class Late(Exception):
    pass


def root_name(k):
    return k.split('@')[-1].split('[')[0].replace('witness::', '', 1)


def roots_for(prog, pid):
    if plan.PLAN[pid].get('all'):
        return [k for k in prog.roots if re.match(r'p\d\d($|_)', root_name(k).split('::')[-1])]
    pat = re.compile(r'%s($|_)' % pid.lower())
    return [k for k in prog.roots if pat.match(root_name(k).split('::')[-1])]


def first(bad, n):
    """the first n details of every obligation"""
    out, seen = [], {}
    for d in bad:
        seen[d[0]] = seen.get(d[0], 0) + 1
        if seen[d[0]] <= n:
            out.append(d)
    return out


def job(a):
    cfg, key = a
    from . import run
    sys.setrecursionlimit(20000)

    def alarm(*_):
        raise Late()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(ROOT_LIMIT)
    try:
        r = run.run_root(PROGS[cfg], key)
        return cfg, key, dict(obls=r.obls, bad=first(r.bad, 6), und=r.und[:4], nbad=len(r.bad), reached=r.reached, steps=r.steps,
                              callsites=r.callsites, loops=r.loops, analysed=sorted(r.analysed), unsafe=sorted(r.unsafe_calls),
                              unknown=r.unknown, loop_fail=r.loop_fail, cases=r.cases, error=r.error,
                              paths=r.paths, time=r.time)
    except Late:
        return cfg, key, dict(error='time limit')
    except BaseException as e:
        return cfg, key, dict(error='%s: %s' % (type(e).__name__, traceback.format_exc()[-600:]))
    finally:
        signal.alarm(0)


def known_findings():
    try:
        return json.load(open(KNOWN))
    except OSError:
        return {'findings': [], 'fixed': []}


def site(d):
    """identity of a violation inside its obligation: where it happens, without line numbers"""
    if d[0] in ('no-ub', 'no-unreachable') or (len(d) > 2 and ' in ' in str(d[2]) and ' at ' in str(d[2])):
        return re.sub(r' at \S+:\d+.*$', '', str(d[2]))
    return ''


def fkey(cfg, root, oid, s):
    k = '%s|%s' % (root_name(root), oid)
    return k + ('|' + s if s else '')


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.viol = []       # (key, text)
        self.und = []
        self.cov = dict(configurations=0, specifications=0, obligations=0, discharged=0, undecided=0, violated=0,
                        functions_analysed=0, call_sites=0, paths=0, block_visits=0, loops_summarised=0,
                        unmodelled_calls=0, rule_instances=0, skipped_cases=0)
        self.fns = set()
        self.samples = []
        self.rules = []
        self.unsafe = set()

    def violation(self, key, text):
        self.viol.append((key, text))

    def finish(self, extra=None):
        kf = known_findings()
        mine = {f['key']: f for f in kf['findings'] if f['property'] == self.pid}
        live = []
        seen = set()
        for k, t in self.viol:
            if k in seen:
                continue
            seen.add(k)
            if k in mine:
                continue
            live.append((k, t))
        for k, f in mine.items():
            if k in seen:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']))
        for d in self.und[:20]:
            print('UNDECIDED %s' % d)
        self.cov['functions_analysed'] = len(self.fns)
        self.cov['violated'] = len(seen)
        rp = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, self.pid + '.txt')
        if live:
            with open(path, 'w') as f:
                for k, t in live:
                    f.write('## %s\n%s\n\n' % (k, t))
        elif os.path.exists(path):
            os.remove(path)
        from .explain import EXPLAIN, ASSUME
        cov = dict(self.cov)
        cov['explanation'] = EXPLAIN
        cov['rules'] = self.rules
        cov['samples'] = self.samples[:12]
        cov['undecided_list'] = self.und[:20]
        if self.unsafe:
            cov['unsafe_operations_reached'] = sorted('%s -> %s' % x for x in self.unsafe)
        cov.update(extra or {})
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=cov, wall_s=round(time.time() - self.t0, 3), violations=len(live), assumptions=ASSUME)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
        print('%s: %d specifications, %d obligations, %d discharged, %d undecided, %d rule instances, %d functions, %.1fs' % (
            self.pid, cov['specifications'], cov['obligations'], cov['discharged'], cov['undecided'],
            cov['rule_instances'], cov['functions_analysed'], ev['wall_s']))
        for k, t in live:
            print('  %s\n    %s' % (k, t.replace('\n', '\n    ')[:1600]))
        if live:
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        return 0


def programs(cfgs):
    """compile and load the library under every configuration"""
    from .interp import Program
    out = {}
    os.makedirs(load.WORK, exist_ok=True)
    with open(os.path.join(load.WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        load.driver()
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(4) as ex:
            fs = {c: ex.submit(load.dump, c) for c in cfgs}
            for c, f in fs.items():
                try:
                    out[c] = f.result()
                except load.BuildFailure as e:
                    out[c] = e
    return out


def library_builds(cfg):
    cmd = ['cargo', 'check', '--offline', '--lib', '--manifest-path', load.REPO + '/Cargo.toml']
    fs = [f for f in cfg if not f.startswith('@')]
    if fs:
        cmd += ['--features', ','.join(fs)]
    rc, log = load.sh(cmd, {'CARGO_TARGET_DIR': os.path.join(load.WORK, 'tgt-lib')})
    return rc == 0


def check(pid, tier):
    from .interp import Program
    from . import rules
    rep = Report(pid, tier)
    pl = plan.PLAN[pid]
    cfgs = plan.configs(pid, tier)
    base = set()
    if not pl.get('engine', True):
        for c in cfgs:
            rep.cov['configurations'] += 1
            for f in pl.get('rules', ()):
                getattr(rules, f)(rep, None, c)
        return rep
    dumps = programs(cfgs)
    for c in cfgs:
        d = dumps[c]
        if isinstance(d, load.BuildFailure):
            if c == () or library_builds(c):
                m = re.findall(r'^error.*(?:\n.*){0,6}', d.log, re.M)
                rep.violation('build|%s' % '+'.join(c), 'the specification no longer type-checks against the library\n' + '\n'.join(m[:3]) + d.log[-300:])
            else:
                rep.violation('build|%s' % '+'.join(c), 'the library does not compile with features %s' % ','.join(c))
            continue
        # one program at a time: the engine's side tables are per program
        prog = PROGS[c] = Program(d)
        rep.cov['configurations'] += 1
        rs = roots_for(prog, pid)
        if c == () and len(rs) < pl.get('floor', 0):
            rep.violation('floor', 'only %d of %d specification functions found' % (len(rs), pl['floor']))
        jobs = [(c, k) for k in rs]
        if jobs:
            with mp.get_context('fork').Pool(min(8, len(jobs))) as pool:
                for _, k, r in pool.imap_unordered(job, sorted(jobs), chunksize=1):
                    absorb(rep, c, k, r, pl.get('only'))
        for f in pl.get('rules', ()):
            getattr(rules, f)(rep, prog, c)
        del PROGS[c]
        if c == () and pl.get('beyond_base'):
            # other properties report what fails by default
            base = {k for k, _ in rep.viol if k != 'floor'}
    if pl.get('beyond_base'):
        rep.viol = [x for x in rep.viol if x[0] not in base]
    return rep


def absorb(rep, c, k, r, only=None):
    if only and 'obls' in r:
        # the same paths, judged by these obligations only
        r = dict(r, obls={o: v for o, v in r['obls'].items() if o in only}, bad=[d for d in r['bad'] if d[0] in only],
                 reached=True)
        for caller, callee in r['unsafe']:
            rep.unsafe.add((root_name(caller), callee))
        if not r['obls'] and not r['error']:
            r['obls'] = {'no-ub': (len(r['unsafe']), 0, 0)} if r['unsafe'] else {}
    tag = root_name(k) + (' [%s]' % ','.join(c) if c else '')
    cov = rep.cov
    cov['specifications'] += 1
    if 'obls' not in r:
        cov['undecided'] += 1
        rep.und.append('%s: %s' % (tag, r['error']))
        return
    rep.fns.update(r['analysed'])
    cov['call_sites'] += r['callsites']
    cov['paths'] += r['paths']
    cov['block_visits'] += r['steps']
    cov['loops_summarised'] += r['loops']
    cov['unmodelled_calls'] += sum(r['unknown'].values())
    for oid, (ok, bad, und) in sorted(r['obls'].items()):
        cov['obligations'] += ok + bad + und
        cov['discharged'] += ok
        cov['undecided'] += und
        if und:
            rep.und.append('%s: %s (%d paths)' % (tag, oid, und))
        if ok and len(rep.samples) < 40:
            rep.samples.append('%s: %s on %d paths' % (tag, oid, ok))
    for d in r['bad']:
        s = site(d)
        rep.violation(fkey(c, k, d[0], s), 'specification %s, obligation "%s" violated\n%s' % (
            tag, d[0], '\n'.join(str(x)[:1500] for x in d[2:])))
    if r['error']:
        cov['undecided'] += 1
        rep.und.append('%s: %s' % (tag, r['error'][:300]))
    elif not r['cases']:
        cov['skipped_cases'] += 1
    elif not r['reached'] and not r['bad'] and not r['und'] and not r['loop_fail'] and not r['unknown']:
        rep.violation(fkey(c, k, 'end', ''), 'specification %s: no path reaches its end (every path panics or is cut off)' % tag)


def main(pids, tier):
    rc = 0
    for pid in pids or list(plan.PLAN):
        if pid not in plan.PLAN:
            print('no check for %s' % pid)
            return 2
        rep = check(pid, tier)
        rc |= rep.finish()
        PROGS.clear()
    return rc
