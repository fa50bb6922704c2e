"""functions of the library that no specification reaches"""
import sys, re, glob
sys.path.insert(0, '/verif')
from engine import load, run
from engine.interp import Program
import multiprocessing as mp
J = load.dump(())
prog = Program(J)


def one(k):
    sys.setrecursionlimit(20000)
    try:
        return sorted(run.run_root(prog, k).analysed)
    except BaseException:
        return []


if __name__ == '__main__':
    roots = [k for k in prog.roots if re.match(r'p\d\d', k.split('@')[-1].split('[')[0].split('::')[-1])]
    seen = set()
    with mp.get_context('fork').Pool(8) as p:
        for a in p.imap_unordered(one, roots):
            seen.update(a)
    import json
    json.dump(sorted(seen), open('/tmp/analysed.json', 'w'))
    print(len(seen))
    hit = set()
    for k in seen:
        f = J['fns'].get(k)
        if f:
            m = re.match(r'(?:/repo/)?(\S+?):(\d+)', str(f.get('span')))
            if m:
                hit.add((m.group(1), int(m.group(2))))
    tot = un = 0
    for p in sorted(glob.glob('/repo/src/**/*.rs', recursive=True)):
        rel = p[6:]
        impl = ''
        for i, l in enumerate(open(p), 1):
            if l.startswith('#[cfg(test)]') or re.match(r'mod tests?\b', l):
                break
            if re.match(r'\s*(unsafe )?impl\b', l):
                impl = l.strip()
            m = re.match(r'\s*(pub(\(\w+\))? )?(const )?(unsafe )?fn (\w+)', l)
            if m and not l.strip().endswith(';'):
                tot += 1
                if not any(h[0].endswith(rel) and i - 6 <= h[1] <= i for h in hit):
                    un += 1
                    print('%s:%d %s   [%s]' % (rel, i, l.strip()[:70], impl[:70]))
    print(tot, un)
