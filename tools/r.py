import sys,time,json; sys.path.insert(0,'/verif')
from engine import load, run
from engine.interp import Program
feats=()
if '-f' in sys.argv:
    i=sys.argv.index('-f'); feats=tuple(sys.argv[i+1].split(',')); del sys.argv[i:i+2]
try: j=load.dump(feats)
except load.BuildFailure as e:
    print(e.what); print(e.log[-3000:]); sys.exit(1)
prog=Program(j)
import re
pat=sys.argv[1:]
v='-v' in pat
pat=[p for p in pat if p!='-v']
tot=0
for k in prog.roots:
    n=k.split('@')[-1].split('[')[0]
    last=n.split('::')[-1]
    if not re.match(r'p\d\d',last): continue
    if pat and not any(re.search(p, n) for p in pat): continue
    r=run.run_root(prog,k)
    bad=any(o[1] or o[2] for o in r.obls.values()) or r.error or not r.obls or not r.reached or r.unknown or r.loop_fail
    print('!!' if bad else 'ok',n.replace('witness::',''),'%.2fs'%r.time,'steps',r.steps,'cases',r.cases,'paths',r.paths, '' if not bad and not v else str(r.obls)+str(r.reached))
    if bad or v:
        print('   ', 'err',r.error,'UNK',r.unknown, 'LF',r.loop_fail)
        for b in r.bad[:2]+r.und[:2]: print('   ',*[ '\n        '+str(x)[:1500] for x in b])
