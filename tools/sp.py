import sys; sys.path.insert(0,'/verif')
from engine import load, run, interp, seqs
from engine.interp import Program
from engine.terms import show
import traceback
prog=Program(load.dump())
class NS(seqs.NeedSplit): pass
oi=seqs.NeedSplit.__init__
cnt=[0]
def ni(self,*a):
    oi(self,*a); cnt[0]+=1
    if cnt[0]<int(sys.argv[2]):
        print('SPLIT',show(self.cond)[:500]); print('   ',[ (f.name,f.lineno) for f in traceback.extract_stack()[-7:-1]])
seqs.NeedSplit.__init__=ni
k=[k for k in prog.roots if sys.argv[1] in k][0]
r=run.run_root(prog,k)
print(r.error, r.obls)
