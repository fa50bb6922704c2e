import sys; sys.path.insert(0,'/verif')
from engine import load, run, interp, seqs, values
from engine.interp import Program
from engine.terms import show
prog=Program(load.dump())
o=seqs.seq_eq
def f(a,b,F,v):
    r=o(a,b,F,v)
    print('SEQ',show(seqs.norm(a,F))[:900],'\n    ',show(seqs.norm(b,F))[:900],'\n  ->',show(r)[:300])
    return r
seqs.seq_eq=f
k=[k for k in prog.roots if sys.argv[1] in k][0]
r=run.run_root(prog,k)
print(r.error, r.obls)
