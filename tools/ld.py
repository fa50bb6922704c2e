import sys; sys.path.insert(0,'/verif')
from engine import load, run, loops
from engine.interp import Program
from engine.terms import show
prog=Program(load.dump())
og=loops.Loop.guess
os_=loops.solve
def ind(I,fn,fid,h,body,st,peeled, o=loops.induct):
    print('INDUCT',fn.j['def'],h,'peeled',peeled)
    r=o(I,fn,fid,h,body,st,peeled)
    print('END INDUCT',fn.j['def'],[x.kind for x in r]); return r
loops.induct=ind
def op(I,fn,fid,h,body,st,o=loops.one_pass):
    print(' HEADER'); 
    for s,v in st.store.items():
        print('    ',s,str(show(v))[:300])
    b,r=o(I,fn,fid,h,body,st)
    for x in b:
        print('  BACK'); 
        for s,v in x.st.store.items():
            if st.store.get(s) is not v: print('    ',s,str(show(v))[:300])
    print('  OUTS',[(x.kind) for x in r])
    return b,r
loops.one_pass=op
def mt(self,t,v,F,rec,o=loops.Loop.match):
    r=o(self,t,v,F,rec)
    if r is not t: print('   MATCH FAIL',show(t)[:400],'<<>>',show(v)[:400], '->', r and show(r)[:300])
    return r
loops.Loop.match=mt
def sl(L,p,vs,jid,o=loops.solve):
    r=o(L,p,vs,jid); print('   SOLVE',show(p.sym),p.kind,'v0',show(p.v0)[:200],[show(v)[:300] for v,_ in vs],'->',r and show(r)[:300]); return r
loops.solve=sl
k=[k for k in prog.roots if sys.argv[1] in k][0]
r=run.run_root(prog,k)
print(r.error, r.obls)
