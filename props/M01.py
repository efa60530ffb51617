"""Matrix products: every product routine returns the exact product (all dagger variants), for all inputs."""
from matfn import *
CFGS=['nc3','nc2','nc4','nc5nd3','nc3s','nc2s','nc4s']
def run(ck):
    ck.par(CFGS,one)
def one(ck,cfg):
    ex=Exec(cfg); ex.load_all([x for x in build.sources() if x.startswith('Matrix_Ops/MMUL/')])
    n=ex.NC
    b,c=M('b',n),M('c',n); a0=M('a',n)
    gen={'multab':mm(b,c),'multab_dag':mm(b,dag(c)),'multabdag':mm(dag(b),c),'multab_dagdag':mm(dag(b),dag(c))}
    for f,w in gen.items():
        prove(ck,ex,f,[cout('a',w),cin('b',b),cin('c',c)])
    prove(ck,ex,'multab_atomic_left',[cinout('a',a0,mm(b,a0)),cin('b',b)])
    prove(ck,ex,'multab_atomic_right',[cinout('a',a0,mm(a0,b)),cin('b',b)])
    if n<=3:   # separate special-unitary variants exist; inputs in SU(N)
        u,v=SU('u',n),SU('v',n)
        su={'multab_suNC':mm(u,v),'multab_dag_suNC':mm(u,dag(v)),'multabdag_suNC':mm(dag(u),v),'multab_dagdag_suNC':mm(dag(u),dag(v))}
        for f,w in su.items():
            prove(ck,ex,f,[cout('a',w),cin('b',u,g_su(n)),cin('c',v,g_su(n))])
