"""Determinant, cofactor and inverse."""
from linalg import *
CFGS=['nc3','nc2','nc4','nc5nd3','nc3s','nc2s','nc4s']
SRC=['Matrix_Ops/U_Nops.c','Matrix_Ops/LU.c','Matrix_Ops/LU_SSE.c','Matrix_Ops/invert.c','Matrix_Ops/invert_SSE.c']
def lu_contract(ex,st,args,I):
    n=args[0].const(); W=getm(ex,st,args[1],n*n)
    d=mdet(W); return [(st,Agg([T.re(d),T.im(d)]) if I is None or I.ty[0]!='vec' else Vec([T.re(d),T.im(d)]))]
def run(ck):
    ck.par(CFGS,one)
    ck.assumptions.append('inverse: identity proved wherever the pivots are non-zero; largest-pivot selection keeps them non-zero for invertible input')
def one(ck,cfg):
    ex=Exec(cfg); ex.load_all([s for s in build.sources() if s in SRC or s.startswith('Matrix_Ops/MMUL/')]); n=ex.NC; n2=n*n
    a=M('a',n)
    if n>3 or cfg.endswith('s'):
        for N in ((n-1,n) if n>3 else (n,)):
            for f in ('LU_det_overwrite','LU_det'):
                if ex.fn(f) is not None: prove_lu(ck,ex,f,N)
                elif n>3: ck.ob('%s[%s]'%(f,cfg),False,f,'function missing')
    ex.contracts['LU_det']=lu_contract
    prove(ck,ex,'det',[cin('a',a)],ret=mdet(a))
    prove(ck,ex,'speed_det',[cout('d',[mdet(a)]),cin('a',a)])
    adj=[]
    for i in range(n):
        for j in range(n):
            sub=[a[r*n+c] for r in range(n) if r!=j for c in range(n) if c!=i]
            adj.append(mdet(sub).scale((-1)**(i+j)))
    prove(ck,ex,'cofactor_transpose',[cout('c',adj),cin('a',a)],ret=mdet(a))
    ex.contracts.pop('LU_det')
    prove_inverse(ck,ex)
    if ex.fn('newton_approx_inverse') is not None: prove_newton(ck,ex)
