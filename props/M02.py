"""Elementary matrix algebra: every building block equals its mathematical definition."""
from matfn import *
from fractions import Fraction
CFGS=['nc3','nc2','nc4','nc5nd3','nc3s','nc2s','nc4s']
SRC=['Matrix_Ops/U_Nops.c','Matrix_Ops/exactQ.c','Matrix_Ops/trace_abc.c','Matrix_Ops/trace_abc_SSE.c','Matrix_Ops/LU.c','Matrix_Ops/LU_SSE.c']
def pack(a):
    n=isq(len(a)); return [a[i*n+j] for i in range(n-1) for j in range(i,n)]
def antiH(u): return mscale(msub(u,dag(u)),Fraction(1,2))
def traceless(q):
    n=isq(len(q)); t=mtr(q)*Fraction(1,n)
    return [x-t if i%(n+1)==0 else x for i,x in enumerate(q)]
def quat(name):
    a,b=sym(name+'a','cplx'),sym(name+'b','cplx'); return [a,b,-b.conj(),a.conj()]
def ah(name,n):
    h=HERM(name,n,True); return [x.scale(1j) for x in h]
def run(ck):
    ck.par(CFGS,one)
def one(ck,cfg):
    ex=Exec(cfg); n=None
    ex.load_all([s for s in build.sources() if s in SRC or s.startswith('Matrix_Ops/MMUL/')]); n=ex.NC; n2=n*n
    a,b,c=M('a',n),M('b',n),M('c',n); C=sym('C','cplx'); S=sym('S'); I1=ident(n)
    H=len(pack(a)); hs=lambda nm:[sym('%s%d'%(nm,i),'cplx') for i in range(H)]
    p=lambda f,args,**k: prove(ck,ex,f,args,**k)
    p('add_constant',[cinout('a',a,madd(a,mscale(I1,C))),cs('C',C)])
    p('a_plus_b',[cinout('a',a,madd(a,b)),cin('b',b)])
    p('a_plus_CSxb',[cinout('a',a,madd(a,mscale(b,C))),cin('b',b),cs('C',C)])
    p('a_plus_Sxb',[cinout('a',a,madd(a,mscale(b,S))),cin('b',b),rs('S',S)])
    x,y,z=hs('x'),hs('y'),hs('z')
    p('a_plus_Sxbminc_short',[cinout('x',x,[x[i]+S*(y[i]-z[i]) for i in range(H)]),rs('S',S),cin('y',y),cin('z',z)])
    p('b_min_c',[cout('a',msub(b,c)),cin('b',b),cin('c',c)])
    p('dagger',[cout('b',dag(a)),cin('a',a)])
    p('transpose',[cout('a',tran(b)),cin('b',b)])
    p('diag',[cout('a',mscale(I1,C)),cs('C',C)])
    v=[sym('v%d'%i,'cplx') for i in range(n)]; w=[sym('w%d'%i,'cplx') for i in range(n)]
    p('diag_vect',[cout('a',[v[i//(n+1)] if i%(n+1)==0 else ZERO for i in range(n2)]),cin('v',v)])
    p('equiv',[cout('a',b),cin('b',b)])
    p('identity',[cout('a',I1)])
    p('zero_mat',[cout('a',[ZERO]*n2)])
    p('M_times_c',[cinout('a',a,mscale(a,C)),cs('C',C)])
    p('mat_mult_vec',[cout('r',[sum((a[i*n+k]*v[k] for k in range(n)),ZERO) for i in range(n)]),cin('a',a),cin('v',v)])
    p('outerproduct',[cout('a',[v[i]*w[j].conj() for i in range(n) for j in range(n)]),cin('v',v),cin('w',w)])
    p('trace',[cin('a',a)],ret=mtr(a))
    p('speed_trace',[cout('t',[mtr(a)]),cin('a',a)])
    p('speed_trace_Re',[rout('t',[T.re(mtr(a))]),cin('a',a)])
    p('trace_ab',[cout('t',[mtr(mm(a,b))]),cin('a',a),cin('b',b)])
    p('trace_ab_dag',[cout('t',[mtr(mm(a,dag(b)))]),cin('a',a),cin('b',b)])
    p('trace_ab_dag_Re',[rout('t',[T.re(mtr(mm(a,dag(b))))]),cin('a',a),cin('b',b)])
    if n==2:   # the two-colour forms rely on tracelessness, as their callers guarantee
        h1,h2=HERM('h',n,True),HERM('k',n,True)
    else: h1,h2=HERM('h',n),HERM('k',n)
    p('trace_ab_herm',[rout('t',[mtr(mm(h1,h2))]),cin('a',h1),cin('b',h2)])
    p('trace_prod_herm',[rout('t',[mtr(mm(h1,h1))]),cin('a',h1)])
    h1,h2=HERM('h',n,True),HERM('k',n,True)
    p('trace_ab_herm_short',[rout('t',[mtr(mm(h1,h2))]),cin('a',pack(h1)),cin('b',pack(h2))])
    p('pack_hermitian',[cout('a',pack(a)),cin('b',a)])
    p('rebuild_hermitian',[cout('a',h1),cin('b',pack(h1))])
    q1=ah('h',n)
    p('rebuild_antihermitian',[cout('a',q1),cin('b',pack(q1))])
    # triple traces
    p('trace_abc',[cout('t',[mtr(mms(a,b,c))]),cin('a',a),cin('b',b),cin('c',c)])
    p('trace_abc_dag',[cout('t',[mtr(mms(a,b,dag(c)))]),cin('a',a),cin('b',b),cin('c',c)])
    p('trace_abc_dag_Re',[rout('t',[T.re(mtr(mms(a,b,dag(c))))]),cin('a',a),cin('b',b),cin('c',c)])
    if n<=3: s,t_,u=SU('s',n),SU('t',n),SU('u',n)
    else: s,t_,u=a,b,c
    g=g_su(n) if n<=3 else None
    p('Re_trace_abc_dag_suNC',[cin('a',s,g),cin('b',t_,g),cin('c',u,g)],ret=T.re(mtr(mms(s,t_,dag(u)))))
    # projections: for two colours the operands are real multiples of SU(2) matrices
    U=quat('q') if n==2 else a
    p('AntiHermitian_proj',[cout('Q',antiH(U)),cin('U',U)])
    tl=traceless(antiH(U))
    p('trf_AntiHermitian_proj',[cout('Q',tl),cin('U',U)])
    p('AntiHermitian_proj_short',[cout('Q',pack(tl)),cin('U',U)])
    hp=[x.scale(-1j) for x in tl]
    p('Hermitian_proj',[cout('Q',hp),cin('U',U)])
    p('Hermitian_proj_short',[cout('Q',pack(hp)),cin('U',U)])
