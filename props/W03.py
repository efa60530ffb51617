"""Clover field strength, action density and topological charge."""
from words import *
import exec as _X
from lattice import field_offsets
CFGS=['nc3','nc2','nc4','nc3s','nc2s','nc4s','nc2ci','nc3ci']
SRC=['Field/clover.c','Smear/wflowfuncs.c','Field/plaqs_links.c','Matrix_Ops/','Utils/GLU_malloc.c','Geometry/']
PAIRS=((3,0,1,2),(3,1,2,0),(3,2,0,1))
DIMS=([4,3,2,5],[3,2,5,2])
QN=-1/(64*np.pi**2)
KS=[(1,1,19/9.),(2,2,1/36.),(1,2,-16/45.),(2,1,-16/45.),(1,3,1/30.),(3,1,1/30.)]
def leaves(cfg,mu,nu):
    """closed paths (weight, steps) of the clover, all in the same orientation, starting at the site"""
    for a,b,k in (KS if cfg.endswith('ci') else [(1,1,1)]):
        A,B=[(mu,1)]*a,[(nu,1)]*b; Am,Bm=[(mu,-1)]*a,[(nu,-1)]*b
        for p in (A+B+Am+Bm, Bm+A+B+Am, Am+Bm+A+B, B+Am+Bm+A): yield k,p
def run(ck): ck.par(CFGS,one)
def one(ck,cfg):
    ex,w=lat_world(cfg,SRC); nd,n=w.nd,w.n; wd=Words(n); wd.contracts(ex)
    Uf=plain_su('lat',n); U=lambda i,m: Uf(i,m); lat=w.lat(gen=U)
    rep=rep_session(ck,cfg,lambda s: native(s,ck.seed),what='clover',dims=DIMS,wrap=WRAPC)
    # three colours with the 24 paths of the improved clover: the hermitian projection by contract
    opaque=cfg=='nc3ci'
    def HP(S):
        h=[[app('hproj_%d%d'%(min(a,b),max(a,b)),tuple(S),'real' if a==b else 'cplx') for b in range(n)] for a in range(n)]
        h[n-1][n-1]=ZERO-h[0][0]-h[1][1]
        return [h[a][b] if a<=b else h[a][b].conj() for a in range(n) for b in range(n)]
    if opaque:
        def hc(ex_,st,a,I): setm(ex_,st,a[0],HP(getm(ex_,st,a[1],n*n))); return [(st,None)]
        ex.contracts['Hermitian_proj']=hc
    memo={}
    def G(i,mu,nu):
        k=(P(i).key(),mu,nu)
        if k not in memo:
            S=[ZERO]*(n*n)
            for c,p in leaves(cfg,mu,nu): S=madd(S,mscale(wd.path(U,i,p,w.nbr),num(c)))
            memo[k]=HP(S) if opaque else hproj(S)
        return memo[k]
    tr=lambda a,b: mtr(mm(a,b))
    def dens(i): return sum((tr(G(i,a,b),G(i,a,b))+tr(G(i,c,d),G(i,c,d)) for a,b,c,d in PAIRS),ZERO)
    def q(i): return sum((tr(G(i,a,b),G(i,c,d)) for a,b,c,d in PAIRS),ZERO)
    GG,Q=sumV(w,dens),sumV(w,q)
    gg,qt=robj('GG',[None]),robj('Q',[None])
    lat_obs(ck,ex,w,'compute_Gmunu',[Ptr(gg),Ptr(qt),lat],outs=[('density',Ptr(gg),'r',[GG]),('charge',Ptr(qt),'r',[Q])],replay=rep,frame=[lat])
    red=robj('red',[sym('r%d'%k) for k in range(64)])
    lat_obs(ck,ex,w,'compute_Gmunu_th',[Ptr(red),lat],outs=[('density',Ptr(red),'r',[GG,Q]+[sym('r%d'%k) for k in range(2,8)])],pre=(c_eq(w.Nth-1),),replay=rep,frame=[lat])
    arr,x=carr_out(w,'qtop'),sym('x','int')
    lat_obs(ck,ex,w,'compute_Gmunu_array',[Ptr(arr),lat],outs=[('charge-density',Ptr(arr,(x,)),'c',[q(x)])],pre=(c_le(-x),c_lt(x-w.V)),replay=rep,frame=[lat])
    # charge and action density derived from the per-thread sums
    ex.contracts['compute_Gmunu_th']=lambda ex_,st,a,I: ([(st,None)] if a[1].obj is lat.obj and a[0].obj.name=='red' else bad_args('compute_Gmunu_th'))
    rd=Obj('red',None,None,ext=True); rd.stride0=8
    off={}
    def rinit(ex_,st,idx,inner,ty,size):
        k=(idx[0] if idx else ZERO)+inner//8
        return app('red@0',(k,),'real')
    rd.init=rinit
    CL=8; k=sym('k','int'); R=lambda c: SUM(k,ZERO,w.Nth,app('red@0',(k.scale(CL)+c,),'real'))
    qn,qo=robj('qnew',[None]),robj('qold',[sym('qold')]); it=sym('iter','int')
    new=R(1).scale(QN)
    def go():
        res=ex.call(ex.fn('gauge_topological_meas_th'),[Ptr(rd),lat,Ptr(qn),Ptr(qo),it],State())
        seen=set()
        for j,(st,rv) in enumerate(res):
            nm='gauge_topological_meas_th[%s]/path%d'%(cfg,j)
            g=getr(ex,st,Ptr(qn),0); ok=equal(g,new) is True
            ck.ob(nm+'/charge',ok,'gauge_topological_meas_th','' if ok else 'got %s expected %s'%(show(g),show(new)),replay=rep)
            if j==0: ck.canary(nm,not equal(g,new+sym('canary')))
            r=ex.asint(rv).const(); seen.add(r); o=getr(ex,st,Ptr(qo),0)
            ok=equal(o,sym('qold') if r==0 else new) is True
            ck.ob(nm+'/previous',ok,'gauge_topological_meas_th','' if ok else 'previous charge %s after return %s'%(show(o),r),replay=rep)
        ck.ob('gauge_topological_meas_th[%s]/outcomes'%cfg,seen=={0,-1},'gauge_topological_meas_th','outcomes %s'%seen,replay=rep)
    ck.guard('gauge_topological_meas_th[%s]'%cfg,go,'gauge_topological_meas_th',replay=rep)
    fo,size=field_offsets(ex,'wfmeas'); tt,dt,em,pl=sym('t'),sym('dt'),sym('err'),sym('plaq')
    cur=Obj('curr',None,num(size),ext=True); head=Obj('head',None,num(size),ext=True)
    cur.init=lambda ex_,st,idx,inner,ty,size: (_X.NULL if ty==('ptr',) else sym('curr%d'%inner)); head.init=cur.init
    ex.contracts['print_flow']=lambda ex_,st,a,I: [(st,None)]
    def go2():
        GT=T.div(R(0),w.V.scale(16)); res=ex.call(ex.fn('update_meas_list'),[Ptr(head),Ptr(cur),Ptr(rd),pl,tt,dt,em,lat],State())
        for j,(st,rv) in enumerate(res):
            nm='update_meas_list[%s]/path%d'%(cfg,j)
            for f,want in (('time',tt),('Gt',tt*tt*GT),('qtop',new),('avplaq',pl)):
                g=getr(ex,st,Ptr(cur).plus(fo[f][0]),0); ok=equal(g,want) is True
                ck.ob('%s/%s'%(nm,f),ok,'update_meas_list','' if ok else 'got %s expected %s'%(show(g),show(want)),replay=rep)
                if j==0: ck.canary(nm,not equal(g,want+sym('canary')))
            q=ex.read(st,Ptr(cur).plus(fo['next'][0]),('ptr',),None); ok=isinstance(q,Ptr) and q.obj is head
            ck.ob(nm+'/next',ok,'update_meas_list','' if ok else 'list not linked',replay=rep)
    ck.guard('update_meas_list[%s]'%cfg,go2,'update_meas_list',replay=rep)
    ck.use(ex)
def bad_args(f): raise Violation(f+' called with other arguments')
def carr_out(w,nm):
    o=Obj(nm,None,None,ext=True); o.stride0=16
    def init(ex,st,idx,inner,ty,size): return app(nm+'@0',(idx[0],),'real')
    o.init=init; return o
def native(s,seed):
    rng=np.random.default_rng(seed); n,nd,V=s.n,s.nd,s.V; C=nlat.C; u=nlat.rand_su(rng,(V,nd),n,eps=0.4); lat=s.lat(u); R=[]
    imp=bool(C.c_int.in_dll(s.L,'gl_clover').value)
    def path(steps):
        x=np.arange(V); m=np.broadcast_to(np.eye(n,dtype=complex),(V,n,n))
        for mu,sg in steps:
            if sg>0: m=m@u[x,mu]; x=s.shift(mu)[x]
            else: x=s.shift(mu,-1)[x]; m=m@nlat.dg(u[x,mu])
        return m
    def G(mu,nu): return hp(sum(k*path(p) for k,p in leaves('ci' if imp else '',mu,nu)))
    tr=lambda a,b: np.einsum('xij,xji->x',a,b)
    gs=[(G(a,b),G(c,d)) for a,b,c,d in PAIRS]; GG=sum(tr(a,a)+tr(b,b) for a,b in gs).real.sum(); q=sum(tr(a,b) for a,b in gs); Q=q.real.sum()
    def bad(fn,what,got,want):
        if not np.allclose(got,want,rtol=1e-7,atol=1e-7*max(1,np.max(np.abs(want)))): return dict(function=fn,output=what,got=str(got)[:200],expected=str(want)[:200],field='random SU(N)',improved=imp)
    a,b=C.c_double(),C.c_double(); s.d('compute_Gmunu',C.byref(a),C.byref(b),lat,ret=None)
    R+=[bad('compute_Gmunu','density',a.value,GG),bad('compute_Gmunu','charge',b.value,Q)]
    p,v=s.arr(np.full(64,7.0)); s.d('compute_Gmunu_th',p,lat,ret=None); R+=[bad('compute_Gmunu_th','density',v[0],GG),bad('compute_Gmunu_th','charge',v[1],Q),bad('compute_Gmunu_th','other entries',v[2:],np.full(62,7.0))]
    p,v=s.arr(np.zeros(V,dtype=complex)); s.d('compute_Gmunu_array',p,lat,ret=None); R+=[bad('compute_Gmunu_array','charge density',v,q)]
    p,v=s.arr(np.zeros(64)); qn=Q*QN
    for old in (qn+1e-3,qn+0.3):
        a,b=C.c_double(),C.c_double(old); rc=s.d('gauge_topological_meas_th',p,lat,C.byref(a),C.byref(b),C.c_size_t(3),ret=C.c_int)
        ok=abs(old-qn)<5e-3 and abs(round(qn)-qn)<0.1
        R+=[bad('gauge_topological_meas_th','charge',a.value,qn),bad('gauge_topological_meas_th','return value',rc,0 if ok else -1),bad('gauge_topological_meas_th','previous charge',b.value,old if ok else qn)]
    class M(C.Structure): _fields_=[('time',C.c_double),('qtop',C.c_double),('avplaq',C.c_double),('Gt',C.c_double),('next',C.c_void_p)]
    m=M(); s.d('gl_meas',C.byref(m),p,C.c_double(0.25),C.c_double(1.5),lat,ret=None)
    R+=[bad('update_meas_list',k,x,y) for k,x,y in (('time',m.time,1.5),('Gt',m.Gt,2.25*GG/(16*V)),('qtop',m.qtop,qn),('avplaq',m.avplaq,0.25))]
    for r in R:
        if r: return r
    if not np.array_equal(s.get(lat),u): return dict(function='clover',output='input field modified')
WRAPC='''
#include "wflowfuncs.h"
#ifdef CLOVER_IMPROVE
int gl_clover=1;
#else
int gl_clover=0;
#endif
void gl_meas( double *o , double *red , double plaq , double t , struct site *lat ){
  struct wfmeas c ; update_meas_list( NULL , &c , red , plaq , t , 0.1 , 0.0 , lat ) ;
  o[0]=c.time ; o[1]=c.qtop ; o[2]=c.avplaq ; o[3]=c.Gt ;
}
'''

